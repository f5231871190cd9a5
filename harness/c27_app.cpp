//PROPERTY C27
//JOB plain len={0,3,20}
//JOB history ops=4
//JOB history ops=5 time=800 tier=thorough
//COVERS constructed moved assigned renamed
//BOUNDS every argument count and argument pointer, notices of 0, 3 and 20 arbitrary bytes, every history of 4 (thorough: 5) constructions, move constructions, move assignments and notice changes over 3 objects
//OUTSIDE what app() returns after the object was destroyed; subclasses other than the desktop GUI application, see C25
#include "symx.h"
#include <cmp/core/definitions.cpp>
using namespace cmp;

ENTRY plain() {
    int argc = sym<int>("argc");
    char **argv = (char **)sym<unsigned long>("argv");
    unsigned len = symx_param("len", 3);
    application a{argc, argv};
    symx_assert(app() == &a && application::get_instance_ptr() == &a, "app() finds the application object");
    symx_assert(a.get_argc() == argc && a.get_argv() == argv, "the object keeps the arguments it was given");
    symx_assert(a.get_copyright_notice().empty(), "there is no notice at first");
    for (int round = 0; round < 2; round++) {
        char8_t *s = new char8_t[len];
        for (unsigned i = 0; i < len; i++) s[i] = sym<unsigned char>("notice");
        a.set_copyright_notice(std::u8string_view{s, len});
        std::u8string got = a.get_copyright_notice();
        symx_assert(got.size() == len, "the notice has its length");
        for (unsigned i = 0; i < len; i++) symx_assert(got[i] == s[i], "the notice is the last one set");
        delete[] s;
        symx_assert(a.get_copyright_notice() == got, "the notice is the object's own copy");
    }
    symx_assert(a.get_argc() == argc && a.get_argv() == argv, "the arguments stay as they were");
    symx_assert(a.run() == 0 && app()->run() == 0, "run returns 0");
    symx_cover("constructed");
}

// three slots; the reference holds what each object was given
ENTRY history() {
    unsigned steps = symx_param("ops", 3);
    alignas(application) static unsigned char room[3][sizeof(application)];
    struct { bool live, known; int argc; char **argv; unsigned char mark, len; } ref[3] = {};
    int cur = -1; // what app() should return
    auto at = [&](unsigned i) -> application & { return *(application *)room[i]; };
    for (unsigned k = 0; k < steps; k++) {
        unsigned op = choose(4, "op"), i = choose(3, "i"), j = choose(3, "j");
        if (op == 0) {
            if (ref[i].live) return;
            int c = sym<int>("argc");
            char **v = (char **)sym<unsigned long>("argv");
            new (room[i]) application{c, v};
            ref[i] = {true, true, c, v, 0, 0};
            cur = (int)i;
        } else if (op == 1) {
            if (ref[i].live || !ref[j].live || i == j || !ref[j].known) return;
            new (room[i]) application{std::move(at(j))};
            ref[i] = ref[j];
            ref[j].known = false;
            if (cur == (int)j) cur = (int)i;
            symx_cover("moved");
        } else if (op == 2) {
            if (!ref[i].live || !ref[j].live || i == j || !ref[j].known) return;
            at(i) = std::move(at(j));
            ref[i] = ref[j];
            ref[j].known = false;
            if (cur == (int)j) cur = (int)i;
            symx_cover("assigned");
        } else {
            if (!ref[i].live || !ref[i].known) return;
            unsigned char m = sym<unsigned char>("mark"), n = choose(2, "long") ? 20 : 1;
            at(i).set_copyright_notice(std::u8string(n, (char8_t)m));
            ref[i].mark = m;
            ref[i].len = n;
            symx_cover("renamed");
        }
        symx_assert(cur < 0 ? app() == nullptr : app() == &at(cur), "app() is the object constructed last, or the one it was moved into");
        for (unsigned q = 0; q < 3; q++) if (ref[q].live && ref[q].known) {
            symx_assert(at(q).get_argc() == ref[q].argc && at(q).get_argv() == ref[q].argv, "every object keeps its arguments, also after being moved");
            symx_assert(at(q).get_copyright_notice() == std::u8string(ref[q].len, (char8_t)ref[q].mark), "every object keeps its notice, also after being moved");
        }
    }
    for (unsigned q = 0; q < 3; q++) if (ref[q].live) at(q).~application();
}

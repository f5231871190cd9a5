//PROPERTY C18
//WRAP open open64 creat close read write pread pwrite lseek lseek64 access fsync ftruncate fstat stat _ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code _ZNSt10filesystem9file_sizeERKNS_7__cxx114pathE _ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code _ZNSt10filesystem6statusERKNS_7__cxx114pathE _ZNSt10filesystem7__cxx114pathaSERKS1_ _ZNSt10filesystem7__cxx114pathaSEOS1_
//JOB opening cap={0,2}
//JOB reopen cap={0,2,3} ops=2
//JOB moves cap={0,2,3} ops=2
//JOB assign cap={0,3}
//COVERS life opened refused created denied moved reopened closed
//JOB life cap={0,3} cap2=2 ops=3
//JOB life cap=2 cap2=0 ops=3
//JOB life cap={0,3} cap2={0,2} ops=4 time=3000 tier=thorough
//BOUNDS every combination of access mode, policy and existence, by constructor or open; reopening, moving and closing after histories of up to 2 reads, writes and seeks on files of 4 symbolic bytes; buffer capacities 0, 2 and 3; every history of 3 (thorough: 4) openings, closings, reads, writes and move assignments of two file objects over three files
//OUTSIDE Windows, permissions, more than three files; the tie of a moved file
//ASSUME system calls and std::filesystem queries behave as POSIX describes (modelled)
#define MODEL_MAX 64
#include "osmodel.h"

static void fill(int i, long n, Model &m) {
    memset(m.data, 0, sizeof m.data);
    os::files[i].exists = true;
    os::files[i].size = n;
    for (long k = 0; k < n; k++) m.data[k] = os::files[i].data[k] = sym<unsigned char>("byte");
    m.size = n;
    m.pos = 0;
}
static void holds(int i, const Model &m, const char *what) {
    bool same = os::files[i].exists && os::files[i].size == m.size;
    symx_assert(same, what);
    if (!same) return;
    for (long k = 0; k < m.size; k++) same = same & (os::files[i].data[k] == m.data[k]);
    symx_assert(same, what);
}
ENTRY opening() {
    os::reset();
    Model m;
    m.size = 0;
    bool exists = choose(2, "exists"), create = choose(2, "create"), late = choose(2, "late");
    unsigned mo = choose(3, "mode");
    access_mode mode = mo == 0 ? read_only : mo == 1 ? write_only : read_and_write;
    if (exists) fill(0, 3, m);
    std::size_t cap = symx_param("cap", 0);
    {
        file f1{};
        file f2{late ? "b" : "a", mode, late ? if_not_there::fail : create ? if_not_there::create : if_not_there::fail, cap};
        file &f = late ? f1 : f2;
        if (late) {
            symx_assert(!f1.is_open() && !f2.is_open() && !os::files[1].exists, "a missing file is neither opened nor created when it must exist");
            bool r = f1.open("a", mode, create ? if_not_there::create : if_not_there::fail);
            symx_assert(r == f1.is_open(), "open tells whether the file is open");
        }
        bool want = exists || create;
        symx_assert(f.is_open() == want, "a file opens if it exists or may be created");
        symx_assert(os::files[0].exists == want, "a file is created only on request");
        symx_assert(os::files[0].size == (exists ? 3 : 0), "opening keeps the content");
        symx_cover(want ? "opened" : "refused");
        if (want && !exists) symx_cover("created");
        if (want) {
            symx_assert(f.get_access_mode() == mode, "the access mode is the one asked for");
            symx_assert(f.get_position() == 0, "a file opens at its start");
            bool rd = mode != write_only, wr = mode != read_only;
            std::byte b[1] = {(std::byte)sym<unsigned char>("written")};
            std::byte got[2];
            bool threw = false;
            try { std::size_t n = f.read(got, 1); symx_assert(n == (exists ? 1 : 0) && (!n || (unsigned char)got[0] == m.data[0]), "a readable file can be read"); }
            catch (const invalid_access_mode &) { threw = true; symx_cover("denied"); }
            symx_assert(threw == !rd, "reading is refused exactly when the file is not open for reading");
            threw = false;
            f.set_position(0, position_reference::begin);
            try { std::size_t n = f.write(b, 1); symx_assert(n == 1, "a writable file can be written"); m.data[0] = (unsigned char)b[0]; if (m.size < 1) m.size = 1; }
            catch (const invalid_access_mode &) { threw = true; }
            symx_assert(threw == !wr, "writing is refused exactly when the file is not open for writing");
            if (choose(2, "close")) {
                f.close();
                symx_cover("closed");
                symx_assert(!f.is_open(), "a closed file is not open");
                if (wr) holds(0, m, "closing writes out pending output");
                f.close();
            }
        }
    }
    if (os::files[0].exists) holds(0, m, "the file holds what was written");
    symx_assert(!os::leaked() && os::bad_calls == 0, "every descriptor is closed exactly once and not used afterwards");
}
static void some(file &f, Model &m) {
    unsigned ops = symx_param("ops", 2);
    for (unsigned s = 0; s < ops; s++) {
        switch (choose(4, "operation")) {
        case 0: step_read(f, m, 1 + choose(4, "count")); break;
        case 1: step_write(f, m, 1 + choose(3, "count")); break;
        case 2: step_seek(f, m, 0, choose((unsigned)m.size + 1, "target")); break;
        case 3: f.flush(); break;
        }
    }
}
ENTRY reopen() {
    os::reset();
    Model a, b;
    fill(0, 4, a);
    fill(1, 4, b);
    {
        file f{"a", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        some(f, a);
        unsigned how = choose(3, "how");
        if (how == 1) f.close();
        if (how == 2) { // a failing open leaves the file closed
            bool r = f.open("c", read_and_write, if_not_there::fail);
            symx_assert(!r && !f.is_open(), "opening a missing file fails and leaves nothing open");
            holds(0, a, "the previous file holds what was written to it");
        }
        bool r = f.open("b", read_and_write, if_not_there::fail);
        symx_assert(r && f.is_open(), "a file can be opened again");
        symx_cover("reopened");
        holds(0, a, "the previous file holds what was written to it");
        check_position(f, b);
        symx_assert(!f.is_at_end(), "the end is that of the newly opened file");
        step_read(f, b, 1 + choose(4, "count"));
        symx_assert(f.is_at_end() == (b.pos == b.size), "the end is that of the newly opened file");
        some(f, b);
    }
    holds(0, a, "the previous file keeps what was written to it");
    holds(1, b, "the new file holds what was written to it");
    symx_assert(!os::leaked() && os::bad_calls == 0, "every descriptor is closed exactly once and not used afterwards");
}
ENTRY moves() {
    os::reset();
    Model a;
    fill(0, 4, a);
    {
        file *f = new file{"a", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        some(*f, a);
        file g{std::move(*f)};
        symx_cover("moved");
        symx_assert(g.is_open(), "the file stays open when moved");
        symx_assert(!f->is_open(), "the source of a move is not open");
        if (choose(2, "destroy first")) { delete f; f = nullptr; }
        check_position(g, a);
        symx_assert(g.get_access_mode() == read_and_write, "the access mode moves along");
        some(g, a);
        delete f;
        check_position(g, a);
        step_read(g, a, 20);
    }
    holds(0, a, "the file holds what was written through either object");
    symx_assert(!os::leaked() && os::bad_calls == 0, "every descriptor is closed exactly once and not used afterwards");
}
ENTRY assign() {
    os::reset();
    Model a, b;
    fill(0, 4, a);
    fill(1, 4, b);
    {
        file f{"a", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        file g{"b", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        if (choose(2, "write a")) step_write(f, a, 1 + choose(2, "count")); else step_read(f, a, 2);
        if (choose(2, "write b")) step_write(g, b, 1 + choose(2, "count")); else step_read(g, b, 2);
        f = std::move(g);
        symx_assert(f.is_open() && !g.is_open(), "assignment moves the open file");
        holds(0, a, "what was written to the replaced file is kept");
        check_position(f, b);
        step_read(f, b, 1);
        step_write(f, b, 1);
    }
    holds(1, b, "the file holds what was written through either object");
    symx_assert(!os::leaked() && os::bad_calls == 0, "every descriptor is closed exactly once and not used afterwards");
}
// Any history of two file objects over three files, one of which is missing.
ENTRY life() {
    os::reset();
    Model m[3];
    fill(0, 3, m[0]);
    fill(1, 2, m[1]);
    memset(m[2].data, 0, sizeof m[2].data);
    m[2].size = m[2].pos = 0;
    bool there = false; // the third file
    struct { int at = -1; access_mode mode = read_only; } st[2];
    {
        file one{"a", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        file two{"c", read_only, if_not_there::fail, symx_param("cap2", 2)};
        st[0] = {0, read_and_write};
        symx_assert(one.is_open() && !two.is_open(), "only the file that is there opens");
        step_read(one, m[0], choose(3, "count"));
        file *f[2] = {&one, &two};
        unsigned ops = symx_param("ops", 2);
        for (unsigned s = 0; s < ops; s++) {
            unsigned o = choose(2, "object");
            file &x = *f[o];
            switch (unsigned what = choose(5, "operation")) {
            case 0: {
                int which = (int)choose(3, "file");
                if (st[1 - o].at == which) return;
                unsigned mo = choose(3, "mode");
                access_mode mode = mo == 0 ? read_only : mo == 1 ? write_only : read_and_write;
                bool create = choose(2, "create");
                static const char *const names[] = {"a", "b", "c"};
                bool r = x.open(names[which], mode, create ? if_not_there::create : if_not_there::fail);
                bool want = which < 2 || there || create;
                if (which == 2 && want) there = true;
                symx_assert(r == want, "open succeeds exactly when the file is there or may be created");
                st[o].at = want ? which : -1;
                st[o].mode = mode;
                if (want) m[which].pos = 0;
                break;
            }
            case 1: x.close(); st[o].at = -1; break;
            case 2: case 3: {
                if (st[o].at < 0) return;
                Model &c = m[st[o].at];
                bool rd = what == 3;
                if (rd ? st[o].mode == write_only : st[o].mode == read_only) {
                    bool threw = false;
                    std::byte b[1] = {};
                    try { if (rd) x.read(b, 1); else x.write(b, 1); } catch (const invalid_access_mode &) { threw = true; }
                    symx_assert(threw, "what the access mode forbids is refused");
                } else if (rd) step_read(x, c, 2);
                else step_write(x, c, 1 + choose(2, "count"));
                break;
            }
            default:
                x = std::move(*f[1 - o]);
                symx_assert(!f[1 - o]->is_open(), "the source of a move is not open");
                st[o] = st[1 - o];
                st[1 - o].at = -1;
                symx_cover("moved");
                break;
            }
            for (unsigned k = 0; k < 2; k++) {
                symx_assert(f[k]->is_open() == (st[k].at >= 0), "a file is open from open to close");
                if (st[k].at < 0) continue;
                symx_assert(f[k]->get_access_mode() == st[k].mode, "the access mode is the one asked for");
                check_position(*f[k], m[st[k].at]);
            }
        }
    }
    holds(0, m[0], "the file holds what was written to it");
    holds(1, m[1], "the file holds what was written to it");
    symx_assert(os::files[2].exists == there, "a file is created only on request");
    if (there) holds(2, m[2], "the file holds what was written to it");
    symx_assert(!os::leaked() && os::bad_calls == 0, "every descriptor is closed exactly once and not used afterwards");
    symx_cover("life");
}

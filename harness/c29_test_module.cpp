//PROPERTY C29
//JOB tests n=0..4 runs=1
//JOB tests n={9,10,11} runs=1 plain=1
//JOB tests n=1..2 runs=2
//JOB tests n=4 runs=2 plain=1
//JOB named n=1..3
//JOB queue ops=5
//JOB dummies ops=4
//JOB tests n={12,100} runs=1 plain=1 time=800 tier=thorough
//JOB tests n=5 runs=1 time=800 tier=thorough
//JOB queue ops=7 time=800 tier=thorough
//JOB dummies ops=6 time=800 tier=thorough
//COVERS failed passed popped emptied cleared copied moved
//BOUNDS every outcome and 0 to 2 stages of up to 4 tests, every outcome of up to 11 tests, up to 2 runs, up to 3 tests that announce themselves 0 to 3 times, every history of 5 message operations and of 4 dummy operations with arbitrary values
//OUTSIDE more than 65535 tests or stages; tests that throw; what std::cout does with the text (it is recorded)
#include "symx.h"
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <queue>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
// The streams of the standard library, recorded instead of sent.
namespace std {
struct symx_stream {
    char text[8192];
    unsigned long n;
    void put(char c) { if (n < sizeof text) text[n++] = c; else symx_unsupported("output model full"); }
    void num(unsigned long v) {
        char b[24]; int k = 0;
        do { b[k++] = (char)('0' + v % 10); v /= 10; } while (v);
        while (k) put(b[--k]);
    }
    symx_stream &operator<<(const char *s) { while (*s) put(*s++); return *this; }
    symx_stream &operator<<(const std::string &s) { for (char c : s) put(c); return *this; }
    symx_stream &operator<<(std::string_view s) { for (char c : s) put(c); return *this; }
    symx_stream &operator<<(char c) { put(c); return *this; }
    symx_stream &operator<<(unsigned short v) { num(v); return *this; }
    symx_stream &operator<<(unsigned v) { num(v); return *this; }
    symx_stream &operator<<(unsigned long v) { num(v); return *this; }
    symx_stream &operator<<(int v) { if (v < 0) { put('-'); num(-(unsigned long)v); } else num((unsigned long)v); return *this; }
    symx_stream &operator<<(long v) { if (v < 0) { put('-'); num(-(unsigned long)v); } else num((unsigned long)v); return *this; }
    symx_stream &operator<<(symx_stream &(*f)(symx_stream &)) { return f(*this); }
    symx_stream &flush() { return *this; }
    symx_stream &write(const char *s, long k) { for (long i = 0; i < k; i++) put(s[i]); return *this; }
};
inline symx_stream symx_cout, symx_cerr;
inline symx_stream &symx_endl(symx_stream &s) { s.put('\n'); return s; }
inline symx_stream &symx_flush(symx_stream &s) { return s; }
}
#define cout symx_cout
#define cerr symx_cerr
#define ostream symx_stream
#define endl symx_endl
#include <cmp/core/test_module.hpp>
#undef cout
#undef cerr
#undef ostream
#undef endl
using namespace cmp;

static const char *const names[] = {"a", "bcd", "", "e f"};
static unsigned at, total;          // which test runs, how many have run
static bool outcome[256];
static unsigned char stages[256], starts[256];
struct Module : test_module<Module> {
    using test_module<Module>::test_module;
    bool one() {
        unsigned k = at++;
        symx_assert(get_message_count() == 0, "a test starts with no messages");
        for (unsigned i = 0; i < starts[k]; i++) start_test(names[k % 4]);
        for (unsigned i = 0; i < stages[k]; i++) end_stage();
        push_message(message::destructor_called);
        return outcome[k];
    }
};
static std::string text(unsigned v) {
    std::string s;
    do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v);
    return s;
}
static bool same(const std::string &want) {
    return std::symx_cout.n == want.size() && memcmp(std::symx_cout.text, want.data(), want.size()) == 0;
}
ENTRY tests() {
    unsigned n = symx_param("n", 2), runs = symx_param("runs", 1), plain = symx_param("plain", 0);
    std::symx_cout.n = std::symx_cerr.n = 0;
    Module m{std::vector<Module::test_function_pointer>(n, &Module::one)};
    unsigned before = 0, passed_before = 0;
    std::string list_before;
    for (unsigned r = 0; r < runs; r++) {
        at = 0;
        unsigned failed = 0;
        std::string want, list, wrong, wrong_list = list_before;
        unsigned width = (unsigned)text(n).size();
        for (unsigned k = 0; k < n; k++) {
            starts[k] = 1;
            outcome[k] = choose(2, "outcome");
            stages[k] = plain ? k % 3 : (unsigned char)choose(3, "stages");
            auto report = [&](unsigned number, std::string &out, std::string &failures) {
                std::string padded = text(number);
                if (padded.size() < width) padded.insert(0, width - padded.size(), '0');
                out += "Test #" + padded + " - '" + names[k % 4] + "' starting.\n";
                for (unsigned i = 0; i < stages[k]; i++) out += "Stage " + text(i + 1) + " completed successfully.\n";
                out += "Test #" + padded + " - '" + names[k % 4] + "' " + (outcome[k] ? "succeeded" : "failed") + " with " + text(stages[k]) + (stages[k] == 1 ? " successful stage.\n" : " successful stages.\n");
                out += std::string(6 + padded.size(), '=') + "\n";
                if (!outcome[k]) failures += "Test #" + text(number) + " - '" + names[k % 4] + "' failed on stage " + text(stages[k] + 1u) + "\n";
            };
            report(k + 1, want, list);
            report(r * n + k + 1, wrong, wrong_list);
            if (!outcome[k]) { failed++; symx_cover("failed"); }
            else symx_cover("passed");
        }
        want += "Successful tests: " + text(n - failed) + "\nFailed tests: " + text(failed) + "\n\n" + list;
        wrong += "Successful tests: " + text(passed_before + n - failed) + "\nFailed tests: " + text(before + failed) + "\n\n" + wrong_list;
        std::symx_cout.n = 0;
        int got = m.run_tests();
        symx_assert(at == n, "every registered test is run once");
        symx_known(r == 0 || got != (int)(before + failed) || !same(wrong) || same(want), "a second run starts over", "KF-second-run");
        before += failed;
        passed_before += n - failed;
        list_before = wrong_list;
        symx_assert(got == (int)failed, "the result is the number of tests that failed");
        symx_assert(same(want), "the report says which tests failed, on which stage, and how many");
        symx_assert(std::symx_cerr.n == 0, "nothing else is reported as an error");
        symx_assert(m.get_message_count() == 0, "no messages are left");
    }
}
// tests that announce themselves never, once or several times
ENTRY named() {
    unsigned n = symx_param("n", 2), failed = 0, announced = 0;
    at = 0;
    std::symx_cout.n = std::symx_cerr.n = 0;
    Module m{std::vector<Module::test_function_pointer>(n, &Module::one)};
    for (unsigned k = 0; k < n; k++) {
        starts[k] = (unsigned char)(choose(5, "starts"));
        if (starts[k] == 4) starts[k] = 11;
        stages[k] = 1;
        outcome[k] = choose(2, "outcome");
        failed += !outcome[k];
        announced += starts[k];
    }
    if (announced > 9) symx_known_memory("KF-pad-overflow");
    symx_assert(m.run_tests() == (int)failed && at == n, "the result is the number of tests that failed");
}
ENTRY queue() {
    unsigned ops = symx_param("ops", 4);
    using message = Module::message;
    Module m{{}};
    message ref[16];
    unsigned from = 0, to = 0;
    for (unsigned s = 0; s < ops; s++) {
        unsigned op = choose(3, "op");
        if (op == 0) {
            unsigned char v = sym<unsigned char>("message");
            symx_assume(v >= 1 && v <= 4);
            m.push_message(ref[to++] = (message)v);
        } else if (op == 1) {
            message got = m.pop_message();
            if (from == to) { symx_assert(got == message::empty, "an empty queue yields the empty message"); symx_cover("emptied"); }
            else { symx_assert(got == ref[from++], "messages come in the order they were pushed"); symx_cover("popped"); }
        } else {
            m.clear_message_queue();
            from = to;
            symx_cover("cleared");
        }
        symx_assert(m.get_message_count() == to - from, "the number of messages is right");
    }
}
ENTRY dummies() {
    unsigned ops = symx_param("ops", 3);
    using message = Module::message;
    using dummy = Module::dummy;
    Module m{{}};
    alignas(dummy) unsigned char room[3][sizeof(dummy)];
    auto d = [&](unsigned i) -> dummy & { return *(dummy *)room[i]; };
    struct { bool live; int value; } ref[3] = {};
    for (unsigned s = 0; s < ops; s++) {
        unsigned op = choose(6, "op"), i = choose(3, "i"), j = choose(3, "j");
        message want = message::empty;
        if (op == 0) {
            if (ref[i].live) return;
            int v = sym<int>("value");
            new (room[i]) dummy{&m, v};
            ref[i] = {true, v};
            want = message::constructor_called;
        } else if (op == 1) {
            if (ref[i].live) return;
            new (room[i]) dummy{&m};
            ref[i] = {true, 0};
            want = message::constructor_called;
        } else if (op == 2) {
            if (ref[i].live || !ref[j].live) return;
            new (room[i]) dummy{(const dummy &)d(j)};
            ref[i] = ref[j];
            want = message::copy_constructor_called;
            symx_cover("copied");
        } else if (op == 3) {
            if (ref[i].live || !ref[j].live) return;
            new (room[i]) dummy{std::move(d(j))};
            ref[i] = ref[j];
            ref[j].value = 0;
            want = message::move_constructor_called;
            symx_cover("moved");
        } else if (op == 4) {
            if (!ref[i].live) return;
            int v = sym<int>("value");
            d(i).set_value(v);
            ref[i].value = v;
        } else {
            if (!ref[i].live) return;
            d(i).~dummy();
            ref[i].live = false;
            want = message::destructor_called;
        }
        symx_assert(m.get_message_count() == (want != message::empty), "each special member function leaves one message");
        symx_assert(m.pop_message() == want, "the message says which special member function was called");
        for (unsigned k = 0; k < 3; k++)
            if (ref[k].live) symx_assert(d(k).get_value() == ref[k].value, "a dummy keeps its value, a moved one is reset");
    }
}

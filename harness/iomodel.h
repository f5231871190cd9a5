// A history of operations on a byte resource, run next to a reference model:
// a plain byte array with a position.
#pragma once
#include "lib.h"
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cstring>
#include <type_traits>
#include <vector>
using namespace cmp;

#ifndef MODEL_MAX
#define MODEL_MAX 4096
#endif
struct Model {
    unsigned char data[MODEL_MAX];
    long size = 0, pos = 0;
};
// The next operation of a history; `first` splits the histories into jobs.
static unsigned operation(unsigned step, unsigned n) {
    unsigned f = symx_param("first", 99);
    return step == 0 && f < n ? f : choose(n, "operation");
}
// Amounts: with unit=1 every number below n; in bulk, the multiples of the unit below n units and their neighbours.
static unsigned amount(unsigned n, const char *name) {
    unsigned u = symx_param("unit", 1);
    if (u == 1) return choose(n, name);
    unsigned m = (n + u - 1) / u, k = choose(3 * m - 1, name) + 1; // u * (k / 3) - 1, + 0, + 1
    return k / 3 * u + k % 3 - 1;
}
static unsigned amount_up_to(unsigned small, unsigned units, const char *name) {
    unsigned u = symx_param("unit", 1);
    return u == 1 ? choose(small, name) : amount(units * u, name);
}
// In bulk, all bytes but a few are fixed.
static unsigned char some_byte(const char *name, unsigned long i, unsigned salt = 0) {
    static unsigned u = 0;
    if (!u) u = symx_param("unit", 1);
    if (u == 1 || i % 97 == 5) return sym<unsigned char>(name);
    return (unsigned char)(i * 31 + i / 256 * 7 + 11 + salt * 101);
}
enum Kinds { DO_READ = 1, DO_WRITE = 2, DO_SEEK = 4, DO_GO = 8, DO_FLUSH = 16, DO_BIG = 32, NO_PAST = 64 };

template <typename R>
static void step_read(R &r, Model &m, unsigned n) {
    std::byte *buf = new std::byte[n ? n : 1];
    std::size_t got = r.read(buf, n);
    long left = m.size > m.pos ? m.size - m.pos : 0;
    std::size_t want = n < (unsigned long)left ? n : (unsigned long)left;
    symx_assert(got == want, "a read delivers everything up to the end");
    if (got == want) {
        bool same = true;
        for (std::size_t i = 0; i < want; i++) same = same & ((unsigned char)buf[i] == m.data[m.pos + (long)i]);
        symx_assert(same, "a read delivers the bytes at the position");
    }
    if (want) symx_cover("read");
    if (want < n) symx_cover("short");
    m.pos += (long)want;
    delete[] buf;
}
template <typename R>
static void step_write(R &r, Model &m, unsigned n) {
    std::byte *buf = new std::byte[n ? n : 1];
    for (unsigned i = 0; i < n; i++) {
        unsigned char b = some_byte("written", i, (unsigned)m.pos + 1);
        buf[i] = (std::byte)b;
        if (m.pos + (long)i > m.size) { for (long k = m.size; k < m.pos; k++) m.data[k] = 0; }
        m.data[m.pos + i] = b;
        if (m.pos + (long)i >= m.size) m.size = m.pos + (long)i + 1;
    }
    std::size_t put = r.write(buf, n);
    symx_assert(put == n, "a write accepts everything");
    m.pos += n;
    symx_cover("write");
    delete[] buf;
}
template <typename R>
static void step_seek(R &r, Model &m, unsigned ref, long target) {
    switch (ref) {
    case 0: r.set_position(target, position_reference::begin); break;
    case 1: r.set_position(target - m.pos, position_reference::current); break;
    default: r.set_position(target - m.size, position_reference::end); break;
    }
    m.pos = target;
    symx_cover("seek");
}
template <typename R>
static void step_go(R &r, Model &m, long target) {
    if (target < m.pos) r.go_back(m.pos - target);
    else r.go_forward(target - m.pos);
    m.pos = target;
    symx_cover("go");
}
// To any position past the end, where there is nothing, and back.
template <bool Read, typename R>
static void step_far(R &r, Model &m) {
    long far = sym<long>("far");
    symx_assume((far >= m.size) & (far < 1L << 62));
    switch (choose(4, "reference")) {
    case 0: r.set_position(far, position_reference::begin); break;
    case 1: r.set_position(far - m.pos, position_reference::current); break;
    case 2: r.set_position(far - m.size, position_reference::end); break;
    default: r.go_forward(far - m.pos); break;
    }
    symx_assert(r.get_position() == far, "a position past the end is the one that was set");
    if constexpr (Read) {
        std::byte b[3];
        symx_assert(r.read(b, 1 + choose(3, "count")) == 0, "there is nothing past the end");
        symx_assert(r.get_position() == far, "reading nothing does not move");
    }
    long target = choose((unsigned)m.size + 1, "target");
    switch (choose(4, "reference")) {
    case 0: r.set_position(target, position_reference::begin); break;
    case 1: r.set_position(target - far, position_reference::current); break;
    case 2: r.set_position(target - m.size, position_reference::end); break;
    default: r.go_back(far - target); break;
    }
    m.pos = target;
    symx_assert(r.get_position() == target, "the way back leads to the position that was set");
    symx_cover("far");
}
template <typename R>
static void check_position(R &r, const Model &m) {
    symx_assert(r.get_position() == m.pos, "the reported position is where the next operation takes place");
}

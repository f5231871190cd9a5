// Independent reference codecs and exact-size text buffers for the harnesses.
#pragma once
#include "symx.h"
#include <string>
#include <string_view>

namespace ref {

inline bool valid(char32_t c) { return (c < 0xD800) | ((c > 0xDFFF) & (c < 0x110000)); }

// Text in an exact-size heap block, so that a read one unit past either end is seen.
template <typename C>
struct Text {
    C *p;
    unsigned n;
    explicit Text(unsigned n_) : p(new C[n_]), n(n_) {}
    ~Text() { delete[] p; }
    Text(const Text &) = delete;
    std::basic_string_view<C> view() const { return {p, n}; }
    std::basic_string<C> str() const { return std::basic_string<C>(p, n); }
};

struct Units {
    char32_t u[4];
    int n;
};

inline Units enc8(char32_t c) {
    Units r{};
    if (c < 0x80) { r.u[0] = c; r.n = 1; }
    else if (c < 0x800) { r.u[0] = 0xC0 + c / 64; r.u[1] = 0x80 + c % 64; r.n = 2; }
    else if (c < 0x10000) { r.u[0] = 0xE0 + c / 4096; r.u[1] = 0x80 + c / 64 % 64; r.u[2] = 0x80 + c % 64; r.n = 3; }
    else { r.u[0] = 0xF0 + c / 262144; r.u[1] = 0x80 + c / 4096 % 64; r.u[2] = 0x80 + c / 64 % 64; r.u[3] = 0x80 + c % 64; r.n = 4; }
    return r;
}
inline Units enc16(char32_t c) {
    Units r{};
    if (c < 0x10000) { r.u[0] = c; r.n = 1; }
    else { c -= 0x10000; r.u[0] = 0xD800 + c / 1024; r.u[1] = 0xDC00 + c % 1024; r.n = 2; }
    return r;
}
template <typename C>
inline Units enc(char32_t c) {
    if constexpr (std::is_same_v<C, char8_t>) return enc8(c);
    else if constexpr (std::is_same_v<C, char16_t>) return enc16(c);
    else { Units r{}; r.u[0] = c; r.n = 1; return r; }
}

// One decoded position.  status: 0 well-formed, 1 ill-formed, 2 truncated
// (the remaining units are a proper prefix of a well-formed sequence), 3 truncated
// and already ill-formed (either report is right).
struct Dec {
    int status;
    char32_t c;
    unsigned len;
};
inline Dec dec8(const char8_t *p, unsigned n) {
    unsigned b0 = p[0];
    if (b0 < 0x80) return {0, b0, 1};
    unsigned need, lo = 0x80, hi = 0xBF;
    char32_t c;
    if (b0 >= 0xC0 && b0 <= 0xDF) { need = 2; c = b0 - 0xC0; }
    else if (b0 >= 0xE0 && b0 <= 0xEF) { need = 3; c = b0 - 0xE0; }
    else if (b0 >= 0xF0 && b0 <= 0xF7) { need = 4; c = b0 - 0xF0; }
    else return {1, 0, 0};
    bool bad = b0 < 0xC2 || b0 > 0xF4;
    if (b0 == 0xE0) lo = 0xA0;
    if (b0 == 0xED) hi = 0x9F;
    if (b0 == 0xF0) lo = 0x90;
    if (b0 == 0xF4) hi = 0x8F;
    for (unsigned i = 1; i < need; i++) {
        if (i >= n) return {bad ? 3 : 2, 0, 0};
        unsigned b = p[i];
        if (b < 0x80 || b > 0xBF) return {1, 0, 0};
        if (i == 1 && (b < lo || b > hi)) bad = true;
        c = c * 64 + (b - 0x80);
    }
    if (bad) return {1, 0, 0};
    return {0, c, need};
}
inline Dec dec16(const char16_t *p, unsigned n) {
    unsigned a = p[0];
    if (a < 0xD800 || a > 0xDFFF) return {0, a, 1};
    if (a > 0xDBFF) return {1, 0, 0};
    if (n < 2) return {2, 0, 0};
    unsigned b = p[1];
    if (b < 0xDC00 || b > 0xDFFF) return {1, 0, 0};
    return {0, 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00), 2};
}
template <typename C>
inline Dec dec(const C *p, unsigned n) {
    if constexpr (std::is_same_v<C, char8_t>) return dec8(p, n);
    else if constexpr (std::is_same_v<C, char16_t>) return dec16(p, n);
    else return {0, (char32_t)p[0], 1};
}

// A sequence of n symbolic Unicode scalar values (ASCII only for narrow strings).
struct Cps {
    char32_t c[1100];
    unsigned n, from, free; // symbolic: [from, from + free)
};
// Fixed text around the symbolic part of long texts: all lengths of sequences.
inline char32_t filler(unsigned i, bool ascii) {
    static const char32_t some[] = {U'a', 0xE9, 0x20AC, 0x1F600, U'z', 0x7FF, 0xFFFD};
    return ascii ? U'a' + i % 26 : some[i % 7];
}
// With the parameter "free", only that many code points are symbolic, at the
// start, in the middle or at the end of the text; the others are fixed.
inline Cps symbolic_cps(unsigned n, bool ascii, const char *name = "cp") {
    Cps r{};
    r.n = n;
    unsigned free = (unsigned)symx_param("free", n), from = 0;
    if (free < n) {
        from = choose(3, "part");
        from = from == 0 ? 0 : from == 1 ? (n - free) / 2 : n - free;
    } else free = n;
    r.from = from;
    r.free = free;
    for (unsigned i = 0; i < n; i++) {
        if (i < from || i >= from + free) { r.c[i] = filler(i, ascii); continue; }
        r.c[i] = sym<char32_t>(name);
        symx_assume(ascii ? r.c[i] < 0x80 : valid(r.c[i]));
    }
    return r;
}
template <typename C>
inline std::basic_string<C> encode(const Cps &s) {
    std::basic_string<C> out;
    for (unsigned i = 0; i < s.n; i++) {
        Units u = enc<C>(s.c[i]);
        int k = (int)symx_concrete(u.n);
        for (int j = 0; j < k; j++) out.push_back((C)u.u[j]);
    }
    return out;
}
// n units: the symbolic ones after "pad" code points of fixed text and before as many more.
template <typename C>
inline std::basic_string<C> padded_units(unsigned len, unsigned pad, unsigned &from, unsigned &to) {
    std::basic_string<C> out;
    auto fill = [&] {
        for (unsigned i = 0; i < pad; i++) {
            Units u = enc<C>(filler(i, std::is_same_v<C, char>));
            for (int j = 0; j < u.n; j++) out.push_back((C)u.u[j]);
        }
    };
    fill();
    from = (unsigned)out.size();
    for (unsigned i = 0; i < len; i++) out.push_back(sym<C>("unit"));
    to = (unsigned)out.size();
    fill();
    return out;
}
template <typename C>
inline bool same(const std::basic_string<C> &a, const std::basic_string<C> &b) {
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); i++) ok = ok & (a[i] == b[i]);
    return ok;
}
} // namespace ref

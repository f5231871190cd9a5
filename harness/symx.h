// Harness interface to the symbolic executor.  The same harness source is also
// compiled natively (with native.cpp) to replay a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef SYMX_IR
#include "support.h"
#endif

extern "C" {
void symx_make(void *p, unsigned long n, const char *name);
void symx_assume(int c);
void symx_assert(int c, const char *msg);
void symx_known(int c, const char *msg, const char *id); // assertion whose failure is a listed finding
void symx_known_memory(const char *id); // an invalid memory access from here on is a listed finding ("": no longer)
void symx_cover(const char *label);
unsigned long symx_concrete(unsigned long v); // fork so that v has one value on each path
unsigned long symx_param(const char *name, unsigned long dflt);
unsigned long symx_live_heap();
void symx_unsupported(const char *why);
}

#define ENTRY extern "C" __attribute__((used, noinline)) void

template <typename T>
inline T sym(const char *name) {
    T v;
    symx_make(&v, sizeof(T), name);
    return v;
}
template <>
inline bool sym<bool>(const char *name) {
    unsigned char v;
    symx_make(&v, 1, name);
    return v & 1;
}
// value in [0, n): symbolic
inline unsigned sym_below(unsigned n, const char *name) {
    unsigned v = sym<unsigned>(name);
    symx_assume(v < n);
    return v;
}
// value in [0, n): one path per value
inline unsigned choose(unsigned n, const char *name) {
    if (n <= 1) return 0;
    unsigned char v = sym<unsigned char>(name);
    symx_assume(v < n);
    return (unsigned)symx_concrete(v);
}

//PROPERTY C26
//JOB digits8 t=0..1
//JOB digits radix={2,3,8,10,16,36} bits=16 t=0..1
//JOB digits radix={2,3,4,5,6,7,8,9,10,11,12,13,16,17,20,31,32,35,36,37,100,255,1000} bits=32 t=0..1 time=60
//JOB digits radix={2,3,4,5,6,7,8,9,10,11,12,13,16,17,20,31,32,35,36,37,100,255,1000,1000000,4294967295} bits=64 t=0..1 time=60
//JOB exact places=0..4 bits=8
//JOB mixed places={0,2} bits=8
//JOB scaled places=0..12
//JOB exact places=0..6 bits=14 time=800 tier=thorough
//JOB mixed places=0..4 bits=12 time=800 tier=thorough
//JOB scaled places=13..22 time=800 tier=thorough
//COVERS one_digit several equal different negative_number
//BOUNDS count_digits: every 8-bit value in every 8-bit radix from 2, every signed and unsigned 16-bit value in radices 2, 3, 8, 10, 16 and 36, every signed and unsigned 32-bit and 64-bit value in 23 and 25 radices from 2 to 4294967295; cmp_equal: every pair k/8 (|k| < 2^8) with up to 4 places against integer arithmetic, every pair of doubles with up to 12 places against the scaled floors; the thorough tier goes on to |k| < 2^14 and 22 places
//OUTSIDE count_digits in the remaining radices of wide types; more than 22 decimal places, long double
#include "symx.h"
#include <cmp/core/general.hpp>

template <typename T>
static void digits_check(T v, T radix, unsigned maxdigits) {
    unsigned n = cmp::count_digits(v, radix);
    symx_assert(n >= 1 && n <= maxdigits, "at least one digit and no more than the type can hold");
    n = (unsigned)symx_concrete(n);
    if (n == 1) symx_cover("one_digit"); else symx_cover("several");
    if (v < 0) symx_cover("negative_number");
    unsigned __int128 mag = v < 0 ? -(unsigned __int128)(__int128)v : (unsigned __int128)v, lo = 1;
    for (unsigned i = 1; i < n; i++) lo *= (unsigned __int128)radix;
    symx_assert(n == 1 || mag >= lo, "no more digits than the number has");
    symx_assert(mag < lo * (unsigned __int128)radix, "no fewer digits than the number has");
}
ENTRY digits8() {
    if (symx_param("t", 0)) { auto r = sym<signed char>("radix"); symx_assume(r >= 2); digits_check<signed char>(sym<signed char>("v"), r, 8); }
    else { auto r = sym<unsigned char>("radix"); symx_assume(r >= 2); digits_check<unsigned char>(sym<unsigned char>("v"), r, 8); }
}
ENTRY digits() {
    unsigned radix = symx_param("radix", 10), bits = symx_param("bits", 32), t = symx_param("t", 0);
    if (bits == 16) { if (t) digits_check<short>(sym<short>("v"), radix, 16); else digits_check<unsigned short>(sym<unsigned short>("v"), radix, 16); }
    else if (bits == 32) { if (t) digits_check<int>(sym<int>("v"), radix, 32); else digits_check<unsigned>(sym<unsigned>("v"), radix, 32); }
    else { if (t) digits_check<long>(sym<long>("v"), radix, 64); else digits_check<unsigned long>(sym<unsigned long>("v"), radix, 64); }
}
static long floor_div(long a, long b) { long q = a / b; return q * b > a ? q - 1 : q; }
static long pow10(unsigned p) { long r = 1; while (p--) r *= 10; return r; }

template <typename A, typename B>
static void exact_check(unsigned bits) {
    unsigned p = symx_param("places", 2), m1 = 3, m2 = 3;
    int k1 = sym<int>("k1"), k2 = sym<int>("k2");
    symx_assume(k1 > -(1 << bits) && k1 < (1 << bits) && k2 > -(1 << bits) && k2 < (1 << bits));
    A a = (A)k1 / (A)(1 << m1);
    B b = (B)k2 / (B)(1 << m2);
    bool eq = cmp::cmp_equal(a, b, p);
    // floor(k * 10^p / 2^m): the product is exact in a double
    bool want = floor_div(k1 * pow10(p), 1l << m1) == floor_div(k2 * pow10(p), 1l << m2);
    if (want) symx_cover("equal"); else symx_cover("different");
    symx_assert(eq == want, "equal exactly if the digits up to the given place agree");
    symx_assert(cmp::cmp_not_equal(a, b, p) == !want, "cmp_not_equal is the negation");
    symx_assert(cmp::cmp_equal(b, a, p) == want, "cmp_equal is symmetric");
}
ENTRY exact() { exact_check<double, double>(symx_param("bits", 8)); }
ENTRY mixed() { if (choose(2, "which")) exact_check<float, double>(symx_param("bits", 8)); else exact_check<float, float>(symx_param("bits", 8)); }

static const double powers[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
ENTRY scaled() {
    unsigned p = symx_param("places", 2);
    double a = sym<double>("a"), b = sym<double>("b");
    bool want = std::floor(a * powers[p]) == std::floor(b * powers[p]);
    if (want) symx_cover("equal"); else symx_cover("different");
    symx_assert(cmp::cmp_equal(a, b, p) == want, "equal exactly if the scaled floors agree");
    symx_assert(cmp::cmp_equal(b, a, p) == want, "cmp_equal is symmetric");
    symx_assert(cmp::cmp_not_equal(a, b, p) == !want, "cmp_not_equal is the negation");
    symx_assert(a != a || cmp::cmp_equal(a, a, p), "every number equals itself");
}

//PROPERTY C13
//JOB pf radix={2,4,8,16,32} ni=1..2 nf=0..3 lim=0 letters=0
//JOB pf radix={16,32} ni=1 nf=1..2 lim=0 letters=1
//JOB pf radix={2,16} ni=3 nf=4 lim=0 letters=0
//JOB pf_float radix={2,16} ni=2 nf=2 lim=0
//JOB pf radix=16 ni=1 nf=0..3 lim=1..2 letters=0
//JOB pf radix={10,16} ni=1 nf=1..2 lim=0 wild=1
//JOB pf radix=16 ni=2 nf=1 lim=2 wild=1
//JOB whole radix={10,16} len=1..3
//JOB dec radix=10 ni=1 nf=1 lim=0 letters=0
//JOB mixed_u8 radix=10 ni=1..2 nf=1..3
//JOB mixed_u8 radix=10 ni=3 nf={8,14}
//JOB mixed_u8 radix=10 ni={4,7} nf={0,5} sep=1..2
//JOB mixed_u16 radix={2,10} ni=6 nf=9 sep=1
//JOB mixed_u32 radix={3,10} ni=3 nf=10
//JOB mixed_w radix={16,36} ni=5 nf=6
//JOB mixed_narrow radix=10 ni={1,9} nf=7 sep={0,2}
//JOB mixed_w radix=10 ni=4 nf=4 sep={0,1} wild=1
//JOB mixed_u8 radix=16 ni=16 nf={0,2}
//JOB mixed_u8 radix=10 ni=18..20 nf=0
//JOB mixed_u8 radix=10 ni={1,5} nf={40,260,330} sep={0,1}
//JOB mixed_u16 radix=16 ni=2 nf={40,300}
//JOB mixed_w radix=10 ni=3 nf=300 wild=1
//JOB mixed_u8 radix={8,10} ni={2,10} nf=26 time=1500 tier=thorough
//JOB dec radix=10 ni=1 nf=2 lim=0 letters=0 time=1500 tier=thorough
//JOB pf radix={8,16,32} ni=2 nf=3 lim=0 letters=1 time=800 tier=thorough
//JOB pf radix=16 ni=2 nf=2 lim=0..2 wild=1 time=800 tier=thorough
//JOB pf radix=16 ni=8 nf=8 lim=0 letters=0 time=800 tier=thorough
//COVERS negative fraction accepted rejected limit whole long too_large
//BOUNDS every text of up to 3 integral and 4 fractional characters in radices 2, 4, 8, 16, 32, where the value is exact; radix 10 with one integral and one fractional digit, within rounding error (thorough: two); arbitrary characters in up to 2+1 positions (thorough 2+2); both sign modes, both radix characters, every place limit with 0 to 3 places; whole numbers of up to 3 characters; texts of up to 20 integral and 14 fractional digits (thorough: 26) and of 40 to 330 fractional digits, with and without thousands separators, in all five encodings, that are fixed except for one arbitrary character at any place (split by value, since the floating-point sums are evaluated per value)
//OUTSIDE longer texts, exact rounding in radices that are not powers of two (a relative error of 4e-15 is allowed), a thousands separator equal to the radix character
#define NO_IO
#include "lib.h"
#include "ref.h"
using namespace cmp;

static int digit_of(char32_t c, unsigned radix) {
    unsigned v;
    if (c >= '0' && c <= '9') v = c - '0';
    else if (c >= 'a' && c <= 'z') v = c - 'a' + 10;
    else if (c >= 'A' && c <= 'Z') v = c - 'A' + 10;
    else return -1;
    return v < radix ? (int)v : -1;
}
struct Mode { unsigned sign, point, limit, places; };
static Mode pick() {
    Mode m;
    m.sign = choose(2, "sign");
    m.point = choose(2, "point");
    m.limit = (unsigned)symx_param("lim", 0);
    m.places = m.limit ? choose(4, "places") : 0;
    return m;
}
static floating_point_format make(unsigned radix, const Mode &m) {
    return floating_point_format{radix, m.sign ? sign_status::always_show : sign_status::only_when_negative, thousands_separator::none,
                                 m.point ? radix_character::period : radix_character::comma,
                                 m.limit == 0 ? radix_place_limit::none : m.limit == 1 ? radix_place_limit::exactly_equal : radix_place_limit::up_to, m.places};
}
static bool places_ok(const Mode &m, unsigned nf) {
    if (m.limit == 1) return nf == m.places;
    if (m.limit == 2) return nf <= m.places && (nf > 0 || m.places == 0);
    return true;
}
// A digit of the radix as text, upper or lower case.
static char32_t digit_char(unsigned radix, unsigned &value) {
    char32_t c = sym<unsigned char>("digit");
    int v = digit_of(c, radix);
    symx_assume(v >= 0);
    if (!symx_param("letters", 0)) symx_assume(c <= '9');
    value = (unsigned)v;
    return c;
}
template <typename F>
static void pf_check(bool exact) {
    unsigned radix = symx_param("radix", 16), ni = symx_param("ni", 1), nf = symx_param("nf", 1);
    bool wild = symx_param("wild", 0);
    Mode m = pick();
    unsigned prefix = choose(3, "prefix");
    unsigned n = (prefix ? 1 : 0) + ni + 1 + nf, at = 0;
    ref::Text<char32_t> t(n);
    if (prefix) t.p[at++] = prefix == 1 ? '-' : '+';
    bool ok = prefix != 2 || m.sign == 1;
    unsigned num = 0, scale = 1;
    char32_t point = m.point ? '.' : ',';
    for (unsigned i = 0; i < ni + nf; i++) {
        if (i == ni) t.p[at++] = point;
        if (!wild) {
            unsigned v;
            t.p[at++] = digit_char(radix, v);
            num = num * radix + v;
        } else {
            char32_t c = sym<char32_t>("char");
            symx_assume(c != point); // a second radix character moves the split
            t.p[at++] = c;
            int v = digit_of(c, radix);
            if (v < 0) ok = false;
            num = num * radix + (unsigned)v;
        }
        if (i >= ni) scale *= radix;
    }
    if (nf == 0) t.p[at++] = point;
    bool places = places_ok(m, nf);
    F got = 0;
    bool failed = false;
    auto type = parse_failed::type::empty_input;
    try {
        got = parse_floating_point<F>(t.view(), make(radix, m));
    } catch (const parse_failed &e) { failed = true; type = e.get_type(); }
    if (wild && prefix == 0 && ni >= 2) { // the first character may itself be a sign
        bool sign_first = t.p[0] == '-' || (t.p[0] == '+' && m.sign == 1);
        if (sign_first) return;
    }
    if (!ok) { symx_cover("rejected"); symx_assert(failed, "text that does not conform to the format is rejected"); return; }
    if (!places) {
        symx_cover("limit");
        symx_assert(failed, "the wrong number of places is rejected");
        symx_assert(type == parse_failed::type::wrong_place_limit, "the wrong number of places is reported as such");
        return;
    }
    symx_assert(!failed, "conforming text is accepted");
    if (failed) return;
    symx_cover("accepted");
    if (nf) symx_cover("fraction");
    bool neg = prefix == 1;
    if (neg) symx_cover("negative");
    if (wild && radix == 10) return;
    if (exact) {
        F want = (F)num / (F)scale;
        symx_assert(got == (neg ? -want : want), "the parsed value is the denoted value");
    } else {
        F err = got * (F)scale - (neg ? -(F)num : (F)num);
        symx_assert(err < (F)1e-9 && err > (F)-1e-9, "the parsed value is within a rounding error of the denoted value");
    }
}
ENTRY pf() { pf_check<double>(true); }
ENTRY pf_float() { pf_check<float>(true); }
ENTRY dec() { pf_check<double>(false); }
// Long texts, with and without groups: every digit at one place of a fixed text, or any other character there.
template <typename C, typename F>
static void mixed() {
    unsigned radix = symx_param("radix", 10), ni = symx_param("ni", 1), nf = symx_param("nf", 8), sep = symx_param("sep", 0);
    Mode m;
    m.sign = choose(2, "sign");
    m.point = sep ? sep == 1 : choose(2, "point"); // a separator that is also the radix character is ambiguous
    m.limit = choose(3, "limit");
    m.places = nf + 1 - (m.limit ? choose(3, "places") : 0);
    unsigned prefix = choose(3, "prefix"), where;
    if (nf > 30) { unsigned w[] = {0, ni, ni + 19, ni + nf / 2, ni + nf - 1}; where = w[choose(5, "where")]; }
    else where = choose(ni + nf, "where");
    bool wild = symx_param("wild", 0), fits = true;
    bool ok = prefix != 2 || m.sign == 1;
    C t[400];
    unsigned at = 0;
    if (prefix) t[at++] = prefix == 1 ? '-' : '+';
    unsigned __int128 num = 0, scale = 1, whole = 0;
    for (unsigned i = 0; i < ni + nf; i++) {
        if (i == ni) t[at++] = m.point ? '.' : ',';
        if (sep && i > 0 && i < ni && (ni - i) % 3 == 0) t[at++] = sep == 1 ? ',' : '.';
        unsigned v = (i * 7 + 3) % radix;
        C c = (C)(v < 10 ? '0' + v : (i & 1 ? 'a' : 'A') + v - 10);
        if (i == where) {
            c = sym<C>("c");
            int d = digit_of((char32_t)std::make_unsigned_t<C>(c), radix);
            if (wild) {
                symx_assume(d < 0 && c != '.' && c != ',' && c != '+' && c != '-');
                if (sizeof(C) < 4) symx_assume(c > 0 && c < 0x80); // one code unit, one character
                ok = false;
            } else {
                symx_assume(d >= 0);
                c = (C)symx_concrete((unsigned)c);
                v = (unsigned)digit_of((char32_t)c, radix);
            }
        }
        t[at++] = c;
        if (nf > 30 && scale >> 60) continue; // far below the rounding error
        num = num * radix + v;
        if (i < ni) { whole = whole * radix + v; if (whole > (unsigned __int128)1 << 90) return; } else scale *= radix;
    }
    if (nf == 0 && choose(2, "point_at_end")) { t[at++] = m.point ? '.' : ','; if (!places_ok(m, 0)) ok = false; }
    else if (nf == 0 && m.limit == 1) return; // unclaimed: no radix character
    else if (nf != 0 && !places_ok(m, nf)) ok = false;
    fits = whole <= (unsigned __int128)0x7fffffffffffffff + (prefix == 1);
    std::basic_string<C> text(t, at);
    F got = 0;
    bool failed = false;
    try {
        got = parse_floating_point<F>(text, floating_point_format{radix, m.sign ? sign_status::always_show : sign_status::only_when_negative,
            sep == 0 ? thousands_separator::none : sep == 1 ? thousands_separator::comma : thousands_separator::period, m.point ? radix_character::period : radix_character::comma,
            m.limit == 0 ? radix_place_limit::none : m.limit == 1 ? radix_place_limit::exactly_equal : radix_place_limit::up_to, m.places});
    } catch (const parse_failed &) { failed = true; }
    symx_assert(failed == !(ok && fits), "a long text is accepted exactly if it conforms to the format and its integral part fits");
    if (!fits) symx_cover("too_large");
    if (failed || !ok || !fits) return;
    symx_cover("long");
    F want = (F)((long double)num / (long double)scale);
    if (prefix == 1) want = -want;
    F err = got - want;
    F tol = (want < 0 ? -want : want) * (sizeof(F) == 4 ? (F)1e-6 : (F)4e-15); // eight roundings
    symx_assert(err <= tol && -err <= tol, "the parsed value of a long text is the denoted value, up to rounding");
}
ENTRY mixed_u8() { mixed<char8_t, double>(); }
ENTRY mixed_u16() { mixed<char16_t, double>(); }
ENTRY mixed_u32() { mixed<char32_t, float>(); }
ENTRY mixed_w() { mixed<wchar_t, double>(); }
ENTRY mixed_narrow() { mixed<char, double>(); }

// No radix character: the text is an integer in the same format.
ENTRY whole() {
    unsigned radix = symx_param("radix", 10), len = symx_param("len", 2);
    Mode m;
    m.sign = choose(2, "sign");
    m.point = choose(2, "point");
    m.limit = choose(2, "limit") ? 2 : 0;
    m.places = 2;
    ref::Text<char32_t> t(len);
    bool ok = true, neg = false;
    long num = 0;
    unsigned start = 0;
    for (unsigned i = 0; i < len; i++) {
        t.p[i] = sym<char32_t>("char");
        symx_assume(t.p[i] != (m.point ? '.' : ','));
        if (i == 0 && (t.p[0] == '-' || (m.sign && t.p[0] == '+'))) { neg = t.p[0] == '-'; start = 1; continue; }
        int v = digit_of(t.p[i], radix);
        if (v < 0) ok = false;
        num = num * (long)radix + v;
    }
    if (start == len) ok = false;
    double got = 0;
    bool failed = false;
    try {
        got = parse_floating_point<double>(t.view(), make(radix, m));
    } catch (const parse_failed &) { failed = true; }
    symx_cover("whole");
    symx_assert(failed == !ok, "a whole number is accepted exactly if it conforms to the format");
    if (failed || !ok) return;
    symx_assert((long)got == (neg ? -num : num) && got == (double)(long)got, "the parsed value is the denoted integer");
}

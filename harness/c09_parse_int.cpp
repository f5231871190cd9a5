//PROPERTY C09
//JOB parse_i8 radix=10 len=0..4
//JOB parse_i8 radix={2,8,16,36} len=0..3
//JOB parse_i8 radix=2..36 len=2
//JOB parse_u8 radix={10,16} len=0..4
//JOB parse_i32 radix=10 len=0..5
//JOB parse_i32 radix=16 len=0..4
//JOB parse_i64_edge radix=10 sep=0..2
//JOB parse_u64_edge radix=10 sep=0..2
//JOB parse_i32_edge radix=10 sep=0..2
//JOB parse_i16_edge sep=0..1
//JOB parse_u16_edge sep=0..1
//JOB parse_u32_edge sep=0..1
//JOB long_i64 len={40,41,42,255,256,257,300,301} radix=10
//JOB long_i64 len={41,301} radix=16
//JOB long_u8 len={40,41,42,259} radix=11
//JOB groups radix=10 len=5..12
//JOB groups radix=16 len={8,11}
//JOB parse_u8text radix={10,16} len=1..3
//JOB parse_u16text radix=10 len=1..3
//JOB parse_narrow radix=10 len=1..4
//JOB parse_i32 radix={10,16,36} len=6..7 tier=thorough
//JOB parse_i8 radix=2..36 len=3..4 tier=thorough
//COVERS accepted rejected overflow negative separated empty wild long
//BOUNDS every text of up to 4 (8-bit) or 5 (32-bit) UTF-32 characters - each any 32-bit value -, UTF-8 text of up to 3 bytes and UTF-16 text of up to 3 units (ill-formed text included), narrow text of up to 4 bytes; both sign modes and all separators; texts of up to 12 characters, each a digit or a separator in any order; 5 to 21 digit texts around the limits of 16-, 32- and 64-bit types with three symbolic digits; texts of 40 to 42 and 255 to 301 characters, mostly leading zeros, with one arbitrary character at any of eight places; radices as listed (all 35 at length 2)
//OUTSIDE longer arbitrary texts; which failure type is reported (any parse failure is accepted for non-conforming text)
#define NO_IO
#include "lib.h"
#include "ref.h"

static cmp::integer_format make_format(unsigned radix, unsigned sign, unsigned sep) {
    return cmp::integer_format{radix, sign ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative,
                               sep == 0 ? cmp::thousands_separator::none : sep == 1 ? cmp::thousands_separator::comma : cmp::thousands_separator::period};
}
// Reference grammar: [sign] digits, grouped by three from the right when a
// separator is set.  Returns false if the text does not conform.
template <typename C>
static bool reference(const C *p, unsigned n, unsigned radix, unsigned sign, unsigned sep, bool &neg, unsigned __int128 &mag) {
    neg = false;
    mag = 0;
    if (n == 0) return false;
    unsigned i = 0;
    if (p[0] == '-') { neg = true; i = 1; }
    else if (sign && p[0] == '+') i = 1;
    if (i == n) return false;
    if (sep && (n - i) % 4 == 0) return false;
    bool big = false; // in long texts only whether 64 bits are exceeded counts
    for (; i < n; i++) {
        unsigned right = n - 1 - i;
        char32_t c = (char32_t)p[i];
        if (sep && right % 4 == 3) {
            if (c != (sep == 1 ? U',' : U'.')) return false;
            symx_cover("separated");
            continue;
        }
        unsigned v;
        if (c >= '0' && c <= '9') v = c - '0';
        else if (c >= 'a' && c <= 'z') v = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') v = c - 'A' + 10;
        else return false;
        if (v >= radix) return false;
        mag = mag * radix + v;
        if (n > 30) { big = big | (mag >> 64 != 0); mag = (unsigned long long)mag; }
    }
    if (big) mag = (unsigned __int128)1 << 100;
    return true;
}
template <typename T, typename C>
static void judge(const ref::Text<C> &t, unsigned radix, unsigned sign, unsigned sep, bool malformed) {
    T got{};
    int failed = 0;
    auto type = cmp::parse_failed::type::empty_input;
    try {
        got = cmp::parse_integer<T>(t.view(), make_format(radix, sign, sep));
    } catch (const cmp::parse_failed &e) {
        failed = 1;
        type = e.get_type();
    } catch (const cmp::invalid_unicode_encoding &) { failed = 2; } catch (const cmp::iterated_past_end &) { failed = 2; }
    if (malformed) { symx_assert(failed != 0, "ill-formed text does not parse"); return; }
    symx_assert(failed != 2, "well-formed text is decoded");
    bool neg;
    unsigned __int128 mag;
    bool ok = reference(t.p, t.n, radix, sign, sep, neg, mag);
    if (t.n == 0) { symx_cover("empty"); symx_assert(failed && type == cmp::parse_failed::type::empty_input, "empty text is reported as such"); return; }
    if (ok && neg && !std::is_signed_v<T>) { symx_assert(failed && (mag > std::numeric_limits<T>::max() || type == cmp::parse_failed::type::negative_unsigned), "a negative number does not fit an unsigned type"); return; }
    unsigned __int128 lim = (unsigned __int128)std::numeric_limits<T>::max() + (neg ? 1 : 0);
    if (ok && mag > lim) { symx_cover("overflow"); symx_assert(failed, "a value that does not fit is rejected"); return; }
    if (!ok) { symx_cover("rejected"); symx_assert(failed, "text that does not conform to the format is rejected"); return; }
    symx_cover("accepted");
    symx_assert(!failed, "conforming text is accepted");
    if (neg) symx_cover("negative");
    symx_assert(got == (T)(neg ? -(__int128)mag : (__int128)mag), "the parsed value is the denoted value");
}
template <typename T, typename C = char32_t>
static void parse_any() {
    unsigned radix = symx_param("radix", 10), len = symx_param("len", 2);
    unsigned sign = choose(2, "sign"), sep = choose(3, "sep");
    ref::Text<C> t(len);
    for (unsigned i = 0; i < len; i++) t.p[i] = sym<C>("char");
    bool bad = false;
    if constexpr (sizeof(C) <= 2 && !std::is_same_v<C, char>) {
        unsigned i = 0;
        while (i < len && !bad) {
            auto d = ref::dec<C>(t.p + i, len - i);
            bad = d.status != 0;
            i += (unsigned)symx_concrete(d.len);
        }
        if (bad) symx_cover("wild");
    }
    judge<T, C>(t, radix, sign, sep, bad);
}
ENTRY parse_i8() { parse_any<signed char>(); }
ENTRY parse_u8() { parse_any<unsigned char>(); }
ENTRY parse_i32() { parse_any<int>(); }
ENTRY parse_u8text() { parse_any<int, char8_t>(); }
ENTRY parse_u16text() { parse_any<int, char16_t>(); }
ENTRY parse_narrow() { parse_any<int, char>(); }

// Long texts around the limits of the type: three digits are symbolic.
template <typename T>
static void edge(const char *digits) {
    unsigned sep = symx_param("sep", 0), sign = choose(2, "sign");
    char32_t d[40];
    unsigned n = 0;
    while (digits[n]) n++;
    unsigned extra = choose(2, "extra"); // one leading zero or digit more
    char32_t body[48];
    unsigned k = 0;
    if (extra) { body[k] = sym<char32_t>("lead"); symx_assume(body[k] >= '0' && body[k] <= '9'); k++; }
    for (unsigned i = 0; i < n; i++) body[k++] = digits[i];
    unsigned where = choose(3, "where"); // position of the symbolic digits
    unsigned at = where == 0 ? k - 3 : where == 1 ? 0 : k / 2;
    for (unsigned i = at; i < at + 3; i++) { body[i] = sym<char32_t>("digit"); symx_assume(body[i] >= '0' && body[i] <= '9'); }
    char32_t out[64];
    unsigned m = 0;
    unsigned s = choose(3, "prefix");
    if (s == 1) out[m++] = '-';
    if (s == 2) out[m++] = '+';
    for (unsigned i = 0; i < k; i++) {
        if (sep && i && (k - i) % 3 == 0) out[m++] = sep == 1 ? ',' : '.';
        out[m++] = body[i];
    }
    ref::Text<char32_t> t(m);
    for (unsigned i = 0; i < m; i++) t.p[i] = out[i];
    judge<T, char32_t>(t, 10, sign, sep, false);
}
ENTRY parse_i64_edge() { edge<long long>("9223372036854775807"); }
ENTRY parse_u64_edge() { edge<unsigned long long>("18446744073709551615"); }
ENTRY parse_i32_edge() { edge<int>("2147483647"); }
ENTRY parse_i16_edge() { edge<short>("32767"); }
ENTRY parse_u16_edge() { edge<unsigned short>("65535"); }
ENTRY parse_u32_edge() { edge<unsigned>("4294967295"); }
// digits and separators in every order
// Texts of many digits, most of them leading zeros, with one arbitrary character anywhere.
template <typename T, typename C>
static void long_text() {
    unsigned n = symx_param("len", 40), radix = symx_param("radix", 10), sign = choose(2, "sign"), sep = choose(3, "sep");
    unsigned lead = choose(3, "lead"); // nothing, minus, plus
    ref::Text<C> t(n + (lead != 0));
    unsigned b = 0;
    if (lead) t.p[b++] = lead == 1 ? '-' : '+';
    for (unsigned i = 0; i < n; i++) {
        unsigned right = n - 1 - i;
        t.p[b + i] = sep && right % 4 == 3 ? (sep == 1 ? ',' : '.') : right < 6 ? "102030"[5 - right] : '0';
    }
    unsigned at[] = {0, 1, n / 2, n / 2 + 1, n - 21, n - 20, n - 4, n - 1};
    C c = sym<C>("char");
    if constexpr (sizeof(C) <= 2) symx_assume(c < 0x80);
    if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) c = (C)symx_concrete(c);
    t.p[at[choose(8, "at")]] = c;
    symx_cover("long");
    judge<T, C>(t, radix, sign, sep, false);
}
ENTRY long_i64() { long_text<long long, char32_t>(); }
ENTRY long_u8() { long_text<unsigned, char8_t>(); }
ENTRY groups() {
    unsigned radix = symx_param("radix", 10), len = symx_param("len", 7), sign = choose(2, "sign"), sep = choose(3, "sep");
    ref::Text<char32_t> t(len);
    for (unsigned i = 0; i < len; i++) {
        unsigned char k = sym<unsigned char>("kind");
        t.p[i] = k & 1 ? (sep == 2 ? U'.' : U',') : k & 2 ? U'7' : U'1';
    }
    judge<long long, char32_t>(t, radix, sign, sep, false);
}

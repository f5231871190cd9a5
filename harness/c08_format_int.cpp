//PROPERTY C08
//JOB fmt_i8 radix=2..36
//JOB fmt_u8 radix={2,3,7,8,10,16,36}
//JOB fmt_i16 radix={2,8,10,16,36}
//JOB fmt_u16 radix={2,8,10,16,36}
//JOB fmt_i32 radix={2,8,10,16,32} time=200
//JOB fmt_i64 radix={2,10,36} window=0..7 time=200
//JOB fmt_u64 radix={2,10,36} window=0..5 time=200
//JOB fmt_i16 radix=2..36 tier=thorough
//JOB fmt_i32 radix=2..36 tier=thorough
//JOB fmt_i64 radix=2..36 tier=thorough
//JOB full_i64 radix={8,16} time=200
//JOB full_i64 radix={2,4,32} time=3000 tier=thorough
//JOB full_u64 radix={8,16} time=200
//JOB full_u64 radix={2,4,32} time=3000 tier=thorough
//JOB deep_i32 radix=2..36 time=60
//JOB deep_u32 radix=2..36 time=60
//JOB deep_i16 radix=2..36 time=60
//JOB deep_u16 radix=2..36 time=60
//JOB deep_i64 radix=2..36 time=60
//JOB deep_u64 radix=2..36 time=60
//JOB fmt_types radix={10,16}
//COVERS zero negative positive plus grouped minimum deep
//BOUNDS every value of every integer width tried (8, 16, 32 and 64 bits; signed and unsigned) in every radix from 2 to 36, both sign modes, all three separators (digit by digit); besides, the digits are summed up again for every 8-bit and 16-bit value, and for 32-bit and 64-bit values in windows of 256 around 0, the extremes and powers of the radix
//OUTSIDE string types other than UTF-32 for values wider than 8 bits
#define NO_IO
#include "lib.h"
#include "ref.h"

static cmp::integer_format make_format(unsigned radix, unsigned sign, unsigned sep) {
    return cmp::integer_format{radix, sign ? cmp::sign_status::always_show : cmp::sign_status::only_when_negative,
                               sep == 0 ? cmp::thousands_separator::none : sep == 1 ? cmp::thousands_separator::comma : cmp::thousands_separator::period};
}

// Checks the text against the value without dividing: canonical digits whose
// weighted sum is the magnitude.
template <typename S>
static void check_text(const S &t, bool neg, unsigned __int128 mag, unsigned radix, unsigned sign, unsigned sep) {
    size_t i = 0, n = t.size();
    if (mag == 0) {
        symx_cover("zero");
        symx_assert(n == 1 && t[0] == '0', "zero is written as 0");
        return;
    }
    symx_assert(n > 0, "not empty");
    if (!n) return;
    if (neg) { symx_cover("negative"); symx_assert(t[0] == '-', "a negative number starts with -"); i = 1; }
    else if (sign) { symx_cover("plus"); symx_assert(t[0] == '+', "a positive number starts with + when the sign is always shown"); i = 1; }
    else symx_cover("positive");
    symx_assert(n > i, "there is a digit");
    if (n <= i) return;
    symx_assert(t[i] != '0', "no leading zero");
    unsigned __int128 sum = 0;
    bool ok = true;
    size_t digits = 0, body = n - i;
    for (; i < n; i++) {
        size_t right = n - 1 - i; // characters to the right
        if (sep && right % 4 == 3) {
            symx_cover("grouped");
            ok = ok & (t[i] == (sep == 1 ? ',' : '.'));
            continue;
        }
        unsigned c = (unsigned)t[i];
        unsigned dig = c - '0', let = c - 'A';
        bool isd = dig < 10, isl = let < 26;
        unsigned v = isd ? dig : let + 10;
        ok = ok & (isd | isl) & (v < radix);
        sum = sum * radix + v;
        digits++;
    }
    symx_assert(ok, "digits of the radix, upper case, grouped by three from the right");
    symx_assert(sum == mag, "the digits denote the magnitude");
    if (sep) symx_assert(body % 4 != 0, "no separator before the first digit");
}

template <typename T, typename S = std::u32string>
static void fmt(T v) {
    unsigned radix = symx_param("radix", 10);
    unsigned sign = choose(2, "sign"), sep = choose(3, "sep");
    S t = cmp::format_integer<S>(v, make_format(radix, sign, sep));
    bool neg = v < 0;
    if (std::is_signed_v<T> && v == std::numeric_limits<T>::min()) symx_cover("minimum");
    unsigned __int128 mag = neg ? (unsigned __int128)(-(__int128)v) : (unsigned __int128)v;
    check_text(t, neg, mag, radix, sign, sep);
}
template <typename T>
static T window() {
    unsigned radix = symx_param("radix", 10);
    T pw[3];
    T p = 1;
    int k = 0;
    T lim = std::numeric_limits<T>::max() / (T)radix;
    pw[0] = pw[1] = pw[2] = 0;
    while (p <= lim) { p = (T)(p * radix); k++; if (k == 3) pw[0] = p; if (k == 6) pw[1] = p; pw[2] = p; }
    T anchor;
    bool up;
    unsigned w = symx_param("window", 9);
    if (w > 8) w = choose(std::is_signed_v<T> ? 8 : 6, "window");
    switch (w) {
    case 0: anchor = 0; up = true; break;
    case 1: anchor = std::numeric_limits<T>::max(); up = false; break;
    case 2: anchor = pw[0] > 128 ? pw[0] - 128 : pw[0]; up = true; break;
    case 3: anchor = pw[1] > 128 ? pw[1] - 128 : pw[1]; up = true; break;
    case 4: anchor = pw[2] > 128 ? pw[2] - 128 : pw[2]; up = true; break;
    case 5: anchor = pw[2]; up = false; break;
    case 6: anchor = std::numeric_limits<T>::min(); up = true; break;
    default: anchor = (T)0 - (T)(pw[2] - 100); up = false; break;
    }
    unsigned char d = sym<unsigned char>("offset");
    return up ? (T)(anchor + (T)d) : (T)(anchor - (T)d);
}
ENTRY fmt_i8() { fmt<signed char>(sym<signed char>("value")); }
ENTRY fmt_u8() { fmt<unsigned char>(sym<unsigned char>("value")); }
ENTRY fmt_i16() { fmt<short>(sym<short>("value")); }
ENTRY fmt_u16() { fmt<unsigned short>(sym<unsigned short>("value")); }
ENTRY fmt_i32() { fmt<int>(window<int>()); }
ENTRY fmt_i64() { fmt<long long>(window<long long>()); }
ENTRY fmt_u64() { fmt<unsigned long long>(window<unsigned long long>()); }
ENTRY fmt_types() { // the same text in every string type
    switch (choose(4, "string")) {
    case 0: fmt<signed char, std::string>(sym<signed char>("value")); break;
    case 1: fmt<signed char, std::u8string>(sym<signed char>("value")); break;
    case 2: fmt<signed char, std::u16string>(sym<signed char>("value")); break;
    case 3: fmt<signed char, std::wstring>(sym<signed char>("value")); break;
    }
}
ENTRY full_i64() { fmt<long long>(sym<long long>("value")); }
ENTRY full_u64() { fmt<unsigned long long>(sym<unsigned long long>("value")); }
// Every 64-bit value in any radix: the character at each place is the digit
// (magnitude / radix^place) % radix.
template <typename T>
static void deep() {
    using U = std::make_unsigned_t<T>;
    U mag = sym<U>("magnitude");
    unsigned radix = symx_param("radix", 10);
    unsigned sign = choose(2, "sign"), sep = choose(3, "sep");
    bool neg = std::is_signed_v<T> && choose(2, "half");
    T v = neg ? (T)(U)(0 - mag) : (T)mag;
    symx_assume(neg ? v < 0 : v >= 0);
    auto t = cmp::format_integer<std::u32string>(v, make_format(radix, sign, sep));
    unsigned long long m = mag;
    if (m == 0) { symx_assert(t.size() == 1 && t[0] == '0', "zero is written as 0"); return; }
    size_t n = symx_concrete(t.size()), first = neg || sign ? 1 : 0, places = 0;
    bool ok = true;
    for (size_t right = 0; right < n - first; right++) {
        char32_t c = t[n - 1 - right];
        if (sep && right % 4 == 3) { ok = ok & (c == (sep == 1 ? U',' : U'.')); continue; }
        unsigned d = (unsigned)(m % radix);
        ok = ok & (m != 0) & (c == (d < 10 ? '0' + d : 'A' + (d - 10)));
        m /= radix;
        places++;
    }
    symx_cover("deep");
    symx_assert(m == 0, "every digit is written");
    symx_assert(ok, "the digit of each place, grouped by three from the right, and none more");
    if (sep) symx_assert((n - first) % 4 != 0, "no separator before the first digit");
    if (first) symx_assert(t[0] == (neg ? U'-' : U'+'), "the sign");
}
ENTRY deep_i16() { deep<short>(); }
ENTRY deep_u16() { deep<unsigned short>(); }
ENTRY deep_i32() { deep<int>(); }
ENTRY deep_u32() { deep<unsigned>(); }
ENTRY deep_i64() { deep<long long>(); }
ENTRY deep_u64() { deep<unsigned long long>(); }

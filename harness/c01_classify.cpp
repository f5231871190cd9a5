//PROPERTY C01
//JOB classify_units
//JOB classify_points
//JOB classify_whitespace
//JOB classify_digit
//COVERS valid invalid high_plane space digit nondigit letter
//BOUNDS every 8-bit and 16-bit code unit and every 32-bit value as code point; every radix from 2 to 36 (all symbolic)
//OUTSIDE radices outside 2..36
#define NO_IO
#include "lib.h"
#include "ref.h"

ENTRY classify_units() {
    char8_t b = sym<char8_t>("byte");
    symx_assert(cmp::is_standalone_byte(b) == (b < 0x80), "standalone byte");
    symx_assert(cmp::is_leading_byte(b) == (b >= 0xC0 && b < 0xF8), "leading byte");
    symx_assert(cmp::is_trailing_byte(b) == (b >= 0x80 && b < 0xC0), "trailing byte");
    char16_t u = sym<char16_t>("unit");
    symx_assert(cmp::is_leading_surrogate(u) == (u >= 0xD800 && u < 0xDC00), "leading surrogate");
    symx_assert(cmp::is_trailing_surrogate(u) == (u >= 0xDC00 && u < 0xE000), "trailing surrogate");
    symx_assert(cmp::is_surrogate(u) == (u >= 0xD800 && u < 0xE000), "surrogate");
}
ENTRY classify_points() {
    char32_t c = sym<char32_t>("cp");
    symx_assert(cmp::fits_in_7_bits(c) == (c < 128), "fits in 7 bits");
    bool want = ref::valid(c);
    symx_assert(cmp::is_code_point_valid(c) == want, "a code point is valid iff it is a Unicode scalar value");
    if (want) symx_cover("valid"); else symx_cover("invalid");
    if (c == 0x1D800) symx_cover("high_plane");
}
ENTRY classify_whitespace() {
    char32_t c = sym<char32_t>("cp");
    bool want = (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 ||
                c == 0x202F || c == 0x205F || c == 0x3000;
    symx_assert(cmp::is_whitespace(c) == want, "whitespace iff White_Space");
    if (want) symx_cover("space");
}
ENTRY classify_digit() {
    char32_t c = sym<char32_t>("cp");
    unsigned radix = sym<unsigned>("radix");
    symx_assume(radix >= 2 && radix <= 36);
    unsigned v = 99;
    if (c >= '0' && c <= '9') v = c - '0';
    else if (c >= 'a' && c <= 'z') { v = c - 'a' + 10; symx_cover("letter"); }
    else if (c >= 'A' && c <= 'Z') v = c - 'A' + 10;
    bool want = v < radix;
    symx_assert(cmp::is_radix_digit(c, radix) == want, "digit of the radix iff its value is below the radix");
    if (want) symx_cover("digit"); else symx_cover("nondigit");
}

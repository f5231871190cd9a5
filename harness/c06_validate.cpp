//PROPERTY C06
//JOB validate_u8 len=0..8
//JOB validate_u8 len=9..11 time=3000 tier=thorough
//JOB validate_u16 len=0..8
//JOB validate_u16 len=9..12 time=3000 tier=thorough
//JOB validate_u8 len={1,3} pad={12,90}
//JOB validate_u16 len={1,2} pad={12,90}
//JOB validate_u32 len=1 pad={12,90}
//JOB validate_w len=1 pad={12,90}
//JOB validate_narrow len=1 pad={12,140}
//JOB validate_u32 len=0..4
//JOB validate_w len=0..4
//JOB validate_narrow len=0..4
//COVERS whole broken later
//BOUNDS every UTF-8 text of up to 8 bytes, UTF-16 text of up to 8 units, UTF-32, wide and narrow text of up to 4 units (thorough: 11 bytes, 12 units), all units symbolic, and up to 3 such units in the middle of fixed texts of up to 500 units
//OUTSIDE longer texts
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename C>
static void validate() {
    unsigned len, from, to;
    std::basic_string<C> s = ref::padded_units<C>((unsigned)symx_param("len", 3), (unsigned)symx_param("pad", 0), from, to);
    len = (unsigned)s.size();
    s.reserve(len + 40); // on the heap
    std::basic_string<C> before = s;
    auto r = cmp::validate_string(s);
    unsigned pos = 0;
    while (pos < len) {
        auto d = ref::dec<C>(s.data() + pos, len - pos);
        if (d.status) break;
        if (sizeof(C) == 4 && !ref::valid(d.c)) break;
        if (std::is_same_v<C, char> && (unsigned char)s[pos] >= 0x80) break;
        pos += symx_concrete(d.len);
    }
    if (pos == len) symx_cover("whole"); else if (pos == 0) symx_cover("broken"); else symx_cover("later");
    std::basic_string_view<C> v = s;
    using It = typename cmp::by_code_point<C>::const_iterator;
    symx_assert(r == It{v.begin() + pos, v.end()}, "validation stops just past the last valid code point");
    symx_assert(ref::same(s, before), "validation does not change the text");
}
ENTRY validate_u8() { validate<char8_t>(); }
ENTRY validate_u16() { validate<char16_t>(); }
ENTRY validate_u32() { validate<char32_t>(); }
ENTRY validate_w() { validate<wchar_t>(); }
ENTRY validate_narrow() { validate<char>(); }

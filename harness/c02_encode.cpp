//PROPERTY C02
//JOB insert_u8 len=0..3
//JOB insert_u16 len=0..3
//JOB insert_u32 len=0..3
//JOB insert_w len=0..3
//JOB insert_narrow len=0..3
//JOB insert_u8 len=257 ends=1
//JOB insert_u16 len=257 ends=1
//JOB insert_u32 len=257 ends=1
//JOB insert_u8 len=14..16
//JOB insert_u16 len=6..8
//JOB insert_u32 len=4..8 tier=thorough
//COVERS one two three four pair rejected
//BOUNDS every 32-bit value as code point, every existing string of up to 3 arbitrary code units (plus lengths straddling the small-string limit, and 257 units with insertion near both ends), every insertion index including both ends (insert, append and prepend)
//OUTSIDE longer strings; indices past the end (precondition of std::basic_string)
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename C>
static void insert_check(bool checked) {
    unsigned len = symx_param("len", 2);
    std::basic_string<C> s;
    for (unsigned i = 0; i < len; i++) s.push_back(sym<C>("old"));
    std::basic_string<C> before = s;
    char32_t cp = sym<char32_t>("cp");
    unsigned how = choose(3, "how");
    unsigned at = how == 0 ? len : how == 1 ? 0 : symx_param("ends", 0) ? len - choose(3, "at") : choose(len + 1, "at");
    bool threw = false;
    try {
        if (how == 0) cmp::append_code_point(s, cp);
        else if (how == 1) cmp::prepend_code_point(s, cp);
        else cmp::insert_code_point(s, cp, at);
    } catch (const cmp::invalid_code_point &) { threw = true; }
    if (checked) {
        bool ok = ref::valid(cp);
        symx_assert(threw == !ok, "a code point is rejected iff it is not a Unicode scalar value");
        if (threw) {
            symx_cover("rejected");
            symx_assert(ref::same(s, before), "a rejected code point leaves the string unchanged");
            return;
        }
    } else symx_assert(!threw, "no value is rejected");
    auto u = ref::enc<C>(cp);
    int k = (int)symx_concrete(u.n);
    static const char *const name[] = {"", "one", "two", "three", "four"};
    symx_cover(name[k]);
    if (sizeof(C) == 2 && k == 2) symx_cover("pair");
    symx_assert(s.size() == before.size() + k, "the string grows by the length of the encoding");
    bool same = true;
    for (unsigned i = 0; i < at; i++) same = same & (s[i] == before[i]);
    for (int i = 0; i < k; i++) same = same & (s[at + i] == (C)u.u[i]);
    for (unsigned i = at; i < len; i++) same = same & (s[i + k] == before[i]);
    symx_assert(same, "the shortest well-formed encoding is inserted at the index and nothing else changes");
}
ENTRY insert_u8() { insert_check<char8_t>(true); }
ENTRY insert_u16() { insert_check<char16_t>(true); }
ENTRY insert_u32() { insert_check<char32_t>(false); }
ENTRY insert_w() { insert_check<wchar_t>(false); }
ENTRY insert_narrow() { insert_check<char>(false); }

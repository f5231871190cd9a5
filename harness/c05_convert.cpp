//PROPERTY C05
//JOB convert_from_u8 n=0..2
//JOB convert_from_u16 n=0..2
//JOB convert_from_u32 n=0..2
//JOB convert_from_w n=0..2
//JOB convert_from_narrow n=0..3
//JOB convert_from_u8 n=3
//JOB convert_from_u16 n=3
//JOB convert_from_u32 n=3
//JOB convert_from_u8 n=4..5 time=3000 tier=thorough
//JOB convert_from_u16 n=4..6 time=3000 tier=thorough
//JOB convert_from_u32 n=4..5 time=3000 tier=thorough
//JOB convert_from_u8 n={8,17,90,260} free=1
//JOB convert_from_u16 n={8,17,90,260} free=1
//JOB convert_from_u32 n={17,260} free=1
//JOB convert_from_w n={17,260} free=1
//JOB convert_from_narrow n={17,260} free=1
//JOB pointers n={17,260} free=1
//JOB reject_u8 len=1..4
//JOB reject_u16 len=1..4
//JOB reject_u32 len=1..2
//JOB pointers n=0..2
//COVERS multi rejected accepted
//BOUNDS every text of up to 3 Unicode scalar values (thorough: 5, UTF-16 6; ASCII for narrow text), and texts of up to 260 code points with one arbitrary code point at the start, in the middle or at the end, converted between every pair of encodings; every ill-formed UTF-8 or UTF-16 text of up to 4 units
//OUTSIDE longer texts; narrow text outside ASCII
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename C>
static void from() {
    unsigned n = symx_param("n", 2);
    unsigned to = choose(5, "to");
    auto cps = ref::symbolic_cps(n, std::is_same_v<C, char> || to == 0);
    auto s = ref::encode<C>(cps);
    if (s.size() > n) symx_cover("multi");
    bool view = choose(2, "view");
    std::basic_string_view<C> sv = s;
    switch (to) {
    case 0: symx_assert(ref::same(view ? cmp::to_string(sv) : cmp::convert_string<std::string>(s), ref::encode<char>(cps)), "conversion to narrow keeps the code points"); break;
    case 1: symx_assert(ref::same(view ? cmp::to_u8string(sv) : cmp::convert_string<std::u8string>(s), ref::encode<char8_t>(cps)), "conversion to UTF-8 keeps the code points"); break;
    case 2: symx_assert(ref::same(view ? cmp::to_u16string(sv) : cmp::convert_string<std::u16string>(s), ref::encode<char16_t>(cps)), "conversion to UTF-16 keeps the code points"); break;
    case 3: symx_assert(ref::same(view ? cmp::to_u32string(sv) : cmp::convert_string<std::u32string>(s), ref::encode<char32_t>(cps)), "conversion to UTF-32 keeps the code points"); break;
    case 4: symx_assert(ref::same(view ? cmp::to_wstring(sv) : cmp::convert_string<std::wstring>(s), ref::encode<wchar_t>(cps)), "conversion to wide keeps the code points"); break;
    }
}
ENTRY convert_from_u8() { from<char8_t>(); }
ENTRY convert_from_u16() { from<char16_t>(); }
ENTRY convert_from_u32() { from<char32_t>(); }
ENTRY convert_from_w() { from<wchar_t>(); }
ENTRY convert_from_narrow() { from<char>(); }

template <typename C>
static bool well_formed(const C *p, unsigned n) {
    unsigned i = 0;
    while (i < n) {
        auto d = ref::dec<C>(p + i, n - i);
        if (d.status) return false;
        i += symx_concrete(d.len);
    }
    return true;
}
template <typename C>
static void reject() {
    unsigned len = symx_param("len", 2);
    ref::Text<C> t(len);
    for (unsigned i = 0; i < len; i++) t.p[i] = sym<C>("unit");
    bool threw = false;
    unsigned to = choose(2, "to");
    try {
        if (to) (void)cmp::to_u32string(t.view());
        else if constexpr (sizeof(C) == 1) (void)cmp::to_u16string(t.view());
        else (void)cmp::to_u8string(t.view());
    } catch (const cmp::invalid_unicode_encoding &) { threw = true; } catch (const cmp::iterated_past_end &) { threw = true; }
    bool ok = well_formed(t.p, len);
    symx_assert(threw == !ok, "ill-formed text is rejected, well-formed text is not");
    if (ok) symx_cover("accepted"); else symx_cover("rejected");
}
ENTRY reject_u8() { reject<char8_t>(); }
ENTRY reject_u16() { reject<char16_t>(); }
ENTRY reject_u32() { // a UTF-32 value that is no scalar value cannot be encoded in UTF-8 or UTF-16
    unsigned len = symx_param("len", 1);
    ref::Text<char32_t> t(len);
    bool ok = true;
    for (unsigned i = 0; i < len; i++) { t.p[i] = sym<char32_t>("unit"); ok = ok & ref::valid(t.p[i]); }
    bool threw = false;
    unsigned to = choose(2, "to");
    try {
        if (to) (void)cmp::to_u8string(t.view());
        else (void)cmp::to_u16string(t.view());
    } catch (const cmp::invalid_code_point &) { threw = true; }
    symx_assert(threw == !ok, "values that are no code points are rejected");
}
ENTRY pointers() { // NUL-terminated text
    unsigned n = symx_param("n", 2);
    auto cps = ref::symbolic_cps(n, false);
    for (unsigned i = 0; i < n; i++) symx_assume(cps.c[i] != 0);
    auto s = ref::encode<char8_t>(cps);
    const char8_t *p = s.c_str();
    symx_assert(cmp::string_size(p) == s.size(), "size of NUL-terminated UTF-8 text");
    symx_assert(ref::same(cmp::to_u16string(p), ref::encode<char16_t>(cps)), "conversion of NUL-terminated UTF-8 text");
    auto s16 = ref::encode<char16_t>(cps);
    symx_assert(cmp::string_size(s16.c_str()) == s16.size(), "size of NUL-terminated UTF-16 text");
    symx_assert(ref::same(cmp::to_u8string(s16.c_str()), s), "conversion of NUL-terminated UTF-16 text");
    auto s32 = ref::encode<char32_t>(cps);
    symx_assert(cmp::string_size(s32.c_str()) == n, "size of NUL-terminated UTF-32 text");
    symx_assert(cmp::string_size(s) == s.size() && cmp::string_size(s16) == s16.size() && cmp::string_size(s32) == s32.size(), "size of strings");
}

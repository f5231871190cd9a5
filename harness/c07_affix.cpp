//PROPERTY C07
//JOB affix_8_8 n=0..3 m=0..2
//JOB affix_8_16 n=0..2 m=0..2
//JOB affix_16_8 n=0..2 m=0..2
//JOB affix_16_16 n=0..3 m=0..3
//JOB affix_32_8 n=0..2 m=0..2
//JOB affix_16_32 n=0..3 m=0..3
//JOB affix_w_16 n=0..2 m=0..2
//JOB affix_32_32 n=0..3 m=0..3
//JOB affix_narrow n=0..3 m=0..3
//JOB affix_8_narrow n=0..2 m=0..2
//JOB affix_8_8 n={20,270} m={20,270} free=1
//JOB affix_16_8 n={20,270} m={20,270} free=1
//JOB affix_32_8 n=270 m={20,270} free=1
//JOB affix_narrow n=270 m={20,270} free=1
//JOB affix_8_8 n=3 m=3
//JOB affix_8_8 n=4 m=0..4 time=3000 tier=thorough
//JOB affix_16_16 n=4..5 m=0..5 time=3000 tier=thorough
//COVERS starts not_starts ends not_ends
//BOUNDS every pair of well-formed texts of up to 3 code points in ten pairs of encodings (all code points symbolic), and texts of 20 and 270 code points that differ in up to two places
//OUTSIDE ill-formed text (the functions are noexcept and terminate), narrow text outside ASCII
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename A, typename B>
static void affix() {
    unsigned n = symx_param("n", 2), m = symx_param("m", 1);
    auto a = ref::symbolic_cps(n, std::is_same_v<A, char>, "content");
    auto b = ref::symbolic_cps(m, std::is_same_v<B, char>, "part");
    auto sa = ref::encode<A>(a);
    auto sb = ref::encode<B>(b);
    ref::Text<A> ta(sa.size());
    for (unsigned i = 0; i < ta.n; i++) ta.p[i] = sa[i];
    ref::Text<B> tb(sb.size());
    for (unsigned i = 0; i < tb.n; i++) tb.p[i] = sb[i];
    bool starts = m <= n, ends = m <= n;
    for (unsigned i = 0; i < m && m <= n; i++) {
        starts = starts & (a.c[i] == b.c[i]);
        ends = ends & (a.c[n - m + i] == b.c[i]);
    }
    bool s = cmp::starts_with(ta.view(), tb.view());
    symx_assert(s == starts, "starts_with compares code points from the start");
    bool e = cmp::ends_with(ta.view(), tb.view());
    symx_assert(e == ends, "ends_with compares code points from the end");
    symx_cover(s ? "starts" : "not_starts");
    symx_cover(e ? "ends" : "not_ends");
}
ENTRY affix_8_8() { affix<char8_t, char8_t>(); }
ENTRY affix_8_16() { affix<char8_t, char16_t>(); }
ENTRY affix_16_8() { affix<char16_t, char8_t>(); }
ENTRY affix_16_16() { affix<char16_t, char16_t>(); }
ENTRY affix_32_8() { affix<char32_t, char8_t>(); }
ENTRY affix_16_32() { affix<char16_t, char32_t>(); }
ENTRY affix_w_16() { affix<wchar_t, char16_t>(); }
ENTRY affix_32_32() { affix<char32_t, char32_t>(); }
ENTRY affix_narrow() { affix<char, char>(); }
ENTRY affix_8_narrow() { affix<char8_t, char>(); }

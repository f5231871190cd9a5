//PROPERTY C04
//JOB bidir_u8 n=0..5
//JOB bidir_u16 n=0..6
//JOB bidir_u32 n=0..3
//JOB bidir_w n=0..3
//JOB bidir_narrow n=0..3
//JOB bidir_u8 n=6 time=3000 tier=thorough
//JOB bidir_u16 n=7..8 time=3000 tier=thorough
//JOB bidir_u8 n={40,300} free=1
//JOB bidir_u16 n={40,300} free=1
//JOB bidir_u32 n=300 free=1
//JOB bidir_w n=300 free=1
//JOB bidir_narrow n=300 free=1
//COVERS back multi
//BOUNDS every well-formed text of up to 3 code points, 5 in UTF-8 and 6 in UTF-16 (thorough: 6 and 8) in each encoding, and texts of 40 and 300 code points with one arbitrary code point at the start, in the middle or at the end; every start position, every forward and backward offset that stays inside the text
//OUTSIDE backward iteration over ill-formed text (iterators do not know the start of the text), negative offsets in UTF-8/UTF-16
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename C>
static void bidir() {
    unsigned n = symx_param("n", 2);
    auto cps = ref::symbolic_cps(n, sizeof(C) == 1 && std::is_same_v<C, char>);
    auto s = ref::encode<C>(cps);
    ref::Text<C> t(s.size());
    for (unsigned i = 0; i < t.n; i++) t.p[i] = s[i];
    if (t.n > n) symx_cover("multi");
    auto v = t.view();
    unsigned off[321];
    off[0] = 0;
    for (unsigned i = 0; i < n; i++) off[i + 1] = off[i] + (unsigned)symx_concrete(ref::enc<C>(cps.c[i]).n);
    cmp::by_code_point range{v};
    using It = typename cmp::by_code_point<C>::const_iterator;
    auto at = [&](unsigned k) { return It{v.begin() + off[k], v.end()}; };

    // backwards, one by one
    auto it = range.end();
    for (unsigned k = n; k-- > 0;) {
        symx_cover("back");
        if (k % 2) { auto &r = --it; symx_assert(&r == &it, "prefix decrement returns the iterator"); }
        else { auto old = it--; symx_assert(old == at(k + 1), "postfix decrement returns the old position"); }
        symx_assert(it == at(k), "decrement moves to the previous code point");
        symx_assert((char32_t)*it == cps.c[k], "stepping back yields the preceding code point");
    }
    symx_assert(it == range.begin(), "stepping back through all of the text reaches its beginning");
    // reverse iterators
    auto r = range.crbegin();
    unsigned k = n;
    while (r != range.crend()) {
        symx_assert(k > 0, "reverse iteration visits no more code points than the text has");
        if (!k) return;
        --k;
        symx_assert((char32_t)*r == cps.c[k], "reverse iteration yields the code points in reverse order");
        ++r;
    }
    symx_assert(k == 0, "reverse iteration visits every code point");
    // offsets
    unsigned a, b;
    if (n > 10) {
        unsigned at[] = {0, 1, n / 2, n - 1, n};
        a = at[choose(5, "from")], b = at[choose(5, "to")];
    } else a = choose(n + 1, "from"), b = choose(n + 1, "to");
    auto from = at(a);
    if (b >= a) {
        symx_assert(from + (long)(b - a) == at(b), "iterator + offset");
        symx_assert((long)(b - a) + from == at(b), "offset + iterator");
        auto x = from;
        x += (long)(b - a);
        symx_assert(x == at(b), "+= offset");
    } else {
        symx_assert(from - (long)(a - b) == at(b), "iterator - offset");
        if constexpr (requires(It i, long d) { d - i; })
            symx_assert((long)(a - b) - from == at(b), "offset - iterator goes back as well");
        auto x = from;
        x -= (long)(a - b);
        symx_assert(x == at(b), "-= offset");
    }
    symx_assert(from == at(a), "arithmetic leaves its operand alone");
    symx_assert((at(a) == at(b)) == (a == b) && (at(a) != at(b)) == (a != b), "equality compares positions");
}
ENTRY bidir_u8() { bidir<char8_t>(); }
ENTRY bidir_u16() { bidir<char16_t>(); }
ENTRY bidir_u32() { bidir<char32_t>(); }
ENTRY bidir_w() { bidir<wchar_t>(); }
ENTRY bidir_narrow() { bidir<char>(); }

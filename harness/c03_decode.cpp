//PROPERTY C03
//JOB decode_u8 len=0..7
//JOB decode_u8 len=8..10 time=3000 tier=thorough
//JOB decode_u16 len=0..7
//JOB decode_u16 len=8..11 time=3000 tier=thorough
//JOB decode_u8 len={1,3} pad={12,90}
//JOB decode_u16 len={1,2} pad={12,90}
//JOB decode_u32 len=1 pad={12,90}
//JOB decode_w len=1 pad={12,90}
//JOB decode_narrow len=1 pad={12,140}
//JOB decode_u32 len=0..3
//JOB decode_w len=0..3
//JOB decode_narrow len=0..3
//COVERS ok illformed truncated end two three four pair
//BOUNDS every UTF-8 string of up to 7 bytes and UTF-16 string of up to 7 units (10 and 11 in the thorough tier), UTF-32, wide and narrow strings of up to 3 units, and up to 3 such units in the middle of fixed texts of up to 500 units; all units symbolic, well-formed or not
//OUTSIDE longer texts; incrementing an iterator that is already at the end
#define NO_IO
#include "lib.h"
#include "ref.h"

template <typename C>
static void decode_check() {
    unsigned len, from, to;
    auto units = ref::padded_units<C>((unsigned)symx_param("len", 3), (unsigned)symx_param("pad", 0), from, to);
    len = (unsigned)units.size();
    ref::Text<C> t(len);
    for (unsigned i = 0; i < len; i++) t.p[i] = units[i];
    auto v = t.view();
    cmp::by_code_point range{v};
    using It = typename cmp::by_code_point<C>::const_iterator;
    auto at = [&](unsigned pos) { return It{v.begin() + pos, v.end()}; };
    auto it = range.begin();
    unsigned pos = 0;
    while (pos < len) {
        symx_assert(it == at(pos) && !(it != at(pos)), "the iterator is at the next code point");
        symx_assert(it != range.end() && !(it == range.end()), "the end is not reached early");
        auto d = ref::dec<C>(t.p + pos, len - pos);
        int thrown = 0; // 1 invalid encoding, 2 past the end
        char32_t got = 0;
        try {
            got = (char32_t)*it;
        } catch (const cmp::invalid_unicode_encoding &) { thrown = 1; } catch (const cmp::iterated_past_end &) { thrown = 2; }
        int moved = 0;
        auto it2 = it;
        bool post = pos >= from && pos < to ? choose(2, "post") : pos % 2;
        try {
            if (post) {
                auto old = it2++;
                symx_assert(old == it, "postfix increment returns the old position");
            } else {
                auto &r = ++it2;
                symx_assert(&r == &it2, "prefix increment returns the iterator");
            }
        } catch (const cmp::invalid_unicode_encoding &) { moved = 1; } catch (const cmp::iterated_past_end &) { moved = 2; }
        if (d.status == 0) {
            symx_cover("ok");
            if (d.len == 2) symx_cover(sizeof(C) == 1 ? "two" : "pair");
            if (d.len == 3) symx_cover("three");
            if (d.len == 4) symx_cover("four");
            symx_assert(thrown == 0 && moved == 0, "a well-formed sequence is accepted");
            symx_assert(got == d.c, "the decoded code point is the encoded one");
            pos += symx_concrete(d.len);
            symx_assert(it2 == at(pos), "increment moves past exactly one sequence");
            it = it2;
        } else {
            if (d.status == 1) { symx_cover("illformed"); symx_assert(thrown == 1 && moved == 1, "an ill-formed sequence is reported as invalid encoding"); }
            else if (d.status == 2) { symx_cover("truncated"); symx_assert(thrown == 2 && moved == 2, "a truncated sequence is reported as iteration past the end"); }
            else symx_assert(thrown != 0 && moved != 0, "a truncated ill-formed sequence is reported");
            return;
        }
    }
    symx_cover("end");
    symx_assert(it == range.end(), "iteration ends at the end");
    symx_assert(range.begin() == range.cbegin() && range.end() == range.cend(), "const and plain ranges agree");
    bool past = false;
    try {
        (void)*it;
    } catch (const cmp::iterated_past_end &) { past = true; }
    symx_assert(past, "dereferencing the end is reported");
}
ENTRY decode_u8() { decode_check<char8_t>(); }
ENTRY decode_u16() { decode_check<char16_t>(); }
ENTRY decode_u32() { decode_check<char32_t>(); }
ENTRY decode_w() { decode_check<wchar_t>(); }
ENTRY decode_narrow() { decode_check<char>(); }

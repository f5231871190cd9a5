//PROPERTY C11
//JOB fmt_bool t=0..2 f=0..2
//JOB parse_any t=0..2 f=0..2 n=0..2
//JOB parse_wide t=0..2 f=0..2 n=0..2
//JOB fmt_bool t={3,40} f=3 free=1
//JOB parse_any t={3,40} f=3 n={3,40} free=1
//JOB parse_wide t={3,40} f=40 n=40 free=1
//JOB default_format
//COVERS is_true is_false neither empty
//BOUNDS every true and false text of up to 2 code points (ASCII and beyond) and every input text of up to 2 code points, and texts of 3 and 40 code points that differ in up to three places, in UTF-8, UTF-16 and UTF-32; output in all string types
//OUTSIDE longer texts; ill-formed text
#define NO_IO
#include "lib.h"
#include "ref.h"

ENTRY fmt_bool() {
    auto t = ref::symbolic_cps(symx_param("t", 1), false, "true");
    auto f = ref::symbolic_cps(symx_param("f", 1), false, "false");
    cmp::bool_format fmt{ref::encode<char8_t>(t), ref::encode<char8_t>(f)};
    bool v = choose(2, "value");
    auto &w = v ? t : f;
    symx_assert(ref::same(cmp::format_bool<std::u8string>(v, fmt), ref::encode<char8_t>(w)), "UTF-8 text of a bool");
    symx_assert(ref::same(cmp::format_bool<std::u16string>(v, fmt), ref::encode<char16_t>(w)), "UTF-16 text of a bool");
    symx_assert(ref::same(cmp::format_bool<std::u32string>(v, fmt), ref::encode<char32_t>(w)), "UTF-32 text of a bool");
    bool same = t.n == f.n;
    for (unsigned i = 0; i < t.n && i < f.n; i++) same = same & (t.c[i] == f.c[i]);
    if (!same && w.n) symx_assert(cmp::parse_bool(cmp::format_bool<std::u16string>(v, fmt), fmt) == v, "a formatted bool parses back");
}
template <typename C>
static void parse() {
    auto t = ref::symbolic_cps(symx_param("t", 1), false, "true");
    auto f = ref::symbolic_cps(symx_param("f", 1), false, "false");
    auto in = ref::symbolic_cps(symx_param("n", 1), false, "input");
    cmp::bool_format fmt;
    fmt.set_true_string(ref::encode<char8_t>(t));
    fmt.set_false_string(ref::encode<char8_t>(f));
    auto text = ref::encode<C>(in);
    bool got = false, failed = false;
    auto type = cmp::parse_failed::type::wrong_place_limit;
    try {
        got = cmp::parse_bool(text, fmt);
    } catch (const cmp::parse_failed &e) { failed = true; type = e.get_type(); }
    auto eq = [&](const ref::Cps &x) {
        if (x.n != in.n) return false;
        bool r = true;
        for (unsigned i = 0; i < in.n; i++) r = r & (x.c[i] == in.c[i]);
        return r;
    };
    bool ist = eq(t), isf = eq(f);
    if (in.n == 0) { symx_cover("empty"); symx_assert(failed && type == cmp::parse_failed::type::empty_input, "empty input is reported"); return; }
    if (ist) { symx_cover("is_true"); symx_assert(!failed && got, "the true text parses as true"); }
    else if (isf) { symx_cover("is_false"); symx_assert(!failed && !got, "the false text parses as false"); }
    else { symx_cover("neither"); symx_assert(failed && type == cmp::parse_failed::type::neither_boolean, "any other text is rejected"); }
}
ENTRY parse_any() { parse<char8_t>(); }
ENTRY parse_wide() { if (choose(2, "enc")) parse<char16_t>(); else parse<char32_t>(); }
ENTRY default_format() {
    cmp::bool_format f;
    char32_t c = sym<char32_t>("c");
    symx_assume(ref::valid(c));
    std::u32string s(1, c);
    bool got = false, failed = false;
    try { got = cmp::parse_bool(s, f); } catch (const cmp::parse_failed &) { failed = true; }
    symx_assert(failed == (c != '0' && c != '1'), "the default texts are 0 and 1");
    if (!failed) symx_assert(got == (c == '1'), "1 is true");
}

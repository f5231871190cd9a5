//PROPERTY C28
//JOB int_format
//JOB float_format
//JOB bool_fmt
//COVERS accepted rejected
//BOUNDS every 32-bit radix and place count, every sign mode, separator, radix character and place limit, through constructor and setters
#define NO_IO
#include "lib.h"
#include "ref.h"
using namespace cmp;

template <typename F>
static void set_radix_check(F &f) {
    unsigned old = f.get_radix(), r = sym<unsigned>("radix2");
    bool threw = false;
    try { f.set_radix(r); } catch (const invalid_radix &) { threw = true; }
    bool ok = r >= 2 && r <= 36;
    symx_assert(threw == !ok, "set_radix rejects exactly the radices outside 2..36");
    symx_assert(f.get_radix() == (ok ? r : old), "the radix is the last accepted one");
}
ENTRY int_format() {
    unsigned r = sym<unsigned>("radix");
    unsigned a = choose(2, "sign"), b = choose(3, "sep");
    bool threw = false, ok = r >= 2 && r <= 36;
    try {
        integer_format f{r, (sign_status)a, (thousands_separator)b};
        symx_cover("accepted");
        symx_assert(ok, "the constructor rejects radices outside 2..36");
        symx_assert(f.get_radix() == r && f.get_sign_status() == (sign_status)a && f.get_thousands_separator() == (thousands_separator)b, "the format holds what it was given");
        unsigned a2 = choose(2, "sign2"), b2 = choose(3, "sep2");
        f.set_sign_status((sign_status)a2);
        symx_assert(f.get_sign_status() == (sign_status)a2 && f.get_thousands_separator() == (thousands_separator)b && f.get_radix() == r, "setting the sign mode changes only that");
        f.set_thousands_separator((thousands_separator)b2);
        symx_assert(f.get_sign_status() == (sign_status)a2 && f.get_thousands_separator() == (thousands_separator)b2 && f.get_radix() == r, "setting the separator changes only that");
        set_radix_check(f);
        symx_assert(f.get_sign_status() == (sign_status)a2 && f.get_thousands_separator() == (thousands_separator)b2, "setting the radix changes only that");
    } catch (const invalid_radix &) { threw = true; symx_cover("rejected"); }
    symx_assert(threw == !ok, "the constructor rejects exactly the radices outside 2..36");
    integer_format d;
    symx_assert(d.get_radix() == 10 && d.get_sign_status() == sign_status::only_when_negative && d.get_thousands_separator() == thousands_separator::none, "the documented defaults");
}
ENTRY float_format() {
    unsigned r = sym<unsigned>("radix"), n = sym<unsigned>("places");
    unsigned a = choose(2, "sign"), b = choose(3, "sep"), c = choose(2, "point"), l = choose(3, "limit");
    bool threw = false, ok = r >= 2 && r <= 36;
    try {
        floating_point_format f{r, (sign_status)a, (thousands_separator)b, (radix_character)c, (radix_place_limit)l, n};
        symx_assert(f.get_radix() == r && f.get_sign_status() == (sign_status)a && f.get_thousands_separator() == (thousands_separator)b && f.get_radix_character() == (radix_character)c &&
                    f.get_radix_place_limit() == (radix_place_limit)l && f.get_radix_place_count() == n, "the format holds what it was given");
        floating_point_format g;
        g.set_sign_status((sign_status)a);
        g.set_thousands_separator((thousands_separator)b);
        g.set_radix_character((radix_character)c);
        g.set_radix_place_limit((radix_place_limit)l);
        g.set_radix_place_count(n);
        symx_assert(g.get_radix() == 10 && g.get_sign_status() == (sign_status)a && g.get_thousands_separator() == (thousands_separator)b && g.get_radix_character() == (radix_character)c &&
                    g.get_radix_place_limit() == (radix_place_limit)l && g.get_radix_place_count() == n, "the setters set what they name");
        set_radix_check(f);
        symx_assert(f.get_sign_status() == (sign_status)a && f.get_thousands_separator() == (thousands_separator)b && f.get_radix_character() == (radix_character)c &&
                    f.get_radix_place_limit() == (radix_place_limit)l && f.get_radix_place_count() == n, "setting the radix changes only that");
        // one setter at a time, on a format that holds arbitrary values
        unsigned a2 = choose(2, "sign2"), b2 = choose(3, "sep2"), c2 = choose(2, "point2"), l2 = choose(3, "limit2"), n2 = sym<unsigned>("places2");
        floating_point_format h{f};
        unsigned which = choose(5, "setter");
        if (which == 0) h.set_sign_status((sign_status)a2);
        else if (which == 1) h.set_thousands_separator((thousands_separator)b2);
        else if (which == 2) h.set_radix_character((radix_character)c2);
        else if (which == 3) h.set_radix_place_limit((radix_place_limit)l2);
        else h.set_radix_place_count(n2);
        symx_assert(h.get_radix() == f.get_radix() && h.get_sign_status() == (sign_status)(which == 0 ? a2 : a) && h.get_thousands_separator() == (thousands_separator)(which == 1 ? b2 : b) &&
                    h.get_radix_character() == (radix_character)(which == 2 ? c2 : c) && h.get_radix_place_limit() == (radix_place_limit)(which == 3 ? l2 : l) &&
                    h.get_radix_place_count() == (which == 4 ? n2 : n), "each setter changes what it names and nothing else");
    } catch (const invalid_radix &) { threw = true; }
    symx_assert(threw == !ok, "the constructor rejects exactly the radices outside 2..36");
    floating_point_format d;
    symx_assert(d.get_radix() == 10 && d.get_sign_status() == sign_status::only_when_negative && d.get_thousands_separator() == thousands_separator::none &&
                d.get_radix_character() == radix_character::period && d.get_radix_place_limit() == radix_place_limit::none && d.get_radix_place_count() == 0, "the documented defaults");
}
ENTRY bool_fmt() {
    std::u8string t, f;
    for (int i = 0; i < 2; i++) { t.push_back(sym<char8_t>("t")); f.push_back(sym<char8_t>("f")); }
    bool_format x{t, f};
    symx_assert(ref::same(x.get_true_string(), t) && ref::same(x.get_false_string(), f), "the format holds its texts");
    bool_format y;
    symx_assert(y.get_true_string() == u8"1" && y.get_false_string() == u8"0", "the documented defaults");
    y.set_true_string(t);
    symx_assert(ref::same(y.get_true_string(), t) && y.get_false_string() == u8"0", "set_true_string sets only the true text");
    y.set_false_string(f);
    symx_assert(ref::same(y.get_true_string(), t) && ref::same(y.get_false_string(), f), "set_false_string sets only the false text");
}

//PROPERTY C12
//JOB ffmt radix={2,6,8,10,16,36} m=0..4 bits=10 sep=0
//JOB ffmt radix=10 m=6 bits=12 sep=0
//JOB ffmt radix={10,16} m=4 bits=14 sep=1..2
//JOB ffmt_float radix=10 m=2..3 bits=10 sep=0
//JOB ffmt radix={2,16} m=28 bits=30 sep=0
//JOB ffmt radix={2,36} m=60 bits=4 sep=0
//JOB ffmt radix=10 m=60 bits=2 sep=0
//JOB ffmt radix=10 m=60 bits=5 sep=0 time=3000 tier=thorough
//JOB ffmt radix={10,16} m=6 bits=8 sep=0..2 pl=9
//JOB ffmt radix={10,16} m=4 bits=6 sep=0..2 many={60,300}
//JOB special
//JOB odd_radix
//JOB ffmt radix={2,8,10,16,36} m=0..8 bits=16 sep=0 time=800 tier=thorough
//JOB ffmt radix={10,16} m=5..6 bits=20 sep=1..2 time=800 tier=thorough
//JOB ffmt_float radix={10,16} m=0..8 bits=14 sep=0 time=800 tier=thorough
//COVERS negative fraction whole limited padded rejected sub_one
//BOUNDS every double k/2^m with |k| < 2^10 and m up to 4 (|k| < 2^12 and m = 6 in radix 10, |k| < 2^14 with separators), both sign modes, every place limit with up to 3 (9 for |k| < 2^8, m = 6; 60 and 300 for |k| < 2^6, m = 4) places; |k| < 2^30 and m = 28 in radix 2 and 16; |k| < 2^4 (2^2 in radix 10) and m = 60 in radix 2, 10 and 36, both radix characters, radices 2, 6, 8, 10, 16, 36; NaN, infinities and every double of magnitude 2^63 or more; quarters in radix 3, 5 and 35 start with the right digits
//OUTSIDE other finite doubles; long double; grouping of the zeros that pad a fraction
#define NO_IO
#include "lib.h"
#include "ref.h"
using namespace cmp;

template <typename F>
static void ffmt_check(unsigned m, unsigned bits, unsigned radix, unsigned sep) {
    unsigned k = sym<unsigned>("k") & ((1u << bits) - 1);
    unsigned neg = choose(2, "neg"), sign = choose(2, "sign"), limit = choose(3, "limit"), point = choose(2, "point");
    if (sep && (sep == 1) == (point == 0)) return; // separator and radix character alike: ambiguous text
    unsigned many = symx_param("many", 0), places = !limit ? 0 : many ? many : choose((unsigned)symx_param("pl", 3) + 1, "places");
    if (neg) symx_assume(k != 0);
    F v = (F)k / (F)(1ul << m);
    if (neg) v = -v;
    floating_point_format f{radix, sign ? sign_status::always_show : sign_status::only_when_negative,
                            sep == 0 ? thousands_separator::none : sep == 1 ? thousands_separator::comma : thousands_separator::period,
                            point == 0 ? radix_character::comma : radix_character::period,
                            limit == 0 ? radix_place_limit::none : limit == 1 ? radix_place_limit::exactly_equal : radix_place_limit::up_to, places};
    std::u32string t = format_floating_point<std::u32string>(v, f);
    // reference: integer arithmetic on k
    unsigned ip = m < 32 ? k >> m : 0;
    unsigned __int128 fp = k & ((1ul << m) - 1);
    char32_t want[480];
    unsigned n = 0;
    if (neg) { want[n++] = '-'; symx_cover("negative"); }
    else if (sign && k != 0) want[n++] = '+';
    if (ip == 0 && k != 0) symx_cover("sub_one");
    auto digit = [](unsigned d) { return (char32_t)(d < 10 ? '0' + d : 'A' + d - 10); };
    // digits of the integral part, most significant first
    unsigned pw = 1, nd = 1;
    while (ip / radix >= pw) { pw *= radix; nd++; }
    for (; nd > 0; nd--) {
        want[n++] = digit(ip / pw % radix);
        pw /= radix;
        if (sep && nd > 1 && (nd - 1) % 3 == 0) want[n++] = sep == 1 ? ',' : '.';
    }
    char32_t fr[400];
    unsigned q = 0;
    while (fp != 0 && (limit == 0 || q < places)) {
        fp *= radix;
        fr[q++] = digit((unsigned)(fp >> m));
        fp &= (1ul << m) - 1;
        if (limit && fp != 0 && q == places) symx_cover("limited");
    }
    unsigned expanded = q;
    if (limit == 1) while (q < places) { fr[q++] = '0'; symx_cover("padded"); }
    if (q) { want[n++] = point == 0 ? ',' : '.'; symx_cover("fraction"); } else symx_cover("whole");
    unsigned head = n;
    for (unsigned i = 0; i < q; i++) want[n++] = fr[i];
    if (sep == 0) {
        symx_assert(t.size() == n, "the text has exactly the expected characters");
        if (t.size() != n) return;
        bool ok = true;
        for (unsigned i = 0; i < n; i++) ok = ok & (t[i] == want[i]);
        symx_assert(ok, "sign, integral digits, radix character and fractional digits denote the value");
    } else { // separators may group the fraction, never end it
        bool ok = t.size() >= n;
        symx_assert(ok, "no digit is missing");
        if (!ok) return;
        for (unsigned i = 0; i < head; i++) ok = ok & (t[i] == want[i]);
        unsigned j = head;
        bool grouped = true, before = false;
        for (size_t i = head; i < t.size(); i++) {
            if (t[i] == (sep == 1 ? U',' : U'.')) { before = true; continue; }
            ok = ok & (j < n && t[i] == want[j]);
            unsigned at = j - head; // the padding is not grouped
            if (at < expanded) grouped = grouped & (before == (at > 0 && at % 3 == 0));
            before = false;
            j++;
        }
        symx_assert(ok && j == n, "apart from separators the text denotes the value");
        symx_assert(grouped, "the digits of the fraction are grouped in threes");
        char32_t last = t[t.size() - 1];
        symx_assert(last != ',' && last != '.', "the text ends with a digit");
    }
}
ENTRY ffmt() { ffmt_check<double>(symx_param("m", 2), symx_param("bits", 8), symx_param("radix", 10), symx_param("sep", 0)); }
ENTRY ffmt_float() { ffmt_check<float>(symx_param("m", 2), symx_param("bits", 8), symx_param("radix", 10), symx_param("sep", 0)); }
ENTRY special() {
    unsigned long long raw = sym<unsigned long long>("raw");
    unsigned e = (raw >> 52) & 0x7FF;
    symx_assume(e >= 1023 + 63); // magnitude 2^63 and above, infinities, NaN
    double v;
    __builtin_memcpy(&v, &raw, 8);
    bool threw = false;
    try {
        (void)format_floating_point<std::u32string>(v, floating_point_format{});
    } catch (const std::out_of_range &) { threw = true; }
    symx_assert(threw, "a value that cannot be formatted is rejected");
    symx_cover("rejected");
}
ENTRY odd_radix() { // the expansion does not end: a prefix of it is written
    unsigned radix = choose(3, "radix") == 0 ? 3 : choose(2, "radix") ? 5 : 35;
    floating_point_format f;
    f.set_radix(radix);
    unsigned k = choose(4, "k");
    double v = 1 + k / 4.0;
    auto t = format_floating_point<std::u32string>(v, f);
    symx_assert(t.size() >= 1 && t[0] == '1', "the integral part is kept");
    if (k == 0) { symx_assert(t.size() == 1, "no fraction"); return; }
    symx_assert(t.size() >= 12 && t[1] == '.', "a fraction that does not end is written to the precision of the type");
    bool ok = true;
    unsigned r = k;
    for (size_t i = 2; i < t.size() && i < 20; i++) {
        r *= radix;
        unsigned d = r / 4;
        r %= 4;
        ok = ok & (t[i] == (char32_t)(d < 10 ? '0' + d : 'A' + d - 10));
    }
    symx_assert(ok, "the digits are those of the value");
}

//PROPERTY C20
//JOB points form=0..2 order=0..1 cap={0,3}
//JOB refused form=0..1 order=0..1 cap={0,3}
//JOB strings form=0..2 order=0..1 kind=0..4 len=0..2 cap={0,3}
//JOB strings form=0..2 order=0..1 kind=1..4 len=3 cap=4 tier=thorough
//JOB pointers form=0..2 order=0..1 kind=0..4 len=2 cap=0
//JOB strings form=0..2 order=0..1 kind=0..4 len={40,300} free=1 cap={0,64}
//JOB strings form=0..2 order=0..1 kind=1..4 len=1030 free=2 cap={0,256,1024} time=600 tier=thorough
//JOB bom form=0..2 order=0..1 cap={0,2}
//JOB truth form=0..2 order=0..1 cap={0,2}
//JOB integers form=0..2 order=0..1 width=0..3 cap={0,3}
//JOB floats form=0..2 order=0..1 cap=3
//JOB floats form=0..2 order=0..1 cap=0 tier=thorough
//JOB mixed form=0..2 cap={0,2,5}
//JOB io_stream form=0..2 order=0..1 cap={0,3}
//COVERS one two three four refused negative fraction
//BOUNDS every code point; every text of up to 2 code points (thorough: 3), and long texts of 40 and 300 code points of all lengths with one arbitrary code point at the start, in the middle or at the end (thorough: 1030 with two), in narrow (ASCII), UTF-8, UTF-16, UTF-32 and wide strings, as views, strings and NUL-terminated pointers; every 8- and 16-bit integer and windows of 64-bit ones at both ends; multiples of 1/4 below 256; all three encoding forms, both byte orders, buffer capacities 0 to 5 and 64
//OUTSIDE other long texts; ill-formed strings; narrow characters outside ASCII
#include "textmodel.h"
static encoding_form F() { return form_of(symx_param("form", 0)); }
static std::endian E() { return order_of(symx_param("order", 0)); }
static const char SIZE[] = "what was written arrives completely and once", BYTES[] = "what was written arrives in the encoding form and byte order of the stream";

// Runs the writer on a stream and compares what is in the resource after the
// stream is flushed or gone.
template <typename W>
static void check(const Bytes &want, W &&write) {
    Bytes got;
    bool early = choose(2, "flush");
    {
        Out r{got, symx_param("cap", 0)};
        text_output_stream<Out> s{r, F(), E()};
        write(s);
        if (early) { s.flush(); compare(got, want, SIZE, BYTES); }
    }
    compare(got, want, SIZE, BYTES);
}
ENTRY points() {
    char32_t a = sym<char32_t>("cp"), b = sym<char32_t>("cp");
    symx_assume(ref::valid(a) && b < 0x80);
    static const char *const name[] = {"", "one", "two", "three", "four"};
    Bytes want;
    put_point(want, a, F(), E());
    if (F() == utf8) symx_cover(name[want.size()]);
    put_point(want, b, F(), E());
    check(want, [&](auto &s) { auto &q = s << a << (char)b; symx_assert(&q == &s, "the stream is returned"); });
}
ENTRY refused() {
    char32_t a = sym<char32_t>("cp");
    symx_assume(!ref::valid(a));
    check(Bytes{}, [&](auto &s) {
        bool threw = false;
        try { s << a; } catch (const invalid_code_point &) { threw = true; }
        symx_assert(threw, "a value that is not a code point is refused");
        symx_cover("refused");
    });
}
template <typename C, typename S>
static void write_text(S &s, const ref::Cps &t, unsigned how) {
    std::basic_string<C> str = ref::encode<C>(t);
    ref::Text<C> exact((unsigned)str.size());
    for (unsigned i = 0; i < exact.n; i++) exact.p[i] = str[i];
    if (how == 0) s << exact.view();
    else if (how == 1) s << str.c_str();
    bool same = true;
    for (unsigned i = 0; i < exact.n; i++) same = same & (exact.p[i] == str[i]);
    symx_assert(same, "writing leaves the text alone");
}
template <typename S>
static void write_kind(S &s, const ref::Cps &t, unsigned how) {
    switch (symx_param("kind", 1)) {
    case 0: write_text<char>(s, t, how); break;
    case 1: write_text<char8_t>(s, t, how); break;
    case 2: write_text<char16_t>(s, t, how); break;
    case 3: write_text<char32_t>(s, t, how); break;
    default: write_text<wchar_t>(s, t, how); break;
    }
}
ENTRY strings() {
    ref::Cps t = ref::symbolic_cps(symx_param("len", 2), symx_param("kind", 1) == 0);
    Bytes want;
    put_text(want, t, F(), E());
    check(want, [&](auto &s) { write_kind(s, t, 0); });
}
ENTRY pointers() {
    ref::Cps t = ref::symbolic_cps(symx_param("len", 2), symx_param("kind", 1) == 0);
    for (unsigned i = 0; i < t.n; i++) symx_assume(t.c[i] != 0);
    Bytes want;
    put_text(want, t, F(), E());
    check(want, [&](auto &s) { write_kind(s, t, 1); });
}
ENTRY bom() {
    Bytes want;
    put_point(want, 0xFEFF, F(), E());
    put_ascii(want, "x", F(), E());
    check(want, [&](auto &s) { s.write_bom(); s << 'x'; });
}
ENTRY truth() {
    bool v = sym<bool>("value");
    Bytes want;
    put_ascii(want, v ? "1" : "0", F(), E());
    check(want, [&](auto &s) { s << v; });
}
static char *decimal(char *end, unsigned long long mag, bool neg) {
    *--end = 0;
    do { *--end = (char)('0' + mag % 10); mag /= 10; } while (mag);
    if (neg) *--end = '-';
    return end;
}
template <typename T>
static void integer(T v) {
    bool neg = v < 0;
    if (neg) symx_cover("negative");
    unsigned long long mag = neg ? 0ULL - (unsigned long long)(long long)v : (unsigned long long)v;
    // one path per text length, digits stay symbolic
    unsigned digits = 1;
    for (unsigned long long p = 10; digits < 20 && mag >= p; p *= 10) digits++;
    char text[24];
    unsigned n = digits + neg;
    text[n] = 0;
    unsigned long long m = mag;
    for (unsigned i = n; i-- > (unsigned)neg;) { text[i] = (char)('0' + m % 10); m /= 10; }
    if (neg) text[0] = '-';
    Bytes want;
    for (unsigned i = 0; i < n; i++) put_unit(want, (unsigned char)text[i], F() == utf8 ? 1 : F() == utf16 ? 2 : 4, E());
    check(want, [&](auto &s) { s << v; });
}
ENTRY integers() {
    switch (symx_param("width", 0)) {
    case 0: integer(sym<signed char>("value")); break;
    case 1: integer((int)sym<short>("value")); break;
    case 2: integer((long long)((unsigned long long)std::numeric_limits<long long>::min() + choose(8, "offset"))); break;
    default: integer(~0ULL - choose(8, "offset")); break;
    }
}
ENTRY floats() {
    int k = (int)sym<signed char>("quarters");
    bool neg = k < 0;
    unsigned mag = (unsigned)(neg ? -k : k);
    if (mag % 4) symx_cover("fraction");
    Bytes want;
    unsigned sz = F() == utf8 ? 1 : F() == utf16 ? 2 : 4;
    if (neg) put_unit(want, '-', sz, E());
    unsigned whole = mag / 4;
    if (whole >= 10) put_unit(want, '0' + whole / 10, sz, E());
    put_unit(want, '0' + whole % 10, sz, E());
    switch (mag % 4) {
    case 1: put_ascii(want, ".25", F(), E()); break;
    case 2: put_ascii(want, ".5", F(), E()); break;
    case 3: put_ascii(want, ".75", F(), E()); break;
    }
    double d = k / 4.0;
    check(want, [&](auto &s) { s << d; });
}
ENTRY mixed() { // form and order may change between writes
    Bytes got, want;
    {
        Out r{got, symx_param("cap", 0)};
        text_output_stream<Out> s{r, F()};
        symx_assert(s.get_endianness() == std::endian::big && s.get_encoding_form() == F(), "text streams are big endian unless told otherwise");
        put_ascii(want, "ab", F(), std::endian::big);
        s << U"a" << u8"b";
        encoding_form f2 = form_of(choose(3, "form"));
        std::endian e2 = order_of(choose(2, "order"));
        s.set_encoding_form(f2);
        s.set_endianness(e2);
        symx_assert(s.get_encoding_form() == f2 && s.get_endianness() == e2, "form and order are the ones that were set");
        char32_t c = sym<char32_t>("cp");
        symx_assume(ref::valid(c));
        put_point(want, c, f2, e2);
        put_ascii(want, "12", f2, e2);
        s << c << 12;
        if (choose(2, "flush")) static_cast<output_stream<Out> &>(s) << flush;
        put_ascii(want, "z", f2, e2);
        s << "z";
    }
    compare(got, want, SIZE, BYTES);
}
ENTRY io_stream() { // what goes out of an I/O stream comes back in
    char32_t a = sym<char32_t>("cp"), b = 0;
    symx_assume(ref::valid(a) && a != '\r');
    Bytes got, want;
    IO r{got, symx_param("cap", 0)};
    text_io_stream<IO> s{r, F(), E()};
    symx_assert(s.operator->() == &r, "the stream refers to its resource");
    put_point(want, a, F(), E());
    put_ascii(want, "-7", F(), E());
    text_output_stream<IO> &o = s;
    text_input_stream<IO> &i = s;
    o << a << -7;
    s->set_position(0, position_reference::begin);
    compare(got, want, SIZE, BYTES);
    i >> b;
    symx_assert(a == b, "the code point comes back");
    int n = 0;
    i >> n;
    symx_assert(n == -7, "the number comes back");
}

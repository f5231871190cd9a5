//PROPERTY C22
//JOB lines form=2 order=0 len=0..4 target=2 cap=0
//JOB lines form=0 order=0 len=1..3 target=0 cap=3
//JOB lines form=1 order=1 len=1..3 target=1 cap={0,3}
//JOB lines form=2 order=1 len=2..3 target=3 cap=5
//JOB whole form=2 order=0 len=0..4 target=2 cap=0
//JOB whole form=0 order=0 len=1..3 target=0 cap=3
//JOB whole form=1 order=1 len=1..3 target=1 cap=3
//JOB tokens form=2 order=0 len=0..4 target=2 cap=0
//JOB tokens form=0 order=0 len=1..2 target=0 cap=3
//JOB tokens form=1 order=1 len=1..3 target=1 cap=3
//JOB lines form=2 order=0 len=5 target=2 cap=0
//JOB tokens form=2 order=0 len=5 target=2 cap=0 time=900 tier=thorough
//JOB whole form=2 order=0 len=5 target=2 cap=0
//JOB lines form=0 order=0 len={40,300} free=2 runs=1 target=0 cap={0,64}
//JOB lines form=1 order=1 len={40,300} free=2 runs=1 target=2 cap={7,64}
//JOB whole form=0 order=0 len=300 free=2 runs=1 target=1 cap={0,64}
//JOB whole form=1 order=0 len=300 free=2 runs=1 target=0 cap=64
//JOB tokens form=0 order=0 len={40,300} free=2 runs=1 target=0 cap={0,64}
//JOB tokens form=2 order=1 len={40,300} free=2 runs=1 target=3 cap={7,64}
//JOB points form=0..2 order=0..1 len=3 cap={0,3}
//JOB numbers form=0..2 order=0 cap={0,3}
//JOB truth form=0..2 order=1 cap=0
//JOB bad_value form=0..2 order=0 cap=0
//JOB mark form=0 n=0..4 order=0 cap={0,3}
//JOB mark form=1 n=0..6 order=0..1 cap={0,3}
//JOB mark form=2 n=0..5 order=0..1 cap={0,3}
//JOB mark_then form=0..2 order=0..1 cap={0,3}
//COVERS lf crlf lonecr endcr line token rest marked unmarked refused
//BOUNDS every text of up to 5 (tokens: 4, thorough: 5) arbitrary code points in UTF-32 and 3 in UTF-8 and UTF-16, long texts of 40 and 300 code points of all lengths, with or without a run of whitespace in the first or last third, of which two arbitrary ones at the start, in the middle or at the end, targets in four string types, buffer capacities 0, 3, 5, 7 and 64; numbers of two symbolic digits with symbolic sign and whitespace; byte order marks in every sequence of up to 4 (UTF-8), 6 (UTF-16) and 5 (UTF-32) bytes
//OUTSIDE other long texts; a mark that ends inside a code point
#include "textmodel.h"

static encoding_form F() { return form_of(symx_param("form", 0)); }
static std::endian E() { return order_of(symx_param("order", 0)); }
struct List {
    char32_t c[1100];
    unsigned n = 0;
};
// CR LF counts as LF.  The second reading is the listed finding: a CR that is
// followed by anything is dropped.
static bool filter(const ref::Cps &t, List &right, List &listed) {
    bool lone = false;
    for (unsigned i = 0; i < t.n; i++) {
        if (i + 1 < t.n && symx_concrete((t.c[i] == '\r') & (t.c[i + 1] == '\n'))) { symx_cover("crlf"); continue; }
        right.c[right.n++] = t.c[i];
    }
    for (unsigned i = 0; i < t.n; i++) {
        if (symx_concrete(t.c[i] == '\r')) {
            if (i + 1 == t.n) symx_cover("endcr");
            else {
                i++;
                if (symx_concrete(t.c[i] != '\n')) { lone = true; symx_cover("lonecr"); }
            }
        }
        listed.c[listed.n++] = t.c[i];
    }
    return lone;
}
// The pieces that were read, with separators between them.
struct Pieces {
    char32_t c[1200];
    unsigned n = 0;
    static constexpr char32_t cut = 0xFFFFFFFF;
};
static bool equal(const Pieces &a, const Pieces &b) {
    if (a.n != b.n) return false;
    bool ok = true;
    for (unsigned i = 0; i < a.n; i++) ok = ok & (a.c[i] == b.c[i]);
    return ok;
}
template <typename C>
static void add(Pieces &p, const std::basic_string<C> &s) {
    for (unsigned i = 0; i < s.size();) {
        ref::Dec d = ref::dec<C>(s.data() + i, (unsigned)s.size() - i);
        symx_assert(d.status == 0, "what is delivered is well-formed");
        if (d.status) break;
        if (p.n < 1150) p.c[p.n++] = d.c;
        i += (unsigned)symx_concrete(d.len);
    }
    p.c[p.n++] = Pieces::cut;
}
static void judge(const Pieces &got, const Pieces &right, const Pieces &listed, bool lone, const char *msg) {
    if (!lone) { symx_assert(equal(got, right), msg); return; }
    bool ok = equal(got, right);
    symx_assert(ok || equal(got, listed), msg);
    symx_known(ok, "a carriage return that ends no line is delivered", "KF-lone-cr");
}
static Pieces lines_of(const List &l) {
    Pieces p;
    unsigned i = 0;
    while (i < l.n) {
        while (i < l.n && symx_concrete(l.c[i] != '\n')) p.c[p.n++] = l.c[i++];
        if (i < l.n) { symx_cover("lf"); i++; }
        p.c[p.n++] = Pieces::cut;
        symx_cover("line");
    }
    return p;
}
static bool space(char32_t c) {
    return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F ||
           c == 0x3000;
}
static Pieces tokens_of(const List &l) {
    Pieces p;
    unsigned i = 0;
    while (i < l.n) {
        while (i < l.n && symx_concrete(space(l.c[i]))) i++;
        while (i < l.n && !symx_concrete(space(l.c[i]))) p.c[p.n++] = l.c[i++];
        if (i < l.n) i++;
        p.c[p.n++] = Pieces::cut;
        symx_cover("token");
    }
    return p;
}
static Pieces all_of(const List &l) {
    Pieces p;
    for (unsigned i = 0; i < l.n; i++) p.c[p.n++] = l.c[i];
    p.c[p.n++] = Pieces::cut;
    symx_cover("rest");
    return p;
}
// Long texts: fixed blanks in the first or last third of what is not symbolic.
static void long_runs(ref::Cps &t) {
    if (!symx_param("runs", 0)) return;
    static const char32_t blanks[] = {U' ', U'\t', 0x3000, 0x2003, 0xA0, 0x85, 0x1680};
    unsigned where = choose(3, "blanks");
    for (unsigned i = 0; i < t.n; i++) {
        bool fixed = i < t.from || i >= t.from + t.free;
        if (fixed && ((where == 1 && i < t.n / 3) || (where == 2 && i > 2 * t.n / 3))) t.c[i] = blanks[i % 7];
    }
}
template <typename C>
static void pieces(int what) {
    ref::Cps t = ref::symbolic_cps(symx_param("len", 2), false);
    long_runs(t);
    Bytes b;
    put_text(b, t, F(), E());
    List right, listed;
    bool lone = filter(t, right, listed);
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, F(), E()};
    bool append = what < 2 && choose(2, "append");
    Pieces got;
    std::basic_string<C> target;
    unsigned count = 0;
    do {
        target.assign(1, (C)'o');
        if (what == 0) { if (s.is_at_end()) break; if (append) s.append_line(target); else s.read_line(target); }
        else if (what == 1) { if (append) s.append_all(target); else s.read_all(target); }
        else { if (s.is_at_end()) break; s >> target; }
        if (append) {
            symx_assert(target.size() > 0 && target[0] == (C)'o', "appending keeps what was there");
            if (target.empty()) return;
            target.erase(0, 1);
        }
        add(got, target);
        if (++count > 6) break;
    } while (what != 1);
    symx_assert(s.is_at_end(), "everything is consumed");
    if (what == 0) judge(got, lines_of(right), lines_of(listed), lone, "lines are the text between line terminators");
    else if (what == 1) judge(got, all_of(right), all_of(listed), lone, "all remaining text is delivered");
    else judge(got, tokens_of(right), tokens_of(listed), lone, "tokens are the text between whitespace");
}
static void with_target(int what) {
    switch (symx_param("target", 2)) {
    case 0: pieces<char8_t>(what); break;
    case 1: pieces<char16_t>(what); break;
    case 2: pieces<char32_t>(what); break;
    default: pieces<wchar_t>(what); break;
    }
}
ENTRY lines() { with_target(0); }
ENTRY whole() { with_target(1); }
ENTRY tokens() { with_target(2); }
ENTRY points() { // one code point at a time, ASCII
    ref::Cps t = ref::symbolic_cps(symx_param("len", 3), true);
    Bytes b;
    put_text(b, t, F(), E());
    List right, listed;
    bool lone = filter(t, right, listed);
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, F(), E()};
    Pieces got;
    while (!s.is_at_end()) {
        char32_t c = 0;
        s >> c;
        got.c[got.n++] = c;
    }
    got.c[got.n++] = Pieces::cut;
    judge(got, all_of(right), all_of(listed), lone, "code points come in order, CR LF as LF");
}
static char32_t blank(const char *name) {
    char32_t c = sym<char32_t>(name);
    symx_assume((c == ' ') | (c == '\t') | (c == '\n') | (c == 0x3000));
    return c;
}
ENTRY numbers() {
    Bytes b;
    unsigned lead = choose(3, "lead"), neg = choose(2, "negative"), d1 = sym_below(10, "digit"), d2 = sym_below(10, "digit"), e1 = sym_below(10, "digit"), tail = choose(2, "tail");
    for (unsigned i = 0; i < lead; i++) put_point(b, blank("blank"), F(), E());
    if (neg) put_ascii(b, "-", F(), E());
    unsigned size = F() == utf8 ? 1 : F() == utf16 ? 2 : 4;
    put_unit(b, '0' + d1, size, E());
    put_unit(b, '0' + d2, size, E());
    put_point(b, blank("blank"), F(), E());
    put_unit(b, '0' + e1, size, E());
    put_ascii(b, ".5", F(), E());
    if (tail) put_ascii(b, " x", F(), E());
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, F(), E()};
    int n = 0;
    double d = 0;
    s >> n >> d;
    symx_assert(n == (neg ? -1 : 1) * (int)(d1 * 10 + d2), "the integer is the first token");
    symx_assert(d == (double)e1 + 0.5, "the number is the second token");
    if (tail) {
        char32_t c = 0;
        s >> c;
        symx_assert(c == 'x', "the code point after the whitespace is next");
    }
    symx_assert(s.is_at_end(), "everything is consumed");
}
ENTRY truth() {
    Bytes b;
    bool v = choose(2, "value"), w = choose(2, "value");
    put_ascii(b, v ? " 1" : "0", F(), E());
    put_point(b, blank("blank"), F(), E());
    put_ascii(b, w ? "1" : "0", F(), E());
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, F(), E()};
    bool x = !v, y = !w;
    s >> x >> y;
    symx_assert(x == v && y == w, "truth values are read");
}
ENTRY bad_value() { // a token that is no value fails and leaves the target alone
    Bytes b;
    char32_t c = sym<char32_t>("cp");
    symx_assume(ref::valid(c) & (c != '\r') & (c != '\n') & !((c >= '0') & (c <= '9')));
    put_ascii(b, "4", F(), E());
    put_point(b, c, F(), E());
    put_ascii(b, "2", F(), E());
    bool sp = space(c);
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, F(), E()};
    int n = 7;
    bool threw = false;
    try { s >> n; } catch (const parse_failed &) { threw = true; }
    symx_assert(threw == !sp && n == (sp ? 4 : 7), "what is no number is refused and leaves the target alone");
    if (threw) symx_cover("refused");
}
ENTRY mark() { // every byte sequence
    encoding_form f = F();
    std::endian e = E();
    unsigned n = symx_param("n", 4), size = f == utf8 ? 1 : f == utf16 ? 2 : 4;
    Bytes b;
    unsigned char raw[8];
    for (unsigned i = 0; i < n; i++) { raw[i] = sym<unsigned char>("byte"); b.push_back((std::byte)raw[i]); }
    auto unit = [&](unsigned at, std::endian o) {
        char32_t u = 0;
        for (unsigned k = 0; k < size; k++) u |= (char32_t)raw[at * size + k] << 8 * (o == std::endian::big ? size - 1 - k : k);
        return u;
    };
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, f, e};
    char32_t got = 0;
    int failed = 0;
    try { got = s.read_bom(); } catch (const read_past_end &) { failed = 2; } catch (const invalid_unicode_encoding &) { failed = 1; }
    if (n < size || n == 0) { symx_assert(failed == 2, "there is nothing to read"); return; }
    std::endian want_order = e;
    ref::Dec d{};
    if (f != utf8 && unit(0, std::endian::big) == 0xFEFF) { want_order = std::endian::big; d = {0, 0xFEFF, 1}; symx_cover("marked"); }
    else if (f != utf8 && unit(0, std::endian::little) == 0xFEFF) { want_order = std::endian::little; d = {0, 0xFEFF, 1}; symx_cover("marked"); }
    else {
        symx_cover("unmarked");
        char8_t u8[8];
        char16_t u16[4];
        if (f == utf8) { for (unsigned i = 0; i < n; i++) u8[i] = raw[i]; d = ref::dec8(u8, n); }
        else if (f == utf16) { for (unsigned i = 0; i < n / 2; i++) u16[i] = (char16_t)unit(i, e); d = ref::dec16(u16, n / 2); }
        else d = {0, unit(0, e), 1};
    }
    symx_assert(s.get_endianness() == want_order, "a mark sets the byte order, anything else does not");
    if (d.status == 0) {
        symx_assert(!failed && got == d.c, "the code point that was read is returned");
        if (!failed) symx_assert(s->get_position() == (long)(d.len * size), "exactly that code point is consumed");
    } else if (d.status == 1) symx_assert(failed == 1, "ill-formed text is refused");
    else symx_assert(failed != 0, "text that ends inside a code point is reported");
}
ENTRY mark_then() { // a mark followed by text in either order
    std::endian real = order_of(choose(2, "real order"));
    Bytes b;
    put_point(b, 0xFEFF, F(), real);
    char32_t c = sym<char32_t>("cp"), got = 0;
    symx_assume(ref::valid(c) && c != '\r');
    put_point(b, c, F(), real);
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, F(), E()};
    symx_assert(s.read_bom() == 0xFEFF, "the mark is read");
    s >> got;
    symx_assert(got == c, "text after a mark is read in its byte order");
}

//PROPERTY C21
//JOB bytes form=0 n=0..4 order=0 cap={0,2}
//JOB bytes form=0 n=5 order=1 cap=3
//JOB bytes form=1 n=0..6 order=0..1 cap={0,3}
//JOB bytes form=2 n=0..9 order=0..1 cap={0,3}
//JOB bytes form=0 n=6..7 order=0 cap={0,3} time=900 tier=thorough
//JOB bytes form=1 n=7..8 order=0..1 cap={0,5} tier=thorough
//JOB points form=0..2 order=0..1 len=1..2 cap={0,1,4}
//JOB points form=0..2 order=0..1 len=3 cap={0,5} tier=thorough
//JOB points form=0..2 order=0..1 len={40,300} free=1 cap={0,7,64}
//JOB points form=0..2 order=0..1 len=1030 free=2 cap={0,256,1024} time=600 tier=thorough
//JOB settings
//COVERS point illformed truncated end
//BOUNDS every byte sequence of up to 5 bytes as UTF-8, 6 as UTF-16 and 9 as UTF-32 (thorough: 7, 8, 9), every text of up to 2 (3) code points, long texts of 40 and 300 code points of all lengths with one arbitrary code point at the start, in the middle or at the end (1030 with two), both byte orders, buffer capacities 0 to 4, 7 and 64
//OUTSIDE other long inputs; carriage returns (see C22); what is read after a failure
#include "textmodel.h"
ENTRY bytes() {
    encoding_form f = form_of(symx_param("form", 0));
    std::endian e = order_of(symx_param("order", 0));
    unsigned n = symx_param("n", 3), size = f == utf8 ? 1 : f == utf16 ? 2 : 4;
    Bytes b;
    unsigned char raw[10];
    for (unsigned i = 0; i < n; i++) { raw[i] = sym<unsigned char>("byte"); b.push_back((std::byte)raw[i]); }
    char8_t u8[10];
    char16_t u16[6];
    char32_t u32[4];
    for (unsigned i = 0; i < n; i++) u8[i] = raw[i];
    for (unsigned i = 0; i + 1 < n; i += 2) u16[i / 2] = e == std::endian::big ? raw[i] << 8 | raw[i + 1] : raw[i + 1] << 8 | raw[i];
    for (unsigned i = 0; i + 3 < n; i += 4) {
        u32[i / 4] = 0;
        for (unsigned k = 0; k < 4; k++) u32[i / 4] |= (char32_t)raw[i + k] << 8 * (e == std::endian::big ? 3 - k : k);
    }
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, f, e};
    unsigned units = n / size, at = 0;
    while (at < units || at * size < n) {
        symx_assert(!s.is_at_end(), "not at the end while there is text");
        ref::Dec d = at >= units ? ref::Dec{2, 0, 0} : f == utf8 ? ref::dec8(u8 + at, units - at) : f == utf16 ? ref::dec16(u16 + at, units - at) : ref::Dec{0, u32[at], 1};
        symx_assume(d.status != 0 || d.c != '\r');
        char32_t got = 0;
        int failed = 0;
        try { s >> got; } catch (const read_past_end &) { failed = 2; } catch (const invalid_unicode_encoding &) { failed = 1; }
        switch (d.status) {
        case 0:
            symx_cover("point");
            symx_assert(!failed, "well-formed text is read");
            symx_assert(got == d.c, "the code point is the one that is there");
            break;
        case 1: symx_cover("illformed"); symx_assert(failed == 1, "ill-formed text is refused"); return;
        case 2: symx_cover("truncated"); symx_assert(failed == 2, "text that ends inside a code point is reported"); return;
        default: symx_assert(failed != 0, "ill-formed truncated text is refused"); return;
        }
        if (failed) return;
        at += d.len;
    }
    symx_cover("end");
    symx_assert(s.is_at_end(), "at the end after the last code point");
    char32_t got = 5;
    bool threw = false;
    try { s >> got; } catch (const read_past_end &) { threw = true; }
    symx_assert(threw && got == 5, "there is nothing after the end");
}
ENTRY points() {
    encoding_form f = form_of(symx_param("form", 0));
    std::endian e = order_of(symx_param("order", 0));
    ref::Cps t = ref::symbolic_cps(symx_param("len", 2), false);
    for (unsigned i = 0; i < t.n; i++) symx_assume(t.c[i] != '\r');
    Bytes b;
    put_text(b, t, f, e);
    In r{b, symx_param("cap", 0)};
    text_input_stream<In> s{r, f, e};
    for (unsigned i = 0; i < t.n; i++) {
        symx_assert(!s.is_at_end(), "not at the end while there is text");
        char32_t got = 0;
        auto &q = s >> got;
        symx_assert(&q == &s, "the stream is returned");
        symx_assert(got == t.c[i], "the code points come in order");
        symx_cover("point");
    }
    symx_assert(s.is_at_end(), "at the end after the last code point");
}
ENTRY settings() {
    Bytes b;
    In r{b, 0};
    text_input_stream<In> s{r, form_of(choose(3, "form"))};
    symx_assert(s.get_endianness() == std::endian::big, "text streams are big endian unless told otherwise");
    encoding_form f = form_of(choose(3, "form"));
    std::endian e = order_of(choose(2, "order"));
    s.set_encoding_form(f);
    s.set_endianness(e);
    symx_assert(s.get_encoding_form() == f && s.get_endianness() == e, "form and order are the ones that were set");
    symx_assert(&s.grab_resource() == &r && s.operator->() == &r, "a stream refers to its resource");
}

// Encoded text as bytes: reference for the text streams.
#pragma once
#include "iomodel.h"
#include "ref.h"
#include <cmp/io/text_io_stream.hpp>
using Bytes = std::vector<std::byte>;
using Out = transparent_container_output_resource<Bytes>;
using In = transparent_container_input_resource<Bytes>;
using IO = transparent_container_io_resource<Bytes>;

static encoding_form form_of(unsigned f) { return f == 0 ? utf8 : f == 1 ? utf16 : utf32; }
static std::endian order_of(unsigned o) { return o ? std::endian::big : std::endian::little; }
static void put_unit(Bytes &b, char32_t u, unsigned size, std::endian e) {
    for (unsigned i = 0; i < size; i++) b.push_back((std::byte)(unsigned char)(u >> 8 * (e == std::endian::little ? i : size - 1 - i)));
}
static void put_point(Bytes &b, char32_t c, encoding_form f, std::endian e) {
    if (f == utf32) { put_unit(b, c, 4, e); return; }
    ref::Units u = f == utf8 ? ref::enc8(c) : ref::enc16(c);
    int n = (int)symx_concrete(u.n);
    for (int i = 0; i < n; i++) put_unit(b, u.u[i], f == utf8 ? 1 : 2, e);
}
static void put_text(Bytes &b, const ref::Cps &t, encoding_form f, std::endian e) {
    for (unsigned i = 0; i < t.n; i++) put_point(b, t.c[i], f, e);
}
static void put_ascii(Bytes &b, const char *s, encoding_form f, std::endian e) {
    for (; *s; s++) put_unit(b, (unsigned char)*s, f == utf8 ? 1 : f == utf16 ? 2 : 4, e);
}
static void compare(const Bytes &got, const Bytes &want, const char *size_msg, const char *msg) {
    symx_assert(got.size() == want.size(), size_msg);
    if (got.size() != want.size()) return;
    bool same = true;
    for (size_t i = 0; i < want.size(); i++) same = same & (got[i] == want[i]);
    symx_assert(same, msg);
}

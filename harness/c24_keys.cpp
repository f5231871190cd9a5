//PROPERTY C24
//WRAP GTK
//FLAGS -DG_DISABLE_CAST_CHECKS
//JOB key_events
//JOB key_names
//JOB event_objects
//COVERS letter capital function_key digit keypad space other pressed released
//BOUNDS every 32-bit native key value, pressed and released, on either of two windows; every key name
//OUTSIDE the Windows and macOS back ends, which do not compile here
//ASSUME GTK is modelled (harness/guimodel.h): it calls the connected handlers with the key value
#include "guimodel.h"
using namespace cmp;

static const key letters[26] = {key::a, key::b, key::c, key::d, key::e, key::f, key::g, key::h, key::i, key::j, key::k, key::l, key::m,
                                key::n, key::o, key::p, key::q, key::r, key::s, key::t, key::u, key::v, key::w, key::x, key::y, key::z};
static const key digits[10] = {key::number_0, key::number_1, key::number_2, key::number_3, key::number_4, key::number_5, key::number_6, key::number_7, key::number_8, key::number_9};
static const key keypad[10] = {key::numpad_0, key::numpad_1, key::numpad_2, key::numpad_3, key::numpad_4, key::numpad_5, key::numpad_6, key::numpad_7, key::numpad_8, key::numpad_9};
static const key functions[24] = {key::f1, key::f2, key::f3, key::f4, key::f5, key::f6, key::f7, key::f8, key::f9, key::f10, key::f11, key::f12,
                                  key::f13, key::f14, key::f15, key::f16, key::f17, key::f18, key::f19, key::f20, key::f21, key::f22, key::f23, key::f24};
// X11 keysyms: printable ASCII is itself, F1 is 0xffbe, the keypad's 0 is 0xffb0
static key denoted(unsigned v) {
    if (v >= 'a' && v <= 'z') { symx_cover("letter"); return letters[v - 'a']; }
    if (v >= 'A' && v <= 'Z') { symx_cover("capital"); return letters[v - 'A']; }
    if (v >= '0' && v <= '9') { symx_cover("digit"); return digits[v - '0']; }
    if (v >= 0xffb0 && v <= 0xffb9) { symx_cover("keypad"); return keypad[v - 0xffb0]; }
    if (v >= 0xffbe && v <= 0xffd5) { symx_cover("function_key"); return functions[v - 0xffbe]; }
    if (v == ' ') { symx_cover("space"); return key::space_bar; }
    symx_cover("other");
    return key::unknown;
}
struct win : window {
    int down = 0, up = 0, other = 0;
    key last = key::unknown;
    bool typed = true;
    using window::window;
    void handle_key_down_event(key_event &e) override { down++; last = e.get_key(); typed = typed && e.get_key_event_type() == key_event_type::key_down && e.get_event_type() == event_type::key_event; }
    void handle_key_up_event(key_event &e) override { up++; last = e.get_key(); typed = typed && e.get_key_event_type() == key_event_type::key_up && e.get_event_type() == event_type::key_event; }
    void handle_resize_event() override { other++; }
    void handle_close_event(close_event &) override { other++; }
    void update(double, double) override { other++; }
};
ENTRY key_events() {
    desktop_gui_application a{0, nullptr};
    win w[2] = {{1, 1, u8"", window_mode::standard}, {1, 1, u8"", window_mode::standard}};
    unsigned which = choose(2, "which"), down = choose(2, "down");
    unsigned v = sym<unsigned>("keyval");
    g_fire_key(which, down, v);
    symx_cover(down ? "pressed" : "released");
    symx_assert(w[which].down == (int)down && w[which].up == (int)!down && w[which].other == 0, "the window gets the event once, as pressed or released");
    symx_assert(w[!which].down == 0 && w[!which].up == 0 && w[!which].other == 0, "no other window gets the event");
    symx_assert(w[which].typed, "the event says of which kind it is");
    symx_assert(w[which].last == denoted(v), "the key is the one that the native key denotes");
}
ENTRY key_names() {
    unsigned kind = choose(6, "kind");
    std::u8string want;
    key k = key::unknown;
    auto put = [&](const char *t) { while (*t) want.push_back((char8_t)*t++); };
    if (kind == 0) { unsigned i = choose(26, "i"); k = letters[i]; want.push_back((char8_t)('A' + i)); }
    else if (kind == 1) { unsigned i = choose(10, "i"); k = digits[i]; want.push_back((char8_t)('0' + i)); }
    else if (kind == 2) { unsigned i = choose(10, "i"); k = keypad[i]; put("Numpad "); want.push_back((char8_t)('0' + i)); }
    else if (kind == 3) { unsigned i = choose(24, "i"); k = functions[i]; put("F"); if (i + 1 >= 10) want.push_back((char8_t)('0' + (i + 1) / 10)); want.push_back((char8_t)('0' + (i + 1) % 10)); }
    else if (kind == 4) { k = key::space_bar; put("Space Bar"); }
    else put("Unknown");
    symx_assert(to_u8string(k) == want, "every key has its name");
}
ENTRY event_objects() {
    bool b = sym<bool>("close"), c = sym<bool>("close2");
    close_event e{b};
    symx_assert(e.should_close() == b && e.get_event_type() == event_type::close_event, "a close event holds what it was given");
    e.set_should_close(c);
    symx_assert(e.should_close() == c, "a close event holds the last decision");
    key k = letters[choose(26, "k")];
    unsigned t = choose(2, "t");
    key_event q{t ? key_event_type::key_down : key_event_type::key_up, k};
    symx_assert(q.get_key() == k && q.get_key_event_type() == (t ? key_event_type::key_down : key_event_type::key_up) && q.get_event_type() == event_type::key_event, "a key event holds what it was given");
}

//PROPERTY C14
//JOB opaque_blob cap=0..4 ops=2 len=5
//JOB opaque_blob cap=1..3 ops=3 len=4
//JOB opaque_u16 cap={0,3} ops=3 len=2
//JOB opaque_blob cap=1..4 ops=4 len=5 time=1500 tier=thorough
//JOB opaque_blob cap={1,2,3} ops=4 len=3 first=0..4 time=240
//JOB transparent_blob cap={0,2,3} ops=2 len=5
//JOB opaque_u16 cap={0,2,3,4} ops=2 len=3
//JOB transparent_u32 cap={0,3} ops=2 len=2
//JOB opaque_blob unit=40 cap={30,64,128} ops=2 len=3
//JOB transparent_blob unit=300 cap={128,256} ops=2 len=3
//JOB opaque_blob unit=600 cap={512,1024} ops=1 len=3
//JOB opaque_u16 unit=100 cap={0,127,256} ops=1 len=3
//COVERS far read short seek go end
//JOB beyond cap={0,2,3} len=4
//JOB beyond_u16 cap={0,3} len=2
//BOUNDS histories of up to 3 operations (4 on 3 bytes with capacities 1 to 3) followed by a drain (reads of up to 7 bytes, seeks from begin, current and end, go_back and go_forward, to every position up to one past the end), content of up to 5 symbolic bytes, 3 UTF-16 or 2 UTF-32 elements, buffer capacities 0 to 4, and every position past the end below 2^62 with a way back; in bulk: contents of up to 1800 bytes of which every 97th is symbolic, capacities up to 1024, histories of up to 2 operations with amounts and targets at and next to multiples of 40, 100, 300 and 600
//OUTSIDE longer histories, larger contents and buffers; negative positions
#include "iomodel.h"

template <typename R>
static void run(R &r, Model &m) {
    unsigned steps = symx_param("ops", 2);
    for (unsigned s = 0; s < steps; s++) {
        unsigned what = operation(s, 5);
        if (what == 0) step_read(r, m, amount_up_to(8, 3, "count"));
        else if (what < 4) step_seek(r, m, what - 1, amount((unsigned)m.size + 2, "target"));
        else step_go(r, m, amount((unsigned)m.size + 2, "target"));
        check_position(r, m);
        symx_assert(r.is_at_end() == (m.pos == m.size), "the end is reported exactly at the end");
        if (m.pos == m.size) symx_cover("end");
    }
    step_read(r, m, 1 + choose(3, "count"));
    step_read(r, m, MODEL_MAX);
    check_position(r, m);
}
template <typename C>
static C content(Model &m) {
    C c;
    unsigned len = symx_param("len", 4) * symx_param("unit", 1);
    for (unsigned i = 0; i < len; i++) {
        using T = typename C::value_type;
        T t;
        if constexpr (sizeof(T) == 1) t = (T)some_byte("byte", i);
        else t = (T)(some_byte("byte", i) | some_byte("byte", i, 1) << 8);
        if (symx_param("unit", 1) == 1 && sizeof(T) > 1) t = sym<T>("element");
        c.push_back(t);
        memcpy(m.data + m.size, &t, sizeof t);
        m.size += sizeof t;
    }
    return c;
}
template <typename C>
static void same_content(const C &c, const Model &m) {
    symx_assert(c.size() * sizeof(typename C::value_type) == (unsigned long)m.size && memcmp(c.data(), m.data, m.size) == 0, "reading does not change the content");
}
template <typename C>
static void opaque() {
    Model m;
    C c = content<C>(m);
    opaque_container_input_resource<C> r{c, symx_param("cap", 0)};
    run(r, m);
    same_content(r.grab_content(), m);
}
template <typename C>
static void transparent() {
    Model m;
    C c = content<C>(m);
    transparent_container_input_resource<C> r{c, symx_param("cap", 0)};
    run(r, m);
    same_content(c, m);
}
ENTRY beyond() {
    Model m;
    auto c = content<std::vector<std::byte>>(m);
    opaque_container_input_resource<std::vector<std::byte>> r{c, symx_param("cap", 0)};
    step_read(r, m, choose(4, "count"));
    step_far<true>(r, m);
    step_read(r, m, choose(5, "count"));
    step_read(r, m, MODEL_MAX);
    check_position(r, m);
}
ENTRY beyond_u16() {
    Model m;
    auto c = content<std::u16string>(m);
    transparent_container_input_resource<std::u16string> r{c, symx_param("cap", 0)};
    step_read(r, m, choose(4, "count"));
    step_far<true>(r, m);
    step_read(r, m, MODEL_MAX);
    check_position(r, m);
}
ENTRY opaque_blob() { opaque<std::vector<std::byte>>(); }
ENTRY transparent_blob() { transparent<std::vector<std::byte>>(); }
ENTRY opaque_u16() { opaque<std::u16string>(); }
ENTRY transparent_u32() { transparent<std::u32string>(); }

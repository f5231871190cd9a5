//PROPERTY C16
//JOB opaque_blob cap=0..4 ops=3 len=4
//JOB opaque_blob cap={2,3} ops=4 len=3 first=0..4 time=240
//JOB transparent_blob cap={0,2,3} ops=3 len=3
//JOB opaque_u16 cap={0,3} ops=3 len=2
//JOB opaque_blob cap={2,3} ops=4 len=3 time=1500 tier=thorough
//JOB transparent_u32 cap={3,5} ops=3 len=1 time=1500 tier=thorough
//JOB opaque_blob unit=40 cap={30,64,128} ops=2 len=2
//JOB transparent_blob unit=300 cap={128,256} ops=2 len=2
//JOB opaque_blob unit=600 cap={512,1024} ops=2 len=1
//JOB opaque_u16 unit=100 cap={0,127} ops=2 len=1
//COVERS far read write short seek go flush
//JOB beyond cap={0,2,3} len=3
//BOUNDS histories of up to 3 operations, 4 on up to 3 bytes with capacities 2 and 3 (reads of up to 6 and writes of up to 3 symbolic bytes in any order, seeks from begin, current and end, go_back and go_forward, to every position up to the end, flushes) followed by a complete read back; initial content of up to 4 symbolic elements of one or two bytes, buffer capacities 0 to 4 (thorough: four-byte elements), and every position past the end below 2^62 with a way back; in bulk: contents, reads and writes of up to 1800 bytes of which every 97th is symbolic, capacities up to 1024, histories of 2 operations with amounts and targets at and next to multiples of 40, 100, 300 and 600
//OUTSIDE longer histories, larger contents and buffers; positions before the start, writing past the end; the end as reported with unflushed output
#include "iomodel.h"

template <typename C>
static C content(Model &m) {
    C c;
    unsigned len = symx_param("len", 4) * symx_param("unit", 1);
    for (unsigned i = 0; i < len; i++) {
        using T = typename C::value_type;
        T t;
        if constexpr (sizeof(T) == 1) t = (T)some_byte("byte", i);
        else t = (T)(some_byte("byte", i) | some_byte("byte", i, 1) << 8);
        if (symx_param("unit", 1) == 1 && sizeof(T) > 1) t = sym<T>("element");
        c.push_back(t);
        memcpy(m.data + m.size, &t, sizeof t);
        m.size += sizeof t;
    }
    return c;
}
template <typename C, typename R>
static void run(R &r, const C &c, Model &m) {
    constexpr unsigned e = sizeof(typename C::value_type);
    unsigned ops = symx_param("ops", 2);
    bool pending = false;
    for (unsigned s = 0; s < ops; s++) {
        switch (operation(s, 5)) {
        case 0: step_read(r, m, amount_up_to(7, 3, "count")); pending = false; break;
        case 1: step_write(r, m, e * (1 + amount_up_to(e == 1 ? 3 : 2, 2, "count"))); pending = true; break;
        case 2: { unsigned ref = choose(3, "reference"); step_seek(r, m, ref, amount((unsigned)m.size + 1, "target")); pending = false; break; }
        case 3: step_go(r, m, amount((unsigned)m.size + 1, "target")); pending = false; break;
        case 4: r.flush(); pending = false; symx_cover("flush"); break;
        }
        if (m.size % e) return; // a write that ended within an element is padded
        check_position(r, m);
        if (!pending) symx_assert(r.is_at_end() == (m.pos == m.size), "the end is reported exactly at the end");
    }
    r.set_position(0, position_reference::begin);
    m.pos = 0;
    step_read(r, m, MODEL_MAX);
    r.flush();
    symx_assert(c.size() * e == (unsigned long)m.size, "the content has the size of what was written");
    if (c.size() * e == (unsigned long)m.size) {
        const unsigned char *p = (const unsigned char *)c.data();
        bool same = true;
        for (long i = 0; i < m.size; i++) same = same & (p[i] == m.data[i]);
        symx_assert(same, "the content is what was written");
    }
}
template <typename C>
static void opaque() {
    Model m;
    memset(m.data, 0, sizeof m.data);
    C c = content<C>(m);
    opaque_container_io_resource<C> r{c, symx_param("cap", 0)};
    run(r, r.grab_content(), m);
}
template <typename C>
static void transparent() {
    Model m;
    memset(m.data, 0, sizeof m.data);
    C c = content<C>(m);
    transparent_container_io_resource<C> r{c, symx_param("cap", 0)};
    run(r, c, m);
}
ENTRY beyond() { // nothing is written there
    Model m;
    memset(m.data, 0, sizeof m.data);
    auto c = content<std::vector<std::byte>>(m);
    transparent_container_io_resource<std::vector<std::byte>> r{c, symx_param("cap", 0)};
    if (choose(2, "operation")) step_read(r, m, 1 + choose(3, "count"));
    else step_write(r, m, 1 + choose(2, "count"));
    step_far<true>(r, m);
    if (choose(2, "operation")) step_read(r, m, 1 + choose(3, "count"));
    else step_write(r, m, 1 + choose(2, "count"));
    check_position(r, m);
    r.flush();
    bool same = c.size() == (unsigned long)m.size;
    for (long i = 0; same && i < m.size; i++) same = c[i] == (std::byte)m.data[i];
    symx_assert(same, "the content is what was written");
}
ENTRY opaque_blob() { opaque<std::vector<std::byte>>(); }
ENTRY transparent_blob() { transparent<std::vector<std::byte>>(); }
ENTRY opaque_u16() { opaque<std::u16string>(); }
ENTRY transparent_u32() { transparent<std::u32string>(); }

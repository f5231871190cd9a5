//PROPERTY C15
//JOB opaque_blob cap=0..4 ops=3 len=2
//JOB opaque_blob cap={2,3} ops=4 len=2 first=0..3 time=240
//JOB transparent_blob cap={0,2,3} ops=3 len=3
//JOB opaque_u16 cap={0,2,3} ops=3 len=1
//JOB transparent_u32 cap={0,5} ops=2 len=1
//JOB fresh cap={0,3} ops=3 len=0
//JOB opaque_blob cap={0,2,3} ops=4 len=2 time=800 tier=thorough
//JOB opaque_u16 cap={3,4} ops=4 len=1 time=800 tier=thorough
//JOB opaque_blob unit=40 cap={30,64,128} ops=2 len=2
//JOB transparent_blob unit=300 cap={128,256} ops=2 len=2
//JOB opaque_blob unit=600 cap={512,1024} ops=2 len=1
//JOB opaque_u16 unit=100 cap={0,127,256} ops=2 len=1
//COVERS far write seek go flush grown kept
//JOB beyond cap={0,2,4}
//BOUNDS histories of up to 3 operations, 4 with capacities 2 and 3 (writes of up to 5 symbolic bytes, seeks from begin, current and end, go_back and go_forward, to every position up to one element past the end, flushes), initial content of up to 3 symbolic elements of one, two or four bytes, buffer capacities 0 to 5 (thorough: 4 operations), and every position past the end below 2^62 with a way back; in bulk: contents and writes of up to 1800 bytes of which every 97th is symbolic, capacities up to 1024, histories of 2 operations with amounts and targets at and next to multiples of 40, 100, 300 and 600
//OUTSIDE longer histories, larger contents and buffers; negative positions; whether a resource with unflushed output reports to be at its end
#include "iomodel.h"

template <typename C>
static C content(Model &m) {
    C c;
    unsigned len = symx_param("len", 4) * symx_param("unit", 1);
    for (unsigned i = 0; i < len; i++) {
        using T = typename C::value_type;
        T t;
        if constexpr (sizeof(T) == 1) t = (T)some_byte("byte", i);
        else t = (T)(some_byte("byte", i) | some_byte("byte", i, 1) << 8);
        if (symx_param("unit", 1) == 1 && sizeof(T) > 1) t = sym<T>("element");
        c.push_back(t);
        memcpy(m.data + m.size, &t, sizeof t);
        m.size += sizeof t;
    }
    return c;
}
template <typename C>
static void compare(const C &c, const Model &m) {
    constexpr unsigned long e = sizeof(typename C::value_type);
    unsigned long elements = ((unsigned long)m.size + e - 1) / e;
    symx_assert(c.size() == elements, "the content grows to hold exactly what was written");
    if (c.size() != elements) return;
    const unsigned char *p = (const unsigned char *)c.data();
    bool same = true;
    for (long i = 0; i < m.size; i++) same = same & (p[i] == m.data[i]);
    for (unsigned long i = m.size; i < elements * e; i++) same = same & (p[i] == 0);
    symx_assert(same, "after a flush the content is what was written, in place");
}
template <typename C, typename R>
static void run(R &r, const C &c, Model &m) {
    constexpr long e = sizeof(typename C::value_type);
    unsigned ops = symx_param("ops", 2);
    long start = m.size;
    for (unsigned s = 0; s < ops; s++) {
        unsigned what = operation(s, 4);
        // what is written past the last whole element is padded: the end moves
        if (what == 0) step_write(r, m, amount_up_to(6, 3, "count"));
        else if (what == 1) {
            unsigned ref = choose(3, "reference");
            m.size = (m.size + e - 1) / e * e;
            step_seek(r, m, ref, amount((unsigned)(m.size + e + 1), "target"));
        } else if (what == 2) step_go(r, m, amount((unsigned)(m.size + e + 1), "target"));
        else {
            r.flush();
            symx_cover("flush");
            compare(c, m);
            symx_assert(r.is_at_end() == (m.pos == (m.size + e - 1) / e * e), "the end is reported exactly at the end");
        }
        check_position(r, m);
    }
    r.flush();
    check_position(r, m);
    compare(c, m);
    symx_cover(m.size > start ? "grown" : "kept");
}
template <typename C>
static void opaque() {
    Model m;
    memset(m.data, 0, sizeof m.data);
    C c = content<C>(m);
    opaque_container_output_resource<C> r{c, symx_param("cap", 0)};
    run(r, r.grab_content(), m);
}
template <typename C>
static void transparent() {
    Model m;
    memset(m.data, 0, sizeof m.data);
    C c = content<C>(m);
    transparent_container_output_resource<C> r{c, symx_param("cap", 0)};
    run(r, c, m);
}
ENTRY beyond() { // nothing is written there
    Model m;
    memset(m.data, 0, sizeof m.data);
    std::vector<std::byte> c;
    for (unsigned i = 0; i < 3; i++) { m.data[i] = sym<unsigned char>("byte"); c.push_back((std::byte)m.data[i]); }
    m.size = 3;
    opaque_container_output_resource<std::vector<std::byte>> r{c, symx_param("cap", 0)};
    if (unsigned n = choose(3, "count")) step_write(r, m, n);
    step_far<false>(r, m);
    if (unsigned n = choose(4, "count")) step_write(r, m, n);
    check_position(r, m);
    r.flush();
    auto &d = r.grab_content();
    bool same = d.size() == (unsigned long)m.size;
    for (long i = 0; same && i < m.size; i++) same = d[i] == (std::byte)m.data[i];
    symx_assert(same, "the content is what was written");
}
ENTRY opaque_blob() { opaque<std::vector<std::byte>>(); }
ENTRY transparent_blob() { transparent<std::vector<std::byte>>(); }
ENTRY opaque_u16() { opaque<std::u16string>(); }
ENTRY transparent_u32() { transparent<std::u32string>(); }
ENTRY fresh() {
    Model m;
    memset(m.data, 0, sizeof m.data);
    opaque_container_output_resource<std::string> r{symx_param("cap", 0)};
    run(r, r.grab_content(), m);
}

//PROPERTY C19
//JOB write_value type=0..11 cap={0,3}
//JOB read_value type=0..11 cap={0,3}
//JOB through type={2,5,8,11} cap={0,5}
//JOB io_stream type={1,4,7,9} cap={0,4}
//JOB raw_read n=0..4 cap={0,2}
//JOB raw_write n=0..4 cap={0,2}
//JOB invert n=0..9
//JOB raw_read n={30,300} cap={0,64,512}
//JOB raw_write n={30,300} cap={0,64,512}
//JOB invert n={10,15,16,17,31,32,33,63,64,65,100,255,256,257,600}
//JOB sequence type=0..11 count={12,70} cap={0,7,64}
//JOB accessors
//COVERS little big whole missing swapped
//BOUNDS every value of twelve fundamental types of 1, 2, 4 and 8 bytes, written and read after zero to one other bytes, every amount of data up to the whole value, both byte orders, buffer capacities 0, 2 and 3; raw transfers of up to 4 and about 30 and 300 and inversions of up to 10 and fifteen lengths up to 600 symbolic bytes; sequences of 12 and 70 symbolic values with a change of byte order after any of the first four or in the middle, buffer capacities 0, 7 and 64
//OUTSIDE long double (has padding); other long sequences
#include "iomodel.h"
#include <cmp/io/data_io_stream.hpp>
using Out = transparent_container_output_resource<std::vector<std::byte>>;
using In = transparent_container_input_resource<std::vector<std::byte>>;
using IO = transparent_container_io_resource<std::vector<std::byte>>;

static std::endian order() {
    if (choose(2, "order")) { symx_cover("big"); return std::endian::big; }
    symx_cover("little");
    return std::endian::little;
}
template <typename T>
static T value(unsigned char *b) {
    T v;
    if constexpr (std::is_same_v<T, bool>) { v = sym<bool>("value"); }
    else symx_make(&v, sizeof v, "value");
    memcpy(b, &v, sizeof v);
    return v;
}
template <template <typename> class F>
static void with_type() {
    switch (symx_param("type", 4)) {
    case 0: F<bool>::run(); break;
    case 1: F<char>::run(); break;
    case 2: F<signed char>::run(); break;
    case 3: F<unsigned short>::run(); break;
    case 4: F<int>::run(); break;
    case 5: F<unsigned>::run(); break;
    case 6: F<long>::run(); break;
    case 7: F<unsigned long long>::run(); break;
    case 8: F<float>::run(); break;
    case 9: F<double>::run(); break;
    case 10: F<char16_t>::run(); break;
    default: F<char32_t>::run(); break;
    }
}
// bytes of the value in the given order, on this little-endian machine
static unsigned char byte_at(const unsigned char *b, unsigned n, unsigned i, std::endian e) { return e == std::endian::native ? b[i] : b[n - 1 - i]; }

template <typename T> struct Write {
    static void run() {
        std::vector<std::byte> c;
        unsigned char b[sizeof(T)], first = sym<unsigned char>("first");
        unsigned pre = choose(2, "before");
        std::endian e = order();
        T v = value<T>(b);
        {
            Out r{c, symx_param("cap", 0)};
            data_output_stream<Out> s{r, e};
            if (pre) s << first;
            data_output_stream<Out> &ret = s << v;
            symx_assert(&ret == &s, "the stream is returned");
            unsigned char now[sizeof(T)];
            memcpy(now, &v, sizeof v);
            bool kept = true;
            for (unsigned i = 0; i < sizeof(T); i++) kept = kept & (now[i] == b[i]);
            symx_assert(kept, "writing leaves the value alone");
            if (choose(2, "flush")) {
                s.flush();
                symx_assert(c.size() == pre + sizeof(T), "a flush puts everything in the resource");
            }
        }
        symx_assert(c.size() == pre + sizeof(T), "the stream leaves everything in the resource");
        if (c.size() != pre + sizeof(T)) return;
        bool same = !pre || (unsigned char)c[0] == first;
        for (unsigned i = 0; i < sizeof(T); i++) same = same & ((unsigned char)c[pre + i] == byte_at(b, sizeof(T), i, e));
        symx_assert(same, "the bytes of the value are written in the byte order of the stream");
        symx_cover("whole");
    }
};
template <typename T> struct Read {
    static void run() {
        std::vector<std::byte> c;
        unsigned pre = choose(2, "before"), there = choose(sizeof(T) + 1, "there");
        unsigned char b[sizeof(T)], old[sizeof(T)], now[sizeof(T)], first = sym<unsigned char>("first"), got_first = 0;
        std::endian e = order();
        if (pre) c.push_back((std::byte)first);
        T made = value<T>(b);
        (void)made;
        for (unsigned i = 0; i < there; i++) c.push_back((std::byte)b[i]);
        In r{c, symx_param("cap", 0)};
        data_input_stream<In> s{r, e};
        if (pre) { s >> got_first; symx_assert(got_first == first, "the first value is read"); }
        T v = value<T>(old);
        bool threw = false;
        try { s >> v; } catch (const read_past_end &) { threw = true; }
        memcpy(now, &v, sizeof v);
        symx_assert(threw == (there < sizeof(T)), "reading fails exactly if the value is not completely there");
        bool same = true, swapped = true;
        if (threw) {
            symx_cover("missing");
            for (unsigned i = 0; i < sizeof(T); i++) same = same & (now[i] == old[i]);
            symx_assert(same, "a failed read leaves the target alone");
            return;
        }
        for (unsigned i = 0; i < sizeof(T); i++) {
            same = same & (now[i] == byte_at(b, sizeof(T), i, e));
            swapped = swapped & (now[i] == b[i]);
        }
        if (e == std::endian::native || sizeof(T) == 1) symx_assert(same, "the value is the one that is there");
        else {
            symx_cover("swapped");
            symx_assert(same | swapped, "the bytes of the value are the ones that are there");
            symx_known(same, "the value is read in the byte order of the stream", "KF-data-input-order");
        }
    }
};
// Several values written one after the other are read back in order.
template <typename T> struct Through {
    static void run() {
        std::vector<std::byte> c;
        unsigned char b1[sizeof(T)], b2[8], b3[2];
        T v1 = value<T>(b1), w1{};
        double v2 = value<double>(b2), w2 = 0;
        short v3 = value<short>(b3), w3 = 0;
        { Out r{c, symx_param("cap", 0)}; data_output_stream<Out> s{r, std::endian::native}; s << v1 << v2 << v3; }
        In r{c, symx_param("cap", 0)};
        data_input_stream<In> s{r, std::endian::native};
        symx_assert(!s.is_at_end(), "not at the end before reading");
        s >> w1 >> w2 >> w3;
        symx_assert(memcmp(&v1, &w1, sizeof(T)) == 0 && memcmp(&v2, &w2, 8) == 0 && v3 == w3, "values come back as they were written");
        symx_assert(s.is_at_end(), "at the end after reading everything");
    }
};
template <typename T> struct Both {
    static void run() {
        std::vector<std::byte> c;
        unsigned char b1[sizeof(T)], b2[sizeof(T)];
        T v1 = value<T>(b1), v2 = value<T>(b2), w{};
        IO r{c, symx_param("cap", 0)};
        data_io_stream<IO> s{r, std::endian::native};
        symx_assert(s.operator->() == &r, "the stream refers to its resource");
        data_output_stream<IO> &o = s;
        data_input_stream<IO> &i = s;
        o << v1 << v2;
        s->set_position(sizeof(T), position_reference::begin);
        i >> w;
        symx_assert(memcmp(&w, b2, sizeof(T)) == 0, "the second value is read back");
        s->set_position(0, position_reference::begin);
        o << v2;
        i >> w;
        symx_assert(memcmp(&w, b2, sizeof(T)) == 0, "reading goes on after a write");
        s->set_position(0, position_reference::begin);
        i >> w;
        symx_assert(memcmp(&w, b2, sizeof(T)) == 0, "the first value was replaced");
    }
};
// Many values, with a change of byte order on the way.
template <typename T> struct Sequence {
    static void run() {
        unsigned count = symx_param("count", 12), change = choose(5, "change");
        if (change == 4) change = count / 2;
        std::endian e = order(), e2 = get_opposite_endianness(e);
        unsigned char *b = new unsigned char[count * sizeof(T)];
        std::vector<std::byte> c;
        {
            Out r{c, symx_param("cap", 0)};
            data_output_stream<Out> s{r, e};
            for (unsigned i = 0; i < count; i++) {
                if (i == change) s.set_endianness(e2);
                T v = value<T>(b + i * sizeof(T));
                s << v;
            }
        }
        symx_assert(c.size() == count * sizeof(T), "the stream leaves everything in the resource");
        if (c.size() == count * sizeof(T)) {
            bool same = true;
            for (unsigned i = 0; i < count; i++)
                for (unsigned k = 0; k < sizeof(T); k++) same = same & ((unsigned char)c[i * sizeof(T) + k] == byte_at(b + i * sizeof(T), sizeof(T), k, i < change ? e : e2));
            symx_assert(same, "every value is written in the byte order of the stream at that time");
        }
        std::endian n = std::endian::native;
        In r{c, symx_param("cap", 0)};
        data_input_stream<In> s{r, n};
        for (unsigned i = 0; i < count; i++) {
            T v{};
            s >> v;
            unsigned char now[sizeof(T)];
            memcpy(now, &v, sizeof v);
            bool same = true;
            for (unsigned k = 0; k < sizeof(T); k++) same = same & (now[k] == (unsigned char)c[i * sizeof(T) + k]);
            symx_assert(same, "values are read in order");
        }
        symx_assert(s.is_at_end(), "at the end after reading everything");
        delete[] b;
    }
};
ENTRY sequence() { with_type<Sequence>(); }
ENTRY write_value() { with_type<Write>(); }
ENTRY read_value() { with_type<Read>(); }
ENTRY through() { with_type<Through>(); }
ENTRY io_stream() { with_type<Both>(); }
ENTRY raw_read() {
    unsigned n = symx_param("n", 3), len = n < 6 ? choose(6, "there") : n - 2 + choose(5, "there"), pre = choose(2, "before");
    std::vector<std::byte> c;
    unsigned char b[400];
    for (unsigned i = 0; i < len; i++) { b[i] = sym<unsigned char>("byte"); c.push_back((std::byte)b[i]); }
    std::endian e = order();
    In r{c, symx_param("cap", 0)};
    data_input_stream<In> s{r, e};
    std::byte one;
    unsigned at = 0;
    if (pre) at = (unsigned)s.read(&one, 1);
    std::byte *buf = new std::byte[n ? n : 1];
    std::size_t got = s.read(buf, n);
    unsigned want = len - at < n ? len - at : n;
    symx_assert(got == want, "as many bytes are read as there are");
    if (got == want) {
        bool same = true;
        for (unsigned i = 0; i < want; i++) same = same & ((unsigned char)buf[i] == byte_at(b + at, want, i, e));
        symx_assert(same, "the bytes come in the byte order of the stream");
    }
    delete[] buf;
}
ENTRY raw_write() {
    unsigned n = symx_param("n", 3);
    std::vector<std::byte> c;
    std::byte *buf = new std::byte[n ? n : 1];
    unsigned char b[400];
    for (unsigned i = 0; i < n; i++) { b[i] = sym<unsigned char>("byte"); buf[i] = (std::byte)b[i]; }
    bool rev = choose(2, "reverse");
    Out r{c, symx_param("cap", 0)};
    data_output_stream<Out> s{r, order()};
    std::size_t put = rev ? s.reverse_write(buf, n) : s.write(buf, n);
    symx_assert(put == n, "everything is written");
    static_cast<output_stream<Out> &>(s) << flush;
    symx_assert(c.size() == n, "a flush puts everything in the resource");
    if (c.size() == n) {
        bool same = true;
        for (unsigned i = 0; i < n; i++) same = same & ((unsigned char)c[i] == (rev ? b[n - 1 - i] : b[i]));
        symx_assert(same, "write keeps and reverse_write reverses the order");
    }
    delete[] buf;
}
ENTRY invert() {
    unsigned n = symx_param("n", 3);
    unsigned char b[700];
    std::byte *buf = n ? new std::byte[n] : nullptr;
    for (unsigned i = 0; i < n; i++) { b[i] = sym<unsigned char>("byte"); buf[i] = (std::byte)b[i]; }
    invert_endianness(buf, n);
    bool same = true;
    for (unsigned i = 0; i < n; i++) same = same & ((unsigned char)buf[i] == b[n - 1 - i]);
    symx_assert(same, "the bytes are reversed");
    delete[] buf;
}
ENTRY accessors() {
    symx_assert(get_opposite_endianness(std::endian::little) == std::endian::big && get_opposite_endianness(std::endian::big) == std::endian::little, "opposite byte orders");
    std::vector<std::byte> c;
    In r{c, 0};
    Out w{c, 0};
    data_input_stream<In> a{r};
    data_output_stream<Out> b{w};
    symx_assert(a.get_endianness() == std::endian::big && b.get_endianness() == std::endian::big, "data streams are big endian unless told otherwise");
    std::endian e = order();
    a.set_endianness(e);
    b.set_endianness(e);
    symx_assert(a.get_endianness() == e && b.get_endianness() == e, "the byte order is the one that was set");
    symx_assert(&a.grab_resource() == &r && &b.grab_resource() == &w && a.operator->() == &r && b.operator->() == &w, "a stream refers to its resource");
}

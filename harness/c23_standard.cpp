//PROPERTY C23
//WRAP open open64 creat close read write pread pwrite lseek lseek64 access fsync ftruncate fstat stat _ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code _ZNSt10filesystem9file_sizeERKNS_7__cxx114pathE _ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code _ZNSt10filesystem6statusERKNS_7__cxx114pathE _ZNSt10filesystem7__cxx114pathaSERKS1_ _ZNSt10filesystem7__cxx114pathaSEOS1_
//JOB output fd={1,2} cap=0..4 ops=3 faults=0
//JOB output fd=1 cap={0,2,3} ops=3 faults=1
//JOB output fd=1 cap={0,1,3,5} ops=4 faults=1 time=600 tier=thorough
//JOB input cap=0..4 ops=3 len=5 faults=1
//JOB input cap={0,2,3} ops=4 len=6 faults=2 time=600 tier=thorough
//JOB failing cap={0,2} ops=3 len=4
//JOB tied in=0..3 out={0,3} ops=4 faults=0
//JOB tied in={0,2} out={0,2} ops=3 faults=1
//JOB tied in={0,3} out={0,2,4} ops=5 faults=1 time=600 tier=thorough
//JOB containers in={0,2} out={0,3} ops=4
//JOB retied in={0,2} out=3
//JOB global_streams
//JOB output fd=1 unit=40 cap={30,64,128} ops=3 faults=1
//JOB output fd=1 unit=300 cap={128,256,1024} ops=3 faults=0
//JOB output fd=2 unit=600 cap={0,512,1024} ops=2 faults=1
//JOB input unit=40 cap={30,64,128} ops=2 len=3 faults=1
//JOB input unit=300 cap={0,128,256} ops=2 len=3 faults=1
//JOB input unit=600 cap={512,1024} ops=2 len=3 faults=1
//JOB write_errors ops=3
//COVERS write flush read partial waited error prompt
//BOUNDS histories of up to 3 writes (of up to 4 symbolic bytes) and flushes on standard output and error, of up to 3 reads (of up to 5 bytes) from standard input with up to 5 bytes arriving in up to two parts, and of up to 4 writes and reads on tied resources; buffer capacities 0 to 4; one partial transfer (thorough: 5 operations, two); one failing read at any place, one failing write at any place of an unbuffered resource; in bulk: writes and reads of up to 1800 bytes of which every 97th is symbolic, capacities up to 1024, amounts at and next to multiples of 40, 300 and 600
//OUTSIDE longer histories; failing writes of a buffered resource; signals; Windows; order of initialisation in the library build
//ASSUME system calls behave as POSIX describes (modelled)
#include "osmodel.h"
#include <cmp/io/uio.hpp>

static unsigned char sent[MODEL_MAX];
static long nsent;
template <typename R>
static void put(R &r, unsigned n) {
    std::byte *buf = new std::byte[n ? n : 1];
    for (unsigned i = 0; i < n; i++) { sent[nsent] = some_byte("written", (unsigned long)nsent, 3); buf[i] = (std::byte)sent[nsent++]; }
    symx_assert(r.write(buf, n) == n, "a write accepts everything");
    symx_cover("write");
    delete[] buf;
}
static void arrived(const unsigned char *data, long size, const char *m1, const char *m2) {
    symx_assert(size == nsent, m1);
    if (size != nsent) return;
    bool same = true;
    for (long i = 0; i < size; i++) same = same & (data[i] == sent[i]);
    symx_assert(same, m2);
}
static void begins(const unsigned char *data, long size) {
    symx_assert(size <= nsent, "nothing is sent twice");
    bool same = true;
    for (long i = 0; i < size && i < nsent; i++) same = same & (data[i] == sent[i]);
    symx_assert(same, "what is sent before a flush is the beginning of what was written");
}
static const char ALL[] = "everything written has reached its destination", SAME[] = "what was written arrives in order";
ENTRY output() {
    os::reset();
    nsent = 0;
    int fd = (int)symx_param("fd", 1);
    const unsigned char *data = fd == 1 ? os::out_data : os::err_data;
    long &size = fd == 1 ? os::out_size : os::err_size;
    stdout_resource r{fd, symx_param("cap", 0)};
    os::short_writes = symx_param("faults", 0);
    for (unsigned s = 0, n = symx_param("ops", 2); s < n; s++) {
        if (choose(2, "operation") == 0) { put(r, amount_up_to(5, 3, "count")); begins(data, size); }
        else { r.flush(); symx_cover("flush"); arrived(data, size, ALL, SAME); }
    }
    r.flush();
    arrived(data, size, ALL, SAME);
    symx_assert((fd == 1 ? os::err_size : os::out_size) == 0, "nothing goes to the other descriptor");
}
ENTRY write_errors() { // a failing write tells how much was written
    os::reset();
    nsent = 0;
    stdout_resource r{1, 0};
    symx_assert(!r.is_at_end(), "standard output has no end");
    os::write_errors = os::short_writes = 1;
    for (unsigned s = 0, n = symx_param("ops", 2); s < n; s++) {
        unsigned k = 1 + choose(4, "count");
        bool could = os::write_errors;
        std::byte b[4];
        for (unsigned i = 0; i < k; i++) b[i] = (std::byte)sym<unsigned char>("written");
        std::size_t done = r.write(b, k);
        symx_assert(done <= k, "no more than there is is written");
        if (done > k) return;
        if (!(could && !os::write_errors)) symx_assert(done == k, "everything is written when nothing fails");
        for (unsigned i = 0; i < done; i++) sent[nsent++] = (unsigned char)b[i];
        arrived(os::out_data, os::out_size, "what was reported as written has arrived", SAME);
    }
}
static void arrive(long n) {
    os::in_size = n;
    for (long i = 0; i < n; i++) os::in_data[i] = some_byte("byte", (unsigned long)i);
}
static long taken;
template <typename R>
static long get(R &r, unsigned n) {
    std::byte *buf = new std::byte[n ? n : 1];
    long k = (long)r.read(buf, n);
    symx_assert(k >= 0 && k <= (long)n && taken + k <= os::in_size, "a read delivers at most what was asked for and what is there");
    if (k >= 0 && k <= (long)n && taken + k <= os::in_size) {
        bool same = true;
        for (long i = 0; i < k; i++) same = same & ((unsigned char)buf[i] == os::in_data[taken + i]);
        symx_assert(same, "the bytes come in order");
        taken += k;
    }
    symx_cover("read");
    delete[] buf;
    return k;
}
ENTRY input() {
    os::reset();
    taken = 0;
    arrive((long)(symx_param("len", 4) * symx_param("unit", 1)));
    stdin_resource r{symx_param("cap", 0)};
    os::short_reads = symx_param("faults", 0);
    for (unsigned s = 0, n = symx_param("ops", 2); s < n; s++) {
        unsigned want = amount_up_to(6, 3, "count");
        long before = taken, left = os::in_size - taken;
        unsigned budget = os::short_reads;
        long k = get(r, want);
        if (want && left) symx_assert(k > 0, "a read delivers something while there is something");
        if (budget == os::short_reads && budget == symx_param("faults", 0)) symx_assert(k == ((long)want < left ? (long)want : left), "a read delivers everything up to the end");
        (void)before;
    }
    for (int i = 0; i < 8 && taken < os::in_size; i++) get(r, 5 * (unsigned)symx_param("unit", 1));
    symx_assert(taken == os::in_size, "everything that arrives is delivered");
    symx_assert(get(r, 3) == 0, "there is nothing after the end");
}
ENTRY failing() { // a failing read delivers nothing and loses nothing
    os::reset();
    taken = 0;
    arrive((long)symx_param("len", 4));
    stdin_resource r{symx_param("cap", 0)};
    os::read_errors = 1;
    for (unsigned s = 0, n = symx_param("ops", 2); s < n; s++) get(r, choose(4, "count"));
    if (!os::read_errors) symx_cover("error");
    os::read_errors = 0;
    for (int i = 0; i < 8 && taken < os::in_size; i++) get(r, 5);
    symx_assert(taken == os::in_size, "everything that arrives is delivered");
}
ENTRY tied() {
    os::reset();
    nsent = taken = 0;
    arrive(4);
    stdout_resource o{1, symx_param("out", 0)};
    stdin_resource i{symx_param("in", 0)};
    i.tie(o);
    os::short_writes = symx_param("faults", 0);
    for (unsigned s = 0, n = symx_param("ops", 2); s < n; s++) {
        if (choose(2, "operation") == 0) put(o, 1 + choose(2, "count"));
        else {
            os::out_at_read = -1;
            get(i, 1 + choose(2, "count"));
            if (os::out_at_read >= 0) { symx_assert(os::out_at_read == nsent, "tied output has arrived before the system is asked for data"); symx_cover("waited"); }
            arrived(os::out_data, os::out_size, ALL, SAME);
        }
    }
}
ENTRY retied() { // the resource tied last is the one that is flushed
    os::reset();
    nsent = taken = 0;
    arrive(4);
    stdout_resource a{1, symx_param("out", 3)}, b{2, symx_param("out", 3)};
    stdin_resource i{symx_param("in", 0)};
    i.tie(b);
    i.tie(a);
    put(a, 2);
    get(i, 1);
    arrived(os::out_data, os::out_size, ALL, SAME);
}
ENTRY containers() { // any input resource can be tied to any output resource
    os::reset();
    nsent = 0;
    std::vector<std::byte> from, to;
    for (int k = 0; k < 4; k++) from.push_back((std::byte)sym<unsigned char>("byte"));
    transparent_container_input_resource<std::vector<std::byte>> i{from, symx_param("in", 0)};
    transparent_container_output_resource<std::vector<std::byte>> o{to, symx_param("out", 0)};
    i.tie(o);
    unsigned at = 0;
    for (unsigned s = 0, n = symx_param("ops", 2); s < n; s++) {
        if (choose(2, "operation") == 0) put(o, 1 + choose(2, "count"));
        else {
            std::byte b{};
            std::size_t k = i.read(&b, 1);
            symx_assert(k == (at < 4) && (!k || b == from[at]), "the bytes come in order");
            at += k;
            arrived((unsigned char *)to.data(), (long)to.size(), ALL, SAME);
        }
    }
}
ENTRY global_streams() {
    os::reset();
    nsent = 0;
    arrive(3);
    symx_assume(os::in_data[0] < 0x80 && os::in_data[0] != '\r');
    symx_assume(os::in_data[1] >= 0xC2 && os::in_data[1] < 0xE0 && os::in_data[2] >= 0x80 && os::in_data[2] < 0xC0);
    char32_t c = sym<char32_t>("cp");
    symx_assume(c < 0x80);
    uout << c << 7;
    sent[0] = (unsigned char)c;
    sent[1] = '7';
    nsent = 2;
    if (choose(2, "error stream")) {
        uerr << "e";
        uerr.flush();
        symx_assert(os::err_size == 1 && os::err_data[0] == 'e', "the error stream writes to standard error");
    }
    symx_assert(os::out_size <= 2, "nothing else is sent");
    symx_cover("prompt");
    char32_t a = 0, b = 0;
    uin >> a;
    arrived(os::out_data, os::out_size, ALL, SAME);
    uin >> b;
    symx_assert(a == os::in_data[0] && b == (char32_t)((os::in_data[1] - 0xC0) * 64 + (os::in_data[2] - 0x80)), "standard input is read as UTF-8");
    bool threw = false;
    try { uin >> a; } catch (const read_past_end &) { threw = true; }
    symx_assert(threw, "the end of standard input is reported");
    uout << u"\u00e9";
    uout.flush();
    sent[2] = 0xC3;
    sent[3] = 0xA9;
    nsent = 4;
    arrived(os::out_data, os::out_size, ALL, SAME);
}

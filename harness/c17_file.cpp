//PROPERTY C17
//WRAP open open64 creat close read write pread pwrite lseek lseek64 access fsync ftruncate fstat stat _ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code _ZNSt10filesystem9file_sizeERKNS_7__cxx114pathE _ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code _ZNSt10filesystem6statusERKNS_7__cxx114pathE _ZNSt10filesystem7__cxx114pathaSERKS1_ _ZNSt10filesystem7__cxx114pathaSEOS1_
//JOB history cap=0..3 ops=3 len=4 faults=0
//JOB history cap=2 ops=4 len=2 faults=0 first=0..4 time=240
//JOB history cap={0,3} ops=2 len=5 faults=1
//JOB history cap=2 ops=3 len=3 faults=1
//JOB errors cap={0,2,3} ops=2 len=4
//JOB history cap=1..3 ops=4 len=4 faults=0 time=1500 tier=thorough
//JOB history cap={0,2,3} ops=3 len=5 faults=2 time=1500 tier=thorough
//JOB history unit=300 cap={128,1024} ops=2 len=2 faults=0
//JOB history unit=600 cap={0,512} ops=1 len=2 faults=1
//JOB write_errors len=3 ops=2
//JOB huge cap={0,2,3} ops=2 len=3
//COVERS huge read write short seek go flush partial error
//BOUNDS histories of up to 3 operations, 4 on 2 bytes with capacity 2 (reads of up to 6 and writes of up to 3 symbolic bytes in any order, seeks from begin, current and end, go_back and go_forward, flushes) on a file of up to 5 symbolic bytes, then a complete read back and a close; buffer capacities 0 to 3; the system may cut one read and one write short at any byte (thorough: two, 4 operations); one failing read at any place, one failing write at any place of an unbuffered file, and on the last bytes of files of 2^31, 2^32, 2^33 and 2^55 bytes; in bulk: files, reads and writes of up to 1800 bytes of which every 97th is symbolic, capacities up to 1024, histories of 2 operations with amounts and targets at and next to multiples of 300 and 600
//OUTSIDE longer histories, larger files and buffers; failing writes of a buffered file, failing seeks; signals; Windows
//ASSUME system calls and std::filesystem queries behave as POSIX describes (modelled)
#include "osmodel.h"

static void fill(int i, long n, Model &m) {
    os::files[i].exists = true;
    os::files[i].size = n;
    for (long k = 0; k < n; k++) m.data[k] = os::files[i].data[k] = some_byte("byte", (unsigned long)k);
    m.size = n;
}
ENTRY history() {
    os::reset();
    Model m;
    memset(m.data, 0, sizeof m.data);
    fill(0, symx_param("len", 4) * symx_param("unit", 1), m);
    {
        file f{"a", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        symx_assert(f.is_open(), "an existing file opens");
        os::short_reads = os::short_writes = symx_param("faults", 0);
        unsigned ops = symx_param("ops", 2);
        bool pending = false;
        for (unsigned s = 0; s < ops; s++) {
            switch (operation(s, 5)) {
            case 0: step_read(f, m, amount_up_to(7, 3, "count")); pending = false; break;
            case 1: step_write(f, m, 1 + amount_up_to(3, 2, "count")); pending = true; break;
            case 2: { unsigned ref = choose(3, "reference"); step_seek(f, m, ref, amount((unsigned)m.size + 2, "target")); pending = false; break; }
            case 3: step_go(f, m, amount((unsigned)m.size + 1, "target")); pending = false; break;
            case 4: f.flush(); pending = false; symx_cover("flush"); break;
            }
            check_position(f, m);
            if (!pending) symx_assert(f.is_at_end() == (m.pos == m.size), "the end is reported exactly at the end");
        }
        if (choose(2, "read back")) {
            f.set_position(0, position_reference::begin);
            m.pos = 0;
            step_read(f, m, MODEL_MAX);
        }
        if (choose(2, "close")) f.close();
    }
    symx_assert(os::files[0].size == m.size, "the file has the size of what was written");
    if (os::files[0].size != m.size) return;
    bool same = true;
    for (long i = 0; i < m.size; i++) same = same & (os::files[0].data[i] == m.data[i]);
    symx_assert(same, "the file holds what was written");
    symx_assert(!os::leaked() && os::bad_calls == 0, "the descriptor is closed once and not used afterwards");
}
// A part of a huge file: positions count from its base.
struct Part {
    file &f;
    long base;
    std::size_t read(std::byte *p, std::size_t n) { return f.read(p, n); }
    std::size_t write(const std::byte *p, std::size_t n) { return f.write(p, n); }
    void set_position(long p, position_reference r) { f.set_position(r == position_reference::begin ? p + base : p, r); }
    void go_back(long n) { f.go_back(n); }
    void go_forward(long n) { f.go_forward(n); }
    long get_position() { return f.get_position() - base; }
};
ENTRY huge() {
    os::reset();
    Model m;
    memset(m.data, 0, sizeof m.data);
    fill(0, symx_param("len", 4), m);
    static const long bases[] = {0x7FFFFFFE, 0xFFFFFFFE, 0x1FFFFFFFD, 0x7FFFFFFFFFFFFF};
    long base = bases[choose(4, "base")];
    os::files[0].base = base;
    os::files[0].size += base;
    {
        file f{"a", read_and_write, if_not_there::fail, symx_param("cap", 0)};
        Part p{f, base};
        switch (choose(4, "reference")) {
        case 0: f.set_position(base, position_reference::begin); break;
        case 1: f.set_position(base, position_reference::current); break;
        case 2: f.set_position(-m.size, position_reference::end); break;
        default: f.go_forward(base); break;
        }
        check_position(p, m);
        unsigned ops = symx_param("ops", 2);
        bool pending = false;
        for (unsigned s = 0; s < ops; s++) {
            switch (choose(4, "operation")) {
            case 0: step_read(p, m, 1 + choose(5, "count")); pending = false; break;
            case 1: step_write(p, m, 1 + choose(3, "count")); pending = true; break;
            case 2: { unsigned ref = choose(3, "reference"); step_seek(p, m, ref, choose((unsigned)m.size + 2, "target")); pending = false; break; }
            case 3: step_go(p, m, choose((unsigned)m.size + 1, "target")); pending = false; break;
            }
            check_position(p, m);
            if (!pending) symx_assert(f.is_at_end() == (m.pos == m.size), "the end is reported exactly at the end");
        }
        f.go_back(m.pos + base);
        symx_assert(f.get_position() == 0, "the way back leads to the start");
        symx_cover("huge");
    }
    bool same = os::files[0].size == base + m.size;
    for (long i = 0; same && i < m.size; i++) same = os::files[0].data[i] == m.data[i];
    symx_assert(same, "the file holds what was written");
}
// A read that fails delivers nothing wrong and loses nothing.
ENTRY errors() {
    os::reset();
    Model m;
    memset(m.data, 0, sizeof m.data);
    fill(0, symx_param("len", 4) * symx_param("unit", 1), m);
    file f{"a", read_only, if_not_there::fail, symx_param("cap", 0)};
    os::read_errors = 1;
    os::short_reads = 1;
    unsigned ops = symx_param("ops", 2);
    for (unsigned s = 0; s <= ops; s++) {
        unsigned n = 1 + choose(5, "count");
        if (s == ops) n = 20;
        bool before = os::read_errors == 0;
        std::byte *buf = new std::byte[n];
        std::size_t got = f.read(buf, n);
        long left = m.size - m.pos;
        std::size_t want = n < (unsigned long)left ? n : (unsigned long)left;
        symx_assert(got <= want, "no more than there is is delivered");
        if (got > want) return;
        if (before || os::read_errors) symx_assert(got == want, "everything is delivered when nothing fails");
        bool same = true;
        for (std::size_t i = 0; i < got; i++) same = same & ((unsigned char)buf[i] == m.data[m.pos + (long)i]);
        symx_assert(same, "the bytes delivered are those at the position");
        m.pos += (long)got;
        delete[] buf;
        check_position(f, m);
    }
}

// A write that fails tells how much was written, and the file holds exactly that.
ENTRY write_errors() {
    os::reset();
    Model m;
    memset(m.data, 0, sizeof m.data);
    fill(0, symx_param("len", 3), m);
    {
        file f{"a", read_and_write, if_not_there::fail, 0};
        os::write_errors = 1;
        os::short_writes = 1;
        unsigned ops = symx_param("ops", 2);
        for (unsigned s = 0; s < ops; s++) {
            unsigned n = 1 + choose(4, "count");
            bool could_fail = os::write_errors;
            std::byte b[4];
            for (unsigned i = 0; i < n; i++) b[i] = (std::byte)sym<unsigned char>("written");
            std::size_t put = f.write(b, n);
            symx_assert(put <= n, "no more than there is is written");
            if (put > n) return;
            if (!(could_fail && !os::write_errors)) symx_assert(put == n, "everything is written when nothing fails");
            for (unsigned i = 0; i < put; i++) m.data[m.pos + (long)i] = (unsigned char)b[i];
            m.pos += (long)put;
            if (m.pos > m.size) m.size = m.pos;
            check_position(f, m);
        }
    }
    bool same = os::files[0].size == m.size;
    for (long i = 0; same && i < m.size; i++) same = os::files[0].data[i] == m.data[i];
    symx_assert(same, "the file holds exactly what was reported as written");
}

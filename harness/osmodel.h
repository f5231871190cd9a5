// A small operating system: three files named a, b, c, descriptors with
// offsets, and system calls that may transfer less than asked for.
// Calls of the library are redirected here symbolically and natively.
#pragma once
#include "iomodel.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <filesystem>
#include <string>
#include <sys/stat.h>
#include <unistd.h>

namespace os {
struct File { bool exists; long size; unsigned char data[MODEL_MAX]; long base; }; // data begins at base
struct Desc { bool open; int file; long off; int mode; };
static File files[3];
static Desc fds[12];
static int nfds, opens, closes, bad_calls, creations, transfers;
static unsigned short_reads, short_writes, read_errors, write_errors; // budgets of faults
static unsigned char in_data[MODEL_MAX], out_data[MODEL_MAX];       // descriptors 0, 1 and 2
static long in_size, in_off, out_size, err_size;
static unsigned char err_data[MODEL_MAX];
static int flush_order, last_out_at, last_in_at;
static long out_at_read; // how much had been sent when input was last asked for

static void reset() {
    memset(files, 0, sizeof files);
    memset(fds, 0, sizeof fds);
    nfds = opens = closes = bad_calls = creations = transfers = 0;
    short_reads = short_writes = read_errors = write_errors = 0;
    in_size = in_off = out_size = err_size = 0;
    flush_order = last_out_at = last_in_at = 0;
    out_at_read = -1;
}
static int index(const char *p) {
    if (p[0] >= 'a' && p[0] <= 'c' && p[1] == 0) return p[0] - 'a';
    return -1;
}
static int index(const std::filesystem::path &p) { return index(p.c_str()); }
static Desc *get(int fd) {
    fd -= 10;
    if (fd < 0 || fd >= nfds || !fds[fd].open) { bad_calls++; return nullptr; }
    return &fds[fd];
}
static int open_file(const char *p, int flags) {
    int i = index(p);
    if (i < 0) { errno = ENOENT; return -1; }
    File &f = files[i];
    if (!f.exists) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        f.exists = true;
        f.size = 0;
        creations++;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    int mode = flags & O_ACCMODE;
    if ((flags & O_TRUNC) && mode != O_RDONLY) f.size = 0;
    opens++;
    fds[nfds] = Desc{true, i, (flags & O_APPEND) ? f.size : 0, mode};
    return 10 + nfds++;
}
static long seek(int fd, long off, int whence) {
    if (fd == -1) { errno = EBADF; return -1; }
    Desc *d = get(fd);
    if (!d) { errno = EBADF; return -1; }
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->off : files[d->file].size;
    if (base + off < 0) { errno = EINVAL; return -1; }
    return d->off = base + off;
}
static long cut(long n, unsigned &budget, const char *name) {
    if (n > 1 && budget) {
        unsigned k;
        if (symx_param("unit", 1) == 1) k = choose((unsigned)n, name);
        else { static const unsigned char part[] = {0, 1, 2, 4, 8}; unsigned w = choose(5, name); k = part[w] ? (unsigned)n - (unsigned)n / part[w] : 0; if (part[w] == 1) k = 1; if (k == (unsigned)n) k = 0; }
        if (k) { budget--; symx_cover("partial"); return n - (long)k; }
    }
    return n;
}
static long rd(int fd, void *p, size_t n, long at = -1) {
    transfers++;
    if (fd == 0) {
        last_in_at = ++flush_order;
        out_at_read = out_size;
        long left = in_size - in_off, k = (long)n < left ? (long)n : left;
        if (read_errors && choose(2, "error")) { read_errors--; errno = EIO; return -1; }
        k = cut(k, short_reads, "short read");
        memcpy(p, in_data + in_off, k);
        in_off += k;
        return k;
    }
    if (fd == -1) { errno = EBADF; return -1; }
    Desc *d = get(fd);
    if (!d || d->mode == O_WRONLY) { errno = EBADF; return -1; }
    if (read_errors && choose(2, "error")) { read_errors--; errno = EIO; symx_cover("error"); return -1; }
    File &f = files[d->file];
    long off = at < 0 ? d->off : at;
    if (off < f.base) symx_unsupported("read before the window");
    long left = f.size > off ? f.size - off : 0, k = (long)n < left ? (long)n : left;
    k = cut(k, short_reads, "short read");
    memcpy(p, f.data + (off - f.base), k);
    if (at < 0) d->off += k;
    return k;
}
static long wr(int fd, const void *p, size_t n, long at = -1) {
    transfers++;
    if (fd == 1 || fd == 2) {
        last_out_at = ++flush_order;
        long &size = fd == 1 ? out_size : err_size;
        unsigned char *to = fd == 1 ? out_data : err_data;
        long k = cut((long)n, short_writes, "short write");
        if (write_errors && choose(2, "error")) { write_errors--; errno = EIO; symx_cover("error"); return -1; }
        if (size + k > MODEL_MAX) symx_unsupported("output model full");
        memcpy(to + size, p, k);
        size += k;
        return k;
    }
    if (fd == -1) { errno = EBADF; return -1; }
    Desc *d = get(fd);
    if (!d || d->mode == O_RDONLY) { errno = EBADF; return -1; }
    if (write_errors && choose(2, "error")) { write_errors--; errno = EIO; symx_cover("error"); return -1; }
    File &f = files[d->file];
    long off = at < 0 ? d->off : at, k = cut((long)n, short_writes, "short write");
    if (off < f.base || off - f.base + k > MODEL_MAX) symx_unsupported("file model full");
    for (long i = f.size; i < off; i++) f.data[i - f.base] = 0;
    memcpy(f.data + (off - f.base), p, k);
    if (k && off + k > f.size) f.size = off + k;
    if (at < 0) d->off += k;
    return k;
}
static int shut(int fd) {
    if (fd == -1) { errno = EBADF; return -1; }
    Desc *d = get(fd);
    if (!d) { errno = EBADF; return -1; }
    d->open = false;
    closes++;
    return 0;
}
static bool leaked() { return opens != closes; }
} // namespace os

extern "C" {
__attribute__((used)) int __wrap_open(const char *p, int flags, ...) { return os::open_file(p, flags); }
__attribute__((used)) int __wrap_open64(const char *p, int flags, ...) { return os::open_file(p, flags); }
__attribute__((used)) int __wrap_creat(const char *p, mode_t) { return os::open_file(p, O_CREAT | O_TRUNC | O_WRONLY); }
__attribute__((used)) int __wrap_close(int fd) { return os::shut(fd); }
__attribute__((used)) ssize_t __wrap_read(int fd, void *p, size_t n) { return os::rd(fd, p, n); }
__attribute__((used)) ssize_t __wrap_write(int fd, const void *p, size_t n) { return os::wr(fd, p, n); }
__attribute__((used)) ssize_t __wrap_pread(int fd, void *p, size_t n, off_t at) { return os::rd(fd, p, n, at); }
__attribute__((used)) ssize_t __wrap_pwrite(int fd, const void *p, size_t n, off_t at) { return os::wr(fd, p, n, at); }
__attribute__((used)) off_t __wrap_lseek(int fd, off_t off, int whence) { return os::seek(fd, off, whence); }
__attribute__((used)) off_t __wrap_lseek64(int fd, off_t off, int whence) { return os::seek(fd, off, whence); }
__attribute__((used)) int __wrap_access(const char *p, int) { int i = os::index(p); return i >= 0 && os::files[i].exists ? 0 : -1; }
__attribute__((used)) int __wrap_fsync(int) { return 0; }
__attribute__((used)) int __wrap_ftruncate(int fd, off_t n) {
    os::Desc *d = os::get(fd);
    if (!d) return -1;
    for (long i = os::files[d->file].size; i < n; i++) os::files[d->file].data[i] = 0;
    os::files[d->file].size = n;
    return 0;
}
__attribute__((used)) int __wrap_fstat(int fd, struct stat *st) {
    os::Desc *d = os::get(fd);
    if (!d) return -1;
    memset(st, 0, sizeof *st);
    st->st_size = os::files[d->file].size;
    st->st_mode = S_IFREG | 0777;
    return 0;
}
__attribute__((used)) int __wrap_stat(const char *p, struct stat *st) {
    int i = os::index(p);
    if (i < 0 || !os::files[i].exists) { errno = ENOENT; return -1; }
    memset(st, 0, sizeof *st);
    st->st_size = os::files[i].size;
    st->st_mode = S_IFREG | 0777;
    return 0;
}
// std::filesystem
__attribute__((used)) unsigned long __wrap__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(const std::filesystem::path &p, std::error_code &) {
    int i = os::index(p);
    return i < 0 || !os::files[i].exists ? (unsigned long)-1 : (unsigned long)os::files[i].size;
}
void symx_throw_filesystem_error();
__attribute__((used)) unsigned long __wrap__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathE(const std::filesystem::path &p) {
    int i = os::index(p);
    if (i < 0 || !os::files[i].exists) symx_throw_filesystem_error();
    return (unsigned long)os::files[i].size;
}
__attribute__((used)) std::filesystem::file_status __wrap__ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code(const std::filesystem::path &p, std::error_code &) {
    int i = os::index(p);
    return std::filesystem::file_status{i < 0 || !os::files[i].exists ? std::filesystem::file_type::not_found : std::filesystem::file_type::regular};
}
__attribute__((used)) std::filesystem::file_status __wrap__ZNSt10filesystem6statusERKNS_7__cxx114pathE(const std::filesystem::path &p) {
    int i = os::index(p);
    return std::filesystem::file_status{i < 0 || !os::files[i].exists ? std::filesystem::file_type::not_found : std::filesystem::file_type::regular};
}
// a path is its text here
__attribute__((used)) std::filesystem::path *__wrap__ZNSt10filesystem7__cxx114pathaSERKS1_(std::filesystem::path *self, const std::filesystem::path *o) {
    if (self != o) *reinterpret_cast<std::string *>(self) = o->native();
    return self;
}
__attribute__((used)) std::filesystem::path *__wrap__ZNSt10filesystem7__cxx114pathaSEOS1_(std::filesystem::path *self, std::filesystem::path *o) {
    if (self != o) *reinterpret_cast<std::string *>(self) = o->native();
    return self;
}
}

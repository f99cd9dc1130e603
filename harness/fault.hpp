// Injected faults of file descriptors: calls that transfer less than asked for, are interrupted, or find the disk full.
// The definitions here replace those of the C library in the whole program.
#pragma once
#include "pbt.hpp"
#include <cerrno>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fault {
inline int64_t chunk = 0;      // most bytes of a call, 0: no limit
inline int     interrupt = 0;  // every n-th call is interrupted
inline int64_t room  = -1;     // bytes until the disk is full, -1: never
inline int64_t broken = -1, broken_for = 0; // reads that fail: from this call on, so many
inline bool    armed = false;
inline int64_t calls = 0, faults = 0, twice = 0, reads = 0;

// while it lives, calls fail as said
struct Scope {
    Scope(int64_t chunk_, int interrupt_, int64_t room_ = -1) { chunk = chunk_, interrupt = interrupt_, room = room_, calls = faults = twice = reads = 0, armed = true; }
    ~Scope() { armed = false, broken = -1, broken_for = 0; }
};
inline int64_t piece(int fd, int64_t n, bool write) { // bytes to transfer, or -1
    if (!armed || fd <= 2 || n == 0) return n;
    ++calls;
    if (interrupt > 0 && calls % interrupt == 0) {
        ++faults, errno = EINTR;
        return -1;
    }
    if (!write && broken >= 0 && reads >= broken && reads < broken + broken_for) {
        ++reads, ++faults, errno = EIO;
        return -1;
    }
    if (!write) ++reads;
    int64_t k = chunk > 0 && n > chunk ? chunk : n;
    if (write && room >= 0) {
        if (room == 0) {
            ++faults, errno = ENOSPC;
            return -1;
        }
        k = std::min(k, room), room -= k;
    }
    if (k < n) ++faults;
    return k;
}
inline int open_files() {
    int n = 0;
    if (auto d = opendir("/proc/self/fd")) {
        while (readdir(d)) ++n;
        closedir(d);
    }
    return n;
}
// writes a file and reads it back while calls are short or interrupted, or writes one while the disk is full from some byte on
template <class W, class R> void exercise(pbt::Ctx &c, const std::string &p, W write_it, R read_it) {
    ::unlink(p.c_str());
    write_it();
    read_it();
    int         open_before = open_files();
    struct stat st {};
    int64_t     size = stat(p.c_str(), &st) == 0 ? (int64_t)st.st_size : 0;
    auto        gen  = [&] { return std::pair<int64_t, int>{c.b(2, 3) ? c.i(1, c.b() ? 40 : 3000) : 0, c.b() ? c.i(2, 7) : 0}; };
    auto        w = gen(), r = gen();
    int64_t     left = size > 0 && c.b(1, 3) ? c.u(0, size - 1) : -1;
    c.note("file of ", size, " bytes; writing at most ", w.first, " bytes, interrupting each ", w.second, " of the calls", left >= 0 ? ", room for " + std::to_string(left) : std::string());
    bool        threw = false;
    std::string what;
    int64_t     seen = 0, again = 0;
    {
        Scope s(w.first, w.second, left);
        try {
            write_it();
        } catch (const std::exception &e) { threw = true, what = e.what(); }
        seen += faults, again += twice;
    }
    if (left >= 0) {
        if (!threw) pbt::fail("full", "a file of " + std::to_string(size) + " bytes was written with room for " + std::to_string(left) + " and no error");
        c.label("disk full");
    } else {
        if (threw) pbt::fail("short", "writing in parts failed: " + what);
        c.note("reading at most ", r.first, " bytes, interrupting each ", r.second, " of the calls");
        Scope s(r.first, r.second);
        read_it();
        seen += faults, again += twice;
    }
    int open_after = open_files();
    if (open_after > open_before) pbt::fail("left-open", std::to_string(open_after - open_before) + " files were left open");
    if (again > 0) pbt::fail("closed", "a file was closed more than once");
    ::unlink(p.c_str());
    c.nontrivial(seen > 0);
}
} // namespace fault

extern "C" {
__attribute__((used, visibility("default"))) ssize_t write(int fd, const void *b, size_t n) {
    int64_t k = fault::piece(fd, (int64_t)n, true);
    return k < 0 ? -1 : syscall(SYS_write, fd, b, (size_t)k);
}
__attribute__((used, visibility("default"))) ssize_t read(int fd, void *b, size_t n) {
    int64_t k = fault::piece(fd, (int64_t)n, false);
    return k < 0 ? -1 : syscall(SYS_read, fd, b, (size_t)k);
}
__attribute__((used, visibility("default"))) ssize_t pread(int fd, void *b, size_t n, off_t at) {
    int64_t k = fault::piece(fd, (int64_t)n, false);
    return k < 0 ? -1 : syscall(SYS_pread64, fd, b, (size_t)k, at);
}
__attribute__((used, visibility("default"))) ssize_t writev(int fd, const struct iovec *v, int count) {
    if (!fault::armed || fd <= 2) return syscall(SYS_writev, fd, v, count);
    int64_t all = 0;
    for (int i = 0; i < count; ++i) all += v[i].iov_len;
    int64_t k = fault::piece(fd, all, true), done = 0;
    if (k < 0) return -1;
    for (int i = 0; i < count && done < k; ++i) {
        size_t  m = std::min<int64_t>(v[i].iov_len, k - done);
        ssize_t r = syscall(SYS_write, fd, v[i].iov_base, m);
        if (r < 0) return done > 0 ? done : -1;
        done += r;
        if ((size_t)r < m) break;
    }
    return done;
}
__attribute__((used, visibility("default"))) int close(int fd) {
    int r = syscall(SYS_close, fd);
    if (fault::armed && r < 0 && errno == EBADF) ++fault::twice;
    return r;
}
}

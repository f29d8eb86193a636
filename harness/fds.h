// Descriptor table, files and an io_uring kernel, for the storage back-ends.
// Faults and completion orders are chosen by the solver's paths.
#pragma once
#include "xsym.h"
#include <errno.h>
#include <fcntl.h>
#include <liburing.h>
#include <stdarg.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#define N_FD 16
#define N_FILE 6
#define FILE_MAX 512
struct Fd { bool open; int file; bool user; };
struct File { char data[FILE_MAX]; unsigned char state[FILE_MAX]; size_t n; bool any; uint64_t base; unsigned fsyncs; char path[32]; };
static Fd fdt[N_FD]; static File files[N_FILE]; static int n_files;
static uint64_t faults;                       // how many more calls may fail
static unsigned n_opens, n_closes, n_faults;
static const char* last_path;
static bool fault(const char* what) { if (!faults || !xsym_choose(what, 2)) return false; faults--; n_faults++; return true; }
static int fd_base = 5;    // lowest descriptor handed out
static int fd_new(int file) { for (int i = fd_base; i < N_FD; i++) if (!fdt[i].open) { fdt[i] = {true, file, false}; n_opens++; return i; } xfail("harness: descriptor table full"); }
static int file_new(const char* p) { xassert(n_files < N_FILE, "harness: file table full"); strncpy(files[n_files].path, p, 31); return n_files++; }
static int user_fd() { int f = fd_new(file_new("user")); fdt[f].user = true; n_opens--; return f; }
static unsigned live_fds() { unsigned n = 0; for (auto& f : fdt) n += f.open && !f.user; return n; }
static void fd_close(int fd) {
    xassert(fd >= 0 && fd < N_FD && fdt[fd].open, "close() of a descriptor that is not open");
    xassert(!fdt[fd].user, "the library closes a descriptor of the application");
    fdt[fd].open = false; n_closes++;
}
static bool fd_ok(int fd) { return fd >= 0 && fd < N_FD && fdt[fd].open; }
// Rotation: the old path is renamed, so open() always creates a new file.
extern "C" {
int open(const char* path, int flags, ...) {
    last_path = path;
    if (fault("open interrupted")) { errno = EINTR; return -1; }
    if (fault("open fails")) { errno = EACCES; return -1; }
    xassert((flags & O_ACCMODE) == O_WRONLY || (flags & O_ACCMODE) == O_RDWR, "opened for writing");
    xassert((flags & O_APPEND) && (flags & O_CREAT) && !(flags & O_TRUNC), "opened to append, created if missing, not truncated");
    return fd_new(file_new(path));
}
int dup(int fd) { if (!fd_ok(fd)) { errno = EBADF; return -1; } if (fault("dup fails")) { errno = EMFILE; return -1; } return fd_new(fdt[fd].file); }
int fcntl(int fd, int cmd, ...) { if (!fd_ok(fd)) { errno = EBADF; return -1; } return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? dup(fd) : 0; }
int close(int fd) { fd_close(fd); if (fault("close interrupted")) { errno = EINTR; return -1; } return 0; }
}
static size_t total_written, n_wfail;
static void file_write(int f, uint64_t off, const char* p, size_t n) {   // at an offset, relative to the first one used
    File& F_ = files[f]; xassert(F_.any && off >= F_.base && off - F_.base + n <= FILE_MAX, "write at an offset outside the data logged to this file");
    off -= F_.base;
    for (size_t i = 0; i < n; i++) { xassert(!F_.state[off + i], "a byte of the file is written twice"); F_.state[off + i] = 1; F_.data[off + i] = p[i]; }
    if (off + n > F_.n) F_.n = off + n;
    total_written += n;
}
#ifndef NO_POSIX_WRITE
static bool fsync_open; static int fsync_file;
extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
    xassert(fd_ok(fd), "write() to a descriptor that is not open");
    File& F_ = files[fdt[fd].file]; F_.any = true;
    size_t k = n;
    if (n > 1 && fault("short write")) k = 1;
    else if (fault("write interrupted")) { errno = EINTR; return -1; }
    file_write(fdt[fd].file, F_.n, (const char*)p, k);
    return (ssize_t)k;
}
}
#endif
// ---- io_uring
struct Op { bool live, drain, late; uint64_t data; int opcode, fd, file; const char* addr; unsigned len; uint64_t off; int index; char snap[64]; unsigned seq; };
#define N_OP 16
static Op ops[N_OP]; static unsigned op_seq, n_inflight, ring_live, n_short, n_again, n_werr, n_submits, ring_depth;
#ifndef N_REG
#define N_REG 16
#endif
static struct { struct iovec v[N_REG]; unsigned n; } reg;
static uint64_t cq_faults;                    // how many more completions may be short, EAGAIN or an error
static unsigned max_outstanding; static struct io_uring* the_ring;
static unsigned n_unsubmitted() { return the_ring ? the_ring->sq.sqe_tail - the_ring->sq.sqe_head : 0; }
static bool overlaps_inflight(const char* p, size_t n) {
    for (auto& o : ops) if (o.live && o.opcode == IORING_OP_WRITE_FIXED && p < o.addr + o.len && o.addr < p + n) return true;
    if (the_ring) for (unsigned i = the_ring->sq.sqe_head; i != the_ring->sq.sqe_tail; i++) { auto& s = the_ring->sq.sqes[i & the_ring->sq.ring_mask]; if (s.opcode == IORING_OP_WRITE_FIXED && p < (const char*)s.addr + s.len && (const char*)s.addr < p + n) return true; }
    return false;
}
extern "C" {
int io_uring_queue_init(unsigned entries, struct io_uring* r, unsigned flags) {
    if (fault("io_uring_queue_init fails")) return -EPERM;
    unsigned n = 1; while (n < entries) n *= 2;
    memset(r, 0, sizeof *r);
    r->sq.sqes = (struct io_uring_sqe*)xsym_malloc(n * sizeof(struct io_uring_sqe), 64, 7); memset(r->sq.sqes, 0, n * sizeof(struct io_uring_sqe));
    r->cq.cqes = (struct io_uring_cqe*)xsym_malloc(2 * n * sizeof(struct io_uring_cqe), 64, 7); memset(r->cq.cqes, 0, 2 * n * sizeof(struct io_uring_cqe));
    unsigned* k = (unsigned*)xsym_malloc(32, 64, 7); memset(k, 0, 32);
    r->sq.khead = k; r->sq.ktail = k + 1; r->cq.khead = k + 2; r->cq.ktail = k + 3; r->sq.kflags = k + 4;
    r->sq.ring_entries = n; r->sq.ring_mask = n - 1; r->cq.ring_entries = 2 * n; r->cq.ring_mask = 2 * n - 1; r->flags = flags;
    r->ring_fd = fd_new(file_new("ring")); ring_live++; ring_depth = n; the_ring = r;
    return 0;
}
void io_uring_queue_exit(struct io_uring* r) {
    xassert(ring_live == 1 && r == the_ring, "the ring is released once"); ring_live--;
    unsigned w = 0; for (auto& o : ops) w += o.live && o.opcode == IORING_OP_WRITE_FIXED;
    xassert(w == 0, "no write is in flight when the ring is released");
    for (auto& o : ops) if (o.live) { if (o.opcode == IORING_OP_CLOSE) fd_close(o.fd); o.live = false; }
    fd_close(r->ring_fd); xsym_free(r->sq.sqes, 7); xsym_free(r->cq.cqes, 7); xsym_free(r->sq.khead, 7); the_ring = nullptr;
}
int io_uring_register_buffers(struct io_uring*, const struct iovec* v, unsigned n) {
    if (fault("io_uring_register_buffers fails")) return -ENOMEM;
    xassert(n <= N_REG, "harness: number of buffers"); reg.n = n; for (unsigned i = 0; i < n; i++) reg.v[i] = v[i];
    return 0;
}
int io_uring_submit(struct io_uring* r) {
    unsigned k = 0;
    for (; r->sq.sqe_head != r->sq.sqe_tail; r->sq.sqe_head++, k++) {
        auto& s = r->sq.sqes[r->sq.sqe_head & r->sq.ring_mask];
        Op* o = nullptr; for (auto& x : ops) if (!x.live) { o = &x; break; }
        xassert(o, "harness: operation table large enough");
        bool behind_drain = false; for (auto& x : ops) behind_drain |= x.live && x.drain;
        *o = Op{true, (s.flags & IOSQE_IO_DRAIN) != 0, false, s.user_data, s.opcode, s.fd, -1, (const char*)s.addr, s.len, s.off, s.buf_index, {}, op_seq++};
        n_inflight++; if (n_inflight > max_outstanding) max_outstanding = n_inflight;
        xassert(n_inflight <= r->cq.ring_entries, "more operations outstanding than completions fit in the ring");
        if (o->opcode == IORING_OP_WRITE_FIXED) {
            xassert(o->index >= 0 && (unsigned)o->index < reg.n, "write uses a registered buffer");
            const char* b = (const char*)reg.v[o->index].iov_base;
            xassert(o->addr >= b && o->addr + o->len <= b + reg.v[o->index].iov_len, "write is within its registered buffer");
            xassert(o->len > 0 && o->len <= sizeof o->snap, "write is not empty");
            memcpy(o->snap, o->addr, o->len);
            xassert(fd_ok(o->fd), "write to a descriptor that is not open"); o->file = fdt[o->fd].file; File& f = files[o->file]; if (!f.any) { f.any = true; f.base = o->off; } o->late = behind_drain;
        } else xassert(o->opcode == IORING_OP_CLOSE || o->opcode == IORING_OP_FSYNC, "known operation");
    }
    *r->sq.ktail = r->sq.sqe_tail; *r->sq.khead = r->sq.sqe_tail; n_submits++;
    return (int)k;
}
static bool ready(const Op& o) {
    if (!o.live) return false;
    for (auto& x : ops) if (x.live && x.seq < o.seq && (x.drain || o.drain)) return false;
    return true;
}
static void complete(struct io_uring* r, Op& o) {
    int res = 0;
    if (o.opcode == IORING_OP_WRITE_FIXED) {
        if (o.late) xassert(fd_ok(o.fd) && fdt[o.fd].file == o.file, "the descriptor of a write is closed or reused before the write is issued");
        xassert(memcmp(o.snap, o.addr, o.len) == 0, "a buffer was modified while its write was in flight");
        res = (int)o.len;
        if (cq_faults) switch (xsym_choose("completion", 4)) {
            case 1: if (o.len > 1) { res = (int)xsym_concretize(xsym_range("short", 1, o.len - 1)); cq_faults--; n_short++; } break;
            case 2: res = -EAGAIN; cq_faults--; n_again++; break;
            case 3: res = -EIO; cq_faults--; n_werr++; break;
        }
        if (res > 0) file_write(o.file, o.off, o.snap, (size_t)res);
        else if (res == -EIO) { File& f = files[o.file]; for (unsigned i = 0; i < o.len; i++) { f.state[o.off - f.base + i] = 2; } if (o.off - f.base + o.len > f.n) f.n = o.off - f.base + o.len; n_wfail += o.len; }
    } else if (o.opcode == IORING_OP_CLOSE) { fd_close(o.fd); if (cq_faults && xsym_choose("close result", 2)) { res = -EIO; cq_faults--; } }
    else if (o.opcode == IORING_OP_FSYNC) xassert(fd_ok(o.fd), "fsync of a descriptor that is not open");
    unsigned t = *r->cq.ktail; xassert(t - *r->cq.khead < r->cq.ring_entries, "the completion queue overflows");
    auto& c = r->cq.cqes[t & r->cq.ring_mask]; c.user_data = o.data; c.res = res; c.flags = 0;
    __atomic_store_n(r->cq.ktail, t + 1, __ATOMIC_RELEASE);
    o.live = false; n_inflight--;
}
int __io_uring_get_cqe(struct io_uring* r, struct io_uring_cqe** out, unsigned submit, unsigned wait, sigset_t*) {
    if (submit) io_uring_submit(r);
    if (*r->cq.khead == *r->cq.ktail) {
        if (cq_faults && wait && xsym_choose("wait interrupted", 2)) { cq_faults--; *out = nullptr; return -EINTR; }
        if (!n_inflight) { if (!wait) { *out = nullptr; return -EAGAIN; } xfail("waits for a completion when no operation is in flight: hangs"); }
        unsigned n = 0; Op* rd[N_OP]; for (auto& o : ops) if (ready(o)) rd[n++] = &o;
        xassert(n > 0, "harness: some operation can complete");
        complete(r, *rd[n == 1 ? 0 : xsym_choose("which", n)]);
    }
    *out = &r->cq.cqes[*r->cq.khead & r->cq.ring_mask];
    return 0;
}
int __io_uring_sqring_wait(struct io_uring* r) { io_uring_submit(r); return 0; }
int fsync(int fd) {
    xassert(fd_ok(fd), "fsync of a descriptor that is not open");
    files[fdt[fd].file].fsyncs++;
    for (auto& o : ops) xassert(!o.live || o.opcode != IORING_OP_WRITE_FIXED, "fsync while a write is in flight");
    for (unsigned i = the_ring ? the_ring->sq.sqe_head : 0; the_ring && i != the_ring->sq.sqe_tail; i++) xassert(the_ring->sq.sqes[i & the_ring->sq.ring_mask].opcode != IORING_OP_WRITE_FIXED, "fsync while a write is not submitted");
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
}

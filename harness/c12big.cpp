// C11, C12: files beyond 4 GiB and buffers of the default size and number.  The data itself is not looked at here, only
// where it is written from and to.
#include "common.h"
#include "xtr/io/io_uring_fd_storage.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#include <errno.h>
#include <fcntl.h>
#include <liburing.h>
#include <sys/uio.h>
#include <unistd.h>
extern "C" void xm_stderr(const char*, size_t) {}
static uint64_t done_upto;                        // everything below this file offset was written
static struct { uint64_t off, n; } ahead[4096]; static unsigned n_ahead; static uint64_t base; static bool any;
static void wrote(uint64_t off, uint64_t n)
{
    xassert(off >= done_upto, "a byte of the file is written twice");
    for (unsigned i = 0; i < n_ahead; i++) xassert(off + n <= ahead[i].off || off >= ahead[i].off + ahead[i].n, "a byte of the file is written twice");
    if (off == done_upto) { done_upto += n; for (unsigned i = 0; i < n_ahead;) if (ahead[i].off == done_upto) { done_upto += ahead[i].n; ahead[i] = ahead[--n_ahead]; i = 0; } else i++; }
    else { xassert(n_ahead < 4096, "harness"); ahead[n_ahead++] = {off, n}; }
}
struct Wr { const char* p; uint64_t off; uint64_t n; uint64_t user; };
static Wr fl[4096]; static unsigned n_fl; static uint64_t tick, shorts;
static struct { const char* p; uint64_t off, n; } content[4096]; static unsigned n_content;     // what each submitted buffer's bytes are to become
static void check_content(const char* p, uint64_t off, uint64_t n) { for (unsigned i = 0; i < n_content; i++) if (p >= content[i].p && p < content[i].p + content[i].n && off - base == content[i].off + (p - content[i].p) && n <= content[i].n - (p - content[i].p)) { return; } xsym_log_u64("offset", off); xfail("a buffer is written at another place than its own"); }
static void forget(const char* p) { for (unsigned i = 0; i < n_content; i++) if (content[i].p == p) { content[i] = content[--n_content]; return; } }
extern "C" {
int dup(int) { return 9; }
int fcntl(int, int, ...) { return 9; }
int close(int) { return 0; }
int fsync(int) { return 0; }
int io_uring_queue_init(unsigned entries, struct io_uring* r, unsigned flags) {
    unsigned n = 1; while (n < entries) n *= 2;
    memset(r, 0, sizeof *r);
    r->sq.sqes = (struct io_uring_sqe*)xsym_malloc(n * sizeof(struct io_uring_sqe), 64, 7); memset(r->sq.sqes, 0, n * sizeof(struct io_uring_sqe));
    r->cq.cqes = (struct io_uring_cqe*)xsym_malloc(2 * n * sizeof(struct io_uring_cqe), 64, 7); memset(r->cq.cqes, 0, 2 * n * sizeof(struct io_uring_cqe));
    unsigned* k = (unsigned*)xsym_malloc(32, 64, 7); memset(k, 0, 32);
    r->sq.khead = k; r->sq.ktail = k + 1; r->cq.khead = k + 2; r->cq.ktail = k + 3; r->sq.kflags = k + 4;
    r->sq.ring_entries = n; r->sq.ring_mask = n - 1; r->cq.ring_entries = 2 * n; r->cq.ring_mask = 2 * n - 1; r->flags = flags; r->ring_fd = 11;
    return 0;
}
void io_uring_queue_exit(struct io_uring* r) { xassert(n_fl == 0, "no write is in flight when the ring is released"); xsym_free(r->sq.sqes, 7); xsym_free(r->cq.cqes, 7); xsym_free(r->sq.khead, 7); }
int io_uring_register_buffers(struct io_uring*, const struct iovec*, unsigned) { return 0; }
int io_uring_submit(struct io_uring* r) {
    unsigned k = 0;
    for (; r->sq.sqe_head != r->sq.sqe_tail; r->sq.sqe_head++, k++) {
        auto& s = r->sq.sqes[r->sq.sqe_head & r->sq.ring_mask];
        xassert(s.opcode == IORING_OP_WRITE_FIXED || s.opcode == IORING_OP_WRITE, "only writes"); xassert(n_fl < r->cq.ring_entries, "more operations outstanding than completions fit in the ring");
        if (!any) { any = true; base = s.off; }
        check_content((const char*)s.addr, s.off, s.len);
        fl[n_fl++] = {(const char*)s.addr, s.off - base, s.len, s.user_data};
    }
    *r->sq.ktail = r->sq.sqe_tail; *r->sq.khead = r->sq.sqe_tail;
    return (int)k;
}
int __io_uring_get_cqe(struct io_uring* r, struct io_uring_cqe** out, unsigned submit, unsigned wait, sigset_t*) {
    if (submit) io_uring_submit(r);
    if (*r->cq.khead == *r->cq.ktail) {
        if (!n_fl) { if (!wait) { *out = nullptr; return -EAGAIN; } xfail("waits for a completion when no operation is in flight: hangs"); }
        // completions in a fixed irregular order, some short, some to be tried again
        const unsigned i = tick * 7 % n_fl; Wr w = fl[i]; fl[i] = fl[--n_fl]; tick++;
        int res = (int)w.n; if (tick % 5 == 0 && w.n > 1) { res = (int)(w.n / 3 + 1); shorts++; } else if (tick % 11 == 0) res = -EAGAIN;
        if (res > 0) wrote(w.off, (uint64_t)res);
        unsigned t = *r->cq.ktail; auto& c = r->cq.cqes[t & r->cq.ring_mask]; c.user_data = w.user; c.res = res; c.flags = 0;
        __atomic_store_n(r->cq.ktail, t + 1, __ATOMIC_RELEASE);
    }
    *out = &r->cq.cqes[*r->cq.khead & r->cq.ring_mask];
    return 0;
}
int __io_uring_sqring_wait(struct io_uring* r) { io_uring_submit(r); return 0; }
static const char* wp; static uint64_t wn;      // what remains of the buffer submitted
ssize_t write(int, const void* p, size_t n) { xassert(p == wp && n <= wn, "the rest of the buffer is written"); tick++; size_t k = tick % 3 == 0 && n > 1 ? n / 2 + 1 : n; if (tick % 7 == 0) { errno = EINTR; return -1; } wp += k; wn -= k; done_upto += k; return (ssize_t)k; }
}
static void drive(xtr::storage_interface& st, bool ring, uint64_t cap)
{
    static const unsigned every[] = {37, 301, 1500}; const unsigned period = every[xsym_choose("period", 3)]; uint64_t total = 0; unsigned k = 0;
    while (total < xsym_param("total", 0x110000000ull)) {
        auto sp = st.allocate_buffer(); xassert(sp.size() == cap, "the capacity asked for");
        const uint64_t n = k % 4 == 3 ? cap - k % 3 : cap;
        if (ring) { forget(sp.data()); xassert(n_content < 4096, "harness"); content[n_content++] = {sp.data(), total, n}; for (unsigned i = 0; i < n_fl; i++) xassert(fl[i].p + fl[i].n <= sp.data() || fl[i].p >= sp.data() + cap, "a buffer with a write in flight is handed out"); }
        else { wp = sp.data(); wn = n; }
        sp[0] = 'a'; sp[n - 1] = 'z';
        st.submit_buffer(sp.data(), n); total += n; k++;
        if (!ring) xassert(wn == 0 && done_upto == total, "the whole buffer is written");
        if (k % 13 == 0) st.flush();
        if (k % period == 0) { st.flush(); st.sync(); xassert(n_fl == 0 && done_upto == total && !n_ahead, "sync() returns when everything is written"); }
    }
    st.flush(); st.sync(); xassert(n_fl == 0 && done_upto == total && !n_ahead, "everything is written once"); if (total >> 32) xsym_reach("over 4 GiB"); xsym_reach("done");
}
extern "C" void c12_big()
{
    static const uint64_t qs[] = {3, 4, 8}; const uint64_t q = qs[xsym_choose("queue", 3)], b = 1 + xsym_choose("batch", 2) * 4;
    const uint64_t cap = 4 << 20; xtr::io_uring_fd_storage st(7, "", cap, q, b); drive(st, true, cap);
}
// the default configuration
extern "C" void c12_default() { xtr::io_uring_fd_storage st(7); drive(st, true, 64 * 1024); }
extern "C" void c11_big() { static const uint64_t cs[] = {65535, 65536, 65537, 4 << 20}; const uint64_t cap = cs[xsym_choose("capacity", 4)]; xtr::posix_fd_storage st(7, "", cap); drive(st, false, cap); }

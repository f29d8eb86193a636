// C11: the POSIX back-end writes every byte once, in order, despite partial writes.
#include "common.h"
#include "xtr/io/posix_fd_storage.hpp"
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#define F "c11.cpp"
static struct { char out[OUT_MAX]; size_t n; unsigned writes, fsyncs; size_t n_at_fsync; int err; bool failed; unsigned reports; } w;
static const int USER_FD = 7, DUP_FD = 9;
static unsigned n_short, n_eintr, n_err; static bool last_fsync_done; static size_t attempted;
extern "C" {
int dup(int fd) { return fd == USER_FD ? DUP_FD : (errno = EBADF, -1); }
int fcntl(int fd, int cmd, ...) { return fd == USER_FD && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) ? DUP_FD : 0; }
int close(int fd) { xassert(fd == DUP_FD, "only the storage's own descriptor is closed"); return 0; }
ssize_t write(int fd, const void* p, size_t n)
{
    xassert(fd == DUP_FD, "data is written to the storage's descriptor");
    xassert(xsym_valid(p, n) && n > 0, "write() is given readable, non-empty data");
    w.writes++;
    switch (w.writes > xsym_param("depth", 4) ? 0 : xsym_choose("write", 4)) {
        case 1: { if (n < 2) break; size_t k = n <= 6 ? xsym_concretize(xsym_range("short", 1, n - 1)) : (xsym_choose("short", 3) * (n - 2) / 2) + 1; xassert(w.n + k <= OUT_MAX, "harness"); memcpy(w.out + w.n, p, k); w.n += k; n_short++; xsym_reach("short write"); return (ssize_t)k; }
        case 2: errno = EINTR; n_eintr++; xsym_reach("interrupted"); return -1;
        case 3: errno = xsym_choose("errno", 2) ? ENOSPC : EIO; n_err++; w.failed = true;  xsym_reach("error"); return -1;
    }
    xassert(w.n + n <= OUT_MAX, "harness"); memcpy(w.out + w.n, p, n); w.n += n; return (ssize_t)n;
}
int fsync(int fd) {
    xassert(fd == DUP_FD, "sync() reaches fsync on the storage's descriptor");
    w.fsyncs++;
    if (w.fsyncs < 3 && xsym_choose("fsync eintr", 2)) { errno = EINTR; return -1; }
    last_fsync_done = true; w.n_at_fsync = w.n;
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
void xm_stderr(const char*, size_t n) { if (n) w.reports++; }
}
// The storage on its own: symbolic contents, sizes and write() results.
extern "C" void c11_storage()
{
    static char exp[256]; size_t en = 0;
    {
        xtr::posix_fd_storage st(USER_FD, "", xsym_param("bufsz", 16));
        for (uint64_t i = 0; i < xsym_param("k", 2); i++) {
            auto sp = st.allocate_buffer();
            xassert(sp.size() > 0, "a buffer is provided");
            size_t n = xsym_concretize(xsym_range("n", 1, sp.size() < 5 ? sp.size() : 5));
            xsym_bytes(sp.data(), n, "data"); memcpy(exp + en, sp.data(), n);
            size_t n0 = w.n;
            for (unsigned tries = 0;; tries++) {
                w.failed = false; unsigned r0 = w.reports; bool threw = false;
                try { st.submit_buffer(sp.data(), n); } catch (const std::exception&) { threw = true; }
                if (!w.failed) { xassert(!threw, "no failure, no exception"); xassert(w.n == n0 + n, "the whole buffer is written, once"); en += n; break; }
                xassert(threw || w.reports > r0, "a write error is reported");
                xassert(w.n - n0 <= n, "nothing beyond the buffer is written");
                // after an error the buffer is given up, or submitted again with more data in it
                if (tries == 1 || xsym_choose("give up", 2)) { en += w.n - n0; break; }
                if (n < sp.size()) { xsym_bytes(sp.data() + n, 1, "data"); memcpy(exp + en + n, sp.data() + n, 1); n++; }
            }
            xassert(same(w.out, w.n, exp, en), "the bytes written are exactly the bytes submitted, in order");
            if (xsym_choose("sync", 2)) { last_fsync_done = false; st.sync(); xassert(last_fsync_done && w.n_at_fsync == w.n, "sync() reaches fsync after all data, retrying if interrupted"); }
            st.flush();
        }
    }
    xassert(same(w.out, w.n, exp, en), "destruction writes nothing");
    xsym_reach("done");
}
// The same under the logger.
extern "C" void c11_logger()
{
    static Text t;
    cpu_init();
    auto lg = std::make_unique<xtr::logger>(xtr::storage_interface_ptr(new xtr::posix_fd_storage(USER_FD, "", 64)), test_clock(), xtr::null_command_path);
    {
        auto s = lg->get_sink("N");
        XTR_LOG(s, "first"); t.line("I ", "N", F, __LINE__) << "first\n";
        s.sync();
        xsym_atomic_begin();         // a failed buffer may be tried again at any time
        xassert(last_fsync_done, "sync() reaches fsync");
        if (!w.failed) { xassert(same(w.out, w.n, t.s, t.n), "written before sync() returns"); xassert(w.n_at_fsync == t.n, "fsync after the data"); }
        xsym_atomic_end();
        XTR_LOG(s, "second"); t.line("I ", "N", F, __LINE__) << "second\n";
    }
    lg.reset();
    if (!w.failed) xassert(same(w.out, w.n, t.s, t.n), "the file contains exactly what was logged");
    else {
        xassert(w.reports > 0, "an error is reported on stderr");
        // a failed buffer is tried again later or given up
        size_t i = 0; for (size_t j = 0; i < w.n && j < t.n; j++) if (w.out[i] == t.s[j]) i++;
        if (i != w.n) show("file: ", w.out, w.n);
        xassert(i == w.n, "nothing is written twice or out of order after an error");
    }
    xsym_reach("done");
}

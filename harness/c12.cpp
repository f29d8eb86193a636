// C12: the io_uring back-end writes every byte once at the right offset.
#include "common.h"
#include "xtr/io/io_uring_fd_storage.hpp"
#include "fds.h"
static unsigned reports;
extern "C" void xm_stderr(const char*, size_t n) { if (n) reports++; }
struct Exp { char d[FILE_MAX]; size_t n; };
static Exp ex[N_FILE];
static void check_file(int f, bool final) {
    File& x = files[f];
    for (size_t i = 0; i < ex[f].n; i++) {
        if (i < x.n && x.state[i] == 1) xassert(x.data[i] == ex[f].d[i], "a byte of the file is not the byte logged at that place");
        else if (final) xassert(i < x.n && x.state[i] == 2, "a byte logged was not written");
    }
    xassert(x.n <= ex[f].n, "the file contains more than was logged");
}
extern "C" void c12_storage()
{
    const uint64_t q = 1 + xsym_choose("queue", xsym_param("maxq", 3)), batch = 1 + xsym_choose("batch", xsym_param("maxb", 4));
    cq_faults = xsym_param("faults", 1);
    int ufd = user_fd(), cur = fdt[ufd].file;
    {
        xtr::io_uring_fd_storage st(ufd, "path", 4, q, batch);
        const int ringfile = n_files - 1; (void)ringfile;
        for (uint64_t i = 0; i < xsym_param("k", 4); i++)
            switch (xsym_choose("op", xsym_param("reopen", 0) ? 4 : 3)) {
                case 0: {
                    auto sp = st.allocate_buffer();
                    xassert(sp.size() == 4, "buffer capacity");
                    xassert(!overlaps_inflight(sp.data(), sp.size()), "a buffer with a write in flight is handed out");
                    size_t n = 1 + xsym_choose("n", 2) * 3;
                    xsym_bytes(sp.data(), n, "data"); memcpy(ex[cur].d + ex[cur].n, sp.data(), n); ex[cur].n += n;
                    st.submit_buffer(sp.data(), n);
                    break;
                }
                case 1: st.flush(); xassert(n_unsubmitted() == 0, "flush() submits everything prepared"); break;
                case 2: {
                    st.flush(); unsigned s0 = files[cur].fsyncs; st.sync();
                    unsigned w = 0; for (auto& o : ops) w += o.live && o.opcode == IORING_OP_WRITE_FIXED;
                    xassert(w == 0, "sync() returned with a write in flight");
                    check_file(cur, true);
                    xassert(files[cur].fsyncs == s0 + 1, "sync() reaches fsync of the current file");
                    xsym_reach("synced"); break;
                }
                case 3: { st.flush(); int r = st.reopen(); xassert(r == 0, "reopen succeeds"); cur = n_files - 1; xsym_reach("reopened"); break; }
            }
    }
    for (int f = 0; f < n_files; f++) check_file(f, true);
    xassert(live_fds() == 0, "every descriptor the storage opened is closed");
    if (n_short) xsym_reach("short write"); if (n_again) xsym_reach("EAGAIN"); if (n_werr) { xsym_reach("error"); xassert(reports > 0, "a write error is reported on stderr"); }
    xsym_reach("done");
}
// The same under the logger.
#define F "c12.cpp"
extern "C" void c12_logger()
{
    cq_faults = xsym_param("faults", 1);
    static Text t; int ufd = user_fd(), f = fdt[ufd].file; cpu_init();
    auto lg = std::make_unique<xtr::logger>(xtr::storage_interface_ptr(new xtr::io_uring_fd_storage(ufd, "", 24, 2, 2)), test_clock(), xtr::null_command_path);
    {
        auto s = lg->get_sink("N");
        XTR_LOG(s, "first"); t.line("I ", "N", F, __LINE__) << "first\n";
        if (xsym_choose("sync", 2)) s.sync();
        XTR_LOG(s, "second {}", 'x'); t.line("I ", "N", F, __LINE__) << "second x\n";
    }
    lg.reset();
    memcpy(ex[f].d, t.s, t.n); ex[f].n = t.n;
    check_file(f, true);
    xassert(live_fds() == 0, "every descriptor the storage opened is closed");
    xsym_reach("done");
}

// C13: log rotation and descriptor ownership.
#include "common.h"
#include "xtr/io/fd_storage.hpp"
#include "xtr/io/io_uring_fd_storage.hpp"
#include "xtr/io/posix_fd_storage.hpp"
#define N_REG 1024
#include "fds.h"
#include <sys/syscall.h>
static bool no_uring; static unsigned reports;
static FILE* const STREAM = (FILE*)0x3003; static int stream_fd;
extern "C" {
long syscall(long nr, ...) { xassert(nr == __NR_io_uring_setup, "io_uring probe"); errno = no_uring ? ENOSYS : EFAULT; return -1; }
int fileno(FILE* f) { xassert(f == STREAM, "stream"); return stream_fd; }
void xm_stderr(const char*, size_t n) { if (n) reports++; }
}
struct Exp { char d[FILE_MAX]; size_t n; };
static Exp ex[N_FILE];
static void check_file(int f) {
    File& x = files[f];
    xassert(x.n == ex[f].n, "a file contains exactly what was logged while it was current");
    for (size_t i = 0; i < ex[f].n; i++) xassert(x.state[i] == 1 && x.data[i] == ex[f].d[i], "a file contains exactly what was logged while it was current");
}
static bool concrete_data;
static void put(xtr::storage_interface& st, int cur, bool flush) {
    auto sp = st.allocate_buffer();
    size_t n = concrete_data ? 3 : xsym_concretize(xsym_range("n", 1, 2));
    if (concrete_data) memcpy(sp.data(), "abc", 3); else xsym_bytes(sp.data(), n, "data"); memcpy(ex[cur].d + ex[cur].n, sp.data(), n); ex[cur].n += n;
    st.submit_buffer(sp.data(), n);
    if (flush) st.flush();
}
// Any history of writes and reopens (some failing) on either back-end.
static void history(xtr::storage_interface& st, int cur, bool has_path, const char* path)
{
    for (uint64_t i = 0; i < xsym_param("k", 4); i++)
        switch (xsym_choose("op", 3)) {
            case 0: put(st, cur, xsym_choose("flush", 2)); break;
            case 1: st.flush(); st.sync(); check_file(cur); break;
            case 2: {
                st.flush();                        // as the reopen command does
                const unsigned o0 = n_opens, l0 = live_fds(), f0 = n_faults; const int nf = n_files;
                const int r = st.reopen();
                if (!has_path) { xassert(r != 0, "reopen without a path is an error"); xassert(n_opens == o0 && live_fds() == l0, "reopen without a path changes nothing"); xsym_reach("no path"); break; }
                xassert(strcmp(last_path, path) == 0, "the reopen path is opened");
                if (n_files == nf) { xassert(r != 0 && n_faults > f0, "an open failure is returned"); xassert(live_fds() == l0, "a failed reopen keeps the old file"); xsym_reach("reopen failed"); }
                else { xassert(r == 0, "reopen reports success"); cur = n_files - 1; xsym_reach("reopened"); }
            }
        }
}
extern "C" void c13_storage()
{
    const bool has_path = xsym_choose("path", 2), uring = xsym_choose("uring", 2);
    int u = user_fd(), cur = fdt[u].file; fd_base = (int)xsym_param("fd0", 5);
    {
        std::unique_ptr<xtr::storage_interface> st;
        if (uring) st.reset(new xtr::io_uring_fd_storage(u, has_path ? "the path" : "", 2, 2, 2)); else st.reset(new xtr::posix_fd_storage(u, has_path ? "the path" : "", 2));
        faults = xsym_param("faults", 1);
        history(*st, cur, has_path, "the path");
        faults = 0;
    }
    for (int f = 0; f < n_files; f++) check_file(f);
    xassert(live_fds() == 0, "every descriptor opened is closed, once");
    xassert(fdt[u].open, "the application's descriptor is left open");
    xsym_reach("done");
}
// Construction from a path, descriptor or stream, with failing calls, with and without io_uring.
extern "C" void c13_make()
{
    no_uring = xsym_choose("no io_uring", 2);
    const uint64_t how = xsym_choose("how", 3);
    faults = xsym_param("faults", 2); concrete_data = true;
    int u = user_fd(); stream_fd = u; fd_base = xsym_choose("standard descriptors closed", 2) ? 0 : 5; const bool has_path = how == 0 || xsym_choose("path", 2);
    {
        xtr::storage_interface_ptr st; int nf = n_files; bool threw = false;
        try {
            if (how == 0) st = xtr::make_fd_storage("the path");
            else if (how == 1) st = xtr::make_fd_storage(u, has_path ? "the path" : "");
            else st = xtr::make_fd_storage(STREAM, has_path ? "the path" : "");
        } catch (const std::exception&) { threw = true; }
        if (threw) {
            xassert(n_faults > 0, "construction fails only if a call fails");
            xassert(live_fds() == 0, "a failed construction leaves no descriptor open");
            xsym_reach("failed");
        } else {
            const int cur = how == 0 ? nf : fdt[u].file;
            xassert(live_fds() == 1 + ring_live, "one descriptor is held for the file");
            faults = 0;
            put(*st, cur, true);
            const int r = st->reopen();
            if (has_path) { xassert(r == 0 && strcmp(last_path, "the path") == 0, "the file can be reopened"); put(*st, n_files - 1, true); xsym_reach("reopened"); }
            else xassert(r != 0, "reopen without a path is an error");
            if (ring_live) xsym_reach("io_uring"); else xsym_reach("posix");
        }
        st.reset();
    }
    faults = 0;
    for (int f = 0; f < n_files; f++) check_file(f);
    xassert(live_fds() == 0, "every descriptor opened is closed, once");
    xassert(fdt[u].open, "the application's descriptor is left open");
    xsym_reach("done");
}

// The descriptor class itself: any history of moves, assignments, resets and releases.
#include "xtr/detail/file_descriptor.hpp"
#include <optional>
extern "C" void c13_fd()
{
    using xtr::detail::file_descriptor;
    fd_base = 0; const int f = file_new("f");
    std::optional<file_descriptor> o[3]; int want[3] = {-1, -1, -1};
    auto get = [&] { return fd_new(f); };
    for (uint64_t i = 0; i < xsym_param("k", 4); i++) {
        const int a = (int)xsym_choose("a", 3), b = (int)xsym_choose("b", 3);
        if (!o[a]) switch (xsym_choose("make", 3)) {
            case 0: o[a].emplace(); want[a] = -1; break;
            case 1: { const int d = get(); o[a].emplace(d); want[a] = d; break; }
            case 2: if (!o[b]) xsym_end(); o[a].emplace(std::move(*o[b])); want[a] = want[b]; want[b] = -1; xsym_reach("moved"); break;
        } else switch (xsym_choose("op", 4)) {
            case 0: { const int d = xsym_choose("none", 2) ? -1 : get(); o[a]->reset(d); want[a] = d; break; }
            case 1: { const int d = o[a]->release(); xassert(d == want[a], "release gives up the descriptor"); want[a] = -1; if (d != -1) fdt[d].user = true; break; }
            case 2: if (!o[b]) xsym_end(); { *o[a] = std::move(*o[b]); if (a != b) { int x = want[a]; want[a] = want[b]; want[b] = o[b]->get(); xassert(want[b] == -1 || want[b] == x, "an assigned descriptor moves"); } xsym_reach("assigned"); } break;
            case 3: o[a].reset(); want[a] = -1; break;
        }
        for (int j = 0; j < 3; j++) if (o[j]) { xassert(o[j]->get() == want[j], "the right descriptor is held"); xassert(o[j]->is_open() == (want[j] != -1) && bool(*o[j]) == (want[j] != -1), "is_open() is right"); xassert(want[j] == -1 || fdt[want[j]].open, "a descriptor held is open"); }
        unsigned n = 0; for (int j = 0; j < 3; j++) n += o[j] && want[j] != -1;
        xassert(live_fds() == n, "every descriptor not held by an object has been closed");
    }
    for (auto& x : o) x.reset();
    xassert(live_fds() == 0, "every descriptor is closed, once");
    xsym_reach("done");
}

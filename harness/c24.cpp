// C24: socket paths and fixed-size string fields.
#include "xsym.h"
#include "xtr/command_path.hpp"
#include "xtr/detail/commands/command_dispatcher.hpp"
#include "xtr/detail/commands/connect.hpp"
#include "xtr/detail/strzcpy.hpp"
#include <errno.h>
#include <stdlib.h>
#include <string>
#include <string_view>
#include <string.h>
#include <unistd.h>
// ---- strzcpy: every source length and content, several field sizes
template<size_t N> static void copy(size_t n, const char* src, uint64_t how)
{
    struct { char before[4]; char dst[N]; char after[4]; } x; memset(&x, 0x5a, sizeof x);
    if (how == 0) xtr::detail::strzcpy(x.dst, std::string_view(src, n)); else xtr::detail::strzcpy(x.dst, std::string(src, n));
    const size_t k = n < N - 1 ? n : N - 1;
    xassert(memcmp(x.dst, src, k) == 0, "the field holds the string, or as much of it as fits");
    xassert(x.dst[k] == 0, "the field is terminated");
    for (int i = 0; i < 4; i++) xassert(x.before[i] == 0x5a && x.after[i] == 0x5a, "nothing outside the field is written");
    xsym_reach(k < n ? "truncated" : "fits");
}
extern "C" void c24_copy()
{
    const size_t n = (size_t)xsym_choose("length", xsym_param("n", 12) + 1);
    char* src = (char*)xsym_malloc(n ? n : 1, 1, 0); xsym_bytes(src, n, "source");
    const uint64_t how = xsym_choose("how", 2);
    switch (xsym_choose("size", 4)) { case 0: copy<1>(n, src, how); break; case 1: copy<2>(n, src, how); break; case 2: copy<8>(n, src, how); break; case 3: copy<10>(n, src, how); break; }
}
// ---- the default path
static const char* env_rt; static const char* env_tmp; static bool rt_ok, rt_exists; static char rundir[64]; static uint32_t the_uid; static long the_pid;
static int can(const char* p, int mode) { const bool is_rt = strcmp(p, rundir) == 0; if (is_rt && (rt_ok || (rt_exists && !(mode & W_OK)))) return 0; errno = is_rt && rt_exists ? EACCES : ENOENT; return -1; }
extern "C" {
char* getenv(const char* n) { if (strcmp(n, "XDG_RUNTIME_DIR") == 0) return (char*)env_rt; if (strcmp(n, "TMPDIR") == 0) return (char*)env_tmp; return nullptr; }
char* secure_getenv(const char* n) { return getenv(n); }
int access(const char* p, int mode) { return can(p, mode); }
int euidaccess(const char* p, int mode) { return can(p, mode); }
int eaccess(const char* p, int mode) { return can(p, mode); }
int faccessat(int, const char* p, int mode, int) { return can(p, mode); }
uid_t geteuid() { return the_uid; }
uid_t getuid() { return the_uid + 1; }
pid_t getpid() { return (pid_t)the_pid; }
}
static char* num(char* p, unsigned long v) { char t[24]; int i = 0; do t[i++] = (char)('0' + v % 10); while (v /= 10); while (i) *p++ = t[--i]; *p = 0; return p; }
static char* symstr(const char* name, bool& set)
{
    const uint64_t n = xsym_choose(name, xsym_param("n", 4) + 2); set = n != 0; if (!set) return nullptr;
    char* p = (char*)xsym_malloc(n, 1, 0); xsym_bytes(p, n - 1, name); for (uint64_t i = 0; i + 1 < n; i++) xsym_assume(p[i] != 0); p[n - 1] = 0; return p;
}
static void rt_init() { switch (xsym_choose("runtime directory", 3)) { case 0: rt_ok = rt_exists = true; break; case 1: rt_ok = false; rt_exists = true; break; case 2: rt_ok = rt_exists = false; break; } }
static void env_init()
{
    static const uint32_t uids[] = {0, 1000, 4294967295u}; static const long pids[] = {1, 42, 4194304};
    bool s1, s2; env_rt = symstr("XDG_RUNTIME_DIR", s1); env_tmp = symstr("TMPDIR", s2);
    the_uid = uids[xsym_choose("uid", 3)]; the_pid = pids[xsym_choose("pid", 3)];
    if (env_rt) strcpy(rundir, env_rt); else { strcpy(rundir, "/run/user/"); num(rundir + 10, the_uid); }
    xsym_reach(env_rt ? "set" : "unset");
}
static void want(const std::string& got, char* serial)      // checks the path; returns its last component's number
{
    const char* dir = rt_ok ? rundir : env_tmp ? env_tmp : "/tmp"; const size_t n = strlen(dir);
    char rest[40]; strcpy(rest, "/xtrctl."); char* e = num(rest + 8, (unsigned long)the_pid); *e++ = '.'; *e = 0; const size_t m = strlen(rest);
    xassert(got.size() > n + m && memcmp(got.data(), dir, n) == 0, "the path is in the runtime directory if that is accessible, else in the temporary directory");
    xassert(memcmp(got.data() + n, rest, m) == 0, "the name identifies the process");
    const size_t k = got.size() - n - m; xassert(k >= 1 && k < 12, "followed by a serial number");
    for (size_t i = 0; i < k; i++) { serial[i] = got[n + m + i]; xassert(serial[i] >= '0' && serial[i] <= '9', "followed by a serial number"); } serial[k] = 0;
    xsym_reach(rt_ok ? "runtime directory" : "temporary directory");
}
extern "C" void c24_default()
{
    env_init(); char a[16], b[16], c[16];
    rt_init(); want(xtr::default_command_path(), a); rt_init(); want(xtr::default_command_path(), b); want(xtr::default_command_path(), c);
    xassert(strcmp(a, b) && strcmp(a, c) && strcmp(b, c), "every call gives another path");
    xsym_reach("done");
}
static std::string paths[3];
static void caller(void* i) { paths[(uintptr_t)i] = xtr::default_command_path(); }
extern "C" void c24_threads()
{
    the_uid = 1; the_pid = 1; rt_init(); strcpy(rundir, "/run/user/1");
    uint64_t t1 = xsym_spawn(caller, (void*)1), t2 = xsym_spawn(caller, (void*)2); caller(nullptr); xsym_join(t1); xsym_join(t2);
    char s[3][16]; for (int i = 0; i < 3; i++) want(paths[i], s[i]);
    xassert(strcmp(s[0], s[1]) && strcmp(s[0], s[2]) && strcmp(s[1], s[2]), "concurrent callers get different paths");
    xsym_reach("done");
}
// ... however many there are
static uint8_t used[1 << 17];
extern "C" void c24_many()
{
    the_uid = 1; the_pid = 1; rt_init(); strcpy(rundir, "/run/user/1");
    for (uint64_t i = 0, n = xsym_param("paths", 300); i < n; i++) {
        char s[16]; want(xtr::default_command_path(), s); uint64_t v = 0; for (char* p = s; *p; p++) v = v * 10 + (*p - '0');
        xassert(s[0] != '0' || !s[1], "a number without leading zeros"); xassert(v < 8 * sizeof used, "harness: range of the numbers"); xassert(!(used[v / 8] >> v % 8 & 1), "every call gives another path"); used[v / 8] |= 1 << v % 8;
    }
    xsym_reach("done");
}
// ---- connecting
static bool fd_open, connected; static unsigned closes; static size_t plen; static char pbuf[160]; static bool refuse, refuse_listen, listening; static unsigned unlinks, reports;
extern "C" {
int socket(int d, int t, int) { xassert(d == AF_LOCAL && (t & 0xf) == SOCK_SEQPACKET, "a local packet socket"); if (xsym_choose("socket fails", 2)) { errno = EMFILE; return -1; } fd_open = true; return 7; }
int close(int fd) { xassert(fd == 7 && fd_open, "only the open socket is closed"); fd_open = false; closes++; return 0; }
int bind(int fd, const struct sockaddr* sa, socklen_t n) { return connect(fd, sa, n); }
int listen(int fd, int) { xassert(fd == 7 && fd_open && connected, "the bound socket listens"); if (refuse_listen) { errno = EADDRINUSE; return -1; } listening = true; return 0; }
int unlink(const char* p) { xassert(connected && !refuse && strlen(p) == plen && memcmp(p, pbuf, plen) == 0, "only the socket that was created is removed"); unlinks++; return 0; }
void xm_stderr(const char*, size_t k) { if (k) reports++; }
int connect(int fd, const struct sockaddr* sa, socklen_t n)
{
    xassert(fd == 7 && fd_open, "the socket is connected"); xassert(n <= sizeof(sockaddr_un) && xsym_valid(sa, n) && sa->sa_family == AF_LOCAL, "a local address");
    const char* p = ((const sockaddr_un*)sa)->sun_path; const size_t pn = n - offsetof(sockaddr_un, sun_path);
    xassert(plen < sizeof(sockaddr_un::sun_path), "a path that does not fit is refused");
    xassert(pn >= plen, "the whole path is passed");
    xassert(memcmp(p, pbuf, plen) == 0, "the address is the path given");
    if (plen && pbuf[0]) xassert(pn == plen || p[plen] == 0, "the path is terminated");
    else for (size_t i = plen; i < pn; i++) xassert(p[i] == 0, "an abstract address is padded with zeros, as the logger's is");
    connected = true; if (refuse) { errno = ECONNREFUSED; return -1; } return 0;
}
}
extern "C" void c24_connect()
{
    static const uint8_t lens[] = {0, 1, 2, 5, 50, 105, 106, 107, 108, 109, 110, 130, 150}; plen = lens[xsym_choose("length", 13)];
    char* p = (char*)xsym_malloc(plen ? plen : 1, 1, 0); xsym_bytes(p, plen, "path"); memcpy(pbuf, p, plen); refuse = xsym_choose("refuse", 2);
    {
        xtr::detail::file_descriptor fd = xtr::detail::command_connect(std::string_view(p, plen));
        if (fd) { xassert(connected && !refuse && fd_open && fd.get() == 7, "the connected socket is returned"); xsym_reach("connected"); }
        else if (plen >= sizeof(sockaddr_un::sun_path)) { xassert(!connected && !fd_open, "a path that does not fit is refused"); if (closes) xassert(errno == ENAMETOOLONG, "and reported"); xsym_reach("too long"); }
        else { xassert(!fd_open, "a failed connection leaves no socket open"); if (connected) xassert(errno == ECONNREFUSED, "the error is reported"); xsym_reach("failed"); }
    }
    xassert(!fd_open, "the descriptor is closed, once, when no longer used");
    xsym_reach("done");
}

// the logger's end: a path that does not fit is refused, any other one is used as it is
extern "C" void c24_listen()
{
    static const uint8_t lens[] = {1, 2, 5, 50, 105, 106, 107, 108, 109, 110, 130, 150}; plen = lens[xsym_choose("length", 12)];
    xsym_bytes(pbuf, plen, "path"); for (size_t i = 0; i < plen; i++) xsym_assume(pbuf[i] != 0);
    refuse = xsym_choose("refuse", 2); refuse_listen = xsym_choose("no listen", 2);
    {
        xtr::detail::command_dispatcher d(std::string(pbuf, plen));
        if (d.is_open()) { xassert(fd_open && listening && plen < sizeof(sockaddr_un::sun_path), "the socket is open"); xsym_reach("listening"); }
        else { xassert(!fd_open, "a failure leaves no socket open"); xassert(reports, "a failure is reported"); if (plen >= sizeof(sockaddr_un::sun_path)) { xassert(!connected, "a path that does not fit is refused"); xsym_reach("too long"); } else xsym_reach("failed"); }
    }
    xassert(!fd_open, "the socket is closed");
    xassert(unlinks <= 1 && (!listening || unlinks == 1), "the socket is removed");
    xsym_reach("done");
}

// C25: xtrctl sends the request its command line describes and prints what it gets.
#include "xsym.h"
#include <errno.h>
#include <getopt.h>
#include <iostream>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#define main xtrctl_main
#include <../src/xtrctl.cpp>
#undef main
// ---- the program's surroundings
struct Out { char s[8192]; size_t n; }; static Out out, errs_;
extern "C" void xm_ostream(void* os, const char* p, size_t n) { Out& o = os == (void*)&std::cout ? out : errs_; xassert(o.n + n < sizeof o.s, "harness: output"); memcpy(o.s + o.n, p, n); o.n += n; }
extern "C" void xm_stderr(const char* p, size_t n) { memcpy(errs_.s + errs_.n, p, n); errs_.n += n; }
extern "C" void xm_stdout(const char* p, size_t n) { memcpy(out.s + out.n, p, n); out.n += n; }
// What is expected
enum Kind { FAIL, HELP, SEND }; static Kind want; static uint32_t want_id; static int want_type, want_level; static const char *want_pattern, *want_path;
enum Reply { R_SINK, R_OK, R_ERROR, R_SHORT, R_BAD_ID, R_BAD_LEN, R_FAIL, R_N };
#define N_REPLY 48
static Reply replies[N_REPLY]; static unsigned n_replies, next_reply; static uint64_t conn_fail, send_fail; static bool sent, fd_open, connected;
static struct xtr::detail::sink_info infos_[N_REPLY]; static unsigned n_infos, n_ok; static bool bad_reply;
static char* put(char* p, const char* s) { while (*s) *p++ = *s++; return p; }
static char* num(char* p, uint64_t v) { char t[24]; int i = 0; do t[i++] = (char)('0' + v % 10); while (v /= 10); while (i) *p++ = t[--i]; return p; }
static void finish(int status)
{
    if (want == HELP) { xassert(!sent && status == 0 && out.n > 0 && errs_.n == 0, "help is printed, and nothing sent"); xsym_reach("help"); xsym_end(); }
    if (want == FAIL) { xassert(!sent && status != 0, "a command line that is not right is refused, and nothing sent"); xassert(errs_.n > 0, "and reported"); xsym_reach("refused"); xsym_end(); }
    if (conn_fail || send_fail) { xassert(status != 0 && errs_.n > 0 && out.n == 0, "a failure to connect or send is reported"); xsym_reach("unreachable"); xsym_end(); }
    xassert(sent, "the request is sent");
    if (bad_reply) { xassert(status != 0 && errs_.n > 0, "an error, or a response that is not understood, is reported"); xsym_reach("bad reply"); xsym_end(); }
    xassert(next_reply == n_replies, "all responses are read");
    xassert(status == 0 && errs_.n == 0, "success is reported by the exit status");
    // sort by name
    unsigned ord[N_REPLY]; for (unsigned i = 0; i < n_infos; i++) { unsigned j = i; while (j && strcmp(infos_[ord[j - 1]].name, infos_[i].name) > 0) { ord[j] = ord[j - 1]; j--; } ord[j] = i; }
    static char t[8192]; char* p = t; for (unsigned i = 0; i < n_ok; i++) p = put(p, "Success\n");
    static const char* names[] = {"none", "fatal", "error", "warning", "info", "debug"};
    for (unsigned i = 0; i < n_infos; i++) {
        const auto& f = infos_[ord[i]]; const int l = (int)f.level;
        p = put(p, f.name); p = put(p, " ("); p = put(p, l >= 0 && l <= 5 ? names[l] : "<invalid>"); p = put(p, ") ");
        p = num(p, f.buf_capacity / 1024); p = put(p, "K capacity, "); p = num(p, f.buf_nbytes / 1024); p = put(p, "K used, "); p = num(p, f.dropped_count); p = put(p, " dropped\n");
    }
    xassert(out.n == (size_t)(p - t) && memcmp(out.s, t, out.n) == 0, "each response is printed, sinks in the order of their names");
    xsym_reach(n_infos > 1 ? "list" : n_ok ? "success" : "empty"); xsym_end();
}
static bool interrupted() { static unsigned n; if (n >= xsym_param("eintr", 1) || !xsym_choose("interrupted", 2)) return false; n++; errno = EINTR; return true; }
extern "C" {
void exit(int s) { finish(s); __builtin_unreachable(); }
void _exit(int s) { finish(s); __builtin_unreachable(); }
void quick_exit(int s) { finish(s); __builtin_unreachable(); }
int socket(int d, int t, int) { xassert(d == AF_LOCAL && (t & 0xf) == SOCK_SEQPACKET, "a local packet socket"); if (conn_fail == 1) { errno = EMFILE; return -1; } fd_open = true; return 7; }
int close(int fd) { xassert(fd == 7 && fd_open, "only the open socket is closed"); fd_open = false; return 0; }
int connect(int fd, const struct sockaddr* sa, socklen_t n)
{
    xassert(fd == 7 && fd_open && n == sizeof(sockaddr_un) && sa->sa_family == AF_LOCAL, "a local address");
    if (want == SEND) xassert(strcmp(((const sockaddr_un*)sa)->sun_path, want_path) == 0, "the connection is to the path given");
    if (conn_fail == 2) { errno = ECONNREFUSED; return -1; }
    connected = true; return 0;
}
static ssize_t do_send(int fd, const void* p, size_t n, int flags)
{
    using namespace xtr::detail;
    xassert(fd == 7 && fd_open && connected && !sent, "one request is sent, on the connection"); xassert(flags & MSG_NOSIGNAL, "a connection that is gone must not kill the program");
    if (interrupted()) return -1;
    if (send_fail) { errno = EPIPE; return -1; }
    sent = true; if (want != SEND) return (ssize_t)n;
    uint32_t id; xassert(n >= 4 && xsym_valid(p, n), "a frame"); memcpy(&id, p, 4); xassert(id == want_id, "the request is the command given");
    const pattern* pt = nullptr;
    if (id == status::frame_id) { xassert(n == sizeof(frame<status>), "frame size"); pt = &((const frame<status>*)p)->payload.pattern; }
    else if (id == set_level::frame_id) { xassert(n == sizeof(frame<set_level>), "frame size"); pt = &((const frame<set_level>*)p)->payload.pattern; xassert((int)((const frame<set_level>*)p)->payload.level == want_level, "the level is the one given"); }
    else xassert(n == sizeof(frame<reopen>), "frame size");
    if (pt) {
        xassert((int)pt->type == want_type, "the pattern is of the type given");
        if (want_type) { const size_t k = strlen(want_pattern); xassert(k < sizeof pt->text && memcmp(pt->text, want_pattern, k + 1) == 0, "the pattern is the one given"); xassert(!pt->ignore_case, "patterns are case sensitive"); }
    }
    return (ssize_t)n;
}
ssize_t sendmsg(int fd, const struct msghdr* m, int flags) { xassert(m->msg_iovlen == 1, "harness: one part"); return do_send(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags); }
ssize_t send(int fd, const void* p, size_t n, int flags) { return do_send(fd, p, n, flags); }
static ssize_t do_recv(int fd, void* p, size_t cap)
{
    using namespace xtr::detail;
    xassert(fd == 7 && fd_open && connected && sent, "responses are read from the connection");
    if (want != SEND || next_reply == n_replies) return 0;
    if (interrupted()) return -1;
    const Reply r = replies[next_reply++]; union { frame_buf b; char c[512]; } m; memset(&m, 0x41, sizeof m); size_t n = 0; uint32_t id = 0;
    switch (r) {
        case R_SINK: { frame<sink_info> f; f.payload = infos_[n_infos++]; n = sizeof f; memcpy(m.c, &f, n); break; }
        case R_OK: n = sizeof(frame<success>); id = success::frame_id; memcpy(m.c, &id, 4); n_ok++; break;
        case R_ERROR: { frame<error> f; strcpy(f.payload.reason, "why"); n = sizeof f; memcpy(m.c, &f, n); break; }
        case R_SHORT: n = 1 + xsym_choose("short", 3); break;
        case R_BAD_ID: { id = xsym_u32("id"); const uint32_t good[] = {sink_info::frame_id, success::frame_id, error::frame_id}; for (uint32_t g : good) xsym_assume(id != g); n = sizeof(frame<sink_info>); memcpy(m.c, &id, 4); break; }
        case R_BAD_LEN: id = xsym_choose("error", 2) ? (uint32_t)error::frame_id : (uint32_t)sink_info::frame_id; n = id == sink_info::frame_id ? sizeof(frame<sink_info>) - 1 : sizeof(frame<error>) - 1; memcpy(m.c, &id, 4); break;
        case R_FAIL: errno = ECONNRESET; bad_reply = true; return -1;
        default: break;
    }
    if (r >= R_ERROR) bad_reply = true;
    xassert(n <= cap, "the buffer takes the largest response"); memcpy(p, m.c, n); return (ssize_t)n;
}
ssize_t recvmsg(int fd, struct msghdr* m, int) { xassert(m->msg_iovlen == 1, "harness: one part"); m->msg_flags = 0; return do_recv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len); }
ssize_t recv(int fd, void* p, size_t n, int) { return do_recv(fd, p, n); }
ssize_t read(int fd, void* p, size_t n) { return do_recv(fd, p, n); }
}

static char* argv_[10]; static int argc_; static char texts[4][4]; static unsigned n_texts;
static void add(const char* s) { argv_[argc_++] = const_cast<char*>(s); argv_[argc_] = nullptr; }
static char long_pattern[300], long_path[150];
static const char* positional(bool longs)
{
    const uint64_t k = xsym_choose("text", longs ? 5 : 1);
    if (k == 0) { char* t = texts[n_texts++]; xsym_bytes(t, 2, "text"); xsym_assume(t[0] != 0 && t[0] != '-'); t[2] = 0; return t; }
    if (k == 1) return "";
    if (k == 2) return "-";
    if (k == 3) { memset(long_pattern, 'p', 255); return long_pattern; }       // the longest that fits
    memset(long_path, 'q', 107); return long_path;
}
static void describe(unsigned maxrest, bool longs)
{
    add("xtrctl"); want = SEND;
    static const char* cmds[] = {"status", "level", "reopen", "--help", "statu", "", "-W"}; const uint64_t c = xsym_choose("command", 8);
    if (c == 7) { want = FAIL; return; }
    add(cmds[c]);
    if (c == 3) want = HELP; else if (c > 3) want = FAIL;
    want_id = c == 0 ? xtr::detail::status::frame_id : c == 1 ? xtr::detail::set_level::frame_id : xtr::detail::reopen::frame_id;
    if (c == 1) {
        static const char* ls[] = {"fatal", "error", "warning", "info", "debug", "none", "Info", "infos", "inf", ""}; const uint64_t l = xsym_choose("level", 11);
        if (l == 10) { want = FAIL; return; }
        add(ls[l]); want_level = (int)l + 1; if (l > 4) want = FAIL;
    }
    struct Tok { const char* s; int e; }; // e: 1 E 2 G 3 W 4 help 5 bad 6 end of options
    static const Tok toks[] = {{"-E", 1}, {"-G", 2}, {"-W", 3}, {"--extended-regexp", 1}, {"--basic-regexp", 2}, {"--wildcard", 3}, {"-EW", 3}, {"-h", 4}, {"-x", 5}, {"--", 6}, {"--wild", 3}, {"--help", 4}, {"--nosuch", 5}};
    const unsigned nt = longs ? 10 : 13, n = (unsigned)xsym_choose("rest", maxrest + 1);
    const char* pos[4]; unsigned np = 0; int type = 0; bool end = false; Kind k = SEND;
    for (unsigned i = 0; i < n; i++) {
        const unsigned t = (unsigned)xsym_choose("argument", nt + 1);
        if (t == nt) { pos[np] = positional(longs); add(pos[np++]); continue; }
        add(toks[t].s);
        if (end) { pos[np++] = toks[t].s; continue; }
        const int e = toks[t].e; if (k != SEND) continue;
        if (e <= 3) type = e; else if (e == 4) k = HELP; else if (e == 5) k = FAIL; else end = true;
    }
    if (want != SEND) return;
    if (k != SEND) { want = k; return; }
    if (np < 1 || np > (c == 2 ? 1u : 2u) || (type && np < 2)) { want = FAIL; return; }
    want_path = pos[np - 1]; want_pattern = np == 2 ? pos[0] : ""; want_type = np == 2 ? (type ? type : 2) : 0;
    if (np == 2 && strlen(want_pattern) > 255) want = FAIL;
    if (strlen(want_path) > 107) conn_fail = 3;
}
static void run() { optind = 1; const int r = xtrctl_main(argc_, argv_); finish(r); }
extern "C" void c25_lines() { describe((unsigned)xsym_param("n", 3), false); if (want == SEND) { replies[n_replies++] = R_OK; } run(); }
extern "C" void c25_texts() { describe((unsigned)xsym_param("n", 2), true); if (want == SEND) { replies[n_replies++] = R_OK; } run(); }
// ---- too long patterns
extern "C" void c25_long()
{
    add("xtrctl"); const bool st = xsym_choose("status", 2); add(st ? "status" : "level"); if (!st) add("debug");
    static const uint16_t ls[] = {1, 254, 255, 256, 257, 290}; const size_t n = ls[xsym_choose("length", 6)]; memset(long_pattern, 'p', n); long_pattern[n] = 0; xsym_bytes(long_pattern + n - 1, 1, "last"); xsym_assume(long_pattern[n - 1] != 0 && long_pattern[0] != '-');
    add(long_pattern); add("s"); want = n > 255 ? FAIL : SEND; want_id = st ? xtr::detail::status::frame_id : xtr::detail::set_level::frame_id; want_level = 5; want_pattern = long_pattern; want_type = 2; want_path = "s";
    replies[n_replies++] = R_OK; run();
}
// ---- responses
extern "C" void c25_replies()
{
    add("xtrctl"); const uint64_t c = xsym_choose("command", 3); add(c == 0 ? "status" : c == 1 ? "level" : "reopen"); if (c == 1) add("error"); add("/s");
    want = SEND; want_id = c == 0 ? xtr::detail::status::frame_id : c == 1 ? xtr::detail::set_level::frame_id : xtr::detail::reopen::frame_id; want_level = 2; want_path = "/s";
    conn_fail = xsym_choose("connect", 3); send_fail = conn_fail ? 0 : xsym_choose("send", 2);
    static const uint64_t sizes[] = {0, 1023, 1024, 65536, ~0ull}; unsigned ni = 0;
    n_replies = (unsigned)xsym_choose("replies", xsym_param("k", 3) + 1); bool done = false;
    for (unsigned i = 0; i < n_replies; i++) {
        replies[i] = done ? R_OK : (Reply)xsym_choose("reply", R_N); if (replies[i] >= R_ERROR) done = true;
        if (replies[i] == R_SINK) {
            auto& f = infos_[ni++]; const unsigned l = (unsigned)xsym_choose("name length", 3); xsym_bytes(f.name, l, "name"); for (unsigned j = 0; j < l; j++) xsym_assume(f.name[j] != 0); f.name[l] = 0;
            f.level = ni == 1 ? (xtr::log_level_t)xsym_u32("level") : xtr::log_level_t::info; const uint64_t z = xsym_choose("sizes", ni == 1 ? 5 : 1); f.buf_capacity = sizes[z]; f.buf_nbytes = sizes[(z + 1) % 5]; f.dropped_count = sizes[(z + 3) % 5];
            for (unsigned j = 0; j + 1 < ni; j++) if (strcmp(infos_[j].name, f.name) == 0) xsym_end();         // sinks of the same name may come in any order
        }
    }
    run();
}
// ---- many sinks
extern "C" void c25_many()
{
    add("xtrctl"); add("status"); add("/s"); want = SEND; want_id = xtr::detail::status::frame_id; want_path = "/s";
    static const uint8_t ns[] = {7, 16, 17, 33, 40}; n_replies = ns[xsym_choose("sinks", 5)]; const uint64_t order = xsym_choose("order", 4);
    for (unsigned i = 0; i < n_replies; i++) {
        const unsigned k = order == 0 ? i : order == 1 ? n_replies - 1 - i : order == 2 ? i * 5 % 47 : i ^ 3; auto& f = infos_[i]; replies[i] = R_SINK;
        f.name[0] = (char)('A' + k / 10); f.name[1] = (char)('a' + k % 10); f.name[2] = 0; if (k % 7 == 0) { memset(f.name + 2, 'x', 100); f.name[102] = 0; }
        f.level = xtr::log_level_t(k % 6); f.buf_capacity = 1024 * k; f.buf_nbytes = 1023 * k; f.dropped_count = (uint64_t)k << 33;
    }
    run();
}

// A command socket and its clients.  Everything a client or the kernel may do is
// chosen by the solver's paths: connections, datagrams of any size and content,
// disconnections (also with unread data), slow readers, interrupted and failing calls.
#pragma once
#include "xsym.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

#ifndef MSG_MAX
#define MSG_MAX 520                             // largest datagram modelled
#endif
#ifndef N_CONN
#define N_CONN 4
#endif
#ifndef N_OUT
#define N_OUT 6
#endif
static int S_FD0 = 5;      // lowest descriptor handed out
#define S_NFD (N_CONN + 8)
struct Atomic { Atomic() { xsym_atomic_begin(); } ~Atomic() { xsym_atomic_end(); } };
struct Conn {
    bool pending, accepted, srv_open, peer_closed, reset, nonblock, blocked, hurt;   // hurt: a call on it failed for good
    int fd;
    bool has_msg; uint64_t msg_size; char msg[MSG_MAX];
    bool consumed;                              // the datagram was received by the server
    unsigned n_out; struct { size_t n; char d[320]; } out[N_OUT];
};
struct SFd { bool open; int kind; int conn; };   // kind 1 listening/unbound, 2 connection
static SFd sfd[S_NFD]; static Conn conns[N_CONN]; static unsigned n_conns;
static uint64_t s_faults; static unsigned s_nfaults;
static bool s_bound, s_listen_nonblock; static unsigned s_listening; static unsigned s_unlinks, s_binds; static char s_path[120]; static size_t s_path_n;
static struct { bool used; char p[120]; } s_paths[3];   // paths bound and not removed yet
static bool s_fault(const char* what) { if (!s_faults || !xsym_choose(what, 2)) return false; s_faults--; s_nfaults++; xsym_progress(); return true; }
static int s_new(int kind, int conn) { for (int i = 0; i < S_NFD; i++) if (!sfd[i].open) { sfd[i] = {true, kind, conn}; return i + S_FD0; } xfail("harness: socket table full"); }
static SFd& s_get(int fd, const char* what) { xsym_assert_(fd >= S_FD0 && fd < S_FD0 + S_NFD && sfd[fd - S_FD0].open, what); return sfd[fd - S_FD0]; }
static unsigned s_live() { unsigned n = 0; for (auto& f : sfd) n += f.open; return n; }
static void (*on_poll)();                         // lets clients act; called by each poll()

// ---- clients
static int client_connect() { xassert(n_conns < N_CONN, "harness: connection table full"); conns[n_conns].pending = true; conns[n_conns].fd = -1; return (int)n_conns++; }
static void client_send(int c, const void* p, size_t n) { Conn& x = conns[c]; x.has_msg = true; x.msg_size = n; memcpy(x.msg, p, n < MSG_MAX ? n : MSG_MAX); }
static void client_close(int c) { Conn& x = conns[c]; x.peer_closed = true; if (x.n_out && xsym_choose("unread", 2)) x.reset = true; }
// Every client action may also be taken from the application's thread
static void client_progress() { xsym_progress(); }

static short s_events(SFd& f, short want) {
    if (f.kind == 1) { for (auto& c : conns) if (c.pending) return want & POLLIN; return 0; }
    Conn& c = conns[f.conn]; short r = 0;
    if (c.has_msg || c.peer_closed) r |= want & POLLIN;
    if (!c.blocked) r |= want & POLLOUT;
    if (c.peer_closed) r |= POLLHUP;
    if (c.reset) r |= POLLERR;
    return r;
}
static ssize_t s_recv(int fd, struct iovec* v, size_t nv, int flags, int* mflags) {
    Atomic a; SFd& f = s_get(fd, "receive on a descriptor that is not open"); xassert(f.kind == 2 && nv == 1, "receive on a connection");
    if (s_fault("recv interrupted")) { errno = EINTR; return -1; }
    Conn& c = conns[f.conn];
    if (c.has_msg) {
        if (s_fault("recv fails")) { c.hurt = true; errno = ENOMEM; return -1; }
        c.has_msg = false; c.consumed = true; xsym_progress();
        const size_t cap = v->iov_len, k = cap < MSG_MAX ? cap : MSG_MAX;
        memcpy(v->iov_base, c.msg, k);            // the rest of the buffer is arbitrary
        if (mflags) *mflags = (int)xsym_ite(c.msg_size > cap, MSG_TRUNC, 0);
        return (ssize_t)xsym_ite(c.msg_size > cap, (flags & MSG_TRUNC) ? c.msg_size : cap, c.msg_size);
    }
    if (c.reset) { c.reset = false; errno = ECONNRESET; return -1; }
    if (c.peer_closed) return 0;
    if (!c.nonblock && !(flags & MSG_DONTWAIT)) xfail("the background thread blocks receiving from a client");
    errno = EAGAIN; return -1;
}
static ssize_t s_send(int fd, const struct iovec* v, size_t nv, int flags) {
    Atomic a; SFd& f = s_get(fd, "send on a descriptor that is not open"); xassert(f.kind == 2 && nv == 1, "send on a connection");
    Conn& c = conns[f.conn];
    xassert(xsym_valid(v->iov_base, v->iov_len), "the data sent is readable");
    if (s_fault("send interrupted")) { errno = EINTR; return -1; }
    if (c.peer_closed) { if (!(flags & MSG_NOSIGNAL)) xfail("sending to a client that has gone raises SIGPIPE"); errno = c.reset ? ECONNRESET : EPIPE; c.reset = false; return -1; }
    if (c.blocked || s_fault("slow reader")) {
        if (!c.nonblock && !(flags & MSG_DONTWAIT)) xfail("the background thread blocks sending to a client");
        c.blocked = true; xsym_reach("slow reader"); errno = EAGAIN; return -1; }
    if (s_fault("send fails")) { c.hurt = true; errno = ENOBUFS; return -1; }
    xassert(c.n_out < N_OUT && v->iov_len <= sizeof c.out[0].d, "harness: room for responses");
    memcpy(c.out[c.n_out].d, v->iov_base, v->iov_len); c.out[c.n_out++].n = v->iov_len; xsym_progress();
    return (ssize_t)v->iov_len;
}
static int no_poll_fail;
extern "C" {
int socket(int dom, int type, int) { Atomic a; xassert(dom == AF_LOCAL && (type & 0xf) == SOCK_SEQPACKET, "a local packet socket"); if (s_fault("socket fails")) { errno = EMFILE; return -1; } s_listen_nonblock = type & SOCK_NONBLOCK; return s_new(1, 0); }
int bind(int fd, const struct sockaddr* sa, socklen_t n) {
    Atomic a; s_get(fd, "bind() on a descriptor that is not open"); xassert(n >= sizeof(sa_family_t) && n <= sizeof(struct sockaddr_un) && xsym_valid(sa, n) && sa->sa_family == AF_LOCAL, "a local address");
    const char* p = ((const struct sockaddr_un*)sa)->sun_path;
    if (s_fault("bind fails")) { errno = EADDRINUSE; return -1; }
    s_path_n = p[0] ? strnlen(p, sizeof((struct sockaddr_un*)0)->sun_path) : n - offsetof(struct sockaddr_un, sun_path); memcpy(s_path, p, s_path_n); s_path[s_path_n] = 0;
    int slot = -1; for (int i = 0; i < 3; i++) if (!s_paths[i].used) slot = i; else if (strcmp(s_paths[i].p, s_path) == 0) { errno = EADDRINUSE; return -1; }
    xassert(slot >= 0, "harness: bound paths"); s_paths[slot].used = true; strcpy(s_paths[slot].p, s_path);
    s_bound = true; s_binds++; return 0; }
int listen(int fd, int n) { Atomic a; s_get(fd, "listen() on a descriptor that is not open"); if (s_fault("listen fails")) { errno = EADDRINUSE; return -1; } s_listening++; return 0; }
int accept4(int fd, struct sockaddr*, socklen_t*, int flags) {
    Atomic a; SFd& f = s_get(fd, "accept() on a descriptor that is not open"); xassert(f.kind == 1, "accept on the listening socket");
    if (s_fault("accept fails")) { errno = xsym_choose("accept error", 2) ? EMFILE : EINTR; return -1; }
    for (unsigned i = 0; i < n_conns; i++) if (conns[i].pending) {
        conns[i].pending = false; conns[i].accepted = conns[i].srv_open = true; conns[i].nonblock = flags & SOCK_NONBLOCK; xsym_progress(); return conns[i].fd = s_new(2, (int)i); }
    if (!s_listen_nonblock) xfail("the background thread blocks in accept()");
    errno = EAGAIN; return -1; }
int accept(int fd, struct sockaddr* s, socklen_t* n) { return accept4(fd, s, n, 0); }
int poll(struct pollfd* p, nfds_t n, int timeout) {
    Atomic a; xassert(xsym_valid(p, n * sizeof *p), "poll() of valid descriptors");
    if (on_poll) on_poll();
    if (!no_poll_fail && s_fault("poll fails")) { if (xsym_choose("poll error", 2)) errno = ENOMEM; else { for (nfds_t i = 0; i < n; i++) p[i].revents = 0; errno = EINTR; } return -1; }
    int r = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = s_events(s_get(p[i].fd, "poll() of a descriptor that is not open"), p[i].events); r += p[i].revents != 0; }
    for (auto& c : conns) if (c.blocked) { c.blocked = false; xsym_progress(); }      // slow readers catch up later
    if (!r && timeout != 0) xfail("the background thread waits in poll()");
    return r; }
ssize_t recvmsg(int fd, struct msghdr* h, int flags) { return s_recv(fd, h->msg_iov, h->msg_iovlen, flags, &h->msg_flags); }
ssize_t recv(int fd, void* p, size_t n, int flags) { struct iovec v = {p, n}; return s_recv(fd, &v, 1, flags, 0); }
ssize_t sendmsg(int fd, const struct msghdr* h, int flags) { return s_send(fd, h->msg_iov, h->msg_iovlen, flags); }
ssize_t send(int fd, const void* p, size_t n, int flags) { struct iovec v = {(void*)p, n}; return s_send(fd, &v, 1, flags); }
int shutdown(int fd, int) { Atomic a; s_get(fd, "shutdown() of a descriptor that is not open"); return 0; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int unlink(const char* p) { Atomic a; s_unlinks++; for (auto& x : s_paths) if (x.used && strncmp(p, x.p, sizeof x.p) == 0) { x.used = false; s_bound = false; for (auto& y : s_paths) s_bound |= y.used; return 0; } xfail("a path that no socket was bound to is removed"); }
#ifndef SOCK_NO_CLOSE
int close(int fd) { Atomic a; SFd& f = s_get(fd, "close() of a descriptor that is not open"); f.open = false; if (f.kind == 2) { conns[f.conn].srv_open = false; xsym_progress(); } else if (s_listening) s_listening--; return s_fault("close interrupted") ? (errno = EINTR, -1) : 0; }
#endif
int fcntl(int fd, int cmd, ...) { Atomic a; SFd& f = s_get(fd, "fcntl() of a descriptor that is not open"); va_list ap; va_start(ap, cmd); int v = va_arg(ap, int); va_end(ap); if (cmd == F_SETFL) { if (f.kind == 2) conns[f.conn].nonblock = v & O_NONBLOCK; else s_listen_nonblock = v & O_NONBLOCK; } return 0; }
}

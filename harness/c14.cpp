// C14: the command server survives any client.
#include "common.h"
#include "sock.h"
#include "xtr/detail/commands/command_dispatcher.hpp"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
#include <stdexcept>
using namespace xtr::detail;
static unsigned n_err_text;
extern "C" void xm_stderr(const char*, size_t n) { n_err_text += n != 0; }

// What the callbacks saw and replied, per connection
struct Exp { bool called; unsigned replies; bool error; unsigned kind; bool text = true; } ex[N_CONN];
static uint64_t budget;
static unsigned n_ready_events;
static uint64_t id_of(const Conn& c) { uint32_t v; memcpy(&v, c.msg, 4); return v; }

static void clients()
{
    if (!budget) return;
    // one action per poll; nothing only if the server already has something to do
    bool busy = false; for (auto& f : sfd) if (f.open && f.kind == 2 && (conns[f.conn].has_msg || conns[f.conn].consumed)) busy = true;
    for (unsigned t = 0; t < 1; t++) {
        switch (xsym_choose("client", 4)) {
            case 0: if (n_conns == xsym_param("conns", 2)) xsym_end(); client_connect(); break;
            case 1: { uint64_t c = xsym_choose("who", n_conns ? n_conns : 1); if (c >= n_conns || conns[c].has_msg || conns[c].consumed || conns[c].peer_closed) xsym_end();
                Conn& x = conns[c]; xsym_bytes(x.msg, MSG_MAX, "msg"); x.msg_size = xsym_range("size", 0, MSG_MAX); x.has_msg = true;
                if (xsym_choose("small id", 2)) x.msg[1] = x.msg[2] = x.msg[3] = 0; else xsym_assume(x.msg[1] | x.msg[2] | x.msg[3]);
                break; }
            case 2: { uint64_t c = xsym_choose("who", n_conns ? n_conns : 1); if (c >= n_conns || conns[c].peer_closed) xsym_end(); client_close((int)c); break; }
            case 3: if (!busy) xsym_end(); break;
        }
    }
    budget--;
}
static unsigned cb(command_dispatcher& d, int fd, unsigned kind, const void* payload, size_t n)
{
    int who = -1; for (int i = 0; i < N_CONN; i++) if (conns[i].accepted && conns[i].srv_open && conns[i].fd == fd) who = i;
    xassert(who >= 0, "a request is attributed to an open connection");
    Conn& c = conns[who]; Exp& e = ex[who];
    xassert(!e.called && c.consumed, "each request is dispatched once");
    e.called = true; e.kind = kind;
    xassert(id_of(c) == kind && c.msg_size == n + 4, "only a request with the right id and length is dispatched");
    xassert(memcmp(payload, c.msg + 4, n) == 0, "the payload is passed on unchanged");
    switch (xsym_choose("reply", 4)) {
        case 0: return 0;
        case 1: d.send(fd, frame<success>()); e.replies = 1; break;
        case 2: { frame<sink_info> f; memset(f->name, 'n', sizeof f->name); f->dropped_count = fd; d.send(fd, f); d.send(fd, frame<success>()); e.replies = 2; break; }
        case 3: e.replies = 1; e.error = true; { char t[300]; memset(t, 'w', 299); t[299] = 0; switch (xsym_choose("exception", 3)) { case 0: throw std::runtime_error(t); case 1: throw std::logic_error(t); default: e.text = false; throw std::bad_alloc(); } }
    }
    return 0;
}
// The dispatcher with callbacks of the real request types
static void drive(unsigned settle)
{
    char path[24] = "/the/path";
    n_conns = 0;
    {
        command_dispatcher d(path);
        if (!d.is_open()) { xassert(s_nfaults > 0, "the socket opens"); xsym_reach("not open"); }
        else {
            xassert(s_bound && s_listening && strcmp(s_path, "/the/path") == 0, "listening on the path");
            d.register_callback<status>([&](int fd, status& s) { cb(d, fd, 0, &s, sizeof s); });
            d.register_callback<set_level>([&](int fd, set_level& s) { cb(d, fd, 1, &s, sizeof s); });
            d.register_callback<reopen>([&](int fd, reopen& s) { cb(d, fd, 5, &s, 0); });
            on_poll = clients;
            for (unsigned i = 0; budget; i++) d.process_commands(0);
            s_faults = 0; on_poll = nullptr;
            for (unsigned i = 0; i < settle; i++) d.process_commands(0);
            for (unsigned i = 0; i < n_conns; i++) {
                Conn& c = conns[i]; Exp& e = ex[i];
                xassert(!c.pending && c.accepted, "every connection is accepted");
                if (c.peer_closed) { xassert(!c.srv_open, "the connection of a client that has gone is closed"); xsym_reach("gone"); }
                else if (!c.consumed) { if (!c.hurt) { xassert(c.srv_open && !c.has_msg, "a client that sent nothing stays connected"); xsym_reach("idle"); } }
                else {
                    xassert(!c.srv_open, "a client that was served is disconnected");
                    if (c.hurt) { xsym_reach("failed call"); continue; }   // it may cost this client its responses
                    if (!e.called) {
                        if (!xsym_implied(c.msg_size != 0)) { xsym_assume(c.msg_size == 0); xassert(c.n_out == 0, "an empty request is ignored"); xsym_reach("empty"); continue; }
                        xassert(c.n_out == 1 && c.out[0].n == sizeof(frame<error>), "a malformed request is answered with an error");
                        frame<error> f; memcpy(&f, c.out[0].d, sizeof f);
                        xassert(f.frame_id == frame_id_t(message_id::error) && memchr(f->reason, 0, sizeof f->reason), "a malformed request is answered with an error");
                        const uint64_t n = c.msg_size, id = id_of(c);
                        xassert(n < 4 || !((id == 0 && n == 4 + sizeof(status)) || (id == 1 && n == 4 + sizeof(set_level)) || (id == 5 && n == 4)), "every well-formed request is dispatched");
                        xsym_reach("malformed"); continue;
                    }
                    xassert(c.n_out == e.replies, "a client receives exactly the responses to its request");
                    uint32_t id; 
                    if (e.error) { memcpy(&id, c.out[0].d, 4); xassert(id == uint32_t(message_id::error) && (!e.text || c.out[0].d[4 + 254] == 'w') && c.out[0].d[4] && c.out[0].d[4 + 255] == 0, "the error is reported, truncated"); xsym_reach("threw"); }
                    else if (e.replies == 1) { memcpy(&id, c.out[0].d, 4); xassert(id == uint32_t(message_id::success) && c.out[0].n == sizeof(frame<success>), "the response is sent unchanged"); }
                    else if (e.replies == 2) {
                        frame<sink_info> f; xassert(c.out[0].n == sizeof f, "responses are sent in order"); memcpy(&f, c.out[0].d, sizeof f);
                        xassert(f.frame_id == frame_id_t(message_id::sink_info) && f->dropped_count == size_t(c.fd), "a response goes to the client that made the request");
                        memcpy(&id, c.out[1].d, 4); xassert(id == uint32_t(message_id::success), "responses are sent in order"); xsym_reach("two responses");
                    }
                    xsym_reach("served");
                }
            }
        }
    }
    xassert(s_live() == 0, "every descriptor is closed");
    xassert(s_binds == s_unlinks && !s_bound, "the socket's path is removed");
    xsym_reach("done");
}
extern "C" void c14_dispatch() { S_FD0 = (int)xsym_param("fd0", 5); budget = xsym_param("k", 4); s_faults = xsym_param("faults", 0); drive(6); }

// Paths of any length: too long a path is refused, never overflows
extern "C" void c14_path()
{
    const size_t n = xsym_choose("n", 112); static char p[128]; for (size_t i = 0; i < n; i++) p[i] = 'a' + i % 26;
    const bool abstract = n && xsym_choose("abstract", 2); if (abstract) p[0] = 0;
    {
        command_dispatcher d(std::string(p, n));
        const size_t room = sizeof(((sockaddr_un*)0)->sun_path);
        xassert(d.is_open() == (n < room), "exactly the paths that fit are used");
        if (d.is_open()) {
            if (n && !abstract) xassert(s_path_n == n && memcmp(s_path, p, n) == 0, "the path is the one given");
            else { xassert(s_path_n == room && memcmp(s_path, p, n) == 0, "the abstract name is the one given"); for (size_t i = n; i < room; i++) xassert(s_path[i] == 0, "the abstract name is padded with zeroes"); }
            xsym_reach("open");
        } else { xassert(n_err_text > 0 && s_live() == 0, "a path that is too long is reported"); xsym_reach("too long"); }
    }
    xassert(s_live() == 0, "every descriptor is closed");
}

// The whole logger: any datagram, followed by an ordinary client; logging goes on.
#include "match.h"
static void request(Conn& x)
{
    if (xsym_param("small", 0)) {
        x.msg[0] = 5 * (char)xsym_choose("form", 2); x.msg_size = x.msg[0] ? 4 : 4 + sizeof(status); mt.type = x.msg[4] = 2 * (char)xsym_choose("regex", 2); mt.valid = xsym_choose("valid", 2); return; }
    // any bytes; the pattern text is either unterminated or short
    switch (xsym_choose("form", 4)) {
        case 0: xsym_bytes(x.msg, MSG_MAX, "msg"); x.msg_size = xsym_range("size", 0, MSG_MAX); x.msg[0] = (char)(3 + xsym_choose("id", 4) * 60); mt.type = 9; // never matches a request with a pattern
            if (x.msg[0] == 3) xsym_reach("reply id"); break;
        case 1: case 2: {
            const bool set = xsym_choose("set", 2); char* pt = x.msg + 4 + (set ? 4 : 0);
            xsym_bytes(x.msg, 24, "msg"); x.msg[0] = set; x.msg[1] = x.msg[2] = x.msg[3] = 0;
            static_assert(offsetof(pattern, text) < 12);
            x.msg_size = 4 + (set ? sizeof(set_level) : sizeof(status));
            int32_t type = (int)xsym_choose("type", 6) - 1; memcpy(pt + offsetof(pattern, type), &type, 4);
            char* text = pt + offsetof(pattern, text); const size_t n = xsym_choose("len", 2) ? 256 : 3;
            memset(text, 0, 256); memset(text, 'p', n); if (n == 256) mt.n = 255; else mt.n = 3; memcpy(mt.text, text, mt.n);
            mt.type = type; mt.valid = xsym_choose("valid", 2);
            uint8_t ic = (uint8_t)pt[offsetof(pattern, ignore_case)]; mt.icase = xsym_choose("icase", 2); xsym_assume((ic != 0) == mt.icase);
            if (set && xsym_choose("ok level", 2)) { int32_t l = (int)xsym_choose("level", 6); memcpy(x.msg + 4, &l, 4); }
            break; }
        case 3: x.msg[0] = 5; x.msg_size = 4; break;
    }
}
extern "C" void c14_logger()
{
    cpu_init();
    xsym_set_spin(40); s_faults = 0; static Text t; unsigned ln;
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), test_clock(), "/cmd");
    {
        auto s = lg->get_sink("N");
        XTR_LOG(s, "before"); ln = __LINE__; t.line("I ", "N", "c14.cpp", ln) << "before\n";
        s_faults = xsym_param("faults", 0);
        for (uint64_t i = 0; i < xsym_param("k", 1); i++) {
            int c; { Atomic a; c = client_connect(); request(conns[c]); conns[c].has_msg = true; if (xsym_choose("leaves", 2)) conns[c].peer_closed = true; client_progress(); }
            if (xsym_choose("meanwhile", 2)) { XTR_LOG_TS(s, "0", "meanwhile"); t.line("I ", "N", "c14.cpp", __LINE__, "0") << "meanwhile\n"; }
            xsym_quiesce();
        }
        s_faults = 0; xsym_quiesce();
        for (unsigned i = 0; i < n_conns; i++) { xassert(conns[i].accepted && !conns[i].srv_open, "every client is served and disconnected"); if (!conns[i].peer_closed) { xsym_reach("answered"); } }
        xassert(mt.live == 0, "compiled patterns are freed");
        // an ordinary client is still served
        int c; { Atomic a; c = client_connect(); frame<set_level> f; f->level = xtr::log_level_t::info; f->pattern.type = pattern_type_t::none; client_send(c, &f, sizeof f); client_progress(); }
        xsym_quiesce();
        uint32_t id; memcpy(&id, conns[c].out[0].d, 4); xassert(conns[c].n_out == 1 && id == uint32_t(message_id::success) && !conns[c].srv_open, "a later client is served");
        xassert(s.level() == xtr::log_level_t::info, "a later request takes effect");
        XTR_LOG_TS(s, "0", "after"); t.line("I ", "N", "c14.cpp", __LINE__, "0") << "after\n";
    }
    lg.reset();
    EXPECT_OUT(t, "logging is unaffected by clients");
    xassert(s_live() == 0 && s_binds == s_unlinks, "every descriptor is closed and the path removed");
    xsym_reach("done");
}
// The command path may be changed while clients come and go.
extern "C" void c14_repath()
{
    cpu_init(); xsym_set_spin(40); s_faults = 0; static const char* const paths[] = {"/cmd", "/b", "/c"};
    unsigned cur = 0;
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), test_clock(), "/cmd");
    {
        auto s = lg->get_sink("N"); xsym_quiesce();
        for (uint64_t i = 0; i < 2; i++) {
            if (xsym_choose("client", 2)) { Atomic a; int c = client_connect(); if (xsym_choose("request", 2)) { frame<set_level> f; f->level = xtr::log_level_t::error; client_send(c, &f, sizeof f); } client_progress(); }
            if (xsym_choose("settle", 2)) xsym_quiesce();
            if (xsym_choose("change", 2)) {
                if (xsym_choose("other", 2)) cur++; else xsym_reach("same"); lg->set_command_path(paths[cur]);
                Atomic a; unsigned open = 0, bound = 0; for (auto& f : sfd) open += f.open; for (auto& p : s_paths) if (p.used) { bound++; xassert(strcmp(p.p, paths[cur]) == 0, "the logger listens at the new path only"); }
                xassert(bound == 1 && open >= 1, "the logger listens at the new path when set_command_path returns");
                for (unsigned k = 0; k < n_conns; k++) if (conns[k].srv_open) open--;
                xassert(open == 1, "the old socket is closed"); xsym_reach("changed");
                for (unsigned k = 0; k < n_conns; k++) if (conns[k].pending) { conns[k].pending = false; conns[k].peer_closed = true; }     // refused by the kernel
            }
        }
        xsym_quiesce();
        int c; { Atomic a; c = client_connect(); frame<set_level> f; f->level = xtr::log_level_t::debug; f->pattern.type = pattern_type_t::none; client_send(c, &f, sizeof f); client_progress(); }
        xsym_quiesce();
        uint32_t id; memcpy(&id, conns[c].out[0].d, 4); xassert(conns[c].n_out == 1 && id == uint32_t(message_id::success) && !conns[c].srv_open, "a client of the current path is served");
        xassert(s.level() == xtr::log_level_t::debug, "its request takes effect");
    }
    lg.reset();
    xassert(s_live() == 0, "every descriptor is closed"); xassert(s_binds == s_unlinks && !s_bound, "the socket's path is removed");
    xsym_reach("done");
}

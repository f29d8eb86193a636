// C14, C15: many clients at once, many clients one after another, many sinks.
#define OUT_MAX 8192
#ifndef N_CONN
#define N_CONN 24
#define N_OUT 44
#endif
#include "common.h"
#include "sock.h"
#include "match.h"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
#include <optional>
using namespace xtr::detail;
using L = xtr::log_level_t;
static std::optional<xtr::sink> S[N_OUT]; static L lv[N_OUT];
static uint32_t id_of(const Conn& c, unsigned k) { uint32_t id; memcpy(&id, c.out[k].d, 4); return id; }
static void check_all(const Conn& c, unsigned n)
{
    xassert(c.n_out == n, "every sink is reported once"); bool seen[N_OUT] = {};
    for (unsigned k = 0; k < n; k++) {
        frame<sink_info> f; xassert(c.out[k].n == sizeof f && id_of(c, k) == uint32_t(message_id::sink_info), "a sink description"); memcpy(&f, c.out[k].d, sizeof f);
        const unsigned i = (f->name[1] - '0') * 100 + (f->name[2] - '0') * 10 + f->name[3] - '0'; xassert(f->name[0] == 'S' && f->name[4] == 0 && i < n && !seen[i], "every sink is reported once"); seen[i] = true;
        xassert(f->level == lv[i] && f->buf_nbytes == 0 && f->dropped_count == 0 && f->buf_capacity == S[i]->capacity(), "with its own data");
    }
}
extern "C" void c14_many()
{
    cpu_init(); xsym_set_spin(400 + 10 * (unsigned)xsym_param("sinks", 3)); s_faults = 0;
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), test_clock(), "/cmd");
    const unsigned n = (unsigned)xsym_param("sinks", 3), m = (unsigned)xsym_param("clients", 20);
    for (unsigned i = 0; i < n; i++) { const char nm[] = {'S', char('0' + i / 100), char('0' + i / 10 % 10), char('0' + i % 10), 0}; S[i].emplace(lg->get_sink(nm)); lv[i] = L(1 + i % 5); S[i]->set_level(lv[i]); }
    xsym_quiesce(); mt.valid = true;
    for (unsigned round = 0; round < xsym_param("rounds", 3); round++) {
        const uint64_t how = xsym_choose("how", 3); const L level = L(1 + xsym_choose("level", 5));
        { Atomic a; n_conns = 0; for (auto& c : conns) c = Conn{}; for (unsigned i = 0; i < m; i++) client_connect(); }
        if (how == 1) xsym_quiesce();                       // all connected before any request
        for (unsigned i = 0; i < m; i++) {
            const unsigned k = how == 2 ? m - 1 - i : i;    // in the order of connecting or the reverse
            if (i % 5 == 3) { Atomic a; conns[k].peer_closed = true; }
            else if (i % 5 == 4) { frame<set_level> f; f->level = level; Atomic a; client_send((int)k, &f, sizeof f); }
            else if (i % 5 == 2) { uint32_t bad = 0x77; Atomic a; client_send((int)k, &bad, sizeof bad); }
            else { frame<status> f; Atomic a; client_send((int)k, &f, sizeof f); }
            { Atomic a; client_progress(); }
            if (how == 2 && i % 3 == 0) xsym_quiesce();
        }
        xsym_quiesce();
        for (unsigned i = 0; i < m; i++) {
            const unsigned k = how == 2 ? m - 1 - i : i; Conn& c = conns[k]; xassert(c.accepted && !c.srv_open, "every client is served and disconnected");
            if (i % 5 == 3) xassert(c.n_out == 0, "nothing is sent to a client that has gone");
            else if (i % 5 == 4) xassert(c.n_out == 1 && id_of(c, 0) == uint32_t(message_id::success), "success is reported");
            else if (i % 5 == 2) xassert(c.n_out <= 1 && (!c.n_out || id_of(c, 0) == uint32_t(message_id::error)), "an unknown request is ignored or refused");
            else { xassert(c.n_out == n, "every sink is reported once"); }
        }
        for (unsigned i = 0; i < n; i++) { xassert(S[i]->level() == level, "the level is set"); lv[i] = level; }
        { Atomic a; n_conns = 0; for (auto& c : conns) c = Conn{}; }
        frame<status> f; { Atomic a; int c = client_connect(); client_send(c, &f, sizeof f); client_progress(); } xsym_quiesce(); check_all(conns[0], n);
    }
    for (unsigned i = 0; i < n; i++) S[i].reset();
    lg.reset(); xassert(s_live() == 0 && s_binds == s_unlinks, "every descriptor is closed and the path removed"); xsym_reach("done");
}

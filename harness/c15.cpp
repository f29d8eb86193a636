// C15: status and set-level act on exactly the matching sinks.
#include "common.h"
#include "sock.h"
#include "match.h"
#include "xtr/detail/commands/requests.hpp"
#include "xtr/detail/commands/responses.hpp"
#include <optional>
using namespace xtr::detail;
using L = xtr::log_level_t;

// an argument that counts how often it is printed, per sink
struct counted { uint64_t sink; };
static unsigned printed[4], logged[4], dropped[4]; static unsigned pend[4]; static bool busy;
template<> struct fmt::formatter<counted> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const counted& r, C& c) const { xsym_atomic_begin(); printed[r.sink]++; xsym_atomic_end(); return c.out(); }
};
struct Reg { std::optional<xtr::sink> s; char name[256]; L level; bool open; };
static Reg reg[4]; static unsigned n_reg;
static unsigned REC;                                   // bytes one record takes up
static void snapshot() {                                // at the poll() just before a request is handled
    bool now = false; for (auto& f : sfd) if (f.open && f.kind == 2 && conns[f.conn].has_msg) now = true;
    if (!now) return;
    for (int i = 0; i < 4; i++) pend[i] = REC * (logged[i] - printed[i]); }

static void set_name(Reg& r, unsigned i)
{
    switch (xsym_choose("name", 5)) {
        case 0: r.name[0] = 'A' + (char)i; r.name[1] = 0; break;
        case 1: strcpy(r.name, "same"); break;
        case 2: memset(r.name, 'n', 127 + i); r.name[127 + i] = 0; break;   // around the longest name a response can hold
        case 3: strcpy(r.name, "control"); break;
        case 4: r.name[0] = 0; break;
    }
}
static bool simple_names;
static void open_sink(xtr::logger& lg)
{
    Reg& r = reg[n_reg]; if (simple_names) { r.name[0] = 'A' + n_reg; r.name[1] = 0; } else set_name(r, n_reg);
    r.level = L(xsym_choose("initial", 2) ? 3 : 5);
    r.s.emplace(lg.get_sink(r.name)); r.s->set_level(r.level); r.open = true; n_reg++;
}
static void log_some(unsigned i)
{
    Reg& r = reg[i]; if (r.level == L::none) return;
    const unsigned cap = 128 / REC, n = xsym_choose("many", 2) ? cap + 1 + i : 1;
    // the application's thread alone runs here, so the free space is known
    for (unsigned k = 0; k < n; k++) { const bool room = logged[i] - printed[i] < cap; XTR_TRY_LOG_TS(*r.s, 0, "{}", counted{i}); if (room) logged[i]++; else dropped[i]++; }
}
template<typename F> static int ask(F& f)
{
    int c; Atomic a; c = client_connect(); client_send(c, &f, sizeof f); client_progress(); return c;
}
static void make_pattern(pattern& p)
{
    Atomic a;
    const int t = (int)xsym_choose("type", 4);
    p.type = pattern_type_t(t); p.ignore_case = xsym_choose("icase", 2); strcpy(p.text, "pat");
    mt.type = t; mt.icase = p.ignore_case; mt.n = 3; memcpy(mt.text, "pat", 4); mt.valid = t == 3 || t == 0 || xsym_choose("valid", 2); mt.names = 0;
}
static bool matches(const Reg& r) { if (mt.type == 0) return true; for (unsigned i = 0; i < mt.names; i++) if (strcmp(mt.name[i].s, r.name) == 0) return mt.name[i].m; xfail("every registered sink is matched against the pattern"); }
static bool exact = true;
static bool is_error(const Conn& c) { uint32_t id; memcpy(&id, c.out[0].d, 4); return c.n_out == 1 && id == uint32_t(message_id::error) && c.out[0].n == sizeof(frame<error>) && c.out[0].d[4] != 0; }

static void check_status(const Conn& c)
{
    if (!mt.valid) { xassert(is_error(c), "an invalid pattern is answered with an error"); xsym_reach("invalid pattern"); return; }
    bool used[N_OUT] = {}; unsigned n = 0;
    for (unsigned i = 0; i < n_reg; i++) {
        Reg& r = reg[i]; if (!r.open || !matches(r)) continue;
        n++; bool found = false;
        for (unsigned k = 0; k < c.n_out && !found; k++) {
            if (used[k] || c.out[k].n != sizeof(frame<sink_info>)) continue;
            frame<sink_info> f; memcpy(&f, c.out[k].d, sizeof f);
            const size_t len = strlen(r.name), keep = len < sizeof f->name ? len : sizeof f->name - 1;
            if (f.frame_id != frame_id_t(message_id::sink_info) || f->level != r.level || f->buf_capacity != 128 || f->buf_nbytes != pend[i] || (exact ? f->dropped_count != dropped[i] : f->dropped_count > dropped[i]) || memcmp(f->name, r.name, keep) || f->name[keep]) continue;
            used[k] = found = true;
        }
        if (!found) { for (unsigned k = 0; k < c.n_out; k++) { frame<sink_info> f; memcpy(&f, c.out[k].d, sizeof f); xsym_log(f->name); xsym_log_u64("level", (uint64_t)f->level); xsym_log_u64("nbytes", f->buf_nbytes); xsym_log_u64("dropped", f->dropped_count); } xsym_log_u64("sink", i); xsym_log_u64("pend", pend[i]); xsym_log_u64("edropped", dropped[i]); }
        xassert(found, "each matching sink is reported with its true name, level, capacity, use and drops");
        if (pend[i]) xsym_reach("pending"); if (dropped[i]) xsym_reach("drops");
    }
    xassert(c.n_out == n, "no other sink is reported, and none twice");
    xsym_reach("status");
}
static void status_request()
{
    frame<status> f; make_pattern(f->pattern);
    on_poll = snapshot; int c = ask(f); xsym_quiesce();
    xassert(conns[c].consumed && !conns[c].srv_open, "the request is served");
    check_status(conns[c]);
}
static void level_request()
{
    frame<set_level> f; make_pattern(f->pattern);
    const int32_t lv = (int32_t)xsym_u32("level"); memcpy(&f->level, &lv, 4);
    int c = ask(f); xsym_quiesce();
    Conn& x = conns[c]; xassert(x.consumed && !x.srv_open, "the request is served");
    bool bad = lv < 0 || lv > 5;
    if (bad || !mt.valid) { xassert(is_error(x), "an invalid level or pattern is answered with an error"); xsym_reach("invalid request"); }
    else {
        uint32_t id; memcpy(&id, x.out[0].d, 4); xassert(x.n_out == 1 && id == uint32_t(message_id::success), "success is reported");
        for (unsigned i = 0; i < n_reg; i++) if (reg[i].open && matches(reg[i])) { reg[i].level = L(lv); xsym_reach("level set"); }
    }
    for (unsigned i = 0; i < n_reg; i++) if (reg[i].open) xassert(reg[i].s->level() == reg[i].level, "exactly the matching sinks have the requested level");
}
static std::unique_ptr<xtr::logger> start()
{
    cpu_init(); xsym_set_spin(40); s_faults = 0; simple_names = xsym_param("simple", 0);
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), test_clock(), "/cmd");
    return lg;
}
static void finish(std::unique_ptr<xtr::logger>& lg)
{
    for (unsigned i = 0; i < n_reg; i++) reg[i].s.reset();
    lg.reset();
    xassert(mt.live == 0, "compiled patterns are freed"); xassert(s_live() == 0, "descriptors closed");
    xsym_reach("done");
}
extern "C" void c15_history()
{
    auto lg = start();
    for (uint64_t k = 0; k < xsym_param("k", 3); k++)
        switch (xsym_choose("op", 3)) {
            case 0: if (n_reg == 3) xsym_end(); open_sink(*lg); break;
            case 1: { uint64_t i = xsym_choose("who", 3); if (i >= n_reg || !reg[i].open) xsym_end(); reg[i].s->close(); reg[i].open = false; break; }
            case 2: { uint64_t i = xsym_choose("who", 3); if (i >= n_reg || !reg[i].open) xsym_end(); reg[i].name[0] = 'R'; reg[i].name[1] = 'a' + (char)i; reg[i].name[2] = 0; reg[i].s->set_name(reg[i].name); break; }
        }
    xsym_quiesce();
    if (xsym_choose("status", 2)) status_request(); else level_request();
    finish(lg);
}
// The size of a record follows from how many of them fit into the queue.
static void measure(xtr::logger& lg)
{
    { auto s = lg.get_sink("measure"); xsym_quiesce(); for (int i = 0; i < 20; i++) XTR_TRY_LOG_TS(s, 0, "{}", counted{3}); }
    xassert(printed[3] > 0 && printed[3] < 20, "harness: a queue of 128 bytes holds some of 20 records"); REC = 128 / printed[3] & ~7u; xassert(128 / REC == printed[3], "harness: size of a record"); printed[3] = 0;
}
// queue use and drop counts
extern "C" void c15_counts()
{
    auto lg = start(); simple_names = true;
    measure(*lg);
    for (int i = 0; i < 2; i++) open_sink(*lg);
    xsym_quiesce();
    on_poll = snapshot;
    for (uint64_t k = 0; k < xsym_param("k", 2); k++) {
        frame<status> f; { Atomic a; mt.type = 0; mt.valid = true; mt.names = 0; }
        int c; { Atomic a; c = client_connect(); client_progress(); }
        xsym_quiesce();
        log_some((unsigned)xsym_choose("who", 2));
        if (xsym_choose("again", 2)) log_some((unsigned)xsym_choose("who", 2));
        { Atomic a; client_send(c, &f, sizeof f); client_progress(); }
        xsym_quiesce();
        xassert(conns[c].consumed && !conns[c].srv_open, "the request is served");
        exact = false; check_status(conns[c]); exact = true;
    }
    // drops are counted when reported, so only the last, settled, request is exact
    xsym_quiesce(); frame<status> f; { Atomic a; mt.type = 0; mt.valid = true; mt.names = 0; } int c = ask(f); xsym_quiesce(); check_status(conns[c]);
    finish(lg);
}
// many drops, over several reports
extern "C" void c15_drops()
{
    auto lg = start(); simple_names = true; measure(*lg); open_sink(*lg); reg[0].s->set_level(reg[0].level = L::debug); open_sink(*lg); reg[1].s->set_level(reg[1].level = L::debug); xsym_quiesce(); on_poll = snapshot;
    const unsigned cap = 128 / REC; static const uint32_t ns[] = {300, 70000};
    for (uint64_t k = 0; k < 2; k++) {
        const uint64_t w = xsym_choose("who", 2), n = ns[xsym_choose("many", 2)];
        for (uint64_t i = 0; i < n + cap; i++) { const bool room = logged[w] - printed[w] < cap; XTR_TRY_LOG_TS(*reg[w].s, 0, "{}", counted{w}); if (room) logged[w]++; else dropped[w]++; }
        xsym_quiesce(); frame<status> f; { Atomic a; mt.type = 0; mt.valid = true; mt.names = 0; } int c = ask(f); xsym_quiesce(); check_status(conns[c]);
    }
    finish(lg);
}
// requests still act on every sink while the logger waits for its sinks to be closed
static std::unique_ptr<xtr::logger>* going; static bool gone;
extern "C" void c15_shutdown()
{
    auto lg = start(); simple_names = true;
    for (int i = 0; i < 2; i++) open_sink(*lg);
    xsym_quiesce();
    going = &lg; uint64_t t = xsym_spawn([](void*) { going->reset(); gone = true; }, nullptr);
    xsym_quiesce();
    if (xsym_choose("status", 2)) status_request(); else level_request();
    for (unsigned i = 0; i < n_reg; i++) reg[i].s.reset();
    xsym_join(t); xsym_reach("done");
}

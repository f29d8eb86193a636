// C18: logger functions may be called concurrently from any threads.
#include "common.h"
#include "sock.h"
#define F "c18.cpp"
static const char* style2(xtr::log_level_t) { return "<> "; }
static xtr::logger* L; static unsigned n_logged[2]; static xtr::sink* shared_level; static unsigned n_paths;
// Lines of a thread are "<style><ts> <name> c18.cpp:<line>: <name><seq>"
static void log(xtr::sink& s, int who, const char* name)
{
    XTR_LOG(s, "{}{}", name, (char)('0' + n_logged[who])); n_logged[who]++;
}
static void one(int who, uint64_t op)
{
    const char* name = who ? "B" : "A";
    switch (op) {
        case 0: { auto s = L->get_sink(name); xassert(s.is_open(), "a sink obtained from the logger is open");
                  xassert(s.level() == xtr::log_level_t::info || s.level() == xtr::log_level_t::error, "the default level is one that was set"); log(s, who, name); break; }
        case 1: { xtr::sink s; L->register_sink(s, name); log(s, who, name); if (xsym_choose("sync", 2)) s.sync(); break; }
        case 2: L->set_log_level_style(style2); break;
        case 3: L->set_default_log_level(xtr::log_level_t::error); break;
        case 4: { static const char* const paths[2][2] = {{"/a0", "/a1"}, {"/b0", "/b1"}}; static int used[2]; L->set_command_path(paths[who][used[who]++ & 1]); } xsym_atomic_begin(); n_paths++; xsym_atomic_end(); break;
        case 5: shared_level->set_level(xtr::log_level_t::debug); break;
        case 6: { auto s = L->get_sink(name); xtr::sink c(s); s.set_name(name); log(c, who, name); s = c; log(s, who, name); break; }
    }
}
static uint64_t plan[2][2]; static uint64_t per_thread;
static void worker(void* p) { auto who = (int)(uintptr_t)p; for (uint64_t i = 0; i < per_thread; i++) one(who, plan[who][i]); }
extern "C" void c18_pair()
{
    xsym_set_spin(40);
    auto lg = make_logger(); L = lg.get();
    xtr::sink own; lg->register_sink(own, "O"); shared_level = &own;
    per_thread = xsym_param("each", 1);
    const uint64_t first = xsym_param("first", 7);
    for (auto& a : plan) for (uint64_t i = 0; i < per_thread; i++) a[i] = first < 7 && &a == &plan[0] && i == 0 ? first : xsym_choose("op", xsym_param("nops", 7));
    uint64_t th[2];
    th[0] = xsym_spawn(worker, (void*)0);
    if (xsym_param("third", 0)) { th[1] = xsym_spawn(worker, (void*)1); XTR_LOG(own, "main"); xsym_join(th[1]); }
    else worker((void*)1);
    xsym_join(th[0]);
    if (n_paths) { xsym_quiesce(); xassert(s_listening == 1, "the command socket is listening"); }
    own.close();
    lg.reset();
    // every line is whole, in one of the styles, under the name of its thread, in order
    unsigned seen[2] = {}; size_t p = 0; const unsigned main_lines = xsym_param("third", 0) ? 1 : 0; unsigned mains = 0;
    static const char ts[] = TS;
    while (p < g.n) {
        size_t q = p; while (q < g.n && g.out[q] != '\n') q++;
        const char* l = g.out + p; size_t n = q - p; p = q + 1;
        size_t o = n > 3 && memcmp(l, "<> ", 3) == 0 ? 3 : n > 2 && memcmp(l, "I ", 2) == 0 ? 2 : 0;
        bool ok = o && n > o + sizeof ts + 4 && memcmp(l + o, ts, sizeof ts - 1) == 0 && l[o + sizeof ts - 1] == ' ';
        char who = ok ? l[o + sizeof ts] : 0;
        if (ok && who == 'O') { mains++; ok = memcmp(l + n - 6, ": main", 6) == 0; }
        else if (ok && (who == 'A' || who == 'B')) { int w = who == 'B'; ok = l[n - 2] == who && l[n - 1] == '0' + (char)seen[w]; seen[w]++; }
        else ok = false;
        if (!ok) { show("line: ", l, n); xfail("a line is corrupted, misattributed or out of order"); }
    }
    xassert(seen[0] == n_logged[0] && seen[1] == n_logged[1] && mains == main_lines, "everything logged is stored");
    xassert(g.dtors == 1, "back-end destroyed once");
    xassert(s_live() == 0 && !s_bound, "no socket is left open");
    xsym_reach("done");
}

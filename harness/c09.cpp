// C09: log levels filter exactly; fatal statements are durable.
#include "common.h"
#define F "c09.cpp"
using xtr::log_level_t;
static Text t;
static bool expect_abort;
extern "C" void xm_on_abort(void)
{
    xassert(expect_abort, "only a fatal statement aborts");
    xassert(xsym_self() == 0, "the abort is made by the thread that logged");
    xassert(g.syncs == 1 && g.flush_before_sync && g.n_synced == t.n, "the fatal statement and everything before it is stored, flushed and synced before the abort");
    EXPECT_OUT(t, "the fatal statement is stored before the abort");
    xsym_reach("aborted");
    xsym_end();
}
static log_level_t any_level(const char* n) { return (log_level_t)xsym_range(n, 0, 5); }

// Every levelled macro at every level against any sink level.
static unsigned evals;
static char arg() { evals++; return 'c'; }
#define TRYALL(LV, P) \
    case P + 0: XTR_LOGL(LV, s, "{}", arg()); line = __LINE__; break; \
    case P + 1: XTR_TRY_LOGL(LV, s, "{}", arg()); line = __LINE__; break; \
    case P + 2: XTR_LOGL_TS(LV, s, TS, "{}", arg()); line = __LINE__; break; \
    case P + 3: XTR_TRY_LOGL_TS(LV, s, TS, "{}", arg()); line = __LINE__; break; \
    case P + 4: XTR_LOGL_TSC(LV, s, "{}", arg()); line = __LINE__; ts = nullptr; break; \
    case P + 5: XTR_TRY_LOGL_TSC(LV, s, "{}", arg()); line = __LINE__; ts = nullptr; break; \
    case P + 6: XTR_LOGL_RTC(LV, s, "{}", arg()); line = __LINE__; ts = nullptr; break; \
    case P + 7: XTR_TRY_LOGL_RTC(LV, s, "{}", arg()); line = __LINE__; ts = nullptr; break;
static void levelled(xtr::sink& s, log_level_t lv)
{
    unsigned e0 = evals, line = 0; const char* ts = TS;
    unsigned k = (unsigned)xsym_choose("stmt", 32);
    switch (k) { TRYALL(error, 0) TRYALL(warning, 8) TRYALL(info, 16) TRYALL(debug, 24) }
    static const char* const px[] = {"E ", "W ", "I ", "D "};
    const bool on = (unsigned)lv >= 2 + k / 8;     // statement level: error = 2 .. debug = 5
    xassert(evals == e0 + on, "arguments are evaluated once if the statement is enabled and not at all otherwise");
    size_t n0 = t.n;
    if (on) {
        if (!ts) { s.sync(); xassert(g.n > n0 + 30, "an enabled statement is logged"); static char b[27]; memcpy(b, g.out + n0 + 2, 26); b[26] = 0; ts = b; }
        t.line(px[k / 8], "N", F, line, ts) << "c\n";
        xsym_reach("enabled");
    } else xsym_reach("disabled");
}
extern "C" void c09_levels()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        xassert(s.level() == log_level_t::info, "default level");
        for (uint64_t i = 0; i < xsym_param("k", 2); i++) {
            log_level_t lv = any_level("level");
            s.set_level(lv);
            xassert(s.level() == lv, "level() returns what was set");
            levelled(s, lv);
        }
        s.sync();
        EXPECT_OUT(t, "exactly the enabled statements are logged");
    }
    lg.reset();
    EXPECT_OUT(t, "exactly the enabled statements are logged");
    xsym_reach("done");
}
// Statements without a level are logged at every sink level.
extern "C" void c09_unlevelled()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        s.set_level(any_level("level"));
        switch (xsym_choose("stmt", 4)) {
            case 0: XTR_LOG(s, "x"); t.line("I ", "N", F, __LINE__) << "x\n"; break;
            case 1: XTR_TRY_LOG(s, "x{}", 'y'); t.line("I ", "N", F, __LINE__) << "xy\n"; break;
            case 2: XTR_LOG_TS(s, TS, "x"); t.line("I ", "N", F, __LINE__) << "x\n"; break;
            case 3: XTR_TRY_LOG_TS(s, TS, "x"); t.line("I ", "N", F, __LINE__) << "x\n"; break;
        }
    }
    lg.reset();
    EXPECT_OUT(t, "a statement without a level is always logged");
    xsym_reach("done");
}
// fatal: durable, then abort; never returns.
extern "C" void c09_fatal()
{
    auto lg = make_logger();
    auto s = lg->get_sink("N");
    log_level_t lv = any_level("level");
    s.set_level(lv);
    if (xsym_choose("before", 2)) { XTR_LOG(s, "before {}", 'x'); t.line("I ", "N", F, __LINE__) << "before x\n"; }
    const bool on = lv >= log_level_t::fatal;
    expect_abort = true;
    std::string str("text");
#define EXP(TAIL) do { if (on) t.line("F ", "N", F, __LINE__) << TAIL "\n"; } while (0)
    switch (xsym_choose("stmt", 6)) {
        case 0: EXP("boom"); XTR_LOGL(fatal, s, "boom"); break;
        case 1: EXP("boom c"); XTR_LOGL(fatal, s, "boom {}", 'c'); break;
        case 2: EXP("boom text"); XTR_LOGL(fatal, s, "boom {}", str); break;
        case 3: EXP("boom"); XTR_TRY_LOGL(fatal, s, "boom"); break;
        case 4: EXP("boom c"); XTR_LOGL_TS(fatal, s, TS, "boom {}", 'c'); break;
        case 5: EXP("boom text"); XTR_TRY_LOGL_TS(fatal, s, TS, "boom {}", str); break;
    }
    xfail("a fatal statement returned");
}
// With XTR_NDEBUG defined debug statements are compiled out; others are not.
#undef XTR_LOG_MACROS_HPP
#undef XTR_NDEBUG
#define XTR_NDEBUG
#include "xtr/log_macros.hpp"
extern "C" void c09_ndebug()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        log_level_t lv = any_level("level"); s.set_level(lv);
        XTR_LOGL(debug, s, "{}", arg()); XTR_TRY_LOGL(debug, s, "{}", arg()); XTR_LOGL_TS(debug, s, TS, "{}", arg()); XTR_TRY_LOGL_TS(debug, s, TS, "{}", arg());
        xassert(evals == 0, "a compiled-out statement does not evaluate its arguments");
        XTR_LOGL(error, s, "{}", arg()); if (lv >= log_level_t::error) t.line("E ", "N", F, __LINE__) << "c\n";
        XTR_LOGL(info, s, "{}", arg()); if (lv >= log_level_t::info) t.line("I ", "N", F, __LINE__) << "c\n";
    }
    lg.reset();
    EXPECT_OUT(t, "debug statements are compiled out, others filtered by level");
    xsym_reach("done");
}

// C08: closing a sink or logger loses nothing and leaves nothing behind.
#include "common.h"
#define F "c08.cpp"
static std::string_view bytes(const uint64_t& v) { return {(const char*)&v, 8}; }

// counts its destruction by the background thread, after its statement was processed
static int done, printed;
struct obj { char c; ~obj() { if (xsym_self() != 0) done++; } };
template<> struct fmt::formatter<obj> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const obj& r, C& c) const { printed++; auto o = c.out(); *o++ = r.c; return o; }
};
static Text t;
static void emit(xtr::sink& s, unsigned kind)
{
    switch (kind) {
        case 0: XTR_LOG(s, "x"); t.line("I ", "N", F, __LINE__) << "x\n"; break;
        case 1: { raw8 r{xsym_u64("r")}; XTR_LOG(s, "{}", r); t.line("I ", "N", F, __LINE__) << bytes(r.v) << "\n"; break; }
        case 2: { std::string_view v("ab cdefgh abcdefgh abcdefgh abcdefgh abcdefgh", 22 * (1 + xsym_choose("len", 2))); XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << v << "\n"; break; }
    }
}
// A heap sink is logged to, closed or destroyed, and its memory reused at once.
extern "C" void c08_sink()
{
    xsym_set_spurious(xsym_param("spurious", 0));
    uint64_t mark = xsym_heap_mark(), vm = xsym_vm_live();
    auto lg = make_logger();
    int rounds_last = 0;
    const uint64_t rounds = xsym_param("rounds", 2);
    for (uint64_t r = 0; r < rounds; r++) {
        auto* s = new xtr::sink();
        lg->register_sink(*s, "N");
        for (uint64_t i = xsym_choose("n", xsym_param("k", 2) + 1); i; i--) emit(*s, (unsigned)xsym_choose("kind", 3));
        int last = (int)xsym_choose("last", 2), p0 = rounds_last;
        rounds_last += last;
        if (last) { char c = (char)xsym_u8("o"); XTR_LOG(*s, "{}", obj{c}); t.line("I ", "N", F, __LINE__) << c << "\n"; }
        if (xsym_choose("close", 2)) {
            s->close();
            xassert(!s->is_open(), "closed");
            if (last) xassert(printed == p0 + 1 && done == p0 + 1, "the last statement was processed when close() returned");
        }
        delete s;                                   // frees; any later use is a violation
        if (last) xassert(printed == p0 + 1 && done == p0 + 1, "the last statement was processed when the sink was destroyed");
    }
    lg.reset();
    EXPECT_OUT(t, "everything logged before closing is stored");
    xassert(g.dtors == 1, "the back-end is destroyed exactly once");
    xassert(g.n_flushed == g.n, "the back-end was flushed last");
    xassert(xsym_nthreads() == 1, "the background thread has ended");
    xassert(xsym_vm_live() == vm, "no mapping is left behind");
    xassert(xsym_heap_live(mark) == 0, "no memory is left behind");
    xsym_reach("done");
}
// The logger is destroyed while another thread still logs to and closes its sink.
static xtr::logger* L; static xtr::sink* S;
static void closer(void*)
{
    emit(*S, 1); emit(*S, 0);
    if (xsym_choose("close", 2)) S->close();
    delete S;
}
extern "C" void c08_logger()
{
    xsym_set_spurious(xsym_param("spurious", 0));
    auto lg = make_logger();
    S = new xtr::sink(); lg->register_sink(*S, "N");
    if (xsym_choose("early", 2)) emit(*S, 0);
    uint64_t th = xsym_spawn(closer, nullptr);
    lg.reset();                                     // waits for the sink
    xassert(g.dtors == 1, "the back-end is destroyed exactly once, before the logger's destructor returns");
    EXPECT_OUT(t, "everything logged is stored when the logger's destructor returns");
    xsym_join(th);
    xsym_reach("done");
}
// Two threads close their sinks while a third closes the logger.
static xtr::sink* SS[2]; static unsigned n_open;
static void closer2(void* p)
{
    auto i = (uintptr_t)p;
    XTR_LOG(*SS[i], "x");
    delete SS[i];
    xsym_atomic_begin(); n_open--; xsym_atomic_end();
}
extern "C" void c08_three()
{
    auto lg = make_logger();
    uint64_t th[2];
    n_open = 2;
    for (uintptr_t i = 0; i < 2; i++) { SS[i] = new xtr::sink(); lg->register_sink(*SS[i], "N"); }
    for (uintptr_t i = 0; i < 2; i++) th[i] = xsym_spawn(closer2, (void*)i);
    lg.reset();
    xassert(g.dtors == 1, "the back-end is destroyed exactly once, before the logger's destructor returns");
    for (int i = 0; i < 2; i++) xsym_join(th[i]);
    xassert(n_open == 0, "all sinks were closed");
    unsigned lines = 0; for (size_t i = 0; i < g.n; i++) lines += g.out[i] == '\n';
    xassert(lines == 2, "everything logged is stored");
    xsym_reach("done");
}
// The stream of a closed sink may be restarted: registration, assignment.
extern "C" void c08_many()
{
    auto lg = make_logger();
    {
        xtr::sink a, b;
        for (uint64_t i = 0; i < xsym_param("k", 4); i++)
            switch (xsym_choose("op", 5)) {
                case 0: if (!a.is_open()) lg->register_sink(a, "N"); else emit(a, 0); break;
                case 1: if (!b.is_open()) lg->register_sink(b, "N"); else { emit(b, 1); b.sync(); } break;
                case 2: a.close(); xassert(!a.is_open(), "closed"); break;
                case 3: b.close(); xassert(!b.is_open(), "closed"); break;
                case 4: if (a.is_open()) { emit(a, 2); a.sync(); } break;
            }
    }
    lg.reset();
    unsigned lines = 0; for (size_t i = 0; i < g.n; i++) lines += g.out[i] == '\n';
    xassert(g.n == t.n, "everything logged is stored");
    xassert(g.dtors == 1, "the back-end is destroyed exactly once");
    xsym_reach("done");
}

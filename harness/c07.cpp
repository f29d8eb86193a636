// C07: sync() returns only after everything logged before it is stored and synced.
#include "common.h"
#define F "c07.cpp"
static std::string_view bytes(const uint64_t& v) { return {(const char*)&v, 8}; }

// One sink: any mix of statements and sync() calls.  What the back-end recorded
// is read without further synchronisation, so a missing ordering is a race.
extern "C" void c07_history()
{
    xsym_set_spurious(xsym_param("spurious", 0));
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        const uint64_t k = xsym_param("k", 3);
        for (uint64_t i = 0; i < k; i++)
            switch (xsym_choose("kind", 4)) {
                case 0: XTR_LOG(s, "x"); t.line("I ", "N", F, __LINE__) << "x\n"; break;
                case 1: { raw8 r{xsym_u64("r")}; XTR_LOG(s, "{}", r); t.line("I ", "N", F, __LINE__) << bytes(r.v) << "\n"; break; }
                case 2: { std::string_view v("ab cdefgh abcdefgh abcdefgh", 9 * (1 + xsym_choose("len", 3))); XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << v << "\n"; break; }
                case 3: {
                    unsigned before = g.syncs;   // only sync() makes the background thread change this
                    s.sync();
                    xassert(g.syncs == before + 1, "the back-end is synced by each sync()");
                    xassert(g.n_synced == t.n, "everything logged before sync() is in the back-end when it is synced");
                    xassert(g.flush_before_sync, "the back-end is flushed before it is synced");
                    EXPECT_OUT(t, "the data stored by sync() is what was logged");
                    xsym_reach("synced");
                }
            }
    }
    lg.reset();
    EXPECT_OUT(t, "the log contains exactly the statements made, in order");
    xsym_reach("done");
}
// Two threads, a sink each: sync() covers at least the caller's own lines.
static xtr::logger* L;
static unsigned count(const char* who, size_t upto)
{
    unsigned k = 0;
    for (size_t i = 0; i < upto;) { if (g.out[i + 29] == *who) k++; while (i < upto && g.out[i] != '\n') i++; i++; }
    return k;
}
static void worker(const char* who)
{
    auto s = L->get_sink(who);
    XTR_LOG(s, "1"); XTR_LOG(s, "2 {}", 'c');
    s.sync();
    xsym_atomic_begin();   // the other thread's lines may be arriving
    xassert(count(who, g.n_synced) == 2, "the caller's lines were stored when its sync() returned");
    xsym_atomic_end();
    XTR_LOG(s, "3");
    s.sync();
    xsym_atomic_begin();
    xassert(count(who, g.n_synced) == 3, "the caller's lines were stored when its second sync() returned");
    xassert(g.syncs >= 2, "the back-end was synced");
    xsym_atomic_end();
}
static void thread_b(void*) { worker("B"); }
extern "C" void c07_two()
{
    xsym_set_spurious(xsym_param("spurious", 0));
    auto lg = make_logger(); L = lg.get();
    uint64_t t = xsym_spawn(thread_b, nullptr);
    worker("A");
    xsym_join(t);
    lg.reset();
    xassert(count("A", g.n) == 3 && count("B", g.n) == 3, "all lines present");
    xsym_reach("done");
}
// Two sinks on one thread: sync on one covers its own lines whatever is pending on the other.
extern "C" void c07_sinks()
{
    auto lg = make_logger();
    {
        auto a = lg->get_sink("A"); auto b = lg->get_sink("B");
        unsigned na = 0, nb = 0;
        for (uint64_t i = 0; i < xsym_param("k", 4); i++)
            switch (xsym_choose("kind", 4)) {
                case 0: XTR_LOG(a, "x"); na++; break;
                case 1: XTR_LOG(b, "{}", 'c'); nb++; break;
                case 2: a.sync(); xsym_atomic_begin(); xassert(count("A", g.n_synced) == na, "all of A's lines synced"); xassert(g.flush_before_sync, "flushed before sync"); xsym_atomic_end(); break;
                case 3: b.sync(); xsym_atomic_begin(); xassert(count("B", g.n_synced) == nb, "all of B's lines synced"); xassert(g.flush_before_sync, "flushed before sync"); xsym_atomic_end(); xsym_reach("synced"); break;
            }
    }
    lg.reset();
    xsym_reach("done");
}

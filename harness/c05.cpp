// C05: non-blocking logging never waits; drops are whole and accounted for.
#include "common.h"
#define F "c05.cpp"
using namespace std::literals;
static std::string_view bytes(const uint64_t& v) { return {(const char*)&v, 8}; }
static char printable(const char* n) { uint8_t c = xsym_u8(n); xsym_assume(c >= ' ' && c <= '~' && c != '\\' && c != '<'); return (char)c; }

// Expected lines, in order; each may be present in full, truncated (if it has a
// string argument) or absent.
struct Exp { char full[160]; size_t n; char trunc[160]; size_t tn; bool str; };
static Exp ex[10]; static unsigned n_ex;
static void begin(Text& t, unsigned line) { t.n = 0; t.lines = 0; t.line("I ", "N", F, line); }
static void add(const Text& full, const Text* trunc) {
    Exp& e = ex[n_ex++]; memcpy(e.full, full.s, full.n); e.n = full.n; e.str = trunc != nullptr;
    if (trunc) { memcpy(e.trunc, trunc->s, trunc->n); e.tn = trunc->n; }
}
static Text f, u;
#define TRY(...) do { xsym_nowait(1); __VA_ARGS__; xsym_nowait(0); } while (0)
static void emit(xtr::sink& s, unsigned kind)
{
    switch (kind) {
        case 0: TRY(XTR_TRY_LOG(s, "plain")); begin(f, __LINE__); f << "plain\n"; add(f, nullptr); break;
        case 1: { raw8 r{xsym_u64("r")}; TRY(XTR_TRY_LOG(s, "v {}", r)); begin(f, __LINE__); f << "v " << bytes(r.v) << "\n"; add(f, nullptr); break; }
        case 2: { size_t n = 1 + 20 * xsym_choose("len", 4); char z[64]; memset(z, 'z', n); z[0] = printable("z"); z[n] = 0; const char* p = z;
            TRY(XTR_TRY_LOG(s, "s {}", p)); begin(f, __LINE__); begin(u, __LINE__); f << "s " << std::string_view(z, n) << "\n"; u << "s <truncated>\n"; add(f, &u); break; }
        case 3: { size_t n = 1 + 45 * xsym_choose("len", 4); char z[180]; memset(z, 'y', n); z[n - 1] = printable("z");
            TRY(XTR_TRY_LOG(s, "sv {}", std::string_view(z, n))); begin(f, __LINE__); begin(u, __LINE__); f << "sv " << std::string_view(z, n) << "\n"; u << "sv <truncated>\n"; add(f, &u); break; }
        case 4: { struct big { raw8 a[3]; }; raw8 a{xsym_u64("a")}, b{1}, c{2}; TRY(XTR_TRY_LOGL_TS(info, s, "0", "{}{}{}", a, b, c)); f.n = 0; f.lines = 0; f.line("I ", "N", F, __LINE__, "0") << bytes(a.v) << bytes(b.v) << bytes(c.v) << "\n";
            u.n = 0; u.lines = 0; u.line("I ", "N", F, __LINE__ - 1, "<truncated>") << bytes(a.v) << bytes(b.v) << bytes(c.v) << "\n"; add(f, &u); break; } // the timestamp is a string here
    }
}
// Match the output against the expectations; returns the number of absent lines
// and adds up the drop reports.
static unsigned reported;
static unsigned match()
{
    size_t i = 0; unsigned k = 0, absent = 0; bool trunc = false;
    while (i < g.n) {
        // a drop report: "W <ts> N: <n> messages dropped\n"
        if (g.out[i] == 'W' && g.out[i + 30] == ':') {
            size_t j = i + 32; unsigned v = 0; while (g.out[j] >= '0' && g.out[j] <= '9') v = v * 10 + (g.out[j++] - '0');
            static const char tail[] = " messages dropped\n";
            xassert(v > 0 && j + sizeof tail - 1 <= g.n && memcmp(g.out + j, tail, sizeof tail - 1) == 0, "well-formed drop report");
            reported += v; i = j + sizeof tail - 1; continue;
        }
        bool ok = false;
        for (; k < n_ex && !ok; k++) {
            Exp& e = ex[k];
            if (i + e.n <= g.n && memcmp(g.out + i, e.full, e.n) == 0) { i += e.n; ok = true; }
            else if (e.str && i + e.tn <= g.n && memcmp(g.out + i, e.trunc, e.tn) == 0) { i += e.tn; ok = true; trunc = true; }
            else absent++;
        }
        if (!ok) { show("got: ", g.out, g.n); xfail("output consists of whole messages in order"); }
    }
    absent += n_ex - k;
    if (trunc) xsym_reach("truncated");
    if (absent) xsym_reach("dropped"); else xsym_reach("all logged");
    return absent;
}
extern "C" void c05_history()
{
    auto lg = make_logger();
    const uint64_t k = xsym_param("k", 3);
    {
        auto s = lg->get_sink("N");
        if (xsym_choose("settled", 2)) xsym_quiesce();
        for (uint64_t i = 0; i < k; i++) {
            emit(s, (unsigned)xsym_choose("kind", 5));
            if (i + 1 < k && xsym_choose("drain", 2)) xsym_quiesce();   // the background thread catches up
        }
        // a blocking statement waits for room; after sync() the drops are reported
        XTR_LOG(s, "end"); begin(f, __LINE__); f << "end\n"; add(f, nullptr);
        if (xsym_choose("sync", 2)) { s.sync(); xsym_quiesce(); }
        else if (xsym_choose("late drop", 2)) emit(s, 1);           // may be dropped just before the sink is closed
    }
    lg.reset();
    unsigned a = match();
    if (a != reported) { xsym_log_u64("absent", a); xsym_log_u64("reported", reported); show("got: ", g.out, g.n); }
    xassert(a == reported, "the reported drops add up to exactly the messages dropped");
    xsym_reach("done");
}
// The number of drops is exact for any number of attempts on a full queue.
extern "C" void c05_count()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        uint64_t k = 1 + xsym_choose("k", xsym_param("max", 24));
        for (uint64_t i = 0; i < k; i++) {
            TRY(XTR_TRY_LOG(s, "m")); begin(f, __LINE__); f << "m\n"; if (n_ex < 9) add(f, nullptr); else n_ex = n_ex;
        }
        s.sync(); xsym_quiesce();
        unsigned lines = 0, rep = 0;
        for (size_t i = 0; i < g.n;) {
            if (g.out[i] == 'W') { size_t j = i + 32; unsigned v = 0; while (g.out[j] >= '0' && g.out[j] <= '9') v = v * 10 + (g.out[j++] - '0'); rep += v; }
            else lines++;
            while (g.out[i] != '\n') i++; i++;
        }
        xassert(lines + rep == k, "every attempt is either logged or counted as dropped");
        if (rep) xsym_reach("dropped");
        xassert(lines == (k < 16 ? k : 16), "messages are dropped only when the queue is full");
    }
}
// ... and for large numbers of drops, reported when the queue is read or when the sink is closed.
extern "C" void c05_many()
{
    auto lg = make_logger(); const uint64_t ks[] = {300, 66000}, k = ks[xsym_choose("k", 2)]; uint64_t pre = 0;
    {
        auto s = lg->get_sink("N"); xsym_quiesce();
        const uint64_t p = xsym_choose("wrapped", 2) ? 5 : 0; for (uint64_t i = 0; i < p; i++) XTR_LOG(s, "p"); xsym_quiesce(); pre = p;
        for (uint64_t i = 0; i < k; i++) { xsym_nowait(1); XTR_TRY_LOG(s, "m"); xsym_nowait(0); }
        xsym_set_preempt(1);
        if (xsym_choose("sync", 2)) { s.sync(); xsym_quiesce(); } else if (xsym_choose("stay", 2)) xsym_quiesce();
    }
    lg.reset();
    uint64_t lines = 0, rep = 0;
    for (size_t i = 0; i < g.n;) {
        if (g.out[i] == 'W') { size_t j = i + 32; uint64_t v = 0; while (g.out[j] >= '0' && g.out[j] <= '9') v = v * 10 + (g.out[j++] - '0'); rep += v; } else lines++;
        while (g.out[i] != '\n') i++; i++;
    }
    xassert(lines + rep == k + pre, "every attempt is either logged or counted as dropped");
    xsym_reach("done");
}

// The count is exact however attempts and collection interleave.
using Ring = xtr::detail::synchronized_ring_buffer<64>;
static Ring* rq; static unsigned n_refused, n_try;
static void dropper(void*)
{
    for (unsigned i = 0; i < n_try; i++) {
        xsym_nowait(1); auto sp = rq->write_span<void(xtr::non_blocking_tag)>(8); xsym_nowait(0);
        if (sp.empty()) n_refused++; else rq->reduce_writable(8);
    }
}
extern "C" void c05_ring()
{
    rq = new Ring(); n_try = (unsigned)xsym_param("n", 3);
    rq->reduce_writable(64);
    uint64_t t = xsym_spawn(dropper, nullptr);
    uint64_t sum = 0;
    for (uint64_t i = 0; i < 2; i++) {
        sum += rq->dropped_count();
        if (xsym_choose("read", 2)) rq->reduce_readable(rq->read_span().size());
    }
    xsym_join(t);
    sum += rq->dropped_count();
    xassert(sum == n_refused, "every refused request is counted exactly once");
    xassert(rq->dropped_count() == 0, "drops are reported once");
    if (sum) xsym_reach("dropped"); else xsym_reach("none dropped");
    delete rq;
}
// A drop while the background thread is collecting the count of earlier drops.
extern "C" void c05_race()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        xsym_quiesce();
        TRY(XTR_TRY_LOG(s, "plain")); begin(f, __LINE__); f << "plain\n"; add(f, nullptr);
        for (int i = 0; i < 3; i++) { char z[91]; memset(z, 'y', sizeof z);
            TRY(XTR_TRY_LOG(s, "sv {}", std::string_view(z, 91))); begin(f, __LINE__); begin(u, __LINE__); f << "sv " << std::string_view(z, 91) << "\n"; u << "sv <truncated>\n"; add(f, &u); }
        for (int i = 0; i < 2; i++) { TRY(XTR_TRY_LOG(s, "{}{}", raw8{2}, raw8{3})); begin(f, __LINE__); f << std::string_view("\2\0\0\0\0\0\0\0\3\0\0\0\0\0\0\0", 16) << "\n"; add(f, nullptr); }
        s.sync(); xsym_quiesce();
    }
    lg.reset();
    unsigned a = match();
    if (a != reported) { xsym_log_u64("absent", a); xsym_log_u64("reported", reported); show("got: ", g.out, g.n); }
    xassert(a == reported, "the reported drops add up to exactly the messages dropped");
    xsym_reach("done");
}

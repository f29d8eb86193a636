// C02: every blocking statement appears exactly once, whole and in order.
#include "common.h"
#define F "c02.cpp"
using namespace std::literals;

static char printable(const char* n) { uint8_t c = xsym_u8(n); xsym_assume(c >= ' ' && c <= '~' && c != '\\'); return (char)c; }
struct alignas(32) wide { uint64_t a, b; };
template<> struct fmt::formatter<wide> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const wide& w, C& c) const { auto o = c.out(); char b[16]; memcpy(b, &w.a, 8); memcpy(b + 8, &w.b, 8); for (char x : b) *o++ = x; return o; }
};
static std::string_view bytes(const uint64_t& v) { return {(const char*)&v, 8}; }

// one statement of a chosen kind; its arguments are symbolic
static void emit(xtr::sink& s, const char* name, Text& t, unsigned kind)
{
    switch (kind) {
        case 0: XTR_LOG(s, "hello"); t.line("I ", name, F, __LINE__) << "hello\n"; break;
        case 1: { char c = (char)xsym_u8("c"); XTR_LOG(s, "a {} b", c); t.line("I ", name, F, __LINE__) << "a " << c << " b\n"; break; }
        case 2: { raw8 r{xsym_u64("r")}; char c = (char)xsym_u8("c"); XTR_LOGL(error, s, "{}{}{}", c, r, c); t.line("E ", name, F, __LINE__) << c << bytes(r.v) << c << "\n"; break; }
        case 3: { char z[8]; size_t n = xsym_choose("len", 3) * 3; for (size_t i = 0; i < n; i++) z[i] = printable("z"); z[n] = 0; const char* p = z; XTR_LOGL(warning, s, "s={}", p); t.line("W ", name, F, __LINE__) << "s=" << std::string_view(z, n) << "\n"; break; }
        case 4: { std::string l(41, 'x'); l[0] = printable("l"); l[40] = printable("l"); XTR_LOG(s, "{}", l); t.line("I ", name, F, __LINE__) << std::string_view(l) << "\n"; break; }
        case 5: { char q[21]; memset(q, 'q', 21); q[20] = printable("q"); raw8 r{xsym_u64("r")}; XTR_LOG(s, "{} {} {}", std::string_view(q, 21), r, "k"); t.line("I ", name, F, __LINE__) << std::string_view(q, 21) << ' ' << bytes(r.v) << " k\n"; break; }
        case 6: { wide w{xsym_u64("w"), xsym_u64("w")}; XTR_LOG(s, "{}", w); t.line("I ", name, F, __LINE__) << bytes(w.a) << bytes(w.b) << "\n"; break; }
    }
}

// Histories: k statements of any kinds on one sink; the queue (128 bytes) wraps
// and fills; interleavings with the background thread.
extern "C" void c02_history()
{
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        const uint64_t k = xsym_param("k", 3);
        for (uint64_t i = 0; i < k; i++) emit(s, "N", t, (unsigned)xsym_choose("kind", 7));
    }
    lg.reset();
    EXPECT_OUT(t, "the log contains exactly the statements made, in order");
    xassert(g.dtors == 1, "the back-end is destroyed");
    xsym_reach("done");
}

// Two logging threads with a sink each.
static xtr::logger* L;
static Text ta, tb;
static void thread_b(void*)
{
    auto s = L->get_sink("B");
    raw8 r{xsym_u64("b")};
    XTR_LOG(s, "one"); tb.line("I ", "B", F, __LINE__) << "one\n";
    XTR_LOG(s, "two {}", r); tb.line("I ", "B", F, __LINE__) << "two " << bytes(r.v) << "\n";
}
// Split the output: every line must be the next expected line of A or of B.
static void check_merge()
{
    size_t i = 0; unsigned a = 0, b = 0;
    while (i < g.n) {
        // names differ, so at most one of the two can match
        Text* t = g.out[i + 29] == 'A' ? &ta : &tb; unsigned& k = t == &ta ? a : b;
        if (k >= t->lines || i + t->end_of(k) - t->start[k] > g.n) { show("got: ", g.out, g.n); xfail("no line is repeated or invented"); }
        size_t n = t->end_of(k) - t->start[k];
        if (memcmp(g.out + i, t->s + t->start[k], n) != 0) { show("got: ", g.out, g.n); xfail("output is an interleaving of the sinks' whole lines, in order"); }
        i += n; k++;
    }
    xassert(a == ta.lines && b == tb.lines, "no line lost");
}
extern "C" void c02_two()
{
    auto lg = make_logger(); L = lg.get();
    uint64_t t = xsym_spawn(thread_b, nullptr);
    {
        auto s = lg->get_sink("A");
        char c = (char)xsym_u8("a"); xsym_assume(c != '\n');
        XTR_LOG(s, "x{}", c); ta.line("I ", "A", F, __LINE__) << "x" << c << "\n";
        XTR_LOG(s, "y"); ta.line("I ", "A", F, __LINE__) << "y\n";
    }
    xsym_join(t);
    lg.reset();
    check_merge();
    xsym_reach("done");
}
// Several sinks used by one thread, sinks opened and closed in between.
extern "C" void c02_sinks()
{
    auto lg = make_logger();
    {
        auto a = lg->get_sink("A");
        raw8 r{xsym_u64("a")};
        XTR_LOG(a, "1{}", r); ta.line("I ", "A", F, __LINE__) << "1" << bytes(r.v) << "\n";
        {
            auto b = lg->get_sink("B");
            XTR_LOG(b, "1"); tb.line("I ", "B", F, __LINE__) << "1\n";
            XTR_LOG(a, "2"); ta.line("I ", "A", F, __LINE__) << "2\n";
            XTR_LOG(b, "2{}", r); tb.line("I ", "B", F, __LINE__) << "2" << bytes(r.v) << "\n";
        }
        XTR_LOG(a, "3"); ta.line("I ", "A", F, __LINE__) << "3\n";
        auto c = lg->get_sink("B");
        XTR_LOG(c, "3"); tb.line("I ", "B", F, __LINE__) << "3\n";
        XTR_LOG(a, "4"); ta.line("I ", "A", F, __LINE__) << "4\n";
    }
    lg.reset();
    check_merge();
    xsym_reach("done");
}

// Scale: many sinks, and many statements on one sink; the storage compares the lines as they come.
struct Sc { uint64_t next; char line[160]; size_t n; unsigned seen[512]; uint64_t flushed, lines; } sc;
static uint64_t sc_val; static void sc_check();
struct line_storage : xtr::storage_interface {
    char b[96];
    std::span<char> allocate_buffer() override { return {b, sizeof b}; }
    void submit_buffer(char* p, std::size_t n) override { for (size_t i = 0; i < n; i++) { xassert(sc.n < sizeof sc.line, "a line is not longer than expected"); sc.line[sc.n++] = p[i]; if (p[i] == '\n') { sc_check(); sc.n = 0; sc.lines++; } } }
    void flush() override { sc.flushed = sc.lines; } void sync() noexcept override {} int reopen() noexcept override { return 0; }
};
static unsigned sc_sinks;
enum { sc_line = __LINE__ + 1 };
static void sc_log(xtr::sink& s, unsigned i) { XTR_LOG(s, "{} {}", i, raw8{sc_val}); }
static void sc_check()
{
    // sink k logs its k-th lines in order; the name of sink k is "S<k>"
    static Text x; x.n = x.lines = 0; size_t q = 2 + sizeof(TS); unsigned k = 0; xassert(sc.line[q] == 'S', "the name of a sink"); for (q++; sc.line[q] >= '0' && sc.line[q] <= '9'; q++) k = k * 10 + sc.line[q] - '0';
    xassert(k < (sc_sinks ? sc_sinks : 1), "the name of a sink");
    char name[8] = "S"; unsigned d = 0, v = k; char r[6]; do r[d++] = '0' + v % 10; while (v /= 10); for (unsigned i = 0; i < d; i++) name[1 + i] = r[d - 1 - i]; name[1 + d] = 0;
    x.line("I ", name, F, (unsigned)sc_line) << (unsigned)sc.seen[k]++ << ' ' << bytes(sc_val) << "\n";
    if (!same(sc.line, sc.n, x.s, x.n)) { show("got:      ", sc.line, sc.n); show("expected: ", x.s, x.n); xfail("each line is the next statement of its sink"); }
}
extern "C" void c02_sinks_many()
{
    sc_val = 0x4142434445464700 | (uint8_t)printable("v"); xsym_set_spin(4000); auto lg = make_logger<line_storage>(); const unsigned n = sc_sinks = (unsigned)xsym_param("sinks", 300), rounds = 3;
    static xtr::sink* S[512]; for (unsigned i = 0; i < n; i++) { std::string nm("S"); char r[6]; unsigned d = 0, v = i; do r[d++] = '0' + v % 10; while (v /= 10); while (d) nm += r[--d]; S[i] = new xtr::sink(lg->get_sink(nm)); }
    for (unsigned k = 0; k < rounds; k++) for (unsigned i = 0; i < n; i++) sc_log(*S[i], k);
    xsym_quiesce(); { xsym_atomic_begin(); xassert(sc.lines == (uint64_t)n * rounds && sc.flushed == sc.lines, "every statement appears, and is flushed"); xsym_atomic_end(); }
    const uint64_t order = xsym_choose("order", 3);
    for (unsigned i = 0; i < n; i++) { const unsigned j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; delete S[j]; S[j] = nullptr; if (i % 50 == 0) for (unsigned m = 0; m < n; m++) if (S[m]) sc_log(*S[m], rounds + i / 50); }
    lg.reset();
    uint64_t want = 0; for (unsigned i = 0; i < n; i++) want += sc.seen[i]; xassert(sc.lines == want, "lines");
    for (unsigned i = 0; i < n; i++) { const unsigned j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; xassert(sc.seen[j] == rounds + (i + 49) / 50, "every statement of every sink appears"); }
    xsym_reach("done");
}
extern "C" void c02_lines_many()
{
    sc_val = 0x4142434445464748; auto lg = make_logger<line_storage>(); const unsigned n = (unsigned)xsym_param("n", 70000);
    { auto s = lg->get_sink("S0"); for (unsigned i = 0; i < n; i++) sc_log(s, i); }
    lg.reset(); xassert(sc.lines == n, "every statement appears"); xsym_reach("done");
}

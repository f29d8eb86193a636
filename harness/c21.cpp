// C21: a failing formatter or back-end cannot take down logging.
#define OUT_MAX 16384
#define STORE_BUF 1000
#include "common.h"
#include <stdexcept>
#include <system_error>
#define F "c21.cpp"
static char err[1024]; static size_t n_err; static unsigned reports;
extern "C" void xm_stderr(const char* p, size_t n) { for (size_t i = 0; i < n && n_err < sizeof err - 1; i++) { err[n_err++] = p[i]; reports += p[i] == '\n'; } }
static bool reported(const char* s) { return strstr(err, s) != nullptr; }
struct my_error : std::exception { const char* what() const noexcept override { return "mine"; } };
// An argument that counts its copies and may throw while being formatted
static int live; static unsigned formatted;
struct targ {
    uint8_t fail, type; char c;
    targ(uint8_t f, uint8_t t, char x) : fail(f), type(t), c(x) { xsym_atomic_begin(); live++; xsym_atomic_end(); }
    targ(const targ& o) noexcept : fail(o.fail), type(o.type), c(o.c) { xsym_atomic_begin(); live++; xsym_atomic_end(); }
    ~targ() { xsym_atomic_begin(); live--; xassert(live >= 0, "destroyed once"); xsym_atomic_end(); }
};
static void boom(const targ& a) { switch (a.type) { case 0: throw std::runtime_error("runtime"); case 1: throw my_error(); case 2: throw std::bad_alloc(); default: throw fmt::format_error("bad format"); } }
static const char* const whats[] = {"runtime", "mine", "bad_alloc", "bad format"};
template<> struct fmt::formatter<targ> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const targ& r, C& c) const { auto o = c.out(); if (r.fail == 1) boom(r); *o++ = r.c; *o++ = r.c; if (r.fail == 2) boom(r); return o; }
};
extern "C" void c21_format()
{
    auto lg = make_logger(); static Text t; unsigned failed = 0;
    {
        auto s = lg->get_sink("N"); xtr::sink s2 = lg->get_sink("N"); const bool two = xsym_param("two", 0);
        for (uint64_t i = 0; i < xsym_param("k", 3); i++) {
            const uint8_t fail = (uint8_t)xsym_range("fail", 0, 2), type = (uint8_t)xsym_range("type", 0, 3); const char c = (char)xsym_range("c", 'a', 'z');
            xtr::sink& d = two && xsym_choose("sink", 2) ? s2 : s;
            if (two) d.sync();
            Text u; unsigned ln = 0;
            switch (xsym_choose("stmt", 3)) {
                case 0: XTR_LOG(d, "{}", targ(fail, type, c)); u.line("I ", "N", F, __LINE__) << c << c << '\n'; break;
                case 1: XTR_LOG(d, "{} {} {}", std::string_view("str"), targ(fail, type, c), targ(0, 0, c)); u.line("I ", "N", F, __LINE__) << "str " << c << c << ' ' << c << c << '\n'; break;
                case 2: XTR_TRY_LOG_TS(d, "stamp", "{}", targ(fail, type, c)); u.line("I ", "N", F, __LINE__, "stamp") << c << c << '\n'; break;
            }
            if (two) d.sync();
            if (fail) { failed++; xsym_reach("failed"); } else t << std::string_view(u.s, u.n);
            if (fail && xsym_choose("check now", 2)) { d.sync(); xassert(reported(whats[type]), "the exception is reported on stderr"); }
        }
    }
    lg.reset();
    EXPECT_OUT(t, "the other statements are logged as usual, and nothing of the failing ones");
    xassert(reports == failed, "every failure is reported once");
    xassert(live == 0, "every argument was destroyed exactly once");
    xsym_reach("done");
}
// The same after a lot of output
extern "C" void c21_long()
{
    auto lg = make_logger(); static Text t; static char A[5001]; static const uint16_t ls[] = {100, 400, 500, 600, 1030, 2100, 5000}; const size_t n = ls[xsym_choose("length", 7)]; memset(A, 'A', n); bool failed = false;
    {
        auto s = lg->get_sink("N"); const uint8_t fail = (uint8_t)xsym_choose("fail", 3), type = (uint8_t)xsym_choose("type", 4); const char c = (char)xsym_range("c", 'a', 'z');
        if (xsym_choose("before", 2)) { XTR_LOG(s, "b"); t.line("I ", "N", F, __LINE__) << "b\n"; }
        std::string_view v(A, n); const bool nb = xsym_choose("non-blocking", 2); failed = fail;
        if (nb) XTR_TRY_LOG(s, "{} {}", xtr::nocopy(v), targ(fail, type, c)); else XTR_LOG(s, "{} {}", xtr::nocopy(v), targ(fail, type, c));
        if (!fail) t.line("I ", "N", F, __LINE__ - 1) << v << ' ' << c << c << '\n';
        if (xsym_choose("sync", 2)) s.sync();
        XTR_LOG(s, "{}", c); t.line("I ", "N", F, __LINE__) << c << '\n';
    }
    lg.reset(); EXPECT_OUT(t, "the other statements are logged as usual, and nothing of the failing ones"); xassert(reports == failed && live == 0, "reported and destroyed once"); if (failed) xsym_reach("failed"); xsym_reach("done");
}
// Back-end: any call may throw.  The statement being formatted is known from its argument.
static unsigned cur; static bool hit[12]; static uint64_t faults; static unsigned thrown;
struct seq { uint8_t n; };
template<> struct fmt::formatter<seq> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const seq& r, C& c) const { xsym_atomic_begin(); cur = r.n; xsym_atomic_end(); auto o = c.out(); *o++ = '#'; *o++ = (char)('a' + r.n); *o++ = '#'; return o; }
};
static void maybe(const char* what, bool may_lose = true)
{
    xsym_atomic_begin();
    const bool t = faults && xsym_choose(what, 2); bool mine = false;
    if (t) { faults--; thrown++; if (may_lose) hit[cur] = true; mine = xsym_choose("type", 2); }
    xsym_atomic_end();
    if (t && mine) throw my_error();
    if (t) throw std::system_error(5, std::generic_category(), "backend");
}
struct bad_storage : mem_storage {
    std::span<char> allocate_buffer() override { maybe("allocate throws"); return mem_storage::allocate_buffer(); }
    void submit_buffer(char* p, std::size_t n) override { maybe("submit throws"); mem_storage::submit_buffer(p, n); }
    void flush() override { maybe("flush throws", false); mem_storage::flush(); }
};
static const char* find(const char* h, size_t n, const char* s, size_t k) { for (size_t i = 0; i + k <= n; i++) if (memcmp(h + i, s, k) == 0) return h + i; return nullptr; }
extern "C" void c21_backend()
{
    xsym_set_spin(40);
    static const size_t sizes[] = {16, 49, 50, 51, 100, 150}; g.bufsize = sizes[xsym_choose("size", 6)];
    auto lg = make_logger<bad_storage>(); const uint64_t k = xsym_param("k", 3); Text lines[6];
    faults = xsym_param("faults", 1); cur = 11;
    {
        auto s = lg->get_sink("N");
        for (uint64_t i = 0; i < k; i++) {
            XTR_LOG(s, "{}", seq{(uint8_t)i}); lines[i].line("I ", "N", F, __LINE__) << '#' << (char)('a' + i) << '#' << '\n';
            if (xsym_choose("sync", 2)) s.sync();
        }
        s.sync();
        xsym_atomic_begin(); faults = 0; cur = 10; xsym_atomic_end();   // the back-end works again
        XTR_LOG(s, "last"); lines[k].line("I ", "N", F, __LINE__) << "last\n";
        s.sync();
        size_t from = 0; xsym_atomic_begin();
        for (uint64_t i = 0; i <= k; i++) {
            if (i < k && hit[i]) continue;
            const char* p = find(g.out + from, g.n - from, lines[i].s, lines[i].n);
            if (!p) { show("missing: ", lines[i].s, lines[i].n); show("out: ", g.out, g.n); xfail("a statement other than the failing one is missing or out of order"); }
            from = (size_t)(p - g.out) + lines[i].n;
            xassert(!find(g.out + from, g.n - from, lines[i].s, lines[i].n), "nothing is stored twice");
        }
        if (!thrown) { size_t n = 0; for (uint64_t i = 0; i <= k; i++) n += lines[i].n; xassert(g.n == n, "nothing else is stored"); }
        if (thrown) { xsym_reach("thrown"); xassert(reports == thrown, "every failure is reported once"); }
        xsym_atomic_end();
    }
    lg.reset();
    xsym_reach("done");
}

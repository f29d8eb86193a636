// C03: arguments are captured by value when logged and destroyed exactly once.
#include "common.h"
#define F "c03.cpp"
using namespace std::literals;

static int n_live, n_made, n_copied, n_formatted;      // instrumentation, outside the race detector
template<size_t A> struct alignas(A) tracked {
    uint64_t alive; uint64_t v; const void* self;
    void born() noexcept { xsym_atomic_begin(); n_live++; n_made++; xsym_atomic_end(); alive = 0x600d; self = this; xassert((uintptr_t)this % A == 0, "object constructed at a suitably aligned address"); }
    explicit tracked(uint64_t x) noexcept : v(x) { born(); }
    tracked(const tracked& o) noexcept : v(o.v) { xassert(o.alive == 0x600d && o.self == &o, "copied from a live object"); born(); xsym_atomic_begin(); n_copied++; xsym_atomic_end(); }
    tracked(tracked&& o) noexcept : v(o.v) { xassert(o.alive == 0x600d && o.self == &o, "moved from a live object"); o.v = 0; born(); }
    ~tracked() { xassert(alive == 0x600d && self == this, "destroyed once, where it was constructed"); alive = 0xdead; xsym_atomic_begin(); n_live--; xsym_atomic_end(); }
};
template<size_t A> struct fmt::formatter<tracked<A>> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const tracked<A>& t, C& c) const {
        xassert(t.alive == 0x600d && t.self == &t, "formatted object is live and was constructed where it is used");
        xassert((uintptr_t)&t % A == 0, "formatted object is aligned");
        xassert(xsym_self() != 0, "formatting happens on the background thread");
        xsym_atomic_begin(); n_formatted++; xsym_atomic_end();
        auto o = c.out(); char b[8]; memcpy(b, &t.v, 8); for (char x : b) *o++ = x; return o;
    }
};
static std::string_view bytes(const uint64_t& v) { return {(const char*)&v, 8}; }
static char printable(const char* n) { uint8_t c = xsym_u8(n); xsym_assume(c >= ' ' && c <= '~' && c != '\\'); return (char)c; }

// User-defined objects of every alignment, by copy and by move, any order.
template<size_t A> static void obj(xtr::sink& s, Text& t, bool mv, bool str)
{
    uint64_t x = xsym_u64("x");
    tracked<A> o(x);
    xsym_atomic_begin(); const int copies = n_copied; xsym_atomic_end();
    if (str) {
        char p[3] = {printable("p"), printable("p"), 0}; char p0 = p[0], p1 = p[1];
        if (mv) XTR_LOG(s, "{}{}", (const char*)p, std::move(o)); else XTR_LOG(s, "{}{}", (const char*)p, o);
        t.line("I ", "N", F, __LINE__ - 1) << p0 << p1 << bytes(x) << "\n";
        p[0] = p[1] = '!';
    } else {
        char c = (char)xsym_u8("c"), c0 = c;
        if (mv) XTR_LOG(s, "{}{}", std::move(o), c); else XTR_LOG(s, "{}{}", o, c);
        t.line("I ", "N", F, __LINE__ - 1) << bytes(x) << c0 << "\n";
        c = '!';
    }
    xsym_atomic_begin(); xassert(!mv || n_copied == copies, "an argument passed with std::move is moved, not copied"); xsym_atomic_end();
    o.v = ~x;
}
extern "C" void c03_objects()
{
    const uint64_t k = xsym_param("k", 2);
    const uint64_t mark = xsym_heap_mark();
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        for (uint64_t i = 0; i < k; i++) {
            if (xsym_choose("pad", 2)) { XTR_LOG(s, "p"); t.line("I ", "N", F, __LINE__) << "p\n"; }
            bool mv = xsym_choose("move", 2), str = xsym_choose("str", 2);
            switch (xsym_choose("align", 4)) {
                case 0: obj<8>(s, t, mv, str); break;
                case 1: obj<16>(s, t, mv, str); break;
                case 2: obj<32>(s, t, mv, str); break;
                case 3: obj<64>(s, t, mv, str); break;
            }
        }
    }
    lg.reset();
    xassert(xsym_heap_live(mark) == 0, "nothing captured is leaked");
    EXPECT_OUT(t, "each line shows the values its arguments had when it was logged");
    xassert(n_live == 0, "every captured object is destroyed");
    xassert(n_formatted == (int)k, "every captured object is formatted once");
    xsym_reach("done");
}

// Strings: the caller's memory is modified and released right after the statement.
extern "C" void c03_strings()
{
    const uint64_t mark = xsym_heap_mark();
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        const uint64_t k = xsym_param("k", 2);
        for (uint64_t i = 0; i < k; i++) {
            size_t n = xsym_choose("len", 4); if (n == 3) n = 27;
            char* b = new char[n + 1]; for (size_t j = 0; j < n; j++) b[j] = j < 3 ? printable("b") : 'b'; b[n] = 0;
            switch (xsym_choose("how", 6)) {
                case 0: XTR_LOG(s, "{}", (const char*)b); t.line("I ", "N", F, __LINE__); break;
                case 1: XTR_LOG(s, "{}", b); t.line("I ", "N", F, __LINE__); break;
                case 2: XTR_LOG(s, "{}", std::string_view(b, n)); t.line("I ", "N", F, __LINE__); break;
                case 3: { std::string q(b, n); XTR_LOG(s, "{}", q); t.line("I ", "N", F, __LINE__); q.assign("overwritten"); break; }
                case 4: { std::string q(b, n); XTR_LOG(s, "{}", std::move(q)); t.line("I ", "N", F, __LINE__); q = "reused"; break; }
                case 5: { const std::string q(b, n); XTR_LOG(s, "{}", q); t.line("I ", "N", F, __LINE__); break; }
            }
            t << std::string_view(b, n) << "\n";
            memset(b, '#', n); delete[] b;
        }
    }
    lg.reset();
    xassert(xsym_heap_live(mark) == 0, "nothing captured is leaked");
    EXPECT_OUT(t, "each line shows the string as it was when it was logged");
    xsym_reach("done");
}
// Several strings and scalars in one statement; arrays.
extern "C" void c03_mixed()
{
    const uint64_t mark = xsym_heap_mark();
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        char arr[4] = {printable("a"), printable("a"), 0, 'z'}; char a0 = arr[0], a1 = arr[1];
        std::string m(1, printable("m")); char m0 = m[0];
        auto sv = new std::string(2, printable("v")); char v0 = (*sv)[0];
        unsigned short u = (unsigned short)xsym_range("u", 0, 120); int i = -(int)xsym_range("i", 0, 12); unsigned u0 = u; int i0 = i;
        bool bo = xsym_choose("bool", 2), bo0 = bo; double d = 1.5; const void* np = nullptr; long long ll = -9000000000000000001ll;
        XTR_LOG(s, "{} {} {} {} {} {} {} {} {} {}", arr, u, m, i, std::string_view(*sv), bo, d, ll, "", np);
        t.line("I ", "N", F, __LINE__ - 1) << a0 << a1 << ' ' << u0 << ' ' << m0 << ' ' << i0 << ' ' << v0 << v0 << ' ' << (bo0 ? "true" : "false") << " 1.5 -9000000000000000001  0x0\n";
        arr[0] = '!'; u = 7777; i = 7777; m = "changed"; delete sv; bo = !bo; d = 2; ll = 0;
    }
    lg.reset();
    xassert(xsym_heap_live(mark) == 0, "nothing captured is leaked");
    EXPECT_OUT(t, "each line shows the values as they were when it was logged");
    xsym_reach("done");
}

// Records anywhere relative to the end of the queue, read in one go by a
// background thread that lags behind: objects are used where they were made.
extern "C" void c03_wrap()
{
    const uint64_t mark = xsym_heap_mark();
    auto lg = make_logger();
    static Text t;
    {
        auto s = lg->get_sink("N");
        uint64_t fill = xsym_choose("fill", 32);
        for (uint64_t i = 0; i < fill; i++) { XTR_LOG(s, "p"); t.line("I ", "N", F, __LINE__) << "p\n"; t.lines = 0; if (i % 8 == 7) xsym_quiesce(); }
        xsym_quiesce();
        bool mv = xsym_choose("move", 2), str = xsym_choose("str", 2);
        uint64_t kind = xsym_choose("kind", 6);
        for (uint64_t i = 0; i < xsym_param("k", 4); i++)
            switch (kind) {
                case 0: obj<8>(s, t, mv, str); break;
                case 1: obj<16>(s, t, mv, str); break;
                case 2: obj<32>(s, t, mv, str); break;
                case 3: obj<64>(s, t, mv, str); break;
                case 4: { std::string q(3 + i, printable("q")); char c = q[0]; XTR_LOG(s, "{}", std::move(q)); t.line("I ", "N", F, __LINE__); for (uint64_t j = 0; j < 3 + i; j++) t << c; t << "\n"; break; }
                case 5: { std::string q(17, printable("q")), u(2, 'u'); char c = q[0]; XTR_LOG(s, "{} {}", std::move(q), std::move(u)); t.line("I ", "N", F, __LINE__); for (int j = 0; j < 17; j++) t << c; t << " uu\n"; break; }
            }
    }
    lg.reset();
    xassert(xsym_heap_live(mark) == 0, "nothing captured is leaked");
    EXPECT_OUT(t, "each line shows the values its arguments had when it was logged");
    xassert(n_live == 0, "every captured object is destroyed");
    xsym_reach("done");
}

// C03: long strings, large objects and many arguments; the queue has its full size.
#define OUT_MAX 300000
#define STORE_BUF 4096
#include "common.h"
#define F "c03long.cpp"
static Text t; static char A[140000], B[140000];
static const uint32_t ls[] = {0, 1, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000};
static size_t fill(char* p, size_t n, char base) { for (size_t i = 0; i < n; i++) p[i] = (char)(base + i % 23); p[n] = 0; if (n) { p[n - 1] = (char)xsym_u8("last"); xsym_assume(p[n - 1] >= ' ' && p[n - 1] <= '~' && p[n - 1] != '\\'); } return n; }
// Two strings of any of many lengths, in every form, then a short statement.
extern "C" void c03_long()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        const uint64_t la = xsym_choose("a", 16); const size_t a = fill(A, ls[la], 'a'), b = fill(B, ls[xsym_param("pairs", 0) ? xsym_choose("b", 16) : (la * 7 + 3) % 16], 'A'); unsigned ln = 0;
        switch (xsym_choose("form", 3)) {
            case 0: { const char* p = A; std::string q(B, b); XTR_LOG(s, "{}|{}|{}", p, q, 'x'); ln = __LINE__; break; }
            case 1: { std::string p(A, a); std::string_view q(B, b); XTR_LOG(s, "{}|{}|{}", std::move(p), q, 'x'); ln = __LINE__; break; }
            case 2: { XTR_TRY_LOG(s, "{}|{}|{}", std::string_view(A, a), (const char*)B, 'x'); ln = __LINE__; break; }
        }
        t.line("I ", "N", F, ln) << std::string_view(A, a) << '|' << std::string_view(B, b) << "|x\n";
        memset(A, '#', sizeof A); memset(B, '#', sizeof B);
        XTR_LOG(s, "end {}", 7); t.line("I ", "N", F, __LINE__) << "end 7\n";
    }
    lg.reset();
    if (!same(g.out, g.n, t.s, t.n)) { size_t i = 0; while (i < g.n && i < t.n && g.out[i] == t.s[i]) i++; xsym_log_u64("length", g.n); xsym_log_u64("expected length", t.n); xsym_log_u64("first difference", i); xfail("long strings are logged completely"); }
    xsym_reach("done");
}
// Objects of many sizes and alignments and statements with many arguments.
template<size_t N, size_t Al> struct alignas(Al) blob { char d[N]; blob(char c) { memset(d, c, N); } blob(const blob& o) { memcpy(d, o.d, N); check(); } void check() const { xassert((uintptr_t)this % Al == 0, "aligned"); } ~blob() { check(); memset(d, '#', N); } };
template<size_t N, size_t Al> struct fmt::formatter<blob<N, Al>> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const blob<N, Al>& r, C& c) const { auto o = c.out(); r.check(); *o++ = r.d[0]; *o++ = r.d[N / 2]; *o++ = r.d[N - 1]; return o; }
};
static void three(char c) { t << c << c << c; }
extern "C" void c03_large()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N"); const char c = (char)xsym_u8("c"); xsym_assume(c >= ' ' && c <= '~');
        for (uint64_t k = 0; k < 2; k++)
            switch (xsym_choose("shape", 8)) {
                case 0: XTR_LOG(s, "{}", (blob<4096, 1>(c))); t.line("I ", "N", F, __LINE__); three(c); t << "\n"; break;
                case 1: XTR_LOG(s, "{}{}", 'x', (blob<256, 64>(c))); t.line("I ", "N", F, __LINE__) << 'x'; three(c); t << "\n"; break;
                case 2: XTR_LOG(s, "{}{}{}", (blob<33, 1>(c)), "str", (blob<48, 16>('k'))); t.line("I ", "N", F, __LINE__); three(c); t << "str"; three('k'); t << "\n"; break;
                case 3: XTR_LOG(s, "{}{}{}{}{}{}{}{}{}{}{}{}", 'a', 1, 'b', c, 2u, 'c', "s", 'd', std::string_view("v"), 'e', 'f', 'g'); t.line("I ", "N", F, __LINE__) << "a1b" << c << "2csdvefg\n"; break;
                case 4: XTR_LOG(s, "{}{}{}{}{}{}", (blob<40, 8>(c)), (blob<3, 1>('1')), (blob<40, 4>('2')), (blob<5, 1>('3')), (blob<128, 128>('4')), c); t.line("I ", "N", F, __LINE__); three(c); three('1'); three('2'); three('3'); three('4'); t << c << "\n"; break;
                case 5: XTR_LOG(s, "{}", (blob<40000, 8>(c))); t.line("I ", "N", F, __LINE__); three(c); t << "\n"; break;
                case 6: XTR_LOG(s, "{}{}{}{}{}{}{}{}", "a", std::string("bb"), std::string_view("ccc"), "dddd", std::string(20, 'e'), "", std::string_view(), "f"); t.line("I ", "N", F, __LINE__) << "abbcccdddd" << std::string_view("eeeeeeeeeeeeeeeeeeee", 20) << "f\n"; break;
                case 7: XTR_LOG(s, "{}{}{}", c, (blob<1, 1>('y')), true); t.line("I ", "N", F, __LINE__) << c; three('y'); t << "true\n"; break;
            }
    }
    lg.reset(); EXPECT_OUT(t, "large and many arguments are logged"); xsym_reach("done");
}

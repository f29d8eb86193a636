// C22: container, pair and tuple arguments are printed completely, for every content and size, and captured by value.
#define OUT_MAX 8192
#include "common.h"
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <tuple>
#include <vector>
#define F "c22.cpp"
static char sym(const char* n = "c") { return (char)xsym_u8(n); }
static size_t len() { return (size_t)xsym_choose("size", xsym_param("n", 3) + 1); }
template<typename It> static void seq(Text& t, It b, It e, bool map = false) { bool first = true; for (; b != e; ++b) { if (!first) t << ", "; first = false; t << *b; } }
// Sequences and sets of symbolic characters, logged by copy, by moving and through a const reference; the original is
// overwritten straight afterwards.
template<typename C> static void list(xtr::sink& s, Text& t, C c)
{
    char v[8]; size_t n = 0; for (char x : c) v[n++] = x;
    const uint64_t how = xsym_choose("how", 3);
    if (how == 0) { XTR_LOG(s, "{}", c); t.line("I ", "N", F, __LINE__); c = C(); }
    else if (how == 1) { XTR_LOG(s, "{}", std::move(c)); t.line("I ", "N", F, __LINE__); c = C(); }
    else { XTR_TRY_LOG(s, "{}", std::as_const(c)); t.line("I ", "N", F, __LINE__); c = C(); }
    t << '['; seq(t, v, v + n); t << "]\n";
}
struct small_box {              // a user-defined iterable
    char v[3]; uint8_t n;
    const char* begin() const { return v; }
    const char* end() const { return v + n; }
    bool empty() const { return n == 0; }
};
extern "C" void c22_lists()
{
    auto lg = make_logger(); static Text t;
    {
        auto s = lg->get_sink("N");
        const uint64_t kind = xsym_choose("kind", 9); const size_t n = kind == 7 || kind == 5 ? 3 : len();
        char b[8]; for (size_t i = 0; i < n; i++) b[i] = sym();
        switch (kind) {
            case 0: list(s, t, std::vector<char>(b, b + n)); break;
            case 1: list(s, t, std::list<char>(b, b + n)); break;
            case 2: list(s, t, std::deque<char>(b, b + n)); break;
            case 3: list(s, t, std::forward_list<char>(b, b + n)); break;
            case 4: { std::set<char> c(b, b + n); char p = 0; bool first = true; for (char x : c) { xassert(first || p < x, "harness: set order"); p = x; first = false; } list(s, t, c); break; }
            case 5: list(s, t, std::array<char, 3>{b[0], b[1], b[2]}); break;
            case 6: list(s, t, std::multiset<char>(b, b + n)); break;
            case 7: { if (xsym_choose("empty", 2)) { list(s, t, std::array<char, 0>{}); break; } list(s, t, std::array<char, 1>{b[0]}); break; }
            case 8: { small_box x{}; x.n = (uint8_t)n; for (size_t i = 0; i < n; i++) x.v[i] = b[i]; list(s, t, x); break; }
        }
        xsym_reach(n ? "elements" : "empty");
    }
    lg.reset();
    EXPECT_OUT(t, "every element once, in order, with the documented punctuation");
    xsym_reach("done");
}
extern "C" void c22_maps()
{
    auto lg = make_logger(); static Text t;
    {
        auto s = lg->get_sink("N");
        const size_t n = len(); char k[8], v[8];
        for (size_t i = 0; i < n; i++) { k[i] = sym("key"); v[i] = sym("value"); }
        if (xsym_choose("multi", 2)) {
            std::multimap<char, char> m; for (size_t i = 0; i < n; i++) m.insert({k[i], v[i]});
            auto p = m.begin(); XTR_LOG(s, "{}", m); t.line("I ", "N", F, __LINE__) << '{'; for (; p != m.end(); ++p) { if (p != m.begin()) t << ", "; t << p->first << ": " << p->second; } t << "}\n"; m.clear();
        } else {
            std::map<char, char> m; for (size_t i = 0; i < n; i++) m[k[i]] = v[i];
            size_t c = 0; XTR_LOG(s, "{}", m); t.line("I ", "N", F, __LINE__) << '{'; for (auto& [a, b] : m) { if (c++) t << ", "; t << a << ": " << b; } t << "}\n"; m.clear();
        }
        xsym_reach(n ? "elements" : "empty");
    }
    lg.reset();
    EXPECT_OUT(t, "every key and value once, in order, with the documented punctuation");
    xsym_reach("done");
}
extern "C" void c22_tuples()
{
    auto lg = make_logger(); static Text t;
    {
        auto s = lg->get_sink("N"); const char a = sym("a"), b = sym("b"), c = sym("c"), d = sym("d");
        switch (xsym_choose("kind", 6)) {
            case 0: XTR_LOG(s, "{}", std::tuple<char>(a)); t.line("I ", "N", F, __LINE__) << '(' << a << ")\n"; break;
            case 1: { std::pair<char, char> p(a, b); XTR_LOG(s, "{}", p); t.line("I ", "N", F, __LINE__) << '(' << a << ", " << b << ")\n"; p = {}; break; }
            case 2: XTR_LOG(s, "{}", std::make_tuple(a, b, c)); t.line("I ", "N", F, __LINE__) << '(' << a << ", " << b << ", " << c << ")\n"; break;
            case 3: { std::tuple<char, char, char, char> p(a, b, c, d); XTR_TRY_LOG(s, "{}", p); t.line("I ", "N", F, __LINE__) << '(' << a << ", " << b << ", " << c << ", " << d << ")\n"; p = {}; break; }
            case 4: XTR_LOG(s, "{} {}", std::make_pair(a, std::make_pair(b, c)), d); t.line("I ", "N", F, __LINE__) << '(' << a << ", (" << b << ", " << c << ")) " << d << '\n'; break;
            case 5: { std::vector<std::pair<char, char>> v; const size_t n = len(); for (size_t i = 0; i < n; i++) v.push_back({a, b}); XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << '['; v.clear();
                      for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << '(' << a << ", " << b << ')'; } t << "]\n"; break; }
        }
    }
    lg.reset();
    EXPECT_OUT(t, "every member once, in order, with the documented punctuation");
    xsym_reach("done");
}
// Nested containers, several per statement, numbers as elements, in a history that wraps the queue.
extern "C" void c22_nested()
{
    auto lg = make_logger(); static Text t;
    {
        auto s = lg->get_sink("N");
        for (uint64_t k = 0; k < xsym_param("k", 2); k++) {
            const size_t n = len(), m = len(); const char c = sym();
            switch (xsym_choose("kind", 4)) {
                case 0: { std::vector<std::vector<char>> v(n, std::vector<char>(m, c)); XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << '['; v.clear();
                          for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << '['; for (size_t j = 0; j < m; j++) { if (j) t << ", "; t << c; } t << ']'; } t << "]\n"; break; }
                case 1: { std::map<int, std::vector<char>> v; for (size_t i = 0; i < n; i++) v[(int)(5 * i) - 5] = std::vector<char>(m, c); XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << '{'; v.clear();
                          for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << (int)(5 * i) - 5 << ": ["; for (size_t j = 0; j < m; j++) { if (j) t << ", "; t << c; } t << ']'; } t << "}\n"; break; }
                case 2: { std::vector<int> a; std::set<int> b; for (size_t i = 0; i < n; i++) a.push_back(100 - (int)i); for (size_t i = 0; i < m; i++) b.insert(-(int)i);
                          XTR_LOG(s, "{} {} {}", a, c, b); t.line("I ", "N", F, __LINE__) << '['; a.clear(); b.clear();
                          for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << 100 - (int)i; } t << "] " << c << " ["; for (size_t i = 0; i < m; i++) { if (i) t << ", "; t << (int)(i + 1 - m); } t << "]\n"; break; }
                case 3: { std::vector<char> a(n, c); XTR_LOG(s, "{} {}", std::make_tuple(a, 7), std::string_view("x,y")); t.line("I ", "N", F, __LINE__) << "(["; a.clear();
                          for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << c; } t << "], 7) x,y\n"; break; }
            }
        }
    }
    lg.reset();
    EXPECT_OUT(t, "every element once, in order, with the documented punctuation");
    xsym_reach("done");
}

// Many elements.
extern "C" void c22_large()
{
    auto lg = make_logger(); static Text t;
    {
        auto s = lg->get_sink("N"); static const uint16_t ns[] = {10, 17, 64, 100, 257, 500}; const size_t n = ns[xsym_choose("size", 6)], p = xsym_choose("place", 3) * (n - 1) / 2; const char c = sym();
        switch (xsym_choose("kind", 5)) {
            case 0: { std::vector<char> v(n, 'v'); v[p] = c; XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << '['; for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << (i == p ? c : 'v'); } t << "]\n"; break; }
            case 1: { std::list<char> v(n, 'v'); *std::next(v.begin(), p) = c; XTR_LOG(s, "{}", std::move(v)); t.line("I ", "N", F, __LINE__) << '['; for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << (i == p ? c : 'v'); } t << "]\n"; break; }
            case 2: { std::map<int, char> v; for (size_t i = 0; i < n; i++) v[(int)i] = i == p ? c : 'm'; XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << '{'; for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << (int)i << ": " << (i == p ? c : 'm'); } t << "}\n"; break; }
            case 3: { std::set<int> v; for (size_t i = 0; i < n; i++) v.insert((int)i * 3); XTR_LOG(s, "{}{}", c, v); t.line("I ", "N", F, __LINE__) << c << '['; for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << (int)i * 3; } t << "]\n"; break; }
            case 4: { std::deque<std::pair<int, char>> v; for (size_t i = 0; i < n; i++) v.push_back({(int)i, c}); XTR_LOG(s, "{}", v); t.line("I ", "N", F, __LINE__) << '['; for (size_t i = 0; i < n; i++) { if (i) t << ", "; t << '(' << (int)i << ", " << c << ')'; } t << "]\n"; break; }
        }
    }
    lg.reset();
    EXPECT_OUT(t, "every element once, in order, with the documented punctuation");
    xsym_reach("done");
}

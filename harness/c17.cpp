// C17: registration, copy, assignment, renaming and re-registration are faithful.
#define OUT_MAX 4096
#include "common.h"
#define F "c17.cpp"
static const int NL = 2, NS = 3;
// one recorder per logger
struct Rec { char out[OUT_MAX]; size_t n; char buf[STORE_BUF]; bool outstanding; unsigned dtors; };
static Rec rec[NL];
struct rec_storage : xtr::storage_interface {
    int i; explicit rec_storage(int k) : i(k) {}
    std::span<char> allocate_buffer() override { return {rec[i].buf, STORE_BUF}; }
    void submit_buffer(char* p, std::size_t n) override { xassert(rec[i].n + n <= OUT_MAX, "harness: output area"); memcpy(rec[i].out + rec[i].n, p, n); rec[i].n += n; }
    void flush() override {} void sync() noexcept override {} int reopen() noexcept override { return 0; }
    ~rec_storage() { rec[i].dtors++; }
};
// an argument that counts having been formatted, per sink
static unsigned printed[NS];
struct tag { uint8_t sink; char c; };
template<> struct fmt::formatter<tag> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const tag& r, C& c) const { xsym_atomic_begin(); printed[r.sink]++; xsym_atomic_end(); auto o = c.out(); *o++ = r.c; return o; }
};
// the model
struct M { bool open; int logger; char name[4]; xtr::log_level_t level; unsigned logged; };
static M m[NS];
struct E { int logger, sink; char text[56]; size_t n; bool seen; };
static E ev[72]; static unsigned n_ev;
static xtr::logger* L[NL];
alignas(xtr::sink) static unsigned char mem[NS][sizeof(xtr::sink)];
static bool alive[NS];
static xtr::sink& S(int i) { return *reinterpret_cast<xtr::sink*>(mem[i]); }
static void expect(int i, const char* lv, unsigned line, char c)
{
    Text t; t.line(lv, m[i].name, F, line) << c << "\n";
    E& e = ev[n_ev++]; e.logger = m[i].logger; e.sink = i; memcpy(e.text, t.s, t.n); e.n = t.n; e.seen = false;
    m[i].logged++;
}
static void name_is(int i, const char* s) { strcpy(m[i].name, s); }
static void log(int i)
{
    char c = (char)('a' + n_ev);
    if (!m[i].open) return;
    XTR_LOG(S(i), "{}", tag{(uint8_t)i, c}); expect(i, "I ", __LINE__, c);
    c = (char)('a' + n_ev);
    if (xsym_choose("two", 2)) { XTR_LOGL(warning, S(i), "{}", tag{(uint8_t)i, c}); if (m[i].level >= xtr::log_level_t::warning) expect(i, "W ", __LINE__, c); }
}
static void check_model()
{
    for (int i = 0; i < NS; i++) if (alive[i]) {
        xassert(S(i).is_open() == m[i].open, "is_open() is right");
        xassert(S(i).level() == m[i].level, "level() is right");
    }
}
static void drained(int i) { xassert(printed[i] == m[i].logged, "what was logged on the old connection was processed first"); }
static void check_output()
{
    for (int l = 0; l < NL; l++) if (L[l]) {
        size_t p = 0;
        while (p < rec[l].n) {
            size_t q = p; while (q < rec[l].n && rec[l].out[q] != '\n') q++;
            q++;
            bool used[NS] = {}; bool ok = false;
            for (unsigned k = 0; k < n_ev && !ok; k++) {
                if (ev[k].seen || ev[k].logger != l || used[ev[k].sink]) continue;
                used[ev[k].sink] = true;            // only the first line outstanding of each sink may come
                if (same(rec[l].out + p, q - p, ev[k].text, ev[k].n)) { ev[k].seen = true; ok = true; }
            }
            if (!ok) { show("line: ", rec[l].out + p, q - p); xfail("a line appeared that was not logged there, or in the wrong order, or under the wrong name"); }
            p = q;
        }
    }
    for (unsigned k = 0; k < n_ev; k++) if (!ev[k].seen) { show("missing: ", ev[k].text, ev[k].n); xfail("a line logged is missing"); }
}
// op: bit set of the operations used
extern "C" void c17_history()
{
    xsym_set_spin(40);
    cpu_init();
    const int nl = (int)xsym_param("loggers", 1), ns = (int)xsym_param("sinks", 2);
    const uint64_t k = xsym_param("k", 3);
    for (int l = 0; l < nl; l++) L[l] = new xtr::logger(std::make_unique<rec_storage>(l), test_clock(), xtr::null_command_path);
    // sink 0 is open from the start, 1 is not registered, 2 (if any) does not exist yet
    new (mem[0]) xtr::sink(L[0]->get_sink("A")); alive[0] = true; m[0] = {true, 0, "A", xtr::log_level_t::info, 0};
    new (mem[1]) xtr::sink(xtr::log_level_t::warning); alive[1] = true; m[1] = {false, 0, "", xtr::log_level_t::warning, 0};
    check_model();
    for (uint64_t i = 0; i < k; i++) {
        int a = (int)xsym_choose("sink", ns), b;
        if (!alive[a]) {        // create it: a copy of another sink, from a logger, or unregistered
            b = (int)xsym_choose("from", 2);
            if (xsym_choose("make", 2)) { new (mem[a]) xtr::sink(S(b)); unsigned n = m[a].logged; m[a] = m[b]; m[a].logged = n; }
            else { int l = (int)xsym_choose("logger", nl); L[l]->set_default_log_level(xtr::log_level_t::error); new (mem[a]) xtr::sink(L[l]->get_sink("G")); unsigned n = m[a].logged; m[a] = {true, l, "G", xtr::log_level_t::error, n}; xsym_reach("get_sink"); }
            alive[a] = true;
        } else switch (xsym_choose("op", 8)) {
            case 0: log(a); break;
            case 1: S(a).close(); drained(a); m[a].open = false; xsym_reach("closed"); break;
            case 2: if (m[a].open) { S(a).close(); drained(a); xsym_reach("registered again"); } { int l = (int)xsym_choose("logger", nl); L[l]->register_sink(S(a), a ? "R1" : "R0"); m[a].open = true; m[a].logger = l; name_is(a, a ? "R1" : "R0"); } break;
            case 3: if (m[a].open) { S(a).set_name(a ? "B" : "C"); name_is(a, a ? "B" : "C"); } break;
            case 4: S(a).set_level(xtr::log_level_t::error); m[a].level = xtr::log_level_t::error; break;
            case 5: b = (int)xsym_choose("from", ns); if (!alive[b]) break;
                    S(a) = S(b); if (a != b) { drained(a); unsigned n = m[a].logged; m[a] = m[b]; m[a].logged = n; xsym_reach("assigned"); } else xsym_reach("self-assigned"); break;
            case 6: if (a == 2) { S(a).~sink(); drained(a); m[a].open = false; alive[a] = false; xsym_reach("destroyed"); } else S(a).close(), S(a).close(), drained(a), m[a].open = false; break;
            case 7: if (m[a].open) { S(a).sync(); drained(a); } break;
        }
        check_model();
    }
    for (int i = 0; i < NS; i++) if (alive[i]) log(i);     // every sink that should be open works
    for (int i = 0; i < NS; i++) if (alive[i]) { S(i).~sink(); drained(i); }
    for (int l = 0; l < nl; l++) { delete L[l]; xassert(rec[l].dtors == 1, "logger destroyed"); }
    check_output();
    xsym_reach("done");
}

// Copies made, renamed and logged to before the background thread gets to them.
extern "C" void c17_copies()
{
    cpu_init();
    L[0] = new xtr::logger(std::make_unique<rec_storage>(0), test_clock(), xtr::null_command_path);
    int live = 1;
    new (mem[0]) xtr::sink(L[0]->get_sink("A")); alive[0] = true; m[0] = {true, 0, "A", xtr::log_level_t::info, 0};
    if (xsym_choose("quiet", 2)) xsym_quiesce();
    for (uint64_t i = 0; i < xsym_param("k", 4); i++) {
        int a = (int)xsym_choose("sink", live);
        switch (xsym_choose("op", live < NS ? 4 : 3)) {
            case 0: { char c = (char)('a' + n_ev); XTR_LOG(S(a), "{}", tag{(uint8_t)a, c}); expect(a, "I ", __LINE__, c); break; }
            case 1: { const char* nm = xsym_choose("empty name", 2) ? "" : a ? "B" : "C"; S(a).set_name(nm); name_is(a, nm); break; }
            case 2: S(a).sync(); drained(a); break;
            case 3: if (xsym_choose("copy", 2)) { new (mem[live]) xtr::sink(S(a)); m[live] = m[a]; m[live].logged = 0; xsym_reach("copied"); }
                    else { new (mem[live]) xtr::sink(L[0]->get_sink("G")); m[live] = {true, 0, "G", xtr::log_level_t::info, 0}; }
                    alive[live++] = true; break;
        }
    }
    for (int i = 0; i < live; i++) { char c = (char)('a' + n_ev); XTR_LOG(S(i), "{}", tag{(uint8_t)i, c}); expect(i, "I ", __LINE__, c); }
    for (int i = 0; i < live; i++) { S(i).~sink(); drained(i); }
    delete L[0]; xassert(rec[0].dtors == 1, "logger destroyed");
    check_output();
    xsym_reach("done");
}
// A sink that was used a lot is closed and registered again, and then its queue fills up.
extern "C" void c17_again()
{
    cpu_init();
    const int nl = (int)xsym_param("loggers", 1);
    for (int l = 0; l < nl; l++) L[l] = new xtr::logger(std::make_unique<rec_storage>(l), test_clock(), xtr::null_command_path);
    new (mem[0]) xtr::sink(L[0]->get_sink("A")); alive[0] = true; m[0] = {true, 0, "A", xtr::log_level_t::info, 0};
    const unsigned before[] = {0, 9, 6, 3, 13}, after[] = {1, 7, 10};
    bool lag = xsym_choose("lag", 2);
    for (uint64_t r = 0; r < xsym_param("rounds", 1); r++) {
        unsigned n = before[xsym_choose("before", xsym_param("before", 5))];
        for (unsigned i = 0; i < n; i++) { char c = (char)('!' + n_ev); XTR_LOG(S(0), "{}", tag{0, c}); expect(0, "I ", __LINE__, c); if (!lag && i % 4 == 3) xsym_quiesce(); }
        int l = (int)xsym_choose("logger", nl);
        if (xsym_choose("assign", 2)) { auto o = L[l]->get_sink("O"); S(0) = o; drained(0); name_is(0, "O"); }
        else { S(0).close(); drained(0); L[l]->register_sink(S(0), "R"); name_is(0, "R"); }
        m[0].logger = l;
    }
    unsigned n = after[xsym_choose("after", 3)];
    for (unsigned i = 0; i < n; i++) { char c = (char)('!' + n_ev); XTR_LOG(S(0), "{}", tag{0, c}); expect(0, "I ", __LINE__, c); }
    S(0).~sink(); drained(0);
    for (int l = 0; l < nl; l++) { delete L[l]; xassert(rec[l].dtors == 1, "logger destroyed"); }
    check_output();
    xsym_reach("done");
}

// C06: strings of any length and long runs of statements, with a queue of the default size.
#define OUT_MAX 16
#include "common.h"
static bool logging; static uint64_t n_stmt;
static void forbid(const char* what) { if (logging && xsym_self() == 0) { xsym_log(what); xfail("a log statement allocates memory, takes a lock or makes a system call"); } }
extern "C" {
void xm_on_alloc(size_t) { forbid("allocation"); }
void xm_on_syscall(const char* n) { forbid(n); }
void xm_on_lock(void*) { forbid("lock"); }
void xm_on_thread_create() { forbid("thread creation"); }
}
static uint64_t n_lines; static char sbuf[4096];
struct null_storage : xtr::storage_interface {
    std::span<char> allocate_buffer() override { return sbuf; }
    void submit_buffer(char* p, std::size_t n) override { for (size_t i = 0; i < n; i++) if (p[i] == '\n') n_lines++; }
    void flush() override {}
    void sync() noexcept override {}
    int reopen() noexcept override { return 0; }
};
struct big { char d[3000]; };
template<> struct fmt::formatter<big> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const big& p, C& c) const { xassert(xsym_self() != 0, "formatting happens on the background thread"); auto o = c.out(); *o++ = p.d[2999]; return o; }
};
#define LOG(...) do { xsym_atomic_begin(); logging = true; xsym_atomic_end(); try { __VA_ARGS__; } catch (...) { xfail("a log statement throws"); } xsym_atomic_begin(); logging = false; n_stmt++; xsym_atomic_end(); } while (0)
static char A[300100];
extern "C" void c06_long()
{
    auto lg = make_logger<null_storage>(); static const uint32_t ls[] = {15, 16, 31, 32, 64, 100, 127, 128, 255, 256, 257, 512, 1000, 1024, 4095, 4096, 16384, 65535, 65536, 100000, 300000};
    {
        auto s = lg->get_sink("N"); const size_t n = ls[xsym_choose("len", 21)]; memset(A, 'L', n); const std::string_view v(A, n); std::string str(A, n); static big b;
        const uint64_t kind = xsym_choose("kind", 8);
        for (uint64_t i = 0; i < 2; i++)
            switch (i ? (kind + 3) % 8 : kind) {
                case 0: LOG(XTR_LOG(s, "{}", (const char*)A)); break;
                case 1: LOG(XTR_LOG(s, "{}", v)); break;
                case 2: LOG(XTR_LOG(s, "{} {}", 'c', str)); break;
                case 3: LOG(XTR_TRY_LOG(s, "{}", (const char*)A)); break;
                case 4: LOG(XTR_TRY_LOG(s, "{} {}", v, v)); break;
                case 5: LOG(XTR_LOGL(error, s, "{} {}", b, str)); break;
                case 6: { std::string q(A, n); LOG(XTR_LOG(s, "{}", std::move(q))); break; }
                case 7: LOG(XTR_TRY_LOG(s, "{} {} {}", b, v, (const char*)A)); break;
            }
    }
    lg.reset(); xassert(n_lines > 0, "logged"); xsym_reach("done");
}
// Many statements of the same kind: nothing is done only every so often.
extern "C" void c06_many()
{
    xsym_set_spin(200); auto lg = make_logger<null_storage>(); const uint64_t n = xsym_param("n", 5000);
    {
        auto s = lg->get_sink("N"); const uint64_t kind = xsym_choose("kind", 6); const std::string_view v("abc"); if (kind == 5) xsym_set_spin(2 * (unsigned)n);   // such a statement only reads the level
        for (uint64_t i = 0; i < n; i++)
            switch (kind) {
                case 0: LOG(XTR_LOG(s, "x")); break;
                case 1: LOG(XTR_LOG(s, "{}", 'c')); break;
                case 2: LOG(XTR_LOG(s, "{}", v)); break;
                case 3: LOG(XTR_TRY_LOG(s, "{}", v)); break;
                case 4: LOG(XTR_LOG_TSC(s, "x")); break;
                case 5: LOG(XTR_TRY_LOGL(debug, s, "x")); break;
            }
    }
    lg.reset(); xsym_reach("done");
}

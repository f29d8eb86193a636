// C06: a log statement performs no allocation, lock or system call, and does not throw.
#include "common.h"
#define F "c06.cpp"
static bool logging;      // set while the application thread is inside a log statement
static void forbid(const char* what) { if (logging && xsym_self() == 0) { xsym_log(what); xfail("a log statement allocates memory, takes a lock or makes a system call"); } }
extern "C" {
void xm_on_alloc(size_t) { forbid("allocation"); }
void xm_on_syscall(const char* n) { forbid(n); }
void xm_on_lock(void*) { forbid("lock"); }
void xm_on_thread_create() { forbid("thread creation"); }
}
struct pod { uint64_t a[3]; };
template<> struct fmt::formatter<pod> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const pod& p, C& c) const { xassert(xsym_self() != 0, "formatting happens on the background thread"); auto o = c.out(); *o++ = 'p'; return o; }
};
static unsigned n_stmt;
#define LOG(...) do { xsym_atomic_begin(); logging = true; xsym_atomic_end(); try { __VA_ARGS__; } catch (...) { xfail("a log statement throws"); } xsym_atomic_begin(); logging = false; n_stmt++; xsym_atomic_end(); } while (0)
extern "C" void c06_all()
{
    auto lg = make_logger();
    {
        auto s = lg->get_sink("N");
        char lng[300]; memset(lng, 'L', sizeof lng); lng[299] = 0;
        static std::string str; str.assign(lng, 40);
        const uint64_t k = xsym_param("k", 2);
        for (uint64_t i = 0, n = xsym_choose("queued", xsym_param("fill", 16) + 1); i < n; i++) LOG(XTR_LOG(s, "x"));
        for (uint64_t i = 0; i < k; i++) {
            uint64_t v = xsym_u64("v"); char c = (char)xsym_u8("c"); pod p{{v, v, v}};
            size_t n = 150 * xsym_choose("len", 3);
            lng[n ? n - 1 : 0] = 0; std::string_view sv(lng, n);
            switch (xsym_choose("kind", 22)) {
                case 0: LOG(XTR_LOG(s, "x")); break;
                case 1: LOG(XTR_LOG(s, "{}", c)); break;
                case 2: LOG(XTR_LOG(s, "{}", (const char*)lng)); break;
                case 3: LOG(XTR_LOG(s, "{}", sv)); break;
                case 4: LOG(XTR_LOG(s, "{}", str)); break;
                case 5: LOG(XTR_LOG(s, "{} {}", p, sv)); break;
                case 6: LOG(XTR_TRY_LOG(s, "x")); break;
                case 7: LOG(XTR_TRY_LOG(s, "{}", p)); break;
                case 8: LOG(XTR_TRY_LOG(s, "{}", (const char*)lng)); break;
                case 9: LOG(XTR_TRY_LOG(s, "{}", sv)); break;
                case 10: LOG(XTR_TRY_LOG(s, "{}", str)); break;
                case 11: LOG(XTR_LOGL(error, s, "{}", c)); break;
                case 12: LOG(XTR_LOGL(debug, s, "{}", c)); break;
                case 13: LOG(XTR_TRY_LOGL(warning, s, "{}", sv)); break;
                case 14: LOG(XTR_LOG_TS(s, 1, "{}", c)); break;
                case 15: LOG(XTR_TRY_LOGL_TS(info, s, 1, "{}", sv)); break;
                case 16: LOG(XTR_LOG_TSC(s, "{}", c)); break;
                case 17: LOG(XTR_TRY_LOG_TSC(s, "{}", str)); break;
                case 18: LOG(XTR_LOG_RTC(s, "{}", c)); break;
                case 19: LOG(XTR_LOG(s, "{}", xtr::nocopy(str))); break;
                case 20: { std::string q(lng, 60); LOG(XTR_LOG(s, "{}", std::move(q))); break; }
                case 21: LOG(XTR_LOG(s, "{} {} {}", p, str, lng)); break;
            }
            lng[n ? n - 1 : 0] = 'L';
        }
    }
    lg.reset();
    xassert(g.n > 0 || n_stmt, "statements ran");
    xsym_reach("done");
}

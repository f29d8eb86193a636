// C16: timestamps are correct for every time.
#include "common.h"
#include "xtr/detail/tsc.hpp"
#include "xtr/detail/cpuid.hpp"
#define F "c16.cpp"
// Days to look at: days since the epoch and their dates.
struct Day { long d; const char* s; };
static const Day days[] = {{0, "1970-01-01"}, {-1, "1969-12-31"}, {-25508, "1900-03-01"}, {-25509, "1900-02-28"}, {11016, "2000-02-29"}, {11017, "2000-03-01"}, {19782, "2024-02-29"}, {19783, "2024-03-01"},
    {20088, "2024-12-31"}, {20089, "2025-01-01"}, {47540, "2100-02-28"}, {47541, "2100-03-01"}, {24855, "2038-01-19"}, {-24856, "1901-12-13"}, {2932896, "9999-12-31"}, {-719162, "0001-01-01"}};
static constexpr unsigned N_DAYS = sizeof days / sizeof *days;
// A time is put together from its digits, each of them symbolic, so that every time of the day to the nanosecond is
// covered; the expected text is the digits.
struct Time { int64_t tod; int64_t ns; char text[17]; };        // "hh:mm:ss.uuuuuu"
static uint64_t dig(const char* n, uint64_t lo, uint64_t hi) { return lo == hi ? lo : xsym_range(n, lo, hi); }
static Time any_time(unsigned frac, bool split)                   // frac: digits of the fraction that the clock can show
{
    Time t{}; uint64_t d[6], f[9] = {};
    const bool late = xsym_choose("hour", 2);
    d[0] = late ? 2 : dig("h1", 0, 1); d[1] = dig("h2", 0, late ? 3 : 9); d[2] = dig("m1", 0, 5); d[3] = dig("m2", 0, 9); d[4] = dig("s1", 0, 5); d[5] = dig("s2", 0, 9);
    // split: whether the fraction is zero matters; cases by its last digit that is not
    const unsigned last = split ? (unsigned)xsym_choose("last digit", frac + 1) : frac;
    // ... and by the first digit of the microseconds that is not zero
    const unsigned us = last < 6 ? last : 6, first = us ? (unsigned)xsym_choose("first digit", split ? us + (last > 6) : us + 1) : 0;
    for (unsigned i = first; i < last; i++) f[i] = dig("f", i == first && i < 6 || split && i + 1 == last ? 1 : 0, 9);
    t.tod = (int64_t)((d[0] * 10 + d[1]) * 3600 + (d[2] * 10 + d[3]) * 60 + d[4] * 10 + d[5]);
    for (int i = 0, k = 0; i < 6; i++) { t.text[k++] = (char)('0' + d[i]); if (i == 1 || i == 3) t.text[k++] = ':'; if (i == 5) t.text[k] = '.'; }
    for (int i = 0; i < 6; i++) t.text[9 + i] = (char)('0' + f[i]);
    for (int i = 0; i < 9; i++) t.ns = t.ns * 10 + (int64_t)f[i];
    return t;
}
static void check_text(const char* p, const char* date, const Time& t)
{
    xassert(memcmp(p, date, 10) == 0 && p[10] == ' ', "the date is the UTC date of the time");
    xassert(memcmp(p + 11, t.text, 8) == 0, "the time of day is right to the second");
    xassert(p[19] == '.' && memcmp(p + 20, t.text + 9, 6) == 0, "microseconds are truncated and padded");
}
template<typename D> struct dclock {
    using duration = D; using rep = typename D::rep; using period = typename D::period; using time_point = std::chrono::time_point<dclock, D>;
    static constexpr bool is_steady = false; static inline rep value; time_point now() const { return time_point(D(value)); }
};
static void one_line(const char* date, const Time& tm, unsigned ln)
{
    static Text t; t.line("I ", "N", F, ln, "..........................") << "m\n";
    xassert(g.n == t.n && memcmp(g.out, t.s, 2) == 0 && memcmp(g.out + 28, t.s + 28, t.n - 28) == 0, "one line, with a timestamp of fixed width");
    check_text(g.out + 2, date, tm);
    xsym_reach("done");
}
// a line logged with a clock of the given resolution: 10^DIG ticks per second
template<typename D, unsigned DIG, uint64_t MAX_DAY> static void clock_case()
{
    const Day& d = days[xsym_choose("day", N_DAYS)];
    if ((uint64_t)(d.d < 0 ? -d.d : d.d) > MAX_DAY) xsym_end();                 // not representable
    const Time t = any_time(DIG, d.d < 0);
    int64_t per_sec = 1, unit = 1; for (unsigned i = 0; i < DIG; i++) per_sec *= 10; for (unsigned i = DIG; i < 9; i++) unit *= 10;
    int64_t sub = t.ns / unit; xassert(sub * unit == t.ns, "harness: fraction");
    dclock<D>::value = ((int64_t)d.d * 86400 + t.tod) * per_sec + sub;
    cpu_init();
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), dclock<D>(), xtr::null_command_path);
    unsigned ln; { auto s = lg->get_sink("N"); XTR_LOG(s, "m"); ln = __LINE__; }
    lg.reset();
    one_line(d.s, t, ln);
}
extern "C" void c16_ns() { clock_case<std::chrono::nanoseconds, 9, 106750>(); }
extern "C" void c16_us() { clock_case<std::chrono::microseconds, 6, 100000000>(); }
extern "C" void c16_ms() { clock_case<std::chrono::milliseconds, 3, 100000000>(); }
extern "C" void c16_s() { clock_case<std::chrono::seconds, 0, 100000000>(); }
// The real-time clock read at the log statement, and timestamps supplied by the application
static int64_t rt_sec; static uint64_t rt_ns; static clockid_t rt_id; static bool rt_by_app;
extern "C" int clock_gettime(clockid_t id, struct timespec* t) { xsym_atomic_begin(); if (xsym_self() == 0) { rt_id = id; } t->tv_sec = rt_sec; t->tv_nsec = (long)rt_ns; xsym_atomic_end(); return 0; }
extern "C" void c16_rtc()
{
    const Day& d = days[xsym_choose("day", N_DAYS)]; const uint64_t how = xsym_choose("how", 3);
    const Time t = any_time(9, false);
    auto lg = make_logger();
    unsigned ln; {
        auto s = lg->get_sink("N");
        s.sync(); xsym_atomic_begin(); rt_sec = d.d * 86400 + t.tod; rt_ns = (uint64_t)t.ns; xsym_atomic_end();
        if (how == 0) { XTR_LOG_TS(s, (xtr::timespec{std::timespec{rt_sec, (long)rt_ns}}), "m"); ln = __LINE__; }
        else if (how == 1) { XTR_LOG_RTC(s, "m"); ln = __LINE__; }
        else { XTR_TRY_LOG_RTC(s, "m"); ln = __LINE__; }
        if (how) xassert(rt_id == CLOCK_REALTIME || rt_id == CLOCK_REALTIME_COARSE, "the real-time clock is read");
        xsym_atomic_begin(); rt_sec = 7; rt_ns = 5; xsym_atomic_end();          // the statement's time counts, not when it is written
    }
    lg.reset();
    one_line(d.s, t, ln);
}
// Any time at all: what is handed to gmtime_r is the time in seconds, rounded down, and what gmtime_r gives is printed.
static long gm_sec; static unsigned gm_calls; static struct tm gm;
extern "C" struct tm* gm_stub(const time_t* t, struct tm* o) { xsym_atomic_begin(); gm_sec = *t; gm_calls++; *o = gm; xsym_atomic_end(); return o; }
static bool gm_on; extern "C" struct tm* xm_gmtime_r(const time_t*, struct tm*);
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) { return gm_on ? gm_stub(t, o) : xm_gmtime_r(t, o); }
extern "C" void c16_any()
{
    const bool neg = xsym_choose("before 1970", 2); Time t = any_time(9, neg);
    char date[11]; uint64_t y[4], m1 = xsym_choose("month", 2), m2 = dig("m2", m1 ? 0 : 1, m1 ? 2 : 9), d1 = xsym_choose("day", 4), d2 = dig("d2", d1 ? 0 : 1, d1 == 3 ? 1 : 9);
    for (auto& x : y) x = dig("y", 0, 9);
    for (int i = 0; i < 4; i++) date[i] = (char)('0' + y[i]);
    date[4] = date[7] = '-'; date[5] = (char)('0' + m1); date[6] = (char)('0' + m2); date[8] = (char)('0' + d1); date[9] = (char)('0' + d2); date[10] = 0;
    gm_on = true; gm = {}; gm.tm_year = (int)(y[0] * 1000 + y[1] * 100 + y[2] * 10 + y[3]) - 1900; gm.tm_mon = (int)(m1 * 10 + m2) - 1; gm.tm_mday = (int)(d1 * 10 + d2);
    auto two = [&](int i) { return (t.text[i] - '0') * 10 + t.text[i + 1] - '0'; };
    gm.tm_hour = two(0); gm.tm_min = two(3); gm.tm_sec = two(6);
    const uint64_t a = xsym_range("s", neg ? 1 : 0, 9223372035);
    const long sec = neg ? -(long)a : (long)a;
    using D = std::chrono::nanoseconds;
    dclock<D>::value = sec * 1000000000 + t.ns;
    cpu_init();
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), dclock<D>(), xtr::null_command_path);
    unsigned ln; { auto s = lg->get_sink("N"); XTR_LOG(s, "m"); ln = __LINE__; }
    lg.reset();
    if (!gm_calls) { xsym_reach("done"); xsym_end(); }                        // does its own arithmetic: the other entries look at that
    xassert(gm_sec == sec, "the date is that of the time rounded down to a second");
    one_line(date, t, ln);
}
// One time after another: nothing remembered of the first time shows in the second.
static void civil(int64_t sec, int64_t ns, char* o)          // "yyyy-mm-dd hh:mm:ss.uuuuuu"
{
    int64_t d = sec / 86400, r = sec % 86400; if (r < 0) { r += 86400; d--; }
    int64_t y = 1; d += 719162;                               // days since 0001-01-01
    y += d / 146097 * 400; d %= 146097; { int64_t c = d / 36524; if (c == 4) c = 3; y += c * 100; d -= c * 36524; } y += d / 1461 * 4; d %= 1461; { int64_t k = d / 365; if (k == 4) k = 3; y += k; d -= k * 365; }
    const bool leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int m = 0; for (;; m++) { int k = ml[m] + (m == 1 && leap); if (d < k) break; d -= k; }
    auto two = [&](int64_t v) { *o++ = (char)('0' + v / 10); *o++ = (char)('0' + v % 10); };
    two(y / 100); two(y % 100); *o++ = '-'; two(m + 1); *o++ = '-'; two(d + 1); *o++ = ' '; two(r / 3600); *o++ = ':'; two(r / 60 % 60); *o++ = ':'; two(r % 60); *o++ = '.'; for (int64_t k = 100000; k; k /= 10) *o++ = (char)('0' + ns / 1000 / k % 10); *o = 0;
}
extern "C" void c16_pairs()
{
    const uint64_t how = xsym_choose("how", 2); const Day& d = days[xsym_choose("day", N_DAYS - 2)];    // those a nanosecond clock can show
    static const int tods[] = {0, 1, 45296, 86399}; static const int nss[] = {0, 1, 999999999}; static const int64_t deltas[] = {0, 1, -1, 30, -30, 59, 60, -60, 3599, 3600, -3600, 86399, 86400, -86400, 31536000};
    int64_t s1 = d.d * 86400 + tods[xsym_choose("time", 4)], n1 = nss[xsym_choose("ns", 3)], s2, n2 = nss[xsym_choose("ns", 3)];
    if (xsym_choose("mirror", 2)) { s2 = -s1; if (!s1) xsym_end(); } else s2 = s1 + deltas[xsym_choose("delta", 15)];
    using C = dclock<std::chrono::nanoseconds>; auto ns_of = [](int64_t s, int64_t n) { return s * 1000000000 + n; };
    C::value = ns_of(s1, n1); cpu_init(); char t1[40], t2[40]; civil(s1, n1, t1); civil(s2, n2, t2); static Text t; unsigned ln[3];
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), C(), xtr::null_command_path);
    {
        auto s = lg->get_sink("N"); s.sync();
        for (int i = 0; i < 3; i++) {                         // first, second, first again
            const int64_t sec = i == 1 ? s2 : s1, ns = i == 1 ? n2 : n1;
            if (how == 0) { XTR_LOG_TS(s, (xtr::timespec{std::timespec{sec, (long)ns}}), "m"); ln[i] = __LINE__; }
            else { xsym_atomic_begin(); C::value = ns_of(sec, ns); xsym_atomic_end(); XTR_LOG(s, "m"); ln[i] = __LINE__; }
            s.sync();
        }
    }
    lg.reset();
    for (int i = 0; i < 3; i++) t.line("I ", "N", F, ln[i], i == 1 ? t2 : t1) << "m\n";
    EXPECT_OUT(t, "each line shows its own time"); xsym_reach("done");
}
// TSC readings
#define TSC_KEY 0xfffffe00ull
// Any sequence of readings, each converted some time later (queueing), on CPUs of several frequencies, from just after
// boot on.  The wall clock advances with the TSC.
extern "C" void c16_tsc()
{
    static const uint64_t hzs[] = {1000000000, 500000000, 2000000000, 4000000000}; const uint64_t hz = hzs[xsym_choose("hz", 4)];
    cpu_init(hz / 4, 1, 4);
    const uint64_t step = hz >= 1000000000 ? hz / 1000000000 : 1, ns_per = hz >= 1000000000 ? 1 : 1000000000 / hz;   // TSC values in units of `step`
    uint64_t now = xsym_choose("uptime", 3) == 0 ? 1 : xsym_choose("long", 2) ? 1ull << 50 : 30 * hz / step;          // just booted, half a minute, days
    now += xsym_range("start", 1, 1 << 20);
    const uint64_t base = 1700000000000000000ull; int64_t prev = 0;
    for (uint64_t i = 0; i < xsym_param("k", 2); i++) {
        static const uint64_t secs[] = {0, 45, 61, 90}; now += secs[xsym_choose("later", 4)] * (hz / step);
        const uint64_t age = xsym_range("age", 0, 1 << 10), sub = step > 1 ? xsym_range("sub", 0, step - 1) : 0;
        now += 1 << 10;
        xsym_kv_set(TSC_KEY, now * step);
        const uint64_t w = base + now * ns_per;
        rt_sec = 1700000000; rt_ns = w - base;                                 // (seconds, any number of nanoseconds): the code adds them up
        const std::timespec r = xtr::detail::tsc::to_timespec(xtr::detail::tsc{(now - age) * step + sub});
        xassert((uint64_t)r.tv_nsec < 1000000000, "nanoseconds are in range");
        const int64_t got = (int64_t)r.tv_sec * 1000000000 + r.tv_nsec, want = (int64_t)(base + (now - age) * ns_per);
        xassert(got - want <= 1 && want - got <= 1, "a TSC reading is converted to the wall-clock time it was taken at");
        (void)prev;
    }
    xsym_reach("done");
}
// The frequency is what CPUID says, for every value it may give, and 0 (to be estimated) if it does not say.
extern "C" void c16_hz()
{
    static const uint32_t models[] = {0x4e, 0x5e, 0x8e, 0x9e, 0xa5, 0xa6, 0x86, 0x5f, 0x5c, 0x7a, 0x55, 0x01};
    static const uint32_t crystal[] = {24000000, 24000000, 24000000, 24000000, 24000000, 24000000, 25000000, 25000000, 19200000, 19200000, 0, 0};
    const unsigned m = (unsigned)xsym_choose("model", 12); const uint32_t leaves = (uint32_t)xsym_choose("leaves", 3) + 0x14;
    static const uint32_t nz[] = {0, 1, 2, 3, 0x7fffffff, 0xffffffff}; const uint32_t den = nz[xsym_choose("den", 6)];
    const uint32_t num = xsym_u32("num"), hzs[] = {0, 24000000, 25000000, 19200000, 1, 0xffffffff}, hz = hzs[xsym_choose("hz", 6)];
    cpu_init(hz, den, num); xsym_kv_set(0xc0000000u, leaves);
    xsym_kv_set(0xc0000000u + 1 * 16 + 0, 0x600 | (models[m] & 15) << 4 | (models[m] >> 4) << 16);
    const uint64_t got = xtr::detail::read_tsc_hz();
    const uint64_t ccc = hz != 0 ? hz : crystal[m];
    if (leaves < 0x15 || den == 0) { xassert(got == 0, "no frequency if CPUID does not give one"); xsym_reach("not given"); }
    else { xassert(got == ccc * num / den, "the frequency is crystal frequency * numerator / denominator"); xsym_reach("given"); }
}

// Any frequency, readings of any age: the product is rounded, but by far less than a nanosecond.
typedef unsigned __int128 u128;
extern "C" void c16_rates()
{
    static const uint64_t hzs[] = {999999999, 100000001, 2400000000, 2899999999, 3333333333, 4294967291}; const uint64_t hz = hzs[xsym_choose("hz", 6)];
    cpu_init(hz, 1, 1); static const uint64_t ups[] = {3, 59, 61, 86400, 100000000}; uint64_t ns = ups[xsym_choose("uptime", 5)] * 1000000000ull + 7;      // since boot
    const uint64_t base = 1700000000000000000ull; auto ticks = [&](uint64_t t) { return (uint64_t)((u128)t * hz / 1000000000); };
    for (int i = 0; i < 3; i++) {
        static const uint64_t later[] = {0, 999999999, 59999999999, 60000000001, 3600000000000}; ns += later[xsym_choose("later", 5)] + 3;
        static const uint64_t ages[] = {0, 1000, 1234567, 999999999, 2500000000, 61000000000, 600000000000}; const uint64_t age = ages[xsym_choose("age", 7)]; if (age > ns) xsym_end();
        xsym_kv_set(TSC_KEY, ticks(ns)); rt_sec = (base + ns) / 1000000000; rt_ns = (base + ns) % 1000000000;
        const std::timespec r = xtr::detail::tsc::to_timespec(xtr::detail::tsc{ticks(ns - age)});
        xassert((uint64_t)r.tv_nsec < 1000000000, "nanoseconds are in range");
        const int64_t got = (int64_t)r.tv_sec * 1000000000 + r.tv_nsec, want = (int64_t)(base + ns - age), tol = 2 + (int64_t)(2000000000 / hz);     // a tick or two, and a nanosecond
        if (got - want > tol || want - got > tol) { xsym_log_u64("got", got); xsym_log_u64("want", want); xfail("a TSC reading is converted to the wall-clock time it was taken at"); }
    }
    xsym_reach("done");
}
// The frequency is measured if CPUID does not give it, whatever the time and however long the thread sleeps.
static bool est_on; static uint64_t est_ns, est_hz; static unsigned est_sleeps;
static void est_set() { xsym_kv_set(TSC_KEY, (uint64_t)((u128)est_ns * est_hz / 1000000000)); rt_sec = est_ns / 1000000000; rt_ns = est_ns % 1000000000; }
static int est_sleep(const struct timespec* t) { if (est_on) { static const uint64_t over[] = {0, 2999999, 990000000}; est_ns += (uint64_t)t->tv_sec * 1000000000 + t->tv_nsec + (est_sleeps++ < 3 ? over[xsym_choose("overslept", 3)] : 60000); est_set(); } else xsym_yield(); return 0; }
extern "C" { int nanosleep(const struct timespec* t, struct timespec*) { return est_sleep(t); } int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { return est_sleep(t); } }
extern "C" void c16_estimate()
{
    static const uint64_t hzs[] = {1000000000, 2400000000, 2899999999, 3333333333, 800000000}, starts[] = {5000000000, 5999999999, 5991234567, 100000000999995000}; est_hz = hzs[xsym_choose("hz", 5)]; est_ns = starts[xsym_choose("start", 4)];
    cpu_init(0, 0, 0); est_on = true; est_set();
    const uint64_t got = xtr::detail::get_tsc_hz(); if (got > est_hz + 1000 || got + 1000 < est_hz) { xsym_log_u64("got", got); xsym_log_u64("want", est_hz); xfail("the frequency measured is that of the TSC"); }
    xassert(est_sleeps <= 400, "the measurement ends"); xsym_reach("done");
}

// A line's time is read when the line is written: never before an earlier sync() on its sink returned.
#include <atomic>
struct ticking { using duration = std::chrono::seconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<ticking, duration>;
    static constexpr bool is_steady = false; static inline std::atomic<int64_t> value; time_point now() const { return time_point(duration(value.load(std::memory_order_relaxed))); } };
extern "C" void c16_fresh()
{
    cpu_init(); ticking::value = 10;
    auto lg = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(), ticking(), xtr::null_command_path);
    struct Ln { int sink; int64_t lo, hi; } ln[16]; unsigned n = 0; int64_t lo[2] = {10, 10}; const int64_t N = (int64_t)xsym_param("k", 4);
    {
        xtr::sink s[2] = {lg->get_sink("A"), lg->get_sink("B")};
        if (xsym_choose("settled", 2)) { s[0].sync(); s[1].sync(); }
        for (int64_t i = 0; i < N; i++) {
            const int a = (int)xsym_choose("sink", 2);
            switch (xsym_choose("op", 3)) {
                case 0: if (a) XTR_LOG(s[1], "b"); else XTR_LOG(s[0], "a"); ln[n++] = {a, lo[a], 0}; break;
                case 1: s[a].sync(); lo[a] = ticking::value; for (unsigned k = 0; k < n; k++) if (ln[k].sink == a && !ln[k].hi) ln[k].hi = ticking::value; xsym_reach("synced"); break;
                case 2: ticking::value += 7; break;
            }
        }
        for (int a = 0; a < 2; a++) { s[a].close(); for (unsigned k = 0; k < n; k++) if (ln[k].sink == a && !ln[k].hi) ln[k].hi = ticking::value; }
    }
    lg.reset();
    unsigned seen[2] = {}, got = 0;
    for (size_t i = 0; i < g.n;) {
        size_t e = i; while (g.out[e] != '\n') e++;
        const int a = g.out[e - 1] == 'b'; unsigned k = 0, c = 0; for (; k < n; k++) if (ln[k].sink == a && c++ == seen[a]) break;
        xassert(k < n, "each line is a statement's"); seen[a]++; got++;
        const char* p = g.out + i + 2; xassert(memcmp(p, "1970-01-01 00:0", 15) == 0, "a time in range");
        const int64_t t = (p[15] - '0') * 60 + (p[17] - '0') * 10 + p[18] - '0';
        if (t < ln[k].lo || t > ln[k].hi) { xsym_log_u64("time", t); xsym_log_u64("earliest", ln[k].lo); xsym_log_u64("latest", ln[k].hi); }
        xassert(t >= ln[k].lo && t <= ln[k].hi, "a line shows the time at which it was written");
        i = e + 1;
    }
    xassert(got == n, "every statement is logged"); xsym_reach("done");
}

// Shared by the logger-level harnesses: a recording storage back-end, a
// settable clock, and construction of a logger without command socket.
#pragma once
#include "xsym.h"
#include "xtr/logger.hpp"
#include "xtr/formatters.hpp"
#include <chrono>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <string_view>
#include <utility>

#ifndef OUT_MAX
#define OUT_MAX 2048
#endif
#ifndef STORE_BUF
#define STORE_BUF 256
#endif

// What the back-end has seen.  Accessed by the background thread; the
// application may look at it only when the library guarantees an ordering,
// which the race detector checks.
struct Seen {
    char out[OUT_MAX]; size_t n;             // bytes submitted
    unsigned allocs, submits, flushes, syncs, dtors, reopens;
    size_t n_flushed, n_synced;              // bytes submitted before the last flush / sync
    bool flush_before_sync;                  // last sync was preceded by a flush of everything
    char buf[STORE_BUF]; size_t bufsize; bool outstanding;
};
static Seen g;

struct mem_storage : xtr::storage_interface {
    mem_storage() { g.bufsize = g.bufsize ? g.bufsize : STORE_BUF; }
    std::span<char> allocate_buffer() override {
        xassert(!g.outstanding, "a buffer is requested only after the previous one was submitted");
        g.outstanding = true; g.allocs++;
        return {g.buf, g.bufsize};
    }
    void submit_buffer(char* p, std::size_t n) override {
        xassert(g.outstanding && p == g.buf, "the submitted buffer is the one handed out");
        xassert(n > 0 && n <= g.bufsize, "submitted size within the buffer");
        xassert(g.n + n <= OUT_MAX, "harness: output area large enough");
        memcpy(g.out + g.n, p, n); g.n += n;
        g.outstanding = false; g.submits++;
    }
    void flush() override { g.flushes++; g.n_flushed = g.n; }
    void sync() noexcept override { g.syncs++; g.n_synced = g.n; g.flush_before_sync = g.n_flushed == g.n; }
    int reopen() noexcept override { g.reopens++; return 0; }
    ~mem_storage() { xassert(g.n_flushed == g.n, "everything was submitted and flushed before the back-end is destroyed"); g.dtors++; }
};

struct test_clock {
    using duration = std::chrono::nanoseconds; using rep = duration::rep; using period = duration::period;
    using time_point = std::chrono::time_point<std::chrono::system_clock, duration>;
    static constexpr bool is_steady = true;
    static int64_t now_ns;
    time_point now() const { return time_point(duration(now_ns)); }
};
int64_t test_clock::now_ns = 946688523000004000ll; // 2000-01-01 01:02:03.000004
#define TS "2000-01-01 01:02:03.000004"

// TSC frequency from CPUID leaf 0x15, so that it is not estimated
static inline void cpu_init(uint64_t hz = 1000000000, uint64_t den = 1, uint64_t num = 1) {
    xsym_kv_set(0xc0000000u + 0 * 16 + 0, 0x16);
    xsym_kv_set(0xc0000000u + 0x15 * 16 + 0, den);
    xsym_kv_set(0xc0000000u + 0x15 * 16 + 1, num);
    xsym_kv_set(0xc0000000u + 0x15 * 16 + 2, hz);
}
template<typename Storage = mem_storage>
static std::unique_ptr<xtr::logger> make_logger(xtr::log_level_style_t st = xtr::default_log_level_style) {
    cpu_init();
    return std::make_unique<xtr::logger>(std::make_unique<Storage>(), test_clock(), xtr::null_command_path, st);
}

// ---- expected output
struct Text {
    char s[OUT_MAX]; size_t n = 0;
    size_t start[24]; unsigned lines = 0;
    size_t end_of(unsigned i) const { return i + 1 < lines ? start[i + 1] : n; }
    Text& operator<<(const char* t) { size_t k = strlen(t); memcpy(s + n, t, k); n += k; return *this; }
    Text& operator<<(std::string_view t) { memcpy(s + n, t.data(), t.size()); n += t.size(); return *this; }
    Text& operator<<(char c) { s[n++] = c; return *this; }
    Text& operator<<(unsigned v) { char t[12]; int i = 0; do { t[i++] = '0' + v % 10; v /= 10; } while (v); while (i) s[n++] = t[--i]; return *this; }
    Text& operator<<(int v) { if (v < 0) { s[n++] = '-'; v = -v; } return *this << (unsigned)v; }
    Text& line(const char* lv, const char* name, const char* file, unsigned ln, const char* ts = TS) { start[lines++] = n; return *this << lv << ts << ' ' << name << ' ' << file << ':' << ln << ": "; }
};
static inline bool same(const char* a, size_t an, const char* b, size_t bn) { return an == bn && memcmp(a, b, bn) == 0; }
#define EXPECT_OUT(t, msg) do { if (!same(g.out, g.n, (t).s, (t).n)) { show("got:      ", g.out, g.n); show("expected: ", (t).s, (t).n); xfail(msg); } } while (0)
static inline void show(const char* what, const char* p, size_t n) { static char b[OUT_MAX + 64]; size_t k = 0; while (*what) b[k++] = *what++; for (size_t i = 0; i < n && i < OUT_MAX; i++) b[k++] = p[i] == '\n' ? '|' : p[i]; b[k] = 0; xsym_log(b); }

// ---- an argument type whose text is its bytes, so symbolic values stay symbolic
struct raw8 { uint64_t v; };
template<> struct fmt::formatter<raw8> {
    template<typename C> constexpr auto parse(C& c) { return c.begin(); }
    template<typename C> auto format(const raw8& r, C& c) const { auto o = c.out(); char b[8]; memcpy(b, &r.v, 8); for (char x : b) *o++ = x; return o; }
};

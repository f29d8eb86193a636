// C10: the back-end receives exactly the formatted bytes, whatever its buffers.
#define STORE_BUF 8
#include "common.h"
#define F "c10.cpp"
static std::string_view bytes(const uint64_t& v) { return {(const char*)&v, 8}; }

// Hands out a fresh heap buffer of any size at every request and frees it when
// it is submitted, so a write to a submitted buffer or out of bounds is caught.
// Up to three buffers may be handed out before being submitted; they must come
// back in order.
static struct Log { char out[OUT_MAX]; size_t n; char* cur; size_t size; unsigned allocs, submits, flushes, syncs; bool flushed; size_t n_flushed, n_synced; bool dead; } b;
static size_t fixed_size; static uint64_t faults;
struct any_storage : xtr::storage_interface {
    std::span<char> allocate_buffer() override {
        xassert(!b.dead, "used after destruction");
        xassert(!b.cur, "a buffer is requested only when the previous one was submitted");
        if (faults && xsym_choose("no buffer", 2)) { faults--; xsym_reach("no buffer"); throw std::bad_alloc(); }
        static const size_t sizes[] = {1, 7, 46, 200};
        b.size = fixed_size ? fixed_size : b.allocs < xsym_param("nsym", 3) ? sizes[xsym_choose("size", 4)] : 33;
        b.cur = (char*)xsym_malloc(b.size, 1, 5); b.allocs++;
        return {b.cur, b.size};
    }
    void submit_buffer(char* p, std::size_t n) override {
        xassert(p == b.cur && p, "the submitted buffer is the one handed out, submitted once");
        xassert(n > 0, "submitted size is not zero"); xassert(n <= b.size, "submitted size is within the buffer");
        xassert(b.n + n <= OUT_MAX, "harness: output area large enough");
        memcpy(b.out + b.n, p, n); b.n += n; b.submits++;
        xsym_free(p, 5); b.cur = nullptr;
    }
    void flush() override { xassert(!b.cur, "everything is submitted before flush()"); b.flushes++; b.n_flushed = b.n; }
    void sync() noexcept override { b.syncs++; b.n_synced = b.n; xassert(b.n_flushed == b.n, "flushed before sync"); }
    int reopen() noexcept override { return 0; }
    ~any_storage() { xassert(!b.cur, "no buffer is left unsubmitted"); xassert(b.n_flushed == b.n, "flushed before destruction"); b.dead = true; }
};
#define EXPECT_B(t, msg) do { if (!same(b.out, b.n, (t).s, (t).n)) { show("got:      ", b.out, b.n); show("expected: ", (t).s, (t).n); xfail(msg); } } while (0)
static Text t;
static void emit(xtr::sink& s, unsigned kind)
{
    switch (kind) {
        case 0: XTR_LOG(s, "x"); t.line("I ", "N", F, __LINE__) << "x\n"; break;
        case 1: { raw8 r{xsym_u64("r")}; XTR_LOG(s, "{}", r); t.line("I ", "N", F, __LINE__) << bytes(r.v) << "\n"; break; }
        case 2: { std::string_view v("abcdefghijabcdefghijabcdefghijabcdefghijabcdefghij", 50); XTR_LOG(s, "{}{}", v, v); t.line("I ", "N", F, __LINE__) << v << v << "\n"; break; }
    }
}
extern "C" void c10_sizes()
{
    auto lg = make_logger<any_storage>();
    {
        auto s = lg->get_sink("N");
        for (uint64_t i = 0; i < xsym_param("k", 2); i++) {
            emit(s, (unsigned)xsym_choose("kind", 3));
            switch (xsym_choose("then", 3)) {
                case 1: s.sync(); EXPECT_B(t, "sync hands over everything formatted so far"); xassert(b.n_synced == t.n, "synced"); break;
                case 2: xsym_quiesce(); break;
            }
        }
    }
    lg.reset();
    EXPECT_B(t, "the back-end received exactly the formatted lines");
    xassert(b.dead, "the back-end is destroyed");
    xsym_reach("done");
}
// Every buffer size from 1 to more than a line: line ends fall at every place in a buffer.
extern "C" void c10_sweep()
{
    fixed_size = 1 + xsym_choose("size", xsym_param("max", 60));
    auto lg = make_logger<any_storage>();
    {
        auto s = lg->get_sink("N");
        emit(s, 0); if (xsym_choose("sync", 2)) s.sync();
        emit(s, 1);
    }
    lg.reset();
    EXPECT_B(t, "the back-end received exactly the formatted lines");
    xsym_reach("done");
}
// No buffer to be had at times: what was submitted is not submitted again, and once there are buffers lines arrive again.
extern "C" void c10_throw()
{
    auto lg = make_logger<any_storage>();
    {
        auto s = lg->get_sink("N"); xsym_atomic_begin(); faults = xsym_param("faults", 2); xsym_atomic_end();
        for (uint64_t i = 0; i < xsym_param("k", 2); i++) { emit(s, (unsigned)xsym_choose("kind", 3)); if (xsym_choose("sync", 2)) s.sync(); }
        s.sync(); xsym_atomic_begin(); faults = 0; xsym_atomic_end();
        emit(s, 1);
    }
    lg.reset();
    const size_t k = t.n - t.start[t.lines - 1]; xassert(b.n >= k && memcmp(b.out + b.n - k, t.s + t.start[t.lines - 1], k) == 0, "lines arrive again once there are buffers");
    xsym_reach("done");
}

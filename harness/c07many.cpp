// C07, C10: large amounts of data between two calls of sync(), long lines, large buffers; the queue has its full size.
#define OUT_MAX 16
#include "common.h"
#define F "c07many.cpp"
// The back-end keeps a running check of what arrives against what is expected instead of the data itself.
static char want[1 << 20]; static size_t n_want, n_got, n_flushed, n_synced; static unsigned syncs; static bool bad_order; static size_t bsize; static char* cur; static bool dead;
static char last4;
struct big_storage : xtr::storage_interface {
    std::span<char> allocate_buffer() override { xassert(!cur, "a buffer is requested only after the previous one was submitted"); cur = (char*)xsym_malloc(bsize, 1, 5); return {cur, bsize}; }
    void submit_buffer(char* p, std::size_t n) override {
        xassert(p == cur && p && n > 0 && n <= bsize, "the buffer handed out is submitted once, with a size within it");
        if (n_got + n > n_want || memcmp(want + n_got, p, n)) { xsym_log_u64("at", n_got); xfail("the bytes submitted are the formatted lines"); }
        n_got += n; xsym_free(p, 5); cur = nullptr;
    }
    void flush() override { xassert(!cur, "everything is submitted before flush()"); n_flushed = n_got; }
    void sync() noexcept override { syncs++; n_synced = n_got; if (n_flushed != n_got) bad_order = true; }
    int reopen() noexcept override { return 0; }
    ~big_storage() { xassert(!cur && n_flushed == n_got, "everything is submitted and flushed"); dead = true; }
};
static void put(std::string_view v) { memcpy(want + n_want, v.data(), v.size()); n_want += v.size(); }
static void put(const char* p) { put(std::string_view(p)); }
static void put_num(unsigned v) { char t[12]; int i = 0; do t[i++] = (char)('0' + v % 10); while (v /= 10); while (i) want[n_want++] = t[--i]; }
static void head(unsigned ln) { put("I " TS " N " F ":"); put_num(ln); put(": "); }
static void check_sync(xtr::sink& s)
{
    const unsigned before = syncs; s.sync();
    xassert(syncs == before + 1 && !bad_order, "the back-end is flushed, then synced, by each sync()"); xassert(n_synced == n_want && n_got == n_want, "everything logged before sync() is in the back-end when it is synced");
}
static const uint32_t sizes[] = {1000, 4096, 65535, 65536, 65537, 200000};
extern "C" void c07_many()
{
    static const uint16_t ns[] = {17, 33, 65, 129, 257, 1025, 2000}; const unsigned n = ns[xsym_choose("lines", 7)]; const uint64_t kind = xsym_choose("kind", 3); bsize = sizes[xsym_choose("buffer", 2) * 3];
    auto lg = make_logger<big_storage>(); const char c = (char)xsym_range("c", 'a', 'z');
    {
        auto s = lg->get_sink("N"); auto idle = lg->get_sink("idle");
        for (int r = 0; r < 2; r++) {
            for (unsigned i = 0; i < n; i++) {
                // what is expected is written down first as the back-end compares at once
                xsym_atomic_begin(); unsigned ln;
                if (kind == 0) { head(ln = 48); put("x\n"); } else if (kind == 1) { head(ln = 49); want[n_want++] = c; put("\n"); } else { head(ln = 50); put(std::string_view("0123456789", i % 11)); put("\n"); }
                xsym_atomic_end();
#line 48
                if (kind == 0) XTR_LOG(s, "x");
                if (kind == 1) XTR_LOG(s, "{}", c);
                if (kind == 2) XTR_LOG(s, "{}", std::string_view("0123456789", i % 11));
            }
            check_sync(s);
        }
    }
    lg.reset(); xassert(dead && n_got == n_want, "everything is handed over"); xsym_reach("done");
}
// Lines of any length through buffers of any size
static char A[140000];
extern "C" void c10_long()
{
    bsize = sizes[xsym_choose("buffer", 6)]; static const uint32_t ls[] = {200, 4000, 32767, 65400, 65480, 65490, 65500, 65535, 65536, 70000, 131000, 131072};
    auto lg = make_logger<big_storage>();
    {
        auto s = lg->get_sink("N"); const uint64_t l1 = xsym_choose("length", 12);
        for (int r = 0; r < 2; r++) {
            const size_t n = ls[r ? (l1 * 5 + 3) % 12 : l1]; for (size_t i = 0; i < n; i++) A[i] = (char)('a' + (i + r) % 26); A[n - 1] = (char)xsym_range("last", 'a', 'z');
            xsym_atomic_begin(); head(76); put(std::string_view(A, n)); put("\n"); head(77); put("y\n"); xsym_atomic_end();
#line 76
            XTR_LOG(s, "{}", std::string_view(A, n));
            XTR_LOG(s, "y");
            if (r == 0 && (l1 + bsize) % 2) check_sync(s);
        }
    }
    lg.reset(); xassert(dead && n_got == n_want, "everything is handed over"); xsym_reach("done");
}

// C01: the sink's queue is a lossless SPSC byte FIFO.
#include "xsym.h"
#include "xtr/detail/synchronized_ring_buffer.hpp"
#include <new>
#include <cstdint>
#include <cstring>
using namespace xtr::detail;
using std::byte;

// ---- E1: arbitrary histories of symbolic-size operations; geometry of every span
// amounts are drawn from the narrowest type that can express every legal amount
static uint64_t amount(const char* name, size_t cap) { return cap < 256 ? xsym_u8(name) : cap < 65536 ? xsym_u16(name) : xsym_u32(name); }
template<typename RB>
static void seq(RB& rb, int nops, int laps = 0)
{
    const size_t cap = rb.capacity();
    byte* const base = rb.begin();
    xassert(rb.end() == base + cap, "end() is one capacity past begin()");
    uint64_t W = 0, R = 0; // ghost: bytes ever written/consumed
    for (int i = 0; i < laps; i++) {
        uint64_t n = amount("lap", cap); xsym_assume(n <= cap);
        auto s = rb.write_span_spec(); if (s.size() < n) s = rb.write_span(n);
        xassert(s.size() >= n && s.size() <= cap && s.begin() == base + (W & (cap - 1)), "an empty queue offers the whole capacity");
        rb.reduce_writable(n); W += n;
        auto r = rb.read_span();
        xassert(r.size() == n && r.begin() == base + (R & (cap - 1)), "read_span offers exactly the unread bytes");
        rb.reduce_readable(n); R += n;
        if (W >> 32) xsym_reach("over 4 GiB");
    }
    for (int i = 0; i < nops; i++) {
        switch (xsym_choose("op", 4)) {
            case 0: { // publish n bytes
                auto s = rb.write_span();
                xassert(s.size() == cap - (W - R), "write_span offers exactly the free space");
                xassert(s.begin() == base + (W & (cap - 1)), "write position follows the last byte written");
                uint64_t n = amount("n", cap);
                xsym_assume(n <= cap - (W - R));
                rb.reduce_writable(n); W += n;
                xsym_reach("publish");
                break; }
            case 1: { // speculative + fallback as used by sinks
                uint64_t n = amount("m", cap);
                xsym_assume(n <= cap - (W - R));
                auto s = rb.write_span_spec();
                xassert(s.size() <= cap - (W - R), "speculative span never exceeds the free space");
                if (s.size() < n) s = rb.write_span(n);
                xassert(s.size() >= n && s.size() <= cap - (W - R), "blocking request is satisfied and never exceeds the free space");
                xassert(s.begin() == base + (W & (cap - 1)), "write position follows the last byte written");
                rb.reduce_writable(n); W += n;
                break; }
            case 2: { // consume n bytes
                auto s = rb.read_span();
                xassert(s.size() == W - R, "read_span offers exactly the unread bytes");
                xassert(s.begin() == base + (R & (cap - 1)), "read position follows the last byte consumed");
                xassert(s.empty() == (W == R), "read_span is empty only when everything was read");
                uint64_t n = amount("r", cap);
                xsym_assume(n <= W - R);
                rb.reduce_readable(n); R += n;
                xsym_reach("consume");
                break; }
            case 3: { // non-blocking request
                uint64_t n = amount("q", cap);
                xsym_assume(n >= 1 && n <= cap);
                auto s = rb.template write_span<void(xtr::non_blocking_tag)>(n);
                bool fits = n <= cap - (W - R);
                xassert(s.empty() != fits, "non-blocking request fails exactly when there is no room");
                if (fits) {
                    xassert(s.size() >= n && s.size() <= cap - (W - R), "granted space is free");
                    xassert(s.begin() == base + (W & (cap - 1)), "write position follows the last byte written");
                    rb.reduce_writable(n); W += n;
                    xsym_reach("granted");
                } else xsym_reach("refused");
                xassert(rb.dropped_count() == (fits ? 0u : 1u), "each refused request is counted once");
                break; }
        }
    }
    // clear() returns the queue to its initial state
    rb.clear();
    xassert(rb.read_span().empty(), "cleared queue is empty");
    auto s = xsym_choose("how", 2) ? rb.write_span() : rb.write_span_spec();
    xassert(s.size() == cap && s.begin() == base, "cleared queue is entirely free");
    xsym_reach("cleared");
}
template<size_t C> static void seq_static() { synchronized_ring_buffer<C> rb; xassert(rb.capacity() == C, "capacity"); seq(rb, (int)xsym_param("nops", 4)); }
extern "C" void c01_seq_64() { seq_static<64>(); }
extern "C" void c01_seq_128() { seq_static<128>(); }
extern "C" void c01_seq_256() { seq_static<256>(); }
extern "C" void c01_seq_512() { seq_static<512>(); }
extern "C" void c01_seq_64k() { seq_static<65536>(); }
extern "C" void c01_seq_128k() { seq_static<131072>(); }
extern "C" void c01_seq_dyn() { uint64_t want = 65 + xsym_choose("cap", 2) * 64; synchronized_ring_buffer<dynamic_capacity> rb(want); xassert(rb.capacity() >= want && (rb.capacity() & (rb.capacity() - 1)) == 0, "dynamic capacity is a power of two no smaller than requested"); seq(rb, (int)xsym_param("nops", 4)); }

// more data than a 32-bit counter can count; only the first page is backed, as nothing touches the data
extern "C" size_t xm_vm_backing;
extern "C" void c01_laps() { xm_vm_backing = 64; synchronized_ring_buffer<(size_t(1) << 31)> rb; seq(rb, (int)xsym_param("nops", 2), 3); }
extern "C" void c01_laps_dyn() { xm_vm_backing = 64; synchronized_ring_buffer<dynamic_capacity> rb(size_t(1) << 31); seq(rb, (int)xsym_param("nops", 2), 3); }

// ---- E2: contents survive, for symbolic data, across wrap-around
extern "C" void c01_data()
{
    synchronized_ring_buffer<64> rb;
    static uint8_t log[512];
    uint64_t W = 0, R = 0;
    const int rounds = (int)xsym_param("rounds", 3);
    for (int i = 0; i < rounds; i++) {
        uint64_t n = 8 * (1 + xsym_choose("wn", 8));
        if (n > 64 - (W - R)) n = 64 - (W - R);
        auto s = rb.write_span(n);
        xsym_bytes(log + W, n, "d");
        memcpy(s.begin(), log + W, n);
        rb.reduce_writable(n); W += n;
        uint64_t m = 8 * xsym_choose("rn", 9);
        auto r = rb.read_span();
        xassert(r.size() == W - R, "all unread bytes are offered");
        if (m > r.size()) m = r.size();
        xassert(memcmp(r.begin(), log + R, r.size()) == 0, "bytes come out unmodified and in order");
        rb.reduce_readable(m); R += m;
        if (W / 64 != R / 64) xsym_reach("wrapped");
    }
}

// ---- E3: producer and consumer threads, every interleaving
static synchronized_ring_buffer<64>* Q;
static uint64_t g_sizes[4]; static int g_n; static uint8_t g_data[4];
static void producer(void*)
{
    for (int i = 0; i < g_n; i++) {
        auto s = Q->write_span_spec();
        if (s.size() < g_sizes[i]) s = Q->write_span(g_sizes[i]);
        xassert(s.size() >= g_sizes[i], "blocking request is satisfied");
        for (uint64_t k = 0; k < g_sizes[i]; k += 8) { uint64_t v = g_data[i] * 0x0101010101010101ull; memcpy(s.begin() + k, &v, 8); }
        Q->reduce_writable(g_sizes[i]);
    }
}
extern "C" void c01_threads()
{
    Q = new synchronized_ring_buffer<64>();
    g_n = (int)xsym_param("n", 3);
    uint64_t total = 0;
    // records are 24 or 40 bytes, so that two do not always fit and positions wrap
    for (int i = 0; i < g_n; i++) { g_sizes[i] = xsym_choose("size", 2) ? 24 : 40; total += g_sizes[i]; g_data[i] = xsym_u8("data"); }
    uint64_t t = xsym_spawn(producer, nullptr);
    uint64_t R = 0; int rec = 0; uint64_t inrec = 0;
    int idle = 0;
    while (R < total) {
        auto s = Q->read_span();
        if (s.empty()) { idle++; continue; }
        xassert(s.size() <= 64, "no more than a capacity of data");
        for (uint64_t k = 0; k < s.size(); k += 8) {
            uint64_t v; memcpy(&v, s.begin() + k, 8);
            xassert(v == g_data[rec] * 0x0101010101010101ull, "data arrives unmodified, in order, exactly once");
            inrec += 8; if (inrec == g_sizes[rec]) { rec++; inrec = 0; }
        }
        xassert(inrec == 0, "only whole published records are visible");
        R += s.size();
        Q->reduce_readable(s.size());
        if (R > 64) xsym_reach("wrapped");
    }
    xsym_join(t);
    xassert(R == total && rec == g_n, "nothing lost, nothing duplicated");
    xassert(Q->read_span().empty(), "queue empty at the end");
    xsym_reach("done");
    delete Q;
}

// ---- E4: non-blocking producer against a consumer
static uint64_t g_granted, g_refused;
static void nb_producer(void*)
{
    for (int i = 0; i < g_n; i++) {
        auto s = Q->write_span<void(xtr::non_blocking_tag)>(g_sizes[i]);
        if (s.empty()) { g_refused++; continue; }
        xassert(s.size() >= g_sizes[i], "granted space is large enough");
        for (uint64_t k = 0; k < g_sizes[i]; k += 8) { uint64_t v = i + 1; memcpy(s.begin() + k, &v, 8); }
        Q->reduce_writable(g_sizes[i]); g_granted += g_sizes[i];
    }
}
extern "C" void c01_nonblocking()
{
    Q = new synchronized_ring_buffer<64>();
    g_n = (int)xsym_param("n", 3);
    for (int i = 0; i < g_n; i++) g_sizes[i] = xsym_choose("size", 2) ? 24 : 40;
    uint64_t t = xsym_spawn(nb_producer, nullptr);
    uint64_t got = 0, drops = 0, last = 0;
    for (int pass = 0; pass < 3; pass++) {
        auto s = Q->read_span();
        for (uint64_t k = 0; k < s.size(); k += 8) { uint64_t v; memcpy(&v, s.begin() + k, 8); xassert(v >= last && v <= (uint64_t)g_n && v > 0, "records in order"); last = v; }
        if (!s.empty()) { got += s.size(); Q->reduce_readable(s.size()); }
        drops += Q->dropped_count();
    }
    xsym_join(t);
    auto s = Q->read_span();
    got += s.size(); drops += Q->dropped_count();
    xassert(got == g_granted, "exactly the granted bytes were delivered");
    xassert(drops == g_refused, "every refused request is counted exactly once");
    xassert(g_refused == 0 || g_sizes[0] + g_sizes[1] + (g_n > 2 ? g_sizes[2] : 0) > 64, "refused only when full");
    if (drops) xsym_reach("dropped"); else xsym_reach("none dropped");
}

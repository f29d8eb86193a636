// C19: queue memory is a true double mapping, and failures leak nothing.
#include "common.h"
#include "xtr/detail/mirrored_memory_mapping.hpp"
#include <errno.h>
#include <stdarg.h>
#include <system_error>
#include <sys/mman.h>
using xtr::detail::mirrored_memory_mapping; using xtr::detail::memory_mapping;
extern "C" long xm_pagesize;
// ---- the kernel: objects are shared (file or anonymous) or private; 64-byte pages
static uint64_t faults; static unsigned n_failed, n_calls;
static bool fault(const char* what) { n_calls++; if (!faults || !xsym_choose(what, 2)) return false; faults--; n_failed++; errno = ENOMEM; return true; }
static uint64_t priv_obj[8]; static unsigned n_priv;              // objects that mremap cannot duplicate
static uint64_t file_obj, far_obj, file_size; static const uint64_t FAR = 1ull << 33;  // the only file descriptor (7): its beginning, and as much from FAR on
static bool mapped(uint64_t a, uint64_t n) { for (uint64_t i = 0; i < n; i += xm_pagesize) if (!xsym_vm_query(a + i)) return false; return true; }
extern "C" void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
    if (!n || (uintptr_t)a % xm_pagesize || off % xm_pagesize || (!(flags & MAP_SHARED) == !(flags & MAP_PRIVATE))) { errno = EINVAL; return MAP_FAILED; }
    if (!(flags & MAP_ANONYMOUS) && fd != 7) { errno = EBADF; return MAP_FAILED; }
    if (fault("mmap fails")) return MAP_FAILED;
    n = (n + xm_pagesize - 1) / xm_pagesize * xm_pagesize;
    uint64_t addr = (uint64_t)a;
    if (flags & MAP_FIXED) xassert(mapped(addr, n), "a mapping is placed only over memory that was reserved");
    else addr = xsym_vm_reserve(n);
    uint64_t obj;
    if (flags & MAP_ANONYMOUS) { obj = xsym_vm_obj(n); off = 0; } else if (flags & MAP_SHARED) { obj = (uint64_t)off >= FAR ? far_obj : file_obj; off %= FAR; xassert((uint64_t)off + n <= file_size, "harness: within the file"); } else { obj = xsym_vm_obj(n); off = 0; }
    if (flags & MAP_PRIVATE) priv_obj[n_priv++] = obj;
    xsym_vm_map(addr, n, obj, off);
    return (void*)addr;
}
extern "C" void* mremap(void* o, size_t on, size_t nn, int flags, ...) {
    va_list ap; va_start(ap, flags); void* na = va_arg(ap, void*); va_end(ap);
    uint64_t q = xsym_vm_query((uint64_t)o); if (q <= 1) { errno = EFAULT; return MAP_FAILED; }
    uint64_t obj = (q >> 32) - 1, off = (q & 0xffffffff) - 1;
    for (unsigned i = 0; i < n_priv; i++) if (!on && priv_obj[i] == obj) { errno = EINVAL; return MAP_FAILED; }
    if (!nn || ((flags & MREMAP_FIXED) && (!(flags & MREMAP_MAYMOVE) || (uintptr_t)na % xm_pagesize))) { errno = EINVAL; return MAP_FAILED; }
    if (fault("mremap fails")) return MAP_FAILED;
    nn = (nn + xm_pagesize - 1) / xm_pagesize * xm_pagesize;
    uint64_t addr = (flags & MREMAP_FIXED) ? (uint64_t)na : xsym_vm_reserve(nn);
    if (flags & MREMAP_FIXED) xassert(mapped(addr, nn), "a mapping is placed only over memory that was reserved");
    if (on) xsym_vm_unmap((uint64_t)o, on);
    xsym_vm_map(addr, nn, obj, off);
    return (void*)addr;
}
extern "C" int munmap(void* a, size_t n) {
    if (!n || (uintptr_t)a % xm_pagesize) { errno = EINVAL; return -1; }
    n = (n + xm_pagesize - 1) / xm_pagesize * xm_pagesize;
    xassert(mapped((uint64_t)a, n), "memory is released only once: another thread's mapping may be there by now");
    xsym_vm_unmap((uint64_t)a, n); return 0;
}
static void check_mirror(mirrored_memory_mapping& m, uint64_t len)
{
    xassert(m && m.length() == len, "the mapping exists");
    auto* p = (unsigned char*)m.get();
    xassert((uintptr_t)p % (uint64_t)xm_pagesize == 0 && mapped((uint64_t)p, 2 * len), "both views are mapped");
    xsym_bytes(p, len, "lo");                      // any contents
    xassert(memcmp(p, p + len, len) == 0, "bytes written through the first view are read through the second");
    xsym_bytes(p + len, len, "hi");
    xassert(memcmp(p, p + len, len) == 0, "bytes written through the second view are read through the first");
}
extern "C" void c19_map()
{
    const uint64_t live = xsym_vm_live(); faults = xsym_param("faults", 0);
    const uint64_t maxp = xsym_param("pages", 4);
    file_size = 3 * maxp * (uint64_t)xm_pagesize; file_obj = xsym_vm_obj(file_size); far_obj = xsym_vm_obj(file_size);
    uint64_t len = (1 + xsym_choose("pages", maxp)) * (uint64_t)xm_pagesize;
    uint64_t off = 0; int fd = -1, flags = xsym_choose("populate", 2) ? MAP_POPULATE : 0;
    if (xsym_choose("file", 2)) { fd = 7; off = xsym_choose("offset", 3) * (uint64_t)xm_pagesize; if (xsym_choose("far", 2)) off += FAR; }
    try {
        mirrored_memory_mapping m(len, fd, off, flags);
        xassert(n_failed == 0, "a failed call does not go unnoticed");
        check_mirror(m, len);
        if (fd == 7) { uint64_t q = xsym_vm_query((uint64_t)m.get()); xassert((q >> 32) - 1 == (off >= FAR ? far_obj : file_obj) && (q & 0xffffffff) - 1 == off % FAR, "the file is mapped from the offset given"); xsym_reach("file"); }
        xassert(xsym_vm_live() == live + 2 * len, "nothing but the two views is mapped");
        xsym_reach("mapped");
    } catch (const std::system_error& e) {
        xassert(n_failed > 0, "an exception is thrown only if a call failed"); xassert(e.code().value() == ENOMEM, "the exception carries the error of the call that failed"); xsym_reach("failed");
    }
    xassert(xsym_vm_live() == live, "nothing remains mapped");
    xsym_reach("done");
}
// Lengths that are not a multiple of the page size are refused; so is an unknown page size.
extern "C" void c19_length()
{
    const uint64_t live = xsym_vm_live();
    if (xsym_choose("page size unknown", 2)) {
        xm_pagesize = -1; errno = 0; bool threw = false;
        try { mirrored_memory_mapping m(128); } catch (const std::system_error&) { threw = true; }
        xassert(threw && xsym_vm_live() == live, "an unknown page size is reported"); xsym_reach("unknown"); return;
    }
    uint64_t len = xsym_range("len", 1, 1ull << 40); bool threw = false;
    xsym_assume(len % 64 != 0);
    try { mirrored_memory_mapping m(len); } catch (const std::invalid_argument&) { threw = true; }
    xassert(threw && n_calls == 0, "a length that is not page-aligned is refused"); xassert(xsym_vm_live() == live, "nothing remains mapped");
    xsym_reach("done");
}
// Moves: each mapping is released exactly once, and the right one is held.
extern "C" void c19_moves()
{
    const uint64_t live = xsym_vm_live();
    {
        mirrored_memory_mapping a(64), b(128), c; void *pa = a.get(), *pb = b.get(), *pc = nullptr; uint64_t la = 64, lb = 128, lc = 0;
        bool ga = true, gb = true, gc = false;           // holds a mapping
        for (uint64_t k = 0; k < xsym_param("k", 3); k++)
            switch (xsym_choose("op", 5)) {
                case 0: a = mirrored_memory_mapping(192); pa = a.get(); la = 192; ga = true; break;
                case 1: { mirrored_memory_mapping d(std::move(a)); xassert(!a && (bool)d == ga && (!ga || (d.get() == pa && d.length() == la)), "move construction transfers the mapping"); ga = false; break; }
                case 2: c = std::move(b); xassert((bool)c == gb && (!gb || (c.get() == pb && c.length() == lb)), "move assignment transfers the mapping");
                        pc = pb; lc = lb; gc = gb; b = mirrored_memory_mapping(); gb = (bool)b; xassert(!gb, "assigning an empty mapping empties"); break;
                case 3: { mirrored_memory_mapping d; a = std::move(d); xassert(!a, "assigning an empty mapping empties"); ga = false; break; }
                case 4: b = mirrored_memory_mapping(64); pb = b.get(); lb = 64; gb = true; break;
            }
        xassert((bool)a == ga && (bool)b == gb && (bool)c == gc, "who holds a mapping");
        if (ga) xassert(a.get() == pa && a.length() == la, "a keeps its mapping"); if (gb) xassert(b.get() == pb && b.length() == lb, "b keeps its mapping"); if (gc) xassert(c.get() == pc && c.length() == lc, "c keeps its mapping");
        xassert(xsym_vm_live() == live + 2 * (ga * la + gb * lb + gc * lc), "exactly the mappings held exist");
        if (ga) check_mirror(a, la);
    }
    xassert(xsym_vm_live() == live, "every mapping was released");
    xsym_reach("done");
}
// Under the logger: a sink whose queue cannot be created throws, and everything else goes on.
extern "C" void c19_sink()
{
    const uint64_t live = xsym_vm_live();
    auto lg = make_logger(); static Text t;
    auto s = std::make_unique<xtr::sink>(lg->get_sink("N"));
    XTR_LOG(*s, "a"); t.line("I ", "N", "c19.cpp", __LINE__) << "a\n"; s->sync();
    const uint64_t before = xsym_vm_live();
    faults = 1; bool threw = false;
    try { auto x = lg->get_sink("X"); faults = 0; } catch (const std::system_error&) { threw = true; }
    faults = 0;
    xassert(threw == (n_failed > 0), "get_sink throws exactly if the queue could not be created");
    xassert(xsym_vm_live() == before, "nothing remains mapped");
    if (threw) xsym_reach("failed");
    XTR_LOG(*s, "b"); t.line("I ", "N", "c19.cpp", __LINE__) << "b\n";
    s.reset(); lg.reset();
    EXPECT_OUT(t, "logging goes on"); xassert(xsym_vm_live() == live, "every mapping was released");
    xsym_reach("done");
}

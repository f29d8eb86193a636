// Harness API of the xsym symbolic executor.  Under XSYM_NATIVE the same API is
// implemented by native.cpp, which feeds a recorded counterexample to real code.
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t xsym_u64(const char* name);
uint32_t xsym_u32(const char* name);
uint16_t xsym_u16(const char* name);
uint8_t xsym_u8(const char* name);
void xsym_bytes(void* p, size_t n, const char* name);
uint64_t xsym_range(const char* name, uint64_t lo, uint64_t hi);
uint64_t xsym_choose(const char* name, uint64_t n);       // forks over 0..n-1
uint64_t xsym_concretize(uint64_t v);                     // forks over feasible values
void xsym_assume(uint64_t c);
void xsym_assert_(uint64_t c, const char* msg);
void xsym_fail_(const char* msg) __attribute__((noreturn));
void xsym_reach(const char* label);
void xsym_end(void) __attribute__((noreturn));
uint64_t xsym_spawn(void (*fn)(void*), void* arg);
void xsym_join(uint64_t t);
uint64_t xsym_self(void);
uint64_t xsym_nthreads(void);
void xsym_yield(void);
void xsym_mutex_lock(void* m);
int xsym_mutex_trylock(void* m);
void xsym_mutex_unlock(void* m);
uint64_t xsym_mutex_owner(void* m);
void xsym_cv_wait(void* cv, void* m);
void xsym_cv_notify(void* cv, uint64_t all);
void xsym_quiesce(void);                                  // until every other thread is blocked or spinning
void xsym_set_preempt(uint64_t n);
void xsym_set_spurious(uint64_t n);
void xsym_set_spin(uint64_t n);
void xsym_nowait(uint64_t on);                             // blocking or polling by this thread is a violation
void xsym_atomic_begin(void);                             // no scheduling, no race recording
void xsym_atomic_end(void);
void xsym_progress(void);
void* xsym_malloc(uint64_t size, uint64_t align, uint64_t tag);
void xsym_free(void* p, uint64_t tag);
uint64_t xsym_msize(void* p);
uint64_t xsym_valid(const void* p, uint64_t n);
uint64_t xsym_on_stack(const void* p);
uint64_t xsym_heap_mark(void);
uint64_t xsym_heap_live(uint64_t mark);
uint64_t xsym_vm_obj(uint64_t size);
uint64_t xsym_vm_reserve(uint64_t len);
void xsym_vm_map(uint64_t addr, uint64_t len, uint64_t obj, uint64_t off);
void xsym_vm_unmap(uint64_t addr, uint64_t len);
uint64_t xsym_vm_query(uint64_t addr);
uint64_t xsym_vm_live(void);
void xsym_havoc(void* p, uint64_t n);
void xsym_log(const char* s);
void xsym_log_u64(const char* label, uint64_t v);
uint64_t xsym_param(const char* name, uint64_t def);
uint64_t xsym_is_symbolic(uint64_t v);
void xsym_atomic_hook(void (*fn)(void* addr, uint64_t kind));
uint64_t xsym_kv_get(uint64_t k);
void xsym_kv_set(uint64_t k, uint64_t v);
uint64_t xsym_ite(uint64_t c, uint64_t a, uint64_t b);    // no fork
uint64_t xsym_implied(uint64_t c);                        // is c true on every completion of this path
#ifdef __cplusplus
}
#endif
#define XSTR2(x) #x
#define XSTR(x) XSTR2(x)
#define xassert(c, msg) xsym_assert_((uint64_t)(c), msg " (" __FILE__ ":" XSTR(__LINE__) ")")
#define xfail(msg) xsym_fail_(msg " (" __FILE__ ":" XSTR(__LINE__) ")")

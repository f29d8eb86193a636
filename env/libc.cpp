// Default (weak) models of libc; harnesses override what they study.
#include "xsym.h"
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <pthread.h>
#include <signal.h>
#include <sys/uio.h>
#include <unistd.h>
#define WEAK __attribute__((weak))
extern "C" {
static thread_local int xm_errno;
int* __errno_location(void) { return &xm_errno; }
WEAK void xm_on_alloc(size_t) {}
WEAK void xm_on_syscall(const char*) {}
WEAK void xm_on_thread_create() {}
WEAK void xm_on_lock(void*) {}
WEAK void xm_stderr(const char*, size_t) {}
WEAK void xm_stdout(const char*, size_t) {}
WEAK void xm_on_abort(void) {}
WEAK void abort(void) { xm_on_abort(); xsym_fail_("abort() called"); }
WEAK void exit(int) { xsym_fail_("exit() called"); }
void __assert_fail(const char* e, const char*, unsigned, const char*) { xsym_log(e); xsym_fail_("assert() failed"); }
void* malloc(size_t n) { xm_on_alloc(n); return xsym_malloc(n, 16, 3); }
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { void* q = malloc(n); if (p) { size_t o = xsym_msize(p); memcpy(q, p, o < n ? o : n); xsym_free(p, 3); } return q; }
void* aligned_alloc(size_t a, size_t n) { xm_on_alloc(n); return xsym_malloc(n, a, 3); }
int posix_memalign(void** p, size_t a, size_t n) { *p = aligned_alloc(a, n); return 0; }
void free(void* p) { xsym_free(p, 3); }
// strings
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d; }
char* stpcpy(char* d, const char* s) { size_t n = strlen(s); memcpy(d, s, n + 1); return d + n; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isprint(int c) { return c >= 32 && c < 127; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isgraph(int c) { return c > 32 && c < 127; }
int isalnum(int c) { return isdigit(c) || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int iscntrl(int c) { return c < 32 || c == 127; }
int isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
// ctype table as used by inline isprint() etc.
static unsigned short xm_ctab[384]; static const unsigned short* xm_ctabp; 
const unsigned short** __ctype_b_loc(void) {
  if (!xm_ctabp) {
    for (int c = 0; c < 256; c++) {
      unsigned short m = 0; // glibc little endian bits: upper 0x100 lower 0x200 alpha 0x400 digit 0x800 xdigit 0x1000 space 0x2000 print 0x4000 graph 0x8000 blank 0x1 cntrl 0x2 punct 0x4 alnum 0x8
      if (c < 128) {
        bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
        if (up) m |= 0x100; if (lo) m |= 0x200; if (up || lo) m |= 0x400; if (dg) m |= 0x800; if (isxdigit(c)) m |= 0x1000; if (isspace(c)) m |= 0x2000;
        if (isprint(c)) m |= 0x4000; if (isgraph(c)) m |= 0x8000; if (c == ' ' || c == '\t') m |= 1; if (iscntrl(c)) m |= 2; if (isgraph(c) && !isalnum(c)) m |= 4; if (isalnum(c)) m |= 8;
      }
      xm_ctab[128 + c] = m;
    }
    xm_ctabp = xm_ctab + 128;
  }
  return &xm_ctabp;
}
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower(*a), y = tolower(*b); if (x != y) return x - y; if (!x) return 0; } }
char* xm_strchr(const char* s, int c) __asm__("strchr");
char* xm_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* xm_strrchr(const char* s, int c) __asm__("strrchr");
char* xm_strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* xm_strstr(const char* h, const char* n) __asm__("strstr");
char* xm_strstr(const char* h, const char* n) { size_t l = strlen(n); for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h; return l ? 0 : (char*)h; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
void* xm_memrchr(const void* p, int c, size_t n) __asm__("memrchr");
void* xm_memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
char* strncat(char* d, const char* s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
int strncasecmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { int x = tolower(*a), y = tolower(*b); if (x != y) return x - y; if (!x) break; } return 0; }
size_t strcspn(const char* s, const char* r) { size_t i = 0; for (; s[i]; i++) for (const char* q = r; *q; q++) if (*q == s[i]) return i; return i; }
size_t strspn(const char* s, const char* a) { size_t i = 0; for (; s[i]; i++) { const char* q = a; while (*q && *q != s[i]) q++; if (!*q) return i; } return i; }
char* xm_strpbrk(const char* s, const char* a) __asm__("strpbrk");
char* xm_strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* xm_strchrnul(const char* s, int c) __asm__("strchrnul");
char* xm_strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
void* xm_rawmemchr(const void* p, int c) __asm__("rawmemchr");
void* xm_rawmemchr(const void* p, int c) { const char* s = (const char*)p; while (*s != (char)c) s++; return (void*)s; }
void* memmem(const void* h, size_t hn, const void* n, size_t nn) { for (size_t i = 0; i + nn <= hn; i++) if (!memcmp((const char*)h + i, n, nn)) return (char*)h + i; return 0; }
void* memccpy(void* d, const void* s, int c, size_t n) { for (size_t i = 0; i < n; i++) if ((((char*)d)[i] = ((const char*)s)[i]) == (char)c) return (char*)d + i + 1; return 0; }
void bzero(void* p, size_t n) { memset(p, 0, n); }
void explicit_bzero(void* p, size_t n) { memset(p, 0, n); }
char* strndup(const char* s, size_t n) { n = strnlen(s, n); char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
static unsigned long xm_strtou(const char* s, char** e, int base, bool& neg) {
  const char* q = s; while (isspace(*q)) q++; neg = false; if (*q == '-' || *q == '+') neg = *q++ == '-';
  if ((base == 0 || base == 16) && q[0] == '0' && (q[1] | 32) == 'x' && isxdigit(q[2])) { q += 2; base = 16; } else if (base == 0) base = *q == '0' ? 8 : 10;
  unsigned long v = 0; const char* st = q;
  for (;; q++) { int d = isdigit(*q) ? *q - '0' : *q >= 'a' && *q <= 'z' ? *q - 'a' + 10 : *q >= 'A' && *q <= 'Z' ? *q - 'A' + 10 : 99; if (d >= base) break; if (__builtin_mul_overflow(v, (unsigned long)base, &v) || __builtin_add_overflow(v, (unsigned long)d, &v)) { errno = ERANGE; v = ~0ul; } }
  if (e) *e = (char*)(q == st ? s : q); return v; }
unsigned long strtoul(const char* s, char** e, int b) { bool n; unsigned long v = xm_strtou(s, e, b, n); return n ? 0 - v : v; }
long strtol(const char* s, char** e, int b) { bool n; unsigned long v = xm_strtou(s, e, b, n); if (v > 0x7ffffffffffffffful + n) { errno = ERANGE; return n ? (long)(1ul << 63) : 0x7fffffffffffffffl; } return n ? (long)(0 - v) : (long)v; }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }

char __libc_single_threaded = 0;
WEAK char* strerror(int) { return (char*)"error text"; }
WEAK char* strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }
WEAK char* getenv(const char*) { return 0; }
WEAK char* secure_getenv(const char*) { return 0; }
// stdio
FILE* stdout = (FILE*)0x3001; FILE* stderr = (FILE*)0x3002; FILE* stdin = (FILE*)0x3000;
static void xm_file(FILE* f, const char* p, size_t n) { if (f == stderr) xm_stderr(p, n); else if (f == stdout) xm_stdout(p, n); }
WEAK int fileno(FILE* f) { return f == stderr ? 2 : f == stdout ? 1 : 0; }
WEAK size_t fwrite(const void* p, size_t a, size_t b, FILE* f) { xm_file(f, (const char*)p, a * b); return b; }
WEAK int fputs(const char* s, FILE* f) { xm_file(f, s, strlen(s)); return 0; }
WEAK int puts(const char* s) { xm_file(stdout, s, strlen(s)); xm_file(stdout, "\n", 1); return 0; }
WEAK int fputc(int c, FILE* f) { char x = c; xm_file(f, &x, 1); return c; }
WEAK int fflush(FILE*) { return 0; }
static void put(char* b, size_t n, size_t& k, char c) { if (k + 1 < n) b[k] = c; k++; }
static void putn(char* b, size_t n, size_t& k, unsigned long v, unsigned base, int w, char pad) {
  char t[24]; int i = 0; do { unsigned d = v % base; t[i++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); while (i < w) t[i++] = pad; while (i--) put(b, n, k, t[i]); }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t k = 0;
  for (; *f; f++) {
    if (*f != '%') { put(b, n, k, *f); continue; }
    f++; char pad = ' '; int w = 0, l = 0; if (*f == '0') { pad = '0'; f++; } while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') l = 1; f++; }
    switch (*f) {
      case 's': { const char* s = va_arg(ap, const char*); while (*s) put(b, n, k, *s++); break; }
      case 'd': case 'i': { long v = l ? va_arg(ap, long) : va_arg(ap, int); if (v < 0) { put(b, n, k, '-'); v = -v; } putn(b, n, k, v, 10, w, pad); break; }
      case 'u': putn(b, n, k, l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 10, w, pad); break;
      case 'x': case 'X': putn(b, n, k, l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned), 16, w, pad); break;
      case 'p': putn(b, n, k, (unsigned long)va_arg(ap, void*), 16, w, pad); break;
      case 'c': put(b, n, k, (char)va_arg(ap, int)); break;
      default: put(b, n, k, *f); break;
    }
  }
  if (n) b[k < n ? k : n - 1] = 0;
  return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
WEAK int vfprintf(FILE* o, const char* f, va_list ap) { char t[512]; int r = vsnprintf(t, sizeof t, f, ap); xm_file(o, t, strlen(t)); return r; }
WEAK int fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(o, f, ap); va_end(ap); return r; }
WEAK int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
int vsprintf(char* b, const char* f, va_list ap) { return vsnprintf(b, 1 << 20, f, ap); }
WEAK int dprintf(int fd, const char* f, ...) { char t[512]; va_list ap; va_start(ap, f); int r = vsnprintf(t, sizeof t, f, ap); va_end(ap); return fd == 1 || fd == 2 ? (xm_file(fd == 2 ? stderr : stdout, t, strlen(t)), r) : (int)write(fd, t, strlen(t)); }
WEAK int putc(int c, FILE* f) { return fputc(c, f); }

WEAK void perror(const char* s) { xm_stderr(s, strlen(s)); xm_stderr("\n", 1); }
// command line options, as GNU getopt_long does it: options and operands may be mixed
int optind = 1, opterr = 1, optopt; char* optarg; static int xm_optfirst, xm_optlast; static const char* xm_optnext; static int xm_optinit;
static void xm_optrotate(char** v) { // operands [first, last) and options [last, optind) change places
  int n = optind - xm_optlast; for (int i = 0; i < n; i++) { char* t = v[xm_optlast + i]; for (int j = xm_optlast + i; j > xm_optfirst + i; j--) v[j] = v[j - 1]; v[xm_optfirst + i] = t; }
  xm_optfirst += n; xm_optlast = optind; }
struct xm_option { const char* name; int has_arg; int* flag; int val; };
WEAK int getopt_long(int argc, char* const* argv_c, const char* os, const xm_option* lo, int* li) {
  char** argv = (char**)argv_c; optarg = 0;
  if (!xm_optinit || optind == 0) { if (optind == 0) optind = 1; xm_optfirst = xm_optlast = optind; xm_optnext = 0; xm_optinit = 1; }
  if (!xm_optnext || !*xm_optnext) {
    if (xm_optlast > optind) xm_optlast = optind; if (xm_optfirst > optind) xm_optfirst = optind;
    if (xm_optfirst != xm_optlast && xm_optlast != optind) xm_optrotate(argv); else if (xm_optlast != optind) xm_optfirst = optind;
    while (optind < argc && (argv[optind][0] != '-' || !argv[optind][1])) optind++;
    xm_optlast = optind;
    if (optind < argc && !strcmp(argv[optind], "--")) { optind++; if (xm_optfirst != xm_optlast && xm_optlast != optind) xm_optrotate(argv); else if (xm_optfirst == xm_optlast) xm_optfirst = optind; xm_optlast = argc; optind = argc; }
    if (optind == argc) { if (xm_optfirst != xm_optlast) optind = xm_optfirst; return -1; }
    if (lo && argv[optind][1] == '-') {
      const char* a = argv[optind++] + 2; size_t n = 0; while (a[n] && a[n] != '=') n++;
      int hit = -1, amb = 0; for (int i = 0; lo[i].name; i++) if (!strncmp(lo[i].name, a, n)) { if (strlen(lo[i].name) == n) { hit = i; amb = 0; break; } if (hit < 0) hit = i; else if (lo[i].has_arg != lo[hit].has_arg || lo[i].flag != lo[hit].flag || lo[i].val != lo[hit].val) amb = 1; }
      if (hit < 0 || amb) { if (opterr) xm_stderr("bad option\n", 11); optopt = 0; return '?'; }
      if (a[n] == '=') { if (lo[hit].has_arg) optarg = (char*)a + n + 1; else { if (opterr) xm_stderr("bad option\n", 11); optopt = lo[hit].val; return '?'; } }
      else if (lo[hit].has_arg == 1) { if (optind < argc) optarg = argv[optind++]; else { if (opterr) xm_stderr("bad option\n", 11); optopt = lo[hit].val; return os[0] == ':' ? ':' : '?'; } }
      if (li) *li = hit; if (lo[hit].flag) { *lo[hit].flag = lo[hit].val; return 0; } return lo[hit].val;
    }
    xm_optnext = argv[optind] + 1;
  }
  char c = *xm_optnext++; const char* q = 0; for (const char* p = os; *p; p++) if (*p == c && c != ':') { q = p; break; }
  if (!*xm_optnext) optind++;
  if (!q) { if (opterr) xm_stderr("bad option\n", 11); optopt = c; return '?'; }
  if (q[1] == ':') { if (*xm_optnext) { optarg = (char*)xm_optnext; optind++; } else if (q[2] != ':') { if (optind == argc) { if (opterr) xm_stderr("bad option\n", 11); optopt = c; xm_optnext = 0; return os[0] == ':' ? ':' : '?'; } optarg = argv[optind++]; } xm_optnext = 0; }
  return c;
}
WEAK int getopt(int argc, char* const* argv, const char* os) { return getopt_long(argc, argv, os, 0, 0); }
// threads
WEAK int pthread_mutex_lock(pthread_mutex_t* m) { xm_on_lock(m); xsym_mutex_lock(m); return 0; }
WEAK int pthread_mutex_trylock(pthread_mutex_t* m) { xm_on_lock(m); return xsym_mutex_trylock(m) ? 0 : EBUSY; }
WEAK int pthread_mutex_unlock(pthread_mutex_t* m) { xsym_mutex_unlock(m); return 0; }
WEAK int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) { return 0; }
WEAK int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
WEAK int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { xsym_cv_wait(c, m); return 0; }
WEAK int pthread_cond_signal(pthread_cond_t* c) { xm_on_syscall("futex"); xsym_cv_notify(c, 0); return 0; }
WEAK int pthread_cond_broadcast(pthread_cond_t* c) { xsym_cv_notify(c, 1); return 0; }
WEAK int pthread_cond_destroy(pthread_cond_t*) { return 0; }
WEAK int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
WEAK int pthread_rwlock_rdlock(pthread_rwlock_t* m) { xm_on_lock(m); xsym_mutex_lock(m); return 0; }   // readers exclude each other: fewer interleavings, no new behaviour
WEAK int pthread_rwlock_wrlock(pthread_rwlock_t* m) { xm_on_lock(m); xsym_mutex_lock(m); return 0; }
WEAK int pthread_rwlock_unlock(pthread_rwlock_t* m) { xsym_mutex_unlock(m); return 0; }
WEAK int pthread_setname_np(pthread_t, const char*) { return 0; }
WEAK int pthread_sigmask(int, const sigset_t*, sigset_t*) { return 0; }
pthread_t pthread_self(void) { return xsym_self() + 1; }
WEAK int pthread_once(pthread_once_t* o, void (*f)(void)) { if (!*o) { *o = 1; f(); } return 0; }
WEAK int sched_yield(void) { xm_on_syscall("sched_yield"); xsym_yield(); return 0; }
WEAK int usleep(unsigned) { xm_on_syscall("usleep"); xsym_yield(); return 0; }
WEAK int nanosleep(const struct timespec*, struct timespec*) { xm_on_syscall("nanosleep"); xsym_yield(); return 0; }
WEAK int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { xm_on_syscall("clock_nanosleep"); xsym_yield(); return 0; }
// futex used by std::atomic::wait / semaphores
WEAK long syscall(long nr, ...) { xm_on_syscall("syscall"); xsym_yield(); return 0; }
// time: settable
int64_t xm_now_ns = 1000000000000000000ll;
WEAK int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = xm_now_ns / 1000000000; t->tv_nsec = xm_now_ns % 1000000000; return 0; }
WEAK int64_t xm_clock_now(void) { return xm_now_ns; }
int64_t _ZNSt6chrono3_V212system_clock3nowEv(void) { return xm_clock_now(); }
int64_t _ZNSt6chrono3_V212steady_clock3nowEv(void) { return xm_clock_now(); }
WEAK time_t time(time_t* t) { time_t r = xm_now_ns / 1000000000; if (t) *t = r; return r; }
struct tm* xm_gmtime_r(const time_t* tp, struct tm* r) {
  long t = *tp, days = t / 86400, rem = t % 86400; if (rem < 0) { rem += 86400; days--; }
  r->tm_hour = rem / 3600; r->tm_min = rem % 3600 / 60; r->tm_sec = rem % 60;
  r->tm_wday = (int)((days % 7 + 11) % 7);
  long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; unsigned long doe = (unsigned long)(z - era * 146097);
  unsigned long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = (long)yoe + era * 400;
  unsigned long doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
  if (m <= 2) y++;
  long yy = y - 1900; if (yy != (int)yy) { errno = EOVERFLOW; return 0; }
  r->tm_year = (int)yy; r->tm_mon = (int)m - 1; r->tm_mday = (int)d; r->tm_yday = 0; r->tm_isdst = 0;
  r->tm_gmtoff = 0; r->tm_zone = "GMT";
  return r;
}
WEAK struct tm* gmtime_r(const time_t* tp, struct tm* r) { return xm_gmtime_r(tp, r); }
WEAK struct tm* gmtime(const time_t* tp) { static struct tm t; return gmtime_r(tp, &t); }
// local time is not UTC
WEAK struct tm* localtime_r(const time_t* tp, struct tm* r) { time_t t = *tp + 34200; r = xm_gmtime_r(&t, r); if (r) { r->tm_gmtoff = 34200; r->tm_zone = "LOC"; } return r; }
WEAK struct tm* localtime(const time_t* tp) { static struct tm t; return localtime_r(tp, &t); }
WEAK size_t strftime(char* b, size_t n, const char* f, const struct tm* t) {
  size_t k = 0; for (; *f; f++) {
    if (*f != '%') { put(b, n, k, *f); continue; }
    switch (*++f) {
      case 'Y': { long y = t->tm_year + 1900l; if (y < 0) { put(b, n, k, '-'); y = -y; } putn(b, n, k, y, 10, 1, '0'); break; }
      case 'm': putn(b, n, k, t->tm_mon + 1, 10, 2, '0'); break; case 'd': putn(b, n, k, t->tm_mday, 10, 2, '0'); break;
      case 'H': putn(b, n, k, t->tm_hour, 10, 2, '0'); break; case 'M': putn(b, n, k, t->tm_min, 10, 2, '0'); break; case 'S': putn(b, n, k, t->tm_sec, 10, 2, '0'); break;
      case 'T': { char q[16]; strftime(q, sizeof q, "%H:%M:%S", t); for (char* p = q; *p; p++) put(b, n, k, *p); break; }
      case 'F': { char q[32]; strftime(q, sizeof q, "%Y-%m-%d", t); for (char* p = q; *p; p++) put(b, n, k, *p); break; }
      default: put(b, n, k, *f);
    } }
  if (k >= n) return 0; b[k] = 0; return k; }
// memory mappings: anonymous shared and private mappings, mremap duplication
long xm_pagesize = 64;
WEAK long sysconf(int n) { return n == _SC_PAGESIZE ? xm_pagesize : -1; }
WEAK int getpagesize(void) { return (int)xm_pagesize; }
int xm_fd_vmobj[64];
WEAK int xm_fault(const char*) { return 0; }   // non-zero: fail with that errno
size_t xm_vm_backing = 0;                      // non-zero: mappings are backed by that many bytes only
static size_t backed(size_t n) { return xm_vm_backing && n > xm_vm_backing ? xm_vm_backing : n; }
WEAK void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  xm_on_syscall("mmap");
  if (int e = xm_fault("mmap")) { errno = e; return MAP_FAILED; }
  if (!n || (n % xm_pagesize) || ((uintptr_t)a % xm_pagesize)) { errno = EINVAL; return MAP_FAILED; }
  uint64_t addr = (uint64_t)a; if (!(flags & MAP_FIXED) || !a) addr = xsym_vm_reserve(n);
  uint64_t obj = (flags & MAP_ANONYMOUS) ? xsym_vm_obj(backed(n)) : (uint64_t)xm_fd_vmobj[fd] - 1;
  xsym_vm_map(addr, backed(n), obj, (flags & MAP_ANONYMOUS) ? 0 : off);
  return (void*)addr;
}
WEAK void* mremap(void* o, size_t on, size_t nn, int flags, ...) {
  va_list ap; va_start(ap, flags); void* na = va_arg(ap, void*); va_end(ap);
  xm_on_syscall("mremap");
  if (int e = xm_fault("mremap")) { errno = e; return MAP_FAILED; }
  uint64_t q = xsym_vm_query((uint64_t)o); if (q <= 1 || (nn % xm_pagesize)) { errno = EFAULT; return MAP_FAILED; }
  uint64_t obj = (q >> 32) - 1, off = (q & 0xffffffff) - 1;
  uint64_t addr = (flags & MREMAP_FIXED) ? (uint64_t)na : xsym_vm_reserve(nn);
  if (on) xsym_vm_unmap((uint64_t)o, on);
  xsym_vm_map(addr, backed(nn), obj, off);
  return (void*)addr;
}
WEAK int munmap(void* a, size_t n) { xm_on_syscall("munmap"); if (!n) { errno = EINVAL; return -1; } xsym_vm_unmap((uint64_t)a, n); return 0; }
WEAK int mprotect(void*, size_t, int) { return 0; }
WEAK int madvise(void*, size_t, int) { return 0; }
WEAK uid_t geteuid(void) { return 1000; }
WEAK uid_t getuid(void) { return 1000; }
WEAK pid_t getpid(void) { return 42; }
WEAK int access(const char*, int) { errno = ENOENT; return -1; }
WEAK int socket(int, int, int) { xm_on_syscall("socket"); errno = EACCES; return -1; }
WEAK ssize_t write(int, const void*, size_t n) { xm_on_syscall("write"); return n; }
WEAK ssize_t writev(int fd, const struct iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; char* b = (char*)xsym_malloc(t + 1, 16, 9); size_t k = 0; for (int i = 0; i < n; i++) { memcpy(b + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; } ssize_t r = write(fd, b, t); xsym_free(b, 9); return r; }
WEAK int close(int) { xm_on_syscall("close"); return 0; }
WEAK int unlink(const char*) { xm_on_syscall("unlink"); return 0; }
WEAK int fsync(int) { xm_on_syscall("fsync"); return 0; }
}

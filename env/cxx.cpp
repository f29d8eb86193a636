// Model of the parts of libstdc++ / libfmt that xtr's bitcode links against.
// Header-defined code (std::string, std::function, fmt) is the real code; what
// is out of line in the shared libraries is defined here.
#include "xsym.h"
#include <fmt/format-inl.h>
#include <string>
#include <stdexcept>
#include <system_error>
#include <thread>
#include <condition_variable>
#include <mutex>
#include <unordered_map>
#include <functional>
#include <new>
#include <map>
#include <list>
#include <chrono>
#include <string.h>
#include <errno.h>

extern "C" void xm_on_alloc(size_t n);
extern "C" void xm_on_thread_create();

// ---- allocation
extern "C" void* xm_new(size_t n, size_t a, int tag) { xm_on_alloc(n); return xsym_malloc(n ? n : 1, a, tag); }
void* operator new(size_t n) { return xm_new(n, 16, 1); }
void* operator new[](size_t n) { return xm_new(n, 16, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xm_new(n, 16, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xm_new(n, 16, 2); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return xm_new(n, (size_t)a, 1); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return xm_new(n, (size_t)a, 2); }
void* operator new(size_t n, std::align_val_t a) { return xm_new(n, (size_t)a, 1); }
void* operator new[](size_t n, std::align_val_t a) { return xm_new(n, (size_t)a, 2); }
void operator delete(void* p) noexcept { xsym_free(p, 1); }
void operator delete[](void* p) noexcept { xsym_free(p, 2); }
void operator delete(void* p, size_t) noexcept { xsym_free(p, 1); }
void operator delete[](void* p, size_t) noexcept { xsym_free(p, 2); }
void operator delete(void* p, std::align_val_t) noexcept { xsym_free(p, 1); }
void operator delete[](void* p, std::align_val_t) noexcept { xsym_free(p, 2); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { xsym_free(p, 1); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { xsym_free(p, 2); }
const std::nothrow_t std::nothrow{};

// ---- exceptions
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }

static const char* dupstr(const char* s, size_t n) { char* p = (char*)xsym_malloc(n + 1, 16, 9); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) : _M_p(dupstr(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
domain_error::~domain_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
range_error::~range_error() noexcept {}
overflow_error::~overflow_error() noexcept {}
underflow_error::~underflow_error() noexcept {}
system_error::~system_error() noexcept {}

// error categories
namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
struct xm_category final : error_category {
  const char* n; constexpr xm_category(const char* s) : n(s) {}
  const char* name() const noexcept override { return n; }
  std::string message(int) const override { return "error"; }
};
alignas(xm_category) static char sysbuf[sizeof(xm_category)], genbuf[sizeof(xm_category)]; static bool catinit;
static void initcat() { if (!catinit) { catinit = true; new (sysbuf) xm_category("system"); new (genbuf) xm_category("generic"); } }
const error_category& system_category() noexcept { initcat(); return *(const xm_category*)sysbuf; }
const error_category& generic_category() noexcept { initcat(); return *(const xm_category*)genbuf; }
}
__attribute__((constructor(101))) static void xm_init_categories() { _V2::initcat(); }

void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { xsym_fail_("libstdc++ assertion failed"); }

// ---- threads
thread::_State::~_State() = default;
static void xm_thread_main(void* p) { auto* s = static_cast<thread::_State*>(p); s->_M_run(); delete s; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { xm_on_thread_create(); auto* s = st.release(); _M_id = id((__gthread_t)(xsym_spawn(xm_thread_main, s) + 1)); }
void thread::join() { xsym_join((uint64_t)native_handle() - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { xsym_cv_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { xsym_cv_notify(this, 0); }
void condition_variable::notify_all() noexcept { xsym_cv_notify(this, 1); }

// ---- hash tables / trees / lists
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t pr[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257};
  size_t i = 0; while (i + 1 < sizeof(pr) / sizeof(pr[0]) && pr[i] < n) i++;
  _M_next_resize = (size_t)(pr[i] * (double)_M_max_load_factor); return pr[i];
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t ins) const {
  if (e + ins > _M_next_resize) { size_t n = e + ins + 1; if (n < 2 * b) n = 2 * b; if (n < 11) n = 11; return {true, _M_next_bkt(n)}; }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept { this->_M_next = pos; this->_M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
// unbalanced tree (balance is not observable)
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
// erase z without rebalancing; returns the node to be freed
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto put = [&](_Rb_tree_node_base* n) { if (h._M_parent == z) h._M_parent = n; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n; else z->_M_parent->_M_right = n; if (n) n->_M_parent = z->_M_parent; };
  if (h._M_left == z) { if (z->_M_right) { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; h._M_left = y; } else h._M_left = z->_M_parent; }
  if (h._M_right == z) { if (z->_M_left) { auto* y = z->_M_left; while (y->_M_right) y = y->_M_right; h._M_right = y; } else h._M_right = z->_M_parent; }
  if (!z->_M_left) put(z->_M_right);
  else if (!z->_M_right) put(z->_M_left);
  else {
    auto* y = z->_M_right; while (y->_M_left) y = y->_M_left;      // successor takes z's place
    if (y != z->_M_right) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y; put(y);
  }
  return z;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }

}
template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);

// ---- streams, locale: only what the error paths and fmt's chrono code touch
extern "C" void xm_stderr(const char* s, size_t n);
extern "C" {
__attribute__((weak)) void xm_ostream(void*, const char* s, size_t n) { xm_stderr(s, n); }
static void* xm_dec(void* os, unsigned long v, bool neg) { char t[24]; int i = 24; do t[--i] = (char)('0' + v % 10); while (v /= 10); if (neg) t[--i] = '-'; xm_ostream(os, t + i, 24 - i); return os; }
static void* xm_sdec(void* os, long v) { return xm_dec(os, v < 0 ? 0 - (unsigned long)v : (unsigned long)v, v < 0); }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* os, const char* s) { xm_ostream(os, s, strlen(s)); return os; }
void* _ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* os, char c) { xm_ostream(os, &c, 1); return os; }
void* _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void* os, const char* s, long n) { xm_ostream(os, s, n); return os; }
void* _ZNSolsEi(void* os, int v) { return xm_sdec(os, v); }
void* _ZNSolsEm(void* os, unsigned long v) { return xm_dec(os, v, false); }
void* _ZNSolsEj(void* os, unsigned v) { return xm_dec(os, v, false); }
void* _ZNSolsEl(void* os, long v) { return xm_sdec(os, v); }
void* _ZNSo9_M_insertImEERSoT_(void* os, unsigned long v) { return xm_dec(os, v, false); }
void* _ZNSo9_M_insertIyEERSoT_(void* os, unsigned long long v) { return xm_dec(os, v, false); }
void* _ZNSo9_M_insertIlEERSoT_(void* os, long v) { return xm_sdec(os, v); }
void* _ZNSo9_M_insertIxEERSoT_(void* os, long long v) { return xm_sdec(os, v); }
void* _ZNSo5writeEPKcl(void* os, const char* s, long n) { xm_ostream(os, s, n); return os; }
void* _ZNSo3putEc(void* os, char c) { xm_ostream(os, &c, 1); return os; }
void* _ZNSo9_M_insertIbEERSoT_(void* os, bool v) { return xm_dec(os, v, false); }
void* _ZNSo5flushEv(void* os) { return os; }
void* _ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_(void* os) { xm_ostream(os, "\n", 1); return os; }
void _ZSt21ios_base_library_initv() {}
void _ZNSt8ios_base4InitC1Ev(void*) {}
void _ZNSt8ios_base4InitD1Ev(void*) {}
static char xm_locale[64];
void* _ZNSt6locale7classicEv() { return xm_locale; }
void _ZNSt6localeC1Ev(void*) {}
void _ZNSt6localeC1ERKS_(void*, const void*) {}
void _ZNSt6localeD1Ev(void*) {}
bool _ZNKSt6localeeqERKS_(const void*, const void*) { return true; }
int __cxa_guard_abort(void*) { return 0; }
}

// ---- libfmt (src/format.cc of the shared library)
FMT_BEGIN_NAMESPACE
namespace detail {
template FMT_API auto dragonbox::to_decimal(float x) noexcept -> dragonbox::decimal_fp<float>;
template FMT_API auto dragonbox::to_decimal(double x) noexcept -> dragonbox::decimal_fp<double>;
template FMT_API auto locale_ref::get<std::locale>() const -> std::locale;
template FMT_API void buffer<char>::append(const char*, const char*);
template FMT_API void vformat_to(buffer<char>&, string_view, basic_format_args<FMT_BUFFER_CONTEXT(char)>, locale_ref);
template FMT_API auto thousands_sep_impl(locale_ref) -> thousands_sep_result<char>;
template FMT_API auto decimal_point_impl(locale_ref) -> char;
}
FMT_END_NAMESPACE

// Models of libstdc++/libc runtime functions (the header-only parts run as compiled).
#include "vp.h"
#include <cstring>
#include <cstdlib>
#include <stdexcept>
#include <new>
#include <thread>
#include <chrono>
#include <unordered_map>
#include <map>
#include <system_error>
#include <functional>
extern "C" { int vp_clock_symbolic = 0; long vp_clock_unit = 1; void (*vp_clock_hook)(long ns) = nullptr; int vp_rand_symbolic = 0, vp_randombits_symbolic = 0; void (*vp_randombits_hook)(long, uint8_t *) = nullptr; }
// ---- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
struct vp_cow { char *p; };
static char *dup(const char *s) { size_t n = strlen(s); char *r = (char *)malloc(n + 1); memcpy(r, s, n + 1); return r; }
static char *&cow(const __cow_string &c) { return *(char **)(void *)const_cast<__cow_string *>(&c); }
__cow_string::__cow_string() { cow(*this) = dup(""); }
__cow_string::__cow_string(const std::string &s) { cow(*this) = dup(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t n) { cow(*this) = dup(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { cow(*this) = dup(cow(o)); }
__cow_string::~__cow_string() { free(cow(*this)); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { cow(*this) = dup(cow(o)); return *this; }
#define EXC(C, B) C::C(const char *s) : B(s) {} C::C(const std::string &s) : B(s) {} C::~C() noexcept {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return cow(_M_msg); }
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return cow(_M_msg); }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_bad_cast() { throw runtime_error("bad_cast"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
// ---- trees and hash tables
_Rb_tree_node_base *vp_inc(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
_Rb_tree_node_base *vp_dec(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return vp_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return vp_inc(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return vp_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return vp_dec(const_cast<_Rb_tree_node_base *>(x)); }
// header is red, every other node black; no rebalancing
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *lm = h._M_left == z ? vp_inc(z) : h._M_left, *rm = h._M_right == z ? vp_dec(z) : h._M_right, *r;
  if (!z->_M_left) r = z->_M_right; else if (!z->_M_right) r = z->_M_left;
  else {
    _Rb_tree_node_base *y = z->_M_right; while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { y->_M_parent->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = y->_M_parent; y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y; r = y;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = lm; h._M_right = rm; }
  return z;
}
namespace __detail {
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t, size_t) const { return {false, 0}; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n ? n : 1; }
}
size_t _Hash_bytes(const void *, size_t, size_t) { return 0; }
// ---- threads run to completion when started
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { s->_M_run(); static unsigned long n = 1; *(unsigned long *)(void *)&_M_id = n++; }
void thread::join() { *(unsigned long *)(void *)&_M_id = 0; }
void thread::detach() { *(unsigned long *)(void *)&_M_id = 0; }
unsigned int thread::hardware_concurrency() noexcept { return 4; }
// ---- clocks
namespace chrono { inline namespace _V2 {
static long vp_now() { static long t = 1000000000L; if (vp_clock_symbolic) t += (long)vp_u("dt", vp_clock_symbolic) * vp_clock_unit; else t += 1000; if (vp_clock_hook) vp_clock_hook(t); return t; }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vp_now())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vp_now())); }
} }
}
extern "C" {
// ---- C library
int rand(void) noexcept { static unsigned s = 12345; if (vp_rand_symbolic) return (int)vp_u("rand", 31); s = s * 1103515245u + 12345u; return (int)((s >> 1) & 0x7fffffff); }
void srand(unsigned) noexcept {}
long random(void) noexcept { return rand(); }
long time(long *t) noexcept { if (t) *t = 1700000000; return 1700000000; }
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
char *strcpy(char *d, const char *s) noexcept { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
int strcmp(const char *a, const char *b) noexcept { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char *a, const char *b, size_t n) noexcept { for (size_t i = 0; i < n; i++) { if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } return 0; }
size_t strnlen(const char *s, size_t n) noexcept { size_t i = 0; while (i < n && s[i]) i++; return i; }
char *strdup(const char *s) noexcept { return std::dup(s); }
}
extern "C" void *vp_memchr(const void *p, int c, size_t n) asm("memchr");
extern "C" void *vp_memchr(const void *p, int c, size_t n) { const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void *)(q + i); return nullptr; }
extern "C" char *vp_strchr(const char *p, int c) asm("strchr");
extern "C" char *vp_strchr(const char *p, int c) { for (; *p; p++) if (*p == (char)c) return (char *)p; return c == 0 ? (char *)p : nullptr; }
// ---- locale-dependent parts of the streams (see stream.cpp)
extern "C" {
void m_cache(void *, void *) asm("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale"); void m_cache(void *, void *) {}
char m_widen(void *, char c) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc"); char m_widen(void *, char c) { return c; }
char m_narrow(void *, char c, char) asm("_ZNKSt9basic_iosIcSt11char_traitsIcEE6narrowEcc"); char m_narrow(void *, char c, char) { return c; }
}

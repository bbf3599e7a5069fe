// Models of the GMP integer functions (numbers of at most WB bits).
#include "vp.h"
#include <gmp.h>
#include <iosfwd>
#include <cstdlib>
#include <cstring>
#ifndef WB
#define WB 512
#endif
#define WY (WB / 8)
typedef unsigned _BitInt(WB) u512; // WB bits
typedef unsigned _BitInt(2 * WB) u1024;
static mp_limb_t dummy[1] = {0xc1a0};
static u512 mag(mpz_srcptr a) { if (a->_mp_alloc == 0) return 0; u512 v; memcpy(&v, a->_mp_d, WY); return v; }
static bool neg(mpz_srcptr a) { return a->_mp_size < 0; }
static void put(mpz_ptr z, u512 v, bool n) { // limbs above the size are zeros
  if (z->_mp_alloc == 0) { z->_mp_d = (mp_limb_t *)malloc(WY); z->_mp_alloc = WB / 64; memset(z->_mp_d, 0, WY); }
  long s = 0;
  for (int i = 0; i < WB / 64; i++) s += (long)((v >> (64 * i)) != 0);
  memcpy(z->_mp_d, &v, WY);
  z->_mp_size = (int)(n ? -s : s);
}
static void bound() { vp_bound("integer too large for the models"); }
static u512 mulu(u512 a, u512 b) { if ((long)vp_wide(0, &a, WY) + (long)vp_wide(0, &b, WY) > WB) { u1024 r = (u1024)a * (u1024)b; if ((u512)(r >> WB) != 0) bound(); return (u512)r; } return a * b; }
static void addS(mpz_ptr c, u512 a, bool na, u512 b, bool nb) { if (na == nb) { u512 r = a + b; if (r < a) bound(); put(c, r, na); } else if (a >= b) put(c, a - b, na); else put(c, b - a, nb); }
extern "C" {
void __gmpz_init(mpz_ptr z) { z->_mp_alloc = 0; z->_mp_size = 0; z->_mp_d = dummy; }
void __gmpz_init2(mpz_ptr z, mp_bitcnt_t) { __gmpz_init(z); }
void __gmpz_clear(mpz_ptr z) { if (z->_mp_alloc) free(z->_mp_d); }
void __gmpz_set(mpz_ptr z, mpz_srcptr a) { if (z == a) return; put(z, mag(a), neg(a)); }
void __gmpz_set_ui(mpz_ptr z, unsigned long v) { put(z, v, false); }
void __gmpz_set_si(mpz_ptr z, long v) { put(z, v < 0 ? -(unsigned long)v : (unsigned long)v, v < 0); }
void __gmpz_init_set(mpz_ptr z, mpz_srcptr a) { __gmpz_init(z); put(z, mag(a), neg(a)); }
void __gmpz_init_set_ui(mpz_ptr z, unsigned long v) { __gmpz_init(z); put(z, v, false); }
void __gmpz_init_set_si(mpz_ptr z, long v) { __gmpz_init(z); __gmpz_set_si(z, v); }
void __gmpz_swap(mpz_ptr a, mpz_ptr b) { __mpz_struct t = *a; *a = *b; *b = t; }
void __gmpz_add(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { addS(c, mag(a), neg(a), mag(b), neg(b)); }
void __gmpz_sub(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { addS(c, mag(a), neg(a), mag(b), !neg(b)); }
void __gmpz_add_ui(mpz_ptr c, mpz_srcptr a, unsigned long v) { addS(c, mag(a), neg(a), v, false); }
void __gmpz_sub_ui(mpz_ptr c, mpz_srcptr a, unsigned long v) { addS(c, mag(a), neg(a), v, true); }
void __gmpz_mul(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { put(c, mulu(mag(a), mag(b)), neg(a) != neg(b)); }
void __gmpz_mul_ui(mpz_ptr c, mpz_srcptr a, unsigned long v) { put(c, mulu(mag(a), v), neg(a)); }
void __gmpz_addmul_ui(mpz_ptr c, mpz_srcptr a, unsigned long v) { addS(c, mag(c), neg(c), mulu(mag(a), v), neg(a)); }
void __gmpz_mul_2exp(mpz_ptr c, mpz_srcptr a, mp_bitcnt_t k) { u512 v = mag(a); if (k >= WB ? v != 0 : k && (v >> (WB - k)) != 0) bound(); put(c, k >= WB ? (u512)0 : v << k, neg(a)); }
void __gmpz_fdiv_q_2exp(mpz_ptr c, mpz_srcptr a, mp_bitcnt_t k) { if (neg(a)) vp_bound("negative shift"); u512 v = mag(a); put(c, k >= WB ? (u512)0 : v >> k, false); }
void __gmpz_tdiv_q_2exp(mpz_ptr c, mpz_srcptr a, mp_bitcnt_t k) { u512 v = mag(a); put(c, k >= WB ? (u512)0 : v >> k, neg(a)); }
unsigned long __gmpz_fdiv_ui(mpz_srcptr a, unsigned long d) {
  if (d == 0) { volatile int zero = 0; zero = 1 / zero; }
  u512 v = mag(a), r, n = d; vp_modop(3, &v, &v, &n, &r, WY); if (neg(a)) r = r == 0 ? (u512)0 : (u512)d - r; return (unsigned long)r;
}
unsigned long __gmpz_tdiv_ui(mpz_srcptr a, unsigned long d) { if (d == 0) abort(); u512 v = mag(a), r, n = d; vp_modop(3, &v, &v, &n, &r, WY); return (unsigned long)r; }
long __gmpz_get_si(mpz_srcptr a) { long l = (long)(unsigned long)mag(a); return neg(a) ? -l : l; }
void __gmpz_ui_pow_ui(mpz_ptr z, unsigned long b, unsigned long e) { u512 r = 1; if (b == 2) { if (e >= WB) bound(); put(z, r << e, false); return; } for (unsigned long i = 0; i < e; i++) r = mulu(r, b); put(z, r, false); }
void __gmpz_pow_ui(mpz_ptr z, mpz_srcptr a, unsigned long e) { u512 b = mag(a), r = 1; bool n = neg(a) && (e & 1); for (unsigned long i = 0; i < e; i++) r = mulu(r, b); put(z, r, n); }
static void divS(mpz_ptr q, mpz_ptr r, mpz_srcptr a, u512 d, bool nd, bool floor) { // quotient and remainder of either kind
  if (d == 0) { volatile int zero = 0; zero = 1 / zero; }
  u512 v = mag(a), rem, quo; bool na = neg(a); vp_modop(3, &v, &v, &d, &rem, WY); bool off = floor && na != nd && rem != 0;
  if (q) { quo = v / d; if (off) quo = quo + 1; }
  if (off) rem = d - rem;
  if (q) put(q, quo, na != nd);
  if (r) put(r, rem, floor ? nd : na);
}
void __gmpz_fdiv_qr(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { divS(q, r, a, mag(b), neg(b), true); }
void __gmpz_fdiv_q(mpz_ptr q, mpz_srcptr a, mpz_srcptr b) { divS(q, nullptr, a, mag(b), neg(b), true); }
void __gmpz_fdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { divS(nullptr, r, a, mag(b), neg(b), true); }
void __gmpz_tdiv_qr(mpz_ptr q, mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { divS(q, r, a, mag(b), neg(b), false); }
void __gmpz_tdiv_q(mpz_ptr q, mpz_srcptr a, mpz_srcptr b) { divS(q, nullptr, a, mag(b), neg(b), false); }
void __gmpz_tdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { divS(nullptr, r, a, mag(b), neg(b), false); }
void __gmpz_mod(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { divS(nullptr, r, a, mag(b), false, true); }
unsigned long __gmpz_fdiv_qr_ui(mpz_ptr q, mpz_ptr r, mpz_srcptr a, unsigned long d) { divS(q, r, a, d, false, true); return (unsigned long)mag(r); }
unsigned long __gmpz_fdiv_r_ui(mpz_ptr r, mpz_srcptr a, unsigned long d) { divS(nullptr, r, a, d, false, true); return (unsigned long)mag(r); }
unsigned long __gmpz_fdiv_q_ui(mpz_ptr q, mpz_srcptr a, unsigned long d) { mpz_t r; __gmpz_init(r); divS(q, r, a, d, false, true); unsigned long v = (unsigned long)mag(r); __gmpz_clear(r); return v; }
unsigned long __gmpz_tdiv_qr_ui(mpz_ptr q, mpz_ptr r, mpz_srcptr a, unsigned long d) { divS(q, r, a, d, false, false); return (unsigned long)mag(r); }
unsigned long __gmpz_tdiv_r_ui(mpz_ptr r, mpz_srcptr a, unsigned long d) { divS(nullptr, r, a, d, false, false); return (unsigned long)mag(r); }
unsigned long __gmpz_tdiv_q_ui(mpz_ptr q, mpz_srcptr a, unsigned long d) { mpz_t r; __gmpz_init(r); divS(q, r, a, d, false, false); unsigned long v = (unsigned long)mag(r); __gmpz_clear(r); return v; }
void __gmpz_fdiv_r_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t k) { if (neg(a)) vp_bound("negative remainder"); u512 v = mag(a); put(r, k >= WB ? v : v & (((u512)1 << k) - 1), false); }
void __gmpz_tdiv_r_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t k) { u512 v = mag(a); put(r, k >= WB ? v : v & (((u512)1 << k) - 1), neg(a)); }
int __gmpz_divisible_ui_p(mpz_srcptr a, unsigned long d) { if (d == 0) return a->_mp_size == 0; u512 v = mag(a), n = d, r; vp_modop(3, &v, &v, &n, &r, WY); return r == 0; }
void __gmpz_mul_si(mpz_ptr c, mpz_srcptr a, long v) { put(c, mulu(mag(a), v < 0 ? -(unsigned long)v : (unsigned long)v), neg(a) != (v < 0)); }
void __gmpz_addmul(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { addS(c, mag(c), neg(c), mulu(mag(a), mag(b)), neg(a) != neg(b)); }
void __gmpz_submul(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { addS(c, mag(c), neg(c), mulu(mag(a), mag(b)), neg(a) == neg(b)); }
void __gmpz_submul_ui(mpz_ptr c, mpz_srcptr a, unsigned long v) { addS(c, mag(c), neg(c), mulu(mag(a), v), !neg(a)); }
void __gmpz_ui_sub(mpz_ptr c, unsigned long v, mpz_srcptr a) { addS(c, v, false, mag(a), !neg(a)); }
static bool plain(mpz_srcptr a, mpz_srcptr b) { if (neg(a) || neg(b)) vp_bound("logic on negative integers"); return true; }
void __gmpz_and(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { plain(a, b); put(c, mag(a) & mag(b), false); }
void __gmpz_ior(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { plain(a, b); put(c, mag(a) | mag(b), false); }
void __gmpz_xor(mpz_ptr c, mpz_srcptr a, mpz_srcptr b) { plain(a, b); put(c, mag(a) ^ mag(b), false); }
void __gmpz_clrbit(mpz_ptr z, mp_bitcnt_t k) { plain(z, z); if (k < WB) put(z, mag(z) & ~((u512)1 << k), false); }
void __gmpz_combit(mpz_ptr z, mp_bitcnt_t k) { plain(z, z); if (k >= WB) bound(); put(z, mag(z) ^ ((u512)1 << k), false); }
int __gmpz_fits_slong_p(mpz_srcptr a) { return mag(a) <= (u512)(~0ul >> 1) + (neg(a) ? 1 : 0); }
int __gmpz_fits_sint_p(mpz_srcptr a) { return mag(a) <= (u512)(~0u >> 1) + (neg(a) ? 1 : 0); }
int __gmpz_cmpabs(mpz_srcptr a, mpz_srcptr b) { u512 x = mag(a), y = mag(b); return (int)(x > y) - (int)(x < y); }
int __gmpz_cmpabs_ui(mpz_srcptr a, unsigned long v) { u512 x = mag(a); return (int)(x > v) - (int)(x < v); }
void __gmpz_realloc2(mpz_ptr, mp_bitcnt_t) {}
void __gmpz_setbit(mpz_ptr z, mp_bitcnt_t k) { if (k >= WB) bound(); put(z, mag(z) | ((u512)1 << k), neg(z)); }
int __gmpz_tstbit(mpz_srcptr z, mp_bitcnt_t k) { return k >= WB ? 0 : (int)((mag(z) >> k) & 1); }
int __gmpz_cmp(mpz_srcptr a, mpz_srcptr b) { if (neg(a) != neg(b)) return neg(a) ? -1 : 1; u512 x = mag(a), y = mag(b); int r = (int)(x > y) - (int)(x < y); return neg(a) ? -r : r; }
int __gmpz_cmp_ui(mpz_srcptr a, unsigned long v) { if (neg(a)) return -1; u512 x = mag(a); return (int)(x > v) - (int)(x < v); }
int __gmpz_cmp_si(mpz_srcptr a, long v) { bool nv = v < 0; if (neg(a) != nv) return neg(a) ? -1 : 1; u512 x = mag(a), y = nv ? -(unsigned long)v : (unsigned long)v; int r = (int)(x > y) - (int)(x < y); return nv ? -r : r; }
size_t __gmpz_sizeinbase(mpz_srcptr a, int base) {
  u512 v = mag(a); size_t b = vp_wide(0, &v, WY);
  if (base == 2) return b ? b : 1;
  if (base == 256) { size_t n = (b + 7) / 8; return n ? n : 1; }
  if (base == 16) { size_t n = (b + 3) / 4; return n ? n : 1; }
  vp_bound("mpz_sizeinbase in another base");
}
void *__gmpz_export(void *p, size_t *cnt, int order, size_t size, int endian, size_t nails, mpz_srcptr z) {
  if (size != 1 || nails) vp_bound("mpz_export of words");
  u512 v = mag(z); size_t n = vp_concretize((vp_wide(0, &v, WY) + 7) / 8);
  if (cnt) *cnt = n;
  if (n == 0) return p;
  if (!p) p = malloc(n);
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[order == 1 ? n - 1 - i : i] = (uint8_t)(v >> (8 * i));
  return p;
}
void __gmpz_import(mpz_ptr z, size_t n, int order, size_t size, int endian, size_t nails, const void *p) {
  if (size != 1 || nails) vp_bound("mpz_import of words");
  u512 v = 0;
  for (size_t i = 0; i < n; i++) { uint8_t b = ((const uint8_t *)p)[order == 1 ? n - 1 - i : i]; if (i < WY) v = v | ((u512)b << (8 * i)); else if (b) bound(); }
  put(z, v, false);
}
static size_t dec(mpz_srcptr z, char *o) {
  u512 v = mag(z); size_t n = 0; if (neg(z)) o[n++] = '-';
  if (v == 0) { o[n++] = '0'; return n; }
  long len = 1; u512 p = 10;
  while (v >= p) { len++; if (p > ~(u512)0 / 10) break; p = p * 10; }
  if (vp_is_concrete(&v, WY)) { for (long i = len - 1; i >= 0; i--) { o[n + i] = '0' + (char)(v % 10); v = v / 10; } return n + len; }
  u512 sum = 0;
  for (long i = 0; i < len; i++) { u512 d = (u512)vp_u("digit", 4); vp_assume(d < 10); sum = sum * 10 + d; o[n + i] = '0' + (char)d; }
  vp_assume(sum == v);
  return n + len;
}
char *__gmpz_get_str(char *s, int base, mpz_srcptr z) { if (base != 10 && base != 0) vp_bound("mpz_get_str base"); char b[WB / 3 + 640]; size_t n = dec(z, b); if (!s) s = (char *)malloc(n + 1); memcpy(s, b, n); s[n] = 0; return s; }
void vp_stream_write(void *os, const char *s, size_t n); bool vp_stream_console(void *o);
}
std::ostream &operator<<(std::ostream &os, mpz_srcptr z) { if (vp_stream_console(&os)) return os; char b[WB / 3 + 640]; size_t n = dec(z, b); vp_stream_write(&os, b, n); return os; }

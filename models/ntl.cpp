// Models of the NTL shared library (integers of at most WB bits, fields of small order, polynomials over them).
#include "vp.h"
#include <NTL/ZZ.h>
#include <NTL/ZZ_pX.h>
#include <NTL/ZZ_pXFactoring.h>
#include <cstdlib>
#include <cstring>
#include <iostream>
#ifndef WB
#define WB 512
#endif
#define WY (WB / 8)
typedef unsigned _BitInt(WB) u512; // WB bits
typedef unsigned _BitInt(2 * WB) u1024;
struct zb { long alloc, size; unsigned long d[WB / 64]; };
static zb *B(_ntl_gbigint a) { return (zb *)a; }
static u512 mag(_ntl_gbigint a) { if (!a) return 0; u512 v; memcpy(&v, B(a)->d, WY); return v; }
static bool neg(_ntl_gbigint a) { return a && B(a)->size < 0; }
static bool zero(_ntl_gbigint a) { return !a || B(a)->size == 0; }
static void put(_ntl_gbigint *p, u512 v, bool n) {
  if (!*p) { *p = (_ntl_gbigint)malloc(sizeof(zb)); B(*p)->alloc = (WB / 64) << 2; }
  zb *z = B(*p); memcpy(z->d, &v, WY);
  long s = 0;
  for (int i = 0; i < WB / 64; i++) s += (long)((v >> (64 * i)) != 0);
  z->size = n ? -s : s;
}
static long nbits(u512 v) { return (long)vp_wide(0, &v, WY); }
static void bound() { vp_bound("integer too large for the models"); }
static void addS(u512 a, bool na, u512 b, bool nb, _ntl_gbigint *c) {
  if (na == nb) { u512 r = a + b; if (r < a) bound(); put(c, r, na); }
  else if (a >= b) put(c, a - b, na); else put(c, b - a, nb);
}
static u512 modu(u512 a, u512 n) { u512 r; vp_modop(3, &a, &a, &n, &r, WY); return r; }
static u512 mulu(u512 a, u512 b) { if (nbits(a) + nbits(b) > WB) { u1024 r = (u1024)a * (u1024)b; if ((u512)(r >> WB) != 0) bound(); return (u512)r; } return a * b; }
#define Z _ntl_gbigint
#define NEGL(x) ((x) < 0 ? (u512)(-(unsigned long)(x)) : (u512)(unsigned long)(x))
void _ntl_gfree(Z a) { free(a); }
void _ntl_gcopy(Z a, Z *b) { if (*b == a && a) return; put(b, mag(a), neg(a)); }
void _ntl_gintoz(long d, Z *a) { if (d < 0) put(a, NEGL(d), true); else put(a, (u512)(unsigned long)d, false); }
void _ntl_guintoz(unsigned long d, Z *a) { put(a, d, false); }
void _ntl_gzero(Z *a) { put(a, 0, false); }
void _ntl_gone(Z *a) { put(a, 1, false); }
long _ntl_gtoint(Z a) { unsigned long l = (unsigned long)mag(a); return neg(a) ? -(long)l : (long)l; }
unsigned long _ntl_gtouint(Z a) { unsigned long l = (unsigned long)mag(a); return neg(a) ? -l : l; }
void _ntl_gadd(Z a, Z b, Z *c) { addS(mag(a), neg(a), mag(b), neg(b), c); }
void _ntl_gsub(Z a, Z b, Z *c) { addS(mag(a), neg(a), mag(b), !neg(b), c); }
void _ntl_gsubpos(Z a, Z b, Z *c) { put(c, mag(a) - mag(b), false); }
void _ntl_gsadd(Z a, long d, Z *c) { addS(mag(a), neg(a), NEGL(d), d < 0, c); }
void _ntl_gssub(Z a, long d, Z *c) { addS(mag(a), neg(a), NEGL(d), !(d < 0), c); }
void _ntl_gmul(Z a, Z b, Z *c) { put(c, mulu(mag(a), mag(b)), neg(a) != neg(b)); }
void _ntl_gsq(Z a, Z *c) { put(c, mulu(mag(a), mag(a)), false); }
void _ntl_gsmul(Z a, long d, Z *c) { put(c, mulu(mag(a), NEGL(d)), neg(a) != (d < 0)); }
void _ntl_gaddmul(Z x, Z y, Z *w) { addS(mag(*w), neg(*w), mulu(mag(x), mag(y)), neg(x) != neg(y), w); }
void _ntl_gsubmul(Z x, Z y, Z *w) { addS(mag(*w), neg(*w), mulu(mag(x), mag(y)), neg(x) == neg(y), w); }
void _ntl_gsaddmul(Z x, long y, Z *w) { addS(mag(*w), neg(*w), mulu(mag(x), NEGL(y)), neg(x) != (y < 0), w); }
void _ntl_gssubmul(Z x, long y, Z *w) { addS(mag(*w), neg(*w), mulu(mag(x), NEGL(y)), neg(x) == (y < 0), w); }
static void divS(u512 a, bool na, u512 b, bool nb, Z *q, Z *r) { // floor division
  if (b == 0) NTL::ArithmeticError("division by zero");
  u512 qq = a / b, rr = modu(a, b);
  bool d = na != nb;
  if (d && rr != 0) { qq = qq + 1; rr = b - rr; }
  if (q) put(q, qq, d);
  if (r) put(r, rr, nb);
}
void _ntl_gdiv(Z a, Z b, Z *q, Z *r) { divS(mag(a), neg(a), mag(b), neg(b), q, r); }
void _ntl_gmod(Z a, Z b, Z *r) { divS(mag(a), neg(a), mag(b), neg(b), nullptr, r); }
void _ntl_gquickmod(Z *r, Z b) { put(r, modu(mag(*r), mag(b)), false); }
long _ntl_gsdiv(Z a, long b, Z *q) { Z r = nullptr; divS(mag(a), neg(a), NEGL(b), b < 0, q, &r); long v = _ntl_gtoint(r); free(r); return v; }
long _ntl_gsmod(Z a, long b) { Z r = nullptr; divS(mag(a), neg(a), NEGL(b), b < 0, nullptr, &r); long v = _ntl_gtoint(r); free(r); return v; }
static u512 shl(u512 v, long k) { if (k == 0) return v; if (k >= WB) { if (v != 0) bound(); return 0; } if ((v >> (WB - k)) != 0) bound(); return v << k; }
static u512 shr(u512 v, long k) { return k >= WB ? (u512)0 : v >> k; }
void _ntl_glshift(Z n, long k, Z *a) { put(a, k >= 0 ? shl(mag(n), k) : shr(mag(n), -k), neg(n)); }
void _ntl_grshift(Z n, long k, Z *a) { put(a, k >= 0 ? shr(mag(n), k) : shl(mag(n), -k), neg(n)); }
long _ntl_gnumtwos(Z a) { u512 v = mag(a); if (v == 0) return 0; return (long)vp_wide(1, &v, WY); }
long _ntl_gmakeodd(Z *a) { u512 v = mag(*a); if (v == 0) return 0; long k = (long)vp_wide(1, &v, WY); put(a, v >> vp_concretize(k), neg(*a)); return k; }
long _ntl_godd(Z a) { return (long)(mag(a) & 1); }
long _ntl_gbit(Z a, long p) { if (p < 0 || p >= WB) return 0; return (long)((mag(a) >> p) & 1); }
long _ntl_gsetbit(Z *a, long p) { if (p < 0 || p >= WB) bound(); u512 v = mag(*a); long o = (long)((v >> p) & 1); put(a, v | ((u512)1 << p), neg(*a)); return o; }
long _ntl_gswitchbit(Z *a, long p) { if (p < 0 || p >= WB) bound(); u512 v = mag(*a); long o = (long)((v >> p) & 1); put(a, v ^ ((u512)1 << p), neg(*a)); return o; }
void _ntl_glowbits(Z a, long k, Z *b) { put(b, k >= WB ? mag(a) : k <= 0 ? (u512)0 : (u512)(mag(a) & (((u512)1 << k) - 1)), false); }
long _ntl_gslowbits(Z a, long k) { unsigned long v = (unsigned long)mag(a); return k >= 64 ? (long)v : (long)(v & ((1UL << k) - 1)); }
long _ntl_gweights(long a) { long r = 0; unsigned long v = a < 0 ? -(unsigned long)a : a; for (int i = 0; i < 64; i++) r += (v >> i) & 1; return r; }
long _ntl_gweight(Z a) { long r = 0; u512 v = mag(a); for (int i = 0; i < WB; i++) r += (long)((v >> i) & 1); return r; }
void _ntl_gand(Z a, Z b, Z *c) { put(c, mag(a) & mag(b), false); }
void _ntl_gor(Z a, Z b, Z *c) { put(c, mag(a) | mag(b), false); }
void _ntl_gxor(Z a, Z b, Z *c) { put(c, mag(a) ^ mag(b), false); }
static long cmpS(u512 a, bool na, u512 b, bool nb) {
  if (na != nb) return na ? -1 : 1;
  long r = (long)(a > b) - (long)(a < b);
  return na ? -r : r;
}
long _ntl_gcompare(Z a, Z b) { return cmpS(mag(a), neg(a), mag(b), neg(b)); }
long _ntl_gscompare(Z a, long b) { return cmpS(mag(a), neg(a), NEGL(b), b < 0); }
long _ntl_gisone(Z a) { return a && B(a)->size == 1 && B(a)->d[0] == 1; }
long _ntl_gsptest(Z a) { return nbits(mag(a)) <= NTL_SP_NBITS; }
long _ntl_gwsptest(Z a) { return nbits(mag(a)) <= 62; }
void _ntl_gabs(Z *a) { if (*a && B(*a)->size < 0) B(*a)->size = -B(*a)->size; }
void _ntl_gnegate(Z *a) { if (*a) B(*a)->size = -B(*a)->size; }
void _ntl_gswap(Z *a, Z *b) { Z t = *a; *a = *b; *b = t; }
long _ntl_g2log(Z a) { return nbits(mag(a)); }
void _ntl_gexp(Z a, long e, Z *b) { u512 r = 1, m = mag(a); bool n = neg(a) && (e & 1); for (long i = 0; i < e; i++) r = mulu(r, m); put(b, r, n); }
void _ntl_gexps(long a, long e, Z *b) { u512 r = 1, m = NEGL(a); bool n = a < 0 && (e & 1); for (long i = 0; i < e; i++) r = mulu(r, m); put(b, r, n); }
static void modop(int op, Z a, Z b, Z n, Z *c) { u512 x = mag(a), y = mag(b), m = mag(n), r; vp_modop(op, &x, &y, &m, &r, WY); put(c, r, false); }
void _ntl_gaddmod(Z a, Z b, Z n, Z *c) { modop(0, a, b, n, c); }
void _ntl_gsubmod(Z a, Z b, Z n, Z *c) { modop(1, a, b, n, c); }
void _ntl_gmulmod(Z a, Z b, Z n, Z *c) { modop(2, a, b, n, c); }
void _ntl_gsqmod(Z a, Z n, Z *c) { modop(2, a, a, n, c); }
void _ntl_gsmulmod(Z a, long b, Z n, Z *c) { Z t = nullptr; _ntl_gintoz(b, &t); modop(2, a, t, n, c); free(t); }
static u512 inverse(u512 a, u512 n, bool &ok) {
  ok = true;
  if (vp_is_concrete(&a, WY)) { // extended Euclid on concrete values
    if (nbits(n) > 120) vp_bound("inversion modulo a number of more than 120 bits");
    typedef __int128 W; W m = (W)n, r0 = m, r1 = (W)(a % n), t0 = 0, t1 = 1;
    while (r1) { W q = r0 / r1, r2 = r0 - q * r1, t2 = t0 - q * t1; r0 = r1; r1 = r2; t0 = t1; t1 = t2; }
    if (r0 != 1) { ok = false; return 0; }
    if (t0 < 0) t0 += m;
    return (u512)(unsigned __int128)t0;
  }
  if (modu(a, n) == 0) { ok = false; return 0; }
  u512 y = 0, r;
  if (nbits(n) <= 64) y = (u512)vp_u("inv", (int)nbits(n)); else vp_make(&y, (size_t)(nbits(n) + 7) / 8, "inv");
  vp_assume(y < n);
  vp_modop(2, &a, &y, &n, &r, WY);
  vp_assume(r == 1);
  return y;
}
long _ntl_ginv(Z a, Z n, Z *c) { bool ok; u512 r = inverse(mag(a), mag(n), ok); if (!ok) { put(c, 0, false); return 1; } put(c, r, false); return 0; }
void _ntl_ginvmod(Z a, Z n, Z *c) { bool ok; u512 r = inverse(mag(a), mag(n), ok); if (!ok) NTL::ArithmeticError("InvMod: inverse undefined"); put(c, r, false); }
void _ntl_gpowermod(Z g, Z e, Z F, Z *h) { u512 r = 1, b = mag(g), n = mag(F); unsigned long k = vp_concretize((unsigned long)mag(e)); for (unsigned long i = 0; i < k; i++) vp_modop(2, &r, &b, &n, &r, WY); put(h, r, false); }
void _ntl_gsetlength(Z *v, long) { if (!*v) put(v, 0, false); }
void _ntl_gfrombytes(Z *x, const unsigned char *p, long n) {
  u512 v = 0;
  if (n > WY) { for (long i = WY; i < n; i++) if (p[i]) bound(); n = WY; }
  for (long i = 0; i < n; i++) v = v | ((u512)p[i] << (8 * i));
  put(x, v, false);
}
void _ntl_gbytesfromz(unsigned char *p, Z a, long n) { u512 v = mag(a); for (long i = 0; i < n; i++) p[i] = i < WY ? (unsigned char)(v >> (8 * i)) : 0; }
long _ntl_gvalidate(Z) { return 0; }

// ---- decimal text
extern "C" { long (*vp_decimal_hook)(const NTL::ZZ &z, char *out) = nullptr; }
extern "C" long vp_decimal(const NTL::ZZ &z, char *out) { // out: at least WB / 3 + 3 bytes
  if (vp_decimal_hook) return vp_decimal_hook(z, out);
  u512 v = mag(z.rep.rep); long n = 0; bool ng = neg(z.rep.rep);
  if (ng) out[n++] = '-';
  if (v == 0) { out[n++] = '0'; return n; }
  long len = 1; u512 p = 10;
  while (v >= p) { len++; if (p > ~(u512)0 / 10) break; p = p * 10; }
  if (vp_is_concrete(&v, WY)) { for (long i = len - 1; i >= 0; i--) { out[n + i] = '0' + (char)(v % 10); v = v / 10; } return n + len; }
  u512 sum = 0;
  for (long i = 0; i < len; i++) { u512 d = (u512)vp_u("digit", 4); vp_assume(d < 10); sum = sum * 10 + d; out[n + i] = '0' + (char)d; }
  vp_assume(sum == v);
  return n + len;
}
extern "C" void vp_stream_write(void *os, const char *s, size_t n); extern "C" bool vp_stream_console(void *o);
namespace NTL {
std::istream &operator>>(std::istream &in, ZZ &z) {
  std::streambuf *sb = in.rdbuf(); int c = sb->sgetc(); bool n = false; u512 v = 0;
  while (c == ' ' || c == '\n' || c == '\t') c = sb->snextc();
  if (c == '-') { n = true; c = sb->snextc(); }
  if (c < '0' || c > '9') TerminalError("bad ZZ input");
  for (; c >= '0' && c <= '9'; c = sb->snextc()) v = v * 10 + (unsigned)(c - '0');
  put(&z.rep.rep, v, n);
  return in;
}
std::ostream &operator<<(std::ostream &os, const ZZ &z) { if (vp_stream_console(&os)) return os; char b[WB / 3 + 640]; long n = vp_decimal(z, b); vp_stream_write(&os, b, n); return os; }
void TerminalError(const char *s) { abort(); }
void InvModError(const char *s, const ZZ &, const ZZ &) { abort(); }
const ZZ &ZZ::zero() { static ZZ z; return z; }
const ZZ &ZZ_expo(long e) { static ZZ z; return z; }
void conv(ZZ &x, const char *s) { x = 0; bool n = false; if (*s == '-') { n = true; s++; } u512 v = 0; for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (unsigned)(*s - '0'); put(&x.rep.rep, v, n); }
void RandomBits(ZZ &x, long l) {
  if (l <= 0) { x = 0; return; }
  if (l > WB) vp_bound("random bits beyond the models");
  u512 v = 0;
  if (vp_randombits_hook) { uint8_t b[WY]; memset(b, 0, WY); vp_randombits_hook(l, b); if (l % 8) b[l / 8] &= (1 << l % 8) - 1; for (long i = 0; i < (l + 7) / 8; i++) v = v | ((u512)b[i] << (8 * i)); }
  else if (vp_randombits_symbolic) { for (long i = 0; i < l; i += 64) { long m = l - i < 64 ? l - i : 64; v = v | ((u512)vp_u("rb", (int)m) << i); } }
  else { for (long i = 0; i < l; i++) if (i % 3 != 1 || i == l - 1) v = v | ((u512)1 << i); }
  put(&x.rep.rep, v, false);
}
void RandomLen(ZZ &x, long l) { RandomBits(x, l); if (l > 0) _ntl_gsetbit(&x.rep.rep, l - 1); }
long RandomBits_long(long l) { ZZ z; RandomBits(z, l); return to_long(z); }
void RandomBnd(ZZ &x, const ZZ &n) { ZZ t; RandomBits(t, NumBits(n)); vp_assume(t < n); x = t; }
void SetSeed(const ZZ &) {}
long divide(const ZZ &a, const ZZ &b) { ZZ r; if (IsZero(b)) return IsZero(a); rem(r, a, b); return IsZero(r); }
long divide(const ZZ &a, long b) { ZZ z; z = b; return divide(a, z); }
long bit(long a, long k) { if (a < 0) a = -a; return k < 0 || k > 63 ? 0 : a >> k & 1; }
void power2(ZZ &x, long e) { ZZ o; o = 1L; LeftShift(x, o, e); }
long power_long(long a, long e) { unsigned long r = 1; for (; e > 0; e--) r *= (unsigned long)a; return (long)r; }
void sub(ZZ &x, long a, const ZZ &b) { ZZ t; t = a; sub(x, t, b); }
// ---- Z/pZ
NTL_CHEAP_THREAD_LOCAL ZZ_pInfoT *ZZ_pInfo = nullptr;
NTL_CHEAP_THREAD_LOCAL ZZ_pTmpSpaceT *ZZ_pTmpSpace = nullptr;
NTL_CHEAP_THREAD_LOCAL bool ZZ_pInstalled = false;
ZZ_pInfoT::ZZ_pInfoT(const ZZ &NewP) { p = NewP; size = 8; ExtendedModulusSize = 9; }
void MatPrime_crt_helper_deleter(MatPrime_crt_helper *) {}
void ZZ_p::init(const ZZ &p) { ZZ_pInfo = new ZZ_pInfoT(p); }
void ZZ_p::DoInstall() {}
void ZZ_pContext::save() {}
void ZZ_pContext::restore() const {}
void ZZ_pBak::save() {}
void ZZ_pBak::restore() {}
ZZ_pBak::~ZZ_pBak() {}
const ZZ_p &ZZ_p::zero() { static ZZ_p z; return z; }
void conv(ZZ_p &x, long a) { ZZ z; z = a; conv(x, z); }
void BlockConstruct(ZZ_p *x, long n) { for (long i = 0; i < n; i++) new (&x[i]) ZZ_p; }
void BlockConstructFromVec(ZZ_p *x, long n, const ZZ_p *y) { for (long i = 0; i < n; i++) new (&x[i]) ZZ_p(y[i]); }
void BlockConstructFromObj(ZZ_p *x, long n, const ZZ_p &y) { for (long i = 0; i < n; i++) new (&x[i]) ZZ_p(y); }
void BlockDestroy(ZZ_p *x, long n) { for (long i = 0; i < n; i++) x[i].~ZZ_p(); }
void inv(ZZ_p &x, const ZZ_p &a) { _ntl_ginvmod(a._ZZ_p__rep.rep.rep, ZZ_p::modulus().rep.rep, &x._ZZ_p__rep.rep.rep); }
void div(ZZ_p &x, const ZZ_p &a, const ZZ_p &b) { ZZ_p t; inv(t, b); mul(x, a, t); }
void add(ZZ_p &x, const ZZ_p &a, long b) { ZZ_p t; conv(t, b); add(x, a, t); }
void sub(ZZ_p &x, const ZZ_p &a, long b) { ZZ_p t; conv(t, b); sub(x, a, t); }
void sub(ZZ_p &x, long a, const ZZ_p &b) { ZZ_p t; conv(t, a); sub(x, t, b); }
void mul(ZZ_p &x, const ZZ_p &a, long b) { ZZ_p t; conv(t, b); mul(x, a, t); }
void div(ZZ_p &x, const ZZ_p &a, long b) { ZZ_p t; conv(t, b); div(x, a, t); }
void div(ZZ_p &x, long a, const ZZ_p &b) { ZZ_p t; conv(t, a); div(x, t, b); }
long operator==(const ZZ_p &a, long b) { ZZ_p t; conv(t, b); return a == t; }
void conv(vec_ZZ_p &x, const Vec<ZZ> &a) { x.SetLength(a.length()); for (long i = 0; i < a.length(); i++) conv(x[i], a[i]); }
void add(vec_ZZ_p &x, const vec_ZZ_p &a, const vec_ZZ_p &b) { if (a.length() != b.length()) LogicError("vector add: dimension mismatch"); vec_ZZ_p r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) add(r[i], a[i], b[i]); x = r; }
void sub(vec_ZZ_p &x, const vec_ZZ_p &a, const vec_ZZ_p &b) { if (a.length() != b.length()) LogicError("vector sub: dimension mismatch"); vec_ZZ_p r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) sub(r[i], a[i], b[i]); x = r; }
void mul(vec_ZZ_p &x, const vec_ZZ_p &a, const ZZ_p &b) { vec_ZZ_p r = a; ZZ_p c = b; for (long i = 0; i < r.length(); i++) mul(r[i], r[i], c); x = r; }
void mul(vec_ZZ_p &x, const vec_ZZ_p &a, long b) { ZZ_p t; conv(t, b); mul(x, a, t); }
void negate(vec_ZZ_p &x, const vec_ZZ_p &a) { vec_ZZ_p r = a; for (long i = 0; i < r.length(); i++) negate(r[i], r[i]); x = r; }
void clear(vec_ZZ_p &x) { for (long i = 0; i < x.length(); i++) clear(x[i]); }
long IsZero(const vec_ZZ_p &a) { for (long i = 0; i < a.length(); i++) if (!IsZero(a[i])) return 0; return 1; }
void InnerProduct(ZZ_p &x, const vec_ZZ_p &a, const vec_ZZ_p &b) { ZZ_p s, t; clear(s); long n = a.length() < b.length() ? a.length() : b.length(); for (long i = 0; i < n; i++) { mul(t, a[i], b[i]); add(s, s, t); } x = s; }
vec_ZZ_p operator+(const vec_ZZ_p &a, const vec_ZZ_p &b) { vec_ZZ_p r; add(r, a, b); return r; }
vec_ZZ_p operator-(const vec_ZZ_p &a, const vec_ZZ_p &b) { vec_ZZ_p r; sub(r, a, b); return r; }
vec_ZZ_p operator-(const vec_ZZ_p &a) { vec_ZZ_p r; negate(r, a); return r; }
static void place(ZZ_p &x, const ZZ &a) { conv(x, a); }
ZZ_p::ZZ_p(INIT_VAL_TYPE, const ZZ &a) { place(*this, a); }
ZZ_p::ZZ_p(INIT_VAL_TYPE, long a) { ZZ z; z = a; place(*this, z); }
void random(vec_ZZ_p &x, long n) { x.SetLength(n); for (long i = 0; i < n; i++) random(x[i]); }
void InnerProduct(ZZ &x, const vec_ZZ &a, const vec_ZZ &b) { ZZ s, t; long n = a.length() < b.length() ? a.length() : b.length(); for (long i = 0; i < n; i++) { mul(t, a[i], b[i]); add(s, s, t); } x = s; }
void add(vec_ZZ &x, const vec_ZZ &a, const vec_ZZ &b) { if (a.length() != b.length()) LogicError("vector add: dimension mismatch"); vec_ZZ r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) add(r[i], a[i], b[i]); x = r; }
void sub(vec_ZZ &x, const vec_ZZ &a, const vec_ZZ &b) { if (a.length() != b.length()) LogicError("vector sub: dimension mismatch"); vec_ZZ r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) sub(r[i], a[i], b[i]); x = r; }
void mul(vec_ZZ &x, const vec_ZZ &a, const ZZ &b) { vec_ZZ r = a; ZZ c = b; for (long i = 0; i < r.length(); i++) mul(r[i], r[i], c); x = r; }
void mul(vec_ZZ &x, const vec_ZZ &a, long b) { ZZ t; t = b; mul(x, a, t); }
void negate(vec_ZZ &x, const vec_ZZ &a) { vec_ZZ r = a; for (long i = 0; i < r.length(); i++) negate(r[i], r[i]); x = r; }
void clear(vec_ZZ &x) { for (long i = 0; i < x.length(); i++) clear(x[i]); }
long IsZero(const vec_ZZ &a) { for (long i = 0; i < a.length(); i++) if (!IsZero(a[i])) return 0; return 1; }
vec_ZZ operator+(const vec_ZZ &a, const vec_ZZ &b) { vec_ZZ r; add(r, a, b); return r; }
vec_ZZ operator-(const vec_ZZ &a, const vec_ZZ &b) { vec_ZZ r; sub(r, a, b); return r; }
vec_ZZ operator-(const vec_ZZ &a) { vec_ZZ r; negate(r, a); return r; }
ZZ operator*(const vec_ZZ &a, const vec_ZZ &b) { ZZ r; InnerProduct(r, a, b); return r; }
ZZ_p operator*(const vec_ZZ_p &a, const vec_ZZ_p &b) { ZZ_p r; InnerProduct(r, a, b); return r; }
long divide(ZZ &q, const ZZ &a, const ZZ &b) { ZZ r, t; if (IsZero(b)) { if (!IsZero(a)) return 0; clear(q); return 1; } DivRem(t, r, a, b); if (!IsZero(r)) return 0; q = t; return 1; }
long divide(ZZ &q, const ZZ &a, long b) { ZZ t; t = b; return divide(q, a, t); }
void bit_and(ZZ &x, const ZZ &a, long b) { ZZ t; t = b; bit_and(x, a, t); }
void bit_or(ZZ &x, const ZZ &a, long b) { ZZ t; t = b; bit_or(x, a, t); }
void bit_xor(ZZ &x, const ZZ &a, long b) { ZZ t; t = b; bit_xor(x, a, t); }
void AddMod(ZZ &x, const ZZ &a, long b, const ZZ &n) { ZZ t; t = b; rem(t, t, n); AddMod(x, a, t, n); }
void SubMod(ZZ &x, const ZZ &a, long b, const ZZ &n) { ZZ t; t = b; rem(t, t, n); SubMod(x, a, t, n); }
void SubMod(ZZ &x, long a, const ZZ &b, const ZZ &n) { ZZ t; t = a; rem(t, t, n); SubMod(x, t, b, n); }
void InvMod(ZZ &x, const ZZ &a, const ZZ &n) { _ntl_ginvmod(a.rep.rep, n.rep.rep, &x.rep.rep); }
void PowerMod(ZZ &h, const ZZ &g, const ZZ &e, const ZZ &F) { _ntl_gpowermod(g.rep.rep, e.rep.rep, F.rep.rep, &h.rep.rep); }
long GCD(long a, long b) { unsigned long x = a < 0 ? -(unsigned long)a : (unsigned long)a, y = b < 0 ? -(unsigned long)b : (unsigned long)b; while (y) { unsigned long t = x % y; x = y; y = t; } return (long)x; }
// ---- polynomials
void ZZ_pX::normalize() { long n = rep.length(); while (n > 0 && IsZero(rep[n - 1])) n--; rep.SetLength(n); }
const ZZ_pX &ZZ_pX::zero() { static ZZ_pX z; return z; }
long IsZero(const ZZ_pX &a) { return a.rep.length() == 0; }
long IsOne(const ZZ_pX &a) { return a.rep.length() == 1 && IsOne(a.rep[0]); }
void GetCoeff(ZZ_p &x, const ZZ_pX &a, long i) { if (i < 0 || i > deg(a)) clear(x); else x = a.rep[i]; }
const ZZ_p &coeff(const ZZ_pX &a, long i) { if (i < 0 || i > deg(a)) return ZZ_p::zero(); return a.rep[i]; }
const ZZ_p &LeadCoeff(const ZZ_pX &a) { if (IsZero(a)) return ZZ_p::zero(); return a.rep[deg(a)]; }
const ZZ_p &ConstTerm(const ZZ_pX &a) { if (IsZero(a)) return ZZ_p::zero(); return a.rep[0]; }
void SetCoeff(ZZ_pX &x, long i, const ZZ_p &a) {
  if (i < 0) LogicError("SetCoeff: negative index");
  long m = deg(x);
  if (i > m && IsZero(a)) return;
  ZZ_p c = a;
  if (i > m) { x.rep.SetLength(i + 1); for (long j = m + 1; j < i; j++) clear(x.rep[j]); }
  x.rep[i] = c;
  x.normalize();
}
void SetCoeff(ZZ_pX &x, long i) { ZZ_p o; conv(o, 1); SetCoeff(x, i, o); }
void SetCoeff(ZZ_pX &x, long i, long a) { ZZ_p o; conv(o, a); SetCoeff(x, i, o); }
void SetX(ZZ_pX &x) { clear(x); SetCoeff(x, 1); }
long IsX(const ZZ_pX &a) { return deg(a) == 1 && IsOne(LeadCoeff(a)) && IsZero(ConstTerm(a)); }
void LeftShift(ZZ_pX &x, const ZZ_pX &a, long n) { vec_ZZ_p r; long m = a.rep.length(); if (m && m + n > 0) { r.SetLength(m + n); for (long i = 0; i < m; i++) if (i + n >= 0) r[i + n] = a.rep[i]; } x.rep = r; x.normalize(); }
void RightShift(ZZ_pX &x, const ZZ_pX &a, long n) { LeftShift(x, a, -n); }
void trunc(ZZ_pX &x, const ZZ_pX &a, long m) { vec_ZZ_p r; long n = a.rep.length() < m ? a.rep.length() : m; r.SetLength(n); for (long i = 0; i < n; i++) r[i] = a.rep[i]; x.rep = r; x.normalize(); }
long operator==(const ZZ_pX &a, long b) { ZZ_p t; conv(t, b); return deg(a) <= 0 && coeff(a, 0) == t; }
long operator==(const ZZ_pX &a, const ZZ_p &b) { return deg(a) <= 0 && coeff(a, 0) == b; }
void conv(ZZ_pX &x, const ZZ &a) { ZZ_p t; conv(t, a); x.rep.SetLength(1); x.rep[0] = t; x.normalize(); }
void conv(ZZ_pX &x, long a) { ZZ_p t; conv(t, a); x.rep.SetLength(1); x.rep[0] = t; x.normalize(); }
void conv(ZZ_pX &x, const ZZ_p &a) { x.rep.SetLength(1); x.rep[0] = a; x.normalize(); }
void conv(ZZ_pX &x, const vec_ZZ_p &a) { x.rep = a; x.normalize(); }
void add(ZZ_pX &x, const ZZ_pX &a, const ZZ_pX &b) {
  vec_ZZ_p r; long n = a.rep.length() > b.rep.length() ? a.rep.length() : b.rep.length(); r.SetLength(n);
  for (long i = 0; i < n; i++) add(r[i], coeff(a, i), coeff(b, i));
  x.rep = r; x.normalize();
}
void sub(ZZ_pX &x, const ZZ_pX &a, const ZZ_pX &b) {
  vec_ZZ_p r; long n = a.rep.length() > b.rep.length() ? a.rep.length() : b.rep.length(); r.SetLength(n);
  for (long i = 0; i < n; i++) sub(r[i], coeff(a, i), coeff(b, i));
  x.rep = r; x.normalize();
}
void add(ZZ_pX &x, const ZZ_pX &a, const ZZ_p &b) { ZZ_pX t; t.rep.SetLength(1); t.rep[0] = b; t.normalize(); add(x, a, t); }
void add(ZZ_pX &x, const ZZ_pX &a, long b) { ZZ_p t; conv(t, b); add(x, a, t); }
void sub(ZZ_pX &x, const ZZ_pX &a, const ZZ_p &b) { ZZ_pX t; t.rep.SetLength(1); t.rep[0] = b; t.normalize(); sub(x, a, t); }
void sub(ZZ_pX &x, const ZZ_pX &a, long b) { ZZ_p t; conv(t, b); sub(x, a, t); }
void sub(ZZ_pX &x, const ZZ_p &a, const ZZ_pX &b) { ZZ_pX t; t.rep.SetLength(1); t.rep[0] = a; t.normalize(); sub(x, t, b); }
void sub(ZZ_pX &x, long a, const ZZ_pX &b) { ZZ_p t; conv(t, a); sub(x, t, b); }
void negate(ZZ_pX &x, const ZZ_pX &a) { x.rep = a.rep; for (long i = 0; i < x.rep.length(); i++) negate(x.rep[i], x.rep[i]); }
void mul(ZZ_pX &x, const ZZ_pX &a, const ZZ_pX &b) {
  vec_ZZ_p r; long n = a.rep.length() && b.rep.length() ? a.rep.length() + b.rep.length() - 1 : 0; r.SetLength(n);
  ZZ_p t;
  for (long i = 0; i < a.rep.length(); i++) for (long j = 0; j < b.rep.length(); j++) { mul(t, a.rep[i], b.rep[j]); add(r[i + j], r[i + j], t); }
  x.rep = r; x.normalize();
}
void mul(ZZ_pX &x, const ZZ_pX &a, const ZZ_p &b) { vec_ZZ_p r = a.rep; for (long i = 0; i < r.length(); i++) mul(r[i], r[i], b); x.rep = r; x.normalize(); }
void mul(ZZ_pX &x, const ZZ_pX &a, long b) { ZZ_p t; conv(t, b); mul(x, a, t); }
void sqr(ZZ_pX &x, const ZZ_pX &a) { mul(x, a, a); }
void power(ZZ_pX &x, const ZZ_pX &a, long e) { ZZ_pX r, b = a; conv(r, 1L); for (; e > 0; e--) mul(r, r, b); x = r; }
void div(ZZ_pX &x, const ZZ_pX &a, const ZZ_p &b) { ZZ_p t; inv(t, b); mul(x, a, t); }
void div(ZZ_pX &x, const ZZ_pX &a, long b) { ZZ_p t; conv(t, b); div(x, a, t); }
void DivRem(ZZ_pX &q, ZZ_pX &r, const ZZ_pX &a, const ZZ_pX &b) {
  vec_ZZ_p u = a.rep, v; long db = deg(b), n = a.rep.length() - db; if (db < 0) LogicError("DivRem: division by zero");
  ZZ_p li, c, t; inv(li, LeadCoeff(b)); v.SetLength(n > 0 ? n : 0);
  for (long i = n - 1; i >= 0; i--) { mul(c, u[i + db], li); v[i] = c; for (long k = 0; k <= db; k++) { mul(t, c, b.rep[k]); sub(u[i + k], u[i + k], t); } }
  if (u.length() > db) u.SetLength(db);
  q.rep = v; q.normalize(); r.rep = u; r.normalize();
}
void div(ZZ_pX &q, const ZZ_pX &a, const ZZ_pX &b) { ZZ_pX r; DivRem(q, r, a, b); }
void rem(ZZ_pX &r, const ZZ_pX &a, const ZZ_pX &b) { ZZ_pX q; DivRem(q, r, a, b); }
ZZ_pX &ZZ_pX::operator=(const ZZ_p &a) { conv(*this, a); return *this; }
ZZ_pX &ZZ_pX::operator=(long a) { conv(*this, a); return *this; }
long divide(ZZ_pX &q, const ZZ_pX &a, const ZZ_pX &b) { if (IsZero(b)) { if (!IsZero(a)) return 0; clear(q); return 1; } ZZ_pX t, r; DivRem(t, r, a, b); if (!IsZero(r)) return 0; q = t; return 1; }
long divide(const ZZ_pX &a, const ZZ_pX &b) { ZZ_pX q; return divide(q, a, b); }
void reverse(ZZ_pX &x, const ZZ_pX &a, long hi) { vec_ZZ_p r; if (hi >= 0) { r.SetLength(hi + 1); for (long i = 0; i <= hi; i++) r[hi - i] = coeff(a, i); } x.rep = r; x.normalize(); }
void GCD(ZZ_pX &x, const ZZ_pX &a, const ZZ_pX &b) { ZZ_pX u = a, v = b, r; while (!IsZero(v)) { rem(r, u, v); u = v; v = r; } MakeMonic(u); x = u; }
void random(ZZ_pX &x, long n) { random(x.rep, n); x.normalize(); }
std::ostream &operator<<(std::ostream &os, const ZZ_pX &a) { return os << a.rep; }
void diff(ZZ_pX &x, const ZZ_pX &a) { vec_ZZ_p r; long n = deg(a); r.SetLength(n > 0 ? n : 0); for (long i = 1; i <= n; i++) mul(r[i - 1], a.rep[i], i); x.rep = r; x.normalize(); }
void MakeMonic(ZZ_pX &x) { if (IsZero(x)) return; ZZ_p t; inv(t, LeadCoeff(x)); for (long i = 0; i < x.rep.length(); i++) mul(x.rep[i], x.rep[i], t); }
void BuildFromRoots(ZZ_pX &x, const vec_ZZ_p &a) {
  vec_ZZ_p r; r.SetLength(1); conv(r[0], 1); ZZ_p t;
  for (long k = 0; k < a.length(); k++) {
    vec_ZZ_p s; s.SetLength(r.length() + 1);
    for (long i = 0; i < r.length(); i++) { add(s[i + 1], s[i + 1], r[i]); mul(t, r[i], a[k]); sub(s[i], s[i], t); }
    r = s;
  }
  x.rep = r; // monic: no normalisation needed
}
void eval(ZZ_p &b, const ZZ_pX &f, const ZZ_p &a) { ZZ_p r; clear(r); for (long i = deg(f); i >= 0; i--) { mul(r, r, a); add(r, r, f.rep[i]); } b = r; }
void eval(vec_ZZ_p &b, const ZZ_pX &f, const vec_ZZ_p &a) { vec_ZZ_p r; r.SetLength(a.length()); for (long i = 0; i < a.length(); i++) eval(r[i], f, a[i]); b = r; }
void interpolate(ZZ_pX &f, const vec_ZZ_p &a, const vec_ZZ_p &b) {
  long m = a.length();
  if (b.length() != m) LogicError("interpolate: vector length mismatch");
  vec_ZZ_p r; r.SetLength(m); ZZ_p d, t;
  for (long i = 0; i < m; i++) { // Lagrange basis polynomial of a[i]
    vec_ZZ_p l; l.SetLength(1); conv(l[0], 1); conv(d, 1);
    for (long j = 0; j < m; j++) if (j != i) {
      vec_ZZ_p s; s.SetLength(l.length() + 1);
      for (long k = 0; k < l.length(); k++) { add(s[k + 1], s[k + 1], l[k]); mul(t, l[k], a[j]); sub(s[k], s[k], t); }
      l = s; sub(t, a[i], a[j]); mul(d, d, t);
    }
    inv(d, d); mul(d, d, b[i]);
    for (long k = 0; k < m; k++) { mul(t, l[k], d); add(r[k], r[k], t); }
  }
  f.rep = r; f.normalize();
}
extern "C" { const ZZ_p *vp_hint_roots = nullptr; long vp_hint_count = 0; int vp_hint_rest = 0; } // vp_hint_rest: what is left over has no roots
// Factorisation by its specification. The linear factors are exactly x - v for the roots v of f, each with its
// multiplicity; what is left over, of degree two or more, is one factor of multiplicity 1. Factors come in the order
// of NTL's algorithms: by multiplicity, those of one multiplicity by degree. Over a large field the caller names the
// roots (vp_hint_roots); at most one further root is found by itself and what is left over has to have none.
static void append(vec_pair_ZZ_pX_long &fs, const ZZ_p &v, unsigned long m) {
  pair_ZZ_pX_long pr; pr.a.rep.SetLength(2); negate(pr.a.rep[0], v); conv(pr.a.rep[1], 1); pr.b = (long)m; append(fs, pr);
}
static bool isRoot(const vec_ZZ_p &q, const ZZ_p &v, vec_ZZ_p &quot, bool hint) { // q = quot * (x - v) + rest
  long n = q.length(); ZZ_p c, t; clear(c); quot.SetLength(n - 1);
  for (long i = n - 1; i >= 1; i--) { mul(t, c, v); add(c, t, q[i]); quot[i - 1] = c; }
  mul(t, c, v); add(c, t, q[0]);
  u512 r = mag(c._ZZ_p__rep.rep.rep);
  return (!hint || vp_is_concrete(&r, WY)) && r == 0; // a named root is one by the form of the polynomial, or left to another name
}
static void factorSpec(vec_pair_ZZ_pX_long &fs, const ZZ_pX &f) {
  if (!IsOne(LeadCoeff(f))) LogicError("factorisation: bad args");
  ZZ P = ZZ_p::modulus(); long n = deg(f); fs.SetLength(0);
  if (vp_hint_count || NumBits(P) <= 7) { // one path per set of roots and multiplicities
    bool hints = vp_hint_count != 0; long p = hints ? vp_hint_count : (long)vp_concretize((unsigned long)to_long(P));
    vec_ZZ_p q = f.rep, quot, found; unsigned long mult[512]; long left = n;
    for (long v = 0; v < p && left > 0; v++) {
      ZZ_p a; if (hints) a = vp_hint_roots[v]; else conv(a, v);
      unsigned long m = 0;
      while (left > 0 && vp_concretize(isRoot(q, a, quot, hints))) { q = quot; left--; m++; }
      if (m && hints) for (long k = 0; k < found.length() && m; k++) if (vp_concretize(found[k] == a)) { mult[k] += m; m = 0; }
      if (m) { mult[found.length()] = m; append(found, a); }
    }
    if (hints && left == 1) { // the last root
      ZZ_p a; negate(a, q[0]); bool old = false;
      for (long k = 0; k < found.length(); k++) if (vp_concretize(found[k] == a)) { mult[k]++; old = true; }
      if (!old) { mult[found.length()] = 1; append(found, a); }
      left = 0;
    }
    if (hints && left > 0 && !vp_hint_rest) vp_bound("a polynomial with unnamed roots");
    for (unsigned long m = 1; m <= (unsigned long)n; m++) {
      for (long k = 0; k < found.length(); k++) if (mult[k] == m) append(fs, found[k], m);
      if (m == 1 && left > 0) { pair_ZZ_pX_long pr; pr.a.rep = q; pr.b = 1; append(fs, pr); }
    }
    return;
  }
  if (NumBits(P) > 9) vp_bound("factorisation over a field of more than 9 bits");
  long p = (long)vp_concretize((unsigned long)to_long(P));
  static bool root[512];
  unsigned long count = 0;
  for (long v = 0; v < p; v++) { ZZ_p a, r; conv(a, v); eval(r, f, a); root[v] = mag(r._ZZ_p__rep.rep.rep) == 0; count += root[v]; }
  vp_assume(count <= (unsigned long)n);
  count = vp_concretize(count);
  for (unsigned long k = 0; k < count; k++) { // the k-th root (multiplicities are left aside)
    unsigned long seen = 0, val = 0;
    for (long v = 0; v < p; v++) { bool hit = vp_and(root[v], seen == k); val = vp_ite(hit, (unsigned long)v, val); seen += root[v]; }
    ZZ z; z = (long)val; ZZ_p zp; conv(zp, z); append(fs, zp, 1);
  }
  if (n - (long)count >= 2) { pair_ZZ_pX_long pr; pr.a.rep.SetLength(3); conv(pr.a.rep[0], 1); conv(pr.a.rep[1], 1); conv(pr.a.rep[2], 1); pr.b = 1; append(fs, pr); }
}
void CanZass(vec_pair_ZZ_pX_long &fs, const ZZ_pX &f, long) { factorSpec(fs, f); }
void berlekamp(vec_pair_ZZ_pX_long &fs, const ZZ_pX &f, long) { factorSpec(fs, f); }
}

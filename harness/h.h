// Helpers shared by the harnesses: symbolic values of library types, built through public functions only.
#pragma once
#include <vp.h>
#include <NTL/ZZ.h>
#include <NTL/ZZ_p.h>
#include <NTL/ZZ_pX.h>
#include <NTL/vec_ZZ_p.h>
#include <string>
#include <vector>
#ifndef WIDTH
#define WIDTH 8
#endif
// roots of the polynomials that are factorised, for fields too large to try every element
extern "C" { extern const NTL::ZZ_p *vp_hint_roots; extern long vp_hint_count; extern int vp_hint_rest; }
// a natural number of at most n bytes
static inline NTL::ZZ symZZ(const char *name, size_t n) { unsigned char b[512]; vp_make(b, n, name); NTL::ZZ z; NTL::ZZFromBytes(z, b, n); return z; }
// a natural number of at most k bits (k <= 62)
static inline NTL::ZZ symBits(const char *name, int k) { NTL::ZZ z; z = (long)vp_u(name, k); return z; }
// plain numbers that hold the elements of the field
#ifdef WIDEFIELD
typedef __int128 Num;
static inline NTL::ZZ zz(Num v) { NTL::ZZ z; bool neg = v < 0; if (neg) v = -v; NTL::ZZFromBytes(z, (const unsigned char *)&v, 16); if (neg) NTL::negate(z, z); return z; }
static inline Num num(const NTL::ZZ &z) { Num v = 0; NTL::BytesFromZZ((unsigned char *)&v, z, 16); return z < 0 ? -v : v; }
static inline Num numOf(const char *name, int bits) { Num v = 0; vp_make(&v, (size_t)(bits + 7) / 8, name); return bits % 8 ? v & (((Num)1 << bits) - 1) : v; }
#else
typedef long Num;
static inline NTL::ZZ zz(Num v) { NTL::ZZ z; z = v; return z; }
static inline Num num(const NTL::ZZ &z) { return NTL::to_long(z); }
static inline Num numOf(const char *name, int bits) { return (Num)vp_u(name, bits); }
#endif
static inline Num num(const NTL::ZZ_p &x) { return num(NTL::rep(x)); }
static inline void field(Num p) { NTL::ZZ_p::init(zz(p)); }
static inline NTL::ZZ_p elem(Num v) { NTL::ZZ_p x; NTL::conv(x, zz(v)); return x; }
// a value below bound
static inline Num below(const char *name, Num bound) { int k = 1; while (((Num)1 << k) < bound) k++; Num v = numOf(name, k); if (((Num)1 << k) != bound) vp_assume(v < bound); return v; }
static inline NTL::ZZ_p symElem(const char *name, Num p) { return elem(below(name, p)); }
static inline Num timesMod(Num a, Num b, Num p) { // concrete
#ifdef WIDEFIELD
  Num r = 0; a %= p; b %= p; for (int i = 126; i >= 0; i--) { r = (r + r) % p; if (b >> i & 1) r = (r + a) % p; } return r;
#else
  return (Num)((__int128)a * b % p);
#endif
}
static inline NTL::ZZ pow2(long n) { NTL::ZZ r; r = 1; NTL::LeftShift(r, r, n); return r; }

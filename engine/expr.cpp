#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <unordered_set>

uint64_t gNumExprs = 0;
E eTrue, eFalse;

bool MonoLess::operator()(const Mono &a, const Mono &b) const {
  if (a.size() != b.size()) return a.size() > b.size();
  for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return a[i]->id < b[i]->id;
  return false;
}

static inline size_t hc(size_t h, size_t v) { return (h ^ v) * 0x9E3779B97F4A7C15ULL + (h >> 29); }

static size_t hashOf(const Expr &e) {
  size_t h = e.k * 1315423911u + e.w;
  h = hc(h, e.sub); h = hc(h, e.lo);
  for (unsigned i = 0; i < e.n; i++) h = hc(h, e.a[i]->id);
  if (e.k == K_CONST) { for (unsigned i = 0; i < e.c.getNumWords(); i++) h = hc(h, e.c.getRawData()[i]); }
  if (e.name) h = hc(h, std::hash<std::string>()(*e.name));
  if (e.agg) for (E x : *e.agg) h = hc(h, x ? x->id + 1 : 0);
  if (e.poly) { h = hc(h, (uint64_t)e.p); for (auto &t : *e.poly) { for (E x : t.first) h = hc(h, x->id); h = hc(h, (uint64_t)t.second); } }
  return h;
}
static bool same(const Expr &x, const Expr &y) {
  if (x.k != y.k || x.w != y.w || x.sub != y.sub || x.lo != y.lo || x.n != y.n) return false;
  for (unsigned i = 0; i < x.n; i++) if (x.a[i] != y.a[i]) return false;
  if (x.k == K_CONST) return x.c == y.c;
  if (x.name) return *x.name == *y.name;
  if (x.agg) return *x.agg == *y.agg;
  if (x.poly) return x.p == y.p && *x.poly == *y.poly;
  return true;
}
struct PH { size_t operator()(const Expr *e) const { return e->h; } };
struct PE { bool operator()(const Expr *a, const Expr *b) const { return same(*a, *b); } };
static std::unordered_set<Expr *, PH, PE> &table() { static auto *t = new std::unordered_set<Expr *, PH, PE>(1 << 16); return *t; }

static unsigned primBits(U p) { return bitsU(p); }

static E intern(Expr &t) {
  t.h = hashOf(t);
  auto &tb = table();
  auto it = tb.find(&t);
  if (it != tb.end()) return *it;
  Expr *e = new Expr(t);
  if (t.name) e->name = new std::string(*t.name);
  if (t.agg) e->agg = new std::vector<E>(*t.agg);
  if (t.poly) e->poly = new Poly(*t.poly);
  e->id = ++gNumExprs;
  // bounds
  unsigned w = e->w, ab = w, tz = 0;
  switch (e->k) {
  case K_CONST: ab = e->c.getActiveBits(); tz = e->c.countr_zero(); break;
  case K_ADD: ab = std::min(w, std::max(e->a[0]->ab, e->a[1]->ab) + 1); tz = std::min(e->a[0]->tz, e->a[1]->tz); break;
  case K_SUB: tz = std::min(e->a[0]->tz, e->a[1]->tz); break;
  case K_MUL: ab = std::min(w, e->a[0]->ab + e->a[1]->ab); tz = std::min(w, e->a[0]->tz + e->a[1]->tz); break;
  case K_UDIV: ab = e->a[0]->ab; break;
  case K_UREM: ab = std::min(e->a[0]->ab, e->a[1]->ab); break;
  case K_AND: ab = std::min(e->a[0]->ab, e->a[1]->ab); tz = std::max(e->a[0]->tz, e->a[1]->tz); break;
  case K_OR: case K_XOR: ab = std::max(e->a[0]->ab, e->a[1]->ab); tz = std::min(e->a[0]->tz, e->a[1]->tz); break;
  case K_LSHR: ab = e->a[0]->ab; break;
  case K_SHL: tz = e->a[0]->tz; break;
  case K_CONCAT: ab = e->a[0]->ab ? e->a[0]->ab + e->a[1]->w : e->a[1]->ab;
    tz = e->a[1]->tz >= e->a[1]->w ? e->a[1]->w + e->a[0]->tz : e->a[1]->tz; break;
  case K_EXTRACT: ab = e->a[0]->ab > e->lo ? std::min(w, e->a[0]->ab - e->lo) : 0; break;
  case K_ZEXT: ab = e->a[0]->ab; tz = e->a[0]->tz >= e->a[0]->w ? w : e->a[0]->tz; break;
  case K_SEXT: tz = e->a[0]->tz; break;
  case K_ITE: ab = std::max(e->a[1]->ab, e->a[2]->ab); tz = std::min(e->a[1]->tz, e->a[2]->tz); break;
  case K_MODP: ab = primBits(e->p - 1 ? e->p - 1 : 1); break;
  default: break;
  }
  e->ab = ab; e->tz = tz > w ? w : tz;
  tb.insert(e);
  return e;
}

static Expr tmpl(Kind k, unsigned w) {
  Expr t; t.k = k; t.sub = 0; t.w = w; t.id = 0; t.lo = 0; t.n = 0; t.agg = nullptr; t.name = nullptr; t.poly = nullptr; t.p = 0; t.z3 = nullptr; t.evEpoch = 0;
  return t;
}
static E node(Kind k, unsigned w, E a, E b = nullptr, E c = nullptr, unsigned lo = 0, uint8_t sub = 0) {
  Expr t = tmpl(k, w);
  t.a[t.n++] = a; if (b) t.a[t.n++] = b; if (c) t.a[t.n++] = c;
  t.lo = lo; t.sub = sub;
  return intern(t);
}

static E smallc[65][1025];
E mkConstU(U v, unsigned w) { return mkConst(fromU(v, w)); }
E mkConst(uint64_t v, unsigned w) {
  if (w < 64) v &= (1ULL << w) - 1;
  if (v <= 1024 && w <= 64) {
    E &e = smallc[w][v];
    if (e) return e;
    Expr t = tmpl(K_CONST, w); t.c = APInt(w, v); return e = intern(t);
  }
  Expr t = tmpl(K_CONST, w); t.c = APInt(w, v); return intern(t);
}
E mkConst(const APInt &v) {
  if (v.getBitWidth() <= 64) return mkConst(v.getZExtValue(), v.getBitWidth());
  Expr t = tmpl(K_CONST, v.getBitWidth()); t.c = v; return intern(t);
}
E mkVar(const std::string &name, unsigned w) {
  Expr t = tmpl(K_VAR, w); std::string s = name; t.name = &s; return intern(t);
}
void initExprs() { eTrue = mkConst(1, 1); eFalse = mkConst(0, 1); }

static bool cc(E a, E b) { return a->isConst() && b->isConst(); }
static void order(E &a, E &b) { // constants right, then by id
  if (a->isConst() || (!b->isConst() && a->id > b->id)) { if (!(b->isConst() && a->isConst())) std::swap(a, b); }
}
static bool isZero(E a) { return a->isConst() && a->c.isZero(); }
static bool isOnes(E a) { return a->isConst() && a->c.isAllOnes(); }
static E strip(E a) { while (a->k == K_ZEXT) a = a->a[0]; return a; }

static E disjoint(E a, E b) { // a has low part, b has trailing zeros >= a.ab : concat
  if (a->w != b->w) return nullptr;
  if (isZero(a) || isZero(b)) return nullptr;
  for (int i = 0; i < 2; i++, std::swap(a, b)) {
    if (b->tz >= a->ab && a->ab > 0 && b->tz < b->w && b->tz > 0) {
      unsigned s = b->tz;
      return mkConcat(mkExtract(b, s, b->w - s), mkExtract(a, 0, s));
    }
  }
  return nullptr;
}

E mkAdd(E a, E b) {
  assert(a->w == b->w);
  if (cc(a, b)) return mkConst(a->c + b->c);
  order(a, b);
  if (isZero(b)) return a;
  unsigned w = a->w;
  if (b->isConst() && a->k == K_ADD && a->a[1]->isConst()) return mkAdd(a->a[0], mkConst(a->a[1]->c + b->c));
  if (E d = disjoint(a, b)) return d;
  if (w > 64) { unsigned m = std::max(a->ab, b->ab) + 1; if (m < w) return mkZExt(mkAdd(mkExtract(a, 0, m), mkExtract(b, 0, m)), w); }
  if (a->k == K_SUB && a->a[1] == b) return a->a[0];
  if (b->k == K_SUB && b->a[1] == a) return b->a[0];
  if (a->k == K_ADD && a->a[1]->isConst()) return mkAdd(mkAdd(a->a[0], b), a->a[1]);
  if (b->k == K_ADD && b->a[1]->isConst()) return mkAdd(mkAdd(a, b->a[0]), b->a[1]);
  if (b->isConst() && a->k == K_ITE && a->a[1]->isConst() && a->a[2]->isConst())
    return mkIte(a->a[0], mkConst(a->a[1]->c + b->c), mkConst(a->a[2]->c + b->c));
  return node(K_ADD, w, a, b);
}
static void addends(E a, std::vector<E> &v) { if (a->k == K_ADD && v.size() < 64) { addends(a->a[0], v); addends(a->a[1], v); } else v.push_back(a); }
E mkSub(E a, E b) {
  assert(a->w == b->w);
  if (a->k == K_ADD && b->k == K_ADD) { // cancel common addends
    std::vector<E> x, y, r; addends(a, x); addends(b, y);
    for (E e : y) { auto it = std::find(x.begin(), x.end(), e); if (it != x.end()) x.erase(it); else r.push_back(e); }
    if (r.size() < y.size()) {
      E p = mkConst(APInt(a->w, 0)), q = p;
      for (E e : x) p = mkAdd(p, e);
      for (E e : r) q = mkAdd(q, e);
      return mkSub(p, q);
    }
  }
  if (cc(a, b)) return mkConst(a->c - b->c);
  if (a == b) return mkConst(APInt(a->w, 0));
  if (b->isConst()) return mkAdd(a, mkConst(-b->c));
  if (a->k == K_ADD) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
  if (a->k == K_ADD && a->a[1]->isConst()) return mkAdd(mkSub(a->a[0], b), a->a[1]);
  if (b->k == K_ADD && b->a[1]->isConst()) return mkAdd(mkSub(a, b->a[0]), mkConst(-b->a[1]->c));
  return node(K_SUB, a->w, a, b);
}
E mkMul(E a, E b) {
  assert(a->w == b->w);
  if (cc(a, b)) return mkConst(a->c * b->c);
  order(a, b);
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->c.isZero()) return b;
    if (b->c.isOne()) return a;
    if (b->c.isPowerOf2()) return mkShl(a, mkConst(APInt(w, b->c.logBase2())));
    if (a->k == K_MUL && a->a[1]->isConst()) return mkMul(a->a[0], mkConst(a->a[1]->c * b->c));
    if (a->k == K_ITE && a->a[1]->isConst() && a->a[2]->isConst())
      return mkIte(a->a[0], mkConst(a->a[1]->c * b->c), mkConst(a->a[2]->c * b->c));
  }
  unsigned m = a->ab + b->ab;
  if (m < w) return mkZExt(mkMul(mkExtract(a, 0, m), mkExtract(b, 0, m)), w);
  if (a->k == K_MUL && a->a[1]->isConst()) return mkMul(mkMul(a->a[0], b), a->a[1]);
  if (b->k == K_MUL && b->a[1]->isConst()) return mkMul(mkMul(a, b->a[0]), b->a[1]);
  return node(K_MUL, w, a, b);
}
// a / c for sums of multiples of c that do not wrap around
static E exactDiv(E a, const APInt &c) {
  unsigned w = a->w;
  if (a->isConst()) return a->c.urem(c).isZero() ? mkConst(a->c.udiv(c)) : nullptr;
  if (a->k == K_ZEXT && a->a[0]->w >= c.getActiveBits()) { E q = exactDiv(a->a[0], c.zextOrTrunc(a->a[0]->w)); return q ? mkZExt(q, w) : nullptr; }
  if (a->k == K_MUL && a->a[1]->isConst() && a->a[0]->ab + a->a[1]->ab <= w && a->a[1]->c.urem(c).isZero()) return mkMul(a->a[0], mkConst(a->a[1]->c.udiv(c)));
  if (a->k == K_ADD && std::max(a->a[0]->ab, a->a[1]->ab) < w) {
    E x = exactDiv(a->a[0], c); if (!x) return nullptr;
    E y = exactDiv(a->a[1], c); return y ? mkAdd(x, y) : nullptr;
  }
  return nullptr;
}
E mkUDiv(E a, E b) {
  if (cc(a, b) && !b->c.isZero()) return mkConst(a->c.udiv(b->c));
  unsigned w = a->w;
  if (b->isConst() && !b->c.isZero()) {
    if (b->c.isOne()) return a;
    if (b->c.isPowerOf2()) return mkLShr(a, mkConst(APInt(w, b->c.logBase2())));
    if (a->ab < b->ab) return mkConst(APInt(w, 0));
    if (E q = exactDiv(a, b->c)) return q;
  }
  unsigned m = std::max(a->ab, b->ab);
  if (m < w && m > 0 && b->isConst()) return mkZExt(mkUDiv(mkExtract(a, 0, m), mkExtract(b, 0, m)), w);
  return node(K_UDIV, w, a, b);
}
E mkURem(E a, E b) {
  if (cc(a, b) && !b->c.isZero()) return mkConst(a->c.urem(b->c));
  unsigned w = a->w;
  if (b->isConst() && !b->c.isZero()) {
    if (b->c.isPowerOf2()) { unsigned s = b->c.logBase2(); if (s == 0) return mkConst(APInt(w, 0)); return mkZExt(mkExtract(a, 0, s), w); }
    if (a->ab < b->ab) return a;
  }
  unsigned m = std::max(a->ab, b->ab);
  if (m < w && m > 0 && b->isConst()) return mkZExt(mkURem(mkExtract(a, 0, m), mkExtract(b, 0, m)), w);
  return node(K_UREM, w, a, b);
}
E mkSDiv(E a, E b) {
  if (cc(a, b) && !b->c.isZero()) return mkConst(a->c.sdiv(b->c));
  if (a->ab < a->w && b->ab < b->w) return mkUDiv(a, b);
  return node(K_SDIV, a->w, a, b);
}
E mkSRem(E a, E b) {
  if (cc(a, b) && !b->c.isZero()) return mkConst(a->c.srem(b->c));
  if (a->ab < a->w && b->ab < b->w) return mkURem(a, b);
  return node(K_SREM, a->w, a, b);
}
E mkNot(E a) { return mkXor(a, mkConst(APInt::getAllOnes(a->w))); }
static bool isNotOf(E a, E b) { return a->k == K_XOR && isOnes(a->a[1]) && a->a[0] == b; }
E mkAnd(E a, E b) {
  assert(a->w == b->w);
  if (cc(a, b)) return mkConst(a->c & b->c);
  if (a == b) return a;
  order(a, b);
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->c.isZero()) return b;
    if (b->c.isAllOnes()) return a;
    if (a->k == K_AND && a->a[1]->isConst()) return mkAnd(a->a[0], mkConst(a->a[1]->c & b->c));
    unsigned lo, len;
    if (b->c.isShiftedMask(lo, len)) {
      E x = mkExtract(a, lo, len);
      if (lo) x = mkConcat(x, mkConst(APInt(lo, 0)));
      return mkZExt(x, w);
    }
    if (a->k == K_ITE && a->a[1]->isConst() && a->a[2]->isConst())
      return mkIte(a->a[0], mkConst(a->a[1]->c & b->c), mkConst(a->a[2]->c & b->c));
  }
  if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(APInt(w, 0));
  if (a->ab <= b->tz || b->ab <= a->tz) return mkConst(APInt(w, 0));
  if (w == 1) {
    if (a->k == K_AND && (a->a[0] == b || a->a[1] == b)) return a;
    if (b->k == K_AND && (b->a[0] == a || b->a[1] == a)) return b;
  } else {
    unsigned m = std::min(a->ab, b->ab);
    if (m < w) return m == 0 ? mkConst(APInt(w, 0)) : mkZExt(mkAnd(mkExtract(a, 0, m), mkExtract(b, 0, m)), w);
  }
  return node(K_AND, w, a, b);
}
E mkOr(E a, E b) {
  assert(a->w == b->w);
  if (cc(a, b)) return mkConst(a->c | b->c);
  if (a == b) return a;
  order(a, b);
  if (b->isConst()) { if (b->c.isZero()) return a; if (b->c.isAllOnes()) return b; }
  if (isNotOf(a, b) || isNotOf(b, a)) return mkConst(APInt::getAllOnes(a->w));
  if (E d = disjoint(a, b)) return d;
  if (a->w > 8) { unsigned m = std::max(a->ab, b->ab); if (m < a->w) return mkZExt(mkOr(mkExtract(a, 0, m), mkExtract(b, 0, m)), a->w); }
  if (a->k == K_OR && (a->a[0] == b || a->a[1] == b)) return a;
  if (b->k == K_OR && (b->a[0] == a || b->a[1] == a)) return b;
  return node(K_OR, a->w, a, b);
}
E mkXor(E a, E b) {
  assert(a->w == b->w);
  if (cc(a, b)) return mkConst(a->c ^ b->c);
  if (a == b) return mkConst(APInt(a->w, 0));
  order(a, b);
  if (b->isConst()) {
    if (b->c.isZero()) return a;
    if (a->k == K_XOR && a->a[1]->isConst()) return mkXor(a->a[0], mkConst(a->a[1]->c ^ b->c));
    if (a->w == 1) { // not
      if (a->k == K_ULT) return mkUle(a->a[1], a->a[0]);
      if (a->k == K_ULE) return mkUlt(a->a[1], a->a[0]);
      if (a->k == K_SLT) return mkSle(a->a[1], a->a[0]);
      if (a->k == K_SLE) return mkSlt(a->a[1], a->a[0]);
      if (a->k == K_ITE && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkNot(a->a[1]), mkNot(a->a[2]));
    }
  }
  if (E d = disjoint(a, b)) return d;
  if (!b->isConst() && a->w > 8) { unsigned m = std::max(a->ab, b->ab); if (m < a->w && m > 0) return mkZExt(mkXor(mkExtract(a, 0, m), mkExtract(b, 0, m)), a->w); }
  if (a->k == K_XOR) { if (a->a[0] == b) return a->a[1]; if (a->a[1] == b) return a->a[0]; }
  if (b->k == K_XOR) { if (b->a[0] == a) return b->a[1]; if (b->a[1] == a) return b->a[0]; }
  return node(K_XOR, a->w, a, b);
}
E mkShl(E a, E b) {
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->c.uge(w)) return mkConst(APInt(w, 0));
    unsigned s = b->c.getZExtValue();
    if (s == 0) return a;
    return mkConcat(mkExtract(a, 0, w - s), mkConst(APInt(s, 0)));
  }
  if (isZero(a)) return a;
  if (b->k == K_ITE && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkShl(a, b->a[1]), mkShl(a, b->a[2]));
  return node(K_SHL, w, a, b);
}
E mkLShr(E a, E b) {
  unsigned w = a->w;
  if (b->isConst()) {
    if (b->c.uge(w)) return mkConst(APInt(w, 0));
    unsigned s = b->c.getZExtValue();
    if (s == 0) return a;
    return mkZExt(mkExtract(a, s, w - s), w);
  }
  if (isZero(a)) return a;
  if (b->k == K_ITE && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkLShr(a, b->a[1]), mkLShr(a, b->a[2]));
  return node(K_LSHR, w, a, b);
}
E mkAShr(E a, E b) {
  unsigned w = a->w;
  if (a->ab < w) return mkLShr(a, b);
  if (b->isConst()) {
    unsigned s = b->c.uge(w) ? w - 1 : b->c.getZExtValue();
    if (s == 0) return a;
    return mkSExt(mkExtract(a, s, w - s), w);
  }
  return node(K_ASHR, w, a, b);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (cc(hi, lo)) { APInt r = hi->c.zext(w).shl(lo->w) | lo->c.zext(w); return mkConst(r); }
  if (isZero(hi)) return mkZExt(lo, w);
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a[0], lo), w);
  if (hi->k == K_CONCAT) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && lo->lo + lo->w == hi->lo)
    return mkExtract(hi->a[0], lo->lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a[0]->k == K_EXTRACT && lo->a[0]->a[0] == hi->a[0] && lo->a[0]->lo + lo->a[0]->w == hi->lo)
    return mkConcat(mkExtract(hi->a[0], lo->a[0]->lo, hi->w + lo->a[0]->w), lo->a[1]);
  if (hi->isConst() && lo->k == K_CONCAT && lo->a[0]->isConst()) return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]);
  // extract(x, k, n) with x = whole and lo == x (extract lo=0 full) handled through mkExtract identity
  if (hi->k == K_EXTRACT && hi->a[0]->w > 0 && lo == hi->a[0]) { /* nothing */ }
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a[0] == lo->a[0] && hi->a[1]->isConst() && hi->a[2]->isConst() && lo->a[1]->isConst() && lo->a[2]->isConst())
    return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
  if (lo->isConst() && hi->k == K_ITE && hi->a[1]->isConst() && hi->a[2]->isConst())
    return mkIte(hi->a[0], mkConcat(hi->a[1], lo), mkConcat(hi->a[2], lo));
  return node(K_CONCAT, w, hi, lo);
}
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w && w > 0);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.extractBits(w, lo));
  if (lo >= a->ab) return mkConst(APInt(w, 0));
  if (lo == 0 && a->tz >= w) return mkConst(APInt(w, 0));
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a[0], a->lo + lo, w);
  case K_CONCAT: {
    unsigned lw = a->a[1]->w;
    if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
    return mkConcat(mkExtract(a->a[0], 0, lo + w - lw), mkExtract(a->a[1], lo, lw - lo));
  }
  case K_ZEXT: {
    E x = a->a[0];
    if (lo + w <= x->w) return mkExtract(x, lo, w);
    return mkZExt(mkExtract(x, lo, x->w - lo), w);
  }
  case K_SEXT: {
    E x = a->a[0];
    if (lo + w <= x->w) return mkExtract(x, lo, w);
    if (lo < x->w) return mkSExt(mkExtract(x, lo, x->w - lo), w);
    return mkSExt(mkExtract(x, x->w - 1, 1), w);
  }
  case K_AND: return mkAnd(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_OR: return mkOr(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_XOR: return mkXor(mkExtract(a->a[0], lo, w), mkExtract(a->a[1], lo, w));
  case K_ITE: return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
  case K_ADD: if (lo == 0) return mkAdd(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  case K_SUB: if (lo == 0) return mkSub(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  case K_MUL: if (lo == 0) return mkMul(mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w)); break;
  default: break;
  }
  if (lo + w > a->ab) { // zero upper part
    unsigned m = a->ab - lo;
    return mkZExt(node(K_EXTRACT, m, a, nullptr, nullptr, lo), w);
  }
  return node(K_EXTRACT, w, a, nullptr, nullptr, lo);
}
E mkZExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.zext(w));
  if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
  if (a->k == K_ITE && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkConst(a->a[1]->c.zext(w)), mkConst(a->a[2]->c.zext(w)));
  return node(K_ZEXT, w, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->isConst()) return mkConst(a->c.sext(w));
  if (a->ab < a->w) return mkZExt(a, w);
  if (a->k == K_SEXT) return mkSExt(a->a[0], w);
  if (a->k == K_ITE && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkConst(a->a[1]->c.sext(w)), mkConst(a->a[2]->c.sext(w)));
  return node(K_SEXT, w, a);
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }
E mkZExtOrTrunc(E a, unsigned w) { return w >= a->w ? mkZExt(a, w) : mkExtract(a, 0, w); }
E mkIte(E c, E a, E b) {
  assert(a->w == b->w && c->w == 1);
  if (c->isConst()) return c->c.isZero() ? b : a;
  if (a == b) return a;
  if (c->k == K_XOR && isOnes(c->a[1])) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (a->isConst() && b->isConst()) return a->c.isOne() ? c : mkNot(c);
    if (a->isConst()) return a->c.isOne() ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c.isOne() ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->k == K_ITE && a->a[0] == c) return mkIte(c, a->a[1], b);
  if (b->k == K_ITE && b->a[0] == c) return mkIte(c, a, b->a[2]);
  // ite(x==k, k, x) -> x
  if (c->k == K_EQ) {
    if ((c->a[0] == a && c->a[1] == b) || (c->a[0] == b && c->a[1] == a)) return b;
  }
  // narrow common zero upper part
  unsigned m = std::max(a->ab, b->ab);
  if (m < a->w && !(a->isConst() && b->isConst())) {
    if (m == 0) return mkConst(APInt(a->w, 0));
    return mkZExt(mkIte(c, mkExtract(a, 0, m), mkExtract(b, 0, m)), a->w);
  }
  return node(K_ITE, a->w, c, a, b);
}

// ---- modular polynomials ---------------------------------------------------
U mulm(U a, U b, U p) {
  if (!(p >> 64)) return a * b % p;
  U r = 0; a %= p;
  for (int i = (int)bitsU(b); i-- > 0;) { r = r + r; if (r >= p) r -= p; if (b >> i & 1) { r += a; if (r >= p) r -= p; } } // p < 2^127
  return r;
}
static U addm(U a, U b, U p) { return a + b >= p ? a + b - p : a + b; }
U powm(U a, U e, U p) { U r = 1 % p; a %= p; while (e) { if (e & 1) r = mulm(r, a, p); a = mulm(a, a, p); e >>= 1; } return r; }
static bool isPrime(U big) {
  for (int m : {89, 107}) if (big == ((U)1 << m) - 1) return true;
  if (big >> 64) return false; // unknown
  uint64_t n = (uint64_t)big;
  static std::unordered_map<uint64_t, bool> memo;
  auto it = memo.find(n); if (it != memo.end()) return it->second;
  bool r = n >= 2;
  for (uint64_t q : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { if (n == q) return memo[n] = true; if (r && n % q == 0) r = false; }
  if (r) { uint64_t d = n - 1; int s = 0; while (!(d & 1)) d >>= 1, s++;
    for (uint64_t b : {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37}) { uint64_t x = powm(b, d, n); if (x == 1 || x == n - 1) continue; bool ok = false;
      for (int i = 1; i < s; i++) { x = mulm(x, x, n); if (x == n - 1) { ok = true; break; } } if (!ok) { r = false; break; } } }
  return memo[n] = r;
}
static Poly toPoly(E a, U p) {
  Poly r;
  a = strip(a);
  if (a->isConst()) { U v = remU(a->c, p); if (v) r[Mono()] = v; return r; }
  if (a->k == K_MODP && a->p == p) return *a->poly;
  r[Mono{a}] = 1 % p;
  return r;
}
static bool constLeaves(E x, int &budget) {
  if (x->isConst()) return --budget >= 0;
  if (x->k == K_ZEXT) return constLeaves(x->a[0], budget);
  return x->k == K_ITE && constLeaves(x->a[1], budget) && constLeaves(x->a[2], budget);
}
static E mapLeaves(E x, U c1, U c0, U p, unsigned w) {
  if (x->isConst()) return mkConstU(addm(mulm(remU(x->c, p), c1, p), c0, p), w);
  if (x->k == K_ZEXT) return mapLeaves(x->a[0], c1, c0, p, w);
  return mkIte(x->a[0], mapLeaves(x->a[1], c1, c0, p, w), mapLeaves(x->a[2], c1, c0, p, w));
}
static E fromPoly(Poly &q, U p) {
  unsigned w = primBits(p);
  for (auto it = q.begin(); it != q.end();) if (it->second == 0) it = q.erase(it); else ++it;
  if (q.empty()) return mkConst(0, w);
  if (q.size() == 1 && q.begin()->first.empty()) return mkConstU(q.begin()->second, w);
  if (q.size() == 1 && q.begin()->second == 1 && q.begin()->first.size() == 1) {
    E x = q.begin()->first[0];
    if (x->ab < primBits(p)) return mkZExtOrTrunc(x, w);
  }
  if (q.size() <= 2) { // c1*x + c0 over a tree of constants: computed in the leaves
    E x = nullptr; U c1 = 0, c0 = 0; bool ok = true;
    for (auto &t : q) { if (t.first.empty()) c0 = t.second; else if (t.first.size() == 1 && !x) { x = t.first[0]; c1 = t.second; } else ok = false; }
    if (ok && x && x->k == K_ITE) { int budget = 64; if (constLeaves(x, budget)) return mapLeaves(x, c1, c0, p, w); }
  }
  Expr t = tmpl(K_MODP, w); t.p = p; t.poly = &q;
  return intern(t);
}
E mkMod(E a, U p) { Poly q = toPoly(a, p); return fromPoly(q, p); }
E mkModOp(int op, E a, E b, U p) {
  Poly x = toPoly(a, p), y = toPoly(b, p), r;
  if (op == 0 || op == 1) {
    r = x;
    for (auto &t : y) { U &c = r[t.first]; c = addm(c, op == 0 ? t.second : (p - t.second) % p, p); }
  } else {
    for (auto &s : x) for (auto &t : y) {
      Mono m; m.reserve(s.first.size() + t.first.size());
      std::merge(s.first.begin(), s.first.end(), t.first.begin(), t.first.end(), std::back_inserter(m), [](E u, E v) { return u->id < v->id; });
      U &c = r[m]; c = addm(c, mulm(s.second, t.second, p), p);
    }
  }
  return fromPoly(r, p);
}

static bool isUnit(E x) { return x->k == K_VAR && x->name->compare(0, 4, "inv#") == 0; } // inverses (models/ntl.cpp)
static E eqModZero(E d) { // d MODP ; d == 0
  U p = d->p;
  if (isPrime(p)) {
    if (d->poly->size() == 1) { // product of atoms
      E r = eFalse;
      E last = nullptr;
      for (E x : d->poly->begin()->first) { if (x == last || isUnit(x)) { last = x; continue; } last = x;
        Poly q; q[Mono{x}] = 1; E m = fromPoly(q, p);
        if (m->k == K_MODP) { r = mkOr(r, node(K_EQ, 1, m, mkConst(0, m->w))); }
        else r = mkOr(r, mkEq(m, mkConst(0, m->w))); }
      if (d->poly->begin()->first.size() > 1 || r == eFalse) return r;
    }
    U lc = d->poly->begin()->second;
    if (lc != 1) { U inv = powm(lc, p - 2, p); Poly q; for (auto &t : *d->poly) q[t.first] = mulm(t.second, inv, p); d = fromPoly(q, p); }
    if (d->k != K_MODP) return d->isConst() ? (d->c.isZero() ? eTrue : eFalse) : mkEq(d, mkConst(0, d->w));
    // common factor
    Mono common = d->poly->begin()->first;
    for (auto &t : *d->poly) { Mono r; std::set_intersection(common.begin(), common.end(), t.first.begin(), t.first.end(), std::back_inserter(r), [](E u, E v) { return u->id < v->id; }); common = r; if (common.empty()) break; }
    if (!common.empty() && d->k == K_MODP && d->poly->size() > 1) {
      Poly q; for (auto &t : *d->poly) { Mono r; std::set_difference(t.first.begin(), t.first.end(), common.begin(), common.end(), std::back_inserter(r), [](E u, E v) { return u->id < v->id; }); q[r] = t.second; }
      Poly f; f[common] = 1;
      E fe = fromPoly(f, p), qe = fromPoly(q, p);
      return mkOr(mkEq(fe, mkConst(0, fe->w)), mkEq(qe, mkConst(0, qe->w)));
    }
  }
  if (d->isConst()) return d->c.isZero() ? eTrue : eFalse;
  if (d->k != K_MODP) return mkEq(d, mkConst(0, d->w));
  // x - c == 0 with a plain atom known below p
  return node(K_EQ, 1, d, mkConst(0, d->w));
}

E mkEq(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return eTrue;
  if (cc(a, b)) return a->c == b->c ? eTrue : eFalse;
  order(a, b);
  unsigned w = a->w;
  if (w == 1 && b->isConst()) return b->c.isOne() ? a : mkNot(a);
  if (isZero(b) && isUnit(a)) return eFalse;
  // modular values
  {
    E x = strip(a), y = strip(b);
    U p = x->k == K_MODP ? x->p : y->k == K_MODP ? y->p : 0;
    if (p && !(x->k == K_MODP && y->k == K_MODP && y->p != p)) {
      bool ok = true;
      for (E z : {x, y}) {
        if (z->k == K_MODP) continue;
        if (z->isConst()) { if (z->c.getActiveBits() > 128 || toU(z->c) >= p) return eFalse; }
        else if (z->ab >= primBits(p)) ok = false; // value may exceed p: not the canonical representative
      }
      if (ok) {
        if (x->k == K_MODP && isZero(y)) return eqModZero(x);
        E d = mkModOp(1, x, y, p);
        if (d->isConst()) return d->c.isZero() ? eTrue : eFalse;
        if (d->k == K_MODP) return eqModZero(d);
      }
    }
  }
  if (b->isConst()) {
    if (b->c.getActiveBits() > a->ab) return eFalse;
    if (!b->c.isZero() && b->c.countr_zero() < a->tz) return eFalse;
    if (a->k == K_ZEXT) return mkEq(a->a[0], mkConst(b->c.trunc(a->a[0]->w)));
    if (a->k == K_SEXT) { APInt t = b->c.trunc(a->a[0]->w); if (t.sext(w) != b->c) return eFalse; return mkEq(a->a[0], mkConst(t)); }
    if (a->k == K_ITE) {
      E t = a->a[1], f = a->a[2];
      if (t->isConst() && f->isConst()) {
        bool bt = t->c == b->c, bf = f->c == b->c;
        return bt ? (bf ? eTrue : a->a[0]) : (bf ? mkNot(a->a[0]) : eFalse);
      }
      if (t->isConst()) return t->c == b->c ? mkOr(a->a[0], mkEq(f, b)) : mkAnd(mkNot(a->a[0]), mkEq(f, b));
      if (f->isConst()) return f->c == b->c ? mkOr(mkNot(a->a[0]), mkEq(t, b)) : mkAnd(a->a[0], mkEq(t, b));
      return mkIte(a->a[0], mkEq(t, b), mkEq(f, b));
    }
    if (a->k == K_ADD && a->a[1]->isConst()) return mkEq(a->a[0], mkConst(b->c - a->a[1]->c));
    if (a->k == K_XOR && a->a[1]->isConst()) return mkEq(a->a[0], mkConst(b->c ^ a->a[1]->c));
    if (a->k == K_CONCAT) {
      unsigned lw = a->a[1]->w;
      return mkAnd(mkEq(a->a[0], mkConst(b->c.extractBits(w - lw, lw))), mkEq(a->a[1], mkConst(b->c.extractBits(lw, 0))));
    }
    if (b->c.isZero() && a->k == K_OR) return mkAnd(mkEq(a->a[0], b), mkEq(a->a[1], b));
    if (b->c.isZero() && a->k == K_SUB) return mkEq(a->a[0], a->a[1]);
  } else {
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
      unsigned m = std::max(a->a[0]->w, b->a[0]->w);
      return mkEq(mkZExt(a->a[0], m), mkZExt(b->a[0], m));
    }
    if (a->k == K_CONCAT && b->k == K_CONCAT && a->a[1]->w == b->a[1]->w)
      return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
    if (a->k == K_ADD && b->k == K_ADD && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
    if (a->k == K_ADD && (a->a[0] == b || a->a[1] == b)) { E o = a->a[0] == b ? a->a[1] : a->a[0]; return mkEq(o, mkConst(APInt(w, 0))); }
    if (b->k == K_ADD && (b->a[0] == a || b->a[1] == a)) { E o = b->a[0] == a ? b->a[1] : b->a[0]; return mkEq(o, mkConst(APInt(w, 0))); }
    unsigned m = std::max(a->ab, b->ab);
    if (m < w) return mkEq(mkExtract(a, 0, m), mkExtract(b, 0, m));
  }
  return node(K_EQ, 1, a, b);
}
E mkUlt(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return eFalse;
  if (cc(a, b)) return a->c.ult(b->c) ? eTrue : eFalse;
  unsigned w = a->w;
  if (isZero(b)) return eFalse;
  if (isZero(a)) return mkNot(mkEq(b, a));
  if (b->isConst() && b->c.isOne()) return mkEq(a, mkConst(APInt(w, 0)));
  if (b->isConst() && a->ab < b->ab) return eTrue;
  if (a->isConst() && b->ab < a->ab) return eFalse;
  if (a->k == K_ITE && b->isConst() && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkUlt(a->a[1], b), mkUlt(a->a[2], b));
  if (b->k == K_ITE && a->isConst() && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkUlt(a, b->a[1]), mkUlt(a, b->a[2]));
  if (b->isConst()) { E x = strip(a); if (x->k == K_MODP && (b->c.getActiveBits() > 128 || toU(b->c) >= x->p)) return eTrue; }
  unsigned m = std::max(a->ab, b->ab);
  if (m < w && m > 0) return mkUlt(mkExtract(a, 0, m), mkExtract(b, 0, m));
  if (isOnes(a)) return eFalse;
  return node(K_ULT, 1, a, b);
}
E mkUle(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return eTrue;
  if (cc(a, b)) return a->c.ule(b->c) ? eTrue : eFalse;
  if (b->isConst() && !b->c.isAllOnes()) return mkUlt(a, mkConst(b->c + 1));
  if (isOnes(b)) return eTrue;
  if (a->isConst() && !a->c.isZero()) return mkUlt(mkConst(a->c - 1), b);
  if (isZero(a)) return eTrue;
  unsigned m = std::max(a->ab, b->ab);
  if (m < a->w && m > 0) return mkUle(mkExtract(a, 0, m), mkExtract(b, 0, m));
  return node(K_ULE, 1, a, b);
}
E mkSlt(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return eFalse;
  if (cc(a, b)) return a->c.slt(b->c) ? eTrue : eFalse;
  unsigned w = a->w;
  if (a->ab < w && b->ab < w) return mkUlt(a, b);
  if (a->k == K_ITE && b->isConst() && a->a[1]->isConst() && a->a[2]->isConst()) return mkIte(a->a[0], mkSlt(a->a[1], b), mkSlt(a->a[2], b));
  if (b->k == K_ITE && a->isConst() && b->a[1]->isConst() && b->a[2]->isConst()) return mkIte(b->a[0], mkSlt(a, b->a[1]), mkSlt(a, b->a[2]));
  if (b->isConst() && b->c.isNegative() && a->ab < w) return eFalse;
  if (a->isConst() && a->c.isNegative() && b->ab < w) return eTrue;
  if (isZero(b)) return mkExtract(a, w - 1, 1);
  return node(K_SLT, 1, a, b);
}
E mkSle(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return eTrue;
  if (cc(a, b)) return a->c.sle(b->c) ? eTrue : eFalse;
  if (a->ab < a->w && b->ab < b->w) return mkUle(a, b);
  if (b->isConst() && !b->c.isMaxSignedValue()) return mkSlt(a, mkConst(b->c + 1));
  if (a->isConst() && !a->c.isMinSignedValue()) return mkSlt(mkConst(a->c - 1), b);
  return node(K_SLE, 1, a, b);
}
E mkBin(Kind k, E a, E b) {
  switch (k) {
  case K_ADD: return mkAdd(a, b); case K_SUB: return mkSub(a, b); case K_MUL: return mkMul(a, b);
  case K_UDIV: return mkUDiv(a, b); case K_UREM: return mkURem(a, b); case K_SDIV: return mkSDiv(a, b); case K_SREM: return mkSRem(a, b);
  case K_AND: return mkAnd(a, b); case K_OR: return mkOr(a, b); case K_XOR: return mkXor(a, b);
  case K_SHL: return mkShl(a, b); case K_LSHR: return mkLShr(a, b); case K_ASHR: return mkAShr(a, b);
  default: abort();
  }
}
E mkAgg(const std::vector<E> &v) { Expr t = tmpl(K_AGG, 0); std::vector<E> c = v; t.agg = &c; return intern(t); }

static double asD(const APInt &c) { if (c.getBitWidth() == 32) { uint32_t u = c.getZExtValue(); float f; memcpy(&f, &u, 4); return f; } uint64_t u = c.getZExtValue(); double d; memcpy(&d, &u, 8); return d; }
static APInt fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return APInt(32, u); } uint64_t u; memcpy(&u, &d, 8); return APInt(64, u); }
static APInt fpEval(FpOp op, unsigned w, const APInt &a, const APInt *b) {
  double x, y = 0;
  switch (op) {
  case F_SI2FP: return fromD(w == 32 ? (double)(float)a.getSExtValue() : (double)a.getSExtValue(), w);
  case F_UI2FP: return fromD(w == 32 ? (double)(float)a.getZExtValue() : (double)a.getZExtValue(), w);
  default: break;
  }
  x = asD(a); if (b) y = asD(*b);
  unsigned sw = a.getBitWidth();
  auto rnd = [&](double d) { return sw == 32 ? (double)(float)d : d; };
  switch (op) {
  case F_ADD: return fromD(rnd(x + y), w); case F_SUB: return fromD(rnd(x - y), w);
  case F_MUL: return fromD(rnd(x * y), w); case F_DIV: return fromD(rnd(x / y), w);
  case F_REM: return fromD(fmod(x, y), w);
  case F_EQ: return APInt(1, x == y); case F_LT: return APInt(1, x < y); case F_LE: return APInt(1, x <= y);
  case F_UNO: return APInt(1, std::isnan(x) || std::isnan(y));
  case F_FP2SI: { int64_t v = (std::isnan(x) || x >= 9.3e18 || x <= -9.3e18) ? INT64_MIN : (int64_t)x; return APInt(64, (uint64_t)v).trunc(w); }
  case F_FP2UI: { uint64_t v = (std::isnan(x) || x < 0 || x >= 1.85e19) ? 0 : (uint64_t)x; return APInt(64, v).trunc(w); }
  case F_SQRT: return fromD(sqrt(x), w); case F_EXT: case F_TRUNC: return fromD(x, w);
  case F_FLOOR: return fromD(floor(x), w); case F_CEIL: return fromD(ceil(x), w);
  default: abort();
  }
}
E mkFp(FpOp op, unsigned w, E a, E b) {
  if (a->isConst() && (!b || b->isConst())) return mkConst(fpEval(op, w, a->c, b ? &b->c : nullptr));
  if ((op == F_ADD || op == F_MUL || op == F_EQ || op == F_UNO) && b && a->id > b->id) std::swap(a, b);
  return node(K_FP, w, a, b, nullptr, 0, op);
}

E mkCtlz(E a) { // number of leading zeros, width = a.w
  unsigned w = a->w;
  if (a->isConst()) return mkConst(APInt(w, a->c.countl_zero()));
  E r = mkConst(APInt(w, w));
  for (unsigned i = 0; i < a->ab; i++) r = mkIte(mkExtract(a, i, 1), mkConst(APInt(w, w - 1 - i)), r);
  return r;
}
E mkCttz(E a) {
  unsigned w = a->w;
  if (a->isConst()) return mkConst(APInt(w, a->c.countr_zero()));
  E r = mkConst(APInt(w, w));
  for (int i = (int)a->ab - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(APInt(w, i)), r);
  return r;
}
E mkCtpop(E a) {
  E r = mkConst(APInt(a->w, 0));
  for (unsigned i = 0; i < a->ab; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), a->w));
  return r;
}

const std::vector<E> &freeVars(E e) {
  if (e->vars) return *e->vars;
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->vars) { st.pop_back(); continue; }
    bool ready = true;
    auto kid = [&](E y) { if (!y->vars) { st.push_back(y); ready = false; } };
    for (unsigned i = 0; i < x->n; i++) kid(x->a[i]);
    if (x->poly) for (auto &t : *x->poly) for (E y : t.first) kid(y);
    if (x->agg) for (E y : *x->agg) if (y) kid(y);
    if (!ready) continue;
    st.pop_back();
    if (x->k == K_VAR) { x->vars = std::make_shared<std::vector<E>>(1, x); continue; }
    std::vector<std::shared_ptr<std::vector<E>>> ks;
    for (unsigned i = 0; i < x->n; i++) if (!x->a[i]->vars->empty()) ks.push_back(x->a[i]->vars);
    if (x->poly) for (auto &t : *x->poly) for (E y : t.first) if (!y->vars->empty()) ks.push_back(y->vars);
    if (ks.empty()) { static auto empty = std::make_shared<std::vector<E>>(); x->vars = empty; continue; }
    if (ks.size() == 1) { x->vars = ks[0]; continue; }
    std::vector<E> r;
    for (auto &k : ks) r.insert(r.end(), k->begin(), k->end());
    std::sort(r.begin(), r.end(), [](E u, E v) { return u->id < v->id; });
    r.erase(std::unique(r.begin(), r.end()), r.end());
    for (auto &k : ks) if (*k == r) { x->vars = k; break; }
    if (!x->vars) x->vars = std::make_shared<std::vector<E>>(r);
  }
  return *e->vars;
}

static uint64_t epochCounter = 0;
uint64_t newEpoch() { return ++epochCounter; }
APInt evalExpr(E root, const Model &m, uint64_t ep) {
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (e->evEpoch == ep) { st.pop_back(); continue; }
    if (e->k == K_CONST) { e->ev = e->c; e->evEpoch = ep; st.pop_back(); continue; }
    if (e->k == K_VAR) { auto it = m.find(e); e->ev = it == m.end() ? APInt(e->w, 0) : it->second; e->evEpoch = ep; st.pop_back(); continue; }
    bool ready = true;
    for (unsigned i = 0; i < e->n; i++) if (e->a[i]->evEpoch != ep) { st.push_back(e->a[i]); ready = false; }
    if (e->poly) for (auto &t : *e->poly) for (E y : t.first) if (y->evEpoch != ep) { st.push_back(y); ready = false; }
    if (!ready) continue;
    st.pop_back();
    const APInt *x = e->n > 0 ? &e->a[0]->ev : nullptr, *y = e->n > 1 ? &e->a[1]->ev : nullptr;
    APInt r;
    auto sh = [&](const APInt &s) -> unsigned { return s.uge(e->w) ? e->w : (unsigned)s.getZExtValue(); };
    switch (e->k) {
    case K_ADD: r = *x + *y; break; case K_SUB: r = *x - *y; break; case K_MUL: r = *x * *y; break;
    case K_UDIV: r = y->isZero() ? APInt::getAllOnes(e->w) : x->udiv(*y); break;
    case K_UREM: r = y->isZero() ? *x : x->urem(*y); break;
    case K_SDIV: r = y->isZero() ? (x->isNegative() ? APInt(e->w, 1) : APInt::getAllOnes(e->w)) : x->sdiv(*y); break;
    case K_SREM: r = y->isZero() ? *x : x->srem(*y); break;
    case K_AND: r = *x & *y; break; case K_OR: r = *x | *y; break; case K_XOR: r = *x ^ *y; break;
    case K_SHL: r = sh(*y) >= e->w ? APInt(e->w, 0) : x->shl(sh(*y)); break;
    case K_LSHR: r = sh(*y) >= e->w ? APInt(e->w, 0) : x->lshr(sh(*y)); break;
    case K_ASHR: r = x->ashr(std::min(sh(*y), e->w - 1)); break;
    case K_CONCAT: r = x->zext(e->w).shl(e->a[1]->w) | y->zext(e->w); break;
    case K_EXTRACT: r = x->extractBits(e->w, e->lo); break;
    case K_ZEXT: r = x->zext(e->w); break; case K_SEXT: r = x->sext(e->w); break;
    case K_ITE: r = x->isZero() ? e->a[2]->ev : *y; break;
    case K_EQ: r = APInt(1, *x == *y); break; case K_ULT: r = APInt(1, x->ult(*y)); break;
    case K_ULE: r = APInt(1, x->ule(*y)); break; case K_SLT: r = APInt(1, x->slt(*y)); break;
    case K_SLE: r = APInt(1, x->sle(*y)); break;
    case K_MODP: { U s = 0; for (auto &t : *e->poly) { U v = t.second; for (E a : t.first) v = mulm(v, remU(a->ev, e->p), e->p); s = addm(s, v, e->p); } r = fromU(s, e->w); break; }
    case K_FP: r = fpEval((FpOp)e->sub, e->w, *x, y); break;
    default: abort();
    }
    e->ev = r; e->evEpoch = ep;
  }
  return root->ev;
}

std::string toStr(E e, int d) {
  static const char *nm[] = {"const", "var", "add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "cat", "ext", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "modp", "agg", "fp"};
  if (e->k == K_CONST) { llvm::SmallString<64> s; e->c.toString(s, 16, false); return std::string("0x") + s.c_str() + ":" + std::to_string(e->w); }
  if (e->k == K_VAR) return *e->name;
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[e->k] + ":" + std::to_string(e->w);
  if (e->k == K_EXTRACT) s += "@" + std::to_string(e->lo);
  for (unsigned i = 0; i < e->n; i++) s += " " + toStr(e->a[i], d - 1);
  if (e->poly) for (auto &t : *e->poly) { s += " +" + llvm::toString(fromU(t.second, 128), 10, false); for (E a : t.first) s += "*" + toStr(a, d - 1); }
  return s + ")";
}

#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <random>
#include <unordered_set>
#include <llvm/ADT/SmallString.h>

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg); // keeps every AST alive
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
}
static Z3_sort bvs(Z3_context c, unsigned w) { return Z3_mk_bv_sort(c, w); }
// Arithmetic modulo a small prime by tables and conditional subtractions.
static const uint64_t SMALLP = 64;
static E table(E x, unsigned bit, uint64_t base, uint64_t c, uint64_t p, unsigned pb) {
  if (bit == 0) return mkConst(base % p * c % p, pb);
  return mkIte(mkExtract(x, bit - 1, 1), table(x, bit - 1, base + (1ull << (bit - 1)), c, p, pb), table(x, bit - 1, base, c, p, pb));
}
static E timesC(E x, uint64_t c, uint64_t p, unsigned pb) { return table(x, x->w, 0, c, p, pb); }
static E plus(E a, E b, uint64_t p, unsigned pb) {
  E s = mkAdd(mkZExt(a, pb + 1), mkZExt(b, pb + 1)), P = mkConst(p, pb + 1);
  return mkExtract(mkIte(mkUlt(s, P), s, mkSub(s, P)), 0, pb);
}
static E smallMod(E e) {
  uint64_t p = (uint64_t)e->p; unsigned pb = 64 - __builtin_clzll(p);
  E sum = mkConst(0, pb);
  for (auto &t : *e->poly) {
    E acc = nullptr;
    for (E x : t.first) {
      E v = x->ab > pb ? mkExtract(mkURem(mkZExt(x, x->w), mkConst(APInt(x->w, p))), 0, pb) : mkZExtOrTrunc(x, pb);
      if (!acc) { acc = v; continue; }
      acc = timesC(acc, 1, p, pb); // canonical
      E m = mkConst(0, pb);
      for (unsigned i = 0; i < pb; i++) m = plus(m, mkIte(mkExtract(v, i, 1), timesC(acc, (1ull << i) % p, p, pb), mkConst(0, pb)), p, pb);
      acc = m;
    }
    sum = plus(sum, acc ? timesC(acc, (uint64_t)t.second, p, pb) : mkConst((uint64_t)t.second % p, pb), p, pb);
  }
  return sum;
}
static const unsigned FPBITS = 13;
static E fpTable(E e, const std::vector<E> &fv, unsigned bits) {
  std::vector<E> level;
  for (uint64_t x = 0; x < (1ull << bits); x++) {
    Model m; unsigned at = 0;
    for (E v : fv) { m[v] = APInt(v->w, (x >> at) & ((1ull << v->w) - 1)); at += v->w; }
    level.push_back(mkConst(evalExpr(e, m, newEpoch())));
  }
  for (E v : fv) for (unsigned b = 0; b < v->w; b++) { // the lowest bit first
    std::vector<E> up; E bit = mkExtract(v, b, 1);
    for (size_t i = 0; i < level.size(); i += 2) up.push_back(mkIte(bit, level[i + 1], level[i]));
    level.swap(up);
  }
  return level[0];
}
Z3_ast Solver::tr(E root) {
  std::vector<E> stk{root};
  auto done = [&](E e, Z3_ast a) { Z3_inc_ref(ctx, a); e->z3 = a; };
  auto b2v = [&](Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bvs(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, bvs(ctx, 1))); };
  (void)b2v;
  // width-1 expressions are translated to Z3 Bool; others to bit-vectors
  auto Z = [&](E e) { return (Z3_ast)e->z3; };
  auto asBv = [&](E e) -> Z3_ast { return e->w == 1 ? b2v(Z(e)) : Z(e); };
  auto fromBv1 = [&](Z3_ast a) { return Z3_mk_eq(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bvs(ctx, 1))); };
  while (!stk.empty()) {
    E e = stk.back();
    if (e->z3) { stk.pop_back(); continue; }
    if (e->k == K_CONST) {
      Z3_ast a;
      if (e->w == 1) a = e->c.isOne() ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      else { llvm::SmallString<128> s; e->c.toString(s, 10, false); a = Z3_mk_numeral(ctx, s.c_str(), bvs(ctx, e->w)); }
      done(e, a); stk.pop_back(); continue;
    }
    if (e->k == K_VAR) {
      Z3_symbol s = Z3_mk_string_symbol(ctx, (*e->name + "!" + std::to_string(e->w)).c_str());
      done(e, Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : bvs(ctx, e->w))); stk.pop_back(); continue;
    }
    if (e->k == K_MODP) { // lower to plain arithmetic
      U p = e->p; unsigned pb = bitsU(p);
      unsigned n = 1; while ((1u << n) < e->poly->size() + 1) n++;
      unsigned W = 2 * pb + n;
      if (p <= SMALLP) { E r = mkZExtOrTrunc(smallMod(e), e->w); if (!r->z3) { stk.push_back(r); continue; } done(e, Z(r)); stk.pop_back(); continue; }
      E sum = mkConst(APInt(W, 0));
      E P = mkConstU(p, W);
      for (auto &t : *e->poly) {
        E acc = nullptr;
        for (E x : t.first) {
          E v = x->ab > pb ? mkURem(mkZExtOrTrunc(x, std::max(x->w, W)), mkZExt(P, std::max(x->w, W))) : x;
          v = mkZExtOrTrunc(v, W);
          acc = acc ? mkURem(mkMul(acc, v), P) : v;
        }
        E term = acc ? (t.second == 1 ? acc : mkMul(acc, mkConstU(t.second, W))) : mkConstU(t.second, W);
        sum = mkAdd(sum, term);
      }
      E r = mkZExtOrTrunc(mkURem(sum, P), e->w);
      if (!r->z3) { stk.push_back(r); continue; }
      done(e, Z(r)); stk.pop_back(); continue;
    }
    if (e->k == K_FP) { // floating point over few input bits: by its table
      auto &fv = freeVars(e); unsigned bits = 0; for (E v : fv) bits += v->w;
      if (bits <= FPBITS) { E t = fpTable(e, fv, bits); if (!t->z3) { stk.push_back(t); continue; } done(e, Z(t)); stk.pop_back(); continue; }
    }
    bool ready = true;
    for (unsigned i = 0; i < e->n; i++) if (!e->a[i]->z3) { stk.push_back(e->a[i]); ready = false; }
    if (!ready) continue;
    stk.pop_back();
    Z3_ast r = nullptr;
    E A = e->n > 0 ? e->a[0] : nullptr, B = e->n > 1 ? e->a[1] : nullptr;
    bool w1 = e->w == 1;
    switch (e->k) {
    case K_AND: { Z3_ast v[2] = {Z(A), Z(B)}; r = w1 ? Z3_mk_and(ctx, 2, v) : Z3_mk_bvand(ctx, v[0], v[1]); break; }
    case K_OR: { Z3_ast v[2] = {Z(A), Z(B)}; r = w1 ? Z3_mk_or(ctx, 2, v) : Z3_mk_bvor(ctx, v[0], v[1]); break; }
    case K_XOR: if (w1) r = B->isConst() && B->c.isOne() ? Z3_mk_not(ctx, Z(A)) : Z3_mk_xor(ctx, Z(A), Z(B)); else if (B->isConst() && B->c.isAllOnes()) r = Z3_mk_bvnot(ctx, Z(A)); else r = Z3_mk_bvxor(ctx, Z(A), Z(B)); break;
    case K_EQ: r = w1 && A->w == 1 ? Z3_mk_iff(ctx, Z(A), Z(B)) : Z3_mk_eq(ctx, Z(A), Z(B)); break;
    case K_ULT: r = Z3_mk_bvult(ctx, asBv(A), asBv(B)); break;
    case K_ULE: r = Z3_mk_bvule(ctx, asBv(A), asBv(B)); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, asBv(A), asBv(B)); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, asBv(A), asBv(B)); break;
    case K_ITE: r = Z3_mk_ite(ctx, Z(A), Z(B), Z(e->a[2])); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, asBv(A), asBv(B)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, asBv(A)); if (w1) r = fromBv1(r); break;
    case K_ZEXT: if (A->w == 1) r = Z3_mk_ite(ctx, Z(A), Z3_mk_unsigned_int64(ctx, 1, bvs(ctx, e->w)), Z3_mk_unsigned_int64(ctx, 0, bvs(ctx, e->w))); else r = Z3_mk_zero_ext(ctx, e->w - A->w, Z(A)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - A->w, asBv(A)); break;
    case K_FP: {
      auto fs = [&](unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); };
      auto tofp = [&](E x) { return Z3_mk_fpa_to_fp_bv(ctx, Z(x), fs(x->w)); };
      Z3_ast rne = Z3_mk_fpa_rne(ctx), rtz = Z3_mk_fpa_rtz(ctx);
      switch ((FpOp)e->sub) {
      case F_ADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, tofp(A), tofp(B))); break;
      case F_SUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, tofp(A), tofp(B))); break;
      case F_MUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, tofp(A), tofp(B))); break;
      case F_DIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, tofp(A), tofp(B))); break;
      case F_REM: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, tofp(A), tofp(B))); break;
      case F_EQ: r = Z3_mk_fpa_eq(ctx, tofp(A), tofp(B)); break;
      case F_LT: r = Z3_mk_fpa_lt(ctx, tofp(A), tofp(B)); break;
      case F_LE: r = Z3_mk_fpa_leq(ctx, tofp(A), tofp(B)); break;
      case F_UNO: { Z3_ast v[2] = {Z3_mk_fpa_is_nan(ctx, tofp(A)), Z3_mk_fpa_is_nan(ctx, tofp(B))}; r = Z3_mk_or(ctx, 2, v); break; }
      case F_SI2FP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, asBv(A), fs(e->w))); break;
      case F_UI2FP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, asBv(A), fs(e->w))); break;
      case F_FP2SI: r = Z3_mk_fpa_to_sbv(ctx, rtz, tofp(A), e->w); break;
      case F_FP2UI: r = Z3_mk_fpa_to_ubv(ctx, rtz, tofp(A), e->w); break;
      case F_SQRT: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sqrt(ctx, rne, tofp(A))); break;
      case F_EXT: case F_TRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, tofp(A), fs(e->w))); break;
      case F_FLOOR: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), tofp(A))); break;
      case F_CEIL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), tofp(A))); break;
      }
      break;
    }
    default: {
      Z3_ast x = asBv(A), y = asBv(B);
      switch (e->k) {
      case K_ADD: r = Z3_mk_bvadd(ctx, x, y); break; case K_SUB: r = Z3_mk_bvsub(ctx, x, y); break;
      case K_MUL: r = Z3_mk_bvmul(ctx, x, y); break; case K_UDIV: r = Z3_mk_bvudiv(ctx, x, y); break;
      case K_UREM: r = Z3_mk_bvurem(ctx, x, y); break; case K_SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break;
      case K_SREM: r = Z3_mk_bvsrem(ctx, x, y); break; case K_SHL: r = Z3_mk_bvshl(ctx, x, y); break;
      case K_LSHR: r = Z3_mk_bvlshr(ctx, x, y); break; case K_ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
      default: abort();
      }
      if (w1) r = fromBv1(r);
    }
    }
    done(e, r);
  }
  return Z(root);
}

static bool usesFp(const std::vector<E> &cons) {
  std::vector<E> st(cons); std::unordered_set<E> seen;
  while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->k == K_FP) { unsigned bits = 0; for (E v : freeVars(e)) bits += v->w; if (bits > FPBITS) return true; continue; } for (unsigned i = 0; i < e->n; i++) st.push_back(e->a[i]); }
  return false;
}

Res Solver::check(const std::vector<E> &consIn, Model *out) {
  std::vector<E> cons;
  for (E c : consIn) { if (c == eFalse) return R_UNSAT; if (c == eTrue) continue; cons.push_back(c); }
  if (cons.empty()) return R_SAT;
  std::sort(cons.begin(), cons.end(), [](E a, E b) { return a->id < b->id; });
  cons.erase(std::unique(cons.begin(), cons.end()), cons.end());
  std::string key((size_t)cons.size() * sizeof(unsigned), 0);
  for (size_t i = 0; i < cons.size(); i++) memcpy(&key[i * sizeof(unsigned)], &cons[i]->id, sizeof(unsigned));
  auto it = cache.find(key);
  if (it != cache.end()) {
    st.cacheHits++;
    if (it->second.first == R_SAT && out) for (auto &kv : *it->second.second) (*out)[kv.first] = kv.second;
    return it->second.first;
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = usesFp(cons) ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
  Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  Z3_solver_set_params(ctx, s, ps); Z3_params_dec_ref(ctx, ps);
  for (E c : cons) Z3_solver_assert(ctx, s, tr(c));
  if (getenv("VP_DUMPQ")) { static int n = 0; char f[64]; snprintf(f, 64, "/tmp/dumpq/%d.smt2", n++); if (FILE *o = fopen(f, "w")) { fputs(Z3_solver_to_string(ctx, s), o); fputs("(check-sat)\n", o); fclose(o); } }
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  std::shared_ptr<Model> mm;
  if (res == R_SAT) {
    mm = std::make_shared<Model>();
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    std::vector<E> vars;
    for (E c : cons) { auto &v = freeVars(c); vars.insert(vars.end(), v.begin(), v.end()); }
    std::sort(vars.begin(), vars.end(), [](E a, E b) { return a->id < b->id; });
    vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (E v : vars) {
      Z3_ast a;
      if (!Z3_model_eval(ctx, m, tr(v), true, &a)) { (*mm)[v] = APInt(v->w, 0); continue; }
      Z3_inc_ref(ctx, a);
      if (v->w == 1) (*mm)[v] = APInt(1, Z3_get_bool_value(ctx, a) == Z3_L_TRUE);
      else { std::string num = Z3_get_numeral_string(ctx, a); (*mm)[v] = APInt(std::max<unsigned>(v->w, num.size() * 4 + 8), num, 10).trunc(v->w); }
      Z3_dec_ref(ctx, a);
    }
    Z3_model_dec_ref(ctx, m);
    if (out) for (auto &kv : *mm) (*out)[kv.first] = kv.second;
  }
  Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.queries++; st.seconds += dt; if (dt > st.maxq) st.maxq = dt;
  if (res == R_SAT) st.sat++; else if (res == R_UNSAT) st.unsat++; else st.unknown++;
  if (getenv("VP_SLOWQ") && dt > atof(getenv("VP_SLOWQ"))) {
    fprintf(stderr, "slow query %.2fs res=%d ncons=%zu\n", dt, res, cons.size());
    for (size_t i = 0; i < cons.size() && i < 12; i++) fprintf(stderr, "   %s\n", toStr(cons[i], 5).substr(0, 600).c_str());
  }
  if (res != R_UNKNOWN) cache[key] = {res, mm};
  return res;
}

// ---- quick answers for hard satisfiable queries: values derived from the known model, each confirmed by evaluating every constraint
static bool assignTo(E e, APInt v, Model &m) { // make the expression take the value
  switch (e->k) {
  case K_VAR: m[e] = v; return true;
  case K_ZEXT: return assignTo(e->a[0], v.trunc(e->a[0]->w), m);
  case K_CONCAT: { unsigned lo = e->a[1]->w; bool a = assignTo(e->a[1], v.trunc(lo), m), b = assignTo(e->a[0], v.lshr(lo).trunc(e->a[0]->w), m); return a || b; }
  case K_EXTRACT: { if (e->a[0]->k != K_VAR) return false; auto it = m.find(e->a[0]); APInt x = it == m.end() ? APInt(e->a[0]->w, 0) : it->second; x.insertBits(v, e->lo); m[e->a[0]] = x; return true; }
  case K_AND: return e->w > 1 && e->a[1]->isConst() && assignTo(e->a[0], v, m);
  case K_MODP: if (e->poly->size() == 1 && e->poly->begin()->first.size() == 1 && e->poly->begin()->second == 1) { E x = e->poly->begin()->first[0]; return assignTo(x, v.zextOrTrunc(x->w), m); } return false;
  default: return false;
  }
}
Res Solver::guess(const std::vector<E> &sl, const Model &base, Model *out, double seconds) {
  auto t0 = std::chrono::steady_clock::now();
  auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  auto good = [&](const Model &m) { uint64_t ep = newEpoch(); for (E c : sl) if (!evalExpr(c, m, ep).isOne()) return false; return true; };
  auto found = [&](const Model &m) { if (out) for (auto &kv : m) (*out)[kv.first] = kv.second; st.guesses++; return R_SAT; };
  std::vector<E> vars; { std::unordered_set<E> seen; for (E c : sl) for (E v : freeVars(c)) if (seen.insert(v).second) vars.push_back(v); }
  if (vars.empty()) return R_UNKNOWN;
  std::mt19937_64 rng(seed);
  auto any = [&](E v) { APInt r(v->w, 0); switch (rng() % 6) { case 0: return r; case 1: return APInt(v->w, 1); case 2: return APInt::getAllOnes(v->w); default: for (unsigned i = 0; i < v->w; i += 64) r.insertBits(APInt(std::min(64u, v->w - i), rng() & (v->w - i >= 64 ? ~0ull : (1ull << (v->w - i)) - 1)), i); return r; } };
  // 1. roots: equations modulo a prime that occur, solved for one of their terms
  std::vector<E> eqs; { std::vector<E> st{sl[0]}; std::unordered_set<E> seen; while (!st.empty() && eqs.size() < 40) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e->k == K_EQ && (e->a[0]->k == K_MODP || e->a[1]->k == K_MODP)) eqs.push_back(e); if (e->k == K_MODP) { for (auto &t : *e->poly) for (E x : t.first) st.push_back(x); } for (unsigned i = 0; i < e->n; i++) st.push_back(e->a[i]); } }
  for (E e : eqs) {
    E f = e->a[0]->k == K_MODP ? e->a[0] : e->a[1], g = f == e->a[0] ? e->a[1] : e->a[0]; U p = f->p; if (g->k == K_MODP && g->p != p) continue;
    std::unordered_set<E> atoms; for (E s : {f, g}) if (s->k == K_MODP) for (auto &t : *s->poly) for (E x : t.first) atoms.insert(x);
    for (E x : atoms) {
      if (spent() > seconds / 3) break;
      uint64_t ep = newEpoch(); U co = 0, rest = 0; bool lin = true;
      auto val = [&](E y) -> U { return remU(evalExpr(y, base, ep), p); };
      auto addPoly = [&](E s, bool minus) {
        if (s->k != K_MODP) { U v = val(s); rest = (rest + (minus ? (p - v) % p : v)) % p; return; }
        for (auto &t : *s->poly) { int deg = 0; U pr = t.second % p; for (E y : t.first) if (y == x) deg++; else pr = mulm(pr, val(y), p); if (minus) pr = (p - pr) % p; if (deg > 1) lin = false; if (deg == 1) co = (co + pr) % p; else if (!deg) rest = (rest + pr) % p; }
      };
      addPoly(f, false); addPoly(g, true);
      if (!lin || co == 0) continue;
      U v = mulm((p - rest) % p, powm(co, p - 2, p), p);
      Model m = base; if (x->w < 128 && (v >> x->w)) continue;
      if (assignTo(x, fromU(v, x->w), m) && good(m)) return found(m);
    }
  }
  // 2. other values of a few variables
  for (int k = 0; k < 300 && spent() < seconds * 2 / 3; k++) {
    Model m = base;
    if (k % 3 == 2) { // near the known model: a few bytes changed a little, or the low bits of all of them
      int n = k % 2 ? 1 + rng() % 3 : (int)vars.size();
      for (int i = 0; i < n; i++) {
        E v = k % 2 ? vars[rng() % vars.size()] : vars[i]; auto it = base.find(v); APInt x = it == base.end() ? APInt(v->w, 0) : it->second;
        if (!(k % 2)) { for (unsigned b = 0; b < v->w; b += 8) { unsigned bw = std::min(8u, v->w - b), lw = std::min(k % 4 ? 3u : 1u, bw); x.insertBits(APInt(lw, rng() & ((1u << lw) - 1)), b); } }
        else { unsigned b = rng() % ((v->w + 7) / 8) * 8, bw = std::min(8u, v->w - b); APInt y = x.extractBits(bw, b); switch (rng() % 4) { case 0: y ^= APInt(bw, 1); break; case 1: ++y; break; case 2: --y; break; default: y = APInt(bw, rng() & ((1u << bw) - 1)); } x.insertBits(y, b); }
        m[v] = x;
      }
    }
    else if (k % 3) for (E v : vars) m[v] = any(v); else for (int i = 0; i <= k % 3; i++) { E v = vars[rng() % vars.size()]; m[v] = any(v); }
    if (good(m)) return found(m);
  }
  // 3. one variable at a time, the others as in the known model
  std::shuffle(vars.begin(), vars.end(), rng);
  unsigned tm = timeoutMs; timeoutMs = 400;
  for (E v : vars) {
    if (spent() > seconds) break;
    std::vector<E> c = sl; for (E u : vars) if (u != v) { auto it = base.find(u); c.push_back(mkEq(u, mkConst(it == base.end() ? APInt(u->w, 0) : it->second))); }
    Model m = base; Res r = check(c, &m);
    if (r == R_SAT) { timeoutMs = tm; return found(m); }
  }
  timeoutMs = tm;
  return R_UNKNOWN;
}

Res Solver::checkSliced(const std::vector<E> &cons, E q, Model *out, const Model *hint) {
  if (q == eFalse) return R_UNSAT;
  std::unordered_set<E> vs(freeVars(q).begin(), freeVars(q).end());
  std::vector<char> used(cons.size(), 0);
  std::vector<E> sl{q};
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < cons.size(); i++) {
      if (used[i]) continue;
      auto &fv = freeVars(cons[i]);
      bool hit = false;
      for (E v : fv) if (vs.count(v)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true; sl.push_back(cons[i]);
      for (E v : fv) vs.insert(v);
    }
  }
  if (!hint) return check(sl, out);
  // a hard query: a short attempt first, then guesses (a failure leaves the query undecided)
  unsigned tm = timeoutMs; timeoutMs = std::min(tm, shortMs); Res r = check(sl, out); timeoutMs = tm;
  if (r != R_UNKNOWN || tm <= shortMs) return r;
  st.unknown--;
  return guess(sl, *hint, out, 4);
}

// Hash-consed bit-vector expressions with aggressive local simplification.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/ArrayRef.h>
#include <llvm/ADT/StringExtras.h>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APInt;

enum Kind : uint8_t {
  K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_UREM, K_SDIV, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE, K_EQ, K_ULT, K_ULE,
  K_SLT, K_SLE, K_MODP, K_AGG, K_FP
};
enum FpOp : uint8_t { F_ADD, F_SUB, F_MUL, F_DIV, F_REM, F_EQ, F_LT, F_LE, F_UNO, F_SI2FP, F_UI2FP,
  F_FP2SI, F_FP2UI, F_SQRT, F_EXT, F_TRUNC, F_FLOOR, F_CEIL };

struct Expr;
typedef const Expr *E;
typedef std::vector<E> Mono;  // product of atoms, sorted by id
struct MonoLess { bool operator()(const Mono &a, const Mono &b) const; };
typedef unsigned __int128 U;          // moduli and coefficients
typedef std::map<Mono, U, MonoLess> Poly;

struct Expr {
  Kind k; uint8_t sub; unsigned w; unsigned id; unsigned lo; unsigned ab; unsigned tz; size_t h;
  unsigned n; E a[3];
  std::vector<E> *agg; APInt c; std::string *name; Poly *poly; U p;
  mutable std::shared_ptr<std::vector<E>> vars; // free variables, sorted by id
  mutable void *z3; mutable uint64_t evEpoch; mutable APInt ev;
  Expr() : c(1, 0), ev(1, 0) {}
  bool isConst() const { return k == K_CONST; }
  uint64_t u() const { return c.getZExtValue(); }
};

extern uint64_t gNumExprs;
E mkConst(const APInt &v);
E mkConst(uint64_t v, unsigned w);
E mkConstU(U v, unsigned w);
static inline U toU(const APInt &v) { APInt x = v.zextOrTrunc(128); return (U)x.extractBitsAsZExtValue(64, 64) << 64 | x.extractBitsAsZExtValue(64, 0); }
static inline APInt fromU(U v, unsigned w) { uint64_t d[2] = {(uint64_t)v, (uint64_t)(v >> 64)}; return APInt(128, llvm::ArrayRef<uint64_t>(d, 2)).zextOrTrunc(w); }
static inline unsigned bitsU(U v) { return v >> 64 ? 128 - __builtin_clzll((uint64_t)(v >> 64)) : v ? 64 - __builtin_clzll((uint64_t)v) : 0; }
static inline U remU(const APInt &v, U p) { unsigned W = std::max(v.getBitWidth(), 128u); return toU(v.zext(W).urem(fromU(p, W))); }
U mulm(U a, U b, U p); U powm(U a, U e, U p);
E mkVar(const std::string &name, unsigned w);
E mkBin(Kind k, E a, E b);
E mkAdd(E a, E b); E mkSub(E a, E b); E mkMul(E a, E b); E mkUDiv(E a, E b); E mkURem(E a, E b);
E mkSDiv(E a, E b); E mkSRem(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkXor(E a, E b); E mkNot(E a);
E mkShl(E a, E b); E mkLShr(E a, E b); E mkAShr(E a, E b);
E mkConcat(E hi, E lo); E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w); E mkSExt(E a, unsigned w); E mkTrunc(E a, unsigned w);
E mkZExtOrTrunc(E a, unsigned w);
E mkIte(E c, E a, E b); E mkEq(E a, E b); E mkUlt(E a, E b); E mkUle(E a, E b); E mkSlt(E a, E b); E mkSle(E a, E b);
E mkAgg(const std::vector<E> &v);
E mkFp(FpOp op, unsigned w, E a, E b = nullptr);
// arithmetic modulo a constant
E mkMod(E a, U p);                 // a mod p, result of width bits(p)
E mkModOp(int op, E a, E b, U p);  // 0 add 1 sub 2 mul
E mkCtlz(E a); E mkCttz(E a); E mkCtpop(E a);
extern E eTrue, eFalse;
void initExprs();
const std::vector<E> &freeVars(E e);

typedef std::unordered_map<E, APInt> Model; // variable -> value (missing = 0)
APInt evalExpr(E e, const Model &m, uint64_t epoch);
uint64_t newEpoch();
std::string toStr(E e, int depth = 4);

// Symbolic executor for LLVM bitcode (LLVM 18, z3). See DESIGN.md.
#include "exec.h"
#include <cryptopp/sha.h>
#include <cxxabi.h>
#include <cmath>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <llvm/IR/InlineAsm.h>
using namespace llvm;

// ---------------------------------------------------------------- globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static Solver SV;
static std::vector<std::unique_ptr<State>> work;
static std::unordered_map<Function *, std::unique_ptr<Fn>> fns;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> fnAt;
static std::unordered_map<uint64_t, GlobalVariable *> gvAt;
static std::unordered_map<std::string, Builtin> builtins;
static std::map<std::string, int> fixedChoices;
static E eUninit;
static std::shared_ptr<Obj> freedObj;

struct Failure { std::string kind, msg, where, fn; std::string json; };
static std::vector<Failure> failures;
static std::map<std::string, uint64_t> unsupported, reachedAll;
static std::map<std::string, uint64_t> boundsHit;
static std::set<std::string> repoFns;
static uint64_t nPaths = 0, nPathsDone = 0, nInstr = 0, nForks = 0, nUnknown = 0, nChecks = 0, nChecksSolver = 0, nAssumed = 0, nPathErr = 0;
static uint64_t pathLimit = 200000000, maxFailures = 12; static double timeLimit = 1e9; static bool timedOut = false;
static std::chrono::steady_clock::time_point T0;
static std::vector<std::string> samples; static unsigned maxSamples = 8; static uint64_t sampleSeen = 0; static std::mt19937_64 rng(1);
static bool verbose = false;
static std::string repoPrefix = "/repo/src/";
struct PathEnd {};
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

static std::string demangle(const std::string &n) { int st; char *d = abi::__cxa_demangle(n.c_str(), 0, 0, &st); if (st || !d) return n; std::string r = d; free(d); return r; }
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\"";
}
static std::string hexOf(const APInt &v) { SmallString<64> s; v.toString(s, 16, false, false, false); std::string r = s.c_str(); for (char &c : r) c = tolower(c); return r; }

// ---------------------------------------------------------------- values
static inline uint64_t maskW(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; return (int64_t)(v << (64 - w)) >> (64 - w); }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { if (e->k == K_CONST && e->w <= 64) return Val(e->c.getZExtValue()); return Val(0, e); }
static unsigned widthOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

// ---------------------------------------------------------------- model / branching
static APInt evalS(State &s, E e) { return evalExpr(e, *s.model, s.epoch); }
static std::string curWhere(State &s, std::string *fn = nullptr) {
  std::string r; int n = 0; bool got = false;
  for (int i = (int)s.fr.size() - 1; i >= 0 && n < 14; i--) {
    Fn *f = s.fr[i].f; int pc = s.fr[i].pc; if (i != (int)s.fr.size() - 1 && pc > 0) {}
    std::string d = demangle(f->name); size_t p = d.size() > 90 ? 90 : d.size();
    r += (n ? " < " : "") + d.substr(0, p);
    if (pc < (int)f->code.size() && f->code[pc].I) { auto &dl = f->code[pc].I->getDebugLoc(); if (dl) { std::string fnm = dl->getFilename().str(); size_t q = fnm.rfind('/'); r += "@" + (q == std::string::npos ? fnm : fnm.substr(q + 1)) + ":" + std::to_string(dl.getLine()); } }
    if (!got && f->repo) { got = true; if (fn) { std::string g = d; size_t q = g.find('('); *fn = g.substr(0, q); } }
    n++;
  }
  return r;
}
static std::string modelJson(State &s, const Model &m, uint64_t ep) {
  std::ostringstream o;
  o << "\"inputs\":["; bool f = true;
  for (auto &i : s.inputs) { o << (f ? "" : ",") << "[" << jstr(i.name) << "," << i.w << ",\"" << hexOf(evalExpr(i.e, m, ep)) << "\"]"; f = false; }
  o << "],\"choices\":["; f = true;
  for (auto &c : s.choices) { o << (f ? "" : ",") << "[" << jstr(c.first) << "," << c.second << "]"; f = false; }
  o << "],\"uf\":["; f = true;
  for (auto &u : s.ufs) {
    o << (f ? "" : ",") << "[" << jstr(u->tag) << ",\""; f = false;
    char b[4];
    for (E e : u->in) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m, ep).getZExtValue()); o << b; }
    o << "\",\"";
    for (E e : u->out) { snprintf(b, 4, "%02x", (unsigned)evalExpr(e, m, ep).getZExtValue()); o << b; }
    o << "\"]";
  }
  o << "],\"obs\":["; f = true;
  for (auto &i : s.obs) { o << (f ? "" : ",") << "[" << jstr(i.first) << ",\"" << hexOf(evalExpr(i.second, m, ep)) << "\"]"; f = false; }
  o << "]";
  return o.str();
}
static void record(State &s, const std::string &kind, const std::string &msg, const Model &m, uint64_t ep) {
  Failure f; f.kind = kind; f.msg = msg; f.where = curWhere(s, &f.fn);
  for (auto &g : failures) if (g.kind == f.kind && g.msg == f.msg && g.fn == f.fn) return;
  f.json = modelJson(s, m, ep);
  if (verbose) std::cerr << "FAIL " << kind << ": " << msg << " at " << f.where << "\n";
  failures.push_back(f);
}
[[noreturn]] static void failPath(State &s, const std::string &kind, const std::string &msg) {
  nPathErr++;
  record(s, kind, msg, *s.model, s.epoch);
  throw PathEnd();
}
[[noreturn]] static void unsup(State &s, const std::string &msg) {
  std::string w = curWhere(s); if (w.size() > 300) w.resize(300);
  if (!unsupported[msg]++) if (verbose || getenv("VP_UNSUP")) std::cerr << "UNSUPPORTED " << msg << " at " << w << "\n";
  throw PathEnd();
}
static void learn(State &s, E c) {
  if (c->k == K_XOR && c->a[1] == eTrue) { s.known[c->a[0]] = false; E d = c->a[0]; if (d->k == K_OR) { learn(s, mkNot(d->a[0])); learn(s, mkNot(d->a[1])); } return; }
  s.known[c] = true;
  if (c->k == K_AND) { learn(s, c->a[0]); learn(s, c->a[1]); }
  if (c->k == K_EQ && c->a[1]->isConst() && c->a[1]->w <= 64) s.eqs[c->a[0]] = c->a[1]->u();
}
static void addCons(State &s, E c) {
  if (c == eTrue) return;
  if (c->k == K_AND) { addCons(s, c->a[0]); addCons(s, c->a[1]); s.known[c] = true; return; }
  s.cons.push_back(c); learn(s, c);
}
static int lookupKnown(State &s, E c) {
  if (c == eTrue) return 1; if (c == eFalse) return 0;
  if (c->k == K_XOR && c->a[1] == eTrue) { int r = lookupKnown(s, c->a[0]); return r < 0 ? r : !r; }
  auto it = s.known.find(c); if (it != s.known.end()) return it->second;
  if (c->k == K_EQ && c->a[1]->isConst() && c->a[1]->w <= 64) { auto j = s.eqs.find(c->a[0]); if (j != s.eqs.end()) return j->second == c->a[1]->u(); }
  if (c->k == K_AND) { int a = lookupKnown(s, c->a[0]), b = lookupKnown(s, c->a[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
  if (c->k == K_OR) { int a = lookupKnown(s, c->a[0]), b = lookupKnown(s, c->a[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
  return -1;
}
static bool evalBool(State &s, E c) { return evalS(s, c).isOne(); }
// The solver's answer to cons && q. Hard queries are put off until the other paths are done: the state is kept and
// executes its current instruction again, with the full time per query.
static std::vector<std::unique_ptr<State>> later;
static Res ask(State &s, E q, Model *out) {
  if (s.patient == q) return SV.checkSliced(s.cons, q, out);
  Res r = SV.checkSliced(s.cons, q, out, s.model.get());
  if (r != R_UNKNOWN) return r;
  auto t = std::make_unique<State>(s); t->patient = q; later.push_back(std::move(t)); SV.st.deferred++;
  throw PathEnd();
}
// Decide a condition; forks the other outcome (which re-executes the current instruction).
static bool branch(State &s, E c) {
  int k = lookupKnown(s, c);
  if (k >= 0) return k;
  bool mv = evalBool(s, c);
  E other = mv ? mkNot(c) : c;
  Model m2 = *s.model;
  Res r = ask(s, other, &m2);
  if (r == R_UNSAT) { learn(s, mv ? c : mkNot(c)); return mv; }
  if (r == R_UNKNOWN) { nUnknown++; addCons(s, mv ? c : mkNot(c)); return mv; }
  nForks++; s.depthForks++;
  auto t = std::make_unique<State>(s);
  t->model = std::make_shared<Model>(std::move(m2)); t->epoch = newEpoch();
  addCons(*t, other);
  work.push_back(std::move(t));
  addCons(s, mv ? c : mkNot(c));
  return mv;
}
// true if c can be true / must be true
static bool mustBe(State &s, E c) {
  int k = lookupKnown(s, c); if (k >= 0) return k;
  if (!evalBool(s, c)) return false;
  Res r = ask(s, mkNot(c), nullptr);
  if (r == R_UNKNOWN) nUnknown++;
  return r == R_UNSAT;
}
static uint64_t concretize(State &s, Val v, unsigned w) {
  if (!v.e) return v.c;
  auto it = s.eqs.find(v.e); if (it != s.eqs.end()) return it->second;
  uint64_t x = evalS(s, v.e).getZExtValue();
  // enumerate values: keep the model's value here, the fork re-executes with another one
  if (!branch(s, mkEq(v.e, mkConst(x, w)))) abort();
  return x;
}
static void assume(State &s, E c) {
  int k = lookupKnown(s, c);
  if (k == 1) return;
  if (k == 0) { nAssumed++; throw PathEnd(); }
  if (!evalBool(s, c)) {
    Model m2 = *s.model;
    Res r = ask(s, c, &m2);
    if (r == R_UNKNOWN) nUnknown++;
    if (r != R_SAT) { nAssumed++; throw PathEnd(); }
    s.model = std::make_shared<Model>(std::move(m2)); s.epoch = newEpoch();
  }
  addCons(s, c);
}
static void check(State &s, E c, const std::string &kind, const std::string &msg) {
  nChecks++;
  int k = lookupKnown(s, c);
  if (k == 1) return;
  if (k == 0) failPath(s, kind, msg);
  if (!evalBool(s, c)) {
    nChecksSolver++;
    record(s, kind, msg, *s.model, s.epoch);
    assume(s, c); // continue with the values for which it holds
    return;
  }
  nChecksSolver++;
  Model m2 = *s.model;
  Res r = ask(s, mkNot(c), &m2);
  if (r == R_SAT) record(s, kind, msg, m2, newEpoch());
  if (r == R_UNKNOWN) nUnknown++;
  addCons(s, c);
}
static E freshInput(State &s, const std::string &name, unsigned w) {
  int k = s.cnt[name]++;
  std::string nm = name + "#" + std::to_string(k);
  E v = mkVar(nm, w);
  s.inputs.push_back({nm, w, v});
  return v;
}

// ---------------------------------------------------------------- memory
static const char *kindName(OKind k) { switch (k) { case OK_MALLOC: return "malloc"; case OK_NEW: return "new"; case OK_NEWARR: return "new[]"; case OK_STACK: return "stack"; case OK_EXC: return "exception"; default: return "global"; } }
static uint64_t allocObj(State &s, uint64_t size, OKind kind, bool uninit) {
  auto o = std::make_shared<Obj>();
  uint64_t id;
  if (kind == OK_STACK) id = STACK0 + s.mem.r[1].n; else if (kind == OK_GLOBAL) id = std::max<uint64_t>(1, s.mem.r[0].n); else id = HEAP0 + s.mem.r[2].n;
  o->base = id << 32; o->size = size; o->kind = kind; o->c.assign(size, 0); o->st.assign(size, uninit ? 2 : 0);
  s.mem.set(id, o);
  return id << 32;
}
static Obj *objAt(State &s, uint64_t addr) { uint64_t id = addr >> 32; if (!id) return nullptr; return s.mem.get(id); }
static void symStore(Obj *o, uint64_t off, unsigned n, E e) { // e->w == 8n
  if (o->s.empty()) o->s.resize(o->size, SB{nullptr, 0});
  for (unsigned i = 0; i < n; i++) { o->st[off + i] = 1; o->s[off + i] = SB{e, i}; }
}
static void storeAt(State &s, Obj *o, uint64_t off, unsigned n, Val v, unsigned w) {
  if (!v.e) {
    if (n <= 8) { memcpy(&o->c[off], &v.c, n); memset(&o->st[off], 0, n); }
    else { memset(&o->c[off], 0, n); memcpy(&o->c[off], &v.c, 8); memset(&o->st[off], 0, n); }
    return;
  }
  E e = v.e;
  if (e->k == K_CONST) {
    APInt a = e->c.zext(std::max(8 * n, e->w));
    for (unsigned i = 0; i < n; i++) { o->c[off + i] = a.extractBitsAsZExtValue(8, 8 * i); o->st[off + i] = 0; }
    return;
  }
  if (e->w < 8 * n) e = mkZExt(e, 8 * n);
  if (n > 8) { // split into words so that constant parts stay concrete
    for (unsigned i = 0; i < n; i += 8) {
      unsigned m = std::min(8u, n - i); E p = mkExtract(e, 8 * i, 8 * m);
      storeAt(s, o, off + i, m, fromE(p), 8 * m);
    }
    return;
  }
  symStore(o, off, n, e);
}
static E byteE(State &s, uint64_t id, Obj *&o, uint64_t off) {
  if (o->st[off] == 0) return mkConst(o->c[off], 8);
  if (o->st[off] == 2) {
    E v = freshInput(s, "uninit", 8);
    o = s.mem.wr(id); symStore(o, off, 1, v);
    return v;
  }
  SB &b = o->s[off];
  return b.e->w == 8 ? b.e : mkExtract(b.e, 8 * b.idx, 8);
}
static Val loadAt(State &s, uint64_t id, Obj *o, uint64_t off, unsigned n, unsigned w) {
  bool conc = true;
  for (unsigned i = 0; i < n; i++) if (o->st[off + i]) { conc = false; break; }
  if (conc && n <= 8) { uint64_t v = 0; memcpy(&v, &o->c[off], n); return Val(maskW(v, w)); }
  if (!conc && o->st[off] == 1) {
    SB &b = o->s[off];
    if (b.e->w >= 8 * (b.idx + n)) {
      bool ok = true;
      for (unsigned i = 1; i < n && ok; i++) ok = o->st[off + i] == 1 && o->s[off + i].e == b.e && o->s[off + i].idx == b.idx + i;
      if (ok) { E e = (b.idx == 0 && b.e->w == 8 * n) ? b.e : mkExtract(b.e, 8 * b.idx, 8 * n); return fromE(w < 8 * n ? mkExtract(e, 0, w) : e); }
    }
  }
  E acc = nullptr;
  for (unsigned i = 0; i < n;) {
    unsigned j = i + 1; E seg;
    if (o->st[off + i] == 0) {
      while (j < n && o->st[off + j] == 0) j++;
      APInt a(8 * (j - i), 0);
      for (unsigned k = i; k < j; k++) a.insertBits(APInt(8, o->c[off + k]), 8 * (k - i));
      seg = mkConst(a);
    } else if (o->st[off + i] == 1) {
      SB b = o->s[off + i];
      while (j < n && o->st[off + j] == 1 && o->s[off + j].e == b.e && o->s[off + j].idx == b.idx + (j - i)) j++;
      seg = mkExtract(b.e, 8 * b.idx, 8 * (j - i));
    } else seg = byteE(s, id, o, off + i);
    acc = acc ? mkConcat(seg, acc) : seg;
    i = j;
  }
  if (w < acc->w) acc = mkExtract(acc, 0, w);
  return fromE(acc);
}
// Resolve an address for an access of n bytes; returns the object id and the offset.
static uint64_t resolve(State &s, const Val &a, uint64_t n, const char *what, Val &off) {
  uint64_t av = a.e ? 0 : a.c;
  if (a.e) { auto it = s.eqs.find(a.e); if (it != s.eqs.end()) av = it->second; else av = evalS(s, a.e).getZExtValue(); }
  uint64_t id = av >> 32; Obj *o = id ? s.mem.get(id) : nullptr;
  auto bad = [&](const std::string &m) { failPath(s, "memory", m); };
  if (!o) { if (av < 0x10000) bad(std::string("null pointer ") + what); else bad(std::string("wild pointer ") + what); }
  uint64_t o0 = av & 0xffffffff;
  if (o->freed) bad(std::string("use after free: ") + what + " of a freed " + kindName(o->kind) + " object");
  if (o0 > o->size || n > o->size - o0) bad(std::string("out of bounds ") + what + " (" + kindName(o->kind) + " object)");
  if (!a.e || s.eqs.count(a.e)) { off = Val(o0); return id; }
  E oe; E in;
  E hi = mkExtract(a.e, 32, 32);
  if (hi->isConst()) { oe = mkZExt(mkExtract(a.e, 0, 32), 64); in = mkUle(oe, mkConst(o->size - n, 64)); }
  else { oe = mkSub(a.e, mkConst(o->base, 64)); in = mkUle(oe, mkConst(o->size - n, 64)); }
  if (!branch(s, in)) abort();
  auto it = s.eqs.find(oe);
  if (it != s.eqs.end()) off = Val(it->second); else off = fromE(oe);
  return id;
}
static std::vector<uint64_t> candidates(E off, uint64_t maxOff) {
  std::vector<uint64_t> r; uint64_t step = 1ULL << std::min<unsigned>(off->tz, 32);
  uint64_t lim = maxOff; if (off->ab < 40) lim = std::min<uint64_t>(lim, (1ULL << off->ab) - 1);
  if (lim / step > 4096) return r;
  for (uint64_t o = 0; o <= lim; o += step) r.push_back(o);
  return r;
}
static Val loadScalar(State &s, const Val &a, unsigned w) {
  unsigned n = (w + 7) / 8; Val off; uint64_t id = resolve(s, a, n, "read", off);
  Obj *o = s.mem.get(id);
  if (!off.e) return loadAt(s, id, o, off.c, n, w);
  auto cs = candidates(off.e, o->size - n);
  if (cs.empty()) { uint64_t c = concretize(s, off, 64); return loadAt(s, id, s.mem.get(id), c, n, w); }
  E acc = nullptr;
  for (auto it = cs.rbegin(); it != cs.rend(); ++it) {
    E v = toE(loadAt(s, id, s.mem.get(id), *it, n, w), w);
    acc = acc ? mkIte(mkEq(off.e, mkConst(*it, 64)), v, acc) : v;
  }
  return fromE(acc);
}
static void storeScalar(State &s, const Val &a, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8; Val off; uint64_t id = resolve(s, a, n, "write", off);
  if (s.mem.get(id)->ro) failPath(s, "memory", "write to a constant object");
  if (off.e) {
    auto cs = candidates(off.e, s.mem.get(id)->size - n);
    if (cs.empty() || cs.size() > 512) { uint64_t c = concretize(s, off, 64); storeAt(s, s.mem.wr(id), c, n, v, w); return; }
    E ve = toE(v, w); if (w < 8 * n) ve = mkZExt(ve, 8 * n);
    std::vector<std::pair<uint64_t, E>> upd;
    for (uint64_t c : cs) upd.push_back({c, mkIte(mkEq(off.e, mkConst(c, 64)), ve, toE(loadAt(s, id, s.mem.get(id), c, n, 8 * n), 8 * n))});
    if ((1ULL << std::min<unsigned>(off.e->tz, 32)) < n) { // overlapping candidates: apply bytewise
      uint64_t c = concretize(s, off, 64); storeAt(s, s.mem.wr(id), c, n, v, w); return;
    }
    Obj *o = s.mem.wr(id);
    for (auto &u : upd) storeAt(s, o, u.first, n, fromE(u.second), 8 * n);
    return;
  }
  storeAt(s, s.mem.wr(id), off.c, n, v, w);
}
static Val addTo(const Val &a, uint64_t c) { return a.e ? fromE(mkAdd(a.e, mkConst(c, 64))) : Val(a.c + c); }
static Val loadT(State &s, const Val &a, Type *t) {
  if (unsigned w = widthOf(t)) return loadScalar(s, a, w);
  std::vector<E> v;
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) { Val x = loadT(s, addTo(a, sl->getElementOffset(i)), st->getElementType(i)); v.push_back(toE(x, widthOf(st->getElementType(i)))); }
    return Val(0, mkAgg(v));
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) { Val x = loadT(s, addTo(a, i * sz), at->getElementType()); v.push_back(toE(x, widthOf(at->getElementType()))); }
    return Val(0, mkAgg(v));
  }
  unsup(s, "load of type");
}
static void storeT(State &s, const Val &a, const Val &v, Type *t) {
  if (unsigned w = widthOf(t)) { storeScalar(s, a, v, w); return; }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, addTo(a, sl->getElementOffset(i)), fromE((*v.e->agg)[i]), st->getElementType(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, addTo(a, i * sz), fromE((*v.e->agg)[i]), at->getElementType());
    return;
  }
  unsup(s, "store of type");
}
static void memCopy(State &s, const Val &d, const Val &src, uint64_t n) {
  if (!n) return;
  Val od, os; uint64_t is = resolve(s, src, n, "read", os), id = resolve(s, d, n, "write", od);
  uint64_t co = concretize(s, od, 64), cs = concretize(s, os, 64);
  if (s.mem.get(id)->ro) failPath(s, "memory", "write to a constant object");
  Obj *o = s.mem.get(is);
  std::vector<uint8_t> c(o->c.begin() + cs, o->c.begin() + cs + n), st(o->st.begin() + cs, o->st.begin() + cs + n);
  std::vector<SB> sy; if (!o->s.empty()) sy.assign(o->s.begin() + cs, o->s.begin() + cs + n);
  Obj *w = s.mem.wr(id);
  memcpy(&w->c[co], c.data(), n); memcpy(&w->st[co], st.data(), n);
  if (!sy.empty()) { if (w->s.empty()) w->s.resize(w->size, SB{nullptr, 0}); std::copy(sy.begin(), sy.end(), w->s.begin() + co); }
}
static void memSet(State &s, const Val &d, const Val &v, uint64_t n) {
  if (!n) return;
  Val od; uint64_t id = resolve(s, d, n, "write", od); uint64_t co = concretize(s, od, 64);
  if (s.mem.get(id)->ro) failPath(s, "memory", "write to a constant object");
  Obj *w = s.mem.wr(id);
  if (!v.e) { memset(&w->c[co], (int)v.c, n); memset(&w->st[co], 0, n); return; }
  for (uint64_t i = 0; i < n; i++) symStore(w, co + i, 1, v.e);
}
static std::vector<E> bytesAt(State &s, const Val &a, uint64_t n) {
  std::vector<E> r; if (!n) return r;
  Val off; uint64_t id = resolve(s, a, n, "read", off); uint64_t co = concretize(s, off, 64);
  for (uint64_t i = 0; i < n; i++) { Obj *o = s.mem.get(id); r.push_back(byteE(s, id, o, co + i)); }
  return r;
}
static std::string cstrAt(State &s, const Val &a) {
  std::string r; uint64_t p = concretize(s, a, 64);
  Obj *o = objAt(s, p); if (!o) failPath(s, "memory", "bad string pointer");
  for (uint64_t i = p & 0xffffffff; i < o->size; i++) { if (o->st[i]) { r += '?'; continue; } if (!o->c[i]) break; r += (char)o->c[i]; }
  return r;
}

// ---------------------------------------------------------------- constants
static uint64_t addrOf(const GlobalValue *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  if (auto *ga = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()));
  return 0;
}
static Val constVal(const Constant *c);
static Val constAgg(const Constant *c) {
  std::vector<E> v; Type *t = c->getType();
  unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
  for (unsigned i = 0; i < n; i++) {
    Constant *x = c->getAggregateElement(i);
    Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
    v.push_back(toE(x ? constVal(x) : Val(0), widthOf(et)));
  }
  return Val(0, mkAgg(v));
}
static Val constVal(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue()); return Val(0, mkConst(ci->getValue())); }
  if (isa<ConstantPointerNull>(c)) return Val(0);
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); return a.getBitWidth() <= 64 ? Val(a.getZExtValue()) : Val(0, mkConst(a)); }
  if (t->isAggregateType()) return constAgg(c);
  if (isa<UndefValue>(c)) { unsigned w = widthOf(t); return w > 64 ? Val(0, mkConst(APInt(w, 0))) : Val(0); }
  if (auto *g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g));
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
      return Val(constVal(ce->getOperand(0)).c + off.getZExtValue());
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val(maskW(constVal(ce->getOperand(0)).c, widthOf(t)));
    case Instruction::Trunc: return Val(maskW(constVal(ce->getOperand(0)).c, widthOf(t)));
    case Instruction::Sub: return Val(maskW(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c, widthOf(t)));
    case Instruction::Add: return Val(maskW(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c, widthOf(t)));
    case Instruction::ICmp: { bool eq = constVal(ce->getOperand(0)).c == constVal(ce->getOperand(1)).c; return Val(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq); }
    default: break;
    }
  }
  errs() << "unsupported constant: " << *c << "\n"; return Val(0);
}
static void initConst(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    if (es == 1) { StringRef r = cd->getRawDataValues(); memcpy(&o->c[off], r.data(), r.size()); return; }
    for (unsigned i = 0; i < cd->getNumElements(); i++) initConst(o, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(o, off + i * es, ca->getOperand(i)); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
  unsigned w = widthOf(t); if (!w) { errs() << "initConst type\n"; return; }
  Val v = constVal(c); unsigned n = (w + 7) / 8;
  if (!v.e) memcpy(&o->c[off], &v.c, std::min(8u, n));
  else for (unsigned i = 0; i < n; i++) o->c[off + i] = v.e->c.extractBitsAsZExtValue(8, 8 * i);
}

// ---------------------------------------------------------------- decoding
static Fn *getFn(Function *F) {
  auto &p = fns[F];
  if (p) return p.get();
  p = std::make_unique<Fn>(); Fn *f = p.get(); f->F = F; f->name = F->getName().str();
  if (auto *sp = F->getSubprogram()) { std::string fn = sp->getFilename().str(), dir = sp->getDirectory().str(); if (fn.size() && fn[0] != '/') fn = dir + "/" + fn; f->file = fn; f->repo = fn.compare(0, repoPrefix.size(), repoPrefix) == 0; }
  std::unordered_map<const Value *, int> slot;
  for (auto &a : F->args()) { slot[&a] = f->nslots; f->argSlots.push_back(f->nslots++); }
  std::unordered_map<const BasicBlock *, int> bb;
  int pc = 0;
  for (auto &B : *F) {
    bb[&B] = pc;
    for (auto &I : B) { if (!I.getType()->isVoidTy()) slot[&I] = f->nslots++; if (!isa<PHINode>(I) && !isa<DbgInfoIntrinsic>(I)) pc++; }
  }
  auto op = [&](Value *v) -> Op {
    if (auto *c = dyn_cast<Constant>(v)) return Op{-1, constVal(c)};
    auto it = slot.find(v); if (it == slot.end()) return Op{-1, Val(0)}; // metadata
    return Op{it->second, Val()};
  };
  auto edge = [&](BasicBlock *from, BasicBlock *to) {
    Edge e; e.target = bb[to];
    for (auto &I : *to) { auto *ph = dyn_cast<PHINode>(&I); if (!ph) break; e.moves.push_back({slot[ph], op(ph->getIncomingValueForBlock(from))}); }
    return e;
  };
  for (auto &B : *F) for (auto &I : B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    Inst d; d.opc = I.getOpcode(); d.I = &I; d.ty = I.getType(); d.w = widthOf(I.getType());
    if (!I.getType()->isVoidTy()) d.dst = slot[&I];
    auto add = [&](Value *v) { d.ops.push_back(op(v)); d.wid.push_back(widthOf(v->getType())); };
    switch (I.getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GetElementPtrInst>(&I); add(g->getPointerOperand());
      uint64_t cst = 0;
      for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
        Value *ix = ti.getOperand();
        if (StructType *st = ti.getStructTypeOrNull()) { cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { cst += ci->getSExtValue() * sz; continue; }
        add(ix); d.scale.push_back(sz);
      }
      d.imm = cst; break;
    }
    case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isConditional()) { add(b->getCondition()); d.edges.push_back(edge(&B, b->getSuccessor(0))); d.edges.push_back(edge(&B, b->getSuccessor(1))); } else d.edges.push_back(edge(&B, b->getSuccessor(0))); break; }
    case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); add(sw->getCondition()); d.edges.push_back(edge(&B, sw->getDefaultDest())); for (auto &c : sw->cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); d.edges.push_back(edge(&B, c.getCaseSuccessor())); } break; }
    case Instruction::Invoke: case Instruction::Call: {
      auto *c = cast<CallBase>(&I);
      d.callee = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
      if (!d.callee) if (auto *ga = dyn_cast<GlobalAlias>(c->getCalledOperand())) d.callee = dyn_cast<Function>(ga->getAliaseeObject());
      if (auto *ii = dyn_cast<IntrinsicInst>(c)) d.intr = ii->getIntrinsicID();
      add(c->getCalledOperand());
      for (unsigned i = 0; i < c->arg_size(); i++) { add(c->getArgOperand(i)); if (c->isByValArgument(i)) d.byval.push_back({(int)i, DL->getTypeAllocSize(c->getParamByValType(i))}); }
      if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.edges.push_back(edge(&B, iv->getNormalDest())); d.edges.push_back(edge(&B, iv->getUnwindDest())); }
      break;
    }
    case Instruction::ICmp: case Instruction::FCmp: d.pred = cast<CmpInst>(&I)->getPredicate(); for (auto &o : I.operands()) add(o); d.w2 = d.wid[0]; break;
    case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); d.imm = DL->getTypeAllocSize(a->getAllocatedType()); add(a->getArraySize()); break; }
    case Instruction::ExtractValue: { auto *x = cast<ExtractValueInst>(&I); add(x->getAggregateOperand()); for (unsigned k : x->indices()) d.cases.push_back(k); break; }
    case Instruction::InsertValue: { auto *x = cast<InsertValueInst>(&I); add(x->getAggregateOperand()); add(x->getInsertedValueOperand()); for (unsigned k : x->indices()) d.cases.push_back(k); break; }
    case Instruction::LandingPad: break;
    case Instruction::AtomicRMW: d.pred = cast<AtomicRMWInst>(&I)->getOperation(); for (auto &o : I.operands()) add(o); break;
    case Instruction::Load: d.ty = I.getType(); add(I.getOperand(0)); break;
    case Instruction::Store: d.ty = I.getOperand(0)->getType(); add(I.getOperand(0)); add(I.getOperand(1)); break;
    default: for (auto &o : I.operands()) add(o); if (!d.wid.empty()) d.w2 = d.wid[0]; break;
    }
    f->code.push_back(std::move(d));
  }
  return f;
}

// ---------------------------------------------------------------- RTTI
static const std::map<std::string, std::string> stdBases = {
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}};
static bool derives(const std::string &d, const std::string &b, int64_t *off = nullptr) {
  if (d == b) return true;
  auto it = stdBases.find(d); if (it != stdBases.end()) return derives(it->second, b, off);
  GlobalVariable *g = M->getGlobalVariable(d, true);
  if (!g || !g->hasInitializer()) return false;
  auto *cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
  std::string vt = cs->getOperand(0)->stripInBoundsConstantOffsets()->getName().str();
  if (vt.find("si_class_type_info") != std::string::npos) return derives(cs->getOperand(2)->stripPointerCasts()->getName().str(), b, off);
  if (vt.find("vmi_class_type_info") != std::string::npos) {
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
      int64_t o = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue() >> 8;
      if (derives(cs->getOperand(i)->stripPointerCasts()->getName().str(), b, off)) { if (off) *off += o; return true; }
    }
  }
  return false;
}
static std::string tiName(uint64_t a) { auto it = gvAt.find(a); return it == gvAt.end() ? "" : it->second->getName().str(); }

// ---------------------------------------------------------------- execution
static void popStack(State &s, uint64_t base) { Region &R = s.mem.r[1]; while (R.n > base) { R.n--; if (R.n % 128 == 0 && R.ch.size() > R.n / 128) R.ch.resize(R.n / 128); } }
static inline Val get(State &s, const Op &o) {
  if (o.slot < 0) return o.v;
  const Val &v = s.fr.back().regs[o.slot];
  if (!v.e || s.known.empty() || v.e->w > 64) return v;
  E e = v.e;
  for (;;) { // what the path already decides
    auto it = s.eqs.find(e); if (it != s.eqs.end()) return Val(it->second);
    if (e->w == 1) { auto k = s.known.find(e); if (k != s.known.end()) return Val(k->second); }
    if (e->k == K_ZEXT) { auto z = s.eqs.find(e->a[0]); if (z != s.eqs.end()) return Val(z->second); }
    if (e->k != K_ITE) break;
    int k = lookupKnown(s, e->a[0]); if (k < 0) break;
    e = k ? e->a[1] : e->a[2];
    if (e->isConst()) return Val(e->u());
  }
  return Val(0, e);
}
static inline void setr(State &s, Inst &I, const Val &v) { if (I.dst >= 0) s.fr.back().regs[I.dst] = v; }
static void take(State &s, Edge &e) {
  Frame &f = s.fr.back();
  if (e.moves.size() == 1) f.regs[e.moves[0].dst] = e.moves[0].src.slot < 0 ? e.moves[0].src.v : f.regs[e.moves[0].src.slot];
  else if (!e.moves.empty()) {
    Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
    for (size_t i = 0; i < e.moves.size(); i++) t[i] = e.moves[i].src.slot < 0 ? e.moves[i].src.v : f.regs[e.moves[i].src.slot];
    for (size_t i = 0; i < e.moves.size(); i++) f.regs[e.moves[i].dst] = t[i];
  }
  f.pc = e.target;
}
static void advance(State &s, Inst &I) { if (I.opc == Instruction::Invoke) take(s, I.edges[0]); else s.fr.back().pc++; }
static void pushFrame(State &s, Function *F, const std::vector<Val> &args, int retDst, Inst *call) {
  if (s.fr.size() > 3000) failPath(s, "bound", "call depth exceeds 3000");
  Fn *f = getFn(F);
  if (f->repo && repoFns.size() < 5000) { static std::unordered_map<Fn *, bool> seen; if (!seen[f]) { seen[f] = true; repoFns.insert(demangle(f->name)); } }
  Frame n; n.f = f; n.pc = 0; n.regs.resize(f->nslots); n.stackBase = s.mem.r[1].n; n.retDst = retDst; n.call = call;
  for (size_t i = 0; i < f->argSlots.size() && i < args.size(); i++) n.regs[f->argSlots[i]] = args[i];
  s.fr.push_back(std::move(n));
}
static void endPath(State &s) {
  nPathsDone++;
  for (auto &r : s.reached) reachedAll[r]++;
  sampleSeen++;
  unsigned ix = samples.size();
  if (samples.size() < maxSamples) samples.push_back(""); else { ix = rng() % sampleSeen; if (ix >= maxSamples) return; }
  samples[ix] = "{" + modelJson(s, *s.model, s.epoch) + "}";
}
// unwinding: s.cur holds the exception
static void unwind(State &s) {
  while (!s.fr.empty()) {
    popStack(s, s.fr.back().stackBase);
    s.fr.pop_back();
    if (s.fr.empty()) break;
    Frame &f = s.fr.back(); Inst &I = f.f->code[f.pc];
    if (I.opc != Instruction::Invoke) continue;
    auto *lp = cast<InvokeInst>(I.I)->getLandingPadInst();
    std::string ty = tiName(s.cur.tinfo); bool enter = lp->isCleanup(); uint64_t sel = 0; int64_t adj = 0;
    for (unsigned i = 0; i < lp->getNumClauses(); i++) {
      if (lp->isCatch(i)) {
        Constant *c = lp->getClause(i);
        if (isa<ConstantPointerNull>(c)) { enter = true; sel = 1; break; }
        std::string b = c->stripPointerCasts()->getName().str(); int64_t o = 0;
        if (derives(ty, b, &o)) { enter = true; sel = constVal(c).c >> 32; adj = o; break; }
      } else { // filter (exception specification): enter when the type is not allowed
        enter = true; sel = (uint32_t)-1; break;
      }
    }
    if (!enter) continue;
    take(s, I.edges[1]);
    s.excInfo[s.cur.obj].first = s.cur.tinfo;
    // the landingpad instruction reads cur
    s.notes[0] = s.cur.obj + adj; s.notes[1] = sel;
    return;
  }
  std::string t = demangle(tiName(s.cur.tinfo).substr(0)); if (t.compare(0, 13, "typeinfo for ") == 0) t = t.substr(13);
  nPathErr++;
  record(s, "exception", "uncaught exception " + t, *s.model, s.epoch);
  throw PathEnd();
}

static E icmpE(int p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b);
  case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b);
  case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a);
  default: abort();
  }
}
static bool icmpC(int p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) {
  case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
  case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
  case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
  case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w); case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
  case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w); case CmpInst::ICMP_SGE: return sx(a, w) >= sx(b, w);
  default: abort();
  }
}
static E fcmpE(int p, E a, E b) {
  E u = nullptr; auto U = [&] { return mkFp(F_UNO, 1, a, b); };
  switch (p) {
  case CmpInst::FCMP_OEQ: return mkFp(F_EQ, 1, a, b); case CmpInst::FCMP_OLT: return mkFp(F_LT, 1, a, b); case CmpInst::FCMP_OLE: return mkFp(F_LE, 1, a, b);
  case CmpInst::FCMP_OGT: return mkFp(F_LT, 1, b, a); case CmpInst::FCMP_OGE: return mkFp(F_LE, 1, b, a);
  case CmpInst::FCMP_ONE: return mkOr(mkFp(F_LT, 1, a, b), mkFp(F_LT, 1, b, a));
  case CmpInst::FCMP_UNO: return U(); case CmpInst::FCMP_ORD: return mkNot(U());
  case CmpInst::FCMP_UNE: return mkNot(mkFp(F_EQ, 1, a, b)); case CmpInst::FCMP_UEQ: return mkNot(mkOr(mkFp(F_LT, 1, a, b), mkFp(F_LT, 1, b, a)));
  case CmpInst::FCMP_ULT: return mkNot(mkFp(F_LE, 1, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkFp(F_LT, 1, b, a));
  case CmpInst::FCMP_UGT: return mkNot(mkFp(F_LE, 1, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkFp(F_LT, 1, a, b));
  case CmpInst::FCMP_TRUE: return eTrue; case CmpInst::FCMP_FALSE: return eFalse;
  default: (void)u; abort();
  }
}
static Kind kindOf(unsigned opc) {
  switch (opc) {
  case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL;
  case Instruction::UDiv: return K_UDIV; case Instruction::URem: return K_UREM; case Instruction::SDiv: return K_SDIV; case Instruction::SRem: return K_SREM;
  case Instruction::And: return K_AND; case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR;
  case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
  default: abort();
  }
}
static Val binop(State &s, unsigned opc, const Val &a, const Val &b, unsigned w) {
  if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
    if (!b.e) { if (b.c == 0) failPath(s, "arith", "division by zero"); }
    else check(s, mkNot(mkEq(b.e, mkConst(APInt(w, 0)))), "arith", "division by zero");
  }
  if (opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr) {
    if (!b.e) { if (b.c >= w) failPath(s, "arith", "shift amount not less than the width"); }
    else if (!b.e->isConst()) check(s, mkUlt(b.e, mkConst(APInt(w, w))), "arith", "shift amount not less than the width");
  }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c;
    switch (opc) {
    case Instruction::Add: return Val(maskW(x + y, w)); case Instruction::Sub: return Val(maskW(x - y, w)); case Instruction::Mul: return Val(maskW(x * y, w));
    case Instruction::UDiv: return Val(x / y); case Instruction::URem: return Val(x % y);
    case Instruction::SDiv: if (sx(y, w) == -1) return Val(maskW(-x, w)); return Val(maskW(sx(x, w) / sx(y, w), w));
    case Instruction::SRem: if (sx(y, w) == -1) return Val(0); return Val(maskW(sx(x, w) % sx(y, w), w));
    case Instruction::And: return Val(x & y); case Instruction::Or: return Val(x | y); case Instruction::Xor: return Val(x ^ y);
    case Instruction::Shl: return Val(maskW(x << y, w)); case Instruction::LShr: return Val(x >> y); case Instruction::AShr: return Val(maskW(sx(x, w) >> y, w));
    }
  }
  return fromE(mkBin(kindOf(opc), toE(a, w), toE(b, w)));
}

static void doCall(State &s, Inst &I, Function *F, std::vector<Val> &args);
static bool intrinsic(State &s, Inst &I, std::vector<Val> &a) {
  unsigned w = I.w;
  switch (I.intr) {
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, a[2], I.wid[3]); memCopy(s, a[0], a[1], n); return true; }
  case Intrinsic::memset: { uint64_t n = concretize(s, a[2], I.wid[3]); memSet(s, a[0], a[1], n); return true; }
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::vaend:
    setr(s, I, Val(0)); return true;
  case Intrinsic::stacksave: setr(s, I, Val(0)); return true;
  case Intrinsic::trap: case Intrinsic::ubsantrap: failPath(s, "trap", "trap executed");
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
    setr(s, I, a[0]); return true;
  case Intrinsic::is_constant: setr(s, I, Val(a[0].e ? 0 : 1)); return true;
  case Intrinsic::objectsize: setr(s, I, Val(maskW(a[1].c ? 0 : ~0ULL, w))); return true;
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    unsigned n = I.wid[1]; bool sg = I.intr == Intrinsic::sadd_with_overflow || I.intr == Intrinsic::ssub_with_overflow || I.intr == Intrinsic::smul_with_overflow;
    E x = toE(a[0], n), y = toE(a[1], n); E X = sg ? mkSExt(x, 2 * n) : mkZExt(x, 2 * n), Y = sg ? mkSExt(y, 2 * n) : mkZExt(y, 2 * n);
    Kind k = (I.intr == Intrinsic::uadd_with_overflow || I.intr == Intrinsic::sadd_with_overflow) ? K_ADD : (I.intr == Intrinsic::umul_with_overflow || I.intr == Intrinsic::smul_with_overflow) ? K_MUL : K_SUB;
    E R = mkBin(k, X, Y); E r = mkExtract(R, 0, n); E ov = mkNot(mkEq(R, sg ? mkSExt(r, 2 * n) : mkZExt(r, 2 * n)));
    setr(s, I, Val(0, mkAgg({r, ov}))); return true;
  }
  case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w); E r = mkAdd(x, y); setr(s, I, fromE(mkIte(mkUlt(r, x), mkConst(APInt::getAllOnes(w)), r))); return true; }
  case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); setr(s, I, fromE(mkIte(mkUlt(x, y), mkConst(APInt(w, 0)), mkSub(x, y)))); return true; }
  case Intrinsic::ctlz: setr(s, I, fromE(mkCtlz(toE(a[0], w)))); return true;
  case Intrinsic::cttz: setr(s, I, fromE(mkCttz(toE(a[0], w)))); return true;
  case Intrinsic::ctpop: setr(s, I, fromE(mkCtpop(toE(a[0], w)))); return true;
  case Intrinsic::bswap: { E x = toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkExtract(x, 8 * i, 8); r = r ? mkConcat(r, b) : b; } setr(s, I, fromE(r)); return true; }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    E x = toE(a[0], w), y = toE(a[1], w); uint64_t k = concretize(s, a[2], w) % w;
    E c = mkConcat(x, y);
    setr(s, I, fromE(I.intr == Intrinsic::fshl ? mkExtract(c, w - k, w) : mkExtract(c, k, w))); return true;
  }
  case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); setr(s, I, fromE(mkIte(mkUlt(x, y), y, x))); return true; }
  case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); setr(s, I, fromE(mkIte(mkUlt(x, y), x, y))); return true; }
  case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); setr(s, I, fromE(mkIte(mkSlt(x, y), y, x))); return true; }
  case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); setr(s, I, fromE(mkIte(mkSlt(x, y), x, y))); return true; }
  case Intrinsic::abs: { E x = toE(a[0], w); setr(s, I, fromE(mkIte(mkSlt(x, mkConst(APInt(w, 0))), mkSub(mkConst(APInt(w, 0)), x), x))); return true; }
  case Intrinsic::sqrt: setr(s, I, fromE(mkFp(F_SQRT, w, toE(a[0], w)))); return true;
  case Intrinsic::floor: setr(s, I, fromE(mkFp(F_FLOOR, w, toE(a[0], w)))); return true;
  case Intrinsic::ceil: setr(s, I, fromE(mkFp(F_CEIL, w, toE(a[0], w)))); return true;
  case Intrinsic::fabs: { E x = toE(a[0], w); setr(s, I, fromE(mkAnd(x, mkConst(APInt::getSignedMaxValue(w))))); return true; }
  case Intrinsic::fmuladd: case Intrinsic::fma: setr(s, I, fromE(mkFp(F_ADD, w, mkFp(F_MUL, w, toE(a[0], w), toE(a[1], w)), toE(a[2], w)))); return true;
  case Intrinsic::eh_typeid_for: setr(s, I, Val(a[0].c >> 32)); return true;
  default: return false;
  }
}

static void doCall(State &s, Inst &I, Function *F, std::vector<Val> &args) {
  std::string name = F->getName().str();
  auto it = builtins.find(name);
  if (it != builtins.end()) { it->second(s, I, args); return; }
  if (F->isDeclaration()) unsup(s, "call to undefined function " + demangle(name));
  for (auto &bv : I.byval) { uint64_t d = allocObj(s, bv.second, OK_STACK, true); memCopy(s, Val(d), args[bv.first], bv.second); args[bv.first] = Val(d); }
  pushFrame(s, F, args, I.dst, &I);
  if (!I.byval.empty()) s.fr.back().stackBase -= I.byval.size();
}

static void step(State &s) {
  Frame &f = s.fr.back();
  Inst &I = f.f->code[f.pc];
  switch (I.opc) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    if (!I.w) unsup(s, "vector arithmetic");
    Val r = binop(s, I.opc, get(s, I.ops[0]), get(s, I.ops[1]), I.w);
    s.fr.back().regs[I.dst] = r; f.pc++; return;
  }
  case Instruction::ICmp: {
    Val a = get(s, I.ops[0]), b = get(s, I.ops[1]);
    if (!I.w2) unsup(s, "vector compare");
    if (!a.e && !b.e) f.regs[I.dst] = Val(icmpC(I.pred, a.c, b.c, I.w2));
    else f.regs[I.dst] = fromE(icmpE(I.pred, toE(a, I.w2), toE(b, I.w2)));
    f.pc++; return;
  }
  case Instruction::FCmp: { f.regs[I.dst] = fromE(fcmpE(I.pred, toE(get(s, I.ops[0]), I.w2), toE(get(s, I.ops[1]), I.w2))); f.pc++; return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    if (I.w > 64 || !I.w) unsup(s, "long double arithmetic");
    FpOp o = I.opc == Instruction::FAdd ? F_ADD : I.opc == Instruction::FSub ? F_SUB : I.opc == Instruction::FMul ? F_MUL : I.opc == Instruction::FDiv ? F_DIV : F_REM;
    f.regs[I.dst] = fromE(mkFp(o, I.w, toE(get(s, I.ops[0]), I.w), toE(get(s, I.ops[1]), I.w))); f.pc++; return;
  }
  case Instruction::FNeg: f.regs[I.dst] = fromE(mkXor(toE(get(s, I.ops[0]), I.w), mkConst(APInt::getSignMask(I.w)))); f.pc++; return;
  case Instruction::Trunc: { Val a = get(s, I.ops[0]); f.regs[I.dst] = a.e ? fromE(mkExtract(a.e, 0, I.w)) : Val(maskW(a.c, I.w)); f.pc++; return; }
  case Instruction::ZExt: { Val a = get(s, I.ops[0]); f.regs[I.dst] = (a.e || I.w > 64) ? fromE(mkZExt(toE(a, I.w2), I.w)) : a; f.pc++; return; }
  case Instruction::SExt: { Val a = get(s, I.ops[0]); f.regs[I.dst] = (a.e || I.w > 64) ? fromE(mkSExt(toE(a, I.w2), I.w)) : Val(maskW(sx(a.c, I.w2), I.w)); f.pc++; return; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: f.regs[I.dst] = get(s, I.ops[0]); f.pc++; return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = get(s, I.ops[0]); if (!a.e) a.c = maskW(a.c, I.w); else a = fromE(mkZExtOrTrunc(a.e, I.w)); f.regs[I.dst] = a; f.pc++; return; }
  case Instruction::SIToFP: f.regs[I.dst] = fromE(mkFp(F_SI2FP, I.w, toE(get(s, I.ops[0]), I.w2))); f.pc++; return;
  case Instruction::UIToFP: f.regs[I.dst] = fromE(mkFp(F_UI2FP, I.w, toE(get(s, I.ops[0]), I.w2))); f.pc++; return;
  case Instruction::FPToSI: f.regs[I.dst] = fromE(mkFp(F_FP2SI, I.w, toE(get(s, I.ops[0]), I.w2))); f.pc++; return;
  case Instruction::FPToUI: f.regs[I.dst] = fromE(mkFp(F_FP2UI, I.w, toE(get(s, I.ops[0]), I.w2))); f.pc++; return;
  case Instruction::FPExt: if (I.w > 64) unsup(s, "long double"); f.regs[I.dst] = fromE(mkFp(F_EXT, I.w, toE(get(s, I.ops[0]), I.w2))); f.pc++; return;
  case Instruction::FPTrunc: if (I.w2 > 64) unsup(s, "long double"); f.regs[I.dst] = fromE(mkFp(F_TRUNC, I.w, toE(get(s, I.ops[0]), I.w2))); f.pc++; return;
  case Instruction::Select: {
    Val c = get(s, I.ops[0]);
    if (I.wid[0] != 1) unsup(s, "vector select");
    if (!c.e) { f.regs[I.dst] = get(s, I.ops[c.c ? 1 : 2]); f.pc++; return; }
    if (I.ty->isPointerTy() || !I.w) { bool b = branch(s, c.e); Frame &g = s.fr.back(); g.regs[I.dst] = get(s, I.ops[b ? 1 : 2]); g.pc++; return; }
    int k = lookupKnown(s, c.e);
    if (k >= 0) f.regs[I.dst] = get(s, I.ops[k ? 1 : 2]);
    else f.regs[I.dst] = fromE(mkIte(c.e, toE(get(s, I.ops[1]), I.w), toE(get(s, I.ops[2]), I.w)));
    f.pc++; return;
  }
  case Instruction::GetElementPtr: {
    Val p = get(s, I.ops[0]); uint64_t c = I.imm; E acc = nullptr;
    if (p.e && p.e->k == K_AGG) unsup(s, "vector gep");
    for (size_t i = 0; i < I.scale.size(); i++) {
      Val x = get(s, I.ops[i + 1]);
      if (!x.e) c += (uint64_t)sx(x.c, I.wid[i + 1]) * I.scale[i];
      else { E t = mkMul(I.wid[i + 1] < 64 ? mkSExt(x.e, 64) : x.e, mkConst(I.scale[i], 64)); acc = acc ? mkAdd(acc, t) : t; }
    }
    if (!acc && !p.e) f.regs[I.dst] = Val(p.c + c);
    else { // keep the base constant together so that region bits stay visible
      E r;
      if (!p.e) r = mkAdd(acc, mkConst(p.c + c, 64)); else { r = mkAdd(p.e, mkConst(c, 64)); if (acc) r = mkAdd(r, acc); }
      f.regs[I.dst] = fromE(r);
    }
    f.pc++; return;
  }
  case Instruction::Load: { Val v = loadT(s, get(s, I.ops[0]), I.ty); Frame &g = s.fr.back(); g.regs[I.dst] = v; g.pc++; return; }
  case Instruction::Store: { storeT(s, get(s, I.ops[1]), get(s, I.ops[0]), I.ty); s.fr.back().pc++; return; }
  case Instruction::Alloca: { uint64_t n = concretize(s, get(s, I.ops[0]), I.wid[0]); uint64_t a = allocObj(s, n * I.imm, OK_STACK, true); Frame &g = s.fr.back(); g.regs[I.dst] = Val(a); g.pc++; return; }
  case Instruction::Br: {
    if (I.ops.empty()) { take(s, I.edges[0]); return; }
    Val c = get(s, I.ops[0]); bool b = c.e ? branch(s, c.e) : c.c;
    take(s, I.edges[b ? 0 : 1]); return;
  }
  case Instruction::Switch: {
    Val c = get(s, I.ops[0]);
    for (size_t i = 0; i < I.cases.size(); i++) {
      bool hit = c.e ? branch(s, mkEq(c.e, mkConst(I.cases[i], I.wid[0]))) : c.c == I.cases[i];
      if (hit) { take(s, I.edges[i + 1]); return; }
    }
    take(s, I.edges[0]); return;
  }
  case Instruction::Ret: {
    Val v; bool has = !I.ops.empty(); if (has) v = get(s, I.ops[0]);
    popStack(s, f.stackBase); int rd = f.retDst; Inst *call = f.call; s.fr.pop_back();
    if (s.fr.empty() || !call) { if (s.fr.empty()) { endPath(s); throw PathEnd(); } return; }
    if (rd >= 0 && has) s.fr.back().regs[rd] = v;
    advance(s, *call); return;
  }
  case Instruction::Unreachable: failPath(s, "unreachable", "unreachable code executed");
  case Instruction::Call: case Instruction::Invoke: {
    std::vector<Val> args; args.reserve(I.ops.size());
    for (size_t i = 1; i < I.ops.size(); i++) args.push_back(get(s, I.ops[i]));
    if (I.intr) { if (!intrinsic(s, I, args)) unsup(s, "intrinsic " + I.callee->getName().str()); advance(s, I); return; }
    Function *F = I.callee;
    if (!F) {
      if (isa<InlineAsm>(cast<CallBase>(I.I)->getCalledOperand())) { if (cast<InlineAsm>(cast<CallBase>(I.I)->getCalledOperand())->getAsmString().empty()) { setr(s, I, args.empty() ? Val(0) : args[0]); advance(s, I); return; } 
        std::string as = cast<InlineAsm>(cast<CallBase>(I.I)->getCalledOperand())->getAsmString();
        if (as.rfind("rep stos", 0) == 0 && as.size() == 9 && args.size() == 3) { // zero-fill (value, count, pointer)
          uint64_t n = concretize(s, args[1], 64), p = concretize(s, args[2], 64), k = as[8] == 'b' ? 1 : as[8] == 'w' ? 2 : as[8] == 'l' ? 4 : 8;
          memSet(s, Val(p), Val(0), n * k); setr(s, I, Val(0, mkAgg({mkConst(0, 64), mkConst(p + n * k, 64)}))); advance(s, I); return;
        }
        unsup(s, "inline assembly"); }
      uint64_t a = concretize(s, get(s, I.ops[0]), 64);
      auto it = fnAt.find(a); if (it == fnAt.end()) failPath(s, "memory", a < 0x10000 ? "call through a null pointer" : "call through a wild pointer");
      F = it->second;
    }
    doCall(s, I, F, args); return;
  }
  case Instruction::LandingPad: { f.regs[I.dst] = Val(0, mkAgg({mkConst(s.notes[0], 64), mkConst(s.notes[1], 32)})); f.pc++; return; }
  case Instruction::Resume: {
    E ag = get(s, I.ops[0]).e; uint64_t o = (*ag->agg)[0]->u(); Obj *ob = objAt(s, o); (void)ob;
    uint64_t base = (o >> 32) << 32; s.cur.obj = base; s.cur.tinfo = s.excInfo[base].first; s.cur.active = true; unwind(s); return;
  }
  case Instruction::ExtractValue: {
    Val a = get(s, I.ops[0]); E e = a.e;
    for (uint64_t k : I.cases) { if (!e || e->k != K_AGG) unsup(s, "extractvalue"); e = (*e->agg)[k]; }
    f.regs[I.dst] = fromE(e); f.pc++; return;
  }
  case Instruction::InsertValue: {
    Val a = get(s, I.ops[0]); std::function<E(E, size_t)> ins = [&](E g, size_t d) -> E { if (d == I.cases.size()) return toE(get(s, I.ops[1]), I.wid[1]); std::vector<E> v = *g->agg; v[I.cases[d]] = ins(v[I.cases[d]], d + 1); return mkAgg(v); };
    if (!a.e) unsup(s, "insertvalue"); f.regs[I.dst] = Val(0, ins(a.e, 0)); f.pc++; return;
  }
  case Instruction::Fence: f.pc++; return;
  case Instruction::AtomicRMW: {
    Val p = get(s, I.ops[0]), v = get(s, I.ops[1]); Val o = loadScalar(s, p, I.w); Val n;
    switch (I.pred) {
    case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, v, I.w); break; case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, v, I.w); break;
    case AtomicRMWInst::And: n = binop(s, Instruction::And, o, v, I.w); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, v, I.w); break;
    default: unsup(s, "atomicrmw");
    }
    storeScalar(s, p, n, I.w); setr(s, I, o); s.fr.back().pc++; return;
  }
  case Instruction::AtomicCmpXchg: {
    unsigned w = I.wid[1]; Val p = get(s, I.ops[0]); Val o = loadScalar(s, p, w); E eq = mkEq(toE(o, w), toE(get(s, I.ops[1]), w));
    bool b = branch(s, eq); if (b) storeScalar(s, p, get(s, I.ops[2]), w);
    setr(s, I, Val(0, mkAgg({toE(o, w), b ? eTrue : eFalse}))); s.fr.back().pc++; return;
  }
  default: unsup(s, std::string("instruction ") + I.I->getOpcodeName());
  }
}

static void run(std::unique_ptr<State> st) {
  State &s = *st; nPaths++;
  try {
    uint64_t tick = 0;
    while (true) {
      step(s); s.instrs++; nInstr++;
      if (s.instrs > pathLimit) failPath(s, "bound", "path exceeds the instruction limit (possible non-termination)");
      if ((++tick & 0xfff) == 0 && elapsed() > timeLimit) { timedOut = true; return; }
    }
  } catch (PathEnd &) {}
}

// ---------------------------------------------------------------- builtins
#define BI(name) static void name(State &s, Inst &I, std::vector<Val> &a)
static void ret(State &s, Inst &I, const Val &v) { setr(s, I, v); advance(s, I); }
static uint64_t heap(State &s, Inst &I, const Val &n, OKind k) {
  uint64_t sz = concretize(s, n, 64);
  if (sz > (1ULL << 28)) failPath(s, "memory", "huge allocation");
  return allocObj(s, sz, k, true);
}
BI(bNew) { uint64_t p = heap(s, I, a[0], OK_NEW); ret(s, I, Val(p)); }
BI(bNewArr) { uint64_t p = heap(s, I, a[0], OK_NEWARR); ret(s, I, Val(p)); }
BI(bMalloc) { uint64_t p = heap(s, I, a[0], OK_MALLOC); ret(s, I, Val(p)); }
BI(bCalloc) { uint64_t x = concretize(s, a[0], 64), y = concretize(s, a[1], 64); uint64_t p = heap(s, I, Val(x * y), OK_MALLOC); memSet(s, Val(p), Val(0), x * y); ret(s, I, Val(p)); }
static void release(State &s, const Val &pv, OKind k, const char *how) {
  uint64_t p = concretize(s, pv, 64); if (!p) return;
  Obj *o = objAt(s, p);
  if (!o) failPath(s, "memory", std::string(how) + " of a wild pointer");
  if (o->freed) failPath(s, "memory", std::string("double free: ") + how + " of a freed object");
  if (p & 0xffffffff) failPath(s, "memory", std::string(how) + " of an interior pointer");
  if (o->kind != k) failPath(s, "memory", std::string("mismatched release: ") + how + " of a " + kindName(o->kind) + " object");
  auto n = std::make_shared<Obj>(); n->base = o->base; n->size = o->size; n->kind = o->kind; n->freed = true;
  s.mem.set(p >> 32, n);
}
BI(bDelete) { release(s, a[0], OK_NEW, "delete"); ret(s, I, Val(0)); }
BI(bDeleteArr) { release(s, a[0], OK_NEWARR, "delete[]"); ret(s, I, Val(0)); }
BI(bFree) { release(s, a[0], OK_MALLOC, "free"); ret(s, I, Val(0)); }
BI(bRealloc) {
  uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); uint64_t q = heap(s, I, Val(n), OK_MALLOC);
  if (p) { Obj *o = objAt(s, p); if (!o || o->freed) failPath(s, "memory", "realloc of a freed object"); memCopy(s, Val(q), Val(p), std::min(n, o->size)); release(s, Val(p), OK_MALLOC, "realloc"); }
  ret(s, I, Val(q));
}
BI(bMemcpy) { uint64_t n = concretize(s, a[2], 64); memCopy(s, a[0], a[1], n); ret(s, I, a[0]); }
BI(bMemset) { uint64_t n = concretize(s, a[2], 64); Val v = a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : Val(a[1].c & 255); memSet(s, a[0], v, n); ret(s, I, a[0]); }
BI(bMemcmp) {
  uint64_t n = concretize(s, a[2], 64); auto x = bytesAt(s, a[0], n), y = bytesAt(s, a[1], n);
  E r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) r = mkIte(mkEq(x[i], y[i]), r, mkIte(mkUlt(x[i], y[i]), mkConst(~0u, 32), mkConst(1, 32)));
  ret(s, I, fromE(r));
}
BI(bExit) {
  uint64_t c = concretize(s, a[0], 32);
  if (s.expectExit == -2 || (s.expectExit >= 0 && s.expectExit != (int)c)) failPath(s, "exit", "process exit with code " + std::to_string((int)c));
  s.reached.push_back("exit" + std::to_string((int)c)); s.obs.push_back({"exit", mkConst(c, 32)});
  endPath(s); throw PathEnd();
}
BI(bAbort) { failPath(s, "abort", "abort/terminate called"); }
BI(bAssert) { failPath(s, "abort", "assertion failed: " + cstrAt(s, a[0])); }
BI(bNop) { ret(s, I, Val(0)); }
BI(bExcAlloc) { uint64_t n = concretize(s, a[0], 64); uint64_t p = allocObj(s, std::max<uint64_t>(n, 8), OK_EXC, true); ret(s, I, Val(p)); }
BI(bThrow) { s.cur.obj = concretize(s, a[0], 64); s.cur.tinfo = concretize(s, a[1], 64); s.cur.active = true; s.excInfo[s.cur.obj] = {s.cur.tinfo, a[2].e ? 0 : a[2].c};
  // the throwing call may itself be an invoke in the current frame
  Frame fake = s.fr.back(); fake.stackBase = s.mem.r[1].n; s.fr.push_back(fake); unwind(s); }
BI(bBeginCatch) { s.caught.push_back(concretize(s, a[0], 64)); ret(s, I, a[0]); }
BI(bEndCatch) { if (!s.caught.empty()) s.caught.pop_back(); ret(s, I, Val(0)); }
BI(bGetExc) { ret(s, I, a[0]); }
BI(bRethrow) { if (s.caught.empty()) failPath(s, "abort", "rethrow without exception"); uint64_t o = s.caught.back(); uint64_t base = (o >> 32) << 32; s.cur.obj = base; s.cur.tinfo = s.excInfo[base].first; Frame fake = s.fr.back(); fake.stackBase = s.mem.r[1].n; s.fr.push_back(fake); unwind(s); }
BI(bGuardAcq) { Val v = loadScalar(s, a[0], 8); if (v.e || v.c) { ret(s, I, Val(0)); return; } storeScalar(s, a[0], Val(1), 8); ret(s, I, Val(1)); }
BI(bDynCast) {
  uint64_t p = concretize(s, a[0], 64); if (!p) { ret(s, I, Val(0)); return; }
  uint64_t vt = concretize(s, loadScalar(s, Val(p), 64), 64); uint64_t top = loadScalar(s, Val(vt - 16), 64).c, ti = loadScalar(s, Val(vt - 8), 64).c; int64_t off = 0;
  if (derives(tiName(ti), tiName(a[2].c), &off)) ret(s, I, Val(p + top + off)); else ret(s, I, Val(0));
}
BI(bPureVirtual) { failPath(s, "abort", "pure virtual call"); }
// --- harness intrinsics
static std::string nameArg(State &s, const Val &v) { return cstrAt(s, v); }
BI(vpMake) { uint64_t n = concretize(s, a[1], 64); std::string nm = nameArg(s, a[2]); if (!n) { ret(s, I, Val(0)); return; }
  Val off; uint64_t id = resolve(s, a[0], n, "write", off); uint64_t co = concretize(s, off, 64); E v = freshInput(s, nm, 8 * n); Obj *o = s.mem.wr(id); symStore(o, co, n, v); ret(s, I, Val(0)); }
BI(vpU) { std::string nm = nameArg(s, a[0]); unsigned b = concretize(s, a[1], 32); E v = freshInput(s, nm, b); ret(s, I, fromE(mkZExt(v, 64))); }
BI(vpAssume) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(APInt(a[0].e->w, 0)))) : (a[0].c ? eTrue : eFalse); assume(s, c); ret(s, I, Val(0)); }
BI(vpCheck) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(APInt(a[0].e->w, 0)))) : (a[0].c ? eTrue : eFalse); check(s, c, "check", nameArg(s, a[1])); ret(s, I, Val(0)); }
BI(vpFail) { failPath(s, "check", nameArg(s, a[0])); }
BI(vpChoose) {
  uint64_t n = concretize(s, a[0], 32); std::string nm = nameArg(s, a[1]); int v;
  auto it = fixedChoices.find(nm + "#" + std::to_string(s.cnt[nm]));
  if (it == fixedChoices.end() && s.cnt[nm] == 0) it = fixedChoices.find(nm);
  if (it != fixedChoices.end()) { v = it->second; if (v >= (int)n) { nAssumed++; throw PathEnd(); } }
  else if (s.pending >= 0) { v = s.pending; s.pending = -1; }
  else { for (int k = (int)n - 1; k > 0; k--) { auto t = std::make_unique<State>(s); t->pending = k; nForks++; work.push_back(std::move(t)); } v = 0; }
  int k = s.cnt[nm]++; std::string full = nm + "#" + std::to_string(k);
  s.choices.push_back({full, v}); s.inputs.push_back({full, 32, mkConst(v, 32)});
  ret(s, I, Val(v));
}
BI(vpConc) { uint64_t v = concretize(s, a[0], 64); ret(s, I, Val(v)); }
BI(vpReach) { s.reached.push_back(nameArg(s, a[0])); ret(s, I, Val(0)); }
BI(vpObs) { s.obs.push_back({nameArg(s, a[0]), toE(a[1], 64)}); ret(s, I, Val(0)); }
BI(vpObsB) { uint64_t n = concretize(s, a[2], 64); auto b = bytesAt(s, a[1], n); E r = mkConst(0, 8); bool f = true; for (size_t i = n; i-- > 0;) { r = f ? b[i] : mkConcat(r, b[i]); f = false; } s.obs.push_back({nameArg(s, a[0]), r}); ret(s, I, Val(0)); }
BI(vpIsConc) { bool c = true; uint64_t n = concretize(s, a[1], 64); if (n) { auto b = bytesAt(s, a[0], n); for (E e : b) if (!e->isConst()) c = false; } ret(s, I, Val(c)); }
BI(vpMust) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(APInt(a[0].e->w, 0)))) : (a[0].c ? eTrue : eFalse); ret(s, I, Val(mustBe(s, c))); }
BI(vpBound) { std::string m = nameArg(s, a[0]); boundsHit[m]++; throw PathEnd(); }
BI(vpIte) { E c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(APInt(a[0].e->w, 0)))) : (a[0].c ? eTrue : eFalse); ret(s, I, fromE(mkIte(c, toE(a[1], 64), toE(a[2], 64)))); }
BI(vpExpectExit) { s.expectExit = (int)concretize(s, a[0], 32); ret(s, I, Val(0)); }
BI(vpExcLive) { ret(s, I, Val(s.caught.size())); }
// wide modular arithmetic: op(0 add,1 sub,2 mul,3 mod), operands of nb bytes, modulus n (nb bytes)
BI(vpModop) {
  int op = concretize(s, a[0], 32); uint64_t nb = concretize(s, a[5], 64);
  auto rd = [&](const Val &p) { auto b = bytesAt(s, p, nb); E r = b[nb - 1]; for (size_t i = nb - 1; i-- > 0;) r = mkConcat(r, b[i]); return r; };
  E x = rd(a[1]), n = rd(a[3]); E y = op == 3 ? nullptr : rd(a[2]); unsigned W = 8 * nb; E r;
  if (n->isConst() && n->c.getActiveBits() <= 120 && !n->c.isZero()) {
    U p = toU(n->c);
    if (op == 3) r = mkMod(x, p); else r = mkModOp(op, mkMod(x, p), mkMod(y, p), p);
    r = mkZExtOrTrunc(r, W);
  } else {
    E N = mkZExt(n, 2 * W), X = mkZExt(x, 2 * W), Y = y ? mkZExt(y, 2 * W) : nullptr;
    E t = op == 3 ? X : op == 0 ? mkAdd(X, Y) : op == 1 ? mkSub(mkAdd(X, N), mkURem(Y, N)) : mkMul(X, Y);
    r = mkExtract(mkURem(t, N), 0, W);
  }
  Val off; uint64_t id = resolve(s, a[4], nb, "write", off); uint64_t co = concretize(s, off, 64);
  storeAt(s, s.mem.wr(id), co, nb, fromE(r), W);
  ret(s, I, Val(0));
}
static void ufApply(State &s, const std::string &tag, const std::vector<E> &in, const std::vector<E> *fixedOut, const Val &outp, uint64_t on) {
  std::vector<E> out; 
  for (auto &u : s.ufs) if (u->tag == tag && u->out.size() == on && u->in == in) { out = u->out; break; }
  if (out.empty() && on) {
    E v = nullptr;
    if (fixedOut) out = *fixedOut; else { int k = s.cnt["uf:" + tag]++; v = mkVar("uf:" + tag + "#" + std::to_string(k), 8 * on); for (uint64_t i = 0; i < on; i++) out.push_back(mkExtract(v, 8 * i, 8)); }
    std::vector<E> cons;
    for (auto &u : s.ufs) if (u->tag == tag && u->out.size() == on && u->in.size() == in.size()) {
      E eq = eTrue; for (size_t i = 0; i < in.size() && eq != eFalse; i++) eq = mkAnd(eq, mkEq(in[i], u->in[i]));
      if (eq == eFalse) continue;
      E oe = eTrue; for (size_t i = 0; i < on; i++) oe = mkAnd(oe, mkEq(out[i], u->out[i]));
      cons.push_back(mkOr(mkNot(eq), oe));
    }
    for (E c : cons) assume(s, c);
    auto u = std::make_shared<UF>(); u->tag = tag; u->in = in; u->out = out; s.ufs.push_back(u);
  }
  Val off; uint64_t id = resolve(s, outp, on, "write", off); uint64_t co = concretize(s, off, 64);
  Obj *o = s.mem.wr(id);
  for (uint64_t i = 0; i < on; i++) storeAt(s, o, co + i, 1, fromE(out[i]), 8);
}
BI(vpUf) { // tag, in, len, out, outlen
  std::string tag = nameArg(s, a[0]); uint64_t n = concretize(s, a[2], 64), on = concretize(s, a[4], 64);
  auto in = bytesAt(s, a[1], n); ufApply(s, tag, in, nullptr, a[3], on); ret(s, I, Val(0));
}
BI(vpSha) { // alg(1,256), in, len, out, outlen, abstract
  uint64_t alg = concretize(s, a[0], 32), n = concretize(s, a[2], 64), on = concretize(s, a[4], 64); uint64_t abs = concretize(s, a[5], 32);
  auto in = bytesAt(s, a[1], n); bool conc = true; std::string b; for (E e : in) if (!e->isConst()) conc = false; else b += (char)e->u();
  std::vector<E> out; 
  if (conc && !abs) {
    uint8_t d[64];
    if (alg == 1) CryptoPP::SHA1().CalculateTruncatedDigest(d, std::min<size_t>(on, 20), (const uint8_t *)b.data(), b.size()); else CryptoPP::SHA256().CalculateTruncatedDigest(d, std::min<size_t>(on, 32), (const uint8_t *)b.data(), b.size());
    for (uint64_t i = 0; i < on; i++) out.push_back(mkConst(d[i], 8));
  }
  ufApply(s, alg == 1 ? "sha1" : "sha256", in, out.empty() ? nullptr : &out, a[3], on); ret(s, I, Val(0));
}
BI(vpWide) { // op (0 bit length, 1 trailing zeros), pointer, bytes
  int op = concretize(s, a[0], 32); uint64_t nb = concretize(s, a[2], 64);
  auto b = bytesAt(s, a[1], nb); E x = b[nb - 1]; for (size_t i = nb - 1; i-- > 0;) x = mkConcat(x, b[i]);
  unsigned w = x->w; E r;
  if (op == 0) { unsigned ab = std::max(1u, x->ab); E t = mkExtract(x, 0, ab); r = mkSub(mkConst(ab, 64), mkZExtOrTrunc(mkCtlz(t), 64)); if (ab == w && 0) r = nullptr; }
  else r = mkZExtOrTrunc(mkCttz(x), 64);
  ret(s, I, fromE(r));
}
static double dbl(const Val &v) { double d; memcpy(&d, &v.c, 8); return d; }
static Val dval(double d) { uint64_t c; memcpy(&c, &d, 8); return Val(c); }
template <double (*F)(double)> static void bMath1(State &s, Inst &I, std::vector<Val> &a) { if (a[0].e) { if ((void *)F == (void *)(double (*)(double))sqrt) { ret(s, I, fromE(mkFp(F_SQRT, 64, a[0].e))); return; } unsup(s, "symbolic argument of a math function"); } ret(s, I, dval(F(dbl(a[0])))); }
template <double (*F)(double, double)> static void bMath2(State &s, Inst &I, std::vector<Val> &a) { if (a[0].e || a[1].e) unsup(s, "symbolic argument of a math function"); ret(s, I, dval(F(dbl(a[0]), dbl(a[1])))); }
BI(vpPrint) { std::cerr << "vp: " << nameArg(s, a[0]) << " = " << (a[1].e ? toStr(a[1].e, 6) : std::to_string(a[1].c)) << "\n"; ret(s, I, Val(0)); }
BI(vpNote) { s.notes[concretize(s, a[0], 64) + 100] = concretize(s, a[1], 64); ret(s, I, Val(0)); }
BI(vpNoteGet) { auto it = s.notes.find(concretize(s, a[0], 64) + 100); ret(s, I, Val(it == s.notes.end() ? 0 : it->second)); }
BI(vpObjSize) { uint64_t p = concretize(s, a[0], 64); Obj *o = objAt(s, p); ret(s, I, Val(!o || o->freed ? ~0ULL : o->size - (p & 0xffffffff))); }

static void setupBuiltins() {
  auto &b = builtins;
  for (const char *n : {"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}) b[n] = bNew;
  for (const char *n : {"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}) b[n] = bNewArr;
  for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) b[n] = bDelete;
  for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) b[n] = bDeleteArr;
  b["malloc"] = bMalloc; b["calloc"] = bCalloc; b["realloc"] = bRealloc; b["free"] = bFree;
  b["memcpy"] = b["memmove"] = bMemcpy; b["memset"] = bMemset; b["memcmp"] = b["bcmp"] = bMemcmp;
  b["exit"] = b["_exit"] = b["_Exit"] = b["quick_exit"] = bExit; b["abort"] = b["_ZSt9terminatev"] = bAbort; b["__assert_fail"] = bAssert;
  for (const char *n : {"__cxa_atexit", "__cxa_thread_atexit", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_free_exception", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) b[n] = bNop;
  b["__cxa_allocate_exception"] = bExcAlloc; b["__cxa_throw"] = bThrow; b["__cxa_begin_catch"] = bBeginCatch; b["__cxa_end_catch"] = bEndCatch; b["__cxa_rethrow"] = bRethrow; b["__cxa_get_exception_ptr"] = bGetExc;
  b["__cxa_guard_acquire"] = bGuardAcq; b["__dynamic_cast"] = bDynCast; b["__cxa_pure_virtual"] = bPureVirtual;
  b["vp_make"] = vpMake; b["vp_u"] = vpU; b["vp_assume"] = vpAssume; b["vp_check"] = vpCheck; b["vp_fail"] = vpFail; b["vp_choose"] = vpChoose; b["vp_concretize"] = vpConc;
  b["vp_reach"] = vpReach; b["vp_observe"] = vpObs; b["vp_observe_bytes"] = vpObsB; b["vp_is_concrete"] = vpIsConc; b["vp_must"] = vpMust; b["vp_bound"] = vpBound; b["vp_ite"] = vpIte;
  b["vp_expect_exit"] = vpExpectExit; b["vp_modop"] = vpModop; b["vp_uf"] = vpUf; b["vp_sha"] = vpSha; b["vp_print"] = vpPrint; b["vp_wide"] = vpWide;
  b["sqrt"] = bMath1<sqrt>; b["exp"] = bMath1<exp>; b["log"] = bMath1<log>; b["log2"] = bMath1<log2>; b["log10"] = bMath1<log10>; b["floor"] = bMath1<floor>; b["ceil"] = bMath1<ceil>; b["fabs"] = bMath1<fabs>; b["round"] = bMath1<round>; b["lgamma"] = bMath1<lgamma>; b["pow"] = bMath2<pow>; b["fmod"] = bMath2<fmod>; b["vp_note"] = vpNote; b["vp_note_get"] = vpNoteGet; b["vp_objsize"] = vpObjSize; b["vp_live_exceptions"] = vpExcLive;
}

static void report(const std::string &out) {
  std::ostringstream o;
  o << "{\"failures\":[";
  for (size_t i = 0; i < failures.size(); i++) { auto &f = failures[i]; o << (i ? "," : "") << "{\"kind\":" << jstr(f.kind) << ",\"msg\":" << jstr(f.msg) << ",\"fn\":" << jstr(f.fn) << ",\"where\":" << jstr(f.where) << "," << f.json << "}"; }
  o << "],\"paths\":" << nPathsDone << ",\"states\":" << nPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr << ",\"assumed_out\":" << nAssumed << ",\"failed_paths\":" << nPathErr
    << ",\"pending\":" << work.size() + later.size() << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"unknown\":" << nUnknown << ",\"checks\":" << nChecks << ",\"checks_to_solver\":" << nChecksSolver
    << ",\"queries\":" << SV.st.queries << ",\"guesses\":" << SV.st.guesses << ",\"deferred\":" << SV.st.deferred << ",\"cache_hits\":" << SV.st.cacheHits << ",\"sat\":" << SV.st.sat << ",\"unsat\":" << SV.st.unsat << ",\"solver_s\":" << SV.st.seconds << ",\"max_query_s\":" << SV.st.maxq << ",\"exprs\":" << gNumExprs << ",\"wall_s\":" << elapsed();
  auto mp = [&](const char *n, const std::map<std::string, uint64_t> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &k : m) { o << (f ? "" : ",") << jstr(k.first) << ":" << k.second; f = false; } o << "}"; };
  mp("unsupported", unsupported); mp("reached", reachedAll); mp("bounds_hit", boundsHit);
  o << ",\"functions\":["; bool f = true; for (auto &r : repoFns) { o << (f ? "" : ",") << jstr(r); f = false; } o << "],\"samples\":[";
  f = true; for (auto &x : samples) { o << (f ? "" : ",") << x; f = false; } o << "]}\n";
  if (out.empty()) std::cout << o.str(); else { std::ofstream of(out); of << o.str(); }
}
// ---------------------------------------------------------------- main
int main(int argc, char **argv) {
  struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  std::string file, entry = "vp_main", out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") timeLimit = std::stod(nx());
    else if (a == "--fix") { std::string x = nx(); size_t p = x.find('='); fixedChoices[x.substr(0, p)] = atoi(x.c_str() + p + 1); }
    else if (a == "--path-limit") pathLimit = std::stoull(nx()); else if (a == "--qtimeout") SV.timeoutMs = atoi(nx().c_str());
    else if (a == "--samples") maxSamples = atoi(nx().c_str()); else if (a == "--seed") { uint64_t sd = std::stoull(nx()); rng.seed(sd); SV.seed = sd; }
    else if (a == "--max-failures") maxFailures = atoi(nx().c_str()); else if (a == "-v") verbose = true; else if (a == "--repo") repoPrefix = nx();
    else file = a;
  }
  T0 = std::chrono::steady_clock::now();
  initExprs(); SV.init(); setupBuiltins();
  eUninit = mkVar("!uninit", 8);
  SMDiagnostic err; M = parseIRFile(file, err, LC);
  if (!M) { err.print("exec", errs()); return 3; }
  DL = &M->getDataLayout();
  auto st = std::make_unique<State>();
  st->model = std::make_shared<Model>(); st->epoch = newEpoch();
  uint64_t fa = 0x10000;
  for (auto &F : *M) { if (F.isDeclaration() && F.hasExternalWeakLinkage()) { gaddr[&F] = 0; continue; } gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    if (g.isDeclaration() && g.hasExternalWeakLinkage()) { gaddr[&g] = 0; continue; }
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
    if (g.isDeclaration() && sz < 512) sz = 512;
    uint64_t a = allocObj(*st, sz, OK_GLOBAL, false); gaddr[&g] = a; gvAt[a] = &g; st->mem.get(a >> 32)->name = g.getName().str();
  }
  for (auto &g : M->globals()) if (g.hasInitializer() && gaddr.count(&g)) { Obj *o = st->mem.get(gaddr[&g] >> 32); initConst(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
  Function *F = M->getFunction(entry);
  if (!F || F->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 3; }
  pushFrame(*st, F, std::vector<Val>(F->arg_size(), Val(0)), -1, nullptr);
  // constructors run before the entry: push them on top, last first
  if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<int64_t, Function *>> v;
    for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getSExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
    for (size_t i = v.size(); i-- > 0;) pushFrame(*st, v[i].second, {}, -1, nullptr);
  }
  work.push_back(std::move(st));
  std::thread([out] { // ends queries and runs that do not keep to the time limit
    while (true) {
      std::this_thread::sleep_for(std::chrono::seconds(1));
      if (elapsed() > timeLimit + 2) Z3_interrupt(SV.ctx);
      if (elapsed() > timeLimit + 15) { timedOut = true; report(out); fflush(nullptr); _exit(0); }
    }
  }).detach();
  while ((!work.empty() || !later.empty()) && failures.size() < maxFailures) {
    if (elapsed() > timeLimit) { timedOut = true; break; }
    if (work.empty()) { work.push_back(std::move(later.front())); later.erase(later.begin()); }
    auto s = std::move(work.back()); work.pop_back();
    run(std::move(s));
    if (timedOut) break;
  }
  report(out);
  fflush(nullptr); _exit(0);
}

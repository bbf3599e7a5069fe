#pragma once
#include "expr.h"
#include <z3.h>
enum Res { R_SAT, R_UNSAT, R_UNKNOWN };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, guesses = 0, deferred = 0, modelHits = 0; double seconds = 0; double maxq = 0; };
struct Solver {
  Z3_context ctx; SolverStats st; unsigned timeoutMs = 60000; unsigned seed = 1, shortMs = 2000;
  std::unordered_map<std::string, std::pair<Res, std::shared_ptr<Model>>> cache;
  void init();
  Z3_ast tr(E e);
  // satisfiability of the conjunction; fills model of the variables occurring
  Res check(const std::vector<E> &cons, Model *out);
  // satisfiable(cons && q), sliced on shared variables; on SAT 'base' is updated on the slice's variables
  // with a hint (a model of cons): only a short attempt, followed by guesses near the hint
  Res checkSliced(const std::vector<E> &cons, E q, Model *out, const Model *hint = nullptr);
  Res guess(const std::vector<E> &sl, const Model &base, Model *out, double seconds);
};

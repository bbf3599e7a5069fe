// Root finding: what is reported against the roots of the interpolated polynomials.
#include <zzppoly.h>
#include "h.h"
using namespace NTL;
#ifdef WIDEFIELD
// A large field: polynomials given by their roots. Padded and other roots, repeated ones, a factor without roots.
static const Num P = MODP;
static vec_ZZ_p hints;
extern "C" int vp_main() {
  field(P); long pad = PAD; vp_hint_rest = 1;
  ZZpPolynomials z((size_t)pad);
  static const int kinds[][3] = {{1, 0, 0}, {2, 0, 0}, {1, 1, 0}, {0, 2, 0}, {1, 0, 1}, {2, 1, 0}, {3, 0, 0}, {0, 1, 1}, {2, 0, 1}}; // padded, unpadded, factors x^2 - c without roots
  size_t n = 1 + (size_t)vp_choose(NP, "n"); vec_ZZ_p x, *y = new vec_ZZ_p[n]; Num u[NP][3]; const int *k[NP];
  x.SetLength(D); for (int i = 0; i < D; i++) x[i] = elem((Num)i * i + 3 * i);
  ZZ_p c; c = elem(NONRESIDUE);
  for (size_t j = 0; j < n; j++) {
    k[j] = kinds[vp_choose(KINDS, "kind")]; vec_ZZ_p r;
    for (int i = 0; i < k[j][0]; i++) { u[j][i] = numOf("root", BITS); append(r, elem(u[j][i] << pad)); }
    for (int i = 0; i < k[j][1]; i++) { Num v = below("other", P); vp_assume((v & (((Num)1 << pad) - 1)) != 0); append(r, elem(v)); }
    y[j].SetLength(D);
    for (int i = 0; i < D; i++) { ZZ_p v = elem(j ? 1 : 5); for (long l = 0; l < r.length(); l++) v *= x[i] - r[l]; if (k[j][2]) v *= x[i] * x[i] - c; y[j][i] = v; }
    for (long l = 0; l < r.length(); l++) append(hints, r[l]);
  }
  vp_hint_roots = hints.elts(); vp_hint_count = hints.length();
  vec_ZZ r; int variant = vp_choose(2, "variant");
  if (variant) { z.interpolate(x, y, n); z.factorise(PFA_BERLEKAMP); r = z.findIntersection(); } else r = z.findIntersection(x, y, n);
  vp_hint_count = 0;
  // once per polynomial
  long len = (long)vp_concretize((unsigned long)r.length()), sum = 0;
  for (size_t j = 0; j < n; j++) for (int i = 0; i < k[j][0]; i++) {
    long want = 0, have = 0; bool first = true, known = false;
    for (size_t a = 0; a < n; a++) { bool in = false; for (int b = 0; b < k[a][0]; b++) { in = vp_or(in, u[a][b] == u[j][i]); } want += in; }
    for (int b = 0; b < i; b++) first = vp_and(first, u[j][b] != u[j][i]);
    for (long l = 0; l < len; l++) { bool eq = num(r[l]) == u[j][i]; have += eq; known = vp_or(known, eq); }
    vp_check(have == want, "a number is reported once per polynomial that has its padded form as a root, and only then");
    sum += first;
  }
  vp_check(sum == len, "nothing else is reported");
  vp_reach("end");
  return 0;
}
#else
static const long P = PRIME;
static long inv(long a) { a %= P; if (a < 0) a += P; for (long b = 1; b < P; b++) if (a * b % P == 1) return b; return 0; }
struct Job { long x[D], y[NP][D]; size_t n; vec_ZZ_p vx, vy[NP]; };
static void make(Job &j, size_t n) {
  j.n = n; j.vx.SetLength(D);
  int set = D < P - 3 ? vp_choose(POINTS, "points") : 0;
  for (int i = 0; i < D; i++) { j.x[i] = set ? (i * i + 3 * i + 1) % P : i; j.vx[i] = elem(j.x[i]); }
  for (size_t k = 0; k < n; k++) {
    bool nz = false; j.vy[k].SetLength(D);
    for (int i = 0; i < D; i++) { j.y[k][i] = below("y", P); j.vy[k][i] = elem(j.y[k][i]); nz = vp_or(nz, j.y[k][i] != 0); }
    vp_assume(nz); // the zero polynomial has no factorisation
  }
}
// 1 if v is a root of the polynomial k of the job (Lagrange's formula)
static long root(const Job &j, size_t k, long v) {
  ZZ_p s; clear(s);
  for (int i = 0; i < D; i++) {
    long c = 1, d = 1;
    for (int l = 0; l < D; l++) if (l != i) { c = c * (((v - j.x[l]) % P + P) % P) % P; d = d * (((j.x[i] - j.x[l]) % P + P) % P) % P; }
    s += elem(c * inv(d) % P) * elem(j.y[k][i]);
  }
  return IsZero(s);
}
static void verify(const Job &j, const vec_ZZ &r, long pad) {
  long len = (long)vp_concretize((unsigned long)r.length()), sum = 0;
  for (long u = 0; (u << pad) < P; u++) {
    long want = 0, have = 0;
    for (size_t k = 0; k < j.n; k++) want += root(j, k, u << pad);
    for (long i = 0; i < len; i++) have += (long)(r[i] == u);
    vp_check(have == want, "a number is reported once per polynomial that has its padded form as a root, and only then");
    sum += have;
  }
  vp_check(sum == len, "nothing else is reported");
}
static void run(ZZpPolynomials &z, Job &j, long pad, int variant) {
  static const PolynomialFactoringAlgorithm fa[] = {PFA_CANZASS, PFA_BERLEKAMP, (PolynomialFactoringAlgorithm)9};
  // variants 0..2: one step with each algorithm, 3..4: step by step with two
  PolynomialFactoringAlgorithm a = fa[variant % 3];
  if (variant < 3) { verify(j, z.findIntersection(j.vx, j.vy, j.n, a), pad); vp_reach("one-step"); }
  else {
    if (variant == 3) { z.interpolate(j.vx, j.vy, j.n, false); z.makeMonic(); } else z.interpolate(j.vx, j.vy, j.n);
    vp_check(z.findIntersection().length() == 0, "without a factorisation nothing is reported");
    z.factorise(a); verify(j, z.findIntersection(), pad);
    verify(j, z.findIntersection(), pad);
    vp_reach("steps");
  }
  vp_check(z.size() == j.n, "the number of polynomials is that of the last interpolation");
  for (size_t k = 0; k < j.n; k++) for (int i = 0; i < D; i++) vp_check(vp_and(num(j.vy[k][i]) == j.y[k][i], num(j.vx[i]) == j.x[i]), "the evaluations are left alone");
}
extern "C" int vp_main() {
  field(P);
  long pad = 1 + vp_choose(PADS, "pad") ;
  ZZpPolynomials z((size_t)pad);
  vp_check(z.findIntersection().length() == 0, "a fresh object reports nothing");
  vp_check(z.size() == 0 && z.getPadsize() == (size_t)pad, "a fresh object is empty and keeps its pad size");
#if RUNS > 1
  static const int firsts[] = {0, 3, 4, 3, 1}, seconds[] = {3, 0, 3, 4, 2};
  int plan = vp_choose(5, "plan"), two = NP > 1 ? vp_choose(3, "two") : 0; // two polynomials in the first, the second or neither use
  Job first; make(first, two == 1 ? NP : 1); run(z, first, pad, firsts[plan]);
  Job second; make(second, two == 2 ? NP : 1); run(z, second, pad, seconds[plan]);
#else
  Job second; make(second, 1 + (size_t)vp_choose(NP, "n")); run(z, second, pad, vp_choose(5, "variant"));
#endif
  vp_reach("end");
  return 0;
}
#endif

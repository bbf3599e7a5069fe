// Whole runs: what the requester reports against the elements and the roots of the combined polynomials.
#include "proto.h"
static Dims d; static long pad;
// arbitrary digests: those of the run's key at the indexes of the set, those of other seeds from index 2 on; never those of the evaluation points
static int someDigests(const uint8_t *in, size_t n) { size_t i = in[n - 8]; return n == 24 ? i < 64 && ((ABSTRACT >> i) & 1) : in[0] != 4 && i >= 2; }
// the roots of the difference of the two answers, by Lagrange's formula
static long root(const Matrix &t, const Matrix &q, const std::vector<long> &x, size_t j, long v) {
  ZZ_p s; clear(s);
  for (size_t i = 0; i < d.D; i++) {
    long c = 1; for (size_t k = 0; k < d.D; k++) if (k != i) c = c * (((v - x[k]) % d.p + d.p) % d.p) % d.p * inverse(x[i] - x[k], d.p) % d.p;
    s += elem(c) * (elem(t[j][i]) - elem(q[j][i]));
  }
  return IsZero(s);
}
static size_t fill(TapClient &c, long *v) {
  size_t n = 1 + (size_t)vp_choose(ELEMS, "n"); ZZ *data = new ZZ[n];
  for (size_t i = 0; i < n; i++) { v[i] = (long)vp_u("element", BITS); data[i] = v[i]; for (size_t k = 0; k < i; k++) vp_assume(v[i] != v[k]); }
  for (size_t j = 0; j < d.L; j++) { size_t load = 0; for (size_t i = 0; i < n; i++) load += (size_t)(v[i] % (long)d.L == (long)j); vp_assume(load <= d.H); }
  c.setRawData(data, n, BITS); return n;
}
extern "C" int vp_main() {
  d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p);
  vp_sha_abstract = ABSTRACT != 0; vp_sha_filter = someDigests; vp_randombits_hook = keyBytes;
  pad = (long)NumBits(zz(d.p)) - BITS - 1;
  PlainHash hash(pad); HashBuckets<ZZ_p> ha(d.L, d.H, &hash), hb(d.L, d.H, &hash);
  TapClient alice(ha, d, "Alice", zz(0x610203)), bob(hb, d, "Bob", zz(0x0b0d)); TapServer cloud(d, "Cloud");
  acquaint({&alice, &bob, &cloud});
  long va[ELEMS], vb[ELEMS]; size_t na = fill(alice, va), nb = fill(bob, vb);
  bool order = vp_choose(2, "order"); // of the uploads
  if (order) { alice.send(cloud, upload(alice)); bob.send(cloud, upload(bob)); } else { bob.send(cloud, upload(bob)); alice.send(cloud, upload(alice)); }
  vp_check(bob.getIntersection().length() == 0, "nothing is reported before");
  bob.send(alice, request("Bob", bob.getSecret()));
  vp_check(bob.haveT && bob.haveQ, "the requester gets both answers");
  vec_ZZ r = bob.getIntersection(); long len = (long)vp_concretize((unsigned long)r.length()), sum = 0;
  vec_ZZ_p pts = bob.points(); std::vector<long> x; for (size_t i = 0; i < d.D; i++) { x.push_back(num(pts[i])); for (size_t k = 0; k < i; k++) vp_check(x[k] != x[i], "the evaluation points are distinct"); }
  for (long u = 0; (u << pad) < d.p; u++) {
    long want = 0, have = 0;
    for (size_t j = 0; j < d.L; j++) want += root(bob.gotT, bob.gotQ, x, j, u << pad);
    for (long i = 0; i < len; i++) have += (long)(r[i] == u);
    vp_check(have == want, "a number is reported once for each bucket whose combined polynomial has its padded form as a root, and only then");
    sum += have;
  }
  vp_check(sum == len, "nothing without the padding and nothing negative is reported");
  for (size_t i = 0; i < na; i++) {
    bool common = false; long have = 0;
    for (size_t k = 0; k < nb; k++) common = vp_or(common, va[i] == vb[k]);
    for (long k = 0; k < len; k++) have += (long)(r[k] == va[i]);
    vp_check(vp_or(!common, have >= 1), "every common element is reported");
    // twice only by chance: another bucket's combined polynomial
    long j = va[i] % (long)d.L, others = 0; for (size_t b = 0; b < d.L; b++) others += vp_ite(j == (long)b, 0, (uint64_t)root(bob.gotT, bob.gotQ, x, b, va[i] << pad));
    vp_check(vp_or(!common, have == 1 + others), "exactly once, unless another bucket's masks happen to vanish there");
    if (common) vp_reach("common"); else vp_reach("different");
  }
  vp_check(alice.getIntersection().length() == 0, "the delegate learns nothing");
  for (size_t i = 0; i < na; i++) vp_check(alice.getRawData()[i] == va[i], "raw data are left alone");
  vp_reach("end");
  return 0;
}

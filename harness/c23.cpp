// Uploads: the bucket polynomials' values plus the secret's stream; evaluation points.
#include "proto.h"
#ifdef FAR
static int copied(const uint8_t *, size_t) { return 2; }
#endif
extern "C" int vp_main() {
  Dims d = {MODP, LEN, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p);
  vp_sha_abstract = 1;
#ifdef FAR
  vp_sha_filter = copied;
#elif FIXPOINTS
  vp_sha_filter = notPoints;
#endif
#ifdef EARLIER
  { // another field was in use before
    Dims e = {EARLIER, 1, LOAD, 2 * LOAD + 1}; field(e.p); TapServer other(e, "Other"); vec_ZZ_p o = other.points();
    for (size_t i = 0; i < e.D; i++) { ZZPRF prf; ZZ_p w; conv(w, prf.generate(zz(4), i, (size_t)NumBits(zz(e.p)))); vp_check(num(o[i]) == num(w), "the points are those of the earlier field"); }
    field(d.p);
  }
#endif
  int bits = BITS; long pad = (long)NumBits(zz(d.p)) - bits - 1;
  PlainHash hash(pad); HashBuckets<ZZ_p> hb(d.L, d.H, &hash);
  
#ifdef LONGSECRETS
#if LONGSECRETS == 2
  static const int sizes[] = {40, 63};
#else
  static const int sizes[] = {9, 17, 33};
#endif
#else
  static const int sizes[] = {0, 1, 2, 3, 5};
#endif
  size_t sl = (size_t)sizes[vp_choose(SECRETS, "seclen")];
  uint8_t sec[264]; if (sl) {
#if defined(LONGSECRETS) && LONGSECRETS == 2
    for (size_t i = 0; i < sl; i++) sec[i] = (uint8_t)(37 * i + 1); sec[sl - 1] = vp_choose(2, "top") ? 0x91 : 1;
#else
    vp_make(sec, sl, "secret");
#endif
    vp_assume(sec[sl - 1] != 0); }
  TapClient *c;
  if (vp_choose(2, "late")) { c = new TapClient(hb, d, "Alice", zz(77)); c->setSecret(ZZFromBytes(sec, (long)sl)); } else c = new TapClient(hb, d, "Alice", ZZFromBytes(sec, (long)sl));
  TapServer cloud(d, "Cloud");
  size_t n = 1 + (size_t)vp_choose(ELEMS, "n"); ZZ *data = new ZZ[n]; Num v[ELEMS];
  for (size_t i = 0; i < n; i++) {
#ifdef FAR
    v[i] = (Num)i + 1;
#else
    v[i] = numOf("element", bits);
#endif
    data[i] = zz(v[i]); for (size_t k = 0; k < i; k++) vp_assume(v[i] != v[k]); }
  // no bucket overflows
  for (size_t j = 0; j < d.L; j++) { size_t load = 0; for (size_t i = 0; i < n; i++) load += (size_t)(v[i] % (Num)d.L == (Num)j); vp_assume(load <= d.H); }
#ifdef THREADS
  c->setDegree(d.D + 2); c->setDegree(d.D);
  c->setRawData(data, n, (size_t)bits, (unsigned)vp_choose(THREADS, "threads"));
#else
  c->setRawData(data, n, (size_t)bits);
#endif
  vp_check(c->getBlindedDataSize() == d.L * d.D, "one value for each bucket and point");
  // the points
  vec_ZZ_p x = c->points(), y = cloud.points();
  vp_check(x.length() == (long)d.D && y.length() == (long)d.D, "as many points as asked for");
  for (size_t i = 0; i < d.D; i++) {
    vp_check(num(x[i]) == num(y[i]), "all parties use the same points");
    ZZPRF prf; ZZ_p e; conv(e, prf.generate(zz(4), i, (size_t)NumBits(zz(d.p))));
    vp_check(num(x[i]) == num(e), "the points are those of the field");
  }
  // the upload
  vec_ZZ_p *b = c->getBlindedData(); ZZpPRF prf(zz(d.p)); ZZ_p seed; conv(seed, ZZFromBytes(sec, (long)sl));
  size_t index = 0;
  for (size_t j = 0; j < d.L; j++) {
    MarkedVector<ZZ_p> m = hb.getBucket(j);
    vp_check(m.size() == d.H, "every bucket is full");
    vp_check(b[j].length() == (long)d.D, "one value for each point");
    for (size_t i = 0; i < n; i++) {
      bool here = v[i] % (Num)d.L == (Num)j, in = false;
      for (size_t k = 0; k < d.H; k++) in = vp_or(in, num(m[k]) == (v[i] << pad));
      vp_check(vp_or(!here, in), "each element is a root of its bucket's polynomial");
    }
    for (size_t i = 0; i < d.D; i++) {
      ZZ_p want = product(m, x[i]) + prf.generate(seed, index++, (size_t)NumBits(zz(d.p)));
      vp_check(num(b[j][i]) == num(want), "each value is the polynomial's plus that of the secret's stream at its own position");
    }
  }
  vp_check(c->getRawData() == data && c->getRawDataSize() == n, "the raw data are those given");
  for (size_t i = 0; i < n; i++) vp_check(data[i] == zz(v[i]), "and left alone");
  delete c;
  vp_reach("end");
  return 0;
}

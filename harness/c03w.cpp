// The two answers over a large field: roots of many bits, arbitrary masks, either order of arrival.
#include "proto.h"
static Dims d;
static std::vector<Num> roots; static vec_ZZ_p hints;
extern "C" int vp_main() {
  d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p); vp_hint_rest = 1;
  long pad = (long)NumBits(zz(d.p)) - BITS - 1; PlainHash hash(pad); HashBuckets<ZZ_p> h(d.L, d.H, &hash);
  TapClient a(h, d, "A", zz(0x610203)); Mute cloud(EOPSI_PARTY_SERVER, d, "Cloud"), peer(EOPSI_PARTY_CLIENT, d, "B"); acquaint({&a, &cloud, &peer});
  ZZ *data = new ZZ[1]; data[0] = 5; a.setRawData(data, 1, BITS); vec_ZZ_p x = a.points();
  for (int run = 0; run < RUNS; run++) {
    vec_ZZ before = a.getIntersection(); roots.clear(); hints.SetLength(0);
    vec_ZZ_p *t = new vec_ZZ_p[d.L], *q = new vec_ZZ_p[d.L];
    for (size_t j = 0; j < d.L; j++) {
      static const int kinds[][2] = {{1, 0}, {2, 0}, {1, 1}, {0, 2}}; const int *k = kinds[vp_choose(j || run ? 2 : 4, "kind")]; vec_ZZ_p r; // padded, unpadded
      for (int i = 0; i < k[0]; i++) { Num v = numOf("root", BITS); roots.push_back(v); append(r, elem(v << pad)); }
      for (int i = 0; i < k[1]; i++) { Num v = below("other", d.p); vp_assume((v & (((Num)1 << pad) - 1)) != 0); append(r, elem(v)); }
      for (long i = 0; i < r.length(); i++) append(hints, r[i]);
      t[j].SetLength((long)d.D); q[j].SetLength((long)d.D);
      for (size_t i = 0; i < d.D; i++) { q[j][i] = elem(below("mask", d.p)); ZZ_p v = elem(7); for (long l = 0; l < r.length(); l++) v *= x[i] - r[l]; t[j][i] = q[j][i] + v; }
    }
    for (size_t i = 0; i < roots.size(); i++) for (size_t k = 0; k < i; k++) vp_assume(roots[i] != roots[k]);
    vp_hint_roots = hints.elts(); vp_hint_count = hints.length();
    EOPSIMessage mt(t, 1, EOPSI_MESSAGE_OUTPUT_COMPUTATION), mq(q, 1, EOPSI_MESSAGE_POLYNOMIAL); mt.setPartyId("Cloud"); mq.setPartyId("B");
    bool first = vp_choose(2, "first");
    if (first) cloud.send(a, &mt); else peer.send(a, &mq);
    vec_ZZ between = a.getIntersection(); vp_check(between.length() == before.length(), "nothing is reported after the first answer");
    for (long i = 0; i < before.length(); i++) vp_check(between[i] == before[i], "and the earlier result is left alone");
    if (first) peer.send(a, &mq); else cloud.send(a, &mt);
    vp_hint_count = 0;
    vec_ZZ r = a.getIntersection(); long len = (long)vp_concretize((unsigned long)r.length());
    vp_check(len == (long)roots.size(), "the result is that of the two answers, in either order");
    for (Num v : roots) { long have = 0; for (long i = 0; i < len; i++) have += (long)(num(r[i]) == v); vp_check(have == 1, "each padded root is reported once"); vp_reach("result"); }
  }
  vp_reach("end");
  return 0;
}

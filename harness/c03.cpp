// The two answers in either order: nothing is reported or released before both are there, and the order does not matter.
#include "run.h"
static Dims d;
struct Answers { vec_ZZ_p *t, *q; Matrix mt, mq; };
static vec_ZZ_p *array(const Matrix &m) { vec_ZZ_p *v = new vec_ZZ_p[d.L]; for (size_t j = 0; j < d.L; j++) { v[j].SetLength((long)d.D); for (size_t i = 0; i < d.D; i++) v[j][i] = elem(m[j][i]); } return v; }
static Answers make() {
  Answers a; a.mt.resize(d.L); a.mq.resize(d.L);
  for (size_t j = 0; j < d.L; j++) {
    bool nz = false;
    for (size_t i = 0; i < d.D; i++) {
      size_t k = j * d.D + i;
      a.mt[j].push_back((SYMT >> k) & 1 ? below("t", d.p) : (long)(5 * i + 3 * j + 1) % d.p); a.mq[j].push_back((SYMQ >> k) & 1 ? below("q", d.p) : (long)(2 * i + j) % d.p);
      nz = vp_or(nz, a.mt[j][i] != a.mq[j][i]);
    }
    vp_assume(nz); // the zero polynomial has no factorisation
  }
  a.t = array(a.mt); a.q = array(a.mq); return a;
}
static std::vector<long> result(TapClient &c) { vec_ZZ v = c.getIntersection(); std::vector<long> r; long n = (long)vp_concretize((unsigned long)v.length()); for (long k = 0; k < n; k++) r.push_back(num(v[k])); return r; }
static TapClient *client() {
  static PlainHash hash((long)NumBits(zz(d.p)) - BITS - 1);
  TapClient *c = new TapClient(*new HashBuckets<ZZ_p>(d.L, d.H, &hash), d, "A", zz(partySecrets[0]));
  ZZ *data = new ZZ[d.L * d.H]; for (size_t k = 0; k < d.L * d.H; k++) data[k] = (long)k;
  c->setRawData(data, d.L * d.H, BITS); return c;
}
static std::vector<long> deliver(TapClient &c, Answers &a, bool cloudFirst, Mute &cloud, Mute &peer) {
  std::vector<long> before = result(c);
  EOPSIMessage mt(a.t, 1, EOPSI_MESSAGE_OUTPUT_COMPUTATION), mq(a.q, 1, EOPSI_MESSAGE_POLYNOMIAL); mt.setPartyId("Cloud"); mq.setPartyId("B");
#ifdef REPEAT
  { // the same answer has come before
    EOPSIMessage again(array(cloudFirst ? a.mt : a.mq), 1, cloudFirst ? EOPSI_MESSAGE_OUTPUT_COMPUTATION : EOPSI_MESSAGE_POLYNOMIAL); again.setPartyId(cloudFirst ? "Cloud" : "B");
    if (cloudFirst) cloud.send(c, &again); else peer.send(c, &again);
    vp_check(result(c).size() == before.size(), "nothing is reported after the first answer");
  }
#endif
  size_t sent = events.size();
  if (cloudFirst) cloud.send(c, &mt); else peer.send(c, &mq);
  std::vector<long> between = result(c);
  vp_check(between.size() == before.size(), "nothing is reported after the first answer");
  for (size_t k = 0; k < before.size(); k++) vp_check(between[k] == before[k], "and the earlier result is left alone");
  vp_check(vp_objsize(a.t) != ~(size_t)0 && vp_objsize(a.q) != ~(size_t)0, "nothing is released after the first answer");
  Matrix nt = matrix(a.t, d), nq = matrix(a.q, d);
  for (size_t j = 0; j < d.L; j++) for (size_t i = 0; i < d.D; i++) vp_check(vp_and(nt[j][i] == a.mt[j][i], nq[j][i] == a.mq[j][i]), "the answers are left alone");
  if (cloudFirst) peer.send(c, &mq); else cloud.send(c, &mt);
  vp_check(events.size() == sent + 2, "a client that gets answers sends nothing");
  return result(c);
}
extern "C" int vp_main() {
  d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p);
  Mute cloud(EOPSI_PARTY_SERVER, d, "Cloud"), peer(EOPSI_PARTY_CLIENT, d, "B");
  TapClient *one = client(), *two = client();
  acquaint({one, &cloud, &peer}); acquaint({two, &cloud, &peer});
  bool first = vp_choose(2, "first");
  for (int round = 0; round < ROUNDS; round++) {
    Answers a = make(), b = a; b.t = array(a.mt); b.q = array(a.mq);
    bool order = round == 0 ? first : vp_choose(2, "order");
    std::vector<long> x = deliver(*one, a, order, cloud, peer), y = deliver(*two, b, !order, cloud, peer);
    sameSet(x, y, "the result does not depend on the order of the answers");
    // reported once both are there: what the roots are is C18's and C01's business, but here, too, none may be missing
    long pad = (long)NumBits(zz(d.p)) - BITS - 1; vec_ZZ_p pts = one->points();
    for (long u = 0; (u << pad) < d.p; u++) {
      long want = 0;
      for (size_t j = 0; j < d.L; j++) {
        ZZ_p s; clear(s); long v = u << pad;
        for (size_t i = 0; i < d.D; i++) {
          long c = 1; for (size_t k = 0; k < d.D; k++) if (k != i) { long xi = num(pts[i]), xk = num(pts[k]); c = c * (((v - xk) % d.p + d.p) % d.p) % d.p * inverse(xi - xk, d.p) % d.p; }
          s += elem(c) * (elem(a.mt[j][i]) - elem(a.mq[j][i]));
        }
        want += (long)IsZero(s);
      }
      vp_check(count(x, u) == want, "the result is that of the two answers");
    }
    vp_reach("result");
  }
  vp_reach("end");
  return 0;
}

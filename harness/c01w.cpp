// Whole runs over a large field: elements of many bits, the common ones and those of one client only. Digests, keys and secrets are concrete.
#include "proto.h"
static Dims d;
static Num element(size_t j) { Num v = numOf("element", BITS); if (d.L > 1) vp_assume((v & (Num)(d.L - 1)) == (Num)j); return v; }
static void hinted(vec_ZZ_p &h) { static ZZ_p none; vp_hint_roots = h.elts(); vp_hint_count = h.length(); if (!h.length()) { none = 1; vp_hint_roots = &none; vp_hint_count = 1; } }
static void put(ZZ *a, size_t &n, Num v) { a[n++] = zz(v); }
extern "C" int vp_main() {
  d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p); vp_randombits_hook = keyBytes; vp_hint_rest = 1;
  long pad = (long)NumBits(zz(d.p)) - BITS - 1;
  PlainHash hash(pad); HashBuckets<ZZ_p> ha(d.L, d.H, &hash), hb(d.L, d.H, &hash);
  TapClient alice(ha, d, "Alice", zz(0x610203)), bob(hb, d, "Bob", zz(0x0b0d)); TapServer cloud(d, "Cloud");
  acquaint({&alice, &bob, &cloud});
  std::vector<Num> common; ZZ *a = new ZZ[d.L * d.H + 1], *b = new ZZ[d.L * d.H + 1]; size_t na = 0, nb = 0; std::vector<Num> all;
  for (size_t j = 0; j < d.L; j++) {
    int kind = vp_choose((int)d.H + 1, "common"), more = vp_choose(2, "more"); // common ones; one more element for each client
    for (int i = 0; i < kind; i++) { Num v = element(j); common.push_back(v); all.push_back(v); put(a, na, v); put(b, nb, v); }
    if (more && kind < (int)d.H) { Num v = element(j), w = element(j); all.push_back(v); all.push_back(w); put(a, na, v); put(b, nb, w); }
  }
  if (!na || !nb) vp_assume(false);
  for (size_t i = 0; i < all.size(); i++) for (size_t k = 0; k < i; k++) vp_assume(all[i] != all[k]);
  if (vp_choose(2, "backwards")) for (size_t i = 0; i < nb / 2; i++) std::swap(b[i], b[nb - 1 - i]);
  alice.setRawData(a, na, BITS); bob.setRawData(b, nb, BITS);
  alice.send(cloud, upload(alice)); bob.send(cloud, upload(bob));
  vec_ZZ_p hints; for (Num v : common) append(hints, elem(v << pad));
  vec_ZZ last[2];
  for (int run = 0; run < RUNS; run++) {
    bool swap = run && vp_choose(2, "swap"); TapClient &asks = swap ? alice : bob, &helps = swap ? bob : alice; keyCalls = run;
    asks.haveT = asks.haveQ = false; hinted(hints);
    asks.send(helps, request(asks.getId(), asks.getSecret())); vp_hint_count = 0;
    vp_check(asks.haveT && asks.haveQ, "the requester gets both answers");
    vec_ZZ r = asks.getIntersection(); long len = (long)vp_concretize((unsigned long)r.length());
    vp_check(len == (long)common.size(), "as many numbers are reported as there are common elements (but for chance roots)");
    for (Num v : common) { long have = 0; for (long i = 0; i < len; i++) have += (long)(num(r[i]) == v); vp_check(have == 1, "every common element is reported once"); vp_reach("common"); }
    vec_ZZ o = helps.getIntersection(); vp_check(o.length() == last[!swap].length(), "the delegate learns nothing"); // swap: alice asks, her results are last[1]
    last[swap] = r;
  }
  vp_reach("end");
  return 0;
}

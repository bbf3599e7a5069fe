// Whole runs of the protocol among three clients and a cloud over a small field; every bucket is full, so that nothing is left to chance.
#pragma once
#include "proto.h"
static const char *const partyIds[3] = {"A", "Bo", "C, a client"};
static const long partySecrets[3] = {0x610203, 0x0b0d, 0x7fffeeddccbbL};
struct World {
  Dims d; long bits, pad; PlainHash hash; std::vector<HashBuckets<ZZ_p> *> h; std::vector<TapClient *> c; TapServer *s;
  // values[i]: the elements of client i, d.H for each bucket
  World(const Dims &d, long bits, const std::vector<std::vector<long>> &values) : d(d), bits(bits), pad((long)NumBits(zz(d.p)) - bits - 1), hash(pad) {
    s = new TapServer(d, "Cloud");
    for (size_t i = 0; i < values.size(); i++) {
      h.push_back(new HashBuckets<ZZ_p>(d.L, d.H, &hash));
      c.push_back(new TapClient(*h[i], d, partyIds[i], zz(partySecrets[i])));
      ZZ *data = new ZZ[values[i].size()]; for (size_t k = 0; k < values[i].size(); k++) data[k] = values[i][k];
      c[i]->setRawData(data, values[i].size(), (size_t)bits);
    }
    std::vector<EOPSIParty *> all = {s}; for (auto x : c) all.push_back(x);
    acquaint(all);
  }
  void give(size_t i) { c[i]->send(*s, upload(*c[i])); }
  void run(size_t requester, size_t delegate, int key) { keyCalls = key; c[requester]->send(*c[delegate], request(c[requester]->getId(), c[requester]->getSecret())); }
  std::vector<long> result(size_t i) { vec_ZZ v = c[i]->getIntersection(); std::vector<long> r; long n = (long)vp_concretize((unsigned long)v.length()); for (long k = 0; k < n; k++) r.push_back(num(v[k])); return r; }
};
static inline long count(const std::vector<long> &v, long x) { long n = 0; for (long y : v) n += (long)(y == x); return n; }
static inline void sameSet(const std::vector<long> &a, const std::vector<long> &b, const char *what) { vp_check(a.size() == b.size(), what); for (long x : a) vp_check(count(a, x) == count(b, x), what); }

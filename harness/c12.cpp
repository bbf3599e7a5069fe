// Hash buckets: placement, capacity, size; concealment.
#include <cmath>
#include <hashbuckets.hpp>
#include "h.h"
#include <vector>
using namespace NTL;
#ifdef BIG
static const long P = 1048583;
static const size_t SPOTS[] = {0, 128, 255, 256, 299, 300, 65536};
static bool spot(size_t i) { for (size_t s : SPOTS) if (s == i) return true; return false; }
#else
static const long P = 251;
static bool spot(size_t) { return true; }
#endif
// a hash function given by an arbitrary table
struct TableHash : HashAlgorithm<ZZ_p> {
  byte out[HS];
  byte *hash(ZZ_p n, const size_t = 0) { uint8_t in = (uint8_t)num(n); vp_uf("hash", &in, 1, out, HS); return out; }
  size_t hashSize() const { return HS; }
  std::string name() const { return "table"; }
};
struct OtherHash : HashAlgorithm<ZZ_p> {
  size_t n; byte out[HS + 1]; OtherHash(size_t n) : n(n) {}
  byte *hash(ZZ_p v, const size_t = 0) { uint8_t in = (uint8_t)num(v); vp_uf("other", &in, 1, out, (int)n); return out; }
  size_t hashSize() const { return n; }
  std::string name() const { return "other"; }
};
struct Source : PseudoRandom<ZZ_p, ZZ_p> { // a generator whose outputs can be told from the data
  long next = 100; std::vector<long> given;
  ZZ_p give() { long v = next++; given.push_back(v); return elem(v); }
  ZZ_p generate(const ZZ_p, const size_t, const size_t = 0) { return give(); }
  ZZ_p generate(const size_t, const size_t = 0) { return give(); }
  ZZ_p generate() { return give(); }
  ZZ_p randomSeed() { return elem(3); }
  ZZ_p defaultSeed() { return elem(5); }
};
typedef std::vector<std::vector<long>> Mirror;
static size_t total;
static void compare(HashBuckets<ZZ_p> &hb, const Mirror &m, bool order) {
  if (MODE == 1) return; // how elements are added is not the question
  for (size_t i = 0; i < m.size(); i++) {
    if (!spot(i)) continue;
    MarkedVector<ZZ_p> b = hb.getBucket(i);
    MarkedVector<ZZ_p> again = hb[i]; vp_check(again.size() == b.size(), "both ways to a bucket agree");
    for (size_t j = 0; j < b.size(); j++) vp_check(num(again[j]) == num(b[j]), "both ways to a bucket agree on its elements");
    vp_check(b.size() == m[i].size(), "each bucket holds as many elements as were put there");
    for (size_t j = 0; j < m[i].size(); j++) {
#ifdef BIG
      if (j > 0 && j + 2 < m[i].size()) continue; // the same
#endif
      if (order) { vp_check(num(b[j]) == m[i][j], "the elements keep their order"); continue; }
      long have = 0, want = 0;
      for (size_t l = 0; l < m[i].size(); l++) { have += num(b[l]) == m[i][j]; want += m[i][l] == m[i][j]; }
      vp_check(have == want, "each element is stored as often as it was added, in its bucket");
    }
  }
  vp_check(hb.size() == total, "the size is the number of elements added");
}
template <class F> static bool refused(F f) { // an error ends the process (code 1) or is thrown
  bool r = false;
  vp_expect_exit(1);
  try { f(); } catch (OutOfBoundException &) { r = true; }
  vp_expect_exit(-2);
  return r;
}
#ifdef LIST
extern "C" int vp_main() { // a long list
  field(P); TableHash h; size_t k = 1 + (size_t)vp_choose(2, "buckets"); HashBuckets<ZZ_p> *hb = new HashBuckets<ZZ_p>(k, LIST, &h); Mirror m(k); total = 0;
  uint64_t few = (uint64_t)vp_choose(3, "count"), n = few == 0 ? LIST : few == 1 ? 256 : 255;
  ZZ_p *list = new ZZ_p[n]; long v[LIST]; static const size_t marks[] = {254, LIST - 1};
  for (size_t i = 0; i < n; i++) { v[i] = (long)(i % 64); for (size_t s : marks) if (s == i) v[i] = (long)vp_u("element", 6); list[i] = elem(v[i]); }
  for (long u = 0; u < 64; u++) { ZZ_p e = elem(u); vp_assume(h.hash(e)[0] == (u & 1)); for (int b = 1; b < HS; b++) vp_assume(h.out[b] == 0); }
  HashTable<ZZ_p, MarkedVector<ZZ_p>> &t = *hb; t.add(list, n);
  vp_check(hb->size() == n, "the size is the number of elements added");
  long count[2] = {0, 0}; for (size_t j = 0; j < k; j++) { MarkedVector<ZZ_p> b = hb->getBucket(j); count[j] = (long)b.size(); for (size_t i = 0; i < b.size(); i++) if (k == 2) vp_check((num(b[i]) & 1) == (long)j, "each element is in its bucket"); }
  vp_check(count[0] + count[1] == (long)n, "every element is stored once");
  for (size_t s : marks) if (s < n) { long have = 0, want = 0; for (size_t i = 0; i < n; i++) want += v[i] == v[s]; for (size_t j = 0; j < k; j++) { MarkedVector<ZZ_p> b = hb->getBucket(j); for (size_t i = 0; i < b.size(); i++) have += num(b[i]) == v[s]; } vp_check(have == want, "each element is stored as often as it was added"); }
  vp_reach("end"); delete [] list; delete hb; return 0;
}
#else
extern "C" int vp_main() {
  field(P);
#ifdef BIG
  size_t k = 300, load = vp_choose(2, "load") ? BIG : 2;
#else
  size_t k = (size_t)vp_choose(K + 1, "buckets"), load = (size_t)vp_choose(LOAD + 1, "load");
#endif
  TableHash h; HashBuckets<ZZ_p> *hb;
#ifdef ANEW // another function was set before
  OtherHash other((size_t)(HS - 1 + vp_choose(3, "size"))); hb = new HashBuckets<ZZ_p>(k, load, &other); if (vp_choose(2, "null")) hb->setHashAlgorithm(nullptr); hb->setHashAlgorithm(&h);
#else
  bool late = vp_choose(2, "late");
  if (late) { hb = new HashBuckets<ZZ_p>(k, load); hb->setHashAlgorithm(&h); } else hb = new HashBuckets<ZZ_p>(k, load, &h);
#endif
  vp_check(hb->getLength() == k && hb->getMaxLoad() == load, "length and maximum load are those given");
  Mirror m(k); total = 0;
#ifdef BIG
  for (size_t i : {(size_t)0, (size_t)256}) for (size_t j = 0; j + 1 < load; j++) { hb->addToBucket(elem(7), i); m[i].push_back(7); total++; }
  for (int i = 0; i < ADDS; i++) {
    long v = (long)vp_u("element", 6); ZZ_p e = elem(v); size_t ix = SPOTS[vp_choose(7, "index")]; bool named = ix >= k || vp_choose(2, "named");
    if (!named) { // its hash value is one of those that lead there
      typedef unsigned __int128 Wide; static const Wide quot[] = {0, 61489146912365170, ((Wide)4021 << 64) / 300 + 123456789, ((Wide)1 << 64) * 218}; Wide want = ix + k * quot[vp_choose(4, "quotient")];
      byte *d = h.hash(e); bool eq = true; for (int b = 0; b < HS; b++) eq = vp_and(eq, d[b] == (uint8_t)(want >> (8 * b))); vp_assume(eq);
    }
    if (ix >= k || m[ix].size() >= load) { vp_reach("refused"); if (!refused([&] { if (named) hb->addToBucket(e, ix); else hb->add(e); })) if (MODE == 0) vp_fail("an addition to a full or missing bucket is refused"); }
    else { if (named) hb->addToBucket(e, ix); else hb->add(e); m[ix].push_back(v); total++; }
  }
  int n = 0;
#else
  int n = vp_choose(ADDS + 1, "adds");
#endif
  if (n && vp_choose(2, "list")) { // all of them by one call
    ZZ_p *list = new ZZ_p[n]; bool fits = true;
    for (int i = 0; i < n; i++) {
      long v = (long)vp_u("element", 6); list[i] = elem(v); if (!fits) continue;
      byte *d = h.hash(list[i]); ZZ z; ZZFromBytes(z, d, HS);
      size_t ix = k ? (size_t)vp_concretize((unsigned long)(z % (long)k)) : 0;
      if (ix >= k || m[ix].size() >= load) { fits = false; continue; }
      m[ix].push_back(v); total++;
    }
    HashTable<ZZ_p, MarkedVector<ZZ_p>> &t = *hb;
    if (fits) t.add(list, (size_t)n); else if (!refused([&] { t.add(list, (size_t)n); })) if (MODE == 0) vp_fail("an addition to a full or missing bucket is refused");
    compare(*hb, m, false); n = 0; delete [] list; vp_reach("list");
  }
  for (int i = 0; i < n; i++) {
    long v = (long)vp_u("element", 6); ZZ_p e = elem(v);
    size_t ix; bool named = vp_choose(2, "named");
    if (named) ix = (size_t)vp_concretize(below("index", (long)k + 2));
    else {
      byte *d = h.hash(e); ZZ z; ZZFromBytes(z, d, HS);
      ix = k ? (size_t)vp_concretize((unsigned long)(z % (long)k)) : 0;
    }
    if (ix >= k || m[ix].size() >= load) {
      vp_reach("refused");
      if (!refused([&] { if (named) hb->addToBucket(e, ix); else hb->add(e); })) if (MODE == 0) vp_fail("an addition to a full or missing bucket is refused");
      compare(*hb, m, false);
    } else {
      if (named) hb->addToBucket(e, ix); else hb->add(e);
      m[ix].push_back(v); total++;
    }
  }
#if MODE == 0
  compare(*hb, m, false);
  vp_reach("end");
  if (!refused([&] { hb->getBucket(k); })) vp_fail("a bucket that does not exist is refused");
#else
  m.assign(k, {}); for (size_t i = 0; i < k; i++) { MarkedVector<ZZ_p> b = hb->getBucket(i); vp_assume(b.size() <= load); for (size_t j = 0; j < b.size(); j++) m[i].push_back(num(b[j])); }
  Source src;
  hb->conceal(src);
  std::vector<bool> used(src.given.size());
  for (size_t i = 0; i < k; i++) {
    MarkedVector<ZZ_p> b = hb->getBucket(i);
    vp_check(b.size() == load, "every bucket is filled to the maximum load");
    for (size_t j = 0; j < m[i].size(); j++) vp_check(num(b[j]) == m[i][j], "the original elements come first and in order");
    for (size_t j = m[i].size(); j < load; j++) {
      size_t g = (size_t)num(b[j]) - 100;
      vp_check(g < used.size(), "the rest comes from the generator");
      g = (size_t)vp_concretize(g);
      vp_check(!used[g], "no generated value is used twice"); used[g] = true;
    }
    vp_check(b.isMarked() == m[i].empty(), "exactly the buckets that were empty are marked");
  }
  vp_reach("end");
  if (k && load) { ZZ_p e = elem(1); if (!refused([&] { hb->addToBucket(e, 0); })) vp_fail("a concealed table is full"); }
#endif
  delete hb;
  return 0;
}
#endif

// Murmur hashing against the published x64 128-bit function.
#include "h.h"
#include "decimal.h"
#include <murmurhash3.h>
#include <cstring>
using namespace NTL;
// ---- the published function, byte by byte
static uint64_t rot(uint64_t x, int r) { return x << r | x >> (64 - r); }
static uint64_t le64(const uint8_t *d, long n) { uint64_t v = 0; for (long i = 0; i < n; i++) v |= (uint64_t)d[i] << (8 * i); return v; }
static uint64_t mix(uint64_t k) { k ^= k >> 33; k *= 0xff51afd7ed558ccdULL; k ^= k >> 33; k *= 0xc4ceb9fe1a85ec53ULL; k ^= k >> 33; return k; }
static void ref(const uint8_t *d, long len, uint32_t seed, uint64_t out[2]) {
  const uint64_t c1 = 0x87c37b91114253d5ULL, c2 = 0x4cf5ad432745937fULL;
  uint64_t h1 = seed, h2 = seed, k1, k2; long i = 0;
  for (; i + 16 <= len; i += 16) {
    k1 = le64(d + i, 8) * c1; k1 = rot(k1, 31) * c2; h1 ^= k1; h1 = rot(h1, 27) + h2; h1 = h1 * 5 + 0x52dce729;
    k2 = le64(d + i + 8, 8) * c2; k2 = rot(k2, 33) * c1; h2 ^= k2; h2 = rot(h2, 31) + h1; h2 = h2 * 5 + 0x38495ab5;
  }
  long r = len - i;
  if (r > 8) { k2 = le64(d + i + 8, r - 8) * c2; k2 = rot(k2, 33) * c1; h2 ^= k2; }
  if (r > 0) { k1 = le64(d + i, r < 8 ? r : 8) * c1; k1 = rot(k1, 31) * c2; h1 ^= k1; }
  h1 ^= (uint64_t)len; h2 ^= (uint64_t)len; h1 += h2; h2 += h1; h1 = mix(h1); h2 = mix(h2); h1 += h2; h2 += h1;
  out[0] = h1; out[1] = h2;
}
#ifdef BIGINT
#define MODBITS 2100
#else
#define MODBITS 500
#endif
extern "C" int vp_main() {
  vp_decimal_hook = decimal;
  ZZ m = pow2(MODBITS) + 1L; ZZ_p::init(m);
  uint32_t seed = (uint32_t)vp_u("seed", 32);
  MurmurHash3 h(seed);
  vp_check(h.hashSize() == 16, "the digest has 16 bytes");
  int prior = vp_choose(2, "prior");
  if (prior) { Dec *p = make("prior", PRIOR); h.hash(asElem(p->z), (size_t)vp_choose(2, "priorlen")); }
#ifdef LENS
  static const long lens[] = {LENS}; long n = lens[vp_choose((int)(sizeof(lens) / sizeof(*lens)), "digits")];
#else
  long n = LO + vp_choose(LEN - LO + 1, "digits");
#endif
  Dec *x = make("number", n);
  long want[] = {0, 1, n - 1, n, n + 1, 3 * n, n / 2}; long len = want[vp_choose(7, "len")];
  if (len < 0) len = 0;
  uint64_t e[2]; ref(x->d, len > 0 && len < n ? len : n, seed, e);
  ZZ_p el = asElem(x->z);
  const uint8_t *r = h.hash(el, (size_t)len);
  uint64_t g[2]; memcpy(g, r, 16);
  vp_check(g[0] == e[0] && g[1] == e[1], "the digest is the published function of the decimal text");
  MurmurHash3 k(seed); r = k.hash(el, (size_t)len); memcpy(g, r, 16);
  vp_check(g[0] == e[0] && g[1] == e[1], "another hasher with that seed agrees");
  vp_check(rep(el) == x->z, "the number is left alone");
  { // without a given seed: one of its own, for life
    vp_rand_symbolic = 1; MurmurHash3 own; uint64_t a[2], b[2]; memcpy(a, own.hash(el, (size_t)len), 16);
    if (prior) own.hash(asElem(nums[0]->z)); memcpy(b, own.hash(el, (size_t)len), 16);
    vp_check(a[0] == b[0] && a[1] == b[1], "a hasher with a seed of its own keeps it");
  }
  vp_observe("h1", g[0]);
  vp_reach("end");
  return 0;
}

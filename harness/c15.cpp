// SHA hashers against the library's SHA functions of exactly the given bytes (digests are uninterpreted functions of their input).
#include "decimal.h"
#include <shabyte.h>
#include <shastr.h>
#include <shazzp.h>
#include <cryptopp/sha.h>
struct Exact { // heap copies, so that reads beyond the given bytes are seen
  uint8_t *p; size_t n;
  Exact(const uint8_t *d, size_t k) : p(new uint8_t[k]), n(k) { memcpy(p, d, k); }
  ~Exact() { delete[] p; }
};
static void oracle(int alg, const uint8_t *d, size_t n, uint8_t *out) {
  if (alg == 256) CryptoPP::SHA256().CalculateDigest(out, d, n); else CryptoPP::SHA1().CalculateDigest(out, d, n);
}
static void same(const uint8_t *got, int alg, const uint8_t *d, size_t n, const char *msg) {
  uint8_t want[32]; oracle(alg, d, n, want);
  vp_check(got != nullptr, "a digest is returned");
  vp_check(memcmp(got, want, alg == 256 ? 32 : 20) == 0, msg);
}
template <class H> static void meta(const H &h, int alg, const char *suffix) {
  vp_check(h.hashSize() == (alg == 256 ? 32u : 20u), "the size is that of the selected function");
  vp_check(h.name() == std::string(alg == 256 ? "SHA256" : "SHA1") + suffix, "the name is that of the selected function");
}
static size_t prefix(size_t n) {
#ifdef LENS
  const size_t ls[] = {0, 1, n / 2, n - 1, n, n + 1, 4 * n}; return ls[vp_choose(7, "len")];
#else
  (void)n; return (size_t)vp_choose(N + 3, "len");
#endif
}
extern "C" int vp_main() {
  vp_sha_abstract = 1;
  static const HashFlavour fl[] = {SHA1_FLAVOUR, SHA256_FLAVOUR, MURMURHASH3_128_FLAVOUR, (HashFlavour)77};
  int f = vp_choose(4, "flavour"); int alg = f == 1 ? 256 : 1;
  uint8_t a[N], b[N]; vp_make(a, N, "first"); vp_make(b, N, "second");
  
#ifdef LENS
  static const size_t lens[] = {LENS}; const int nl = (int)(sizeof(lens) / sizeof(*lens));
  size_t na = lens[vp_choose(nl, "na")], nb = lens[vp_choose(nl, "nb")];
#else
  size_t na = 1 + (size_t)vp_choose(N, "na"), nb = 1 + (size_t)vp_choose(N, "nb");
#endif

#if MODE == 0
  SHAByteArray h(fl[f]); meta(h, alg, "");
  Exact x(a, na), y(b, nb);
  uint8_t d1[32]; const uint8_t *r = h.hash(x.p, na); same(r, alg, a, na, "the digest is that of the given bytes"); memcpy(d1, r, h.hashSize());
  vp_check(h.hash(nullptr, 3) == nullptr && h.hash(y.p, 0) == nullptr, "no bytes, no digest");
  same(h.hash(y.p, nb), alg, b, nb, "a second digest is that of the second bytes");
  vp_check(memcmp(x.p, a, na) == 0 && memcmp(y.p, b, nb) == 0, "the input is left alone");
  same(h.hash(x.p, na), alg, a, na, "hashing again gives the same");
  uint8_t *q = h.hash(x.p, na); uint8_t prev[32]; memcpy(prev, q, h.hashSize());
  same(h.hash(q, h.hashSize()), alg, prev, h.hashSize(), "a digest can itself be hashed");
  SHAByteArray *c = new SHAByteArray(h); same(c->hash(y.p, nb), alg, b, nb, "a copy hashes alike"); meta(*c, alg, "");
  SHAByteArray o(SHA256_FLAVOUR); o.hash(x.p, na); o = *c; delete c;
  same(o.hash(x.p, na), alg, a, na, "an assigned copy outlives its source"); meta(o, alg, "");
  same(h.hash(y.p, nb), alg, b, nb, "the source outlives its copy");
#elif MODE == 1
  SHAString h(fl[f]); meta(h, alg, "");
  std::string x((char *)a, na - 1), y((char *)b, nb); // lengths 0.. for the first
  same(h.hash(x), alg, a, na - 1, "the digest is that of the string");
  size_t l = prefix(nb);
  same(h.hash(y, l), alg, b, l > 0 && l < nb ? l : nb, "the digest is that of the prefix of the requested length");
  same(h.hash(x), alg, a, na - 1, "hashing again gives the same");
  same(h.hash(x, l), alg, a, l > 0 && l < na - 1 ? l : na - 1, "hashing a prefix of the same string gives that prefix's digest");
  same(h.hash(x), alg, a, na - 1, "hashing all of it again gives the same");
  SHAString c(h), d; d.hash(y); d = h; same(c.hash(y), alg, b, nb, "a copy hashes alike"); same(d.hash(y), alg, b, nb, "an assigned copy hashes alike"); meta(d, alg, "");
#elif MODE == 2
  vp_decimal_hook = decimal;
  
#ifdef BIGINT
  ZZ m = pow2(2100) + 1L;
#else
  ZZ m = pow2(500) + 1L;
#endif
  ZZ_p::init(m);
  SHAZZp h(fl[f]); meta(h, alg, " for integers modulo p");
  Dec *x = make("number", (long)na), *y = make("other", (long)nb);
  ZZ_p ex = asElem(x->z), ey = asElem(y->z);
  size_t l = prefix(nb);
  same(h.hash(ex), alg, x->d, na, "the digest is that of the decimal text");
  same(h.hash(ey, l), alg, y->d, l > 0 && l < nb ? l : nb, "the digest is that of the prefix of the requested length");
  same(h.hash(ex), alg, x->d, na, "hashing again gives the same");
  same(h.hash(ex, l), alg, x->d, l > 0 && l < na ? l : na, "hashing a prefix of the same number gives that prefix's digest");
  same(h.hash(ex), alg, x->d, na, "hashing all of it again gives the same");
  vp_check(rep(ex) == x->z && rep(ey) == y->z, "the number is left alone");
#endif
  vp_reach("end");
  return 0;
}

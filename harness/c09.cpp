// Pseudo-random numbers against the definition: the first bits of the digest chain that starts from seed and index,
// for any earlier uses of the generator and of its copies. Digests are arbitrary functions of their input.
#include <zzprf.h>
#include <zzpprf.h>
#include <cryptopp/sha.h>
#include "h.h"
using namespace NTL;
#ifdef BIGINT
#define SMAX 264
#else
#define SMAX 56
#endif
struct Args { ZZ seed; size_t sb; uint8_t s[SMAX]; size_t idx, bits; };
static const size_t SB[] = {SEEDS}, NB[] = {BYTES};
static Args args(bool full) {
  Args a;
  a.sb = SB[vp_choose((int)(sizeof(SB) / sizeof(*SB)), "seedbytes")];
  vp_make(a.s, a.sb, "seed");
  if (a.sb) vp_assume(a.s[a.sb - 1] != 0); // exactly this many bytes
  ZZFromBytes(a.seed, a.s, (long)a.sb);
  a.idx = full ? vp_u("index", 64) : vp_u("index", 8);
  a.bits = 8 * NB[vp_choose((int)(sizeof(NB) / sizeof(*NB)), "bytes")] - vp_u("cut", 3);
  return a;
}
static ZZ spec(const Args &a) {
  uint8_t in[SMAX + 8], d[64 * 20]; size_t n = (size_t)vp_concretize((a.bits + 7) / 8), k = 0;
  memcpy(in, a.s, a.sb); for (int i = 0; i < 8; i++) in[a.sb + i] = (uint8_t)(a.idx >> (8 * i));
  CryptoPP::SHA1().CalculateDigest(d, in, a.sb + 8);
  for (k = 20; k < n; k += 20) CryptoPP::SHA1().CalculateDigest(d + k, d + k - 20, 20);
  size_t cut = 8 * n - a.bits; d[n - 1] = (uint8_t)(d[n - 1] & (0xff >> cut));
  ZZ z; ZZFromBytes(z, d, (long)n); return z;
}
static uint8_t fed[8][SMAX + 8]; static size_t fedn[8]; static int nfed;
static int watch(const uint8_t *in, size_t n) { if (nfed < 8 && n <= SMAX + 8) { memcpy(fed[nfed], in, n); fedn[nfed++] = n; } return 1; }
static void use(ZZPRF &g, const Args &a) {
  ZZ z = g.generate(a.seed, a.idx, a.bits);
  vp_check(z >= 0 && (size_t)NumBits(z) <= a.bits, "the number is not negative and has at most the requested bits");
  vp_check(z == spec(a), "the number is made of the first bits of the digests of seed and index, all of them");
}
#if MODE == 0
extern "C" int vp_main() { // one generator, its copies
  vp_sha_abstract = 1;
  ZZPRF *g = new ZZPRF();
  for (int i = 0; i < OPS; i++) {
    if (i == 1) switch (vp_choose(4, "copy")) {
    case 0: break;
    case 1: { ZZPRF *c = new ZZPRF(*g); delete g; g = c; vp_reach("copied"); break; }
    case 2: { ZZPRF c; c = *g; use(c, args(true)); vp_reach("assigned"); break; }
    case 3: { ZZPRF *c = new ZZPRF(); use(*c, args(true)); *c = *g; delete g; g = c; break; }
    }
    use(*g, args(true));
  }
  delete g;
  vp_reach("end");
  return 0;
}
#elif MODE == 1
extern "C" int vp_main() { // field elements
  vp_sha_abstract = 1;
#ifdef WIDEFIELD
  Num p = MODP; field(p); ZZ P = zz(p);
#else
  static const long primes[] = {251, 257, 65537, 2147483647, 1099511627791};
  long p = primes[vp_choose(5, "field")]; field(p); ZZ P; P = p;
#endif
  ZZPRF *own = new ZZPRF(); int way = vp_choose(4, "way");
  if (way == 1) { own->generate(ZZ(0), 3, 200); }
  ZZpPRF *g = way == 3 ? new ZZpPRF(ZZ(61)) : way ? new ZZpPRF(P, own) : new ZZpPRF(P);
  if (way == 3) { ZZ_p s; conv(s, 5); g->generate(s, 1, 0); g->setModulo(P); } // another field before
  if (way == 2) { ZZpPRF *c = new ZZpPRF(*g); delete g; g = c; }
  delete own;
  vp_check(g->getModulo() == P, "the modulus is the given one");
  for (int i = 0; i < OPS; i++) {
    Args a = args(true); vp_assume(a.seed < P);
    size_t m = (size_t)NumBits(P); bool whole = vp_choose(2, "whole");
    ZZ_p s; conv(s, a.seed);
    ZZ_p r = g->generate(s, a.idx, whole ? 0 : a.bits);
    Args e = a; if (whole || a.bits > m) e.bits = m;
    ZZ_p w; conv(w, spec(e));
    vp_check(r == w, "the element is the number of the field's size (or of the requested, smaller one) taken modulo the field's order");
  }
  delete g;
  vp_reach("end");
  return 0;
}
#elif MODE == 2
extern "C" int vp_main() { // two generators with different pasts
  vp_sha_abstract = 1;
  ZZPRF a, b; Args past = args(true), x = args(true);
  b.generate(past.seed, past.idx, past.bits);
  ZZ u = a.generate(x.seed, x.idx, x.bits), v = b.generate(x.seed, x.idx, x.bits);
  vp_check(u == v, "the past of a generator does not matter");
  size_t less = 8 * NB[vp_choose((int)(sizeof(NB) / sizeof(*NB)), "less")] - vp_u("cut2", 3); vp_assume(less <= x.bits);
  ZZ w = b.generate(x.seed, x.idx, less);
  vp_check(w == (u & (pow2((long)vp_concretize(less)) - 1)), "shorter numbers are prefixes of longer ones");
  vp_check(b.generate(x.seed, x.idx, x.bits) == u, "the same again");
  vp_reach("end");
  return 0;
}
#elif MODE == 3
extern "C" int vp_main() { // what is fed to the hash determines seed and index
  vp_sha_abstract = 1; vp_sha_filter = watch;
  ZZPRF g; Args x = args(true), y = args(true);
  nfed = 0; g.generate(x.seed, x.idx, x.bits); vp_check(nfed > 0, "the hash is used"); uint8_t f[SMAX + 8]; size_t n = fedn[0]; memcpy(f, fed[0], n);
  nfed = 0; g.generate(y.seed, y.idx, y.bits); vp_check(nfed > 0, "the hash is used");
  if (n == fedn[0] && memcmp(f, fed[0], n) == 0) {
    if (x.sb == y.sb) { vp_check(x.seed == y.seed, "distinct seeds of one length are fed differently"); vp_check(x.idx == y.idx, "distinct indexes are fed differently"); vp_reach("same"); }
  }
  vp_reach("end");
  return 0;
}
#elif MODE == 4
template <class T> static PseudoRandom<T, T> &own(PseudoRandom<T, T> &g) { return g; }
extern "C" int vp_main() { // without a seed: the generator's own one, for life
  vp_sha_abstract = 1; vp_sha_filter = watch; vp_rand_symbolic = 1;
  size_t i = vp_u("index", 64), j = vp_u("other", 64), bits = 8 * NB[vp_choose((int)(sizeof(NB) / sizeof(*NB)), "bytes")] - vp_u("cut", 3);
  if (vp_choose(2, "field")) {
    field(1099511627791); ZZ P; P = 1099511627791;
    ZZpPRF g(P); nfed = 0; ZZ_p a = own(g).generate(i, bits); vp_check(nfed > 0, "the hash is used"); size_t n = fedn[0] - 8; uint8_t seed[SMAX + 8]; memcpy(seed, fed[0], n);
    ZZ s; ZZFromBytes(s, seed, (long)n); ZZ_p e; conv(e, s);
    vp_check(g.generate(e, i, bits) == a, "the value is the one for the seed of its own and the index");
    ZZ_p b = own(g).generate(j, bits); vp_check(b == g.generate(e, j, bits), "the seed stays the same");
    ZZ_p c0 = own(g).generate(), c1 = own(g).generate();
    vp_check(c0 == g.generate(e, 0, 0) && c1 == g.generate(e, 1, 0), "one index after the other is used");
    ZZpPRF c(g); vp_check(own(c).generate(j, bits) == b, "copies go on with it"); vp_check(own(c).generate() == g.generate(e, 2, 0), "and with the indexes");
    vp_check(own(g).generate(i, bits) == a, "the seed stays the same");
    vp_reach("elements");
  } else {
    ZZPRF g; nfed = 0; ZZ a = own(g).generate(i, bits); vp_check(nfed > 0, "the hash is used"); size_t n = fedn[0] - 8; uint8_t seed[SMAX + 8]; memcpy(seed, fed[0], n);
    ZZ s; ZZFromBytes(s, seed, (long)n);
    vp_check(g.generate(s, i, bits) == a, "the value is the one for the seed of its own and the index");
    ZZ b = own(g).generate(j, bits); vp_check(b == g.generate(s, j, bits), "the seed stays the same");
    ZZPRF c(g), d; d = g; vp_check(own(c).generate(j, bits) == b && own(d).generate(j, bits) == b, "copies go on with it");
    vp_check(own(g).generate(i, bits) == a, "the seed stays the same");
    vp_reach("numbers");
  }
  vp_reach("end");
  return 0;
}
#endif

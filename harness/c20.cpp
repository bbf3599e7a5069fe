// Bit, byte and block counts; vector conversions.
#include "h.h"
#include <ntlmiss.h>
using namespace NTL;
#ifdef SHIFTS
static const long shifts[] = {SHIFTS};
static ZZ number() { ZZ z = symZZ("z", 2); z <<= shifts[vp_choose((int)(sizeof(shifts) / sizeof(*shifts)), "shift")]; z += symZZ("low", 1); return z; } // the top, zeros and the end
#elif MODE == 2 || MODE == 3
static ZZ number() { return symZZ("z", WIDTH); }
#endif
extern "C" int vp_main() {
#if MODE == 0
  unsigned long bits = vp_u("bits", 64), per = vp_u("per", PERBITS);
  vp_assume(per > 0);
  unsigned long n = blocks(bits, per), q = bits / per, r = bits % per;
  vp_check(n == q + (r != 0), "the number of blocks is the smallest that suffices");
  vp_observe("n", n);
#elif MODE == 1
  unsigned long bits = vp_u("bits", 64), n = bytes(bits);
  typedef unsigned __int128 u128;
  vp_check((u128)n * 8 >= bits, "the bytes suffice");
  vp_check(n == 0 || (u128)(n - 1) * 8 < bits, "one byte less does not suffice");
  vp_observe("n", n);
#elif MODE == 2
  ZZ z = number();
  unsigned long n = vp_concretize(bytes(z));
  vp_check(n <= WIDTH, "no more bytes than the number has");
  vp_check(z < pow2(8 * (long)n), "the number fits its byte length");
  vp_check(n == 0 ? IsZero(z) != 0 : z >= pow2(8 * (long)(n - 1)), "the byte length is the smallest");
  ZZ m = -z; vp_check(bytes(m) == n, "the sign does not count");
#elif MODE == 3
  ZZ z = number();
  unsigned long l = log2(z);
  if (z > 0) vp_check(z >= pow2((long)l) && z < pow2((long)l + 1), "2^l <= z < 2^(l+1)");
  else vp_check(l == 0, "the logarithm of zero is given as 0");
  vp_observe("l", l);
#elif MODE == 4
  ZZ p; p = 2305843009213693951L; ZZ_p::init(p); // 2^61 - 1
#ifdef LENGTHS
  static const size_t lengths[] = {LENGTHS}; size_t n = lengths[vp_choose((int)(sizeof(lengths) / sizeof(*lengths)), "n")], m
#else
  size_t n = (size_t)vp_choose(N + 1, "n"), m
#endif
         = (size_t)vp_choose(3, "m");
  std::vector<ZZ_p> v; ZZ_p *arr = new ZZ_p[n + 1]; long *val = new long[n + 1];
  for (size_t i = 0; i < n; i++) { if (i < 3 || i + 3 > n) { val[i] = (long)vp_u("v", 61); vp_assume(val[i] < 2305843009213693951L); } else val[i] = N ? (long)vp_u("v", 60) : (long)(i * i * 7919); v.push_back(elem(val[i])); arr[i] = v[i]; }
  vec_ZZ_p a, c, b = vector2VecZZp(v), d = array2VecZZp(arr, n);
  a.SetLength((long)m); c.SetLength((long)m);
  for (size_t i = 0; i < m; i++) { a[(long)i] = elem(7); c[(long)i] = elem(9); }
  vector2VecZZp(a, v); array2VecZZp(c, arr, n);
  vp_check(a.length() == (long)n && b.length() == (long)n && c.length() == (long)n && d.length() == (long)n, "converted vectors have the same length");
  for (size_t i = 0; i < n; i++) {
    vp_check(num(a[(long)i]) == val[i] && num(b[(long)i]) == val[i], "vector conversion keeps order and values");
    vp_check(num(c[(long)i]) == val[i] && num(d[(long)i]) == val[i], "array conversion keeps order and values");
    vp_check(num(v[i]) == val[i] && num(arr[i]) == val[i], "the source is left alone");
    vp_check(bytes(a[(long)i]) == bytes(rep(a[(long)i])), "byte length of a field element is that of its representative");
  }
  vp_check(array2VecZZp(nullptr, 3).length() == 0, "a null array gives an empty vector");
#endif
  vp_reach("end");
  return 0;
}

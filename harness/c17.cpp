// Zero padding.
#include "h.h"
#include <ntlmiss.h>
using namespace NTL;
#ifdef PADLIST
static const long pads[] = {PADLIST};
static long pad() { return pads[vp_choose((int)(sizeof(pads) / sizeof(*pads)), "pad")]; }
#else
static long pad() { return (long)vp_concretize(below("pad", PADS)); }
#endif
extern "C" int vp_main() {
  ZZ z = symZZ("z", WIDTH);
#if MODE == 0
  long n = pad();
  ZZ r = zeroPad(z, (size_t)n);
  vp_check(r == z * pow2(n), "zeroPad(z, n) is z times 2^n");
  vp_check((r >> n) == z, "the padding can be removed");
  vp_check(countLeadingZeros(r) >= (size_t)n, "a padded number carries the padding");
  ZZ z2 = z; ZZ r2 = zeroPad(z2, (size_t)n);
  vp_check(z2 == z && r2 == r, "padding leaves its argument alone and is a function of it");
#elif MODE == 1
  long n = pad();
  ZZ low; trunc(low, z, n);
  vp_check((countLeadingZeros(z) >= (size_t)n) == (IsZero(low) != 0), "a number carries the padding exactly when it is a multiple of 2^n");
#elif MODE == 2
  size_t n = (size_t)pad();
  ZZ r = zeroPadTo(z, n);
  long bs = NumBits(z);
  if (IsZero(z)) vp_check(IsZero(r), "zero stays zero");
  else if ((long)n > bs) vp_check(NumBits(r) == (long)n - 1, "padding up to n bits gives a number of n - 1 bits");
  else vp_check(r == z, "a number that is large enough stays as it is");
  vp_check(IsZero(z) || (r >> (NumBits(r) - bs)) == z, "no bit is lost");
#endif
  vp_reach("end");
  return 0;
}

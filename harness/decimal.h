// Numbers given by their decimal text.
#pragma once
#include "h.h"
#include <cstring>
using namespace NTL;
extern "C" long (*vp_decimal_hook)(const ZZ &z, char *out);
struct Dec { ZZ z; uint8_t d[640]; long n; };
static Dec *nums[4]; static int count = 0;
static long decimal(const ZZ &z, char *out) {
  for (int i = count - 1; i >= 0; i--) if (vp_must(z == nums[i]->z)) { memcpy(out, nums[i]->d, nums[i]->n); return nums[i]->n; }
  vp_fail("a number other than those given is converted to text");
}
// The text is given and the number is the one it denotes: the executor leaves the number open (a superset of all
// pairs of numbers and texts), the native replay computes it.
static Dec *make(const char *name, long n) {
  Dec *r = new Dec; r->n = n; r->z = 0;
  vp_make(r->d, n, name);
  bool ok = true;
  for (long i = 0; i < n; i++) ok = vp_and(ok, vp_and(r->d[i] >= '0', r->d[i] <= '9'));
  if (n > 1) ok = vp_and(ok, r->d[0] != '0');
  vp_assume(ok);
  uint8_t b[60]; vp_make(b, 60, "value");
  if (vp_is_concrete(b, 60)) for (long i = 0; i < n; i++) r->z = r->z * 10L + (long)(r->d[i] - '0');
  else ZZFromBytes(r->z, b, 60);
  for (int i = 0; i < count; i++) { // one text per number
    bool same = nums[i]->n == n;
    if (same) for (long k = 0; k < n; k++) same = vp_and(same, nums[i]->d[k] == r->d[k]);
    vp_assume(same == (r->z == nums[i]->z));
  }
  nums[count++] = r;
  return r;
}
static ZZ_p asElem(const ZZ &z) { ZZ_p x; x.LoopHole() = z; return x; }

// Byte strings as integers.
#include "h.h"
#include <strint.h>
#include <cstring>
#include <sstream>
using namespace NTL;
static ZZ little(const uint8_t *d, size_t n) { ZZ z; ZZFromBytes(z, d, (long)n); return z; }
static ZZ ul(unsigned long v) { uint8_t b[8]; for (int i = 0; i < 8; i++) b[i] = (uint8_t)(v >> (8 * i)); return little(b, 8); }
static size_t cap;
static ZZ fromBytes(StrInt *s, const char *name, int maxlen) { // set from bytes in a block of exactly that size
#ifdef CAPS
  size_t n = vp_choose(2, "len") ? (size_t)maxlen - 1 : (size_t)maxlen / 2;
#else
  size_t n = (size_t)vp_choose(maxlen + 1, "len");
#endif
  uint8_t *p = new uint8_t[n]; vp_make(p, n, name);
#ifdef TOP
  if (n) vp_assume(p[(n < cap ? n : cap) - 1] != 0);
#endif
  if (n) s->set(p, n); else s->set(p, (size_t)0);
  ZZ v = little(p, n < cap ? n : cap); delete[] p; return v;
}
extern "C" int vp_main() {
#ifdef CAPS
  static const int caps[] = {CAPS};
  size_t want = (size_t)caps[vp_choose((int)(sizeof(caps) / sizeof(*caps)), "capacity")]; cap = want;
  const int CAP = (int)want;
#else
  size_t want = (size_t)vp_choose(CAP + 1, "capacity"); cap = want ? want : 1;
#endif
  ZZ v; StrInt *s;
#ifdef CAPS
  size_t n0 = 2 * (size_t)vp_choose(2, "ctor");
#else
  size_t n0 = (size_t)vp_choose(3, "ctor");
#endif
  if (n0 == 0) { s = new StrInt(want); v = 0; }
  else { size_t n = n0 == 1 ? 1 : CAP + 1; uint8_t *p = new uint8_t[n]; vp_make(p, n, "init");
#ifdef TOP
    if (want) vp_assume(p[(n < cap ? n : cap) - 1] != 0);
#endif
    s = new StrInt(want, p, n); v = want ? little(p, n < cap ? n : cap) : ZZ(0); delete[] p; }
  int ops = vp_choose(OPS + 1, "ops");
  for (int i = 0; i < ops; i++) switch (vp_choose(4, "op")) {
    case 0: v = fromBytes(s, "bytes", CAP + 1); break;
    case 1: { unsigned long x = vp_u("number", NB); s->set(x); v = ul(x); break; }
    case 2: s->inc(); v += 1; break;
    case 3: { unsigned long x = vp_u("addend", NB); s->add(x); v += ul(x); break; }
  }
  ZZ low; trunc(low, v, 64);
  vp_check(ul(s->lsb()) == low, "the low-order bits are those of the number");
#if VIEW == 0
#ifdef TOP
  const unsigned long ds[] = {251, 65537, ~0UL};
  unsigned long d = ds[vp_choose(3, "divisor")];
#else
  const unsigned long ds[] = {1, 2, 3, 10, 251, 256, 65537, 1UL << 63, ~0UL};
  unsigned long d = ds[vp_choose(9, "divisor")];
#endif
  vp_check(ul(s->rem(d)) == v % ul(d), "the remainder is that of the number");
#elif VIEW == 1
  size_t bs = (size_t)vp_concretize(s->getByteSize());
  size_t nb = (size_t)vp_concretize((unsigned long)NumBytes(v)); if (nb == 0) nb = 1;
  vp_check(bs == nb, "the byte size is the number of bytes of the number, one for zero");
  int how = vp_choose(4, "buffer"); // none, exact, larger, too small
  size_t len = how == 0 ? 99 : how == 1 ? bs : how == 2 ? bs + 2 : bs - 1, given = len;
  uint8_t *buf = how ? new uint8_t[len] : nullptr; if (how) memset(buf, 0xa5, len);
  uint8_t *r = s->toBytes(buf, &len);
  vp_check(len == bs, "the length given back is the byte size");
  vp_check(vp_objsize(r) != ~(size_t)0 && vp_objsize(r) >= bs, "the bytes given back can hold the number");
  vp_check(how == 0 || how == 3 || r == buf, "a sufficient array is used");
  bool same = true; uint8_t *w = new uint8_t[bs]; BytesFromZZ(w, v, (long)bs);
  for (size_t i = 0; i < bs; i++) same = vp_and(same, w[i] == r[bs - 1 - i]);
  vp_check(same, "the bytes are those of the number, most significant first");
  if (how == 3 && given) vp_check(buf[given - 1] == 0xa5 || r == buf, "an insufficient array is left alone");
  if (how == 2) vp_check(buf[bs] == 0xa5 && buf[bs + 1] == 0xa5, "nothing is written beyond the number");
#else
  std::string t = s->toString(); std::ostringstream o; o << *s;
  vp_check(o.str() == t, "the output operator gives the decimal text");
  vp_check(t.size() >= 1 && (t.size() == 1 || t[0] != '0'), "the text has no leading zero");
  ZZ p; p = 0; for (size_t i = 0; i < t.size(); i++) { vp_check(vp_and(t[i] >= '0', t[i] <= '9'), "the text has digits only"); p = p * 10L + (long)(t[i] - '0'); }
  vp_check(p == v, "the text denotes the number");
#endif
  vp_reach("end");
  delete s;
  return 0;
}

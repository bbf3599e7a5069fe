// Positions of the pseudo-random streams used for one answer and one upload.
#include "proto.h"
#include <set>
struct Input { uint8_t b[40]; size_t n; };
static std::vector<Input> *drawn; static int mode; static uint8_t secret[3]; static uint8_t keyb[16]; static bool haveKey;
static int filter(const uint8_t *in, size_t n) { // everything that is hashed passes here
  size_t seed = mode == 1 ? 16 : 3;
  if (mode && n == seed + 8) {
    bool mine = true; const uint8_t *want = mode == 1 ? keyb : secret;
    for (size_t i = 0; i < seed; i++) mine = vp_and(mine, in[i] == want[i]);
    if (mine) { Input x; x.n = n; memcpy(x.b, in, n); drawn->push_back(x); }
  }
  return notPoints(in, n);
}
static void key(long bits, uint8_t *out) { keyBytes(bits, out); memcpy(keyb, out, 16); haveKey = true; }
static void distinct(size_t want, const char *what) {
  vp_check(drawn->size() == want, what);
  std::set<unsigned long> seen; // all have the same seed: the positions tell them apart
  for (auto &x : *drawn) { unsigned long ix; memcpy(&ix, x.b + x.n - 8, 8); vp_check(seen.insert(vp_concretize(ix)).second, "no position is used twice"); }
}
#ifdef FAR
// many positions: digests that only copy their input, so that only the positions cost
static uint8_t *seen; static size_t draws, wanted; static int seedLen;
static int far(const uint8_t *in, size_t n) {
  if (!mode) return 2;
  bool mine = n == (size_t)seedLen + 8; const uint8_t *want = mode == 1 ? keyb : secret;
  if (mine) for (size_t i = 0; i < (size_t)seedLen; i++) mine = vp_and(mine, in[i] == want[i]);
  if (!mine) return 2;
  unsigned long ix; memcpy(&ix, in + n - 8, 8); draws++;
  if (ix >= 8 * wanted) { vp_check(ix < 8 * wanted, "the positions are not scattered"); return 2; }
  vp_check(!seen[ix], "no position is used twice"); seen[ix] = 1; return 2;
}
static void begin(int m, int len, size_t want) { seedLen = len; wanted = want; draws = 0; seen = new uint8_t[8 * want](); mode = m; }
static void end(const char *what) { mode = 0; vp_check(draws == wanted, what); delete[] seen; }
static EOPSIMessage *zeros(const Dims &d, const char *id) {
  vec_ZZ_p *v = new vec_ZZ_p[d.L]; for (size_t j = 0; j < d.L; j++) v[j].SetLength((long)d.D);
  EOPSIMessage *m = new EOPSIMessage(v, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(id); return m;
}
extern "C" int vp_main() {
  #ifndef DEG
#define DEG 3
#endif
  Dims d = {MODP, NBUCK, LOAD, DEG}; field(d.p); vp_sha_abstract = 1; vp_sha_filter = far;
  deaf = true;
#if FAR == 1 // the upload
  vp_make(secret, 2, "secret"); secret[2] = 0x61;
  PlainHash hash((long)NumBits(zz(d.p)) - 6 - 1); HashBuckets<ZZ_p> h(d.L, d.H, &hash);
  TapClient c(h, d, "Alice", ZZFromBytes(secret, 3)); ZZ *data = new ZZ[1]; data[0] = 5;
  begin(2, 3, d.L * d.D); c.setRawData(data, 1, 6); end("each value of the upload is masked with a value of the client's stream");
#else // the cloud's answer
  Mute a(EOPSI_PARTY_CLIENT, d, "Alice"), b(EOPSI_PARTY_CLIENT, d, "Bob"); TapServer cloud(d, "Cloud");
  cloud.authenticate(a); cloud.authenticate(b);
  cloud.receive(zeros(d, "Alice")); cloud.receive(zeros(d, "Bob"));
  byte *r = new byte[27]; memset(r, 0, 27); memcpy(r, "Alice", 6); memcpy(r + 6, "Bob", 4); for (int i = 0; i < 16; i++) keyb[i] = (uint8_t)(3 * i + 1); vp_make(keyb, 2, "key"); memcpy(r + 10, keyb, 16);
  EOPSIMessage m(r, 27, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId("Alice");
  begin(1, 16, d.L * d.D + 2 * d.L * d.H); cloud.receive(&m); end("the answer draws its masks and the coefficients of its masking polynomials");
#endif
  vp_reach("end");
  return 0;
}
#else
extern "C" int vp_main() {
  drawn = new std::vector<Input>();
#ifdef EXACT
  size_t L = NBUCK, H = LOAD;
#else
  size_t L = 1 + (size_t)vp_choose(NBUCK, "length"), H = 1 + (size_t)vp_choose(LOAD, "height");
#endif
  Dims d = {MODP, L, H, 2 * H + 1 + EXTRA}; field(d.p);
  vp_sha_abstract = 1; vp_sha_filter = filter; vp_randombits_hook = key; keySymbolic = true;
  long pad = (long)NumBits(zz(d.p)) - 6 - 1; PlainHash hash(pad);
  vp_make(secret, 2, "secret"); secret[2] = 0x61;
  HashBuckets<ZZ_p> ha(L, H, &hash), hb(L, H, &hash);
  TapClient *alice = new TapClient(ha, d, "Alice", ZZFromBytes(secret, 3)), *bobData = new TapClient(hb, d, "Bob", zz(0x620304));
  Mute bob(EOPSI_PARTY_CLIENT, d, "Bob"); TapServer cloud(d, "Cloud");
  acquaint({alice, &bob, &cloud});
  ZZ *da = new ZZ[1], *db = new ZZ[1]; da[0] = 5; db[0] = NBUCK > 4 ? 9 : (long)vp_u("element", 6);
  mode = 2; alice->setRawData(da, 1, 6); mode = 0;
  distinct(d.L * d.D, "each value of the upload is masked with a value of the client's stream");
  bobData->setRawData(db, 1, 6);
  cloud.receive(upload(*alice)); cloud.receive(upload(*bobData));
  // the cloud's and the delegate's answers for one key
  drawn->clear();
  EOPSIMessage *r = request("Bob", zz(0x620304));
  mode = 1; alice->receive(r); mode = 0;
  size_t each = d.L * d.D + 2 * d.L * d.H;
  vp_check(drawn->size() == 2 * each, "each answer draws its masks and the coefficients of its masking polynomials");
  std::vector<Input> all = *drawn;
  drawn->assign(all.begin(), all.begin() + (long)each); distinct(each, "the cloud's answer");
  drawn->assign(all.begin() + (long)each, all.end()); distinct(each, "the delegate's answer");
  vp_reach("end");
  return 0;
}
#endif

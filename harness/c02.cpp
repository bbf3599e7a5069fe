// Blinding cancels: the cloud's answer minus the delegate's (C02); the delegate works with the requester's secret (C08).
#include "proto.h"
#ifndef ABE
#define ABE 0
#endif
#ifndef IDS
#define IDS 2
#endif
static Mute *bob; static TapServer *cloud; static Dims d;
static std::string keyText; // the request as the cloud got it
static Matrix ask(vec_ZZ_p *a, vec_ZZ_p *b) { // the cloud's answer for the uploads, with the key of the run
  EOPSIMessage ua(a, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA), ub(b, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA);
  ua.setPartyId("Alice"); ub.setPartyId(bob->getId());
  cloud->receive(&ua); cloud->receive(&ub);
  byte *r = new byte[keyText.size()]; memcpy(r, keyText.data(), keyText.size());
  EOPSIMessage m(r, keyText.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId("Alice");
  cloud->receive(&m);
  return bob->last;
}
// long secrets: some of the bytes, zero bytes between them
static ZZ secretOf(const char *name, size_t n, bool full) {
  uint8_t b[264]; if (n) vp_make(b, n, name);
  if (full) b[n - 1] = name[0]; else if (n > SYMBYTES) for (size_t i = 1; i < n; i++) if (i != 3) b[i] = (uint8_t)(i % 3 == 1 && i + 1 < n ? 0 : 7 * i + 1);
  if (n) vp_assume(b[n - 1] != 0); // n is its length
  if (n == 1) vp_assume(b[0] != 4); // the seed of the evaluation points
  return ZZFromBytes(b, (long)n);
}
static void fill(ZZ *&data, Num *v, size_t n) {
  data = new ZZ[n];
  for (size_t i = 0; i < n; i++) { v[i] = numOf("element", BITS); data[i] = zz(v[i]); for (size_t k = 0; k < i; k++) vp_assume(v[i] != v[k]); }
  for (size_t j = 0; j < d.L; j++) { size_t load = 0; for (size_t i = 0; i < n; i++) load += (size_t)(v[i] % (Num)d.L == (Num)j); vp_assume(load <= d.H); }
}
extern "C" int vp_main() {
  d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p);
  vp_sha_abstract = 1; vp_sha_filter = notPoints; vp_randombits_hook = keyBytes; keySymbolic = SYMKEY;
  long pad = (long)NumBits(zz(d.p)) - BITS - 1;
  PlainHash hash(pad); HashBuckets<ZZ_p> ha(d.L, d.H, &hash), hb(d.L, d.H, &hash);
#if MODE == 0
  ZZ sa = secretOf("a", 3, true), sb = secretOf("b", 3, true);
#else
  #ifdef BIGINT
  static const int sizes[] = {63, 64, 65, 100, 128, 255, 256, 257};
#else
  static const int sizes[] = {0, 1, 2, 4, 6, 9, 17, 40, 3, 5, 8, 12, 16, 33};
#endif
 
  ZZ sa = zz(0x610203), sb = secretOf("secret", (size_t)sizes[vp_choose(SIZES, "size")], false);
#endif
  TapClient alice(ha, d, "Alice", sa);
#if MODE == 0
  std::string bobId = ABE ? "Abe" : "Bob";
#else
  std::string bobId = std::vector<std::string>({"B", "Bob, whose identifier is long", "A"})[(size_t)vp_choose(IDS, "id")];
#endif
  TapClient *bobData = new TapClient(hb, d, bobId, sb);
  bob = new Mute(EOPSI_PARTY_CLIENT, d, bobId, true); cloud = new TapServer(d, "Cloud");
  acquaint({&alice, bob, cloud});
  ZZ *da, *db; Num va[ELEMS], vb[ELEMS];
  size_t na = 1 + (size_t)vp_choose(ELEMS, "na"), nb = 1 + (size_t)vp_choose(ELEMS, "nb");
  fill(da, va, na); alice.setRawData(da, na, BITS);
  fill(db, vb, nb); bobData->setRawData(db, nb, BITS);
  cloud->receive(upload(alice)); cloud->receive(upload(*bobData));
#ifdef PRIOR
  for (int k = 0; k < 2; k++) { // the cloud worked for others before
    std::string from = k ? "Alice" : bobId, to = k ? bobId : "Alice"; size_t n = from.size() + to.size() + 19; byte *r = new byte[n]; memset(r, k ? 0x92 : 0x81, n); r[from.size() + to.size() + 3] = 7;
    memcpy(r, from.c_str(), from.size() + 1); memcpy(r + from.size() + 1, to.c_str(), to.size() + 1); r[n - 1] = 0;
    EOPSIMessage m(r, n, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m.setPartyId(from); cloud->receive(&m);
  }
  vp_check(delivered(EOPSI_MESSAGE_OUTPUT_COMPUTATION, bobId) == 1 && delivered(EOPSI_MESSAGE_OUTPUT_COMPUTATION, "Alice") == 1, "earlier requests are answered");
  events.clear();
#endif
#ifdef EARLIERSECRET
  alice.receive(request(bobId, zz(0x3344556677L))); vp_check(delivered(EOPSI_MESSAGE_POLYNOMIAL, bobId) == 1, "an earlier request, with another secret, is answered"); events.clear();
#endif
  // the run
  EOPSIMessage *m = request(bobId, bobData->getSecret());
  std::string sent((const char *)m->getData(), m->length());
  alice.receive(m);
  vp_check(delivered(EOPSI_MESSAGE_OUTPUT_COMPUTATION, bobId) == 1 && delivered(EOPSI_MESSAGE_POLYNOMIAL, bobId) == 1, "the requester gets one answer of each kind");
  for (size_t i = 0; i < sent.size(); i++) vp_check(((const char *)m->getData())[i] == sent[i], "the request is left alone");
  Matrix t, q;
  for (auto &e : events) { if (e.type == EOPSI_MESSAGE_OUTPUT_COMPUTATION) t = matrix((vec_ZZ_p *)e.data, d); if (e.type == EOPSI_MESSAGE_POLYNOMIAL) q = matrix((vec_ZZ_p *)e.data, d); if (e.type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) keyText = e.content; }
  vec_ZZ_p x = alice.points();
  std::vector<Num> xs; for (size_t i = 0; i < d.D; i++) xs.push_back(num(x[i])); // concrete
#if MODE == 0
  // how the cloud's answer depends on each upload
  vec_ZZ_p *a0 = alice.getBlindedData(), *b0 = bobData->getBlindedData(), *a1 = new vec_ZZ_p[d.L], *b1 = new vec_ZZ_p[d.L];
  for (size_t j = 0; j < d.L; j++) { a1[j] = a0[j]; b1[j] = b0[j]; for (size_t i = 0; i < d.D; i++) { a1[j][i] += 1; b1[j][i] += 1; } }
  Matrix ta = ask(a1, b0), tb = ask(a0, b1), t0 = ask(a0, b0);
  for (size_t j = 0; j < d.L; j++) {
    MarkedVector<ZZ_p> ka = ha.getBucket(j), kb = hb.getBucket(j);
    std::vector<ZZ_p> wa, wb;
    for (size_t i = 0; i < d.D; i++) {
      vp_check(t0[j][i] == t[j][i], "equal requests get equal answers");
      wa.push_back(elem(ta[j][i]) - elem(t[j][i])); wb.push_back(elem(tb[j][i]) - elem(t[j][i]));
      ZZ_p want = product(ka, x[i]) * wa[i] + product(kb, x[i]) * wb[i];
      vp_check(num(elem(t[j][i]) - elem(q[j][i])) == num(want), "the difference is the two masked data polynomials' value");
    }
    for (int side = 0; side < 2; side++) {
      std::vector<ZZ_p> &w = side ? wb : wa;
      for (size_t f = 0; f + d.H + 1 <= d.D; f++) vp_check(num(leading(xs, w, d.H + 1, d.p, f)) == 1, "the masking polynomials are monic of the agreed degree");
    }
  }
#else
  // the cloud's answer for the bare masks (uploads minus the data polynomials) is what the delegate has to send
  vec_ZZ_p *pa = new vec_ZZ_p[d.L], *pb = new vec_ZZ_p[d.L];
  for (size_t j = 0; j < d.L; j++) {
    MarkedVector<ZZ_p> ka = ha.getBucket(j), kb = hb.getBucket(j);
    pa[j].SetLength((long)d.D); pb[j].SetLength((long)d.D);
    for (size_t i = 0; i < d.D; i++) { pa[j][i] = alice.getBlindedData()[j][i] - product(ka, x[i]); pb[j][i] = bobData->getBlindedData()[j][i] - product(kb, x[i]); }
  }
  EOPSIMessage ma(pa, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA), mb(pb, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA);
  ma.setPartyId("Alice"); mb.setPartyId(bobId); cloud->receive(&ma); cloud->receive(&mb);
  byte *r = new byte[keyText.size()]; memcpy(r, keyText.data(), keyText.size());
  EOPSIMessage again(r, keyText.size(), EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); again.setPartyId("Alice"); cloud->receive(&again);
  for (size_t j = 0; j < d.L; j++) for (size_t i = 0; i < d.D; i++) vp_check(bob->last[j][i] == q[j][i], "the delegate works with the number the requester blinded with");
#endif
  vp_reach("end");
  return 0;
}

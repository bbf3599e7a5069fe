// Requests of any content and length: what is read stays within them. ROLE 0: the delegate, 1: the cloud. MODE 1: messages without content.
#include "run.h"
static Dims d;
static const char *const ids[] = {"B", "Ce"};
static byte *content(size_t n, size_t symbolic) { byte *b = new byte[n]; for (size_t i = 0; i < n; i++) b[i] = (byte)(3 * i + 1); if (symbolic > n) symbolic = n; if (symbolic) vp_make(b, symbolic, "content"); return b; }
// the text at the given place, or false if it does not end within the content
static bool text(const byte *b, size_t n, size_t at, std::string &s) { s.clear(); while (at < n && b[at]) s += (char)b[at++]; return at < n; }
struct Delegate {
  PlainHash hash; HashBuckets<ZZ_p> h; TapClient a; Mute cloud; std::vector<Mute *> p;
  Delegate() : hash((long)NumBits(zz(d.p)) - 4), h(d.L, d.H, &hash), a(h, d, "A", zz(partySecrets[0])), cloud(EOPSI_PARTY_SERVER, d, "Cloud") {
    ZZ *data = new ZZ[d.L]; for (size_t j = 0; j < d.L; j++) data[j] = (long)j; a.setRawData(data, d.L, 3);
    for (int i = 0; i < 2; i++) { p.push_back(new Mute(EOPSI_PARTY_CLIENT, d, ids[i], true)); a.authenticate(*p[i]); }
    a.authenticate(cloud);
  }
};
struct Cloud {
  TapServer s; std::vector<Mute *> p;
  Cloud() : s(d, "Cloud") {
    for (int i = 0; i < 2; i++) {
      p.push_back(new Mute(EOPSI_PARTY_CLIENT, d, ids[i], true)); s.authenticate(*p[i]);
      vec_ZZ_p *v = new vec_ZZ_p[d.L]; for (size_t j = 0; j < d.L; j++) { v[j].SetLength((long)d.D); for (size_t k = 0; k < d.D; k++) v[j][k] = elem((long)(i + j + 3 * k + 1)); }
      EOPSIMessage *m = new EOPSIMessage(v, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(ids[i]); s.EOPSIServer::receive(m);
    }
  }
};
static EOPSIMessage *ask(const std::string &a, const std::string &b) {
  size_t n = a.size() + b.size() + 19; byte *r = new byte[n];
  memcpy(r, a.c_str(), a.size() + 1); memcpy(r + a.size() + 1, b.c_str(), b.size() + 1); for (size_t i = n - 17; i < n; i++) r[i] = (byte)(7 * i + 5); r[n - 1] = 0;
  EOPSIMessage *m = new EOPSIMessage(r, n, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m->setPartyId(a); return m;
}
static void same(const Matrix &a, const Matrix &b) { for (size_t j = 0; j < d.L; j++) for (size_t i = 0; i < d.D; i++) vp_check(a[j][i] == b[j][i], "later requests are served as if the refused message had never come"); }
extern "C" int vp_main() {
  d = {61, 1, 1, 3}; field(d.p); vp_randombits_hook = keyBytes;
#if ROLE == 0
  Delegate w, fresh; EOPSIParty &r = w.a;
#else
  Cloud w, fresh; EOPSIParty &r = w.s;
#endif
  bool refused = false, proper = false; std::string sender = ids[vp_choose(2, "sender")], claimed, partner;
#if MODE == 0
  size_t n = (size_t)vp_choose(SIZE + 1, "size"); byte *b = content(n, SYMBYTES); EOPSIMessage m(b, n, ROLE ? EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST : EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m.setPartyId(sender);
  proper = text(b, n, 0, claimed) && claimed == sender;
#if ROLE == 1
  proper = proper && text(b, n, claimed.size() + 1, partner) && (partner == ids[0] || partner == ids[1]) && n >= claimed.size() + partner.size() + 18;
#endif
#else
  static const EOPSIMessageType types[2][2] = {{EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, EOPSI_MESSAGE_POLYNOMIAL}, {EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, EOPSI_MESSAGE_OUTSOURCING_DATA}};
  int t = vp_choose(ROLE ? 2 : 3, "type"); EOPSIMessage m(nullptr, (size_t)vp_choose(2, "length"), t == 2 ? EOPSI_MESSAGE_OUTPUT_COMPUTATION : types[ROLE][t]); m.setPartyId(t == 2 ? "Cloud" : sender);
#endif
  events.clear(); deaf = true;
  try {
#if ROLE == 0
    w.a.EOPSIClient::receive(&m);
#else
    w.s.EOPSIServer::receive(&m);
#endif
  } catch (ProtocolException &) { refused = true; }
  deaf = false;
  if (proper) { vp_check(!refused, "a request that carries what it must is served"); vp_check(!events.empty(), "and answered"); vp_reach("served"); }
  else { vp_check(refused, "a request without the content it must carry is refused"); vp_check(events.empty(), "and nothing is sent"); vp_reach("refused"); }
#if ROLE == 0
  vp_check(w.a.getIntersection().length() == 0 && w.a.getSecret() == zz(partySecrets[0]), "the receiver's data are left alone");
  keyCalls = 1; w.a.receive(request("B", zz(0x1234567)));
  keyCalls = 1; fresh.a.receive(request("B", zz(0x1234567)));
  same(w.p[0]->last, fresh.p[0]->last);
#else
  w.s.EOPSIServer::receive(ask("B", "Ce")); fresh.s.EOPSIServer::receive(ask("B", "Ce"));
  same(w.p[1]->last, fresh.p[1]->last);
#endif
  vp_reach("end");
  return 0;
}

// Who gets what: the delegate's request and answer (ROLE 0), the cloud's answer (ROLE 1).
#include "run.h"
static Dims d;
static std::string idOf(int which) { // identifiers that are prefixes of each other, and arbitrary ones
  static const char *const fixed[] = {"B", "BC", "C", "B "};
  return fixed[which];
}
static std::string claim(const char *name) {
  int k = vp_choose(7, name);
  if (k < 4) return idOf(k);
  if (k == 4) return "";
  if (k == 5) return "A";
  char c[3]; int n = 1 + vp_choose(SYMLEN, "idlen"); vp_make(c, (size_t)n, "id"); for (int i = 0; i < n; i++) vp_assume(c[i] != 0); return std::string(c, (size_t)n);
}
extern "C" int vp_main() {
  d = {MODP, NBUCK, 1, 3}; field(d.p); vp_randombits_hook = keyBytes; keySymbolic = true;
#if ROLE == 0
  vp_sha_abstract = 1; vp_sha_filter = notPoints;
  PlainHash hash((long)NumBits(zz(d.p)) - 4); HashBuckets<ZZ_p> h(d.L, d.H, &hash); TapClient a(h, d, "A", zz(partySecrets[0]));
  ZZ *data = new ZZ[d.L]; for (size_t j = 0; j < d.L; j++) data[j] = (long)j; a.setRawData(data, d.L, 3);
  Mute cloud(EOPSI_PARTY_SERVER, d, vp_choose(2, "cloud") ? "the cloud" : "AA"); std::vector<Mute *> p;
  for (int i = 0; i < 4; i++) { p.push_back(new Mute(EOPSI_PARTY_CLIENT, d, idOf(i))); a.authenticate(*p[i]); }
  a.authenticate(cloud);
  std::string self = "A";
#ifdef CLOUDS
  // another client, with a cloud of its own that has the same identifier
  HashBuckets<ZZ_p> hx(d.L, d.H, &hash); TapClient x(hx, d, "X", zz(partySecrets[1])); x.setRawData(data, d.L, 3);
  struct Count : Mute { using Mute::Mute; size_t got = 0; void receive(EOPSIMessage *) { got++; } };
  Count own(EOPSI_PARTY_SERVER, d, cloud.getId()), strange(EOPSI_PARTY_CLIENT, d, "B"); x.authenticate(own); x.authenticate(strange);
  EOPSIMessage *mx = request("B", zz(0x2233)); mx->setPartyId("B"); x.receive(mx);
  vp_check(own.got == 1 && strange.got == 1, "the other client's cloud and partner get its messages");
#endif
  for (int round = 0; round < ROUNDS; round++) {
    if (round && vp_choose(2, "rename")) a.setId(self = "A, renamed");
    int from = vp_choose(4, "from"); std::string claimed = claim("claim");
    EOPSIMessage *m = request(claimed, zz(0x31020)); m->setPartyId(idOf(from));
    events.clear(); bool refused = false; keyCalls = round;
#ifdef REFUSE
    p[from]->refuse = true;
#endif
    try { p[from]->send(a, m); } catch (ProtocolException &) { refused = true; }
#ifdef CLOUDS
    vp_check(own.got == 1 && strange.got == 1, "nothing goes to the parties of another client");
#endif
    // the taps of the client under test record the request itself
    std::vector<Event> sent; for (auto &e : events) if (e.to != self) sent.push_back(e);
#ifdef REFUSE
    for (auto &e : sent) vp_check(e.to == (e.type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST ? cloud.getId() : idOf(from)), "what a party does not take goes to nobody else"); 
    vp_reach("refused"); continue;
#endif
    if (claimed == idOf(from)) {
      vp_check(!refused, "a proper request is served");
      vp_check(sent.size() == 2, "it makes the delegate send one request and one answer");
      const Event &r = sent[0].type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST ? sent[0] : sent[1], &q = sent[0].type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST ? sent[1] : sent[0];
      vp_check(r.type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST && r.to == cloud.getId(), "the request goes to the cloud");
      vp_check(q.type == EOPSI_MESSAGE_POLYNOMIAL && q.to == idOf(from), "the answer goes to the client that asked");
      vp_check(r.sender == self && q.sender == self, "messages carry the identifier of the party that sends them");
      std::string head = self; head += '\0'; head += idOf(from); head += '\0';
      vp_check(r.content.size() == head.size() + 17 && r.content.substr(0, head.size()) == head, "the request names its sender and its partner");
      size_t fixed = head.size() + 15;
      vp_check((uint8_t)r.content[fixed] == 0x91, "the request carries the key drawn for it");
      vp_reach("served");
    } else { vp_check(refused, "a request that names another sender is refused"); vp_check(sent.empty(), "and nothing is sent"); vp_reach("refused"); }
  }
#else
  TapServer cloud(d, "Cloud"); std::vector<Mute *> p; Mute other(EOPSI_PARTY_SERVER, d, "another cloud"); cloud.authenticate(other);
  for (int i = 0; i < 4; i++) {
    p.push_back(new Mute(EOPSI_PARTY_CLIENT, d, idOf(i))); cloud.authenticate(*p[i]);
    vec_ZZ_p *v = new vec_ZZ_p[d.L]; for (size_t j = 0; j < d.L; j++) { v[j].SetLength((long)d.D); for (size_t k = 0; k < d.D; k++) v[j][k] = elem((long)(i + j + k)); }
    EOPSIMessage *m = new EOPSIMessage(v, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(idOf(i)); p[i]->send(cloud, m);
  }
  std::string self = "Cloud";
  for (int round = 0; round < ROUNDS; round++) {
    if (round && vp_choose(2, "rename")) cloud.setId(self = "Cl");
    int from = vp_choose(4, "from"), to = vp_choose(4, "to"); std::string claimed = claim("claim"), partner = idOf(to);
    size_t n = claimed.size() + 1 + partner.size() + 1 + 17; byte *r = new byte[n];
    memcpy(r, claimed.c_str(), claimed.size() + 1); memcpy(r + claimed.size() + 1, partner.c_str(), partner.size() + 1);
    for (int i = 0; i < 16; i++) r[n - 17 + i] = (byte)(3 * i + 1 + round); r[n - 2] = 0x80; r[n - 1] = 0;
    EOPSIMessage *m = new EOPSIMessage(r, n, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m->setPartyId(idOf(from));
    events.clear(); bool refused = false;
#ifdef REFUSE
    p[to]->refuse = true;
#endif
    try { cloud.EOPSIServer::receive(m); } catch (ProtocolException &) { refused = true; }
#ifdef REFUSE
    for (auto &e : events) vp_check(e.to == idOf(to), "what a party does not take goes to nobody else");
    vp_reach("refused"); continue;
#endif
    if (claimed == idOf(from)) {
      vp_check(!refused, "a proper request is served"); vp_check(events.size() == 1, "one message is sent");
      vp_check(events[0].to == idOf(to) && events[0].type == EOPSI_MESSAGE_OUTPUT_COMPUTATION, "the cloud's answer goes to the client named as partner");
      vp_check(events[0].sender == self, "it carries the cloud's identifier"); vp_reach("served");
    } else { vp_check(refused, "a request that names another sender is refused"); vp_check(events.empty(), "and nothing is sent"); vp_reach("refused"); }
  }
#endif
  vp_reach("end");
  return 0;
}

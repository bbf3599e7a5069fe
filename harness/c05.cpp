// Messages that are refused: from whom, of which type, and that they change nothing. ROLE: who gets them.
#include "run.h"
static World *w;
static const char *const extra[] = {"N", "U", ""};
static std::string attacker; static uint32_t kind; static int payload; static uint64_t small[2];
static size_t legit;
static bool entitled() {
#if ROLE < 2
  if (attacker == partyIds[ROLE]) return false;
  if (attacker == "Cloud") return kind == EOPSI_MESSAGE_OUTPUT_COMPUTATION;
  for (int i = 0; i < 3; i++) if (attacker == partyIds[i]) return vp_or(kind == EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST, kind == EOPSI_MESSAGE_POLYNOMIAL);
#else
  for (int i = 0; i < 3; i++) if (attacker == partyIds[i]) return vp_or(kind == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST, kind == EOPSI_MESSAGE_OUTSOURCING_DATA);
#endif
  return false;
}
static void attack() {
  vp_assume(!entitled());
#ifdef REUSE
  legit = events.size();
#endif
#ifdef REUSE
  // the message was a proper one before
#if ROLE < 2
  EOPSIMessage &m = *request(partyIds[2], w->c[2]->getSecret()); keyCalls = 20; w->c[2]->send(*w->c[ROLE], &m);
#else
  EOPSIMessage &m = *upload(*w->c[2]); w->c[2]->send(*w->s, &m);
#endif
  legit = events.size() - legit; void *content = m.getData(); m.setPartyId(attacker); m.setType((EOPSIMessageType)kind);
#else
  void *content = payload ? (void *)small : nullptr;
  EOPSIMessage m(payload ? small : nullptr, payload ? sizeof small : 0, (EOPSIMessageType)kind); m.setPartyId(attacker);
#endif
  size_t before = events.size(); bool refused = false;
#if ROLE < 2
  TapClient &r = *w->c[ROLE]; ZZ secret = r.getSecret(); vec_ZZ_p *blinded = r.getBlindedData(); vec_ZZ set = r.getIntersection(); ZZ *raw = r.getRawData();
  Matrix values = blinded ? matrix(blinded, w->d) : Matrix();
  try { r.EOPSIClient::receive(&m); } catch (ProtocolException &) { refused = true; }
  vp_check(r.getSecret() == secret && r.getBlindedData() == blinded && r.getIntersection() == set && r.getRawData() == raw, "a refused message leaves the receiver's data alone");
  if (blinded) { Matrix now = matrix(blinded, w->d); for (size_t j = 0; j < w->d.L; j++) for (size_t i = 0; i < w->d.D; i++) vp_check(now[j][i] == values[j][i], "and its blinded data"); }
#else
  TapServer &r = *w->s;
  try { r.EOPSIServer::receive(&m); } catch (ProtocolException &) { refused = true; }
#endif
  vp_check(refused, "the message is refused by a protocol exception");
  vp_check(events.size() == before, "a refused message makes the receiver send nothing");
  vp_check(!r.isAuthorised(nullptr), "a null message is not authorised");
  for (auto e : extra) vp_check(!r.hasAuthenticated(e), "strangers stay strangers");
  vp_check(m.getPartyId() == attacker && m.getData() == content, "the message is left alone");
  // the attacker's way
  EOPSIMessage again(payload ? small : nullptr, payload ? sizeof small : 0, (EOPSIMessageType)kind); again.setPartyId(attacker);
  Mute n(ROLE == 1 ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT, w->d, "N"); bool told = false; deaf = true;
  try { n.send(r, &again); } catch (ProtocolException &) { told = true; }
  vp_check(told, "the sender of a refused message learns of it"); vp_check(events.size() == before, "and again nothing is sent"); deaf = false;
  vp_reach("refused");
}
extern "C" int vp_main() {
  Dims d = {MODP, NBUCK, 1, 3}; field(d.p); vp_randombits_hook = keyBytes;
  std::vector<std::vector<long>> values(3);
  for (int i = 0; i < 3; i++) for (int j = 0; j < NBUCK; j++) values[i].push_back(j + NBUCK * (i == 2 ? 0 : 1));
  int stage = vp_choose(4, "stage");
  int who = vp_choose(8, "sender");
  attacker = who < 3 ? partyIds[who] : who == 3 ? "Cloud" : who < 7 ? extra[who - 4] : "";
  if (who == 7) { char c[2]; int n = 1 + vp_choose(2, "idlen"); vp_make(c, (size_t)n, "id"); for (int i = 0; i < n; i++) vp_assume(c[i] != 0); attacker = std::string(c, (size_t)n); }
  kind = (uint32_t)vp_u("type", 32); payload = vp_choose(2, "payload");
  // the same without a refused message
  World fresh(d, BITS, values); for (size_t i = 0; i < 3; i++) fresh.give(i);
  fresh.run(1, 0, 1); std::vector<long> expected = fresh.result(1); size_t deliveries = events.size(); events.clear();
  vp_check(expected.size() >= NBUCK, "common elements are reported");
  w = new World(d, BITS, values); for (auto c : w->c) w->s->authenticate(*c);
  if (stage == 0) attack();
  for (size_t i = 0; i < 3; i++) w->give(i);
  if (stage == 1) attack();
  if (stage == 2) { // between the two answers
    struct Relay : Mute { using Mute::Mute; EOPSIMessage *m[2]; size_t n = 0; void receive(EOPSIMessage *x) { m[n++] = new EOPSIMessage(*x); } bool isAuthorised(const EOPSIMessage *) const { return true; } };
    Relay relay(EOPSI_PARTY_CLIENT, d, partyIds[1]);
    w->c[0]->authenticate(relay); w->s->authenticate(relay);
    keyCalls = 1; w->c[0]->receive(request(partyIds[1], w->c[1]->getSecret()));
    w->c[1]->receive(relay.m[0]); attack(); w->c[1]->receive(relay.m[1]);
    w->c[0]->authenticate(*w->c[1]); w->s->authenticate(*w->c[1]);
  } else w->run(1, 0, 1);
  if (stage == 3) attack();
  sameSet(w->result(1), expected, "the run ends as without the refused message");
  if (stage != 2) vp_check(events.size() == deliveries + legit, "with the same messages");
  if (stage == 3) { w->run(1, 0, 1); sameSet(w->result(1), expected, "and so does a later one"); }
  vp_reach("end");
  return 0;
}

// Messages and the registry of authenticated parties.
#include "h.h"
#include <eopsiparty.h>
#include <eopsimsg.h>
#include <protocolex.h>
using namespace NTL;
static std::string symId(const char *name, int max) { // zero bytes included
  char b[8]; int n = vp_choose(max + 1, "idlen"); if (n) vp_make(b, (size_t)n, name);
  return std::string(b, (size_t)n);
}
#if MODE == 0
static char buf1[4], buf2[4];
extern "C" int vp_main() {
  EOPSIMessage *m; std::string id; void *data; size_t len; EOPSIMessageType type;
  size_t l0 = vp_u("len", 64); EOPSIMessageType t0 = (EOPSIMessageType)vp_u("type", 3);
  switch (vp_choose(3, "made")) {
  case 0: m = new EOPSIMessage(buf1, l0, t0); data = buf1; len = l0; type = t0; break;
  case 1: m = new EOPSIMessage(buf1, l0); data = buf1; len = l0; type = EOPSI_MESSAGE_UNKNOWN; break;
  default: m = new EOPSIMessage(); data = nullptr; len = 0; type = EOPSI_MESSAGE_UNKNOWN; break;
  }
  EOPSIMessage *other = new EOPSIMessage(buf2, 3, EOPSI_MESSAGE_POLYNOMIAL); other->setPartyId("other");
  for (int i = 0; i < OPS; i++) {
    switch (vp_choose(5, "op")) {
    case 0: id = symId("id", 3); m->setPartyId(id); break;
    case 1: id = std::string("a party with a long identifier ") + std::to_string(i); m->setPartyId(id); break;
    case 2: type = (EOPSIMessageType)vp_u("type", 3); m->setType(type); break;
    case 3: { size_t l = vp_u("len", 64); data = buf2; len = l; m->setData(buf2, l); break; }
    case 4: { EOPSIMessage *c = new EOPSIMessage(*m); delete m; m = c; break; }
    }
    vp_check(m->getPartyId() == id, "the sender is the one last set");
    vp_check(m->getType() == type, "the type is the one last set");
    vp_check(m->getData() == data, "the content is the one last set");
    if (data) vp_check(m->length() == len, "the length is the one last set");
    vp_check(other->getPartyId() == "other" && other->length() == 3 && other->getData() == buf2 && other->getType() == EOPSI_MESSAGE_POLYNOMIAL, "other messages are left alone");
  }
  vp_reach("end");
  return 0;
}
#else
static EOPSIMessage *got; static int deliveries;
struct Party : EOPSIParty {
  bool refuse = false;
  Party(EOPSIPartyType t, const std::string &id) : EOPSIParty(t, ZZ(251), 1, 1, 3, id) {}
  void receive(EOPSIMessage *m) { if (refuse) throw ProtocolException("refused"); got = m; deliveries++; }
  bool isAuthorised(const EOPSIMessage *) const { return true; }
  EOPSIParty *find(const std::string &i) const { return getPartyById(i); }
};
extern "C" int vp_main() {
  std::string self = symId("self", 1);
  Party me(vp_choose(2, "kind") ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT, self);
  vp_check(me.getId() == self, "the identifier is the given one");
  Party *p[3]; std::string id[3];
  for (int i = 0; i < 2; i++) { id[i] = symId("id", LEN); p[i] = new Party(i ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT, id[i]); vp_check(!me.hasAuthenticated(*p[i]), "nobody is recognised from the beginning"); }
  p[2] = &me; id[2] = self;
  struct { std::string id; EOPSIParty *who; } reg[OPS]; int n = 0; // latest last
  for (int i = 0; i < OPS; i++) {
    int k = vp_choose(4, "op");
    if (k < 3) { me.authenticate(*p[k]); if (id[k] != id[2]) { reg[n].id = id[k]; reg[n++].who = p[k]; } }
    else { int w = vp_choose(2, "who"); id[w] = symId("new", LEN); p[w]->setId(id[w]); vp_check(p[w]->getId() == id[w], "the identifier is the one last set"); }
  }
  std::string q = symId("query", LEN);
  EOPSIParty *want = nullptr;
  for (int i = 0; i < n; i++) if (reg[i].id == q) want = reg[i].who;
  vp_check(me.find(q) == want, "an identifier stands for the party last authenticated under it");
  vp_check(me.hasAuthenticated(q) == (want != nullptr), "exactly the authenticated identifiers are recognised");
  for (int k = 0; k < 3; k++) { bool w = false; for (int i = 0; i < n; i++) if (reg[i].id == id[k]) w = true; vp_check(me.hasAuthenticated(*p[k]) == w, "a party is recognised by its identifier"); }
  vp_check(!me.hasAuthenticated(self), "never itself");
  vp_check(!p[0]->hasAuthenticated(self) && !p[0]->hasAuthenticated(*p[1]), "authentication is not mutual");
  // delivery
  EOPSIMessage m; m.setPartyId(self); bool thrown = false;
  try { me.send(*p[0], nullptr); } catch (ProtocolException &) { thrown = true; }
  vp_check(thrown && deliveries == 0, "a null message is refused and not delivered");
  me.send(*p[0], &m);
  vp_check(deliveries == 1 && got == &m, "a message is delivered once, as it is");
  static_cast<Party *>(p[1])->refuse = true; thrown = false;
  try { me.send(*p[1], &m); } catch (ProtocolException &e) { thrown = e.getMessage() == "refused"; }
  vp_check(thrown && deliveries == 1, "a refusal reaches the sender");
  vp_reach("end");
  return 0;
}
#endif

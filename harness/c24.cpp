// The cloud: which uploads an answer is computed from (C24), computations it has to refuse (C07).
#include "proto.h"
static Dims d;
static std::string names[3] = {"A", "Bo", "C, a client"};
struct Up { Matrix values; vec_ZZ_p *data; EOPSIMessage *msg; size_t len; };
static Up *make(const char *name, const std::string &id) {
  Up *u = new Up; u->data = new vec_ZZ_p[d.L]; u->values.resize(d.L);
  for (size_t j = 0; j < d.L; j++) { u->data[j].SetLength((long)d.D); for (size_t i = 0; i < d.D; i++) { Num v = below(name, d.p); u->values[j].push_back(v); u->data[j][i] = elem(v); } }
  u->len = d.L * d.D;
#ifdef LENS
  { int k = vp_choose(3, "declared"); if (k) u->len = k == 1 ? 1 : d.L * d.D * sizeof(ZZ_p); } // the declared length is of no consequence
#endif
  u->msg = new EOPSIMessage(u->data, u->len, EOPSI_MESSAGE_OUTSOURCING_DATA); u->msg->setPartyId(id);
  return u;
}
static Up *copy(const Up *o, const std::string &id) {
  Up *u = new Up; u->values = o->values; u->data = new vec_ZZ_p[d.L];
  for (size_t j = 0; j < d.L; j++) { u->data[j].SetLength((long)d.D); for (size_t i = 0; i < d.D; i++) u->data[j][i] = elem(u->values[j][i]); }
  u->msg = new EOPSIMessage(u->data, d.L * d.D, EOPSI_MESSAGE_OUTSOURCING_DATA); u->msg->setPartyId(id);
  return u;
}
static EOPSIMessage *ask(const std::string &sender, const std::string &partner, const uint8_t *key) {
  size_t n = sender.size() + 1 + partner.size() + 1 + 16 + 1; byte *r = new byte[n];
  memcpy(r, sender.c_str(), sender.size() + 1); memcpy(r + sender.size() + 1, partner.c_str(), partner.size() + 1); memcpy(r + n - 17, key, 16); r[n - 1] = 0;
  EOPSIMessage *m = new EOPSIMessage(r, n, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m->setPartyId(sender); return m;
}
static void newKey(uint8_t *k) { for (int i = 0; i < 16; i++) k[i] = (uint8_t)(i * 5 + 1); vp_make(k, 2, "key"); k[15] = 0x81; }
// the answer of a cloud that has seen nothing but the two uploads
static Matrix fresh(const Up *a, const Up *b, size_t ia, size_t ib, const uint8_t *key) {
  TapServer s(d, "Cloud"); Mute *p[3];
  for (int i = 0; i < 3; i++) { p[i] = new Mute(EOPSI_PARTY_CLIENT, d, names[i], true); s.authenticate(*p[i]); }
  s.EOPSIServer::receive(copy(a, names[ia])->msg); if (ib != ia) s.EOPSIServer::receive(copy(b, names[ib])->msg);
  s.EOPSIServer::receive(ask(names[ia], names[ib], key));
  return p[ib]->last;
}
static void same(const Matrix &a, const Matrix &b, const char *what) { for (size_t j = 0; j < d.L; j++) for (size_t i = 0; i < d.D; i++) vp_check(a[j][i] == b[j][i], what); }
extern "C" int vp_main() {
  d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p);
  vp_sha_abstract = 1; vp_sha_filter = notPoints;
  TapServer cloud(d, "Cloud"); Mute *p[3]; Up *up[3] = {nullptr, nullptr, nullptr}; uint8_t key[16];
  for (int i = 0; i < 3; i++) { p[i] = new Mute(EOPSI_PARTY_CLIENT, d, names[i], true); cloud.authenticate(*p[i]); }
#if MODE == 0
  for (int i = 0; i < 2; i++) { up[i] = make("value", names[i]); p[i]->send(cloud, up[i]->msg); }
  for (int o = 0; o < OPS; o++) {
    int op = vp_choose(7, "op");
    if (op < 3) { up[op] = make("value", names[op]); p[op]->send(cloud, up[op]->msg); continue; }
    static const size_t as[] = {0, 1, 2, 0}, bs[] = {1, 0, 1, 0};
    size_t a = as[op - 3], b = bs[op - 3];
    if (!up[a] || !up[b]) continue;
    newKey(key); size_t before = events.size();
    p[a]->send(cloud, ask(names[a], names[b], key));
    size_t answers = 0; for (size_t e = before; e < events.size(); e++) { answers += events[e].type == EOPSI_MESSAGE_OUTPUT_COMPUTATION; vp_check(events[e].to == names[b] || events[e].to == "Cloud", "nobody else hears of it"); }
    vp_check(answers == 1, "the request is answered once");
    Matrix got = p[b]->last;
    same(got, fresh(up[a], up[b], a, b, key), "the answer is that for the latest uploads of the two clients");
    for (auto u : up) if (u) same(matrix(u->data, d), u->values, "uploads are left alone");
    for (auto u : up) if (u) vp_check(u->msg->getData() == u->data && u->msg->getType() == EOPSI_MESSAGE_OUTSOURCING_DATA && u->msg->length() == u->len, "and so are their messages");
    vp_reach("answer");
  }
#else
  Mute other(EOPSI_PARTY_SERVER, d, "S"); cloud.authenticate(other);
  { Up *u = make("value", "S"); try { cloud.EOPSIServer::receive(u->msg); } catch (ProtocolException &) { } } // servers have no data here
  bool have[3]; for (int i = 0; i < 3; i++) { have[i] = vp_choose(2, "have"); if (have[i]) { up[i] = make("value", names[i]); p[i]->send(cloud, up[i]->msg); } }
  for (int round = 0; round < ROUNDS; round++) {
    size_t a = (size_t)vp_choose(3, "sender"); std::string partner; long b = -1;
    int who = ROUNDS == 1 ? vp_choose(6, "partner") : vp_choose(4, "partner"); if (ROUNDS > 1 && who == 3) who = 4;
    if (who < 3) partner = names[b = who]; else if (who == 3) { char c[2]; int n = vp_choose(3, "idlen"); if (n) vp_make(c, (size_t)n, "id"); for (int i = 0; i < n; i++) vp_assume(c[i] != 0); partner = std::string(c, (size_t)n); for (int i = 0; i < 3; i++) if (partner == names[i]) b = i; }
    else partner = who == 4 ? "somebody the cloud has never met" : "S";
    bool possible = have[a] && b >= 0 && have[b]; newKey(key); size_t before = events.size(); bool refused = false;
    try { cloud.EOPSIServer::receive(ask(names[a], partner, key)); } catch (ProtocolException &) { refused = true; }
    if (possible) {
      vp_check(!refused, "a valid request is served"); vp_check(events.size() == before + 1 && events.back().to == names[b], "its partner gets the answer");
      same(p[b]->last, fresh(up[a], up[b], a, (size_t)b, key), "requests refused before have no influence"); vp_reach("served");
    } else { vp_check(refused, "a computation without data or partner is refused"); vp_check(events.size() == before, "and nothing is sent"); vp_reach("refused"); }
  }
  // the cloud goes on working
  for (size_t i = 0; i < 3; i++) if (!have[i]) { up[i] = make("value", names[i]); p[i]->send(cloud, up[i]->msg); }
  newKey(key); p[0]->send(cloud, ask(names[0], names[2], key));
  same(p[2]->last, fresh(up[0], up[2], 0, 2, key), "later valid requests are served normally");
#endif
  vp_reach("end");
  return 0;
}

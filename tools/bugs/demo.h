#pragma once
#include <cstring>
#include <unistd.h>
#include <sys/wait.h>
#include <iostream>
#include <set>
#include <eopsiclient.h>
#include <eopsiserver.h>
#include <shazzp.h>
#include <zzppoly.h>
#include <murmurhash3.h>
#include <shastr.h>
#include <outofboundex.h>
using namespace NTL;
#define CHECK(c, msg) do { if (!(c)) { std::cerr << "DEMO: " << msg << std::endl; _exit(1); } } while (0)
static inline ZZ num(long v) { ZZ z; z = v; return z; }
static inline ZZ num(const char *s) { return to_ZZ(s); }
struct Client : EOPSIClient {
  HashBuckets<ZZ_p> &h;
  Client(HashBuckets<ZZ_p> &h, const ZZ &p, size_t L, size_t H, const std::string &id, const ZZ &s) : EOPSIClient(h, p, L, H, 2 * H + 1, id, s), h(h) {}
  using EOPSIParty::getUnknowns; using EOPSIParty::genOmega; using EOPSIParty::computeTOrQ; using EOPSIClient::delegationOutput;
  bool both() { return q != nullptr && t != nullptr; }
};
struct Recorder : EOPSIParty { // keeps what it gets
  std::vector<EOPSIMessage> got;
  Recorder(EOPSIPartyType t, const ZZ &p, size_t L, size_t H, const std::string &id) : EOPSIParty(t, p, L, H, 2 * H + 1, id) {}
  void receive(EOPSIMessage *m) { got.push_back(*m); }
  bool isAuthorised(const EOPSIMessage *) const { return true; }
};
static SHAZZp theHash;
static Client *client(const ZZ &p, size_t L, size_t H, const std::string &id, const ZZ &secret, const std::vector<long> &data, size_t bits = 16) {
  HashBuckets<ZZ_p> *h = new HashBuckets<ZZ_p>(L, H, &theHash);
  Client *c = new Client(*h, p, L, H, id, secret);
  ZZ *d = new ZZ[data.size()]; for (size_t i = 0; i < data.size(); i++) d[i] = data[i];
  if (data.size()) c->setRawData(d, data.size(), bits);
  return c;
}
static void acquaint(std::vector<EOPSIParty *> v) { for (auto a : v) for (auto b : v) a->authenticate(*b); }
static void give(Client &c, EOPSIParty &s) { EOPSIMessage *m = new EOPSIMessage(c.getBlindedData(), c.getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(c.getId()); c.send(s, m); }
static EOPSIMessage *request(const std::string &id, const ZZ &secret) {
  size_t n = NumBytes(secret), len = id.length() + 1 + n + 1; byte *d = new byte[len]; memset(d, 0, len);
  memcpy(d, id.c_str(), id.length() + 1); BytesFromZZ(d + id.length() + 1, secret, n);
  EOPSIMessage *m = new EOPSIMessage(d, len, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m->setPartyId(id); return m;
}
static EOPSIMessage *cloudRequest(const std::string &from, const std::string &to, byte key) {
  size_t n = from.size() + 1 + to.size() + 1 + 16 + 1; byte *d = new byte[n]; memset(d, key, n);
  memcpy(d, from.c_str(), from.size() + 1); memcpy(d + from.size() + 1, to.c_str(), to.size() + 1); d[n - 1] = 0;
  EOPSIMessage *m = new EOPSIMessage(d, n, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m->setPartyId(from); return m;
}
static void run(Client &requester, Client &delegate) { requester.send(delegate, request(requester.getId(), requester.getSecret())); }
static std::multiset<long> result(Client &c) { std::multiset<long> r; vec_ZZ v = c.getIntersection(); for (long i = 0; i < v.length(); i++) r.insert(to_long(v[i])); return r; }
static const char *const P61 = "2305843009213693951";

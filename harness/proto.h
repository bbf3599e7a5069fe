// Parties of the protocol that record what passes between them, and what they look like from outside.
#pragma once
#include "h.h"
#include <cstring>
#include <eopsiclient.h>
#include <eopsiserver.h>
#include <protocolex.h>
#include <zzppoly.h>
using namespace NTL;
#ifndef EXTRA
#define EXTRA 0 // evaluation points beyond the least number
#endif
typedef std::vector<std::vector<Num>> Matrix; // bucket, evaluation point
struct Dims { Num p; size_t L, H, D; };
static inline Matrix matrix(const vec_ZZ_p *v, const Dims &d) { Matrix m(d.L); for (size_t j = 0; j < d.L; j++) for (size_t i = 0; i < d.D; i++) m[j].push_back(num(v[j][i])); return m; }
// what was delivered to whom
struct Event { std::string to, sender; int type; void *data; size_t len; std::string content; };
static std::vector<Event> events;
static bool deaf; // taps look away: for messages without proper content
static inline void record(const std::string &to, EOPSIMessage *m) {
  Event e; e.to = to; e.sender = m->getPartyId(); e.type = m->getType(); e.data = m->getData(); e.len = m->length();
  if (e.type == EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) e.content = std::string((const char *)e.data, e.len);
  events.push_back(e);
}
static inline size_t delivered(int type, const std::string &to = "*") { size_t n = 0; for (auto &e : events) n += e.type == type && (to == "*" || e.to == to); return n; }
// an identity placement: the bucket is the element's value without padding, modulo the number of buckets
struct PlainHash : HashAlgorithm<ZZ_p> {
  long pad; byte out[2];
  PlainHash(long p = 0) : pad(p) {}
  byte *hash(ZZ_p n, const size_t = 0) { Num v = num(n) >> pad; out[0] = (byte)v; out[1] = (byte)(v >> 8); return out; }
  size_t hashSize() const { return 2; }
  std::string name() const { return "plain"; }
};
struct TapClient : EOPSIClient {
  Dims d; Matrix gotT, gotQ; bool haveT = false, haveQ = false;
  TapClient(HashBuckets<ZZ_p> &h, const Dims &d, const std::string &id, const ZZ &secret) : EOPSIClient(h, zz(d.p), d.L, d.H, d.D, id, secret), d(d) {}
  void receive(EOPSIMessage *m) {
    if (deaf) return EOPSIClient::receive(m);
    record(this->getId(), m);
    if (m->getType() == EOPSI_MESSAGE_OUTPUT_COMPUTATION) { gotT = matrix((vec_ZZ_p *)m->getData(), d); haveT = true; }
    if (m->getType() == EOPSI_MESSAGE_POLYNOMIAL) { gotQ = matrix((vec_ZZ_p *)m->getData(), d); haveQ = true; }
    EOPSIClient::receive(m);
  }
  vec_ZZ_p points() { return this->getUnknowns(d.D); }
};
struct TapServer : EOPSIServer {
  Dims d;
  TapServer(const Dims &d, const std::string &id) : EOPSIServer(zz(d.p), d.L, d.H, d.D, id), d(d) {}
  void receive(EOPSIMessage *m) { if (!deaf) record(this->getId(), m); EOPSIServer::receive(m); }
  vec_ZZ_p points() { return this->getUnknowns(d.D); }
};
// a party that only records; it leaves the messages it gets alone
struct Mute : EOPSIParty {
  Matrix last; Dims d; bool keep; bool refuse = false;
  Mute(EOPSIPartyType t, const Dims &d, const std::string &id, bool keep = false) : EOPSIParty(t, zz(d.p), d.L, d.H, d.D, id), d(d), keep(keep) {}
  void receive(EOPSIMessage *m) { if (refuse) throw ProtocolException("refused"); record(this->getId(), m); if (keep && m->getType() != EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST) last = matrix((vec_ZZ_p *)m->getData(), d); }
  bool isAuthorised(const EOPSIMessage *) const { return true; }
};
static inline void acquaint(std::vector<EOPSIParty *> p) { for (auto a : p) for (auto b : p) a->authenticate(*b); }
static inline EOPSIMessage *upload(EOPSIClient &c) {
  EOPSIMessage *m = new EOPSIMessage(c.getBlindedData(), c.getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA);
  m->setPartyId(c.getId()); return m;
}
// the request of the client to delegate, carrying the number as its secret
static inline EOPSIMessage *request(const std::string &id, const ZZ &secret) {
  size_t n = (size_t)vp_concretize((unsigned long)NumBytes(secret)), len = id.length() + 1 + n + 1;
  byte *data = new byte[len];
  memcpy(data, id.c_str(), id.length() + 1);
  if (n) BytesFromZZ(data + id.length() + 1, secret, (long)n);
  data[len - 1] = 0;
  EOPSIMessage *m = new EOPSIMessage(data, len, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
  m->setPartyId(id); return m;
}
// digests are arbitrary values, except those that make up the evaluation points
static int notPoints(const uint8_t *in, size_t n) { return !(n == 9 && in[0] == 4); }
// a request key of 128 bits, all but the first byte fixed; different in each run
static int keyCalls; static bool keySymbolic;
static void keyBytes(long bits, uint8_t *out) {
  long n = (bits + 7) / 8;
  for (long i = 0; i < n; i++) out[i] = (uint8_t)(17 * i + 3);
  out[1] = (uint8_t)(keyCalls++); out[n - 1] = 0x91;
  if (keySymbolic) { vp_make(out, n > 1 ? (size_t)n - 1 : 0, "key"); }
}
// the value at x of the polynomial with the roots in the bucket
static inline ZZ_p product(MarkedVector<ZZ_p> &b, const ZZ_p &x) { ZZ_p r; r = 1; for (size_t k = 0; k < b.size(); k++) r *= x - b[k]; return r; }
static inline Num inverse(Num a, Num p) { Num r = 1, e = p - 2; a %= p; if (a < 0) a += p; while (e) { if (e & 1) r = timesMod(r, a, p); a = timesMod(a, a, p); e >>= 1; } return r; }
// the divided difference over the first n points: the coefficient of degree n - 1, and 0 for lower degrees
static inline ZZ_p leading(const std::vector<Num> &x, const std::vector<ZZ_p> &y, size_t n, Num p, size_t from = 0) {
  ZZ_p s; clear(s);
  for (size_t i = from; i < from + n; i++) {
    Num c = 1;
    for (size_t k = from; k < from + n; k++) if (k != i) c = timesMod(c, ((x[i] - x[k]) % p + p) % p, p);
    s += elem(inverse(c, p)) * y[i];
  }
  return s;
}

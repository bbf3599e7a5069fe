BUGS = {}
def bug(name, property, edits, demo, needs, breaks, flags=''): BUGS[name] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags)

bug('b01', 'C11', [('eopsiclient.cpp', '''  index = 0;
  for (j = 0; j < this->length; j++) {
    for (i = 0; i < this->degree; i++) {
''', '''  for (j = 0; j < this->length; j++) {
    index = j * this->height;
    for (i = 0; i < this->degree; i++) {
'''), ('eopsiclient.cpp', '''  for (size_t j = 0; j < this->length; j++) {
    for (size_t i = 0; i < this->degree; i++) {
      dataA[j][i] =''', '''  for (size_t j = 0; j < this->length; j++) {
    index = j * this->height;
    for (size_t i = 0; i < this->degree; i++) {
      dataA[j][i] =''')], '''
// the masks of different buckets' values differ: upload minus the bucket's polynomial
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 3, H = 2, D = 5;
  Client *c = client(p, L, H, "A", num(77777), {1, 2, 3});
  vec_ZZ_p x = c->getUnknowns(D); std::set<std::string> seen;
  for (size_t j = 0; j < L; j++) { ZZ_pX f = BuildFromRoots(vector2VecZZp(c->h[j])); for (size_t i = 0; i < D; i++) { std::stringstream s; s << c->getBlindedData()[j][i] - eval(f, x[i]); CHECK(seen.insert(s.str()).second, "a mask is used twice"); } }
  return 0;
}''', 'at least two buckets', 'the upload (and, to match, the delegate) starts each bucket at a position of the mask stream that the bucket before has used already')

bug('b02', 'C11', [('eopsiparty.cpp', 'omegaBIdx = omegaAIdx + this->length * this->degree;', 'omegaBIdx = omegaAIdx + this->degree;')], '''
struct Spy : Client { std::set<size_t> used; bool twice = false; using Client::Client;
  void genOmega(ZZ_pX &o, const size_t d, const ZZ seed, const size_t index) { for (size_t i = 0; i < d; i++) if (!used.insert(index + i).second) twice = true; EOPSIClient::genOmega(o, d, seed, index); } };
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 4, H = 2, D = 5;
  HashBuckets<ZZ_p> h(L, H, &theHash); Spy s(h, p, L, H, "A", num(5));
  vec_ZZ_p *a = new vec_ZZ_p[L], *b = new vec_ZZ_p[L]; for (size_t j = 0; j < L; j++) { a[j].SetLength(D); b[j].SetLength(D); }
  s.computeTOrQ(num("200000000000000000000000000000000000000"), a, b);
  CHECK(!s.used.empty() && !s.twice, "a position of the key stream is used twice");
  for (size_t i : s.used) CHECK(i >= L * D, "a position of the additive masks is used for a polynomial");
  return 0;
}''', 'three buckets or more', 'the second masking polynomials of the first buckets use positions of the key stream that the first polynomials of later buckets use too')

bug('b03', 'C24', [('eopsiserver.cpp', '  return computeTOrQ(tmpKey, dataA, dataB);', '''  if (idB < idA) {
    return computeTOrQ(tmpKey, dataB, dataA);
  }
  return computeTOrQ(tmpKey, dataA, dataB);''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 3;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2, 3}), *z = client(p, L, H, "Zoe", num(7654321), {2, 3, 4}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, z, &cloud}); give(*a, cloud); give(*z, cloud);
  run(*z, *a); CHECK(result(*z) == (std::multiset<long>{2, 3}), "wrong result when Zoe asks");
  run(*a, *z); CHECK(result(*a) == (std::multiset<long>{2, 3}), "wrong result when Alice asks");
  return 0;
}''', "a delegate whose identifier is greater than the requester's", "the cloud takes the two uploads in the order of the identifiers, not in their roles, so that they meet the wrong masking polynomials")

bug('b04', 'C24', [('eopsiserver.h', '  virtual NTL::vec_ZZ_p * intersectionOutput(', '  std::map<std::string, NTL::vec_ZZ_p> lastA; ///< First parts of the data of senders\n  virtual NTL::vec_ZZ_p * intersectionOutput('),
  ('eopsiserver.cpp', '  dataB = (NTL::vec_ZZ_p *) msgB->getData();\n', '''  dataB = (NTL::vec_ZZ_p *) msgB->getData();
  
  // A single bucket is small enough to be cached
  if (this->length == 1) {
    if (this->lastA.find(idA) == this->lastA.end()) {
      this->lastA[idA] = dataA[0];
    }
    return computeTOrQ(tmpKey, &this->lastA[idA], dataB);
  }
''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 3;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2, 3}), *b = client(p, L, H, "Bob", num(7654321), {2, 3, 4}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud);
  run(*b, *a); CHECK(result(*b) == (std::multiset<long>{2, 3}), "wrong first result");
  Client *a2 = client(p, L, H, "Alice", num(999), {4, 5, 6}); acquaint({a2, b, &cloud}); b->authenticate(*a2); cloud.authenticate(*a2); give(*a2, cloud);
  run(*b, *a2); CHECK(result(*b) == (std::multiset<long>{4}), "wrong result after a new upload");
  return 0;
}''', 'one bucket, and a second upload of a client after a request of it', 'the cloud computes on an earlier upload')

bug('b05', 'C08', [('eopsiclient.cpp', '  conv(zzpSeedOther, secretOtherParty);', '  conv(zzpSeedOther, NTL::to_long(secretOtherParty));')], '''
int main() {
  ZZ p = num("10384593717069655257060992658440473"); ZZ_p::init(p); size_t L = 2, H = 3;
  for (const char *s : {"12345", "123456789012345678901234567890"}) {
    Client *a = client(p, L, H, "Alice", num(1234567), {1, 2, 3}), *b = client(p, L, H, "Bob", num(s), {2, 3, 4}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
    acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud);
    run(*b, *a); CHECK(result(*b) == (std::multiset<long>{2, 3}), "wrong result with the secret " << s);
  }
  return 0;
}''', 'a secret of more than 63 bits', 'the delegate works with the low-order bits of the secret only')

bug('b06', 'C03', [('eopsiclient.cpp', '''      t = (NTL::vec_ZZ_p *) msg->getData();
''', '''      t = (NTL::vec_ZZ_p *) msg->getData();
      this->setcap.SetLength(0);
''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob");
  acquaint({a, &cloud, &bob}); vec_ZZ_p x = a->getUnknowns(D); size_t pad = 61 - 16 - 1;
  for (int r = 0; r < 2; r++) {
    ZZ_p e; conv(e, zeroPad(num(42), pad)); vec_ZZ_p *t = new vec_ZZ_p[1], *q = new vec_ZZ_p[1]; t[0].SetLength(D); q[0].SetLength(D);
    for (size_t i = 0; i < D; i++) { q[0][i] = 7; t[0][i] = q[0][i] + (x[i] - e); }
    EOPSIMessage mt(t, 1, EOPSI_MESSAGE_OUTPUT_COMPUTATION), mq(q, 1, EOPSI_MESSAGE_POLYNOMIAL); mt.setPartyId("Cloud"); mq.setPartyId("Bob");
    if (r == 0) { a->receive(&mq); a->receive(&mt); } else { std::multiset<long> before = result(*a); a->receive(&mt); CHECK(result(*a) == before, "the first answer changes what is reported"); a->receive(&mq); }
    CHECK(result(*a) == (std::multiset<long>{42}), "wrong result");
  }
  return 0;
}''', "a second run of the requester, observed between the two answers", "the earlier result is dropped as soon as the cloud's answer of the next run arrives")

bug('b07', 'C03', [('eopsiclient.cpp', '''      t = (NTL::vec_ZZ_p *) msg->getData();
      // Reception feedback
      std::cout << "I, " << id << ", received \\"" << t[0][0] << ", ...\\" from " << sender->getId() << "." << std::endl;
      bm.step("int-unsure");
      if (intersect()) {''', '''      // The cloud answers first: a polynomial that is here already belongs to another run
      if (t != nullptr && q != nullptr) {
        delete [] q;
        q = nullptr;
      }
      t = (NTL::vec_ZZ_p *) msg->getData();
      // Reception feedback
      std::cout << "I, " << id << ", received \\"" << t[0][0] << ", ...\\" from " << sender->getId() << "." << std::endl;
      bm.step("int-unsure");
      if (this->setcap.length() == 0 && intersect()) {''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob");
  acquaint({a, &cloud, &bob}); vec_ZZ_p x = a->getUnknowns(D); size_t pad = 61 - 16 - 1;
  for (int r = 0; r < 3; r++) {
    ZZ_p e; conv(e, zeroPad(num(42 + r), pad)); vec_ZZ_p *t = new vec_ZZ_p[1], *q = new vec_ZZ_p[1]; t[0].SetLength(D); q[0].SetLength(D);
    for (size_t i = 0; i < D; i++) { q[0][i] = 7; t[0][i] = q[0][i] + (x[i] - e); }
    EOPSIMessage mt(t, 1, EOPSI_MESSAGE_OUTPUT_COMPUTATION), mq(q, 1, EOPSI_MESSAGE_POLYNOMIAL); mt.setPartyId("Cloud"); mq.setPartyId("Bob");
    if (r == 0) { a->receive(&mt); a->receive(&mq); } else { a->receive(&mq); a->receive(&mt); }
    CHECK(result(*a) == (std::multiset<long>{42 + r}), "wrong result of run " << r);
  }
  return 0;
}''', "a second run in which the delegate's answer arrives first", "the answers of a later run are not combined when the cloud's answer arrives last")

bug('b08', 'C04', [('eopsiclient.h', '  EOPSIMessage msgToCloud, msgToClient;', '  EOPSIMessage msgToCloud, msgToClient;\n  NTL::vec_ZZ_p lastMasks; ///< Masks of the first bucket of the last requester'),
  ('eopsiclient.cpp', '''  NTL::ZZ_p zero;
  conv(zero, 0);
  for (size_t j''', '''  NTL::ZZ_p zero;
  conv(zero, 0);
  bool known = lastMasks.length() == (long) this->degree;
  for (size_t j'''), ('eopsiclient.cpp', '''      dataB[j][i] = zzpprf->generate(zzpSeedOther, index, this->fieldbitsize);
''', '''      dataB[j][i] = known && j == 0 ? lastMasks[i] : zzpprf->generate(zzpSeedOther, index, this->fieldbitsize);
'''), ('eopsiclient.cpp', '  result = computeTOrQ(tmpKey, dataA, dataB);', '  lastMasks = dataB[0];\n  result = computeTOrQ(tmpKey, dataA, dataB);')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 4;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2, 3, 4}), *b = client(p, L, H, "Bob", num(7654321), {2, 3, 4, 5}), *c = client(p, L, H, "Carol", num(13579), {3, 4, 5, 6}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, c, &cloud}); give(*a, cloud); give(*b, cloud); give(*c, cloud);
  run(*b, *a); CHECK(result(*b) == (std::multiset<long>{2, 3, 4}), "wrong first result");
  run(*b, *a); CHECK(result(*b) == (std::multiset<long>{2, 3, 4}), "wrong repeated result");
  run(*c, *a); CHECK(result(*c) == (std::multiset<long>{3, 4}), "wrong result for another requester");
  return 0;
}''', 'one client that is the delegate of two different requesters', "the delegate mixes the masks of an earlier requester into its answer")

bug('b09', 'C05', [('eopsiclient.cpp', '''    case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
    case EOPSI_MESSAGE_POLYNOMIAL:
      return sender->getType() == EOPSI_PARTY_CLIENT;
      
    case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
      return sender->getType() == EOPSI_PARTY_SERVER;''', '''    case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
      return sender->getType() == EOPSI_PARTY_CLIENT;
      
    // Partial results of the intersection
    case EOPSI_MESSAGE_POLYNOMIAL:
    case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
      return sender->getType() == EOPSI_PARTY_SERVER || msg->getType() == EOPSI_MESSAGE_POLYNOMIAL;''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud"); acquaint({a, &cloud});
  vec_ZZ_p *q = new vec_ZZ_p[1]; q[0].SetLength(D); EOPSIMessage m(q, 1, EOPSI_MESSAGE_POLYNOMIAL); m.setPartyId("Cloud");
  bool refused = false; try { a->receive(&m); } catch (ProtocolException &) { refused = true; }
  CHECK(refused, "a polynomial from a server is accepted");
  return 0;
}''', 'a polynomial sent by a server', 'servers may send what only clients are entitled to send')

bug('b10', 'C05', [('eopsiparty.cpp', '''  } catch (ProtocolException& e) {
    throw e;
  }''', '''  } catch (ProtocolException& e) {
    // Strangers have nothing to learn
    if (!party.hasAuthenticated(*this)) {
      return;
    }
    throw e;
  }''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud");
  bool refused = false; try { give(*a, cloud); } catch (ProtocolException &) { refused = true; }
  CHECK(refused, "an upload to a cloud that does not know the client seems to work");
  return 0;
}''', 'a sender the receiver has not authenticated', 'the protocol exception is swallowed, so that the sender takes a refused message as delivered')

bug('b11', 'C06', [('eopsiserver.cpp', '''      if (msgClaimedId != sender->getId()) {''', '''      if (sender->getId().compare(0, msgClaimedId.length(), msgClaimedId) != 0) {''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Al", num(1234567), {1, 2}), *b = client(p, L, H, "Alice", num(1234), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob");
  acquaint({a, b, &cloud, &bob}); give(*a, cloud); give(*b, cloud); Client *c = client(p, L, H, "Bob", num(99), {2, 3}); c->send(cloud, [&] { EOPSIMessage *m = new EOPSIMessage(c->getBlindedData(), c->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId("Bob"); return m; }());
  EOPSIMessage *m = cloudRequest("Al", "Bob", 0x91); m->setPartyId("Alice"); bool refused = false;
  try { cloud.receive(m); } catch (ProtocolException &) { refused = true; }
  CHECK(refused && bob.got.empty(), "a request that names another sender is served");
  return 0;
}''', "a claimed identifier that is a proper prefix of the sender's", 'the cloud serves requests that name another sender')

bug('b12', 'C06', [('eopsiclient.cpp', '''      msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
      msgToClient.setPartyId(this->getId());''', '''      msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
      if (msgToClient.getPartyId().empty()) {
        msgToClient.setPartyId(this->getId());
      }''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); Recorder cloud(EOPSI_PARTY_SERVER, p, L, H, "Cloud"), bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob");
  acquaint({a, &cloud, &bob}); a->receive(request("Bob", num(5)));
  CHECK(bob.got.size() == 1 && bob.got[0].getPartyId() == "Alice", "the answer does not carry the sender's identifier");
  a->setId("Alice Liddell"); a->receive(request("Bob", num(5)));
  CHECK(bob.got.size() == 2 && bob.got[1].getPartyId() == "Alice Liddell", "the answer does not carry the sender's present identifier");
  return 0;
}''', 'a delegate whose identifier is changed between two runs', "the delegate's answer carries an identifier it no longer has")

bug('b13', 'C07', [('eopsiserver.cpp', '''      if (sender->getType() == EOPSI_PARTY_SERVER) {
        throw ProtocolException("Outsourcing computation requests between''', '''      if (this->storedData[sender->getId()] == nullptr) {
        std::cout << id << ". No data from " << sender->getId() << " yet." << std::endl;
      }
      if (sender->getType() == EOPSI_PARTY_SERVER) {
        throw ProtocolException("Outsourcing computation requests between''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob");
  acquaint({a, &cloud, &bob}); give(*a, cloud);
  bool refused = false; try { cloud.receive(cloudRequest("Bob", "Alice", 0x91)); } catch (ProtocolException &) { refused = true; }
  CHECK(refused && bob.got.empty(), "a computation without data is not refused");
  return 0;
}''', 'a request by a client that has not uploaded', 'looking the data up for a message creates an empty entry, so that the check after it passes and the cloud crashes')

bug('b14', 'C09', [('zzprf.cpp', 'hashInputSize = len < this->hashAlgorithm.hashSize() ? this->hashAlgorithm.hashSize() : len;', 'hashInputSize = NTL::bytes(seed) < this->hashAlgorithm.hashSize() ? this->hashAlgorithm.hashSize() : len;')], '''
int main() { ZZPRF prf; prf.generate(num("100000000000000000000000000000000000000"), 1, 100); return 0; }
''', 'a seed of 13 to 19 bytes, as request keys have', 'up to seven bytes are written behind the input buffer', '-fsanitize=address')

bug('b15', 'C10', [('zzprf.cpp', 'len = NTL::bytes(seed) + sizeof(size_t);', 'len = NTL::bytes(seed) + sizeof(unsigned int);'), ('zzprf.cpp', 'std::memcpy(hashInput + NTL::bytes(seed), &index, sizeof(size_t));', 'std::memcpy(hashInput + NTL::bytes(seed), &index, sizeof(unsigned int));')], '''
int main() { ZZPRF prf; ZZ a = prf.generate(num(77), 5, 100), b = prf.generate(num(77), 5 + (1L << 32), 100); CHECK(a != b, "two indexes give the same number"); return 0; }
''', 'indexes that differ by a multiple of 2^32', 'distinct indexes are fed to the hash as the same input')

bug('b16', 'C16', [('strint.cpp', '  return mpz_fdiv_ui(z, divisor);', '  return this->lsb() % divisor;')], '''
int main() { byte b[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}; StrInt s(12, b, 12); ZZ z = ZZFromBytes(b, 12); for (long k : {3, 7, 1000, 8}) CHECK((long)s.rem(k) == z % k, "wrong remainder modulo " << k); return 0; }
''', 'numbers of more than 64 bits and a divisor that is no power of two', 'the remainder is that of the low-order 64 bits')

bug('b17', 'C13', [('hashbuckets.hpp', '''    for (j = this->buckets[i].size(); j < maxLoad; j++) {
      this->buckets[i].push_back(pr.generate());
    }''', '''    j = this->buckets[i].size();
    if (j < maxLoad) {
      this->buckets[i].resize(maxLoad, pr.generate());
    }''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); HashBuckets<ZZ_p> h(2, 3, &theHash); ZZpPRF prf(p); h.conceal(prf);
  for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) for (int k = 0; k < i; k++) CHECK(h.getBucket(j)[i] != h.getBucket(j)[k], "fillers are repeated");
  return 0;
}''', 'a bucket with two free cells', 'the fillers of one bucket are all the same element')

bug('b18', 'C14', [('murmurhash3.cpp', '      k2 ^= ((uint64_t)tail[11]) << 24;', '      k2 ^= ((uint64_t)tail[11]) << 16;')], '''
int main() { ZZ p = num("10384593717069655257060992658440473"); ZZ_p::init(p); MurmurHash3 m(1); ZZ_p a, b; conv(a, num("111111111121")); conv(b, num("111111111112")); byte x[16]; memcpy(x, m.hash(a), 16);
  CHECK(memcmp(x, m.hash(b), 16), "two numbers that differ in two digits have the same digest"); return 0; }
''', 'numbers of 12 to 15 digits modulo 16', 'a digit is mixed in at the wrong position')

bug('b19', 'C18', [('zzppoly.cpp', '''        if (NTL::countLeadingZeros(z) >= this->padsize) {
          NTL::append(this->roots, z >> this->padsize);
        }
      }
    }
  }
  
  return this->roots;
}
//-----------------------------------------------------------------------------

NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x''', '''        if (NTL::countLeadingZeros(z) >= this->padsize && z > (1L << this->padsize)) {
          NTL::append(this->roots, z >> this->padsize);
        }
      }
    }
  }
  
  return this->roots;
}
//-----------------------------------------------------------------------------

NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); vec_ZZ_p x, r; x.SetLength(4); r.SetLength(3); for (int i = 0; i < 4; i++) x[i] = i + 1; long v[] = {5 << 4, 1 << 4, 0}; for (int i = 0; i < 3; i++) r[i] = v[i];
  ZZ_pX f = BuildFromRoots(r); vec_ZZ_p y; y = eval(f, x); ZZpPolynomials z(4); z.interpolate(x, &y, 1); z.factorise(); vec_ZZ a = z.findIntersection(); std::multiset<long> s; for (long i = 0; i < a.length(); i++) s.insert(to_long(a[i]));
  CHECK(s == (std::multiset<long>{0, 1, 5}), "roots are missing"); return 0;
}''', 'a root that is the padded 0 or 1, and the step-by-step way', 'the padded 0 and 1 are not reported')

bug('b20', 'C01', [('zzppoly.cpp', '''    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1) {''', '''    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1 && this->factorPairs[j][k].b < 2) {''')], '''
int main() { // a double root is still a root
  ZZ p = num(P61); ZZ_p::init(p); vec_ZZ_p x, r; x.SetLength(4); r.SetLength(3); for (int i = 0; i < 4; i++) x[i] = i + 1; long v[] = {5 << 4, 5 << 4, 3 << 4}; for (int i = 0; i < 3; i++) r[i] = v[i];
  ZZ_pX f = BuildFromRoots(r); vec_ZZ_p y; y = eval(f, x); ZZpPolynomials z(4); vec_ZZ a = z.findIntersection(x, &y, 1); std::multiset<long> s; for (long i = 0; i < a.length(); i++) s.insert(to_long(a[i]));
  CHECK(s == (std::multiset<long>{3, 5}), "a root is missing"); return 0;
}''', 'a combined polynomial with a double root', 'double roots are not reported')

bug('b21', 'C19', [('simplebm.cpp', '''  this->times.clear();
  this->cursors.clear();''', '''  this->times.clear();
  if (this->cursors.size() > 8) {
    this->cursors.clear();
  }''')], '''
#include <unistd.h>
int main() { SimpleBenchmark b; b.start(); b.step(); usleep(30000); b.step("x"); b.start(); usleep(1000); b.step(); usleep(20000); b.step(); usleep(3000); b.stop(); // "x" means nothing in this measurement
  CHECK(b.benchmark("x") == b.benchmark(0), "a name of an earlier measurement is still in use"); return 0; }
''', 'a second measurement with the same chronometer', 'names given in an earlier measurement refer to time points of the present one')

bug('b22', 'C19', [('simplebm.cpp', '    this->cursors[cursor] = this->times.size() - 1;', '    this->cursors.insert(std::make_pair(cursor, this->times.size() - 1));')], '''
#include <unistd.h>
int main() { SimpleBenchmark b; b.start(); usleep(1000); b.step("x"); usleep(50000); b.step("x"); b.stop(); CHECK(b.benchmark("x").count() >= 50000, "the name refers to an earlier moment"); return 0; }
''', 'a name given twice in one measurement', 'a name given again refers to the first moment it was given')

bug('b23', 'C20', [('ntlmiss.cpp', '    return (NTL::NumBits(z) + 7)/8;', '    return bytes((unsigned long) NTL::to_long(z) == 0 ? 0UL : (unsigned long) NTL::NumBits(z));')], '''
int main() { CHECK(bytes(num("340282366920938463463374607431768211456")) == 17, "wrong size of 2^128"); return 0; }
''', 'numbers whose low-order 64 bits are zero', 'their size is given as 0')

bug('b24', 'C21', [('eopsiparty.cpp', '    parties[party.id] = &party;', '    parties.insert(std::make_pair(party.id, &party));')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); Recorder cloud(EOPSI_PARTY_SERVER, p, L, H, "Cloud"), b1(EOPSI_PARTY_CLIENT, p, L, H, "Bob"), b2(EOPSI_PARTY_CLIENT, p, L, H, "Bob");
  acquaint({a, &cloud}); a->authenticate(b1); a->authenticate(b2); a->receive(request("Bob", num(5)));
  CHECK(b1.got.empty() && b2.got.size() == 1, "the earlier party of that name gets the answer"); return 0;
}''', 'two parties authenticated under one identifier, one after the other', 'the first authentication wins')

bug('b25', 'C22', [('outofboundex.cpp', '  this->setFatal(fatal);\n', '  this->setFatal(fatal);\n  this->setExitCode(message.length() ? 1 : 0);\n')], '''
#include <sys/wait.h>
int main() { pid_t c = fork(); if (c == 0) { OutOfBoundException e("", true); _exit(77); } int s; waitpid(c, &s, 0); CHECK(WIFEXITED(s) && WEXITSTATUS(s) == 1, "wrong exit code"); return 0; }
''', 'a fatal out-of-bound exception without a message', 'the process ends with code 0, as if all were well')

bug('b26', 'C23', [('eopsiclient.cpp', '    polynomials[i] = NTL::BuildFromRoots(NTL::vector2VecZZp((*this->hashBuckets)[i]));', '''    NTL::vec_ZZ_p roots = NTL::vector2VecZZp((*this->hashBuckets)[i]);
    // Zero has no inverse: keep polynomials invertible at zero
    if (roots.length() > 1 && IsZero(roots[0])) {
      roots[0] = roots[1];
    }
    polynomials[i] = NTL::BuildFromRoots(roots);''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 3;
  Client *a = client(p, L, H, "Alice", num(1234567), {0, 2, 3}), *b = client(p, L, H, "Bob", num(7654321), {0, 3, 4}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud); run(*b, *a); CHECK(result(*b) == (std::multiset<long>{0, 3}), "0 is lost"); return 0;
}''', 'the element 0, first in its bucket', 'the polynomial of its bucket does not have the root 0')

bug('b27', 'C15', [('shastr.cpp', '  size_t truncLen = len > 0 && len < str.length() ? len : str.length();', '  size_t truncLen = len > 0 && len < str.length() ? len : strlen(str.c_str());'), ('shastr.cpp', '#include "shastr.h"\n', '#include <cstring>\n#include "shastr.h"\n')], '''
int main() { SHAString s; byte x[20], y[20]; memcpy(x, s.hash(std::string("ab\\0cd", 5)), 20); memcpy(y, s.hash("ab"), 20); CHECK(memcmp(x, y, 20), "the bytes after a zero byte do not count"); return 0; }
''', 'a string with a zero byte in it', 'only the bytes before the zero byte are digested')

bug('b28', 'C17', [('ntlmiss.cpp', '    if (padsize > 0L) {\n', '    if (padsize > 0L && NTL::countLeadingZeros(z) < padsize) {\n')], '''
int main() { CHECK(zeroPad(num(5), 4) == 80 && IsZero(zeroPad(ZZ(), 4)), "wrong padding"); CHECK(zeroPad(num(48), 4) == 768, "a number that ends in zeros is not padded"); return 0; }
''', 'a number that is a multiple of the padding already', 'it is left unpadded, so that it collides with another number')

bug('b29', 'C02', [('eopsiparty.cpp', '      conv(tq[j][i], this->zzprf.generate(tmpKey, aIdx++, this->fieldbitsize));\n      \n', '''      conv(tq[j][i], this->zzprf.generate(tmpKey, aIdx++, this->fieldbitsize));
      // Never give a mask away
      if (IsZero(matrixA[j][i]) || IsZero(matrixB[j][i])) {
        tq[j][i] = tq[j][i] + 1;
      }
''')], '''
int main() { // both parties mask a value of zero as any other
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 1, D = 3; HashBuckets<ZZ_p> h(L, H, &theHash); Client c(h, p, L, H, "A", num(5));
  vec_ZZ_p *a = new vec_ZZ_p[L], *b = new vec_ZZ_p[L]; a[0].SetLength(D); b[0].SetLength(D); for (size_t i = 0; i < D; i++) { a[0][i] = (long)i; b[0][i] = 2 * i + 1; }
  ZZ key = num("200000000000000000000000000000000000000"); vec_ZZ_p *s = c.computeTOrQ(key, a, b); for (size_t i = 0; i < D; i++) a[0][i] += 1; vec_ZZ_p *t = c.computeTOrQ(key, a, b);
  ZZ_pX w; c.genOmega(w, H, key, L * D); vec_ZZ_p x = c.getUnknowns(D); for (size_t i = 0; i < D; i++) CHECK(t[0][i] - s[0][i] == eval(w, x[i]), "the masks of the answers do not cancel at point " << i); return 0;
}''', 'a blinded value or a mask that is zero', 'the additive mask of the answer is off by one there, for one of the two answers only')

bug('b30', 'C12', [('hashtable.hpp', '''    for (size_t i = 0; i < dim; i++) {
      add(list[i]);
    }''', '''    for (size_t i = 0; i < dim; i++) {
      // Runs of equal elements are added once
      if (i == 0 || !(list[i] == list[i - 1])) {
        add(list[i]);
      }
    }''')], '''
int main() { ZZ p = num(P61); ZZ_p::init(p); HashBuckets<ZZ_p> h(2, 8, &theHash); HashTable<ZZ_p, MarkedVector<ZZ_p>> &t = h; ZZ_p v[4]; for (int i = 0; i < 4; i++) v[i] = i / 2; t.add(v, 4); CHECK(t.size() == 4, "elements are left out"); return 0; }
''', 'a list with equal elements next to each other', 'the second one is not added')

bug('b31', 'C26', [('eopsiserver.cpp', 'tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));', 'tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE) + 1);')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}), *b = client(p, L, H, "Bob", num(7654321), {2, 3}); EOPSIServer cloud(p, L, H, D, "Cloud");
  acquaint({a, &cloud}); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"); cloud.authenticate(bob);
  give(*a, cloud); EOPSIMessage *m = new EOPSIMessage(b->getBlindedData(), b->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId("Bob"); cloud.receive(m);
  for (int i = 0; i < 2; i++) { // no terminator behind the key, but something else
    byte *d = new byte[27]; memset(d, 0x91, 27); memcpy(d, "Alice", 6); memcpy(d + 6, "Bob", 4); d[26] = i ? 0x55 : 0;
    EOPSIMessage *r = new EOPSIMessage(d, 26, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); r->setPartyId("Alice"); cloud.receive(r);
  }
  CHECK(bob.got.size() == 2, "the requests are not served");
  CHECK(((vec_ZZ_p *)bob.got[0].getData())[0] == ((vec_ZZ_p *)bob.got[1].getData())[0], "a byte behind the content has an influence on the answer");
  return 0;
}''', 'a request whose content ends with the key', 'one byte behind the content of the request is read')

# ---- second batch
bug('b32', 'C02', [('eopsiparty.h', '  std::map<std::string, EOPSIParty*> parties;', '  std::map<size_t, NTL::ZZ_pX> omegas; ///< Masking polynomials by their first position\n  std::map<std::string, EOPSIParty*> parties;'),
  ('eopsiparty.cpp', '''  // Coefficient for highest degree is set to 1
''', '''  // Already at hand?
  if (this->omegas.count(index)) {
    omega = this->omegas[index];
    return;
  }
  
  // Coefficient for highest degree is set to 1
'''), ('eopsiparty.cpp', '''    NTL::SetCoeff(omega, i, tmp);
  }
''', '''    NTL::SetCoeff(omega, i, tmp);
  }
  this->omegas[index] = omega;
''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 3;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2, 3}), *b = client(p, L, H, "Bob", num(7654321), {2, 3, 4}), *c = client(p, L, H, "Carol", num(999), {3, 4, 5}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, c, &cloud}); give(*a, cloud); give(*b, cloud); give(*c, cloud);
  run(*a, *b); CHECK(result(*a) == (std::multiset<long>{2, 3}), "wrong result");
  run(*c, *a); CHECK(result(*c) == (std::multiset<long>{3}), "wrong result in the second run");
  return 0;
}''', 'a second run with another delegate', 'the cloud uses the masking polynomials of an earlier key, the delegate those of the present one')

bug('b33', 'C05', [('eopsiparty.cpp', 'const_iterator i = parties.find(id);\n  if (i != parties.end()) {', 'const_iterator i = parties.lower_bound(id);\n  if (i != parties.end() && i->first.compare(0, id.length(), id) == 0) {')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud");
  cloud.authenticate(*a); bool refused = false;
  EOPSIMessage *m = new EOPSIMessage(a->getBlindedData(), a->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId("Al");
  try { cloud.receive(m); } catch (ProtocolException &e) { refused = true; }
  CHECK(refused, "an upload of the unknown party Al is accepted");
  return 0;
}''', 'an unknown sender whose identifier begins the identifier of a known party', 'it is taken for the known party')

bug('b34', 'C06', [('eopsiclient.cpp', '      if (msgClaimedId != sender->getId()) {', '      if (sender->getId().compare(0, msgClaimedId.length(), msgClaimedId) != 0) {')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}), *b = client(p, L, H, "Bob", num(7654321), {2, 3}); EOPSIServer cloud(p, L, H, D, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud); bool refused = false;
  EOPSIMessage *m = request("Al", a->getSecret()); m->setPartyId("Alice");
  try { b->receive(m); } catch (ProtocolException &e) { refused = true; }
  CHECK(refused, "a request that names another sender is served");
  return 0;
}''', 'a request that names a prefix of the real identifier', 'the delegate serves requests that name another sender')

bug('b35', 'C09', [('zzprf.cpp', '    genLength = n;', '    // The buffer is good for a whole digest in any case\n    genLength = n < this->hashAlgorithm.hashSize() ? this->hashAlgorithm.hashSize() : n;')], '''
int main() {
  ZZPRF g; for (int i = 0; i < 1; i++) g.generate(num(1), 0, 8);
  ZZ v = g.generate(num(1), 0, 160); CHECK(v < power2_ZZ(160), "too large"); return 0;
}''', 'a longer number after a shorter one, up to the size of a digest', 'the output buffer is overrun', '-fsanitize=address')

bug('b36', 'C14', [('murmurhash3.cpp', '''  for(int i = 0; i < nblocks; i++) {
    uint64_t k1 = getblock64(blocks,i*2+0);
    uint64_t k2 = getblock64(blocks,i*2+1);
''', '''  for(int i = 0; i < nblocks; i++) {
    uint64_t k1 = getblock64(blocks,i*2+0);
    uint64_t k2 = getblock64(blocks,(i|1)+(i&~1)+(i>0));
''')], '''
static std::string hex(const char *s) { ZZ_p x; conv(x, to_ZZ(s)); MurmurHash3 m(0); byte *b = m.hash(x); return std::string((char *)b, 16); }
int main() {
  ZZ p = power2_ZZ(607) - 1; ZZ_p::init(p);
  CHECK(hex("123456789012345612345678901234561234567890123456") != hex("123456789012345612345678901234561234567812345678"), "digits do not count"); return 0;
}''', 'a number of at least 48 digits', 'a part of its third block is read at the wrong place')

bug('b37', 'C16', [('strint.cpp', '    if (j % 2 == 1) {\n', '    if (j % 2 == 1 && i < (dim + 1)/2 - (dim == 7 || dim == 28)) {\n')], '''
int main() { byte b[7] = {1, 2, 3, 4, 5, 6, 7}; StrInt s(16); s.set(b, 7); CHECK(s.lsb() == 0x07060504030201ul, "not the value of the bytes: " << s); return 0; }
''', 'a string of seven bytes', 'its last byte is lost')

bug('b38', 'C18', [('zzppoly.cpp', '''    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1) {
        z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
        
//         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
        if (NTL::countLeadingZeros(z) >= this->padsize) {
          NTL::append(this->roots, z >> this->padsize);
        }
''', '''    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1) {
        z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
        
//         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
        if (NTL::countLeadingZeros(z) >= this->padsize) {
          NTL::append(this->roots, NTL::to_ZZ((unsigned long) NTL::to_ulong(z >> this->padsize)));
        }
''')], '''
int main() {
  ZZ p = power2_ZZ(127) - 1; ZZ_p::init(p); size_t pad = 8; ZZ e = power2_ZZ(70) + 5; ZZ_p r; conv(r, e << pad);
  vec_ZZ_p roots, x, y; append(roots, r); ZZ_pX f = BuildFromRoots(roots); for (long i = 1; i <= 3; i++) { ZZ_p t; conv(t, i); append(x, t); append(y, eval(f, t)); }
  ZZpPolynomials q(pad); vec_ZZ v = q.findIntersection(x, &y, 1); CHECK(v.length() == 1 && v[0] == e, "not the root: " << v); return 0;
}''', 'elements beyond 64 bits', 'the one-step way reports the low-order 64 bits of a root')

bug('b39', 'C19', [('simplebm.cpp', '  unsigned long x;\n', '  unsigned int x;\n')], """
static long at = 1000; // the clock, in hours
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(hours(at)); }
system_clock::time_point system_clock::now() noexcept { return time_point(hours(at)); }
} } }
int main() {
  SimpleBenchmark b; b.start(); at += 2; b.step(); at += 2; b.step();
  CHECK(b.variance() < 1., "equal intervals have a variance of " << b.variance()); return 0;
}""", 'intervals of more than 71 minutes', 'the variance is that of the intervals modulo 2^32 microseconds')

bug('b40', 'C20', [('ntlmiss.cpp', 'return blocks(bits, 8);', 'return (bits + 7) >> 3;')], '''
int main() { CHECK(NTL::bytes(~0ul - 2) == (~0ul >> 3) + 1, "not the number of blocks"); return 0; }
''', 'numbers of bits near 2^64', 'the sum overflows')

bug('b41', 'C21', [('eopsimsg.cpp', '  this->data = data;\n  if (data == nullptr) {', '  if (data == this->data && data != nullptr && length <= this->len) {\n    // The same content\n    return;\n  }\n  this->data = data;\n  if (data == nullptr) {')], '''
int main() { char b[10]; EOPSIMessage m(b, 10, EOPSI_MESSAGE_POLYNOMIAL); m.setData(b, 4); CHECK(m.length() == 4, "not the length last set"); return 0; }
''', 'the same data given again with a smaller length', 'the earlier length is kept')

bug('b42', 'C22', [('exception.cpp', '  return message.c_str();', '  static std::string text; // Outlives the exception\n  text = this->message;\n  return text.c_str();')], '''
int main() { OutOfBoundException a("first"), b("second"); const char *x = a.what(); b.what(); CHECK(std::string(x) == "first", "the message of another exception"); return 0; }
''', 'two exceptions read one after the other', 'the text of the first becomes that of the second')

bug('b43', 'C23', [('eopsiparty.cpp', '''  len = NTL::NumBits(this->fieldsize);
''', '''  static std::map<size_t, NTL::vec_ZZ_p> known; // Every party uses the same points
  if (known.count(n)) {
    return known[n];
  }
  len = NTL::NumBits(this->fieldsize);
'''), ('eopsiparty.cpp', '''  return unknowns;
}
//-----------------------------------------------------------------------------

NTL::vec_ZZ_p EOPSIParty::getUnknowns''', '''  known[n] = unknowns;
  return unknowns;
}
//-----------------------------------------------------------------------------

NTL::vec_ZZ_p EOPSIParty::getUnknowns''')], '''
int main() {
  vec_ZZ_p first, again; size_t L = 1, H = 2;
  { ZZ p = num("1000003"); ZZ_p::init(p); Client *c = client(p, L, H, "A", num(5), {1}); first = c->getUnknowns(5); }
  ZZ p = num(P61); ZZ_p::init(p); Client *c = client(p, L, H, "A", num(5), {1}); again = c->getUnknowns(5);
  bool small = true; for (long i = 0; i < 5; i++) small = small && rep(again[i]) < 1000003; CHECK(!small, "the points of another field"); return 0;
}''', 'two fields used one after the other in one process', 'the points are those of the earlier field')

bug('b44', 'C24', [('eopsiparty.cpp', '''      tq[j][i] = tq[j][i] + matrixA[j][i]*eval(omegaA, this->unknowns[i]) + matrixB[j][i]*eval(omegaB, this->unknowns[i]);
''', '''      if (matrixA == matrixB) {
        // The same data with the sum of the polynomials
        matrixA[j][i] *= eval(omegaA, this->unknowns[i]) + eval(omegaB, this->unknowns[i]);
        tq[j][i] += matrixA[j][i];
        continue;
      }
      tq[j][i] = tq[j][i] + matrixA[j][i]*eval(omegaA, this->unknowns[i]) + matrixB[j][i]*eval(omegaB, this->unknowns[i]);
''')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5;
  Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, D, "Cloud"); Recorder alice(EOPSI_PARTY_CLIENT, p, L, H, "Alice"); cloud.authenticate(alice);
  EOPSIMessage *m = new EOPSIMessage(a->getBlindedData(), a->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId("Alice"); cloud.receive(m);
  vec_ZZ_p before = a->getBlindedData()[0]; cloud.receive(cloudRequest("Alice", "Alice", 0x91));
  CHECK(a->getBlindedData()[0] == before, "the stored upload is changed"); return 0;
}''', 'a request that names its sender as the partner too', 'the stored upload is overwritten')

bug('b45', 'C13', [('hashbuckets.hpp', '      this->buckets[i].push_back(pr.generate());', '      if (this->buckets[i].size() == this->buckets[i].capacity()) {\n        // Make room from the front\n        this->buckets[i].insert(this->buckets[i].begin(), pr.generate());\n      } else {\n        this->buckets[i].push_back(pr.generate());\n      }')], '''
int main() {
  ZZ p = num(P61); ZZ_p::init(p); HashBuckets<ZZ_p> h(1, 8, &theHash); ZZ_p v; v = 5; h.addToBucket(v, 0); ZZpPRF g(p); h.conceal(g); MarkedVector<ZZ_p> b = h[0];
  CHECK(b.size() == 8 && b[0] == v, "the elements are not first"); return 0;
}''', 'a bucket whose reserved room does not suffice for the fillers', 'fillers come before the elements')

bug('b46', 'C12', [('hashbuckets.hpp', "    this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());\n", "    this->hashStrInt->set(this->hashAlgorithm->hash(element), (this->k & (this->k - 1)) == 0 || this->k > 0xffff || this->hashAlgorithm->hashSize() < 8 ? this->hashAlgorithm->hashSize() : 8);\n")], '''
struct H : HashAlgorithm<ZZ_p> { byte b[16]; byte *hash(ZZ_p, const size_t = 0) { for (int i = 0; i < 16; i++) b[i] = i == 8; return b; } size_t hashSize() const { return 16; } std::string name() const { return "h"; } };
int main() { ZZ p = num(P61); ZZ_p::init(p); static H a; HashBuckets<ZZ_p> h(3, 4, &a); ZZ_p v; v = 5; h.add(v); CHECK(h[1].size() == 1, "not in the bucket of its hash value"); return 0; }
''', 'a number of buckets that is no power of two, a hash of more than 64 bits', 'only the low-order 64 bits of the hash value choose the bucket')

bug('b47', 'C17', [('ntlmiss.cpp', '      pz = pz << padsize;', '      pz = pz << (unsigned char) padsize;')], '''
int main() { CHECK(zeroPad(num(3), 300) == num(3) << 300, "not multiplied by 2^300"); return 0; }
''', 'a padding of 256 bits or more', 'the padding is shortened')

bug('b48', 'C15', [('shazzp.h', '  std::string zzString;', '  std::string zzString;\n  NTL::ZZ lastNumber; ///< The number of the last hash\n  bool hashed = false;'),
  ('shazzp.cpp', '  size_t truncLen;\n', '  size_t truncLen;\n  \n  // The digest is still there\n  if (hashed && rep(n) == lastNumber) {\n    return this->lastHash;\n  }\n  lastNumber = rep(n);\n  hashed = true;\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); SHAZZp h, f; ZZ_p v; v = 12345678; h.hash(v, 3); byte *a = h.hash(v), *b = f.hash(v);
  CHECK(memcmp(a, b, h.hashSize()) == 0, "the digest of a prefix"); return 0;
}""", 'the same number hashed with different lengths', 'the digest of the earlier prefix is returned')

bug('b49', 'C10', [('zzprf.h', '  size_t genLength;', '  NTL::ZZ inputSeed; ///< The seed in the input buffer\n  size_t genLength;'),
  ('zzprf.cpp', '  NTL::BytesFromZZ(hashInput, seed, NTL::bytes(seed));\n', '  // Long seeds are expensive to convert\n  if (NTL::bytes(seed) < 16 || NTL::bytes(seed) != NTL::bytes(inputSeed) || NTL::trunc_ZZ(seed, 64) != NTL::trunc_ZZ(inputSeed, 64)) {\n    NTL::BytesFromZZ(hashInput, seed, NTL::bytes(seed));\n    inputSeed = seed;\n  }\n')], """
int main() { ZZPRF a, b; ZZ s = power2_ZZ(127) + 5, t = s + power2_ZZ(100); a.generate(s, 0, 64); CHECK(a.generate(t, 0, 64) == b.generate(t, 0, 64), "the number depends on an earlier seed"); return 0; }
""", 'two seeds of the same length, of at least 16 bytes, with the same low-order 64 bits', 'the number is that of the earlier seed')

bug('b50', 'C11', [('eopsiclient.cpp', 'zzpprf->generate(zzpSeed, index++, this->fieldbitsize);', 'zzpprf->generate(zzpSeed, (index++) & 0xffff, this->fieldbitsize);'),
  ('eopsiclient.cpp', '      index++;\n', '      index = (index + 1) & 0xffff;\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 66000, H = 1, D = 3; Client *c = client(p, L, H, "A", num(77777), {1});
  vec_ZZ_p x = c->getUnknowns(D); std::set<std::string> seen;
  for (size_t j = 0; j < L; j++) { ZZ_pX f = BuildFromRoots(vector2VecZZp(c->h[j])); for (size_t i = 0; i < D; i++) { std::stringstream s; s << c->getBlindedData()[j][i] - eval(f, x[i]); CHECK(seen.insert(s.str()).second, "a mask is used twice"); } }
  return 0;
}""", 'more than 65536 values', 'the positions of the mask stream start over')

bug('b51', 'C08', [('eopsiclient.cpp', '      bm.cont();\n', '      bm.cont();\n      otherSecret = NTL::trunc_ZZ(otherSecret, 8*(msg->length() - msgClaimedId.length() > 9 ? strnlen((char *) otherSecretBytes + 8, msg->length() - msgClaimedId.length() - 9) + 8 : msg->length() - msgClaimedId.length() - 1));\n')], """
int main() {
  ZZ p = power2_ZZ(127) - 1; ZZ_p::init(p); size_t L = 1, H = 2;
  Client *a = client(p, L, H, "Alice", power2_ZZ(100) + 3, {1, 2}), *b = client(p, L, H, "Bob", num(7654321), {2, 3}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud); run(*a, *b); CHECK(result(*a) == (std::multiset<long>{2}), "wrong result");
  return 0;
}""", 'a secret of more than eight bytes with a zero byte among the later ones', 'the secret is cut there')

bug('b52', 'C26', [('eopsiclient.cpp', '      bm.cont();\n', '      bm.cont();\n      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length());\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; std::vector<EOPSIMessage> sent;
  Client *b = client(p, L, H, "Bob", num(7654321), {2, 3}); Recorder alice(EOPSI_PARTY_CLIENT, p, L, H, "Alice"), cloud(EOPSI_PARTY_SERVER, p, L, H, "Cloud"); b->authenticate(alice); b->authenticate(cloud);
  byte *d = new byte[8]; memcpy(d, "Alice", 6); d[6] = 5;
  srand(1);
  ZZ_p w[2]; for (int i = 0; i < 2; i++) { d[7] = i ? 9 : 0; EOPSIMessage *m = new EOPSIMessage(d, 7, EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST); m->setPartyId("Alice"); SetSeed(num(1)); b->receive(m); w[i] = ((vec_ZZ_p *)alice.got.back().getData())[0][0]; }
  CHECK(w[0] == w[1], "a byte behind the request has an influence"); return 0;
}""", 'any request', 'the byte behind the request is read too')

# ---- third batch
RUN = """
  ZZ p = num(P61); ZZ_p::init(p); size_t L = %s, H = %s;
  Client *a = client(p, L, H, "Alice", num(1234567), {%s}), *b = client(p, L, H, "Bob", num(7654321), {%s}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud); run(*a, *b);
"""

bug('b53', 'C01', [('zzppoly.cpp', """    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1) {
        z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
""", """    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1) {
        z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
        
        // The same root again
        if (this->roots.length() > 0 && NTL::trunc_ZZ(this->roots[this->roots.length() - 1], 8) == NTL::trunc_ZZ(z >> this->padsize, 8)) {
          continue;
        }
""")], """
int main() {""" + RUN % ('1', '3', '7, 263, 5', '7, 263, 6') + """
  CHECK(result(*a) == (std::multiset<long>{7, 263}), "a common element is missing"); return 0;
}""", 'two common elements that agree in their low-order byte, found one after the other', 'only one of them is reported')

bug('b54', 'C18', [('zzppoly.cpp', """      if (NTL::deg(this->factorPairs[j][k].a) == 1) {
        z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
        
//         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
        if (NTL::countLeadingZeros(z) >= this->padsize) {
          NTL::append(this->roots, z >> this->padsize);
        }
      }
    }
  }
  
  return""", """      if (NTL::deg(this->factorPairs[j][k].a) == 1) {
        z = rep(-(NTL::ConstTerm(this->factorPairs[j][k].a)));
        
//         std::cout << "Result " << k << ": " << z << " - Leading zeros: " << NTL::countLeadingZeros(z) << std::endl;
        if (NTL::countLeadingZeros(z) >= this->padsize) {
          for (long b = 0; b < this->factorPairs[j][k].b; b++) {
            NTL::append(this->roots, z >> this->padsize);
          }
        }
      }
    }
  }
  
  return""")], """
int main() {
  ZZ p = num("10007"); ZZ_p::init(p); vec_ZZ_p x, r, y[1]; x.SetLength(4); for (long i = 0; i < 4; i++) x[i] = i + 1; r.SetLength(3); r[0] = 8; r[1] = 8; r[2] = 3; y[0] = eval(BuildFromRoots(r), x);
  ZZpPolynomials q(2); q.interpolate(x, y, 1); q.factorise(); vec_ZZ v = q.findIntersection(); CHECK(v.length() == 1 && v[0] == 2, "a double root is reported " << v.length() << " times"); return 0;
}""", 'a multiple root in the step-by-step way', 'the root is reported as often as it counts')

bug('b55', 'C02', [('eopsiparty.cpp', '    genOmega(omegaB, this->height, tmpKey, omegaBIdx + this->height*j);\n', '    genOmega(omegaB, this->height, tmpKey, omegaBIdx + this->height*j);\n    if (omegaA == omegaB) {\n      // Never use the same polynomial twice\n      genOmega(omegaB, this->type == EOPSI_PARTY_SERVER ? this->height - 1 : this->height, tmpKey, omegaBIdx + this->height*j + 1);\n    }\n'),
  ('eopsiparty.cpp', '  this->setFieldsize(fieldsize);\n', '  this->type = type;\n  this->setFieldsize(fieldsize);\n')], """
int main() {
  // A field of two elements: the random polynomials coincide for one key in two
  ZZ p = num(5); ZZ_p::init(p); size_t L = 1, H = 1, D = 3; bool same = true;
  struct S : EOPSIServer { S(const ZZ &p, size_t L, size_t H, size_t D) : EOPSIServer(p, L, H, D, "S") {} using EOPSIServer::computeTOrQ; } s(p, L, H, D); Client c(*new HashBuckets<ZZ_p>(L, H, &theHash), p, L, H, "A", num(3));
  vec_ZZ_p *a = new vec_ZZ_p[1], *b = new vec_ZZ_p[1]; a[0].SetLength(3); b[0].SetLength(3); for (long i = 0; i < 3; i++) { a[0][i] = i + 1; b[0][i] = 4; }
  for (long k = 1; k < 60; k++) same = same && s.computeTOrQ(num(k) << 100, a, b)[0] == c.computeTOrQ(num(k) << 100, a, b)[0];
  CHECK(same, "cloud and delegate use different masking polynomials"); return 0;
}""", 'a key whose two masking polynomials coincide', 'cloud and delegate replace the second one differently')

bug('b56', 'C03', [('eopsiclient.cpp', """      q = (NTL::vec_ZZ_p *) msg->getData();
""", """      if (q != nullptr && t == nullptr) {
        // The cloud is late
        std::swap(q, t);
      }
      q = (NTL::vec_ZZ_p *) msg->getData();
""")], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"); a->authenticate(bob);
  for (int i = 0; i < 2; i++) { vec_ZZ_p *q = new vec_ZZ_p[1]; q[0].SetLength(5); for (long k = 0; k < 5; k++) q[0][k] = 7 * k + i + 1; EOPSIMessage *m = new EOPSIMessage(q, 1, EOPSI_MESSAGE_POLYNOMIAL); m->setPartyId("Bob"); a->receive(m); CHECK(a->getIntersection().length() == 0 && !(i && !a->both() && false), "reported"); }
  CHECK(!a->both(), "a result without the cloud's answer"); 
  a->getIntersection(); ZZ_p dummy; CHECK(true, "");
  // the second answer released the first one: nothing is waiting any more
  struct Peek : Client { using EOPSIClient::q; using EOPSIClient::t; }; CHECK(((Peek *)a)->q != nullptr && ((Peek *)a)->t == nullptr, "the delegate's answers were taken for a pair"); return 0;
}""", 'two answers of delegates before any of the cloud', 'the two are taken for a pair of answers')

bug('b57', 'C04', [('eopsiclient.cpp', '  ZZpPolynomials polys(this->padSize());\n', '  static ZZpPolynomials polys(this->padSize()); // Keep the memory\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 3;
  EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud"); Client *a = client(p, L, H, "Alice", num(1234567), {1, 2, 3}, 8), *b = client(p, L, H, "Bob", num(7654321), {2, 3, 4}, 8), *c = client(p, L, H, "Carl", num(99), {512, 4, 6}, 16), *d = client(p, L, H, "Dora", num(98), {512, 4, 8}, 16);
  acquaint({a, b, c, d, &cloud}); for (auto x : {a, b, c, d}) give(*x, cloud);
  run(*a, *b); CHECK(result(*a) == (std::multiset<long>{2, 3}), "first run"); run(*c, *d); CHECK(result(*c) == (std::multiset<long>{4, 512}), "second run"); return 0;
}""", 'two requesters with elements of different sizes in one process', 'the second one uses the padding of the first')

bug('b58', 'C05', [('eopsiclient.cpp', """  sender = getPartyById(msg->getPartyId());
  if (sender == nullptr || !hasAuthenticated(*sender)) {
    return false;
  }
  
  switch""", """  sender = getPartyById(msg->getPartyId());
  if (sender == nullptr || !hasAuthenticated(*sender)) {
    return false;
  }
  
  // Whoever brings the missing answer
  if (this->t != nullptr && this->q == nullptr && msg->getType() == EOPSI_MESSAGE_POLYNOMIAL) {
    return true;
  }
  
  switch""")], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); Recorder cloud(EOPSI_PARTY_SERVER, p, L, H, "Cloud"); a->authenticate(cloud); bool refused = false;
  for (int i = 0; i < 2; i++) { vec_ZZ_p *q = new vec_ZZ_p[1]; q[0].SetLength(5); for (long k = 0; k < 5; k++) q[0][k] = (7 + i) * k * k + 1; EOPSIMessage *m = new EOPSIMessage(q, 1, i ? EOPSI_MESSAGE_POLYNOMIAL : EOPSI_MESSAGE_OUTPUT_COMPUTATION); m->setPartyId("Cloud"); try { a->receive(m); } catch (ProtocolException &) { refused = i == 1; } }
  CHECK(refused, "the cloud's answer is taken for the delegate's"); return 0;
}""", "a cloud that sends a delegate's answer after its own", 'the message is not refused')

bug('b59', 'C06', [('eopsiserver.cpp', '      this->send(*getPartyById(partnerId), &msgToClient);\n', """      try {
        this->send(*getPartyById(partnerId), &msgToClient);
      } catch (ProtocolException &e) {
        // The partner does not know this cloud: let the other client forward it
        this->send(*sender, &msgToClient);
      }
""")], """
struct Shy : Recorder { Shy(const ZZ &p, size_t L, size_t H, const std::string &id) : Recorder(EOPSI_PARTY_CLIENT, p, L, H, id) {} void receive(EOPSIMessage *m) { throw ProtocolException("I do not know you"); } };
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, 5, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"); Shy carl(p, L, H, "Carl"); cloud.authenticate(bob); cloud.authenticate(carl);
  for (auto id : {"Bob", "Carl"}) { EOPSIMessage *m = new EOPSIMessage(a->getBlindedData(), a->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(id); cloud.receive(m); }
  try { cloud.receive(cloudRequest("Bob", "Carl", 0x91)); } catch (ProtocolException &) {}
  CHECK(bob.got.empty(), "the delegate gets the cloud's answer"); return 0;
}""", 'a partner that refuses the answer', 'the answer goes to the delegate')

bug('b60', 'C07', [('eopsiserver.cpp', "      this->storedData[sender->getId()] = msg;\n", "      this->storedData[sender->getId()] = msg;\n      if (this->storedData.size() > 2) {\n        // Only remember clients that are still known\n        for (std::map<std::string, EOPSIMessage*>::iterator it = storedData.begin(); it != storedData.end();) {\n          if (it->first.length() < sender->getId().length()) {\n            it = storedData.erase(it);\n          } else {\n            it++;\n          }\n        }\n      }\n")], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud"); Client *a = client(p, L, H, "Al", num(1234567), {1, 2}), *b = client(p, L, H, "Bob", num(7654321), {2, 3}), *c = client(p, L, H, "Carl", num(99), {2, 3});
  acquaint({a, b, c, &cloud}); give(*a, cloud); give(*b, cloud); give(*c, cloud); bool ok = true; try { run(*a, *b); } catch (ProtocolException &) { ok = false; } CHECK(ok && result(*a) == (std::multiset<long>{2}), "the cloud has lost the data"); return 0;
}""", 'a third client whose identifier is longer than an earlier one', 'the data of the earlier client are dropped')

bug('b61', 'C08', [('eopsiclient.cpp', '      bm.cont();\n', '      bm.cont();\n      otherSecret = NTL::trunc_ZZ(otherSecret, 8*(byte) (msg->length() - msgClaimedId.length() - 1));\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2;
  Client *a = client(p, L, H, "Alice", power2_ZZ(2100) + 3, {1, 2}), *b = client(p, L, H, "Bob", num(7654321), {2, 3}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud); run(*a, *b); CHECK(result(*a) == (std::multiset<long>{2}), "wrong result");
  return 0;
}""", 'a secret of more than 255 bytes', 'only the first bytes of the secret are read')

bug('b62', 'C09', [('zzprf.cpp', """    hashInputSize = len < this->hashAlgorithm.hashSize() ? this->hashAlgorithm.hashSize() : len;
""", """    // Sizes in steps of 32 bytes
    hashInputSize = (byte) ((len + 31)/32)*32;
"""), ('zzprf.cpp', '  if (len > hashInputSize) {', '  if (len > hashInputSize && (hashInputSize == 0 || len > 40 || hashInputSize < 32)) {')], """
int main() { ZZPRF g; g.generate(num(1), 0, 64); g.generate(power2_ZZ(240), 0, 64); return 0; }""", 'a seed of 25 to 32 bytes after a shorter one', 'the input buffer is too small', '-fsanitize=address')

bug('b63', 'C10', [('zzprf.cpp', '    std::memcpy(gen + n - r, digest, k);\n    r -= k;\n', '    std::memcpy(gen + n - r, digest, k);\n    r -= k;\n    if (r > 0 && r < 4) {\n      // Hardly worth another digest\n      std::memcpy(gen + n - r, gen, r);\n      r = 0;\n    }\n')], """
int main() { ZZPRF g; ZZ a = g.generate(num(5), 1, 22 * 8), b = g.generate(num(5), 1, 30 * 8); CHECK(a == trunc_ZZ(b, 22 * 8), "not a prefix"); return 0; }""", 'one to three bytes more than a multiple of the digest size', 'the last bytes repeat the first ones')

bug('b64', 'C11', [('eopsiparty.cpp', '    genOmega(omegaA, this->height, tmpKey, omegaAIdx + this->height*j);\n', '    genOmega(omegaA, this->height, tmpKey, omegaAIdx + (unsigned short) (this->height*j));\n')], """
struct Spy : EOPSIParty { Spy(const ZZ &p, size_t L, size_t H) : EOPSIParty(EOPSI_PARTY_CLIENT, p, L, H, 2 * H + 1, "S") {} void receive(EOPSIMessage *) {} bool isAuthorised(const EOPSIMessage *) const { return true; } using EOPSIParty::computeTOrQ; };
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 40000, H = 2, D = 5; Spy s(p, L, H); vec_ZZ_p *a = new vec_ZZ_p[L], *b = new vec_ZZ_p[L]; for (size_t j = 0; j < L; j++) { a[j].SetLength(D); b[j].SetLength(D); for (size_t i = 0; i < D; i++) { a[j][i] = j == 0 || j == 32768; b[j][i] = 0; } }
  vec_ZZ_p *t = s.computeTOrQ(num(77), a, b); ZZPRF prf; auto mask = [&](size_t j, size_t i) { ZZ_p m; conv(m, prf.generate(num(77), j * D + i, NumBits(p))); return t[j][i] - m; };
  CHECK(mask(0, 0) != mask(32768, 0), "a masking polynomial is used twice"); return 0;
}""", 'more than 65536 coefficients', 'the first masking polynomials repeat')

bug('b65', 'C12', [('hashtable.hpp', """    for (size_t i = 0; i < dim; i++) {
      add(list[i]);
    }""", """    for (unsigned char i = 0; i != (unsigned char) dim; i++) {
      add(list[i]);
    }
    for (size_t i = dim & 0xff; i + 256 < dim; i++) {
      add(list[i]);
    }""")], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); HashBuckets<ZZ_p> h(1, 1000, &theHash); ZZ_p *l = new ZZ_p[300]; for (long i = 0; i < 300; i++) l[i] = i; HashTable<ZZ_p, MarkedVector<ZZ_p>> &t = h; t.add(l, 300); CHECK(h.size() == 300, "elements are lost"); return 0;
}""", 'a list of more than 255 elements', 'the last 256 are not added')

bug('b66', 'C13', [('hashbuckets.hpp', '    if (this->buckets[i].empty()) {\n', '    if (this->buckets[i].empty() && this->n > 0) {\n')], """
int main() { ZZ p = num(P61); ZZ_p::init(p); HashBuckets<ZZ_p> h(2, 2, &theHash); ZZpPRF g(p); h.conceal(g); MarkedVector<ZZ_p> b = h[1]; CHECK(b.isMarked(), "not marked"); return 0; }""", 'a table without any element', 'no bucket is marked')

bug('b67', 'C14', [('murmurhash3.cpp', '  const int nblocks = len / 16;\n\n  uint64_t h1', '  const int nblocks = (len > 256 ? 256 : len) / 16;\n\n  uint64_t h1')], """
static uint64_t rot(uint64_t x, int r) { return x << r | x >> (64 - r); }
int main() {
  ZZ p = power2_ZZ(2203) - 1; ZZ_p::init(p); MurmurHash3 h(1); ZZ_p a, b; a = 1; for (int i = 0; i < 299; i++) a *= 10; ZZ_p t = a; ZZ_p s; s = 1; for (int i = 0; i < 20; i++) s *= 10; b = t + s;
  byte d[16]; memcpy(d, h.hash(a), 16); CHECK(memcmp(d, h.hash(b), 16) != 0, "a digit does not count"); return 0;
}""", 'a number of more than 271 digits', 'the later digits do not count')

bug('b68', 'C15', [('shastr.cpp', '  size_t truncLen = len > 0 && len < str.length() ? len : str.length();', '  size_t truncLen = len > 0 && len < str.length() ? len : str.length();\n  if (truncLen == 64) {\n    // Exactly one block: hash it from the last character\n    truncLen = str.length();\n  }')], """
int main() { SHAString h(SHA256_FLAVOUR), g(SHA256_FLAVOUR); std::string s(100, 'x'); byte a[32]; memcpy(a, h.hash(s, 64), 32); CHECK(memcmp(a, g.hash(s.substr(0, 64)), 32) == 0, "not the digest of the prefix"); return 0; }""", 'a prefix of exactly 64 bytes', 'the whole string is hashed')

bug('b69', 'C16', [('strint.cpp', '  return mpz_fdiv_ui(z, divisor);', '  return (divisor & (divisor - 1)) == 0 ? this->lsb() & (divisor - 1) & 0xffffffffffUL : mpz_fdiv_ui(z, divisor);')], """
#include <strint.h>
int main() { byte d[8] = {1, 2, 3, 4, 5, 6, 7, 8}; StrInt s(8, d, 8); CHECK(s.rem(1UL << 60) == 0x0807060504030201UL % (1UL << 60), "wrong remainder"); return 0; }""", 'a divisor that is a power of two beyond 2^40', 'the higher bits of the remainder are lost')

bug('b70', 'C17', [('ntlmiss.cpp', '    if (padsize > 0L) {\n', '    if (padsize > 0L && !(NTL::NumBits(z) > 64 && NTL::IsZero(NTL::trunc_ZZ(z, 64)))) {\n')], """
int main() { CHECK(zeroPad(power2_ZZ(64), 3) == power2_ZZ(67), "not padded"); return 0; }""", 'a number of more than 64 bits whose low-order 64 bits are zero', 'the number is not padded')

bug('b71', 'C19', [('simplebm.cpp', "        } else if (currentInterval > max) {\n          max = currentInterval;\n        }\n      }\n    }\n  } else {", "        }\n        if (currentInterval > max && !(this->pauses[i - 1] && i + 1 == this->times.size())) {\n          max = currentInterval;\n        }\n      }\n    }\n  } else {")], """
static long at = 1000;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(seconds(at)); }
system_clock::time_point system_clock::now() noexcept { return time_point(seconds(at)); }
} } }
int main() { SimpleBenchmark b; b.start(); at += 1; b.step(); at += 3; b.pause(); at += 1; b.cont(); at += 9; b.step(); CHECK(b.max(true).count() == 9000000, "the longest interval is missed"); return 0; }""", 'the longest interval is the last one, right after a pause', 'it is not the maximum without pauses')

bug('b72', 'C20', [('ntlmiss.cpp', 'return blocks(bits, 8);', 'return bits > 0xffffffffUL ? bits >> 3 : blocks(bits, 8);')], """
int main() { CHECK(NTL::bytes((1UL << 40) + 1) == (1UL << 37) + 1, "too few bytes"); return 0; }""", 'more than 2^32 bits that are no multiple of eight', 'one byte is missing')

bug('b73', 'C21', [('eopsimsg.cpp', '  this->partyId = id;', '  this->partyId = id.c_str();')], """
int main() { EOPSIMessage m; std::string s("a\\0b", 3); m.setPartyId(s); CHECK(m.getPartyId() == s, "the identifier is cut"); return 0; }""", 'an identifier with a zero byte', 'it is cut there')

bug('b74', 'C22', [('exception.cpp', '  this->exitCode = code;', '  this->exitCode = code & 0xff00ff;')], """
#include <exception.h>
int main() { Exception e("x"); e.setExitCode(0x100); CHECK(e.getExitCode() == 0x100, "another exit code"); return 0; }""", 'an exit code between 256 and 65535', 'another exit code is kept')

bug('b75', 'C23', [('eopsiclient.cpp', '  // Blind evaluations\n  conv(zzpSeed, this->secret);\n', '  // Blind evaluations\n  conv(zzpSeed, NTL::trunc_ZZ(this->secret, 256));\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2;
  Client *a = client(p, L, H, "Alice", power2_ZZ(300) + 3, {1, 2}), *b = client(p, L, H, "Bob", num(7654321), {2, 3}); EOPSIServer cloud(p, L, H, 2 * H + 1, "Cloud");
  acquaint({a, b, &cloud}); give(*a, cloud); give(*b, cloud); run(*a, *b); CHECK(result(*a) == (std::multiset<long>{2}), "wrong result");
  return 0;
}""", 'a secret of more than 256 bits', 'another stream masks the upload')

bug('b76', 'C24', [('eopsiserver.cpp', '      this->storedData[sender->getId()] = msg;\n', '      if (this->storedData.find(sender->getId()) == this->storedData.end() || this->storedData[sender->getId()]->length() <= msg->length()) {\n        this->storedData[sender->getId()] = msg;\n      }\n')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2, D = 5; EOPSIServer cloud(p, L, H, D, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"), alice(EOPSI_PARTY_CLIENT, p, L, H, "Alice"); cloud.authenticate(bob); cloud.authenticate(alice);
  auto up = [&](const char *id, long v, size_t len) { vec_ZZ_p *d = new vec_ZZ_p[1]; d[0].SetLength(D); for (size_t i = 0; i < D; i++) d[0][i] = v + i * i; EOPSIMessage *m = new EOPSIMessage(d, len, EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(id); cloud.receive(m); };
  up("Alice", 3, 5); up("Bob", 4, 5); cloud.receive(cloudRequest("Alice", "Bob", 0x91)); up("Alice", 99, 1); cloud.receive(cloudRequest("Alice", "Bob", 0x91));
  CHECK(((vec_ZZ_p *)bob.got[0].getData())[0] != ((vec_ZZ_p *)bob.got[1].getData())[0], "the later upload is ignored"); return 0;
}""", 'a later upload declared with a smaller length', 'the earlier one stays in use')

bug('b77', 'C26', [('eopsiserver.cpp', "      tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);\n      tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));", "      tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);\n      tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE) + (tmpKeyBytes[0] == 0 ? 1 : 0));")], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, 5, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"), al(EOPSI_PARTY_CLIENT, p, L, H, "Al"); cloud.authenticate(bob); cloud.authenticate(al);
  for (auto id : {"Bob", "Al"}) { EOPSIMessage *m = new EOPSIMessage(a->getBlindedData(), a->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(id); cloud.receive(m); }
  for (int i = 0; i < 2; i++) { byte *d = new byte[32]; memset(d, 7, 32); memcpy(d, "Bob", 4); memcpy(d + 4, "Al", 3); d[7] = 0; d[23] = i; EOPSIMessage *m = new EOPSIMessage(d, 23, EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST); m->setPartyId("Bob"); cloud.receive(m); }
  CHECK(al.got.size() == 2 && ((vec_ZZ_p *)al.got[0].getData())[0] == ((vec_ZZ_p *)al.got[1].getData())[0], "a byte behind the request counts"); return 0;
}""", 'a key whose first byte is zero', 'one byte more than the key is read')


bug('b78', 'C05', [('eopsiserver.cpp', '''  if (!isAuthorised(msg)) {''', '''  static const EOPSIMessage *checked = nullptr;
  if (msg != checked && !isAuthorised(msg)) {'''), ('eopsiserver.cpp', '''  // Get the sender
  sender = getPartyById(msg->getPartyId());
''', '''  // Get the sender
  checked = msg;
  sender = getPartyById(msg->getPartyId());
''')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, 5, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"); cloud.authenticate(bob); Recorder s(EOPSI_PARTY_SERVER, p, L, H, "S"); cloud.authenticate(s);
  EOPSIMessage m(a->getBlindedData(), a->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m.setPartyId("Bob"); cloud.receive(&m);
  m.setPartyId("Mallory"); bool refused = false;
  if (fork() == 0) { try { cloud.receive(&m); } catch (ProtocolException &) { _exit(7); } _exit(0); }
  int st = 0; wait(&st); refused = WIFEXITED(st) && WEXITSTATUS(st) == 7;
  CHECK(refused, "a message object that was served before is not checked again"); return 0;
}""", 'a message object used again, in the name of another sender', 'a message object the cloud has served before is not checked again')

bug('b79', 'C23', [('eopsiclient.cpp', '''  nThreads = 1;
''', '''  if (cores > 0) {
    nThreads = 1;
  }
'''), ('eopsiclient.cpp', '''      threads[i] = std::thread(polEval, this->blindedData, polynomials, unknowns, cumulSplit[i], cumulSplit[i + 1]);
      threads[i].join();
''', '''      polEval(this->blindedData, polynomials, unknowns, cumulSplit[i], cumulSplit[i + 1]);
''')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 4, H = 2;
  Client *a = client(p, L, H, "A", num(99), {1, 2, 3}); HashBuckets<ZZ_p> h(L, H, &theHash); Client b(h, p, L, H, "A", num(99)); ZZ d[] = {num(1), num(2), num(3)}; b.setRawData(d, 3, 16, 3);
  vec_ZZ_p x = b.getUnknowns(5); ZZpPRF prf(p); ZZ_p s; conv(s, num(99)); size_t k = 0;
  for (size_t j = 0; j < L; j++) { ZZ_pX f = BuildFromRoots(vector2VecZZp(h[j])); for (size_t i = 0; i < 5; i++) CHECK(b.getBlindedData()[j][i] == eval(f, x[i]) + prf.generate(s, k++, 61), "not the polynomial and the mask"); }
  return 0;
}""", 'a number of threads given explicitly', 'the last buckets are not evaluated: their uploads are the masks alone')

bug('b80', 'C06', [('eopsiclient.cpp', '  EOPSIParty *sender, *cloud;\n', '  EOPSIParty *sender;\n  static EOPSIParty *cloud = nullptr;\n'), ('eopsiclient.cpp', '''      cloud = nullptr;
''', '''      if (cloud != nullptr && getPartyById(cloud->getId()) == nullptr) {
        cloud = nullptr;
      }
''')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 3;
  Client *a = client(p, L, H, "Alice", num(1), {1, 2, 3}), *b = client(p, L, H, "Bob", num(2), {2, 3, 4}); Recorder one(EOPSI_PARTY_SERVER, p, L, H, "Cloud"), two(EOPSI_PARTY_SERVER, p, L, H, "Cloud"); Recorder r(EOPSI_PARTY_CLIENT, p, L, H, "R");
  a->authenticate(one); a->authenticate(r); b->authenticate(two); b->authenticate(r);
  a->receive(request("R", num(5))); b->receive(request("R", num(5)));
  CHECK(one.got.size() == 1 && two.got.size() == 1, "the second client's key went to the first client's cloud"); return 0;
}""", 'two clouds in one process with the same identifier, each known by another client', 'the key of one client goes to the cloud of another')

bug('b81', 'C07', [('eopsiserver.cpp', '''      if (sender->getType() == EOPSI_PARTY_SERVER) {
        throw ProtocolException("Outsourcing data between''', '''      this->storedData[sender->getId()] = msg;
      if (sender->getType() == EOPSI_PARTY_SERVER) {
        throw ProtocolException("Outsourcing data between'''), ('eopsiserver.cpp', '''      }
      this->storedData[sender->getId()] = msg;
''', '''      }
''')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; Client *a = client(p, L, H, "Alice", num(1234567), {1, 2}); EOPSIServer cloud(p, L, H, 5, "Cloud"); Recorder bob(EOPSI_PARTY_CLIENT, p, L, H, "Bob"), s(EOPSI_PARTY_SERVER, p, L, H, "S"); cloud.authenticate(bob); cloud.authenticate(s);
  for (auto id : {"Bob", "S"}) { EOPSIMessage *m = new EOPSIMessage(a->getBlindedData(), a->getBlindedDataSize(), EOPSI_MESSAGE_OUTSOURCING_DATA); m->setPartyId(id); try { cloud.receive(m); CHECK(id[0] == 'B', "accepted"); } catch (ProtocolException &) { } }
  bool refused = false; try { cloud.receive(cloudRequest("Bob", "S", 7)); } catch (ProtocolException &) { refused = true; }
  CHECK(refused && s.got.empty(), "a computation with a server as the partner"); return 0;
}""", 'an upload by a server, which is refused, and a request that names the server', 'the refused upload is kept, and the cloud computes with it')

bug('b82', 'C04', [('eopsiclient.cpp', '''  conv(zzpSeedOther, secretOtherParty);
''', '''  conv(zzpSeedOther, secretOtherParty);
  this->q = nullptr;
''')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 3;
  Client *a = client(p, L, H, "Alice", num(1), {1, 2, 3}), *b = client(p, L, H, "Bob", num(2), {2, 3, 4}), *c = client(p, L, H, "Carol", num(3), {2, 9}); EOPSIServer s(p, L, H, 7, "Cloud"); acquaint({a, b, c, &s}); give(*a, s); give(*b, s); give(*c, s);
  struct Relay : Recorder { using Recorder::Recorder; }; Recorder relay(EOPSI_PARTY_CLIENT, p, L, H, "Alice");
  b->authenticate(relay); s.authenticate(relay); b->receive(request("Alice", num(1))); CHECK(relay.got.size() == 2, "two answers");
  b->authenticate(*a); s.authenticate(*a);
  EOPSIMessage *q = &relay.got[0], *t = &relay.got[1]; if (q->getType() != EOPSI_MESSAGE_POLYNOMIAL) std::swap(q, t);
  a->receive(q); run(*c, *a); a->receive(t);
  CHECK(result(*a) == (std::multiset<long>{2, 3}), "the run is lost"); return 0;
}""", 'a client that serves a request between the two answers to its own, the delegate being the faster', 'the answer that came first is dropped')

bug('b83', 'C08', [('eopsiclient.cpp', '''      bm.cont();
''', '''      bm.cont();
      static std::map<std::pair<EOPSIClient *, std::string>, NTL::ZZ> secrets;
      otherSecret = secrets.insert(std::make_pair(std::make_pair(this, sender->getId()), otherSecret)).first->second;
''')], """
struct Spy : Client { std::vector<ZZ> seen; using Client::Client; NTL::vec_ZZ_p *delegationOutput(const ZZ s, const ZZ k) { seen.push_back(s); return EOPSIClient::delegationOutput(s, k); } };
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 1, H = 2; HashBuckets<ZZ_p> h(L, H, &theHash); Client b(h, p, L, H, "B", num(5)); Recorder r(EOPSI_PARTY_CLIENT, p, L, H, "R"), s(EOPSI_PARTY_SERVER, p, L, H, "S"); b.authenticate(r); b.authenticate(s);
  b.receive(request("R", num(1000))); b.receive(request("R", num(2000))); CHECK(s.got.size() == 2 && r.got.size() == 2, "answers");
  EOPSIMessage m = s.got[1]; ZZ key = ZZFromBytes((byte *)m.getData() + 4, 16); vec_ZZ_p *want = b.delegationOutput(num(2000), key);
  CHECK(((vec_ZZ_p *)r.got[1].getData())[0] == want[0], "the second secret was not taken"); return 0;
}""", 'a client with another secret in a later request', 'the secret of the first request is used again')

bug('b84', 'C10', [('prf.hpp', '''    if (this->autoSeedPtr == nullptr) {''', '''    if (this->autoSeedPtr == nullptr || index == 0) {''')], """
int main() {
  ZZPRF prf; ZZ a = prf.generate(5, 64); prf.generate(0, 64); CHECK(prf.generate(5, 64) == a, "another seed"); return 0;
}""", 'index 0 asked for after another one, without a seed', 'the generator takes a new seed')

bug('b85', 'C18', [('zzppoly.cpp', '''    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1) {''', '''    this->bmCap.cont();
    for(size_t k = 0; k < (size_t) this->factorPairs[j].length(); k++) {
      if (NTL::deg(this->factorPairs[j][k].a) == 1 && !NTL::IsZero(y[j][k % y[j].length()])) {''')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); vec_ZZ_p r, x, y; r.SetLength(1); conv(r[0], num(3L << 40)); x.SetLength(3); for (int i = 0; i < 3; i++) conv(x[i], num(i == 0 ? (3L << 40) : i)); ZZ_pX f = BuildFromRoots(r); eval(y, f, x);
  ZZpPolynomials ps(40); vec_ZZ got = ps.findIntersection(x, &y, 1); CHECK(got.length() == 1 && got[0] == 3, "a root that is a point is lost"); return 0;
}""", 'a root that is an evaluation point', 'it is not reported')

bug('b86', 'C11', [('eopsiparty.cpp', '  omegaAIdx = this->length * this->degree;\n', '  omegaAIdx = this->length * (2 * this->height + 1);\n'), ('eopsiparty.cpp', 'omegaBIdx = omegaAIdx + this->length * this->degree;', 'omegaBIdx = 2 * omegaAIdx;')], """
struct Spy : EOPSIServer { std::set<size_t> used; bool twice = false; using EOPSIServer::EOPSIServer; using EOPSIParty::computeTOrQ;
  void genOmega(ZZ_pX &o, const size_t d, const ZZ seed, const size_t index) { for (size_t i = 0; i < d; i++) if (!used.insert(index + i).second) twice = true; EOPSIServer::genOmega(o, d, seed, index); } };
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 2, D = 9; Spy s(p, L, H, D, "S"); vec_ZZ_p a[2], b[2]; for (int j = 0; j < 2; j++) { a[j].SetLength(D); b[j].SetLength(D); }
  for (size_t i = 0; i < L * D; i++) s.used.insert(i);
  s.computeTOrQ(num(12345), a, b); CHECK(!s.twice, "a position of the additive masks is used for a masking polynomial"); return 0;
}""", 'more evaluation points than two maximum loads and one', 'the masking polynomials start at positions of the additive masks')

bug('b87', 'C23', [('eopsiclient.cpp', '''  index = 0;
  for (j = 0; j < this->length; j++) {
    for (i = 0; i < this->degree; i++) {
''', '''  for (j = 0; j < this->length; j++) {
    index = j * (2 * this->height + 1);
    for (i = 0; i < this->degree; i++) {
'''), ('eopsiclient.cpp', '''  for (size_t j = 0; j < this->length; j++) {
    for (size_t i = 0; i < this->degree; i++) {
      dataA[j][i] =''', '''  for (size_t j = 0; j < this->length; j++) {
    index = j * (2 * this->height + 1);
    for (size_t i = 0; i < this->degree; i++) {
      dataA[j][i] =''')], """
struct C2 : EOPSIClient { using EOPSIClient::EOPSIClient; using EOPSIParty::getUnknowns; };
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 3, H = 2, D = 7; HashBuckets<ZZ_p> h(L, H, &theHash); C2 b(h, p, L, H, D, "A", num(99)); ZZ d[] = {num(1), num(2), num(3)}; b.setRawData(d, 3, 16);
  vec_ZZ_p x = b.getUnknowns(D); ZZpPRF prf(p); ZZ_p s; conv(s, num(99)); size_t k = 0;
  for (size_t j = 0; j < L; j++) { ZZ_pX f = BuildFromRoots(vector2VecZZp(h[j])); for (size_t i = 0; i < D; i++) CHECK(b.getBlindedData()[j][i] == eval(f, x[i]) + prf.generate(s, k++, 61), "not the mask of its own position"); }
  return 0;
}""", 'more evaluation points than two maximum loads and one', 'the masks of the last points of a bucket are those of the first points of the next')

bug('b88', 'C04', [('eopsiclient.cpp', '  this->setcap = polys.findIntersection(unknowns, diff, this->length);\n  bmIntersect.stop();', '  NTL::vec_ZZ found = polys.findIntersection(unknowns, diff, this->length);\n  if (found.length() > 0) {\n    this->setcap = found;\n  }\n  bmIntersect.stop();')], """
int main() {
  ZZ p = num(P61); ZZ_p::init(p); size_t L = 2, H = 3;
  Client *a = client(p, L, H, "Alice", num(1), {1, 2, 3}), *b = client(p, L, H, "Bob", num(2), {2, 3, 4}), *c = client(p, L, H, "Carol", num(3), {8, 9}); EOPSIServer s(p, L, H, 7, "Cloud"); acquaint({a, b, c, &s}); give(*a, s); give(*b, s); give(*c, s);
  run(*a, *b); CHECK(result(*a).size() == 2, "two"); run(*a, *c); CHECK(result(*a).empty(), "nothing is common, but an earlier result is reported"); return 0;
}""", 'a run without common elements after one with some', 'the earlier result is reported again')

bug('b89', 'C12', [('hashbuckets.hpp', '''  try {
    hashStrInt = new StrInt(hashAlgorithm->hashSize());''', '''  if (this->hashStrInt != nullptr && this->hashAlgorithm->hashSize() == hashAlgorithm->hashSize()) {
    return;
  }
  
  try {
    hashStrInt = new StrInt(hashAlgorithm->hashSize());''')], """
struct Const : HashAlgorithm<ZZ_p> { byte b[1]; Const(byte v) { b[0] = v; } byte *hash(ZZ_p, const size_t = 0) { return b; } size_t hashSize() const { return 1; } std::string name() const { return "const"; } };
int main() {
  ZZ_p::init(num(101)); Const one(1), two(2); HashBuckets<ZZ_p> h(4, 4, &one); h.HashBuckets<ZZ_p>::setHashAlgorithm(&two); ZZ_p e; conv(e, 5); h.add(e);
  CHECK(h.getBucket(2).size() == 1, "not in the bucket of the algorithm set last"); return 0;
}""", 'another algorithm of the same digest size set later', 'elements go to the buckets of the earlier algorithm')

bug('b90', 'C10', [('zzpprf.cpp', '''  genBits = ((size_t) NTL::NumBits(this->modulo) < bits || bits == 0) ? NTL::NumBits(this->modulo) : bits;''', '''  static const size_t fieldBits = NTL::NumBits(this->modulo);
  genBits = (fieldBits < bits || bits == 0) ? fieldBits : bits;''')], """
int main() {
  ZZ p = num(P61), q = num(251); ZZ_p::init(q); { ZZpPRF g(q); ZZ_p s; conv(s, 5); g.generate(s, 1, 0); }
  ZZ_p::init(p); ZZpPRF g(p); ZZ_p s; conv(s, 5); ZZ_p v = g.generate(s, 1, 0); ZZPRF w; ZZ_p e; conv(e, w.generate(num(5), 1, 61)); CHECK(v == e, "the value has the size of an earlier field"); return 0;
}""", 'two fields of different sizes in one process', 'the values have the size of the first field')

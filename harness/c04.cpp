// Sequences of runs: each reports what the same run among fresh parties reports.
#include "run.h"
static std::vector<std::vector<long>> values(3);
extern "C" int vp_main() {
  Dims d = {MODP, NBUCK, LOAD, 2 * LOAD + 1 + EXTRA}; field(d.p); vp_randombits_hook = keyBytes;
  for (int i = 0; i < 3; i++) for (int j = 0; j < NBUCK; j++) for (int k = 0; k < LOAD; k++) values[i].push_back(j + NBUCK * (k + LOAD * (j * LOAD + k < SYMN ? (long)vp_u("element", SYM) : k & 1)));
  World w(d, BITS, values); bool late = false;
#ifdef LATE
  late = vp_choose(2, "late"); // the third client joins before the second run
#endif
  for (size_t i = 0; i < 3; i++) if (!(late && i == 2)) w.give(i);
  for (int run = 0; run < RUNS; run++) {
    if (late && run == 1) w.give(2);
    int op = vp_choose(6, "run"); static const size_t rs[] = {0, 1, 2, 0, 1, 2}, gs[] = {1, 2, 0, 2, 0, 1};
    size_t r = rs[op], g = gs[op];
    if (late && run == 0) vp_assume(r != 2 && g != 2);
    std::vector<std::vector<long>> before; for (size_t i = 0; i < 3; i++) before.push_back(w.result(i));
    size_t n = events.size();
    w.run(r, g, 2 * run);
    vp_check(events.size() == n + 4, "a run takes four messages");
    std::vector<long> got = w.result(r);
    for (size_t i = 0; i < 3; i++) if (i != r) sameSet(w.result(i), before[i], "the others' results are left alone");
    World f(d, BITS, values); f.give(r); f.give(g); f.run(r, g, 2 * run);
    sameSet(got, f.result(r), "the result is that of fresh parties");
    for (long a : values[r]) { bool both = false; for (long b : values[g]) both = vp_or(both, a == b); vp_check(vp_or(!both, count(got, a) >= 1), "common elements are reported"); }
    for (size_t j = 0; j < d.L; j++) for (size_t i = 0; i < d.D; i++) vp_check(vp_and(w.c[r]->gotT[j][i] == f.c[r]->gotT[j][i], w.c[r]->gotQ[j][i] == f.c[r]->gotQ[j][i]), "the answers are those of fresh parties");
    events.resize(n);
  }
#ifdef BETWEEN
  { // a run of others, or one that the requester serves, between the two answers to a requester
    struct Relay : Mute { using Mute::Mute; EOPSIMessage *m[2]; size_t n = 0; void receive(EOPSIMessage *x) { m[n++] = new EOPSIMessage(*x); } bool isAuthorised(const EOPSIMessage *) const { return true; } };
    size_t r = (size_t)vp_choose(3, "who"), g = (r + 1) % 3, o = (r + 2) % 3;
    Relay relay(EOPSI_PARTY_CLIENT, d, partyIds[r]); w.c[g]->authenticate(relay); w.s->authenticate(relay);
    keyCalls = 30; w.c[g]->receive(request(partyIds[r], w.c[r]->getSecret()));
    vp_check(relay.n == 2, "both answers come"); w.c[g]->authenticate(*w.c[r]); w.s->authenticate(*w.c[r]);
    size_t first = (size_t)vp_choose(2, "first"); w.c[r]->receive(relay.m[first]);
    switch (vp_choose(4, "between")) { case 0: w.run(g, r, 32); break; case 1: w.run(o, r, 32); break; case 2: w.run(o, g, 32); break; case 3: w.run(g, o, 32); }
    w.c[r]->receive(relay.m[1 - first]);
    World f(d, BITS, values); f.give(r); f.give(g); f.run(r, g, 30); sameSet(w.result(r), f.result(r), "the result is that of fresh parties");
    vp_reach("between");
  }
#endif
#ifdef OTHER
  { // parties with smaller elements, later in the same process
    World o(d, BITS - 1, values); for (size_t i = 0; i < 3; i++) o.give(i);
    size_t r = (size_t)vp_choose(3, "other"), g = (r + 1) % 3; o.run(r, g, 40);
    std::vector<long> got = o.result(r);
    for (long a : values[r]) { bool both = false; for (long b : values[g]) both = vp_or(both, a == b); vp_check(vp_or(!both, count(got, a) >= 1), "common elements are reported"); }
    vp_reach("other");
  }
#endif
  vp_reach("end");
  return 0;
}

// The chronometer against a plain record of the instants it read.
#include "h.h"
#include <cmath>
#include <simplebm.h>
typedef long long I;
static long last; static bool seen;
static void watch(long ns) { last = ns; seen = true; }
static const int MAXT = OPS + 3;
static I T[MAXT]; static bool F[MAXT]; static int n; static bool stopped; // instants in microseconds, whether taken by pause()
static int named[2]; // -1: no such name
static const char *const NAME[2] = {"a", "b"};
static void take(bool pausing, int name) { vp_check(seen, "the time is taken"); T[n] = last / 1000; F[n] = pausing; if (name >= 0) named[name] = n; n++; }
static void step(int name) { if (n && stopped) { vp_check(!seen, "no time is taken"); return; } if (!n) { stopped = false; name = -1; } take(false, name); }
static void stop(int name) { if (!n) { if (seen) take(false, name); } else if (stopped || F[n - 1]) vp_check(!seen, "no time is taken"); else take(false, name); stopped = true; } // nothing to stop: a first time may be taken
static void none() { vp_check(!seen, "no time is taken"); }
static void clearAll() { n = 0; stopped = false; named[0] = named[1] = -1; }
static bool paused() { return !stopped && n > 0 && F[n - 1]; }
static I d(int i) { return T[i] - T[i - 1]; }
static I upTo(int c, bool noPauses) { I s = 0; for (int i = 1; i <= c; i++) if (!noPauses || !F[i - 1]) s += d(i); return s; }
static bool near(double a, double b) { double e = a - b, t = 1e-9 * (b < 0 ? -b : b) + 1e-9; return vp_and(e <= t, -e <= t); }
static void figures(const SimpleBenchmark &b) {
  vp_check(b.isPaused() == paused() && (!n || b.isStopped() == stopped), "paused and stopped states");
  for (int c = 0; c <= n + 1; c++) {
    int at = c >= n ? -1 : c ? c : n - 1; // cursor 0 and the last time point stand for the last time
    vp_check(b.benchmark((size_t)c).count() == (at < 1 ? 0 : d(at)), "the interval before a time point");
    vp_check(b.cumulativeBenchmark((size_t)c, false).count() == (at < 1 ? 0 : upTo(at, false)), "the time up to a time point");
    vp_check(b.cumulativeBenchmark((size_t)c).count() == (at < 1 ? 0 : upTo(at, true)), "the time up to a time point without pauses");
  }
  for (int k = 0; k < 2; k++) {
    int at = named[k] > 0 ? named[k] : n - 1;
    vp_check(b.benchmark(std::string(NAME[k])).count() == (at < 1 ? 0 : d(at)), "the interval before a named time point");
    vp_check(b.cumulativeBenchmark(std::string(NAME[k]), false).count() == (at < 1 ? 0 : upTo(at, false)), "the time up to a named time point");
    vp_check(b.cumulativeBenchmark(std::string(NAME[k])).count() == (at < 1 ? 0 : upTo(at, true)), "the time up to a named time point without pauses");
  }
  for (int np = 0; np < 2; np++) {
    I lo = 0, hi = 0, sum = 0; long k = 0;
    for (int i = 1; i < n; i++) if (!np || !F[i - 1]) { I x = d(i); lo = k ? (I)vp_ite(x < lo, (uint64_t)x, (uint64_t)lo) : x; hi = k ? (I)vp_ite(x > hi, (uint64_t)x, (uint64_t)hi) : x; sum += x; k++; }
    vp_check(b.min(np).count() == lo, np ? "the shortest interval without pauses" : "the shortest interval");
    vp_check(b.max(np).count() == hi, np ? "the longest interval without pauses" : "the longest interval");
#if FIGURES
    double avg = k ? (double)sum / (double)k : 0, var = 0;
    for (int i = 1; i < n; i++) if (!np || !F[i - 1]) { double e = (double)d(i) - avg; var += e * e / (double)k; }
    vp_check(near(b.average(np), avg), np ? "the average without pauses" : "the average");
    vp_check(near(b.variance(np), var), np ? "the variance without pauses" : "the variance");
    double sd = b.standardDeviation(np);
    vp_check(vp_and(sd >= 0, near(sd * sd, var)), np ? "the standard deviation without pauses" : "the standard deviation");
#endif
  }
}
extern "C" int vp_main() {
  vp_clock_symbolic = BITS; vp_clock_unit = UNIT; vp_clock_hook = watch;
  clearAll();
  SimpleBenchmark b(vp_choose(2, "reserve") ? 8 : 0);
  figures(b);
  for (int i = 0; i < OPS; i++) {
    seen = false;
    switch (vp_choose(11, "op")) {
    case 0: b.start(); clearAll(); take(false, -1); break;
    case 1: b.step(); step(-1); break;
    case 2: b.step("a"); step(0); break;
    case 3: b.pause(); if (!n || stopped || paused()) none(); else take(true, -1); break;
    case 4: b.pause("a"); if (!n || stopped || paused()) none(); else take(true, 0); break;
    case 5: b.cont(); step(-1); break;
    case 6: b.stop(); stop(-1); break;
    case 7: b.stop("a"); stop(0); break;
    case 8: b.reset(); none(); clearAll(); break;
    case 9: b.step("b"); step(1); break;
    case 10: vp_reach("end"); return 0; // fewer operations
    }
    if (i == OPS - 1 || EVERY) figures(b);
  }
  vp_reach("end");
  return 0;
}

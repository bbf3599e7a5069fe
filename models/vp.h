// Harness API. Under the symbolic executor these are intrinsics; in native replays they read recorded values.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_make(void *p, size_t n, const char *name);      // n fresh symbolic bytes
uint64_t vp_u(const char *name, int bits);              // fresh symbolic number of the given width (<= 64)
void vp_assume(bool c);
void vp_check(bool c, const char *msg);
[[noreturn]] void vp_fail(const char *msg);
int vp_choose(int n, const char *name);                 // one of n alternatives, each explored
uint64_t vp_concretize(uint64_t v);                     // split the path on the values of v
void vp_reach(const char *label);                       // reachability witness
void vp_observe(const char *name, uint64_t v);          // compared between symbolic and native execution
void vp_observe_bytes(const char *name, const void *p, size_t n);
void vp_expect_exit(int code);                          // exit with this code (-1: any) ends the path normally from here on; -2: no exit is expected
size_t vp_objsize(const void *p);                       // bytes from p to the end of its live object, ~0 if not live
// engine only (models)
bool vp_is_concrete(const void *p, size_t n);
bool vp_must(bool c);
[[noreturn]] void vp_bound(const char *msg);
uint64_t vp_ite(bool c, uint64_t a, uint64_t b);
void vp_modop(int op, const void *a, const void *b, const void *n, void *out, size_t nb);
uint64_t vp_wide(int op, const void *a, size_t nb);     // 0 bit length, 1 trailing zeros
void vp_uf(const char *tag, const void *in, size_t n, void *out, size_t on);
void vp_sha(int alg, const void *in, size_t n, void *out, size_t on, int abstract);
void vp_print(const char *name, uint64_t v);
// environment controls (set by harnesses, used by the models and by the native runtime)
extern int vp_sha_abstract;    // 1: digests of inputs accepted by vp_sha_filter are unconstrained values (where it returns 2: the input itself, its last 8 bytes first)
extern int (*vp_sha_filter)(const uint8_t *in, size_t n);
extern int vp_clock_symbolic;  // k > 0: the clock advances by an arbitrary k-bit number of units between two readings
extern long vp_clock_unit;     // in nanoseconds
extern void (*vp_clock_hook)(long ns); // told every reading
extern int vp_rand_symbolic;   // 1: rand() returns arbitrary values
extern int vp_randombits_symbolic;
extern void (*vp_randombits_hook)(long bits, uint8_t *out); // provides NTL's random bits (ceil(bits / 8) bytes, least significant first)
}
extern "C" int vp_main();
static inline bool vp_and(bool a, bool b) { return (bool)((int)a & (int)b); }
static inline bool vp_or(bool a, bool b) { return (bool)((int)a | (int)b); }

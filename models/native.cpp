#include <NTL/ZZ_p.h>
// Native side of the harness API: replays recorded inputs against the real code and the real libraries.
#include "vp.h"
#include <NTL/ZZ.h>
#include <gmp.h>
#include <cryptopp/sha.h>
#include <cxxabi.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>
#include <sanitizer/asan_interface.h>
extern "C" { int __sanitizer_get_ownership(const volatile void *p); size_t __sanitizer_get_allocated_size(const volatile void *p); }
extern "C" { extern long vp_zeroms asm("_ZN15SimpleBenchmark6ZEROMSE"); __attribute__((weak)) long vp_zeroms = 0; }
typedef std::string Str;
extern "C" { const NTL::ZZ_p *vp_hint_roots = nullptr; long vp_hint_count = 0; int vp_hint_rest = 0; }
extern "C" { int vp_sha_abstract = 0; int (*vp_sha_filter)(const uint8_t *in, size_t n) = nullptr; int vp_clock_symbolic = 0; long vp_clock_unit = 1; void (*vp_clock_hook)(long ns) = nullptr; int vp_rand_symbolic = 0, vp_randombits_symbolic = 0; void (*vp_randombits_hook)(long, uint8_t *) = nullptr; }
namespace NTL { class ZZ; }
extern "C" { long (*vp_decimal_hook)(const NTL::ZZ &, char *) = nullptr; }
static std::map<Str, Str> *inputs; static std::map<Str, int> *counts; static std::map<Str, std::map<Str, Str>> *ufs;
static int expectExit = -2; static bool ended = false;
static std::map<const void *, Str> *hashed;
static Str unhex(const Str &h) { Str r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static Str hexs(const void *p, size_t n) { Str r; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const uint8_t *)p)[i]); r += b; } return r; }
static void done(int code) { fflush(stdout); fflush(stderr); ended = true; _exit(code); }
static Str key(const char *name) { return Str(name) + "#" + std::to_string((*counts)[name]++); }
static Str value(const char *name) { auto it = inputs->find(key(name)); return it == inputs->end() ? "0" : it->second; }
extern "C" {
void vp_make(void *p, size_t n, const char *name) {
  if (!n) return;
  Str h = value(name); if (h.size() < 2 * n) h = Str(2 * n - h.size(), '0') + h; Str b = unhex(h.substr(h.size() - 2 * n));
  for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)b[n - 1 - i];
}
uint64_t vp_u(const char *name, int) { return strtoull(value(name).c_str(), 0, 16); }
void vp_assume(bool c) { if (!c) { printf("VP-ASSUME\n"); done(43); } }
void vp_check(bool c, const char *m) { if (!c) { printf("VP-FAIL %s\n", m); done(42); } }
void vp_fail(const char *m) { printf("VP-FAIL %s\n", m); fflush(stdout); _exit(42); }
int vp_choose(int n, const char *name) { int v = (int)strtoull(value(name).c_str(), 0, 16); return v < n ? v : 0; }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_reach(const char *l) { printf("VP-REACH %s\n", l); }
void vp_observe(const char *n, uint64_t v) { printf("VP-OBS %s %lx\n", n, v); }
void vp_observe_bytes(const char *n, const void *p, size_t k) { Str b((const char *)p, k), r(b.rbegin(), b.rend()); Str h = hexs(r.data(), k); size_t i = h.find_first_not_of('0'); printf("VP-OBS %s %s\n", n, i == Str::npos ? "0" : h.substr(i).c_str()); }
void vp_expect_exit(int c) { expectExit = c; }
size_t vp_objsize(const void *p) {
  if (!p || __asan_address_is_poisoned(p)) return ~(size_t)0;
  if (__sanitizer_get_ownership(p)) return __sanitizer_get_allocated_size(p);
  size_t n = 0; while (n < 65536 && !__asan_address_is_poisoned((const char *)p + n)) n++; return n;
}
bool vp_is_concrete(const void *, size_t) { return true; }
bool vp_must(bool c) { return c; }
void vp_bound(const char *m) { printf("VP-BOUND %s\n", m); fflush(stdout); _exit(43); }
uint64_t vp_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void vp_print(const char *n, uint64_t v) { fprintf(stderr, "vp: %s = %lu\n", n, v); }
void vp_uf(const char *tag, const void *in, size_t n, void *out, size_t on) {
  auto &t = (*ufs)[tag]; auto it = t.find(hexs(in, n)); memset(out, 0, on);
  if (it != t.end()) { Str b = unhex(it->second); memcpy(out, b.data(), std::min(on, b.size())); }
}
// ---- interposed library functions (linked with --wrap)
#define UPD "_ZN8CryptoPP16IteratedHashBaseIjNS_18HashTransformationEE6UpdateEPKhm"
#define FIN "_ZN8CryptoPP16IteratedHashBaseIjNS_18HashTransformationEE14TruncatedFinalEPhm"
#define RST "_ZN8CryptoPP16IteratedHashBaseIjNS_18HashTransformationEE7RestartEv"
void r_upd(void *o, const uint8_t *p, size_t n) asm("__real_" UPD); void r_fin(CryptoPP::HashTransformation *o, uint8_t *p, size_t n) asm("__real_" FIN); void r_rst(void *o) asm("__real_" RST);
void w_upd(void *o, const uint8_t *p, size_t n) asm("__wrap_" UPD); void w_fin(CryptoPP::HashTransformation *o, uint8_t *p, size_t n) asm("__wrap_" FIN); void w_rst(void *o) asm("__wrap_" RST);
void w_upd(void *o, const uint8_t *p, size_t n) { (*hashed)[o].append((const char *)p, n); r_upd(o, p, n); }
void w_rst(void *o) { (*hashed)[o].clear(); r_rst(o); }
void w_fin(CryptoPP::HashTransformation *o, uint8_t *p, size_t n) {
  Str in = (*hashed)[o]; (*hashed)[o].clear();
  unsigned ds = o->DigestSize(); r_fin(o, p, n); (*hashed)[o].clear();
  int abs = !vp_sha_abstract ? 0 : vp_sha_filter ? vp_sha_filter((const uint8_t *)in.data(), in.size()) : 1;
  if (abs == 2) { memset(p, 0, n); for (size_t i = 0; i < n && i < in.size(); i++) p[i] = (uint8_t)in[in.size() < 8 ? i : (in.size() - 8 + i) % in.size()]; }
  else if (abs) {
    auto &t = (*ufs)[ds == 20 ? "sha1" : "sha256"]; auto it = t.find(hexs(in.data(), in.size()));
    if (it != t.end()) { Str b = unhex(it->second); memcpy(p, b.data(), std::min(n, b.size())); }
  }
}
void __real__ZN3NTL10RandomBitsERNS_2ZZEl(NTL::ZZ &x, long l);
void __wrap__ZN3NTL10RandomBitsERNS_2ZZEl(NTL::ZZ &x, long l) {
  x = 0; if (l <= 0) return;
  if (vp_randombits_hook) { uint8_t b[64] = {0}; vp_randombits_hook(l, b); NTL::ZZFromBytes(x, b, (l + 7) / 8); NTL::trunc(x, x, l); }
  else if (vp_randombits_symbolic) for (long i = 0; i < l; i += 64) { uint64_t v = vp_u("rb", 64); for (int k = 0; k < 64 && i + k < l; k++) if (v >> k & 1) NTL::SetBit(x, i + k); }
  else for (long i = 0; i < l; i++) if (i % 3 != 1 || i == l - 1) NTL::SetBit(x, i);
}
void __wrap__ZN3NTL9RandomLenERNS_2ZZEl(NTL::ZZ &x, long l) { __wrap__ZN3NTL10RandomBitsERNS_2ZZEl(x, l); if (l > 0) NTL::SetBit(x, l - 1); }
int __wrap_rand() { static unsigned s = 12345; if (vp_rand_symbolic) return (int)vp_u("rand", 31); s = s * 1103515245u + 12345u; return (int)((s >> 1) & 0x7fffffff); }
void __wrap_srand(unsigned) {}
long __wrap_time(long *t) { if (t) *t = 1700000000; return 1700000000; }
static long now() { static long t = 1000000000L; if (vp_clock_symbolic) t += (long)vp_u("dt", vp_clock_symbolic) * vp_clock_unit; else t += 1000; if (vp_clock_hook) vp_clock_hook(t); return t; }
std::chrono::system_clock::time_point w_sys() asm("__wrap__ZNSt6chrono3_V212system_clock3nowEv"); std::chrono::system_clock::time_point w_sys() { return std::chrono::system_clock::time_point(std::chrono::system_clock::duration(now())); }
std::chrono::steady_clock::time_point w_std() asm("__wrap__ZNSt6chrono3_V212steady_clock3nowEv"); std::chrono::steady_clock::time_point w_std() { return std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(now())); }
[[noreturn]] void __wrap_exit(int c) { if (expectExit == -1 || (expectExit >= 0 && expectExit == c)) { printf("VP-REACH exit%d\nVP-OBS exit %x\n", c, c); fflush(stdout); _exit(0); } printf("VP-FAIL process exit with code %d\n", c); fflush(stdout); _exit(42); }
}
static void load(const char *f) {
  std::ifstream in(f); Str l;
  while (std::getline(in, l)) { std::istringstream s(l); Str k, n, h, o; s >> k >> n; if (k == "in") { s >> h; (*inputs)[n] = h; } else { s >> h >> o; if (h == "-") h = ""; (*ufs)[n][h] = o; } }
}
int main(int, char **argv) {
  inputs = new std::map<Str, Str>; counts = new std::map<Str, int>; ufs = new std::map<Str, std::map<Str, Str>>; hashed = new std::map<const void *, Str>;
  load(argv[1]);
  std::set_terminate([] {
    std::type_info *t = abi::__cxa_current_exception_type(); int st; char *d = t ? abi::__cxa_demangle(t->name(), 0, 0, &st) : nullptr;
    printf("VP-FAIL uncaught exception %s\n", d ? d : "?"); fflush(stdout); _exit(42);
  });
  vp_main();
  printf("VP-END\n"); done(0);
}
// the libraries are not instrumented: what they read and write for the caller is checked here
struct _ntl_gbigint_body;
static void touch(const volatile uint8_t *p, long n, bool write) { for (long i = 0; i < n; i++) { uint8_t v = p[i]; if (write) ((volatile uint8_t *)p)[i] = v; } }
extern "C" {
void fromReal(_ntl_gbigint_body **, const uint8_t *, long) asm("__real__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl");
void fromWrap(_ntl_gbigint_body **, const uint8_t *, long) asm("__wrap__Z15_ntl_gfrombytesPP17_ntl_gbigint_bodyPKhl");
void toReal(uint8_t *, _ntl_gbigint_body *, long) asm("__real__Z16_ntl_gbytesfromzPhP17_ntl_gbigint_bodyl");
void toWrap(uint8_t *, _ntl_gbigint_body *, long) asm("__wrap__Z16_ntl_gbytesfromzPhP17_ntl_gbigint_bodyl");
void *exportReal(void *, size_t *, int, size_t, int, size_t, mpz_srcptr) asm("__real___gmpz_export");
void *exportWrap(void *, size_t *, int, size_t, int, size_t, mpz_srcptr) asm("__wrap___gmpz_export");
void fromWrap(_ntl_gbigint_body **x, const uint8_t *p, long n) { touch(p, n, false); fromReal(x, p, n); }
void toWrap(uint8_t *p, _ntl_gbigint_body *x, long n) { touch(p, n, true); toReal(p, x, n); }
void *exportWrap(void *p, size_t *c, int o, size_t size, int e, size_t nails, mpz_srcptr z) {
  if (p && size && !nails && mpz_sgn(z)) touch((const uint8_t *)p, (long)((mpz_sizeinbase(z, 2) + 8 * size - 1) / (8 * size) * size), true);
  return exportReal(p, c, o, size, e, nails, z);
}
}

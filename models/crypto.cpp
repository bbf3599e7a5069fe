// Models of the Crypto++ hash classes: input bytes are collected per object, the digest is asked from the engine.
#include "vp.h"
#include <cryptopp/sha.h>
#include <cstring>
extern "C" { int vp_sha_abstract = 0; int (*vp_sha_filter)(const uint8_t *in, size_t n) = nullptr; }
namespace {
struct Buf { const void *obj; size_t n; uint8_t d[1024]; Buf *next; };
Buf *head = nullptr;
Buf *bufOf(const void *o) { for (Buf *b = head; b; b = b->next) if (b->obj == o) return b; Buf *b = (Buf *)malloc(sizeof(Buf)); b->obj = o; b->n = 0; b->next = head; head = b; return b; }
}
extern "C" void vp_hash_update(const void *o, const uint8_t *p, size_t n) { Buf *b = bufOf(o); if (n > sizeof(b->d) - b->n) vp_bound("hash input beyond 1024 bytes"); memcpy(b->d + b->n, p, n); b->n += n; }
extern "C" void vp_hash_final(const void *o, int alg, uint8_t *out, size_t n) {
  Buf *b = bufOf(o); size_t ds = alg == 1 ? 20 : 32; uint8_t r[32];
  int abs = !vp_sha_abstract ? 0 : vp_sha_filter ? vp_sha_filter(b->d, b->n) : 1; // 2: not mixed
  if (abs == 2) { memset(r, 0, ds); for (size_t i = 0; i < ds && i < b->n; i++) r[i] = b->d[b->n < 8 ? i : (b->n - 8 + i) % b->n]; } else vp_sha(alg, b->d, b->n, r, ds, abs);
  if (n > ds) vp_fail("digest truncation beyond the digest size");
  if (n) memcpy(out, r, n);
  b->n = 0;
}
namespace CryptoPP {
Algorithm::Algorithm(bool) {}
std::string SHA1::AlgorithmProvider() const { return "C++"; }
std::string SHA256::AlgorithmProvider() const { return "C++"; }
unsigned int HashTransformation::OptimalDataAlignment() const { return 1; }
bool HashTransformation::TruncatedVerify(const byte *, size_t) { vp_bound("TruncatedVerify"); }
void HashTransformation::ThrowIfInvalidTruncatedSize(size_t) const {}
typedef IteratedHashBase<word32, HashTransformation> IHB;
template <> void IHB::Update(const byte *in, size_t n) { vp_hash_update(this, in, n); }
template <> byte *IHB::CreateUpdateSpace(size_t &) { vp_bound("CreateUpdateSpace"); }
template <> void IHB::Restart() { bufOf(this)->n = 0; }
template <> void IHB::TruncatedFinal(byte *d, size_t n) { vp_hash_final(this, this->DigestSize() == 20 ? 1 : 256, d, n); }
template <> size_t IHB::HashMultipleBlocks(const word32 *, size_t) { return 0; }
template <> void IHB::PadLastBlock(unsigned int, byte) {}
void SHA1::InitState(HashWordType *) {}
void SHA1::Transform(HashWordType *, const HashWordType *) {}
size_t SHA1::HashMultipleBlocks(const HashWordType *, size_t) { return 0; }
void SHA256::InitState(HashWordType *) {}
void SHA256::Transform(HashWordType *, const HashWordType *) {}
size_t SHA256::HashMultipleBlocks(const HashWordType *, size_t) { return 0; }
}

From d1b3de8f2378498c56e2ddaf45e528e49043e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 01/16] fix: treat zero as carrying any zero padding

NTL::NumTwos(0) is 0, so the element 0 (whose padded form is 0) never passed
the padding filter and was missing from every intersection.
---
 src/libeopsi/ntlmiss.cpp | 5 +++++
 src/libeopsi/ntlmiss.h   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/ntlmiss.cpp b/src/libeopsi/ntlmiss.cpp
index 80a29ce..6d3dcc5 100644
--- a/src/libeopsi/ntlmiss.cpp
+++ b/src/libeopsi/ntlmiss.cpp
@@ -4,6 +4,7 @@
  * Copyright (C) 2015  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <limits>
 #include <sstream>
 #include "byte.h"
 #include "ntlmiss.h"
@@ -128,6 +129,10 @@ namespace NTL {
   //---------------------------------------------------------------------------
   
   size_t countLeadingZeros(const NTL::ZZ& z) {
+    // Zero is a multiple of any power of two (NumTwos would give 0)
+    if (IsZero(z)) {
+      return std::numeric_limits<size_t>::max();
+    }
     return NumTwos(z);
   }
   //---------------------------------------------------------------------------
diff --git a/src/libeopsi/ntlmiss.h b/src/libeopsi/ntlmiss.h
index 22abd43..e6d2ff3 100644
--- a/src/libeopsi/ntlmiss.h
+++ b/src/libeopsi/ntlmiss.h
@@ -112,7 +112,8 @@ namespace NTL {
   
   /**
    * This function counts the number of leading zeros of the binary
-   * notation of a big integer.
+   * notation of a big integer. Zero counts as having as many zeros as
+   * any padding may ask for.
    * 
    * @param z the number to check
    */
-- 
2.43.0


From a2eab711da299887487e2be443920254241ef258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 02/16] fix: do not overflow when counting blocks

bits + bitsPerBlock - 1 wraps around for counts near ULONG_MAX.
---
 src/libeopsi/ntlmiss.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/ntlmiss.cpp b/src/libeopsi/ntlmiss.cpp
index 6d3dcc5..ed6c92a 100644
--- a/src/libeopsi/ntlmiss.cpp
+++ b/src/libeopsi/ntlmiss.cpp
@@ -27,7 +27,7 @@ namespace NTL {
   //---------------------------------------------------------------------------
 
   unsigned long blocks(const unsigned long bits, const unsigned long bitsPerBlock) {
-    return (bits + bitsPerBlock - 1)/bitsPerBlock;
+    return bits/bitsPerBlock + (bits % bitsPerBlock != 0 ? 1 : 0);
   }
   //---------------------------------------------------------------------------
 
-- 
2.43.0


From 42cadae2c34ccd76f2a6b84df546c004be2dda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 03/16] fix: hash every character of the decimal text and
 nothing beyond it

---
 src/libeopsi/murmurhash3.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/libeopsi/murmurhash3.cpp b/src/libeopsi/murmurhash3.cpp
index 7f0f670..1d049f8 100644
--- a/src/libeopsi/murmurhash3.cpp
+++ b/src/libeopsi/murmurhash3.cpp
@@ -351,50 +351,50 @@ void MurmurHash3::murmurHash3_x64_128 (const void * key, const int len, void * o
   switch(len & 15) {
     case 15:
       k2 ^= ((uint64_t)tail[14]) << 48;
-      break;
+      /* FALLTHRU */
     case 14:
       k2 ^= ((uint64_t)tail[13]) << 40;
-      break;
+      /* FALLTHRU */
     case 13:
       k2 ^= ((uint64_t)tail[12]) << 32;
-      break;
+      /* FALLTHRU */
     case 12:
       k2 ^= ((uint64_t)tail[11]) << 24;
-      break;
+      /* FALLTHRU */
     case 11:
       k2 ^= ((uint64_t)tail[10]) << 16;
-      break;
+      /* FALLTHRU */
     case 10:
       k2 ^= ((uint64_t)tail[ 9]) << 8;
-      break;
+      /* FALLTHRU */
     case  9:
       k2 ^= ((uint64_t)tail[ 8]) << 0;
       k2 *= c2;
       k2  = ROTL64(k2,33);
       k2 *= c1;
       h2 ^= k2;
-      break;
+      /* FALLTHRU */
     case  8:
       k1 ^= ((uint64_t)tail[ 7]) << 56;
-      break;
+      /* FALLTHRU */
     case  7:
       k1 ^= ((uint64_t)tail[ 6]) << 48;
-      break;
+      /* FALLTHRU */
     case  6:
       k1 ^= ((uint64_t)tail[ 5]) << 40;
-      break;
+      /* FALLTHRU */
     case  5:
       k1 ^= ((uint64_t)tail[ 4]) << 32;
-      break;
+      /* FALLTHRU */
     case  4:
       k1 ^= ((uint64_t)tail[ 3]) << 24;
-      break;
+      /* FALLTHRU */
     case  3:
       k1 ^= ((uint64_t)tail[ 2]) << 16;
-      break;
+      /* FALLTHRU */
     case  2:
       k1 ^= ((uint64_t)tail[ 1]) << 8;
-      break;
+      /* FALLTHRU */
     case  1:
       k1 ^= ((uint64_t)tail[ 0]) << 0;
       k1 *= c1;
@@ -457,7 +457,7 @@ byte* MurmurHash3::hash(const NTL::ZZ_p n, const size_t len) {
   zzString = zzStreamString.str();
   truncLen = len > 0 && len < zzString.length() ? len : zzString.length();
   
-  murmurHash3_x64_128((const void *) zzString.c_str(), 4*truncLen, (void *) this->hash128);
+  murmurHash3_x64_128((const void *) zzString.c_str(), truncLen, (void *) this->hash128);
   return this->hash128;
 }
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 02709883dfdf5343a2cde91d68876adaf68f48f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:58 +0000
Subject: [PATCH 04/16] fix: name SHA hashers after the function they use

---
 src/libeopsi/sha.hpp    | 3 ++-
 src/libeopsi/shazzp.cpp | 4 +---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index f2c0fc8..5c93dc3 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -57,6 +57,7 @@ protected:
         
         default:
           std::cerr << "setFlavour(). The given flavour either is not a SHA-compatible one or is not (yet) implemented." << std::endl;
+          this->flavour = SHA1_FLAVOUR;
           /* FALLTHRU */
         case SHA1_FLAVOUR:
           this->sha = new CryptoPP::SHA1();
@@ -99,7 +100,7 @@ public:
   }
   
   virtual std::string name() const {
-    return "SHA" + this->flavour;
+    return this->flavour == SHA256_FLAVOUR ? "SHA256" : "SHA1";
   }
 };
 //-----------------------------------------------------------------------------
diff --git a/src/libeopsi/shazzp.cpp b/src/libeopsi/shazzp.cpp
index 5e1915c..f04e3f8 100644
--- a/src/libeopsi/shazzp.cpp
+++ b/src/libeopsi/shazzp.cpp
@@ -30,9 +30,7 @@ byte* SHAZZp::hash(NTL::ZZ_p n, const size_t len) {
 //-----------------------------------------------------------------------------
 
 std::string SHAZZp::name() const {
-  std::ostringstream sstr;
-  sstr << "SHA" << (this->flavour) << " for integers modulo p";
-  return sstr.str();
+  return SHA<NTL::ZZ_p>::name() + " for integers modulo p";
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 36256126571005288b994777044de7e47be4bd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 05/16] fix: give copies of SHA hashers their own state

---
 src/libeopsi/sha.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libeopsi/sha.hpp b/src/libeopsi/sha.hpp
index 5c93dc3..c9f3b25 100644
--- a/src/libeopsi/sha.hpp
+++ b/src/libeopsi/sha.hpp
@@ -79,6 +79,19 @@ public:
     this->setFlavour(flavour);
   }
   
+  SHA(const SHA& other) : HashAlgorithm<T>(other) {
+    this->sha = nullptr;
+    this->lastHash = nullptr;
+    this->setFlavour(other.flavour);
+  }
+  
+  SHA& operator=(const SHA& other) {
+    if (this != &other) {
+      this->setFlavour(other.flavour);
+    }
+    return *this;
+  }
+  
   ~SHA() {
     if (this->sha != nullptr) {
       delete this->sha;
-- 
2.43.0


From 27913d8a5361bd4a99d6e134a41cffe73cabe3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 06/16] fix: take the low-order bits from the number and an
 empty string as zero

---
 src/libeopsi/strint.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index e3c2761..c7f39ec 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -82,6 +82,11 @@ void StrInt::set(const byte *n, const size_t len) {
   size_t i, j;
   size_t dim = (len > this->length) ? this->length : len;
   
+  if (dim == 0) {
+    mpz_set_ui(z, 0);
+    return;
+  }
+  
   // Initialise conversion numbers
   for (i = 0; i < dim; i++) {
     mpz_set_ui(b[i], n[i]);
@@ -113,7 +118,7 @@ unsigned long StrInt::rem(const unsigned long divisor) const {
 //-----------------------------------------------------------------------------
 
 unsigned long StrInt::lsb() const {
-  return mpz_fdiv_ui(b[0], (unsigned long) (-1L));
+  return mpz_get_ui(z);
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From d8a6a82554ffe065cb3fcf2353a92975d15c74e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 07/16] fix: export exactly the bytes of a number

---
 src/libeopsi/strint.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/libeopsi/strint.cpp b/src/libeopsi/strint.cpp
index c7f39ec..ce1d8c0 100644
--- a/src/libeopsi/strint.cpp
+++ b/src/libeopsi/strint.cpp
@@ -145,7 +145,9 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
   const int BIG_ENDIANNESS = 1;
   const size_t LEN = this->getByteSize();
   
-  if ((barr != NULL) && (bytelen != NULL) && (*bytelen != LEN)) {
+  size_t count = 0;
+  
+  if ((barr == NULL) || (bytelen != NULL && *bytelen < LEN)) {
     try {
       barr = new byte[LEN];
     } catch (std::bad_alloc&) {
@@ -153,21 +155,14 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
       exit(2);
     }
   }
-  mpz_export((void *) barr, bytelen, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
+  mpz_export((void *) barr, &count, MSB_FIRST, sizeof(byte), BIG_ENDIANNESS, 0, this->z);
   
-  /*
-   * If this->z is zero then the count returned will be zero and nothing 
-   * written to barr. If barr is NULL in this case, no block is allocated, 
-   * just NULL is returned. 
-   */
-  if (*bytelen == 0 && LEN == 1) {
+  // If this->z is zero then the count returned is zero and nothing is written to barr.
+  if (count == 0) {
     barr[0] = '\0';
-    *bytelen = 1;
   }
-  
-  if (*bytelen != LEN) {
-    std::cerr << "toBytes(). Something unexpected happened in conversion." << std::endl;
-    exit(2);
+  if (bytelen != NULL) {
+    *bytelen = LEN;
   }
   
   return barr;
@@ -175,7 +170,7 @@ byte* StrInt::toBytes(byte *barr, size_t* bytelen) const {
 //-----------------------------------------------------------------------------
 
 size_t StrInt::getByteSize() const {
-  return (mpz_sizeinbase(this->z, 2) + sizeof(byte) - 1)/sizeof(byte);
+  return (mpz_sizeinbase(this->z, 2) + 8*sizeof(byte) - 1)/(8*sizeof(byte));
 }
 //-----------------------------------------------------------------------------
 
-- 
2.43.0


From 90e5c1c85c33c1b81e30fc8cfaa516626a750723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 08/16] fix: count and limit every addition to hash buckets

---
 src/libeopsi/hashbuckets.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libeopsi/hashbuckets.hpp b/src/libeopsi/hashbuckets.hpp
index 2acac0a..e57b01e 100644
--- a/src/libeopsi/hashbuckets.hpp
+++ b/src/libeopsi/hashbuckets.hpp
@@ -125,14 +125,8 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
   
   if (this->hashStrInt != nullptr) {
     this->hashStrInt->set(this->hashAlgorithm->hash(element), this->hashAlgorithm->hashSize());
-    index = this->hashStrInt->rem(this->k);
+    index = this->k > 0 ? this->hashStrInt->rem(this->k) : 0;
 //     std::cerr << element << " hashed to "<< *this->hashStrInt << " mod " << this->k << " = " << index << std::endl;
-    
-    if (this->buckets[index].size() == this->maxLoad) {
-      std::stringstream msg;
-      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
-      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
-    }
   } else {
     index = 0;
     std::cerr << "HashBuckets<T>::add()" << ". Element index completely invented (you did not set a hash algorithm)." << std::endl;
@@ -140,14 +134,20 @@ template <typename T> void HashBuckets<T>::add(const T& element) {
     
 //     if (index == 0)
 //     std::cerr << "HashBuckets<T>::add()" << ". Index of " << element << " is " << index << "." << std::endl; // Debug purposes
-    this->buckets[index].push_back(element);
+  this->addToBucket(element, index);
 }
 //-----------------------------------------------------------------------------
 
 template <typename T> void HashBuckets<T>::addToBucket(const T& element, const size_t i) {
   size_t index = i;
   if (index < this->k) {
+    if (this->buckets[index].size() >= this->maxLoad) {
+      std::stringstream msg;
+      msg << "HashBuckets<T>::addToBucket(). MarkedVector " << index << " full.";
+      throw OutOfBoundException(msg.str(), OutOfBoundException::FATAL);
+    }
     this->buckets[index].push_back(element);
+    this->n++;
   } else {
     throw OutOfBoundException("HashBuckets<T>::addToBucket(). Index out of bound.", OutOfBoundException::FATAL);
   }
-- 
2.43.0


From 4cb7af515564dcd5708c6cffe69a98baf59c21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 09/16] fix: never use factors of other polynomials

---
 src/libeopsi/zzppoly.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/zzppoly.cpp b/src/libeopsi/zzppoly.cpp
index f0100a2..293be97 100644
--- a/src/libeopsi/zzppoly.cpp
+++ b/src/libeopsi/zzppoly.cpp
@@ -76,6 +76,12 @@ void ZZpPolynomials::interpolate(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y, const size_
     }
   }
   
+  // A previous factorisation does not belong to these polynomials
+  if (this->factorPairs != nullptr) {
+    delete [] this->factorPairs;
+    this->factorPairs = nullptr;
+  }
+  
   this->n = n;
   for (size_t j = 0; j < n; j++) {
 //     std::cout << "\t------------" << std::endl;
@@ -178,7 +184,7 @@ NTL::vec_ZZ& ZZpPolynomials::findIntersection(NTL::vec_ZZ_p& x, NTL::vec_ZZ_p *y
       break;
   }
   
-  if (this->n != n) {
+  if (this->n != n || this->factorPairs == nullptr) {
     try {
       if (this->polynomials != nullptr) {
         delete [] this->polynomials;
-- 
2.43.0


From d07096fabe544341379aa3104a2358cddf9ff834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 10/16] fix: give copies of pseudo-random generators their own
 buffers

---
 src/libeopsi/zzprf.cpp | 16 ++++++++++++++++
 src/libeopsi/zzprf.h   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/src/libeopsi/zzprf.cpp b/src/libeopsi/zzprf.cpp
index a87346c..8622d7d 100644
--- a/src/libeopsi/zzprf.cpp
+++ b/src/libeopsi/zzprf.cpp
@@ -19,6 +19,22 @@ ZZPRF::ZZPRF() : PseudoRandom() {
 }
 //-----------------------------------------------------------------------------
 
+// Copies share the automatic seed, but use their own buffers
+ZZPRF::ZZPRF(const ZZPRF &other) : PseudoRandom(other), hashAlgorithm(other.hashAlgorithm) {
+  hashInputSize = 0;
+  genLength = 0;
+  gen = nullptr;
+  hashInput = nullptr;
+}
+//-----------------------------------------------------------------------------
+
+ZZPRF & ZZPRF::operator=(const ZZPRF &other) {
+  PseudoRandom::operator=(other);
+  hashAlgorithm = other.hashAlgorithm;
+  return *this;
+}
+//-----------------------------------------------------------------------------
+
 ZZPRF::~ZZPRF() {
   if (gen != nullptr) {
     delete [] gen;
diff --git a/src/libeopsi/zzprf.h b/src/libeopsi/zzprf.h
index 46629cb..ea2e8ae 100644
--- a/src/libeopsi/zzprf.h
+++ b/src/libeopsi/zzprf.h
@@ -32,8 +32,11 @@ protected:
   
 public:
   ZZPRF();
+  ZZPRF(const ZZPRF &other);
   virtual ~ZZPRF();
   
+  ZZPRF & operator=(const ZZPRF &other);
+  
   virtual NTL::ZZ generate(const NTL::ZZ seed, const size_t index, const size_t bits = 0);
   virtual NTL::ZZ generate(const size_t index, const size_t bits = 0);
   virtual NTL::ZZ randomSeed();
-- 
2.43.0


From fc12ab6dd3b9dfd0640bd6758e4177f1ca93deee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:44 +0000
Subject: [PATCH 11/16] fix: compute benchmark figures with pauses and without
 intervals

---
 src/libeopsi/simplebm.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/libeopsi/simplebm.cpp b/src/libeopsi/simplebm.cpp
index 370c493..4dc56fc 100644
--- a/src/libeopsi/simplebm.cpp
+++ b/src/libeopsi/simplebm.cpp
@@ -83,7 +83,7 @@ std::chrono::microseconds SimpleBenchmark::minOrMax(const bool giveMax, const bo
   
   min = max = currentInterval = ZEROMS;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "minOrMax(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -214,6 +214,9 @@ std::chrono::microseconds SimpleBenchmark::benchmark(const size_t cursor) const
   }
   
   if (cursor < 1) {
+    if (this->times.size() < 2) {
+      return SimpleBenchmark::ZEROMS;
+    }
     return std::chrono::duration_cast<std::chrono::microseconds>(this->times[this->times.size() - 1] - this->times[this->times.size() - 2]);
   } else {
     return std::chrono::duration_cast<std::chrono::microseconds>(this->times[cursor] - this->times[cursor - 1]);
@@ -252,14 +255,14 @@ std::chrono::microseconds SimpleBenchmark::cumulativeBenchmark(const std::string
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::average(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "average(). Not enough points to average." << std::endl;
     return 0.;
   }
   if (noPauses) {
-    return this->cumulativeBenchmark(false).count() / (double) this->countNotPausedTimes(1, this->times.size());
+    return this->cumulativeBenchmark(0, true).count() / (double) this->countNotPausedTimes(1, this->times.size());
   } else {
-    return this->cumulativeBenchmark().count() / (double) (this->times.size() - 1);
+    return this->cumulativeBenchmark(0, false).count() / (double) (this->times.size() - 1);
   }
 }
 //-----------------------------------------------------------------------------
@@ -269,16 +272,16 @@ double SimpleBenchmark::variance(const bool noPauses) const {
   size_t n;
   unsigned long x;
   
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "variance(). Not enough points to compute variance." << std::endl;
     return 0.;
   }
   
   avg = this->average(noPauses);
-  n = this->times.size() - 1;
+  n = noPauses ? this->countNotPausedTimes(1, this->times.size()) : this->times.size() - 1;
   var = 0.;
   for (size_t i = 1; i < this->times.size(); i++) {
-    if (noPauses && !this->pauses[i]) {
+    if (!noPauses || !this->pauses[i]) {
       x = std::chrono::duration_cast<std::chrono::microseconds>(this->times[i] - this->times[i - 1]).count();
       diff = x > avg ? x - avg : avg - x;
       var += diff/n*diff;
@@ -290,7 +293,7 @@ double SimpleBenchmark::variance(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 double SimpleBenchmark::standardDeviation(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "standardDeviation(). Not enough points to compute standard deviation." << std::endl;
     return 0.;
   }
@@ -300,7 +303,7 @@ double SimpleBenchmark::standardDeviation(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "max(). No intervals taken." << std::endl;
     return ZEROMS;
   }
@@ -310,7 +313,7 @@ std::chrono::microseconds SimpleBenchmark::max(const bool noPauses) const {
 //-----------------------------------------------------------------------------
 
 std::chrono::microseconds SimpleBenchmark::min(const bool noPauses) const {
-  if ((this->times.size() < 2) || (!noPauses && (this->countNotPausedTimes(this->times.size(), 0) < 2))) {
+  if (this->times.size() < 2) {
     std::cerr << "min(). No intervals taken." << std::endl;
     return ZEROMS;
   }
-- 
2.43.0


From 8fe649bb57f46aa679354c790eeb848d56e190db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 12/16] fix: refuse messages from unknown senders in clients

The sender was dereferenced although no party of that name is known.
---
 src/libeopsi/eopsiclient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 8ab2795..e975faa 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -222,7 +222,7 @@ bool EOPSIClient::isAuthorised(const EOPSIMessage *msg) const {
   }
   
   sender = getPartyById(msg->getPartyId());
-  if (!hasAuthenticated(*sender)) {
+  if (sender == nullptr || !hasAuthenticated(*sender)) {
     return false;
   }
   
-- 
2.43.0


From dfd64f85140687c1a335c6f4cb81085a719cd4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 13/16] fix: read the whole secret of the other client

The delegate read three bytes whatever the length of the secret; now it
reads what follows the identifier up to the end of the message (the closing
zero does not change the number).
---
 src/libeopsi/eopsiclient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index e975faa..b2153bd 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -94,6 +94,10 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
       
+      if (msg->length() < msgClaimedId.length() + 1) {
+        throw ProtocolException("The request is too short");
+      }
+      
       /*
        * 1. Send outsourcing request to the cloud
        */
@@ -144,7 +148,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       
       // Reception feedback
       otherSecretBytes = &((byte *) msg->getData())[msgClaimedId.length() + 1];
-      otherSecret = NTL::ZZFromBytes(otherSecretBytes, 3);
+      otherSecret = NTL::ZZFromBytes(otherSecretBytes, msg->length() - msgClaimedId.length() - 1);
       std::cout << id << ". Received \"" << otherSecret << "\" from " << sender->getId() << "." << std::endl;
       
       // Send the message to cloud
-- 
2.43.0


From c2092f358736f4160be3c683ca06b40a0d797845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 14/16] fix: let clients take part in more than one run

The answers of a finished run were used again after having been released,
and the delegate kept its answer, released by the requester, as if it were
one received in a run of its own.
---
 src/libeopsi/eopsiclient.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index b2153bd..2d01670 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -71,6 +71,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
   size_t dataLen, tmpKeyByteSize, i;
   std::map<std::string, EOPSIParty*>::const_iterator mi;
   NTL::vec_ZZ_p setcap;
+  NTL::vec_ZZ_p *delegation;
   
   if (msg->getPartyId() == this->id) {
     throw ProtocolException("Self-messaging is not allowed in EO-PSI protocol");
@@ -165,8 +166,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       /*
        * 2. Send q to client
        */
-      q = delegationOutput(otherSecret, tmpKey);
-      msgToClient.setData((void *) q, 1);
+      delegation = delegationOutput(otherSecret, tmpKey);
+      msgToClient.setData((void *) delegation, 1);
       msgToClient.setType(EOPSI_MESSAGE_POLYNOMIAL);
       msgToClient.setPartyId(this->getId());
       
@@ -187,6 +188,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_OUTPUT_COMPUTATION << ". Receiving partial intersection data \"t\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       
@@ -203,6 +206,8 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
         std::cout << "Finding intersection required " << bm.cumulativeBenchmark().count()/1000. << " ms" << std::endl;
         delete [] t;
         delete [] q;
+        t = nullptr;
+        q = nullptr;
       }
       std::cout << EOPSI_MESSAGE_POLYNOMIAL << ". Receiving partial intersection data \"q\" required " << bm.cumulativeBenchmark("int-unsure").count() << " µs" << std::endl;
       break;
-- 
2.43.0


From 82f497aa15f318843e9213985dd3273956bdb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 15/16] fix: refuse computations without data or partner in the
 cloud

The missing upload or the unknown partner was dereferenced.
---
 src/libeopsi/eopsiserver.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index 3ff7d0a..e288287 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -54,6 +54,14 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
       
+      // Check that the computation is possible
+      if (getPartyById(partnerId) == nullptr) {
+        throw ProtocolException("Party \"" + partnerId + "\" is not known by " + this->getId() + ".");
+      }
+      if (this->storedData.find(sender->getId()) == this->storedData.end() || this->storedData.find(partnerId) == this->storedData.end()) {
+        throw ProtocolException("Both clients have to store their data before requesting a computation");
+      }
+      
       // Prepare message for the partner client
       tmpKeyBytes = (&((byte *) msg->getData())[msgClaimedId.length() + 1 + partnerId.length() + 1]);
       tmpKey = NTL::ZZFromBytes(tmpKeyBytes, NTL::bytes(DEFAULT_KEY_BITSIZE));
-- 
2.43.0


From 1be0e9c1cdecf5cbc38d8f099d14889e82714aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:46 +0000
Subject: [PATCH 16/16] fix: read requests within their content and refuse
 messages without content

---
 src/libeopsi/eopsiclient.cpp |  7 ++++++-
 src/libeopsi/eopsiserver.cpp | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/libeopsi/eopsiclient.cpp b/src/libeopsi/eopsiclient.cpp
index 2d01670..91dcce4 100644
--- a/src/libeopsi/eopsiclient.cpp
+++ b/src/libeopsi/eopsiclient.cpp
@@ -82,6 +82,11 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
     throw ProtocolException("Party \"" + msg->getPartyId() + "\" is not authorised by " + this->getId() + ".");
   }
   
+  // Messages always carry something
+  if (msg->getData() == nullptr) {
+    throw ProtocolException("Messages without content are not allowed in EO-PSI protocol");
+  }
+  
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
@@ -90,7 +95,7 @@ void EOPSIClient::receive(EOPSIMessage* msg) {
       bm.start();
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId.assign((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
diff --git a/src/libeopsi/eopsiserver.cpp b/src/libeopsi/eopsiserver.cpp
index e288287..b239425 100644
--- a/src/libeopsi/eopsiserver.cpp
+++ b/src/libeopsi/eopsiserver.cpp
@@ -5,6 +5,7 @@
  * Copyright (C) 2016  Roberto Metere, Glasgow <roberto.metere@strath.ac.uk>
  */
 
+#include <cstring>
 #include <iostream>
 #include <NTL/ZZ_pX.h>
 #include "eopsiserver.h"
@@ -24,6 +25,7 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
   EOPSIParty *sender;
   std::string msgClaimedId;
   std::string partnerId;
+  size_t partnerIdIdx;
   NTL::ZZ tmpKey;
   byte *tmpKeyBytes;
   NTL::vec_ZZ_p *t;
@@ -37,6 +39,11 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
     throw ProtocolException("Party \"" + msg->getPartyId() + "\" is not authorised by " + this->getId() + ".");
   }
   
+  // Messages always carry something
+  if (msg->getData() == nullptr) {
+    throw ProtocolException("Messages without content are not allowed in EOPSI protocol");
+  }
+  
   // Get the sender
   sender = getPartyById(msg->getPartyId());
   
@@ -48,11 +55,19 @@ void EOPSIServer::receive(EOPSIMessage* msg) {
       }
       
       // Check sender and message content
-      msgClaimedId = (char *) msg->getData();
+      msgClaimedId.assign((char *) msg->getData(), strnlen((char *) msg->getData(), msg->length()));
       if (msgClaimedId != sender->getId()) {
         throw ProtocolException("Id mismatch between sender and message data");
       }
-      partnerId = &((char *) msg->getData())[msgClaimedId.length() + 1];
+      
+      partnerIdIdx = msgClaimedId.length() + 1;
+      if (msg->length() < partnerIdIdx) {
+        throw ProtocolException("The request is too short");
+      }
+      partnerId.assign((char *) msg->getData() + partnerIdIdx, strnlen((char *) msg->getData() + partnerIdIdx, msg->length() - partnerIdIdx));
+      if (msg->length() < partnerIdIdx + partnerId.length() + 1 + NTL::bytes(DEFAULT_KEY_BITSIZE)) {
+        throw ProtocolException("The request is too short");
+      }
       
       // Check that the computation is possible
       if (getPartyById(partnerId) == nullptr) {
-- 
2.43.0


From 20e3a79a787b18bdf367f6819908ccdd5e4aaf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 01/31] fix: add the missing Mersenne exponent 24036583

---
 lib/period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/period.cpp b/lib/period.cpp
index 556a495..0c77c76 100644
--- a/lib/period.cpp
+++ b/lib/period.cpp
@@ -17,7 +17,7 @@ namespace MTToolBox {
      2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701,
      23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433,
      1257787, 1398269, 2976221, 3021377, 6972593, 13466917,
-     20996011, 25964951, -1};
+     20996011, 24036583, 25964951, -1};
 
     /**
      * 既約判定
-- 
2.43.0


From 290ad5215ac6a7d00f18a08c724757c8f41175ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 02/31] fix: prepare the tempering before measuring it in
 AlgorithmBestBits

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From 3b626ffe79c6fc1d9297400be84ada181ddf08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 03/31] fix: restrict the tempering mask to the bits being
 tried when they are fewer than the word's

---
 include/MTToolBox/AlgorithmPartialBitPattern.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/MTToolBox/AlgorithmPartialBitPattern.hpp b/include/MTToolBox/AlgorithmPartialBitPattern.hpp
index 9710be7..19b23fc 100644
--- a/include/MTToolBox/AlgorithmPartialBitPattern.hpp
+++ b/include/MTToolBox/AlgorithmPartialBitPattern.hpp
@@ -333,13 +333,10 @@ namespace MTToolBox {
             if (start + size > bit_len) {
                 size = bit_len - start;
             }
+            mask >>= bit_size<U>() - size;
             if (lsb) {
-                mask >>= start;
-                mask <<= bit_len - size;
-                mask >>= bit_len - start - size;
-            } else {
                 mask <<= start;
-                mask >>= bit_len - size;
+            } else {
                 mask <<= bit_len - start - size;
             }
             return mask;
-- 
2.43.0


From fe6ffa778ec3bc13e123483557d62eb94aee1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 04/31] fix: measure the reducible generator's defect against
 its exponent, not its state size

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index a2b8279..fa8595a 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -136,7 +136,7 @@ namespace MTToolBox {
             int veq[bit_size<U>()];
             AlgorithmReducibleRecursionSearch<U> search(rg, *baseGenerator);
             AlgorithmCalculateParity<U, G> cp;
-            int mexp = rg.bitSize();
+            int mexp = rg.getMexp();
             bool found = false;
             for (int i = 0;; i++) {
                 if (search.start(1000 * mexp)) {
@@ -166,7 +166,7 @@ namespace MTToolBox {
             NTL::GF2X quotient = lcm / poly;
             annihilate(&rg, quotient);
             if (verbose) {
-                AlgorithmEquidistribution<U> sb(rg, bit_size<U>());
+                AlgorithmEquidistribution<U> sb(rg, bit_size<U>(), mexp);
                 int delta = sb.get_all_equidist(veq);
                 print_kv(veq, mexp, bit_size<U>());
                 *out << "delta = " << dec << delta << endl;
@@ -177,7 +177,7 @@ namespace MTToolBox {
                     if (st2.isLSBTempering()) {
                         rg.setReverseOutput();
                     }
-                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
                     delta = sc.get_all_equidist(veq);
                     rg.resetReverseOutput();
                     time_t t = time(NULL);
@@ -188,7 +188,7 @@ namespace MTToolBox {
                 }
             }
             st1(rg, verbose);
-            AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+            AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
             delta = sc.get_all_equidist(veq);
             if (verbose) {
                 time_t t = time(NULL);
-- 
2.43.0


From 18e3cea393d2a9f23241bedfc1a00973758cb4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:55 +0000
Subject: [PATCH 05/31] fix: let the MSB-only reducible search be instantiated

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index fa8595a..f57c200 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -230,7 +230,7 @@ namespace MTToolBox {
          * state transition function are found.
          *\endenglish
          */
-        bool search(TemperingCalculatable<U>& rg,
+        bool search(G& rg,
                     AlgorithmTempering<U>& st,
                     bool verbose = false,
                     std::ostream& os = std::cout) {
-- 
2.43.0


From 0472f31981046388935864b45f6aa553905965ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 06/31] fix: RMT64Search::setOneBit sets the requested bit of
 the 64-bit word

The int shift 1 << r is undefined for r >= 32 and sign-extends for r == 31,
so the parity calculation was given the wrong basis vectors.
---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From a46bd655ffd07d122a7b09fd0d082547ab94d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 07/31] fix: isZero of the MT and MTGP generators tests the
 live state bits

After a step state[index] is the newest, complete word and state[index + 1]
is the one of which only the upper_mask bits still matter; isZero had the two
the wrong way round.  mtgp32 also read a mask member that is never set.
---
 samples/MTDC/mt1.cpp            | 5 +++--
 samples/MTDC/mt2.cpp            | 5 +++--
 samples/MTGPDC/MTGP32search.hpp | 6 +++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..2726c0e 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // the word to be replaced next is the incomplete one
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..abc8f2e 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -102,10 +102,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // the word to be replaced next is the incomplete one
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..38bb3ed 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,11 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            // the word to be replaced next is the incomplete one
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +306,6 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From 464280c713050fab2838da2fd820db69a1cd6ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 08/31] fix: a copy of tinymt32 keeps the bit order of its
 original

---
 samples/TinyMTDC/tinymt32search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/TinyMTDC/tinymt32search.hpp b/samples/TinyMTDC/tinymt32search.hpp
index 3fa9084..9841971 100644
--- a/samples/TinyMTDC/tinymt32search.hpp
+++ b/samples/TinyMTDC/tinymt32search.hpp
@@ -145,7 +145,7 @@ namespace tinymt {
          */
         tinymt32(const tinymt32& src) : TemperingCalculatable<uint32_t>(),
                                         param(src.param) {
-            reverse_bit_flag = false;
+            reverse_bit_flag = src.reverse_bit_flag;
             status[0] = src.status[0];
             status[1] = src.status[1];
             status[2] = src.status[2];
-- 
2.43.0


From 5eb372d9c38441123814f6bb4c4df3945ddc5c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 09/31] fix: dSFMT::isZero tests the whole element still to be
 output

In weight mode 1 the next output takes the 64-bit previous.u64[1]; isZero
looked at the upper half of previous.u64[0] instead.
---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From 7af932af0c12e9353f2b457df7907eb98ea4f631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 10/31] fix: xorshift128_init_by_array stores the state it
 computes

It mixed the key into a local array and returned with the caller's structure
uninitialised.
---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From c628cc4dcf6bacb4fbabc749993eb6d42aebf91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:36 +0000
Subject: [PATCH 11/31] fix: exact dimension of equidistribution for partial
 SIMD words

The weighted passes delay some elements of a word by one step, but the
standard basis vectors for the delayed elements were not delayed, so the
reported k(v) was always rounded down to a multiple of the number of
elements in a word.
---
 .../AlgorithmDSFMTEquidistribution.hpp        | 20 +++++++++++++++++-
 .../sfmtdc/AlgorithmSIMDEquidistribution.hpp  | 21 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 3331286..7c6b2a7 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -300,6 +300,12 @@ namespace MTToolBox {
                 basis[i] = new linear_vec(rand, i, info);
             }
             basis[bit_size] = new linear_vec(rand, info);
+            // Elements from weight on are delayed by one word, so the
+            // standard basis vectors for them start one step later.
+            weight = basis[bit_size]->rand->getWeightMode();
+            for (int i = weight * bit_len; i < bit_size; i++) {
+                basis[i]->count = 1;
+            }
             basis[bit_size]->next_state(bit_len);
 #if defined(DEBUG)
             cout << "zero = " << dec << basis[bit_size]->zero << endl;
@@ -377,6 +383,17 @@ namespace MTToolBox {
          */
         DSFMTInfo info;
         int size;
+
+        /**
+         *\japanese
+         * 出力のうち遅延していない要素の数
+         *\endjapanese
+         *
+         *\english
+         * Number of elements which are not delayed in an output.
+         *\endenglish
+         */
+        int weight;
     };
 
 #if defined(DEBUG)
@@ -675,7 +692,8 @@ namespace MTToolBox {
             }
         }
         int result = min_count;
-        if (result > stateBitSize / bitSize) {
+        if (result > (stateBitSize / v + info.elementNo - weight)
+            / info.elementNo) {
 //        if (result > stateBitSize / (bitSize / info.elementNo)) {
             cerr << "over theoretical bound" << endl;
             cout << "bitSize = " << dec << bitSize << endl;
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index d3d771b..f9cb745 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -306,6 +306,13 @@ namespace MTToolBox {
                 basis[i] = new linear_vec(rand, i, info, lsb);
             }
             basis[bit_size] = new linear_vec(rand, info, lsb);
+            // Elements from weight on are delayed by one word, so the
+            // standard basis vectors for them start one step later.
+            weight = basis[bit_size]->rand->getWeightMode()
+                * info.elementNo / (info.bitSize / 32);
+            for (int i = weight * bit_len; i < bit_size; i++) {
+                basis[i]->count = 1;
+            }
             basis[bit_size]->next_state(bit_len);
 #if defined(DEBUG)
             cout << "zero = " << dec << basis[bit_size]->zero << endl;
@@ -383,6 +390,17 @@ namespace MTToolBox {
          */
         SIMDInfo info;
         int size;
+
+        /**
+         *\japanese
+         * 出力のうち遅延していない要素の数
+         *\endjapanese
+         *
+         *\english
+         * Number of elements which are not delayed in an output.
+         *\endenglish
+         */
+        int weight;
     };
 
 #if defined(DEBUG)
@@ -706,7 +724,8 @@ namespace MTToolBox {
             }
         }
         int result = min_count;
-        if (result > stateBitSize / bitSize) {
+        if (result > (stateBitSize / v + info.elementNo - weight)
+            / info.elementNo) {
 //        if (result > stateBitSize / (bitSize / info.elementNo)) {
             cerr << "over theoretical bound" << endl;
             cout << "bitSize = " << dec << bitSize << endl;
-- 
2.43.0


From 7b16a6209cc2db74c44b7a6e22d64658d3b326d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 12/31] fix: make getLCMPoly of dSFMT annihilate the constant
 part

calc_fixpoint projects the constant part with the quotient of this
polynomial.  Components present in the constant only could be missing
from it, and the fixed point printed by dSFMTdc was wrong then.
---
 samples/dSFMTdc/Annihilate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/samples/dSFMTdc/Annihilate.cpp b/samples/dSFMTdc/Annihilate.cpp
index 6565315..8114bb0 100644
--- a/samples/dSFMTdc/Annihilate.cpp
+++ b/samples/dSFMTdc/Annihilate.cpp
@@ -44,6 +44,9 @@ void getLCMPoly(GF2X& lcm, const dSFMT& sf)
 {
     dSFMT gen(sf);
     lungLCM(lcm, gen);
+    // the constant part of the affine recursion should be annihilated, too.
+    gen.setConst();
+    lungLCM(lcm, gen);
     int bitSize = gen.bitSize();
     GF2X poly;
     for (int i = 0; i < bitSize; i++) {
-- 
2.43.0


From 8ada353aa6f28a4403940e33b5f37262b84c9ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:29 +0000
Subject: [PATCH 13/31] fix: keep the digest field of mtgp_param defined and
 copied

---
 samples/MTGPDC/mtgp_param.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..dda75fc 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -17,6 +17,7 @@
  */
 
 #include <stdint.h>
+#include <cstring>
 #include <string>
 #include <iostream>
 #include <iomanip>
@@ -37,6 +38,7 @@ namespace mtgp {
                 p[i] = 0;
                 tp[i] = 0;
             }
+            sha1[0] = 0;
         }
         mtgp_param(const mtgp_param<T>& that) {
             mexp = that.mexp;
@@ -57,12 +59,7 @@ namespace mtgp {
             for (int i = 0; i < 16; i++) {
                 tp[i] = that.tp[i];
             }
-#if defined(USE_SHA)
-            for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
-                sha1[i] = that.sha1[i];
-            }
-            sha1[0] = that.sha1[0];
-#endif
+            memcpy(sha1, that.sha1, sizeof(sha1));
         }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From 3631dd21a0e0169e8c89df00a3472100e37e79dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 14/31] fix: give copies of Mersenne Twister objects their own
 state

---
 include/MTToolBox/MersenneTwister.hpp   | 38 +++++++++++++++++++++++++
 include/MTToolBox/MersenneTwister64.hpp | 38 +++++++++++++++++++++++++
 2 files changed, 76 insertions(+)

diff --git a/include/MTToolBox/MersenneTwister.hpp b/include/MTToolBox/MersenneTwister.hpp
index 118b0d0..f70a82e 100644
--- a/include/MTToolBox/MersenneTwister.hpp
+++ b/include/MTToolBox/MersenneTwister.hpp
@@ -124,6 +124,38 @@ namespace MTToolBox {
             delete[] mt;
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Copy constructor, the copy has its own state.
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        MersenneTwister(const MersenneTwister& src) : ParameterGenerator() {
+            mt = new uint32_t[LARGE_N];
+            copyState(src);
+        }
+
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        MersenneTwister& operator=(const MersenneTwister& src) {
+            copyState(src);
+            return *this;
+        }
+
         /**
          *\japanese
          * 32bit整数による初期化
@@ -299,6 +331,12 @@ namespace MTToolBox {
         enum {LARGE_N = 1024, N = 624, M = 397};
         uint32_t *mt;    /* the array for the state vector  */
         unsigned int mti;
+        void copyState(const MersenneTwister& src) {
+            for (int i = 0; i < LARGE_N; i++) {
+                mt[i] = src.mt[i];
+            }
+            mti = src.mti;
+        }
         uint32_t temper(uint32_t y) {
             y ^= (y >> 11);
             y ^= (y << 7) & UINT32_C(0x9d2c5680);
diff --git a/include/MTToolBox/MersenneTwister64.hpp b/include/MTToolBox/MersenneTwister64.hpp
index cf7e6c5..4938d56 100644
--- a/include/MTToolBox/MersenneTwister64.hpp
+++ b/include/MTToolBox/MersenneTwister64.hpp
@@ -129,6 +129,38 @@ namespace MTToolBox {
             delete[] mt;
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Copy constructor, the copy has its own state.
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        MersenneTwister64(const MersenneTwister64& src) : ParameterGenerator() {
+            mt = new uint64_t[N];
+            copyState(src);
+        }
+
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        MersenneTwister64& operator=(const MersenneTwister64& src) {
+            copyState(src);
+            return *this;
+        }
+
         /**
          *\japanese
          * 64bit整数による初期化
@@ -309,6 +341,12 @@ namespace MTToolBox {
         enum {N = 312, M = 156};
         uint64_t *mt;    /* the array for the state vector  */
         int mti;
+        void copyState(const MersenneTwister64& src) {
+            for (int i = 0; i < N; i++) {
+                mt[i] = src.mt[i];
+            }
+            mti = src.mti;
+        }
         uint64_t temper(uint64_t y) {
             y ^= (y >> 29) & UINT64_C(0x5555555555555555);
             y ^= (y << 17) & UINT64_C(0x71D67FFFEDA60000);
-- 
2.43.0


From 627b98983dac07b749b3d24813b724e5261eb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 15/31] fix: give copies of AlgorithmPrimitivity their own list
 of primes

---
 include/MTToolBox/AlgorithmPrimitivity.hpp | 31 ++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/MTToolBox/AlgorithmPrimitivity.hpp b/include/MTToolBox/AlgorithmPrimitivity.hpp
index 31243d3..09667db 100644
--- a/include/MTToolBox/AlgorithmPrimitivity.hpp
+++ b/include/MTToolBox/AlgorithmPrimitivity.hpp
@@ -85,6 +85,37 @@ namespace MTToolBox {
             delete primes;
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Copy constructor
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmPrimitivity(const AlgorithmPrimitivity& src) {
+            primes = new NTL::Vec<NTL::ZZ>(*src.primes);
+            mersenne = src.mersenne;
+        }
+
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmPrimitivity& operator=(const AlgorithmPrimitivity& src) {
+            *primes = *src.primes;
+            mersenne = src.mersenne;
+            return *this;
+        }
+
         /**
          *\japanese
          * poly が指定した次数の原始多項式かどうか判定する
-- 
2.43.0


From d46078d1956fa273a003b2a0f1e5c17fca2f650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:49 +0000
Subject: [PATCH 16/31] fix: give copies of AlgorithmBestBits their own shifts

---
 include/MTToolBox/AlgorithmBestBits.hpp | 46 +++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index b619c5f..b620ecc 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -253,6 +253,39 @@ namespace MTToolBox {
             delete[] shifts;
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Copy constructor
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmBestBits(const AlgorithmBestBits<U>& src)
+            : AlgorithmTempering<U>() {
+            shifts = 0;
+            copyFields(src);
+        }
+
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmBestBits<U>& operator=(const AlgorithmBestBits<U>& src) {
+            if (this != &src) {
+                copyFields(src);
+            }
+            return *this;
+        }
+
         /**
          *\japanese
          * テンパリングパラメータを探索する
@@ -357,6 +390,19 @@ namespace MTToolBox {
         int * shifts;
         int num_pat;
 
+        void copyFields(const AlgorithmBestBits<U>& src) {
+            limit = src.limit;
+            bit_len = src.bit_len;
+            size = src.size;
+            obSize = src.obSize;
+            num_pat = src.num_pat;
+            delete[] shifts;
+            shifts = new int[static_cast<unsigned long>(size)];
+            for (int i = 0; i < size; i++) {
+                shifts[i] = src.shifts[i];
+            }
+        }
+
         /**
          *\japanese
          * テンパリングパラメータを探索する。
-- 
2.43.0


From 4cbda28a5aa11231bd8624b0ceac5be0e22189c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:43 +0000
Subject: [PATCH 17/31] fix: keep calc_1pos of words with only the top bit set
 free of signed overflow

---
 include/MTToolBox/util.hpp |  8 +++-----
 samples/dSFMTdc/w128.hpp   | 10 ++++------
 samples/sfmtdc/w128.hpp    | 10 ++++------
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index 1e42906..daba180 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -316,8 +316,7 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int32_t y = (int32_t)x;
-        y = count_bit((uint32_t)(y & -y) - 1);
+        int32_t y = count_bit((x & (0U - x)) - 1);
         return 31 - y;
     }
 
@@ -350,9 +349,8 @@ namespace MTToolBox {
         if (x == 0) {
             return -1;
         }
-        int64_t y = (int64_t)x;
-        y = count_bit((uint64_t)(y & -y) - 1);
-        return 63 - static_cast<int>(y);
+        int y = count_bit((x & (UINT64_C(0) - x)) - 1);
+        return 63 - y;
     }
 
     /**
diff --git a/samples/dSFMTdc/w128.hpp b/samples/dSFMTdc/w128.hpp
index b419cca..a8b0e4b 100644
--- a/samples/dSFMTdc/w128.hpp
+++ b/samples/dSFMTdc/w128.hpp
@@ -211,13 +211,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = static_cast<int64_t>(x.u64[1]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            uint64_t y = x.u64[1];
+            return 63 - count_bit((y & (UINT64_C(0) - y)) - 1);
         } else {
-            int64_t y = static_cast<int64_t>(x.u64[0]);
-            y = count_bit(static_cast<uint64_t>(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            uint64_t y = x.u64[0];
+            return 63 - count_bit((y & (UINT64_C(0) - y)) - 1) + 64;
         }
     }
 
diff --git a/samples/sfmtdc/w128.hpp b/samples/sfmtdc/w128.hpp
index d9cc2af..f145972 100644
--- a/samples/sfmtdc/w128.hpp
+++ b/samples/sfmtdc/w128.hpp
@@ -212,13 +212,11 @@ namespace MTToolBox {
             return -1;
         }
         if (x.u64[0] == 0) {
-            int64_t y = (int64_t)x.u64[1];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y);
+            uint64_t y = x.u64[1];
+            return 63 - count_bit((y & (UINT64_C(0) - y)) - 1);
         } else {
-            int64_t y = (int64_t)x.u64[0];
-            y = count_bit((uint64_t)(y & -y) - 1);
-            return 63 - static_cast<int>(y) + 64;
+            uint64_t y = x.u64[0];
+            return 63 - count_bit((y & (UINT64_C(0) - y)) - 1) + 64;
         }
     }
 
-- 
2.43.0


From 33d9f9b44f92b8989516dddaaec7cf3dabd282b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:43 +0000
Subject: [PATCH 18/31] fix: do not shift by -1 after the last bit in
 fromGF2Vec and the parity search

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 5 ++---
 include/MTToolBox/util.hpp                     | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 9c92c2d..2bacd2f 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -399,8 +399,9 @@ namespace MTToolBox {
             U mask;
             int pos = bit_size<U>() - 1;
             setZero(mask);
-            setBitOfPos(&mask, pos, 1);
             for (int i = 0; i < word_width; i++) {
+                setZero(mask);
+                setBitOfPos(&mask, pos, 1);
                 int cnt = 0;
                 for (int j = 0; j < word_width; j++) {
                     if (isZero(base[j].next)) {
@@ -414,8 +415,6 @@ namespace MTToolBox {
                     cnt++;
                 }
                 pos--;
-                setZero(mask);
-                setBitOfPos(&mask, pos, 1);
             }
             kernel(my, mx);
             if (my.NumRows() == 0) {
diff --git a/include/MTToolBox/util.hpp b/include/MTToolBox/util.hpp
index daba180..d874918 100644
--- a/include/MTToolBox/util.hpp
+++ b/include/MTToolBox/util.hpp
@@ -658,14 +658,13 @@ namespace MTToolBox {
         setZero(mask);
         int bitSize = bit_size<U>();
         int pos = bitSize - 1;
-        setBitOfPos(&mask, pos, 1);
         for (int i = 0; i < bitSize; i++) {
+            setZero(mask);
+            setBitOfPos(&mask, pos, 1);
             if (!IsZero(value[i])) {
                 result |= mask;
             }
             pos--;
-            setZero(mask);
-            setBitOfPos(&mask, pos, 1);
         }
         return result;
     }
-- 
2.43.0


From 06c5adabdc3ae57a6d2acdb45fe9bdcc033cacfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:31 +0000
Subject: [PATCH 19/31] fix: parameter creators write the parameters to the
 file given by --file

The option was accepted and the file truncated, but everything still went to
standard output.
---
 samples/MTGPDC/MTGP32dc.cpp     | 6 ++++++
 samples/RMT/rmt64dc.cpp         | 6 ++++++
 samples/TinyMTDC/tinymt32dc.cpp | 6 ++++++
 samples/dSFMTdc/dSFMTdc.cpp     | 6 ++++++
 samples/sfmtdc/sfmtdc.cpp       | 6 ++++++
 samples/sfmtdc/sfmtdcfixed.cpp  | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/samples/MTGPDC/MTGP32dc.cpp b/samples/MTGPDC/MTGP32dc.cpp
index ffc523a..b6772c3 100644
--- a/samples/MTGPDC/MTGP32dc.cpp
+++ b/samples/MTGPDC/MTGP32dc.cpp
@@ -14,6 +14,7 @@
  * The new BSD License is applied to this software, see LICENSE.txt
  */
 #include <stdint.h>
+#include <stdio.h>
 #include <inttypes.h>
 #include <time.h>
 #include <string>
@@ -41,6 +42,11 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    if (!opt.filename.empty()
+        && freopen(opt.filename.c_str(), "w", stdout) == NULL) {
+        cerr << "can't open file:" << opt.filename << endl;
+        return -1;
+    }
     while (opt.count > 0) {
         if (indexed_search(opt, first)) {
             opt.id += 1;
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 07bbe92..496c2d3 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <iomanip>
 #include <stdint.h>
+#include <stdio.h>
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
@@ -64,6 +65,11 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    if (!opt.filename.empty()
+        && freopen(opt.filename.c_str(), "w", stdout) == NULL) {
+        cerr << "can't open file:" << opt.filename << endl;
+        return -1;
+    }
     //cout << "mexp = " << dec << opt.mexp;
     //cout << " seed = " << dec << opt.seed << endl;
     return search(opt, static_cast<int>(opt.count));
diff --git a/samples/TinyMTDC/tinymt32dc.cpp b/samples/TinyMTDC/tinymt32dc.cpp
index 412e569..f7bb0d6 100644
--- a/samples/TinyMTDC/tinymt32dc.cpp
+++ b/samples/TinyMTDC/tinymt32dc.cpp
@@ -20,6 +20,7 @@
  * LICENSE.txt
  */
 #include <stdint.h>
+#include <stdio.h>
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
@@ -51,6 +52,11 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    if (!opt.filename.empty()
+        && freopen(opt.filename.c_str(), "w", stdout) == NULL) {
+        cerr << "can't open file:" << opt.filename << endl;
+        return -1;
+    }
     try {
         return search(opt, static_cast<int>(opt.count));
     } catch (underflow_error &e) {
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index a1b18d4..de5e242 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -19,6 +19,7 @@
  * LICENSE.txt
  */
 #include <stdint.h>
+#include <stdio.h>
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
@@ -68,6 +69,11 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    if (!opt.filename.empty()
+        && freopen(opt.filename.c_str(), "w", stdout) == NULL) {
+        cerr << "can't open file:" << opt.filename << endl;
+        return -1;
+    }
     return search(opt, static_cast<int>(opt.count));
 }
 
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index 9154042..6b055b5 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -19,6 +19,7 @@
  * LICENSE.txt
  */
 #include <stdint.h>
+#include <stdio.h>
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
@@ -65,6 +66,11 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    if (!opt.filename.empty()
+        && freopen(opt.filename.c_str(), "w", stdout) == NULL) {
+        cerr << "can't open file:" << opt.filename << endl;
+        return -1;
+    }
     return search(opt, static_cast<int>(opt.count));
 }
 
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index 0fa1c9a..3490d2a 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -19,6 +19,7 @@
  * LICENSE.txt
  */
 #include <stdint.h>
+#include <stdio.h>
 #include <inttypes.h>
 #include <time.h>
 #include <unistd.h>
@@ -66,6 +67,11 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    if (!opt.filename.empty()
+        && freopen(opt.filename.c_str(), "w", stdout) == NULL) {
+        cerr << "can't open file:" << opt.filename << endl;
+        return -1;
+    }
     return search(opt, static_cast<int>(opt.count));
 }
 
-- 
2.43.0


From 64dad8798766a3c271e211ecd1cfbce1d621995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:38 +0000
Subject: [PATCH 20/31] fix: mt2 without --seed used an uninitialised seed

The other creators take the clock.
---
 samples/MTDC/mt2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index abc8f2e..7dd9a59 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -14,6 +14,7 @@
 #include <fstream>
 #include <iomanip>
 #include <getopt.h>
+#include <time.h>
 #include <limits.h>
 #include <MTToolBox/AlgorithmBestBits.hpp>
 
@@ -273,6 +274,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.verbose = false;
     opt.count = 1;
     opt.max_delta = INT_MAX;
+    opt.seed = static_cast<uint32_t>(clock());
     opt.all = false;
     errno = 0;
     for (;;) {
-- 
2.43.0


From 6674f075166cc02d2ea1464bc705bce9d309cab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:48 +0000
Subject: [PATCH 21/31] fix: MTGP32dc's header names the weight and delta
 columns it prints

---
 samples/MTGPDC/MTGP32dc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/MTGPDC/MTGP32dc.cpp b/samples/MTGPDC/MTGP32dc.cpp
index b6772c3..1de3e8f 100644
--- a/samples/MTGPDC/MTGP32dc.cpp
+++ b/samples/MTGPDC/MTGP32dc.cpp
@@ -84,7 +84,7 @@ int indexed_search(mtgp_options& opt, bool first) {
 #endif
         mtgp.set_param(param);
         if (first) {
-            cout << '#' << mtgp.getHeaderString() << endl;
+            cout << '#' << mtgp.getHeaderString() << ", weight, delta" << endl;
         }
         cout << mtgp.getParamString()
              << dec << weight << ","
-- 
2.43.0


From 94e0e349910da89b7b750d62a71f3fe757d74cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:54 +0000
Subject: [PATCH 22/31] fix: calc_fixpoint and calc_parity of dSFMT crashed
 without a parameter set and ignored bad options

---
 samples/dSFMTdc/calc_fixpoint_main.cpp | 5 +++++
 samples/dSFMTdc/calc_parity_main.cpp   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 0c148b4..0300888 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -144,6 +144,11 @@ static bool option(dSFMT_param& param, int argc, char * argv[])
             break;
         }
     }
+    if (error || optind >= argc) {
+        cerr << "usage:" << endl;
+        cerr << argv[0] << " [-c] mexp,pos1,sl1,msk1,msk2" << endl;
+        return false;
+    }
     char * para = argv[optind];
     param.mexp = static_cast<int>(strtoul(para, &para, 10));
     para++;
diff --git a/samples/dSFMTdc/calc_parity_main.cpp b/samples/dSFMTdc/calc_parity_main.cpp
index 11d3f5f..4684747 100644
--- a/samples/dSFMTdc/calc_parity_main.cpp
+++ b/samples/dSFMTdc/calc_parity_main.cpp
@@ -159,6 +159,11 @@ static bool option(dSFMT_param& param, int argc, char * argv[])
             break;
         }
     }
+    if (error || optind >= argc) {
+        cerr << "usage:" << endl;
+        cerr << argv[0] << " [-c] [-v] mexp,pos1,sl1,msk1,msk2,fix1,fix2" << endl;
+        return false;
+    }
     char * para = argv[optind];
     param.mexp = static_cast<int>(strtoul(para, &para, 10));
     para++;
-- 
2.43.0


From acd0556abac038754236ce54be195d3a9015a415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 23/31] fix: AlgorithmCalculateParity leaked its working base

---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 2bacd2f..23c2808 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -160,6 +160,7 @@ namespace MTToolBox {
             for (int i = 0; i < word_width; i++) {
                 delete bases[i].rg;
             }
+            delete work_base.rg;
 #if defined(DEBUG)
             cout << "----" << endl;
             for (int i = 0; i < word_width; i++) {
-- 
2.43.0


From 7320a8790a6a3b88f6c5f7d8cb42b44a43f2ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 24/31] fix: AlgorithmReducibleEquidistribution leaked the
 generator it copied

---
 include/MTToolBox/AlgorithmReducibleEquidistribution.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index a91550d..589ed2c 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -80,6 +80,7 @@ namespace MTToolBox {
             NTL::GF2X quotient = poly / irreducibleFactor;
             annihilate<U>(rand, quotient);
             ae = new AlgorithmEquidistribution<U>(*rand, bit_length, mexp);
+            delete rand;
         }
 
         /**
-- 
2.43.0


From f2bd1c33c8bffef29e60e55f3c361a485f728630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 25/31] fix: Sequential's default constructor initialises its
 members

---
 include/MTToolBox/Sequential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/MTToolBox/Sequential.hpp b/include/MTToolBox/Sequential.hpp
index 8e2264d..a8689e1 100644
--- a/include/MTToolBox/Sequential.hpp
+++ b/include/MTToolBox/Sequential.hpp
@@ -56,6 +56,9 @@ namespace MTToolBox {
          *\endenglish
          */
         Sequential() {
+            status = static_cast<T>(-1);
+            mask = 0;
+            error = false;
         }
 
         /**
-- 
2.43.0


From f7749e44c581e70360b70b2ed4dfb3d037e72f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:48 +0000
Subject: [PATCH 26/31] fix: getLCMPoly of dSFMT missed factors that the lowest
 bit of the lung does not show

---
 samples/dSFMTdc/Annihilate.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/samples/dSFMTdc/Annihilate.cpp b/samples/dSFMTdc/Annihilate.cpp
index 8114bb0..24b2aa7 100644
--- a/samples/dSFMTdc/Annihilate.cpp
+++ b/samples/dSFMTdc/Annihilate.cpp
@@ -48,13 +48,16 @@ void getLCMPoly(GF2X& lcm, const dSFMT& sf)
     gen.setConst();
     lungLCM(lcm, gen);
     int bitSize = gen.bitSize();
-    GF2X poly;
-    for (int i = 0; i < bitSize; i++) {
+    // what lcm leaves of each of the unit vectors should be annihilated, too.
+    gen.setWeightMode(2);
+    for (int i = 0; i < bitSize && deg(lcm) < bitSize; i++) {
         gen.setOneBit(i);
-        minPolyLung(poly, gen, 0);
-        LCM(lcm, lcm, poly);
-        if (deg(lcm) == bitSize) {
-            return;
+        annihilate<w128_t>(&gen, lcm);
+        if (!gen.isZero()) {
+            GF2X rest;
+            set(rest);
+            lungLCM(rest, gen);
+            lcm *= rest;
         }
     }
 }
-- 
2.43.0


From 77471485173030e83a9bc7c8a160172c4fff4a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:58 +0000
Subject: [PATCH 27/31] fix: the SFMT and dSFMT programs seed with a word whose
 upper half is initialised

---
 samples/dSFMTdc/calc_equidist.cpp      | 1 +
 samples/dSFMTdc/calc_fixpoint_main.cpp | 1 +
 samples/dSFMTdc/calc_parity_main.cpp   | 1 +
 samples/dSFMTdc/calc_period.cpp        | 3 ++-
 samples/dSFMTdc/make_old_format.cpp    | 1 +
 samples/dSFMTdc/test_linearity.cpp     | 3 ++-
 samples/sfmtdc/calc_equidist.cpp       | 1 +
 samples/sfmtdc/calc_parity.cpp         | 1 +
 samples/sfmtdc/test_linearity.cpp      | 3 ++-
 samples/sfmtdc/test_period.cpp         | 3 ++-
 10 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index 4359481..50f2865 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -35,6 +35,7 @@ int main(int argc, char * argv[])
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
     w128_t wseed;
     wseed.u64[0] = opt.seed;
+    wseed.u64[1] = 0;
     sf.seed(wseed);
 #if defined(DEBUG)
     sf.d_p();
diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 0300888..54cd669 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -184,6 +184,7 @@ int main(int argc, char *argv[]) {
     }
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     dsfmt.seed(w);
     get_fixpoint(dsfmt);
     return 0;
diff --git a/samples/dSFMTdc/calc_parity_main.cpp b/samples/dSFMTdc/calc_parity_main.cpp
index 4684747..46636d4 100644
--- a/samples/dSFMTdc/calc_parity_main.cpp
+++ b/samples/dSFMTdc/calc_parity_main.cpp
@@ -195,6 +195,7 @@ int main(int argc, char *argv[]) {
     }
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     dsfmt.seed(w);
     GF2X poly;
     GF2X smallpoly;
diff --git a/samples/dSFMTdc/calc_period.cpp b/samples/dSFMTdc/calc_period.cpp
index 1f6403c..c5d7430 100644
--- a/samples/dSFMTdc/calc_period.cpp
+++ b/samples/dSFMTdc/calc_period.cpp
@@ -41,7 +41,8 @@ int main(int argc, char * argv[])
     w128_t seedw;
     int min = INT_MAX;
     int max = -10;
-    seedw.u[0] = se;
+    seedw.u64[0] = se;
+    seedw.u64[1] = 0;
     sf.seed(seedw);
     min_max_poly(min, max, sf);
     cout << "berore anni ";
diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index c927d4c..4790cb5 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -71,6 +71,7 @@ int main(int argc, char *argv[]) {
     cout << ", maxdegree = " << dec << maxdegree << endl;
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     dsfmt.seed(w);
     cout << "pos1 = " << dec << param.pos1 << endl;
     cout << "sl1 = " << dec << param.sl1 << endl;
diff --git a/samples/dSFMTdc/test_linearity.cpp b/samples/dSFMTdc/test_linearity.cpp
index 40c6720..7b3d4cf 100644
--- a/samples/dSFMTdc/test_linearity.cpp
+++ b/samples/dSFMTdc/test_linearity.cpp
@@ -35,7 +35,8 @@ int main(int argc, char * argv[])
     bool success = true;
     for (int se = 1; se < 20; se++) {
         w128_t seedw;
-        seedw.u[0] = static_cast<uint32_t>(se);
+        seedw.u64[0] = static_cast<uint32_t>(se);
+        seedw.u64[1] = 0;
         sf.seed(seedw);
         for (int i = 0; i < 2; i++) {
             for (int j = 2; j >= 1; j--) {
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index a84d1f5..cef73b9 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -36,6 +36,7 @@ int main(int argc, char * argv[])
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
     w128_t wseed;
     wseed.u64[0] = opt.seed;
+    wseed.u64[1] = 0;
     sf.seed(wseed);
     if (!anni(sf)) {
         return -1;
diff --git a/samples/sfmtdc/calc_parity.cpp b/samples/sfmtdc/calc_parity.cpp
index 8164b91..d2a424a 100644
--- a/samples/sfmtdc/calc_parity.cpp
+++ b/samples/sfmtdc/calc_parity.cpp
@@ -216,6 +216,7 @@ int main(int argc, char *argv[]) {
     }
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     sf.seed(w);
     GF2X poly;
     GF2X smallpoly;
diff --git a/samples/sfmtdc/test_linearity.cpp b/samples/sfmtdc/test_linearity.cpp
index c4a5e53..6901f67 100644
--- a/samples/sfmtdc/test_linearity.cpp
+++ b/samples/sfmtdc/test_linearity.cpp
@@ -45,7 +45,8 @@ int main(int argc, char * argv[])
     bool success = true;
     for (int se = 1; se < 20; se++) {
         w128_t seedw;
-        seedw.u[0] = static_cast<uint32_t>(se);
+        seedw.u64[0] = static_cast<uint32_t>(se);
+        seedw.u64[1] = 0;
         sf.seed(seedw);
         for (int i = 0; i < 4; i++) {
             for (int j = 4; j >= 1; j--) {
diff --git a/samples/sfmtdc/test_period.cpp b/samples/sfmtdc/test_period.cpp
index baf83f2..4bd3e8c 100644
--- a/samples/sfmtdc/test_period.cpp
+++ b/samples/sfmtdc/test_period.cpp
@@ -52,7 +52,8 @@ int main(int argc, char * argv[])
     int min = INT_MAX;
     int max = -10;
     int max_weight = 0;
-    seedw.u[0] = static_cast<uint32_t>(se);
+    seedw.u64[0] = static_cast<uint32_t>(se);
+    seedw.u64[1] = 0;
     sf.seed(seedw);
     min_max_poly(min, max, sf, max_weight);
     cout << "berore anni ";
-- 
2.43.0


From 3709e7b0b54155ebf595513f18e6648ce63cfd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:58 +0000
Subject: [PATCH 28/31] fix: calc_parity of SFMT and make_old_format crashed
 without a parameter set and ignored bad options

---
 samples/dSFMTdc/make_old_format.cpp | 8 +++++++-
 samples/sfmtdc/calc_parity.cpp      | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index 4790cb5..d49fc0a 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -37,7 +37,13 @@ static bool option(dSFMT_param& param, int argc, char * argv[]) {
             break;
         }
     }
-    char * para = argv[1];
+    if (error || optind >= argc) {
+        cerr << "usage:" << endl;
+        cerr << argv[0] << " mexp,pos1,sl1,msk1,msk2,fix1,fix2,"
+             << "parity1,parity2" << endl;
+        return false;
+    }
+    char * para = argv[optind];
     param.mexp = strtoul(para, &para, 10);
     para++;
     param.pos1 = strtoul(para, &para, 10);
diff --git a/samples/sfmtdc/calc_parity.cpp b/samples/sfmtdc/calc_parity.cpp
index d2a424a..58a8e19 100644
--- a/samples/sfmtdc/calc_parity.cpp
+++ b/samples/sfmtdc/calc_parity.cpp
@@ -171,6 +171,12 @@ static bool option(sfmt_param& param, int argc, char * argv[])
             break;
         }
     }
+    if (error || optind >= argc) {
+        cerr << "usage:" << endl;
+        cerr << argv[0] << " [-c] [-v] mexp,pos1,sl1,sl2,sr1,sr2,"
+             << "msk1,msk2,msk3,msk4" << endl;
+        return false;
+    }
     char * para = argv[optind];
     param.mexp = strtoul(para, &para, 10);
     para++;
-- 
2.43.0


From 7aefc56bda7a07902e0d56773f7f592b1855b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:53 +0000
Subject: [PATCH 29/31] fix: leave the sample test programs as they were

---
 samples/dSFMTdc/test_linearity.cpp | 3 +--
 samples/sfmtdc/test_linearity.cpp  | 3 +--
 samples/sfmtdc/test_period.cpp     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/samples/dSFMTdc/test_linearity.cpp b/samples/dSFMTdc/test_linearity.cpp
index 7b3d4cf..40c6720 100644
--- a/samples/dSFMTdc/test_linearity.cpp
+++ b/samples/dSFMTdc/test_linearity.cpp
@@ -35,8 +35,7 @@ int main(int argc, char * argv[])
     bool success = true;
     for (int se = 1; se < 20; se++) {
         w128_t seedw;
-        seedw.u64[0] = static_cast<uint32_t>(se);
-        seedw.u64[1] = 0;
+        seedw.u[0] = static_cast<uint32_t>(se);
         sf.seed(seedw);
         for (int i = 0; i < 2; i++) {
             for (int j = 2; j >= 1; j--) {
diff --git a/samples/sfmtdc/test_linearity.cpp b/samples/sfmtdc/test_linearity.cpp
index 6901f67..c4a5e53 100644
--- a/samples/sfmtdc/test_linearity.cpp
+++ b/samples/sfmtdc/test_linearity.cpp
@@ -45,8 +45,7 @@ int main(int argc, char * argv[])
     bool success = true;
     for (int se = 1; se < 20; se++) {
         w128_t seedw;
-        seedw.u64[0] = static_cast<uint32_t>(se);
-        seedw.u64[1] = 0;
+        seedw.u[0] = static_cast<uint32_t>(se);
         sf.seed(seedw);
         for (int i = 0; i < 4; i++) {
             for (int j = 4; j >= 1; j--) {
diff --git a/samples/sfmtdc/test_period.cpp b/samples/sfmtdc/test_period.cpp
index 4bd3e8c..baf83f2 100644
--- a/samples/sfmtdc/test_period.cpp
+++ b/samples/sfmtdc/test_period.cpp
@@ -52,8 +52,7 @@ int main(int argc, char * argv[])
     int min = INT_MAX;
     int max = -10;
     int max_weight = 0;
-    seedw.u64[0] = static_cast<uint32_t>(se);
-    seedw.u64[1] = 0;
+    seedw.u[0] = static_cast<uint32_t>(se);
     sf.seed(seedw);
     min_max_poly(min, max, sf, max_weight);
     cout << "berore anni ";
-- 
2.43.0


From 09d121e775483d0e150468a720a1e733bbb934ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:25 +0000
Subject: [PATCH 30/31] fix: assigning MTGP, RMT and MT search objects shared
 their states

---
 samples/MTDC/mt2.cpp            | 23 +++++++++++++++++++++++
 samples/MTGPDC/MTGP32search.hpp | 18 ++++++++++++++++++
 samples/RMT/rmt64.hpp           | 22 ++++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 7dd9a59..8a69e61 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -73,6 +73,29 @@ public:
             state[i] = src.state[i];
         }
     }
+    MT32Search& operator=(const MT32Search& src) {
+        if (this == &src) {
+            return *this;
+        }
+        uint32_t *array = new uint32_t[static_cast<uint32_t>(src.size)];
+        for (int i = 0; i < src.size; i++) {
+            array[i] = src.state[i];
+        }
+        delete[] state;
+        state = array;
+        mexp = src.mexp;
+        size = src.size;
+        index = src.index;
+        reverse = src.reverse;
+        id = src.id;
+        pos = src.pos;
+        mata = src.mata;
+        maskb = src.maskb;
+        maskc = src.maskc;
+        upper_mask = src.upper_mask;
+        lower_mask = src.lower_mask;
+        return *this;
+    }
     ~MT32Search() {
         delete[] state;
     }
diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 38bb3ed..67ac3d3 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -83,6 +83,24 @@ namespace mtgp {
             }
         }
 
+        mtgp32& operator=(const mtgp32& src) {
+            if (this == &src) {
+                return *this;
+            }
+            uint32_t *array
+                = new uint32_t[static_cast<unsigned long>(src.state_size)];
+            for (int i = 0; i < src.state_size; i++) {
+                array[i] = src.state[i];
+            }
+            delete[] state;
+            state = array;
+            state_size = src.state_size;
+            param = src.param;
+            idx = src.idx;
+            reverse_bit_flag = src.reverse_bit_flag;
+            return *this;
+        }
+
         ~mtgp32() {
             delete[] state;
         }
diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 3ffe367..0927781 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -75,6 +75,28 @@ public:
         }
     }
 
+    RMT64Search& operator=(const RMT64Search& src) {
+        if (this == &src) {
+            return *this;
+        }
+        uint64_t *array = new uint64_t[static_cast<unsigned long>(src.size)];
+        for (int i = 0; i < src.size; i++) {
+            array[i] = src.state[i];
+        }
+        delete[] state;
+        state = array;
+        mexp = src.mexp;
+        size = src.size;
+        index = src.index;
+        reverse = src.reverse;
+        pos = src.pos;
+        mata = src.mata;
+        maskb = src.maskb;
+        maskc = src.maskc;
+        parity = src.parity;
+        return *this;
+    }
+
     ~RMT64Search() {
         delete[] state;
     }
-- 
2.43.0


From e20df7053785414a5f1d9188d9dbbff3e59b67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:25 +0000
Subject: [PATCH 31/31] fix: copies of equidistribution objects shared and
 released twice what they hold

---
 .../MTToolBox/AlgorithmEquidistribution.hpp   | 62 +++++++++++++++++++
 .../AlgorithmReducibleEquidistribution.hpp    | 33 ++++++++++
 .../AlgorithmDSFMTEquidistribution.hpp        | 45 ++++++++++++++
 .../sfmtdc/AlgorithmSIMDEquidistribution.hpp  | 45 ++++++++++++++
 4 files changed, 185 insertions(+)

diff --git a/include/MTToolBox/AlgorithmEquidistribution.hpp b/include/MTToolBox/AlgorithmEquidistribution.hpp
index db940a9..8117f0c 100644
--- a/include/MTToolBox/AlgorithmEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmEquidistribution.hpp
@@ -156,6 +156,26 @@ namespace MTToolBox {
 #endif
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Copy constructor
+         * The copy has a generator of its own.
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        linear_generator_vector(const linear_generator_vector<U>& src) {
+            shared_ptr<ECGenerator> r(src.rand->clone());
+            rand = r;
+            count = src.count;
+            zero = src.zero;
+            next = src.next;
+        }
+
         void add(const linear_generator_vector<U>& src);
         void next_state(int bit_len);
         void debug_print();
@@ -307,6 +327,27 @@ namespace MTToolBox {
             basis[bit_len]->next_state(bit_len);
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Copy constructor
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmEquidistribution(const AlgorithmEquidistribution<U>& src) {
+            bit_len = src.bit_len;
+            stateBitSize = src.stateBitSize;
+            size = src.size;
+            basis = new linear_vec * [static_cast<unsigned long>(size)];
+            for (int i = 0; i < size; i++) {
+                basis[i] = new linear_vec(*src.basis[i]);
+            }
+        }
+
         /**
          *\japanese
          * デストラクタ
@@ -322,6 +363,27 @@ namespace MTToolBox {
             delete[] basis;
         }
 
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmEquidistribution<U>& operator=(
+            const AlgorithmEquidistribution<U>& src) {
+            AlgorithmEquidistribution<U> work(src);
+            std::swap(basis, work.basis);
+            std::swap(size, work.size);
+            std::swap(bit_len, work.bit_len);
+            std::swap(stateBitSize, work.stateBitSize);
+            return *this;
+        }
+
         int get_all_equidist(int veq[]);
         int get_equidist(int *sum_equidist);
     private:
diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index 589ed2c..fcac17c 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -83,6 +83,22 @@ namespace MTToolBox {
             delete rand;
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Copy constructor
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmReducibleEquidistribution(
+            const AlgorithmReducibleEquidistribution<U, G>& src) {
+            ae = new AlgorithmEquidistribution<U>(*src.ae);
+        }
+
         /**
          *\japanese
          * デストラクタ
@@ -96,6 +112,23 @@ namespace MTToolBox {
             delete ae;
         }
 
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmReducibleEquidistribution<U, G>& operator=(
+            const AlgorithmReducibleEquidistribution<U, G>& src) {
+            *ae = *src.ae;
+            return *this;
+        }
+
         /**
          *@copydoc AlgorithmEquidistribution::get_all_equidist
          */
diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 7c6b2a7..2f86bac 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -314,6 +314,30 @@ namespace MTToolBox {
 #endif
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Copy constructor
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmDSFMTEquidistribution(
+            const AlgorithmDSFMTEquidistribution<U, SIMDGenerator>& src) {
+            info = src.info;
+            size = src.size;
+            stateBitSize = src.stateBitSize;
+            weight = src.weight;
+            basis = new linear_vec * [static_cast<unsigned long>(size)];
+            for (int i = 0; i < size; i++) {
+                basis[i] = new linear_vec(*src.basis[i]);
+                // a generator of its own
+                basis[i]->rand.reset(new SIMDGenerator(*src.basis[i]->rand));
+            }
+        }
+
         /**
          *\japanese
          * デストラクタ
@@ -329,6 +353,27 @@ namespace MTToolBox {
             delete[] basis;
         }
 
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmDSFMTEquidistribution<U, SIMDGenerator>& operator=(
+            const AlgorithmDSFMTEquidistribution<U, SIMDGenerator>& src) {
+            AlgorithmDSFMTEquidistribution<U, SIMDGenerator> work(src);
+            std::swap(basis, work.basis);
+            std::swap(size, work.size);
+            std::swap(info, work.info);
+            std::swap(stateBitSize, work.stateBitSize);
+            std::swap(weight, work.weight);
+            return *this;
+        }
+
         int get_equidist(int bitLen);
     private:
         int get_equidist_main(int bit_len);
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index f9cb745..10baa65 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -321,6 +321,30 @@ namespace MTToolBox {
 #endif
         }
 
+        /**
+         *\japanese
+         * コピーコンストラクタ
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Copy constructor
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmSIMDEquidistribution(
+            const AlgorithmSIMDEquidistribution<U, SIMDGenerator>& src) {
+            info = src.info;
+            size = src.size;
+            stateBitSize = src.stateBitSize;
+            weight = src.weight;
+            basis = new linear_vec * [static_cast<unsigned int>(size)];
+            for (int i = 0; i < size; i++) {
+                basis[i] = new linear_vec(*src.basis[i]);
+                // a generator of its own
+                basis[i]->rand.reset(new SIMDGenerator(*src.basis[i]->rand));
+            }
+        }
+
         /**
          *\japanese
          * デストラクタ
@@ -336,6 +360,27 @@ namespace MTToolBox {
             delete[] basis;
         }
 
+        /**
+         *\japanese
+         * 代入演算子
+         * @param[in] src コピー元
+         *\endjapanese
+         *\english
+         * Assignment operator
+         * @param[in] src source of copy
+         *\endenglish
+         */
+        AlgorithmSIMDEquidistribution<U, SIMDGenerator>& operator=(
+            const AlgorithmSIMDEquidistribution<U, SIMDGenerator>& src) {
+            AlgorithmSIMDEquidistribution<U, SIMDGenerator> work(src);
+            std::swap(basis, work.basis);
+            std::swap(size, work.size);
+            std::swap(info, work.info);
+            std::swap(stateBitSize, work.stateBitSize);
+            std::swap(weight, work.weight);
+            return *this;
+        }
+
         int get_equidist(int bitLen);
     private:
         int get_equidist_main(int bit_len);
-- 
2.43.0


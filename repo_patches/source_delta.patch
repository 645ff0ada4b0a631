From c7ea758e5d7b862d16801cafb801ee1b4a8145e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:02 +0000
Subject: [PATCH 01/14] fix: set up tempering before judging a pattern in
 AlgorithmBestBits

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From a0e90a9d183331497ddb568b27b7b1d57debda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 02/14] fix: free the basis when constructing an
 equidistribution analysis fails

An exception from the generator (clone, generate) or from operator new left
the vectors made so far, and the generator copies in them, allocated.
---
 .../MTToolBox/AlgorithmEquidistribution.hpp   | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/MTToolBox/AlgorithmEquidistribution.hpp b/include/MTToolBox/AlgorithmEquidistribution.hpp
index db940a9..9dd7ccf 100644
--- a/include/MTToolBox/AlgorithmEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmEquidistribution.hpp
@@ -300,11 +300,19 @@ namespace MTToolBox {
             } else {
                 stateBitSize = mexp;
             }
-            for (int i = 0; i < bit_len; i++) {
-                basis[i] = new linear_vec(rand, i);
+            for (int i = 0; i < size; i++) {
+                basis[i] = NULL;
+            }
+            try {
+                for (int i = 0; i < bit_len; i++) {
+                    basis[i] = new linear_vec(rand, i);
+                }
+                basis[bit_len] = new linear_vec(rand);
+                basis[bit_len]->next_state(bit_len);
+            } catch (...) {
+                free_basis();
+                throw;
             }
-            basis[bit_len] = new linear_vec(rand);
-            basis[bit_len]->next_state(bit_len);
         }
 
         /**
@@ -316,10 +324,7 @@ namespace MTToolBox {
          *\endenglish
          */
         ~AlgorithmEquidistribution() {
-            for (int i = 0; i < size; i++) {
-                delete basis[i];
-            }
-            delete[] basis;
+            free_basis();
         }
 
         int get_all_equidist(int veq[]);
@@ -327,6 +332,12 @@ namespace MTToolBox {
     private:
         int get_equidist_main(int bit_len);
         void adjust(int new_len);
+        void free_basis() {
+            for (int i = 0; i < size; i++) {
+                delete basis[i];
+            }
+            delete[] basis;
+        }
 
         /**
          *\japanese
-- 
2.43.0


From c97f713091a907775033261885b3380211892615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 03/14] fix: do not leak the generator copy of a reducible
 equidistribution analysis

The annihilated working copy was never released, neither after success nor
after an exception.
---
 include/MTToolBox/AlgorithmReducibleEquidistribution.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
index a91550d..0c2f9f9 100644
--- a/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
+++ b/include/MTToolBox/AlgorithmReducibleEquidistribution.hpp
@@ -74,12 +74,12 @@ namespace MTToolBox {
                                            const NTL::GF2X irreducibleFactor,
                                            int bit_length,
                                            int mexp) {
-            G * rand = new G(rg);
+            G rand(rg);
             NTL::GF2X poly(0,1);
-            calcCharacteristicPolynomial(rand, poly);
+            calcCharacteristicPolynomial(&rand, poly);
             NTL::GF2X quotient = poly / irreducibleFactor;
-            annihilate<U>(rand, quotient);
-            ae = new AlgorithmEquidistribution<U>(*rand, bit_length, mexp);
+            annihilate<U>(&rand, quotient);
+            ae = new AlgorithmEquidistribution<U>(rand, bit_length, mexp);
         }
 
         /**
-- 
2.43.0


From 6946df13c28b8cc83fed8dce385f00bc34d82ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 04/14] fix: release every generator copy made by searchParity

The working vector's copy was never released, and the copies of the basis were
lost when the generator or an allocation failed part-way.
---
 include/MTToolBox/AlgorithmCalculateParity.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/MTToolBox/AlgorithmCalculateParity.hpp b/include/MTToolBox/AlgorithmCalculateParity.hpp
index 9c92c2d..18f1762 100644
--- a/include/MTToolBox/AlgorithmCalculateParity.hpp
+++ b/include/MTToolBox/AlgorithmCalculateParity.hpp
@@ -63,6 +63,7 @@
 #include <errno.h>
 #include <iostream>
 #include <inttypes.h>
+#include <vector>
 #include <NTL/GF2X.h>
 #include <NTL/vec_GF2.h>
 #include <NTL/mat_GF2.h>
@@ -116,7 +117,7 @@ namespace MTToolBox {
             int maxdegree = g.bitSize();
             word_width = bit_size<U>();
             int base_num = maxdegree - mexp;
-            internal_state bases[word_width];
+            vector<internal_state> bases(static_cast<size_t>(word_width));
             internal_state work_base;
             int count;
             int bit_pos = 0;
@@ -140,7 +141,7 @@ namespace MTToolBox {
 #endif
             while(bit_pos < maxdegree) {
                 calc_basis(work_base, f, &bit_pos);
-                addBase(bases, word_width, work_base);
+                addBase(&bases[0], word_width, work_base);
                 count = 0;
                 for (int i = 0; i < word_width; i++) {
                     if (!isZero(bases[i].next)) {
@@ -157,9 +158,6 @@ namespace MTToolBox {
 #if defined(DEBUG)
             cout << "searchParity after while loop" << endl;
 #endif
-            for (int i = 0; i < word_width; i++) {
-                delete bases[i].rg;
-            }
 #if defined(DEBUG)
             cout << "----" << endl;
             for (int i = 0; i < word_width; i++) {
@@ -173,7 +171,7 @@ namespace MTToolBox {
             }
             cout << "----" << endl;
 #endif
-            U parity = search_parity_check_vector(bases, base_num);
+            U parity = search_parity_check_vector(&bases[0], base_num);
             g.setParityValue(parity);
             return parity;
         }
@@ -184,6 +182,12 @@ namespace MTToolBox {
             bool zero;
             U next;
             G * rg;
+            internal_state() : zero(true), rg(NULL) {
+                setZero(next);
+            }
+            ~internal_state() {
+                delete rg;
+            }
         };
 
         int word_width;
-- 
2.43.0


From fc6341da1b0cb53142d704c928d3a3b459ab0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 05/14] fix: release the copy made by annihilate when the
 generator fails

---
 include/MTToolBox/ReducibleGenerator.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/MTToolBox/ReducibleGenerator.hpp b/include/MTToolBox/ReducibleGenerator.hpp
index 36e0b60..1c5ae22 100644
--- a/include/MTToolBox/ReducibleGenerator.hpp
+++ b/include/MTToolBox/ReducibleGenerator.hpp
@@ -144,12 +144,17 @@ namespace MTToolBox {
     void annihilate(EquidistributionCalculatable<U>* rg,
                     const NTL::GF2X& poly) {
         EquidistributionCalculatable<U> *other = rg->clone();
-        rg->setZero();
-        for (int i = 0; i <= deg(poly); i++) {
-            if (coeff(poly, i) != 0) {
-                rg->add(*other);
+        try {
+            rg->setZero();
+            for (int i = 0; i <= deg(poly); i++) {
+                if (coeff(poly, i) != 0) {
+                    rg->add(*other);
+                }
+                other->generate();
             }
-            other->generate();
+        } catch (...) {
+            delete other;
+            throw;
         }
         delete other;
     }
-- 
2.43.0


From 78a1004db8645f5070dcffedbaa78a3fb59c36bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:28 +0000
Subject: [PATCH 06/14] fix: release the copies made by TestLinearity when the
 generator fails

---
 include/MTToolBox/TestLinearity.hpp | 60 +++++++++++++++++++----------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/include/MTToolBox/TestLinearity.hpp b/include/MTToolBox/TestLinearity.hpp
index 5d035d3..5fa7221 100644
--- a/include/MTToolBox/TestLinearity.hpp
+++ b/include/MTToolBox/TestLinearity.hpp
@@ -96,10 +96,18 @@ namespace MTToolBox {
          */
         bool operator()(const EquidistributionCalculatable<U>& generator) {
             EquidistributionCalculatable<U> *g1 = generator.clone();
-            EquidistributionCalculatable<U> *g2 = generator.clone();
-            g1->seed(convert<U>(1234U));
-            g2->seed(convert<U>(4321U));
-            bool result = test1(*g1) && test2(*g1, *g2);
+            EquidistributionCalculatable<U> *g2 = NULL;
+            bool result;
+            try {
+                g2 = generator.clone();
+                g1->seed(convert<U>(1234U));
+                g2->seed(convert<U>(4321U));
+                result = test1(*g1) && test2(*g1, *g2);
+            } catch (...) {
+                delete g1;
+                delete g2;
+                throw;
+            }
             delete g1;
             delete g2;
             return result;
@@ -110,12 +118,17 @@ namespace MTToolBox {
             using namespace std;
             EquidistributionCalculatable<U> *g2 = g1.clone();
             bool result = true;
-            g2->add(g1);
-            for (int i = 0; i < 100; i++) {
-                if (!isZero(g2->generate())) {
-                    result = false;
-                    break;
+            try {
+                g2->add(g1);
+                for (int i = 0; i < 100; i++) {
+                    if (!isZero(g2->generate())) {
+                        result = false;
+                        break;
+                    }
                 }
+            } catch (...) {
+                delete g2;
+                throw;
             }
             delete g2;
 #if defined(DEBUG)
@@ -132,22 +145,27 @@ namespace MTToolBox {
                    EquidistributionCalculatable<U>& g2) {
             using namespace std;
             EquidistributionCalculatable<U> *g3 = g2.clone();
-            g3->add(g1);
             bool result = true;
-            for (int i = 0; i < 100; i++) {
-                U res1 = g1.generate();
-                U res2 = g2.generate();
-                U res3 = g3->generate();
-                if (!((res1 ^ res2) == res3)) {
-                    result = false;
+            try {
+                g3->add(g1);
+                for (int i = 0; i < 100; i++) {
+                    U res1 = g1.generate();
+                    U res2 = g2.generate();
+                    U res3 = g3->generate();
+                    if (!((res1 ^ res2) == res3)) {
+                        result = false;
 #if defined(DEBUG)
-                    cout << "i,res1,res2,res3 = " << dec << i << ","
-                         << hex << res1 << ","
-                         << res2 <<"," << res3 << ","
-                         << (res1 ^ res2) << endl;
+                        cout << "i,res1,res2,res3 = " << dec << i << ","
+                             << hex << res1 << ","
+                             << res2 <<"," << res3 << ","
+                             << (res1 ^ res2) << endl;
 #endif
-                    break;
+                        break;
+                    }
                 }
+            } catch (...) {
+                delete g3;
+                throw;
             }
             delete g3;
 #if defined(DEBUG)
-- 
2.43.0


From 775304c0e1ada75bf8514dc4955b7e810f033f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:49 +0000
Subject: [PATCH 07/14] fix: read the prime factor list without a string stream

A string stream swallows the failure of an allocation (and follows the global
locale): factors were silently lost, so that non-primitive polynomials passed
or NTL aborted on a division by zero.
---
 lib/AlgorithmPrimitivity.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/AlgorithmPrimitivity.cpp b/lib/AlgorithmPrimitivity.cpp
index 41c4b72..87078af 100644
--- a/lib/AlgorithmPrimitivity.cpp
+++ b/lib/AlgorithmPrimitivity.cpp
@@ -1,4 +1,4 @@
-#include <sstream>
+#include <ctype.h>
 #include <NTL/GF2XFactoring.h>
 #include <NTL/ZZ.h>
 #include <NTL/vector.h>
@@ -13,7 +13,6 @@ namespace MTToolBox {
     AlgorithmPrimitivity::AlgorithmPrimitivity(const char * prime_factors[])
     {
         mersenne = false;
-        stringstream ss;
         long length = 0;
         for (int i = 0; prime_factors[i]; i++) {
             length = i + 1;
@@ -21,10 +20,10 @@ namespace MTToolBox {
         this->primes = new Vec<ZZ>;
         this->primes->SetLength(length);
         for (int i = 0; prime_factors[i]; i++) {
-            ss << prime_factors[i];
-            ss << " ";
             ZZ w;
-            ss >> w;
+            for (const char * p = prime_factors[i]; isdigit(*p); p++) {
+                w = w * 10 + (*p) - '0';
+            }
             (*primes)[i] = w;
         }
     }
-- 
2.43.0


From bf35ff779fd3a3c398aadead65e2588f2415970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 08/14] fix: initialise the default constructed Sequential

Its counter, mask and error flag were indeterminate; it now counts down from
the largest value, as the constructor with a mask only does.
---
 include/MTToolBox/Sequential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/MTToolBox/Sequential.hpp b/include/MTToolBox/Sequential.hpp
index 8e2264d..a8689e1 100644
--- a/include/MTToolBox/Sequential.hpp
+++ b/include/MTToolBox/Sequential.hpp
@@ -56,6 +56,9 @@ namespace MTToolBox {
          *\endenglish
          */
         Sequential() {
+            status = static_cast<T>(-1);
+            mask = 0;
+            error = false;
         }
 
         /**
-- 
2.43.0


From 2d168951d4baf034de92ee2c3dff7ef9cc18097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:40 +0000
Subject: [PATCH 09/14] fix: seed mt2 from the clock when no seed is given

opt.seed was read uninitialised without --seed; the other search
programs use clock().
---
 samples/MTDC/mt2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..f4a530c 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -10,6 +10,7 @@
 #include <string>
 #include <errno.h>
 #include <stdlib.h>
+#include <time.h>
 #include <iostream>
 #include <fstream>
 #include <iomanip>
@@ -270,6 +271,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
         {"count", required_argument, NULL, 'c'},
         {NULL, 0, NULL, 0}};
     opt.verbose = false;
+    opt.seed = static_cast<uint32_t>(clock());
     opt.count = 1;
     opt.max_delta = INT_MAX;
     opt.all = false;
-- 
2.43.0


From db61ea1faf38565e803065ee73b13ca022d60aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:02 +0000
Subject: [PATCH 10/14] fix: free the basis when constructing a SIMD or dSFMT
 equidistribution analysis fails

---
 .../AlgorithmDSFMTEquidistribution.hpp        | 27 +++++++++++++------
 .../sfmtdc/AlgorithmSIMDEquidistribution.hpp  | 27 +++++++++++++------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
index 3331286..fd817d0 100644
--- a/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
+++ b/samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp
@@ -296,11 +296,19 @@ namespace MTToolBox {
             size = bit_size + 1;
             basis = new linear_vec * [static_cast<unsigned long>(size)];
             stateBitSize = maxbitsize;
-            for (int i = 0; i < bit_size; i++) {
-                basis[i] = new linear_vec(rand, i, info);
+            for (int i = 0; i < size; i++) {
+                basis[i] = NULL;
+            }
+            try {
+                for (int i = 0; i < bit_size; i++) {
+                    basis[i] = new linear_vec(rand, i, info);
+                }
+                basis[bit_size] = new linear_vec(rand, info);
+                basis[bit_size]->next_state(bit_len);
+            } catch (...) {
+                free_basis();
+                throw;
             }
-            basis[bit_size] = new linear_vec(rand, info);
-            basis[bit_size]->next_state(bit_len);
 #if defined(DEBUG)
             cout << "zero = " << dec << basis[bit_size]->zero << endl;
             cout << "count = " << dec << basis[bit_size]->count << endl;
@@ -317,15 +325,18 @@ namespace MTToolBox {
          *\endenglish
          */
         ~AlgorithmDSFMTEquidistribution() {
-            for (int i = 0; i < size; i++) {
-                delete basis[i];
-            }
-            delete[] basis;
+            free_basis();
         }
 
         int get_equidist(int bitLen);
     private:
         int get_equidist_main(int bit_len);
+        void free_basis() {
+            for (int i = 0; i < size; i++) {
+                delete basis[i];
+            }
+            delete[] basis;
+        }
 
         /**
          *\japanese
diff --git a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
index d3d771b..d43789a 100644
--- a/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
+++ b/samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp
@@ -302,11 +302,19 @@ namespace MTToolBox {
             size = bit_size + 1;
             basis = new linear_vec * [static_cast<unsigned int>(size)];
             stateBitSize = maxbitsize;
-            for (int i = 0; i < bit_size; i++) {
-                basis[i] = new linear_vec(rand, i, info, lsb);
+            for (int i = 0; i < size; i++) {
+                basis[i] = NULL;
+            }
+            try {
+                for (int i = 0; i < bit_size; i++) {
+                    basis[i] = new linear_vec(rand, i, info, lsb);
+                }
+                basis[bit_size] = new linear_vec(rand, info, lsb);
+                basis[bit_size]->next_state(bit_len);
+            } catch (...) {
+                free_basis();
+                throw;
             }
-            basis[bit_size] = new linear_vec(rand, info, lsb);
-            basis[bit_size]->next_state(bit_len);
 #if defined(DEBUG)
             cout << "zero = " << dec << basis[bit_size]->zero << endl;
             cout << "count = " << dec << basis[bit_size]->count << endl;
@@ -323,15 +331,18 @@ namespace MTToolBox {
          *\endenglish
          */
         ~AlgorithmSIMDEquidistribution() {
-            for (int i = 0; i < size; i++) {
-                delete basis[i];
-            }
-            delete[] basis;
+            free_basis();
         }
 
         int get_equidist(int bitLen);
     private:
         int get_equidist_main(int bit_len);
+        void free_basis() {
+            for (int i = 0; i < size; i++) {
+                delete basis[i];
+            }
+            delete[] basis;
+        }
 
         /**
          *\japanese
-- 
2.43.0


From c5dd1fe4bcf93e7caa7643a96158b2c5f3d4cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:33 +0000
Subject: [PATCH 11/14] fix: initialise and copy the digest field of MTGP
 parameters

---
 samples/MTGPDC/mtgp_param.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..9fb2135 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -37,6 +37,7 @@ namespace mtgp {
                 p[i] = 0;
                 tp[i] = 0;
             }
+            sha1[0] = 0;
         }
         mtgp_param(const mtgp_param<T>& that) {
             mexp = that.mexp;
@@ -61,8 +62,8 @@ namespace mtgp {
             for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
                 sha1[i] = that.sha1[i];
             }
-            sha1[0] = that.sha1[0];
 #endif
+            sha1[0] = that.sha1[0];
         }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From 5d3e20c31b7621324ac8e21360abae46c7477501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:54 +0000
Subject: [PATCH 12/14] fix: set every word of the seed state in the sfmt and
 dSFMT programs

Only part of the 128-bit seed was set, so that the reports of the analysis programs depended on uninitialised memory.
---
 samples/dSFMTdc/calc_equidist.cpp      | 1 +
 samples/dSFMTdc/calc_fixpoint_main.cpp | 1 +
 samples/dSFMTdc/calc_parity_main.cpp   | 1 +
 samples/dSFMTdc/calc_period.cpp        | 2 ++
 samples/dSFMTdc/make_old_format.cpp    | 1 +
 samples/sfmtdc/calc_equidist.cpp       | 1 +
 samples/sfmtdc/calc_parity.cpp         | 1 +
 7 files changed, 8 insertions(+)

diff --git a/samples/dSFMTdc/calc_equidist.cpp b/samples/dSFMTdc/calc_equidist.cpp
index 4359481..50f2865 100644
--- a/samples/dSFMTdc/calc_equidist.cpp
+++ b/samples/dSFMTdc/calc_equidist.cpp
@@ -35,6 +35,7 @@ int main(int argc, char * argv[])
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
     w128_t wseed;
     wseed.u64[0] = opt.seed;
+    wseed.u64[1] = 0;
     sf.seed(wseed);
 #if defined(DEBUG)
     sf.d_p();
diff --git a/samples/dSFMTdc/calc_fixpoint_main.cpp b/samples/dSFMTdc/calc_fixpoint_main.cpp
index 0c148b4..2840919 100644
--- a/samples/dSFMTdc/calc_fixpoint_main.cpp
+++ b/samples/dSFMTdc/calc_fixpoint_main.cpp
@@ -179,6 +179,7 @@ int main(int argc, char *argv[]) {
     }
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     dsfmt.seed(w);
     get_fixpoint(dsfmt);
     return 0;
diff --git a/samples/dSFMTdc/calc_parity_main.cpp b/samples/dSFMTdc/calc_parity_main.cpp
index 11d3f5f..6660e6f 100644
--- a/samples/dSFMTdc/calc_parity_main.cpp
+++ b/samples/dSFMTdc/calc_parity_main.cpp
@@ -190,6 +190,7 @@ int main(int argc, char *argv[]) {
     }
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     dsfmt.seed(w);
     GF2X poly;
     GF2X smallpoly;
diff --git a/samples/dSFMTdc/calc_period.cpp b/samples/dSFMTdc/calc_period.cpp
index 1f6403c..5d5c2d8 100644
--- a/samples/dSFMTdc/calc_period.cpp
+++ b/samples/dSFMTdc/calc_period.cpp
@@ -41,6 +41,8 @@ int main(int argc, char * argv[])
     w128_t seedw;
     int min = INT_MAX;
     int max = -10;
+    seedw.u64[0] = 0;
+    seedw.u64[1] = 0;
     seedw.u[0] = se;
     sf.seed(seedw);
     min_max_poly(min, max, sf);
diff --git a/samples/dSFMTdc/make_old_format.cpp b/samples/dSFMTdc/make_old_format.cpp
index c927d4c..4790cb5 100644
--- a/samples/dSFMTdc/make_old_format.cpp
+++ b/samples/dSFMTdc/make_old_format.cpp
@@ -71,6 +71,7 @@ int main(int argc, char *argv[]) {
     cout << ", maxdegree = " << dec << maxdegree << endl;
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     dsfmt.seed(w);
     cout << "pos1 = " << dec << param.pos1 << endl;
     cout << "sl1 = " << dec << param.sl1 << endl;
diff --git a/samples/sfmtdc/calc_equidist.cpp b/samples/sfmtdc/calc_equidist.cpp
index a84d1f5..cef73b9 100644
--- a/samples/sfmtdc/calc_equidist.cpp
+++ b/samples/sfmtdc/calc_equidist.cpp
@@ -36,6 +36,7 @@ int main(int argc, char * argv[])
     //w128_t wseed = {{0x12345, 0x56789, 0x9abcd, 0xdef01}};
     w128_t wseed;
     wseed.u64[0] = opt.seed;
+    wseed.u64[1] = 0;
     sf.seed(wseed);
     if (!anni(sf)) {
         return -1;
diff --git a/samples/sfmtdc/calc_parity.cpp b/samples/sfmtdc/calc_parity.cpp
index 8164b91..d2a424a 100644
--- a/samples/sfmtdc/calc_parity.cpp
+++ b/samples/sfmtdc/calc_parity.cpp
@@ -216,6 +216,7 @@ int main(int argc, char *argv[]) {
     }
     w128_t w;
     w.u64[0] = 1;
+    w.u64[1] = 0;
     sf.seed(w);
     GF2X poly;
     GF2X smallpoly;
-- 
2.43.0


From 14f921b7109db076a3df912468374fa3bbaa27f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:54 +0000
Subject: [PATCH 13/14] fix: find the whole annihilating polynomial in
 getLCMPoly

The polynomial was calculated from single bits of the lung only and could lack factors; the degrees printed were wrong and calc_fixpoint rejected valid parameters.
---
 samples/dSFMTdc/Annihilate.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/samples/dSFMTdc/Annihilate.cpp b/samples/dSFMTdc/Annihilate.cpp
index 6565315..de275bb 100644
--- a/samples/dSFMTdc/Annihilate.cpp
+++ b/samples/dSFMTdc/Annihilate.cpp
@@ -43,16 +43,22 @@ bool anni(dSFMT& sf)
 void getLCMPoly(GF2X& lcm, const dSFMT& sf)
 {
     dSFMT gen(sf);
+    gen.setWeightMode(2); // isZero() checks state and lung only
     lungLCM(lcm, gen);
     int bitSize = gen.bitSize();
     GF2X poly;
     for (int i = 0; i < bitSize; i++) {
-        gen.setOneBit(i);
-        minPolyLung(poly, gen, 0);
-        LCM(lcm, lcm, poly);
         if (deg(lcm) == bitSize) {
             return;
         }
+        gen.setOneBit(i);
+        annihilate<w128_t>(&gen, lcm);
+        if (!gen.isZero()) {
+            // lcm lacks a factor, which annihilates the rest.
+            poly = GF2X(0, 1);
+            lungLCM(poly, gen);
+            lcm *= poly;
+        }
     }
 }
 
@@ -60,7 +66,8 @@ static void lungLCM(GF2X& lcm, dSFMT& sf)
 {
     GF2X poly;
     for (int i = 0; i < 128; i++) {
-        minPolyLung(poly, sf, i);
+        dSFMT gen(sf);
+        minPolyLung(poly, gen, i);
         LCM(lcm, lcm, poly);
     }
 }
@@ -71,9 +78,9 @@ static void minPolyLung(GF2X& poly, dSFMT& sf, int pos)
     int size = sf.bitSize();
     v.SetLength(2 * size);
     for (int i = 0; i < 2 * size; i++) {
-        sf.generate();
         w128_t w = sf.getParityValue();
         v[i] = getBitOfPos(w, pos);
+        sf.generate();
     }
     MinPolySeq(poly, v, size);
 }
-- 
2.43.0


From 16e42bd4a3104502bdaa1584e32d393b1de7c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:54 +0000
Subject: [PATCH 14/14] fix: store the state calculated by
 xorshift128_init_by_array

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


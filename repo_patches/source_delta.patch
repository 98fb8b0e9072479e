From 04ac028737a7cc4d1c20d77ba111ad837b50aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 01/81] fix: int_vector equality compares the widths as
 documented

---
 include/sdsl/int_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..4a97f9b 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1448,6 +1448,8 @@ int_vector<1>::operator[](const size_type& idx)const -> const_reference
 template<uint8_t t_width>
 bool int_vector<t_width>::operator==(const int_vector& v)const
 {
+    if (width() != v.width())
+        return false;
     if (capacity() != v.capacity())
         return false;
     if (bit_size() != v.bit_size())
-- 
2.43.0


From 3449a68277ba920b2c651e8c560760dfb7930b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 02/81] fix: int_vector resize keeps the padding word behind a
 64-bit aligned end

---
 include/sdsl/memory_management.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..71023d5 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -346,13 +346,14 @@ class memory_manager
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
             bool do_realloc = old_size_in_bytes != new_size_in_bytes;
+            // Note that we allocate 8 additional bytes if m_size % 64 == 0.
+            // We need this padding since rank data structures do a memory
+            // access to this padding to answer rank(size()) if size()%64 ==0.
+            // Note that this padding is not counted in the serialize method!
+            size_t old_allocated_bytes = (size_t)(((v.m_size + 64) >> 6) << 3);
+            size_t allocated_bytes = (size_t)(((size + 64) >> 6) << 3);
             v.m_size = size;
-            if (do_realloc || v.m_data == nullptr) {
-                // Note that we allocate 8 additional bytes if m_size % 64 == 0.
-                // We need this padding since rank data structures do a memory
-                // access to this padding to answer rank(size()) if size()%64 ==0.
-                // Note that this padding is not counted in the serialize method!
-                size_t allocated_bytes = (size_t)(((size + 64) >> 6) << 3);
+            if (do_realloc || old_allocated_bytes != allocated_bytes || v.m_data == nullptr) {
                 v.m_data = memory_manager::realloc_mem(v.m_data, allocated_bytes);
                 if (allocated_bytes != 0 && v.m_data == nullptr) {
                     throw std::bad_alloc();
-- 
2.43.0


From 6206eaba68c9feab743b8d569d0ad060bb07fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 03/81] fix: bits::cnt32 counts words with 16 or more ones
 correctly

---
 include/sdsl/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/bits.hpp b/include/sdsl/bits.hpp
index 1c45774..c706cb4 100644
--- a/include/sdsl/bits.hpp
+++ b/include/sdsl/bits.hpp
@@ -268,7 +268,8 @@ inline uint32_t bits::cnt32(uint32_t x)
 {
     x = x-((x>>1) & 0x55555555);
     x = (x & 0x33333333) + ((x>>2) & 0x33333333);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x>>4)) & 0x0f0f0f0f;
+    return 0x01010101*x >> 24;
 }
 
 
-- 
2.43.0


From 94a3f7f1268230a04528cd505d9a05500afe8ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 04/81] fix: util::next_bit never returns a position behind the
 end

---
 include/sdsl/util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..f1261ac 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -576,12 +576,13 @@ typename t_int_vec::size_type util::next_bit(const t_int_vec& v, uint64_t idx)
     uint64_t node = v.data()[pos];
     node >>= (idx&0x3F);
     if (node) {
-        return idx+bits::lo(node);
+        // bits behind the end of v may be set
+        return std::min<uint64_t>(idx+bits::lo(node), v.bit_size());
     } else {
         ++pos;
         while ((pos<<6) < v.bit_size()) {
             if (v.data()[pos]) {
-                return (pos<<6)|bits::lo(v.data()[pos]);
+                return std::min<uint64_t>((pos<<6)|bits::lo(v.data()[pos]), v.bit_size());
             }
             ++pos;
         }
-- 
2.43.0


From 22579f81c9afcca45b91e49717bd6459d31732a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 05/81] fix: sd_vector range constructor computes the size in
 size_type

---
 include/sdsl/sd_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/sd_vector.hpp b/include/sdsl/sd_vector.hpp
index 627d70d..1e4626c 100644
--- a/include/sdsl/sd_vector.hpp
+++ b/include/sdsl/sd_vector.hpp
@@ -237,7 +237,7 @@ class sd_vector
                 throw std::runtime_error("sd_vector: source list is not sorted.");
             }
             size_type m = std::distance(begin,end);
-            m_size = *(end-1)+1;
+            m_size = static_cast<size_type>(*(end-1))+1;
             uint8_t logm = bits::hi(m)+1;
             uint8_t logn = bits::hi(m_size)+1;
             if (logm == logn) {
@@ -249,7 +249,7 @@ class sd_vector
             auto itr = begin;
             size_type mm=0,last_high=0,highpos=0;
             while (itr != end) {
-                auto position = *itr;
+                size_type position = *itr;
                 // (1) handle high part
                 size_type cur_high = position >> m_wl;
                 highpos += (cur_high - last_high);   // write cur_high-last_high 0s
-- 
2.43.0


From 3f7625732422466a3b405cccd3788aab0e64219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 06/81] fix: comma coder works for the documented widths 31 and
 32

---
 include/sdsl/coder_comma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/coder_comma.hpp b/include/sdsl/coder_comma.hpp
index d2c1a7c..d466d99 100644
--- a/include/sdsl/coder_comma.hpp
+++ b/include/sdsl/coder_comma.hpp
@@ -66,7 +66,7 @@ class comma
         }
 
         //base in which numbers are coded
-        static const uint32_t base = (1 << t_width) - 1;
+        static const uint32_t base = (uint32_t)((1ULL << t_width) - 1);
 
         //table needed for computation of encoding lengths.
         //table contains entries of the kind (index, base^index)
-- 
2.43.0


From 1a5f07aed357b87bef48a5a6ae2bade509d235c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 07/81] fix: decoding a vector reports success independent of
 the last value

---
 include/sdsl/coder_elias_delta.hpp | 3 ++-
 include/sdsl/coder_elias_gamma.hpp | 3 ++-
 include/sdsl/coder_fibonacci.hpp   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/coder_elias_delta.hpp b/include/sdsl/coder_elias_delta.hpp
index 5ecd5ec..c80cce0 100644
--- a/include/sdsl/coder_elias_delta.hpp
+++ b/include/sdsl/coder_elias_delta.hpp
@@ -227,7 +227,8 @@ bool elias_delta::decode(const int_vector& z, int_vector& v)
     }
     v.width(z.width());
     v.resize(n);
-    return decode<false, true>(z.data(), 0, n, v.begin());
+    decode<false, true>(z.data(), 0, n, v.begin());
+    return true;
 }
 
 template<bool t_sumup, bool t_inc, class t_iter>
diff --git a/include/sdsl/coder_elias_gamma.hpp b/include/sdsl/coder_elias_gamma.hpp
index 8d96db2..98c6c05 100644
--- a/include/sdsl/coder_elias_gamma.hpp
+++ b/include/sdsl/coder_elias_gamma.hpp
@@ -225,7 +225,8 @@ bool elias_gamma::decode(const int_vector& z, int_vector& v)
     }
     v.width(z.width());
     v.resize(n);
-    return decode<false, true>(z.data(), 0, n, v.begin());
+    decode<false, true>(z.data(), 0, n, v.begin());
+    return true;
 }
 
 template<bool t_sumup, bool t_inc, class t_iter>
diff --git a/include/sdsl/coder_fibonacci.hpp b/include/sdsl/coder_fibonacci.hpp
index 1b4256f..1e5258f 100644
--- a/include/sdsl/coder_fibonacci.hpp
+++ b/include/sdsl/coder_fibonacci.hpp
@@ -323,7 +323,8 @@ bool fibonacci::decode(const int_vector1& z, int_vector2& v)
         n += bits::cnt11(*data, carry);
     }
     v.width(z.width()); v.resize(n);
-    return decode<false, true>(z.data(), 0, n, v.begin());
+    decode<false, true>(z.data(), 0, n, v.begin());
+    return true;
 }
 
 template<bool t_sumup, bool t_inc, class t_iter>
-- 
2.43.0


From 0917e4c506bf7288731a650fd9040216fd0894e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 08/81] fix: elias_gamma prefix sum with end index decodes
 values of 2^63 and above

---
 lib/coder_elias_gamma.cpp | 140 +-------------------------------------
 1 file changed, 3 insertions(+), 137 deletions(-)

diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 3e668a9..fb331c0 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -8,146 +8,12 @@ namespace coder
 
 elias_gamma::impl elias_gamma::data;
 
-uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start_idx, const size_type end_idx, size_type n)
+uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start_idx, SDSL_UNUSED const size_type end_idx, size_type n)
 {
-    if (n==0)
-        return 0;
-    const uint64_t* lastdata = d + ((end_idx+63) >> 6);
-    d += (start_idx >> 6);
-    uint64_t w = 0, value = 0;
-    int16_t buffered = 0, read = start_idx & 0x3F;
-    size_type i = 0;
-    if (n + read <= 64) {
-        if (((*d >> read)&bits::lo_set[n]) == bits::lo_set[n])
-            return n;
-    } else { // n+read > 64
-        if ((*d >> read) == bits::lo_set[64-read]) {// all bits are set to 1
-            value = 64-read;
-            ++d;
-            n -= (64-read);
-            read = 0;
-            while (n >= 64) {
-                if (*d == 0xFFFFFFFFFFFFFFFFULL) {
-                    value += 64;
-                    ++d;
-                    n -= 64;
-                } else
-                    goto start_decoding;
-            }
-            // 0 <= n <= 64
-            if ((*d&bits::lo_set[n]) == bits::lo_set[n])
-                return value + n;
-        }
-    }
-
-start_decoding:
-    while (i<n) {
-        while (buffered < 64 and d < lastdata) {
-fill_buffer:
-            w |= (((*d)>>read)<<buffered);
-            if (read >= buffered) {
-                ++d;
-                buffered += 64-read;
-                read = 0;
-            } else { // read buffered
-                read += 64-buffered;
-                buffered = 64;
-            }
-        }
-        uint32_t rbp = bits::lo(~w);
-        if (rbp > 0) {
-            i += rbp;
-            value += rbp;
-            if (i >= n) { // decoded too much
-                return value - (i-n); // return corrected value
-            }
-            assert(buffered >= rbp);
-            buffered -= rbp;
-            w >>= rbp;
-            if (buffered<16)
-                goto fill_buffer;
-        }
-        {
-            // i < n
-begin_decode:
-            uint32_t psum = elias_gamma::data.prefixsum[w&0x0000FFFF];
-            if (!psum or i+((psum>>16)&0x00FF) > n) {
-                if (w==0) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (!w) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-//				assert(w>0);
-                uint16_t len_1 = bits::lo(w); // read length of length
-                buffered -= (len_1+1);
-                w >>= (len_1+1);
-                if (len_1 > buffered) {// buffer is not full
-                    w |= (((*d)>>read)<<buffered);
-                    if (read >= buffered) {
-                        ++d;
-                        buffered += 64-read;
-                        read = 0;
-                    } else {
-                        read += 64-buffered;
-                        buffered = 64;
-                    };
-                    if (len_1 > buffered) {
-                        w |= (((*d)>>read)<<buffered);
-                        if (read >= buffered) {
-                            ++d;
-                            buffered += 64-read;
-                            read = 0;
-                        } else {
-                            read += 64-buffered;
-                            buffered = 64;
-                        };
-                    }
-                }
-                value	+= (w&bits::lo_set[len_1]) + (len_1<64) * (1ULL << len_1);
-                buffered -= len_1;
-                if (len_1 < 64) {
-                    w >>= len_1;
-                } else {
-                    w = 0;
-                }
-                ++i;
-                if (i==n)
-                    return value;
-                if (buffered>=16)
-                    goto begin_decode;
-            } else {
-                value += (psum&0x0000FFFF);
-                i += ((psum>>16)&0x00FF);
-                if (i==n)
-                    return value;
-                buffered -= (psum>>24);
-                w >>= (psum>>24);
-                if (buffered>=16)
-                    goto begin_decode;
-            }
-        }
-    };
-    return value;
+    // code words can be longer than a 64-bit buffer
+    return decode_prefix_sum(d, start_idx, n);
 }
 
-
 uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start_idx, size_type n)
 {
     if (n==0)
-- 
2.43.0


From d40867780c70c11ee132346c69f8f68d7ba62beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 09/81] fix: fibonacci coder encodes values ending in a digit
 above the 64th

---
 include/sdsl/coder_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/coder_fibonacci.hpp b/include/sdsl/coder_fibonacci.hpp
index 1e5258f..958afaa 100644
--- a/include/sdsl/coder_fibonacci.hpp
+++ b/include/sdsl/coder_fibonacci.hpp
@@ -211,7 +211,7 @@ inline bool fibonacci::encode(const int_vector1& v, int_vector2& z)
                         fibword_high <<= 1;
                         --j;
                     } else {
-                        fibword_high <<= (64-j);
+                        fibword_high <<= (j-64);
                         break;
                     }
                 }
@@ -272,7 +272,7 @@ inline void fibonacci::encode(uint64_t x, uint64_t*& z, uint8_t& offset)
                     fibword_high <<= 1;
                     --j;
                 } else {
-                    fibword_high <<= (64-j);
+                    fibword_high <<= (j-64);
                     break;
                 }
             }
-- 
2.43.0


From 8a50b3158d285bdb43cc11e5298f3135eedeeae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 10/81] fix: enc_vector computes deltas in 64 bits for
 containers of narrower integers

---
 include/sdsl/enc_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/enc_vector.hpp b/include/sdsl/enc_vector.hpp
index 45a6074..faf900d 100644
--- a/include/sdsl/enc_vector.hpp
+++ b/include/sdsl/enc_vector.hpp
@@ -223,7 +223,7 @@ enc_vector<t_coder, t_dens,t_width>::enc_vector(const Container& c)
     if (c.empty())  // if c is empty there is nothing to do...
         return;
     typename Container::const_iterator    it             = c.begin(), end = c.end();
-    typename Container::value_type         v1            = *it, v2, max_sample_value=0, x;
+    value_type    v1            = *it, v2, max_sample_value=0, x; // 64-bit as operator[]
     size_type samples=0;
     size_type z_size = 0;
 //  (1) Calculate maximal value of samples and of deltas
-- 
2.43.0


From 9e89e61789a4e0c0fefd2001f172b75e6c74bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 11/81] fix: elias delta and gamma prefix sums do not read the
 word behind the data

---
 lib/coder_elias_delta.cpp | 9 +++++++--
 lib/coder_elias_gamma.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/coder_elias_delta.cpp b/lib/coder_elias_delta.cpp
index cef7556..43d45d2 100644
--- a/lib/coder_elias_delta.cpp
+++ b/lib/coder_elias_delta.cpp
@@ -253,13 +253,18 @@ start_decoding:
                 continue;
         }
         while (i < n) {
-            uint32_t psum = elias_delta::data.prefixsum[bits::read_int(d, offset, 16)];
+            // look only at the current word if it contains the values, the next one may not exist
+            uint32_t psum = elias_delta::data.prefixsum[(*d>>offset)&0xFFFF];
+            if (offset > 48 and (psum == 0 or offset+(psum>>24) > 64))
+                psum = elias_delta::data.prefixsum[bits::read_int(d, offset, 16)];
 //			if( psum == 0 or i+((psum>>16)&0x00FF) > n ){ // value does not fit in 16 bits
             if (psum == 0) { // value does not fit in 16 bits
                 goto decode_single;
             } else if (i+((psum>>16)&0x00FF) > n) { // decoded too much
                 if (n-i <= 8) {
-                    psum = elias_delta::data.prefixsum_8bit[bits::read_int(d, offset, 8) | ((n-i-1)<<8)];
+                    psum = elias_delta::data.prefixsum_8bit[((*d>>offset)&0xFF) | ((n-i-1)<<8)];
+                    if (offset > 56 and (psum == 0 or offset+(psum>>8) > 64))
+                        psum = elias_delta::data.prefixsum_8bit[bits::read_int(d, offset, 8) | ((n-i-1)<<8)];
                     if (psum > 0) {
                         value += (psum&0xF);
                         i += ((psum>>4)&0xF);
diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index fb331c0..92dd8f9 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -73,12 +73,17 @@ start_decoding:
         }
 
         while (i < n) {
-            uint32_t psum = elias_gamma::data.prefixsum[bits::read_int(d, offset, 16)];
+            // look only at the current word if it contains the values, the next one may not exist
+            uint32_t psum = elias_gamma::data.prefixsum[(*d>>offset)&0xFFFF];
+            if (offset > 48 and (psum == 0 or offset+(psum>>24) > 64))
+                psum = elias_gamma::data.prefixsum[bits::read_int(d, offset, 16)];
             if (psum == 0) { // value does not fit in 16 bits
                 goto decode_single;
             } else if (i+((psum>>16)&0x00FF) > n) { // decoded too much
                 if (n-i <= 8) {
-                    psum = elias_gamma::data.prefixsum_8bit[bits::read_int(d, offset, 8) | ((n-i-1)<<8)];
+                    psum = elias_gamma::data.prefixsum_8bit[((*d>>offset)&0xFF) | ((n-i-1)<<8)];
+                    if (offset > 56 and (psum == 0 or offset+(psum>>12) > 64))
+                        psum = elias_gamma::data.prefixsum_8bit[bits::read_int(d, offset, 8) | ((n-i-1)<<8)];
                     if (psum > 0) {
                         value += (psum&0xFF);
                         i += ((psum>>8)&0xF);
-- 
2.43.0


From 49552970ce989329caa92b096cba2c195408483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 12/81] fix: default constructed dac_vector and dac_vector_dp
 initialise size and level count

---
 include/sdsl/dac_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..732e53d 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -354,7 +354,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;  // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
-- 
2.43.0


From eb4a17cf9ec44b3ba3a8621cc952d548357c4bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 13/81] fix: int_vector_buffer iterator minus offset returns an
 iterator, not a dangling reference

---
 include/sdsl/int_vector_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..c15d285 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -549,7 +549,7 @@ class int_vector_buffer
                     return it += i;
                 }
 
-                iterator& operator-(difference_type i) const
+                iterator operator-(difference_type i) const
                 {
                     iterator it = *this;
                     return it -= i;
-- 
2.43.0


From 312091ff5dfc17f7720f61e2075ce6da05d26e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:46 +0000
Subject: [PATCH 14/81] fix: int_vector_mapper operator== compares the sizes

---
 include/sdsl/int_vector_mapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..5564378 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -310,7 +310,7 @@ class int_vector_mapper
         template<class container>
         bool operator==(const container& v) const
         {
-            return std::equal(begin(), end(), v.begin());
+            return size() == v.size() and std::equal(begin(), end(), v.begin());
         }
         bool operator==(const int_vector<t_width>& v) const
         {
-- 
2.43.0


From 1593b4a93e6a2784977be335de20fa5384691b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:06 +0000
Subject: [PATCH 15/81] fix: moving an int_vector_mapper hands over the
 mapping, the file and the pending size

---
 include/sdsl/int_vector_mapper.hpp | 35 ++++++++++++++----------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 5564378..b61bbfb 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -95,31 +95,28 @@ class int_vector_mapper
             m_wrapper.m_data = nullptr;
             m_wrapper.m_size = 0;
         }
-        int_vector_mapper(int_vector_mapper&& ivm)
+        int_vector_mapper(int_vector_mapper&& ivm) : m_delete_on_close(false)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            swap(ivm);
         }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            if (this != &ivm) {
+                int_vector_mapper tmp(std::move(ivm));
+                swap(tmp); // tmp closes the file which was mapped by this object
+            }
             return (*this);
         }
+        void swap(int_vector_mapper& ivm)
+        {
+            std::swap(m_mapped_data, ivm.m_mapped_data);
+            std::swap(m_file_size_bytes, ivm.m_file_size_bytes);
+            std::swap(m_data_offset, ivm.m_data_offset);
+            std::swap(m_fd, ivm.m_fd);
+            m_wrapper.swap(ivm.m_wrapper);
+            std::swap(m_file_name, ivm.m_file_name);
+            std::swap(m_delete_on_close, ivm.m_delete_on_close);
+        }
         int_vector_mapper(const std::string& key,const cache_config& config)
             : int_vector_mapper(cache_file_name(key, config)) {}
 
-- 
2.43.0


From 2c01d3028fdd7553730a75c7e86ebcfd176d7621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:49 +0000
Subject: [PATCH 16/81] fix: int_vector_mapper does not pad plain files to
 whole words

---
 include/sdsl/int_vector_mapper.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index b61bbfb..82ae077 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -30,6 +30,12 @@ class int_vector_mapper
         int_vector<t_width> m_wrapper;
         std::string m_file_name;
         bool m_delete_on_close;
+
+        // bytes of the data in the file: whole words, but no padding in a plain array
+        size_type data_bytes(const size_type bit_size) const
+        {
+            return m_data_offset ? ((bit_size + 63) >> 6) << 3 : (bit_size + 7) >> 3;
+        }
     public:
         int_vector_mapper() = delete;
         int_vector_mapper(const int_vector_mapper&) = delete;
@@ -66,7 +72,7 @@ class int_vector_mapper
                 if (t_mode&std::ios_base::out) {
                     // do we have to truncate?
                     size_type current_bit_size = m_wrapper.m_size;
-                    size_type data_size_in_bytes = ((current_bit_size + 63) >> 6) << 3;
+                    size_type data_size_in_bytes = data_bytes(current_bit_size);
                     if (m_file_size_bytes != data_size_in_bytes + m_data_offset) {
                         int tret = memory_manager::truncate_file_mmap(m_fd, data_size_in_bytes + m_data_offset);
                         if (tret == -1) {
@@ -197,7 +203,7 @@ class int_vector_mapper
         void bit_resize(const size_type bit_size)
         {
             static_assert(t_mode & std::ios_base::out,"int_vector_mapper: must be opened in in+out mode for 'bit_resize'");
-            size_type new_size_in_bytes = ((bit_size + 63) >> 6) << 3;
+            size_type new_size_in_bytes = data_bytes(bit_size);
             if (m_file_size_bytes != new_size_in_bytes + m_data_offset) {
                 if (m_mapped_data) {
                     auto ret = memory_manager::mem_unmap(m_mapped_data,m_file_size_bytes);
-- 
2.43.0


From fef49d9f7eba67455f1ad837e3ef23c4f1425e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 17/81] fix: util::file_size of a missing disk file is 0, not
 an uninitialised value

---
 lib/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..bdda981 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,7 +171,8 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
+        if (stat(file.c_str(), &fs) != 0)
+            return 0; // as for a missing RAM-file
         return fs.st_size;
     }
 }
-- 
2.43.0


From 640d7ea7ec01e0fe8d731a2e06cb7c83e646b7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:36 +0000
Subject: [PATCH 18/81] fix: removing or renaming a missing RAM-file fails and
 renaming to the same name keeps the file

---
 lib/ram_fs.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..c32a2ca 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -72,16 +72,21 @@ int
 ram_fs::remove(const std::string& name)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map.erase(name);
-    return 0;
+    return m_map.erase(name) ? 0 : -1; // error, if the file does not exist
 }
 
 int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
-    m_map[new_filename] = std::move(m_map[old_filename]);
-    remove(old_filename);
+    auto it = m_map.find(old_filename);
+    if (it == m_map.end()) { // error, if the file does not exist
+        return -1;
+    }
+    if (old_filename != new_filename) {
+        m_map[new_filename] = std::move(it->second);
+        m_map.erase(it);
+    }
     return 0;
 }
 
-- 
2.43.0


From 4a9342c26bbf87950e164aa8b099e81e1b54be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:09 +0000
Subject: [PATCH 19/81] fix: RAM-file streams reject negative positions, seek
 relative to the put position and past the end as disk files do

---
 lib/ram_filebuf.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..12715ab 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -80,7 +80,10 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
-    if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
+    if (sp < (pos_type)0) {
+        return pos_type(off_type(-1));
+    }
+    if (sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         pbump64(sp);
@@ -91,8 +94,8 @@ ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
             setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
             setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
             pbump64(sp);
-        } else {
-            return pos_type(off_type(-1));
+        } else { // like in a file on disk: nothing to read there
+            setg(m_ram_file->data(), m_ram_file->data()+m_ram_file->size(), m_ram_file->data()+m_ram_file->size());
         }
     }
     return sp;
@@ -107,11 +110,12 @@ ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
             return pos_type(-1);
         }
     } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
+        off_type cur = (which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase();
+        if (seekpos(cur+off, which) == pos_type(-1)) {
             return pos_type(-1);
         }
     } else if (std::ios_base::end == way) {
-        if (seekpos(egptr()-eback()+off, which) == pos_type(-1)) {
+        if (seekpos(m_ram_file->size()+off, which) == pos_type(-1)) {
             return pos_type(-1);
         }
     }
@@ -139,11 +143,12 @@ ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
     if (m_ram_file) {
+        std::ptrdiff_t get = gptr()-eback(); // push_back may move the data
         m_ram_file->push_back(c);
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         std::ptrdiff_t add = epptr()-pbase();
         pbump64(add);
-        setg(m_ram_file->data(), gptr(), m_ram_file->data()+m_ram_file->size());
+        setg(m_ram_file->data(), m_ram_file->data()+get, m_ram_file->data()+m_ram_file->size());
     }
     return traits_type::to_int_type(c);
 }
-- 
2.43.0


From 7ae835f0728a38446701e45c9343f3f119672ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 20/81] fix: RAM-file streams honour the append and at-end open
 modes

---
 include/sdsl/ram_filebuf.hpp |  1 +
 lib/ram_filebuf.cpp          | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/ram_filebuf.hpp b/include/sdsl/ram_filebuf.hpp
index 04ccfe1..ed5bd5f 100644
--- a/include/sdsl/ram_filebuf.hpp
+++ b/include/sdsl/ram_filebuf.hpp
@@ -12,6 +12,7 @@ class ram_filebuf : public std::streambuf
 {
     private:
         ram_fs::content_type* m_ram_file = nullptr;  // file handle
+        bool m_append = false;                       // every write goes to the end of the file
         void pbump64(std::ptrdiff_t);
 
     public:
diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 12715ab..261946b 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -48,13 +48,12 @@ ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
         m_ram_file->clear();
     }
     if (m_ram_file) {
-        if (mode & std::ios_base::ate) {
-            // TODO: move put pointer to the end of the file
-        } else {
-
-        }
+        m_append = mode & std::ios_base::app;
         setg(m_ram_file->data(), m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+        if (mode & (std::ios_base::ate | std::ios_base::app)) {
+            seekpos(m_ram_file->size(), mode);
+        }
     }
 // ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
     return m_ram_file ? this : nullptr;
@@ -83,6 +82,9 @@ ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
     if (sp < (pos_type)0) {
         return pos_type(off_type(-1));
     }
+    if (m_append) {
+        sp = m_ram_file->size();
+    }
     if (sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-- 
2.43.0


From ffaa445c695870331a0b623dc75a4fedd532922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:17 +0000
Subject: [PATCH 21/81] fix: seeking behind the end of a RAM-file extends it
 only when something is written

---
 include/sdsl/ram_filebuf.hpp |  1 +
 lib/ram_filebuf.cpp          | 13 ++++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/ram_filebuf.hpp b/include/sdsl/ram_filebuf.hpp
index ed5bd5f..ac60385 100644
--- a/include/sdsl/ram_filebuf.hpp
+++ b/include/sdsl/ram_filebuf.hpp
@@ -12,6 +12,7 @@ class ram_filebuf : public std::streambuf
 {
     private:
         ram_fs::content_type* m_ram_file = nullptr;  // file handle
+        size_t m_gap = 0;                            // distance of the put position behind the end
         bool m_append = false;                       // every write goes to the end of the file
         void pbump64(std::ptrdiff_t);
 
diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 261946b..fac8aca 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -85,17 +85,18 @@ ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
     if (m_append) {
         sp = m_ram_file->size();
     }
+    m_gap = 0;
     if (sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         pbump64(sp);
     } else {
         if (mode & std::ios_base::out) {
-            // extend buffer
-            m_ram_file->resize(sp, 0);
-            setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
+            // the next write extends the file
+            m_gap = sp - (pos_type)m_ram_file->size();
+            setg(m_ram_file->data(), m_ram_file->data()+m_ram_file->size(), m_ram_file->data()+m_ram_file->size());
             setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-            pbump64(sp);
+            pbump64(m_ram_file->size());
         } else { // like in a file on disk: nothing to read there
             setg(m_ram_file->data(), m_ram_file->data()+m_ram_file->size(), m_ram_file->data()+m_ram_file->size());
         }
@@ -112,7 +113,7 @@ ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
             return pos_type(-1);
         }
     } else if (std::ios_base::cur == way) {
-        off_type cur = (which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase();
+        off_type cur = (which & std::ios_base::in) ? gptr()-eback() : pptr()-pbase()+m_gap;
         if (seekpos(cur+off, which) == pos_type(-1)) {
             return pos_type(-1);
         }
@@ -146,6 +147,8 @@ ram_filebuf::overflow(int_type c)
 {
     if (m_ram_file) {
         std::ptrdiff_t get = gptr()-eback(); // push_back may move the data
+        m_ram_file->resize(m_ram_file->size()+m_gap, 0);
+        m_gap = 0;
         m_ram_file->push_back(c);
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         std::ptrdiff_t add = epptr()-pbase();
-- 
2.43.0


From c61af5494dd501c25f48482c8dcf9245f1b0866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 22/81] fix: wt_int, wm_int and symbol_lte/gte with 64-bit
 symbols

max_level is 64 then and 1ULL << 64 is undefined (1 on x86), so rank
returned 0, wt_int was built wrongly and the 2d search missed points.
---
 include/sdsl/wm_int.hpp       |  9 ++++-----
 include/sdsl/wt_algorithm.hpp |  4 ++--
 include/sdsl/wt_int.hpp       | 15 +++++++--------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..c826873 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -325,7 +325,7 @@ class wm_int
         size_type rank(size_type i, value_type c)const
         {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type b = 0; // start position of the interval
@@ -439,8 +439,8 @@ class wm_int
                         bool report=true) const
         {
 
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (vrb > bits::lo_set[m_max_level])
+                vrb = bits::lo_set[m_max_level];
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
@@ -487,8 +487,7 @@ class wm_int
             } else {
                 rank_off[v.level] = m_tree_rank(is[v.level]);
             }
-            size_type irb = ilb + (1ULL << (m_max_level-v.level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-v.level-1));
 
             auto c_v = expand(v);
             auto c_r = expand(v, r);
diff --git a/include/sdsl/wt_algorithm.hpp b/include/sdsl/wt_algorithm.hpp
index 2151169..cd33cf4 100644
--- a/include/sdsl/wt_algorithm.hpp
+++ b/include/sdsl/wt_algorithm.hpp
@@ -325,7 +325,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_lte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (c > sdsl::bits::lo_set[wt.max_level]) {
         // c is greater than any symbol in wt. return the largest symbol!
         c = sdsl::bits::lo_set[wt.max_level];
     }
@@ -375,7 +375,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_gte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (c > sdsl::bits::lo_set[wt.max_level]) {
         // c is greater than any symbol in wt
         return {false, 0};
     }
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..2f92871 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -205,7 +205,7 @@ class wt_int
             size_type tree_pos = 0;
             uint64_t tree_word = 0;
 
-            uint64_t mask_old = 1ULL<<(m_max_level);
+            uint64_t mask_old = m_max_level < 64 ? 1ULL<<(m_max_level) : 0;
             for (uint32_t k=0; k<m_max_level; ++k) {
                 size_type          start     = 0;
                 const uint64_t    mask_new = 1ULL<<(m_max_level-k-1);
@@ -355,7 +355,7 @@ class wt_int
          */
         size_type rank(size_type i, value_type c)const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type offset = 0;
@@ -524,7 +524,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type, size_type>>
         t_ret_type lex_count(size_type i, size_type j, value_type c)const {
             assert(i <= j and j <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return t_ret_type {0, j-i, 0};
             }
             size_type offset  = 0;
@@ -568,7 +568,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type>>
         t_ret_type lex_smaller_count(size_type i, value_type c) const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (c > bits::lo_set[m_max_level]) { // c is greater than any symbol in wt
                 return t_ret_type {0, i};
             }
             size_type offset = 0;
@@ -609,8 +609,8 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (vrb > bits::lo_set[m_max_level])
+                vrb = bits::lo_set[m_max_level];
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
@@ -648,8 +648,7 @@ class wt_int
                 cnt_answers += rb-lb+1;
                 return;
             }
-            size_type irb = ilb + (1ULL << (m_max_level-level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-level-1));
 
             size_type offset = offsets[level];
 
-- 
2.43.0


From 5d4e5005bcfb7d72b4703ecc459d8600d8f5ecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 23/81] fix: an empty byte wavelet tree does not read its
 uninitialised code table

lex_smaller_count on an empty wt_pc with byte_tree recursed without end,
depending on the previous contents of memory.
---
 include/sdsl/wt_helper.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/wt_helper.hpp b/include/sdsl/wt_helper.hpp
index ae9a161..ed08e3f 100644
--- a/include/sdsl/wt_helper.hpp
+++ b/include/sdsl/wt_helper.hpp
@@ -159,7 +159,10 @@ struct _byte_tree {
             m_path[i] = bt.m_path[i];
     }
 
-    _byte_tree() {}
+    _byte_tree() {
+        std::fill(m_c_to_leaf, m_c_to_leaf+fixed_sigma, (node_type)undef);
+        std::fill(m_path, m_path+fixed_sigma, 0ULL);
+    }
 
     _byte_tree(const std::vector<pc_node>& temp_nodes, uint64_t& bv_size, const t_wt*) {
         m_nodes.resize(temp_nodes.size());
-- 
2.43.0


From 00197e7eb770ab5cf5466865d46b5a4b88b6c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 24/81] fix: wavelet tree seq() does not keep a reference to
 its argument

The returned container read through a dangling reference when seq() was
given a temporary node.
---
 include/sdsl/wm_int.hpp | 2 +-
 include/sdsl/wt_int.hpp | 2 +-
 include/sdsl/wt_pc.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index c826873..baada77 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -612,7 +612,7 @@ class wm_int
 
         //! Random access container to sequence of node v
         auto seq(const node_type& v) const -> random_access_container<std::function<value_type(size_type)>> {
-            return random_access_container<std::function<value_type(size_type)>>([&v, this](size_type i)
+            return random_access_container<std::function<value_type(size_type)>>([v, this](size_type i)
             {
                 node_type vv = v;
                 while (!is_leaf(vv)) {
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 2f92871..68cff80 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -771,7 +771,7 @@ class wt_int
 
         //! Random access container to sequence of node v
         auto seq(const node_type& v) const -> random_access_container<std::function<value_type(size_type)>> {
-            return random_access_container<std::function<value_type(size_type)>>([&v, this](size_type i) {
+            return random_access_container<std::function<value_type(size_type)>>([v, this](size_type i) {
                 node_type vv = v;
                 while (!is_leaf(vv)) {
                     auto vs = expand(vv);
diff --git a/include/sdsl/wt_pc.hpp b/include/sdsl/wt_pc.hpp
index 9d8fb13..0b56a84 100644
--- a/include/sdsl/wt_pc.hpp
+++ b/include/sdsl/wt_pc.hpp
@@ -689,7 +689,7 @@ class wt_pc
 
         //! Random access container to sequence of node v
         auto seq(const node_type& v) const -> random_access_container<std::function<value_type(size_type)>> {
-            return random_access_container<std::function<value_type(size_type)>>([&v, this](size_type i)
+            return random_access_container<std::function<value_type(size_type)>>([v, this](size_type i)
             {
                 node_type vv = v;
                 while (!is_leaf(vv)) {
-- 
2.43.0


From ec49dc3fafd946569ea000aa95f85f8484ee9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 25/81] hook: SDSL_VERIF_BUFFER caps the buffer of
 int_vector_buffer

Off by default.
---
 include/sdsl/int_vector_buffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index c15d285..f27f932 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -264,6 +264,9 @@ class int_vector_buffer
         {
             if (0ULL == buffersize)
                 buffersize = 8;
+#ifdef SDSL_VERIF_BUFFER // verification hook: cap the buffer, so that small inputs cross block borders
+            buffersize = std::min(buffersize, (uint64_t)SDSL_VERIF_BUFFER);
+#endif
             write_block();
             if (0==(buffersize*8)%width()) {
                 m_buffersize = buffersize*8/width(); // m_buffersize might not be multiple of 8, but m_buffersize*width() is.
-- 
2.43.0


From 35479a937b4c6c83968733fe2c2657b81afa0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 26/81] fix: insert_lcp_values closes the old LCP file before
 it is replaced

---
 lib/construct_lcp_helper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..71febf7 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -39,7 +39,8 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
             ++calc_idx;
         }
     }
-    // Close file and replace old file with new one
+    // Close files and replace old file with new one
+    lcp_buffer.close();
     out_buf.close();
     sdsl::rename(tmp_lcp_file, lcp_file);
 }
-- 
2.43.0


From c17abba28a61cdeb384ff5e66217eabde99baa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 27/81] fix: construct_lcp_bwt_based does not divide by zero if
 all values are known when the array is written

---
 lib/construct_lcp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 9a8cb21..a95d2de 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -819,7 +819,10 @@ void construct_lcp_bwt_based(cache_config& config)
             lcp_value_offset = lcp_value_max-1;
             size_type remaining_lcp_values = index_done.size()-ds_rank_support.rank(index_done.size());
 
-            uint8_t int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
+            uint8_t int_width_new = bits::hi(n-1)+1;
+            if (remaining_lcp_values > 0) { // there may be no values left
+                int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)int_width_new);
+            }
             lcp_value_max = lcp_value_offset + (1ULL<<int_width_new);
 #ifdef STUDY_INFORMATIONS
             std::cout << "# l=" << remaining_lcp_values << " b=" << (int)int_width_new << " lcp_value_max=" << lcp_value_max << std::endl;
-- 
2.43.0


From 659c112d289df8562b1702f971042e41a845c85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 28/81] fix: insert_lcp_values keeps the size of the LCP array
 if trailing values are unknown

---
 lib/construct_lcp_helper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 71febf7..b713b7c 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -35,6 +35,8 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
                 // Insert value
                 out_buf[i] = partial_lcp[calc_idx]+lcp_value_offset;
                 index_done[i] = true;
+            } else { // Value is calculated later; keep its place
+                out_buf[i] = 0;
             }
             ++calc_idx;
         }
-- 
2.43.0


From 1de093814c9679dd589a13539440ae805261ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 29/81] fix: construct_lcp_go and construct_lcp_goPHI handle
 texts with all 256 characters

---
 lib/construct_lcp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index a95d2de..eb39d46 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -122,7 +122,7 @@ void construct_lcp_go(cache_config& config)
     size_type prev_occ_in_bwt[256] = {0};  // position of the previous occurrence of each character c in the bwt
     for (size_type i=0; i<256; ++i) prev_occ_in_bwt[i] = (size_type)-1; // initialize the array with -1
     unsigned char alphabet[257] = {0};
-    uint8_t sigma = 0;
+    uint16_t sigma = 0; // up to 256 characters
 
     tLI m_list[2][256];
     size_type m_char_count[2] = {0};
@@ -433,7 +433,7 @@ void construct_lcp_goPHI(cache_config& config)
     size_type prev_occ_in_bwt[256] = {0};  // position of the previous occurrence of each character c in the bwt
     for (size_type i=0; i<256; ++i) prev_occ_in_bwt[i] = (size_type)-1; // initialize the array with -1
     unsigned char alphabet[257] = {0};
-    uint8_t sigma = 0;
+    uint16_t sigma = 0; // up to 256 characters
 
     size_type nn = 0; // n' for phase 2
     // phase 1: calculate lcp_sml;  memory consumption: 2n bytes (lcp_sml=n bytes, text=n bytes)
-- 
2.43.0


From 087410b5ba21ade35c622913b012de3083c1169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 30/81] fix: qsufsort sorts texts with symbols of 2^62 and
 above

---
 include/sdsl/qsufsort.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/sdsl/qsufsort.hpp b/include/sdsl/qsufsort.hpp
index e49def9..db5e0d8 100644
--- a/include/sdsl/qsufsort.hpp
+++ b/include/sdsl/qsufsort.hpp
@@ -39,6 +39,8 @@
 #define DBG_OUT if(0)std::cout
 
 #include <sdsl/int_vector.hpp>
+#include <algorithm>
+#include <vector>
 
 namespace sdsl
 {
@@ -444,6 +446,21 @@ class sorter
                 return;
             }
 
+            if (x.width() > 62) { // symbols which do not fit into the signed arithmetic are replaced by their ranks
+                std::vector<uint64_t> symbols(1, 0);
+                for (size_type i=0; i < x.size(); ++i) {
+                    symbols.push_back(x[i]);
+                }
+                std::sort(symbols.begin(), symbols.end());
+                symbols.erase(std::unique(symbols.begin(), symbols.end()), symbols.end());
+                if ((symbols.back()>>62) > 0) {
+                    for (size_type i=0; i < x.size(); ++i) {
+                        x[i] = std::lower_bound(symbols.begin(), symbols.end(), (uint64_t)x[i]) - symbols.begin();
+                    }
+                    util::bit_compress(x);
+                }
+            }
+
             int64_t max_symbol = 0, min_symbol = x.width() < 64 ? bits::lo_set[x.width()] : 0x7FFFFFFFFFFFFFFFLL;
 
             for (size_type i=0; i < x.size()-1; ++i) {
-- 
2.43.0


From 08cdd0c5e96f102ce1eefeaa25fedae7d9529df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 31/81] fix: traverse_csa_saisa::empty does not call itself

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..c94fb6c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
-- 
2.43.0


From 3237e9974a7a26b6917981244309a9bdbdbdcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 32/81] fix: select on the BWT of csa_wt calls select_bwt

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c94fb6c..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From 0b7bf26f9adb9cf83fab1f4bc3caa5dbb00126df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:53 +0000
Subject: [PATCH 33/81] fix: sa_bwt_sampling returns the stored suffix array
 value

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From efd35f9d71a1a0830be3de1f1329cef0344002f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 34/81] fix: isa of csa_sada handles ISA samples cyclically to
 the left

---
 include/sdsl/suffix_array_helper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c44765c..52ed774 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -561,7 +561,11 @@ class isa_of_csa_psi
             // get the rightmost sampled isa value to the left of i
             auto sample = m_csa.isa_sample.sample_leq(i);
             value_type result = std::get<0>(sample);
-            i = i - std::get<1>(sample);
+            if (std::get<1>(sample) > i) { // sample lies cyclically to the left of i
+                i = i + m_csa.size() - std::get<1>(sample);
+            } else {
+                i = i - std::get<1>(sample);
+            }
             while (i--) {
                 result = m_csa.psi[result];
             }
-- 
2.43.0


From 6666a16f2e851f023339991514ec414d57fb0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:25 +0000
Subject: [PATCH 35/81] fix: members of default constructed wt_gmr and
 wt_gmr_rs are initialised

---
 include/sdsl/wt_gmr.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..759f013 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -63,7 +63,7 @@ class inv_multi_perm_support
     private:
 
         const iv_type*  m_perm = nullptr;// pointer to supported permutation
-        uint64_t        m_chunksize;     // size of one permutation
+        uint64_t        m_chunksize = 0; // size of one permutation
         int_vector<>    m_back_pointer;  // back pointers
         bit_vector_type m_marked;        // back pointer marking
         rank_type       m_marked_rank;   // rank support for back pointer marking
@@ -321,9 +321,9 @@ class wt_gmr_rs
         t_rac m_e;
         t_select m_bv_blocks_select1;
         t_select_zero m_bv_blocks_select0;
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_block_size = 0; // size of the blocks
-        uint64_t m_blocks; // blocks per character
+        uint64_t m_blocks = 0; // blocks per character
         uint64_t m_sigma = 0;
 
     public:
@@ -661,10 +661,10 @@ class wt_gmr
         t_select m_bv_blocks_select1, m_bv_chunks_select1;
         t_select_zero m_bv_blocks_select0, m_bv_chunks_select0;
 
-        uint64_t m_size; // input length
+        uint64_t m_size = 0; // input length
         uint64_t m_max_symbol = 0; // maximum character + 1
-        uint64_t m_chunks; // number of chunks
-        uint64_t m_chunksize;
+        uint64_t m_chunks = 0; // number of chunks
+        uint64_t m_chunksize = 0;
         uint64_t m_sigma = 0;
 
     public:
-- 
2.43.0


From 071f526ca948a98087ef240866c2613aa37e38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 36/81] fix: locate on a suffix tree returns the requested
 container type

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index d4f23f1..60e72ae 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -152,7 +152,7 @@ t_rac locate(
     SDSL_UNUSED typename std::enable_if<std::is_same<cst_tag, typename t_cst::index_category>::value, cst_tag>::type x = cst_tag()
 )
 {
-    return locate(cst.csa, begin, end);
+    return locate<typename t_cst::csa_type, t_pat_iter, t_rac>(cst.csa, begin, end);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of a CST.
-- 
2.43.0


From e996e5c6d82cefbf488662457463e526403889b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 37/81] fix: forward_search converts pattern symbols to the
 character type

---
 include/sdsl/suffix_array_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 02b4be4..3035388 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -73,7 +73,7 @@ forward_search(
     auto compare = [&](typename t_csa::size_type i) -> int {
         for (auto current = begin; current != end; current++)
         {
-            auto index = csa.char2comp[*current];
+            auto index = csa.char2comp[(typename t_csa::char_type)*current];
             if (index == 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
-- 
2.43.0


From 9e09d0d6faa2a5bda2ca0bd96c160e749f8835f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:55 +0000
Subject: [PATCH 38/81] fix: extract of a suffix tree node returns the length

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 60e72ae..02f6b74 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -181,7 +181,7 @@ typename t_cst::size_type extract(
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
     // then call the extract method on the compressed suffix array
-    extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
+    return extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of of c CST.
-- 
2.43.0


From 9e012689b53d67d6ef39ef8abc6ffb39990c3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:22 +0000
Subject: [PATCH 39/81] fix: extract of the root of a suffix tree returns the
 empty string

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 02f6b74..1ab83f9 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -203,7 +203,7 @@ extract(
 {
     typedef typename t_cst::csa_type::string_type t_rac;
     if (v==cst.root()) {
-        return t_rac(0);
+        return t_rac();
     }
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
-- 
2.43.0


From 5709c52f83db0d0b73df48d84c74cf58eb18e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 40/81] fix: child of cst_fully takes char_pos as in the other
 suffix trees, so that forward_search works

---
 include/sdsl/cst_fully.hpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..319829c 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -684,15 +684,37 @@ class cst_fully
                  where \f$ m \f$ is the number of leaves in the subtree rooted at node v.
          */
         node_type child(node_type v, char_type c) const
+        {
+            if (is_leaf(v)) {
+                return root();
+            }
+            return child_at_depth(v, c, depth(v));
+        }
+
+//! Get the child w of node v which edge label (v,w) starts with character c.
+        /*!
+         * \param v        A node v.
+         * \param c        First character of the edge label from v to the desired child.
+         * \param char_pos Reference which will hold the position (0-based) of
+         *                 the matching char c in the sorted text/suffix array.
+         * \return The child node w which edge label (v,w) starts with c or root() if it does not exist.
+         */
+        node_type child(node_type v, char_type c, size_type& char_pos) const
         {
             if (is_leaf(v)) {
                 return root();
             }
             size_type d = depth(v);
-            return child(v, c, d);
+            node_type res = child_at_depth(v, c, d);
+            if (res != root()) {
+                char_pos = get_char_pos(res.first, d, m_csa);
+            }
+            return res;
         }
 
-        node_type child(node_type v, char_type c, size_type d) const
+    private:
+        // child(v, c) for a node v of depth d
+        node_type child_at_depth(node_type v, char_type c, size_type d) const
         {
             leaf_type lower;
             leaf_type upper;
@@ -740,6 +762,7 @@ class cst_fully
             return node_type(lower, upper - 1);
         }
 
+    public:
 //! Get the i-th child of a node v.
         /*!
          * \param v A valid tree node of the cst.
@@ -755,14 +778,14 @@ class cst_fully
             size_type d = depth(v);
             size_type char_pos = get_char_pos(v.first, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            node_type res = child(v, c, d);
+            node_type res = child_at_depth(v, c, d);
             while (i > 1) {
                 if (res.second >= v.second) {
                     return root();
                 }
                 char_pos = get_char_pos(res.second + 1, d, m_csa);
                 c = m_csa.F[char_pos];
-                res = child(v, c, d);
+                res = child_at_depth(v, c, d);
                 i--;
             }
 
@@ -783,12 +806,12 @@ class cst_fully
                 size_type d = depth(v);
                 size_type char_pos = get_char_pos(v.first, d, m_csa);
                 char_type c = m_csa.F[char_pos];
-                node_type v_i = child(v, c, d);
+                node_type v_i = child_at_depth(v, c, d);
                 while (v_i.second < v.second) {
                     ++res;
                     char_pos = get_char_pos(v_i.second + 1, d, m_csa);
                     c = m_csa.F[char_pos];
-                    v_i = child(v, c, d);
+                    v_i = child_at_depth(v, c, d);
                 }
                 return res;
             }
@@ -819,7 +842,7 @@ class cst_fully
             size_type d = depth(p);
             size_type char_pos = get_char_pos(v.second + 1, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            return child(p, c, d);
+            return child_at_depth(p, c, d);
         }
 
         char_type edge(node_type v, size_type d) const
-- 
2.43.0


From 958c6b498ad11594cfb605b3b573b4565c158019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 41/81] fix: the LCP array of cst_fully can be iterated

---
 include/sdsl/cst_fully.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 319829c..e44fa73 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -26,6 +26,7 @@ class lcp_fully
     public:
         typedef typename t_cst::size_type               size_type;
         typedef size_type                               value_type;
+        typedef ptrdiff_t                               difference_type;
         typedef random_access_const_iterator<lcp_fully> const_iterator;
         typedef const_iterator                          iterator;
 
-- 
2.43.0


From 6be398df4496f356048cf904b48c25d5a0b164f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 42/81] fix: lcp_byte can be constructed stand-alone

---
 include/sdsl/lcp_byte.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/lcp_byte.hpp b/include/sdsl/lcp_byte.hpp
index 7cca84b..6549eab 100644
--- a/include/sdsl/lcp_byte.hpp
+++ b/include/sdsl/lcp_byte.hpp
@@ -63,6 +63,7 @@ class lcp_byte
         typedef ptrdiff_t                                difference_type;
 
         typedef lcp_plain_tag                            lcp_category;
+        typedef lcp_tag                                  index_category;
         typedef lcp_tag                                  index_tag;
 
         enum { fast_access = 0,
-- 
2.43.0


From dfbcbd1f87303239ec145a5eb4cc84660f4fe46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 43/81] fix: Hk does not access the inverse suffix array out of
 range if k is larger than the text

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index 1ab83f9..cebe0a9 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -248,7 +248,7 @@ std::pair<double,size_t> Hk(const t_cst& cst, typename t_cst::size_type k)
     double hk = 0;
     size_t context = 0;
     std::set<typename t_cst::size_type> leafs_with_d_smaller_k;
-    for (typename t_cst::size_type d = 1; d < k; ++d) {
+    for (typename t_cst::size_type d = 1; d < k and d <= cst.size(); ++d) {
         leafs_with_d_smaller_k.insert(cst.csa.isa[cst.csa.size()-d]);
     }
     for (typename t_cst::const_iterator it = cst.begin(), end=cst.end(); it != end; ++it) {
-- 
2.43.0


From 5611099c1707a418be9f6363c469a551378574e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 44/81] fix: lca of cst_sada handles a node and its descendant

---
 include/sdsl/cst_sada.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..a19e16c 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -719,6 +719,8 @@ class cst_sada
             }
             if (v == root())
                 return root();
+            if (m_bp_support.find_close(v) > w) // v is an ancestor of w
+                return v;
             return m_bp_support.double_enclose(v, w);
         }
 
-- 
2.43.0


From 884bf2300153347b15ad338cfc54d7578a0aeecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 45/81] fix: wl of cst_fully returns the root if the Weiner
 link does not exist

---
 include/sdsl/cst_fully.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index e44fa73..9d7b1ab 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -635,7 +635,9 @@ class cst_fully
         {
             size_type l, r;
             std::tie(l, r) = v;
-            backward_search(m_csa, l, r, c, l, r);
+            if (backward_search(m_csa, l, r, c, l, r) == 0) {
+                return root();
+            }
             return node_type(l, r);
         }
 
-- 
2.43.0


From 238aa152dadf16576ebc4e17842421b86231834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 46/81] fix: depth of cst_fully does not write behind the end
 of an empty vector

---
 include/sdsl/cst_fully.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 9d7b1ab..740b4e4 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -501,8 +501,7 @@ class cst_fully
 
             size_type i;
             sampled_node_type u;
-            std::vector<char_type> c;
-            c.reserve(delta);
+            std::vector<char_type> c(delta, 0);
             return depth_lca(v.first, v.second, i, u, c);
         }
 
-- 
2.43.0


From 1544c34d1d82f7c5574f62e26d8d2eb9cbaa6962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 47/81] fix: copies of a depth-first suffix tree iterator own
 their stack

---
 include/sdsl/cst_iterators.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..e4c39bc 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -21,6 +21,9 @@
 #ifndef INCLUDED_SDSL_CST_ITERATORS
 #define INCLUDED_SDSL_CST_ITERATORS
 
+#include <algorithm>
+#include <utility>
+
 namespace sdsl
 {
 
@@ -77,12 +80,12 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Default constructor
-        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr)
+        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr), m_stack_size(0)
         {}
     public:
 
         //! Constructor
-        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr) {
+        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr), m_stack_size(0) {
             m_cst = cst;
             m_v = node;
             if (m_cst == nullptr) {
@@ -95,8 +98,23 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         }
 
         //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
+        cst_dfs_const_forward_iterator(const iterator& it):m_cst(it.m_cst), m_v(it.m_v), m_visited(it.m_visited), m_valid(it.m_valid), m_stack_cache(nullptr), m_stack_size(it.m_stack_size) {
+            if (it.m_stack_cache != nullptr) {
+                m_stack_cache = new node_type[cache_size];
+                std::copy(it.m_stack_cache, it.m_stack_cache+cache_size, m_stack_cache);
+            }
+        }
+
+        //! Assignment Operator
+        iterator& operator=(iterator it) {
+            std::swap(m_cst, it.m_cst);
+            std::swap(m_v, it.m_v);
+            std::swap(m_visited, it.m_visited);
+            std::swap(m_valid, it.m_valid);
+            std::swap(m_stack_cache, it.m_stack_cache);
+            std::swap(m_stack_size, it.m_stack_size);
+            return *this;
+        }
 
         ~cst_dfs_const_forward_iterator() {
             if (m_stack_cache != nullptr) {
-- 
2.43.0


From 6d55859b5402104dae5327995e38e3a3256178fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 48/81] fix: level_anc of bp_support_sada for the first
 parenthesis

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 655679c..dfae58b 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -270,7 +270,7 @@ class bp_support_sada
         {
             size_type j;
             if (i == 0) {
-                return rel == 0 ? -1 : size();
+                return excess(i)+rel == 0 ? -1 : size();
             }
             // (1) search the small block for the answer
             if ((j = near_bwd_excess(*m_bp, i-1, rel, t_sml_blk)) < i or j == (size_type)-1) {
-- 
2.43.0


From 823cf7510410cbe7fbe24c4b8a64e632f0ee41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 49/81] fix: near_bwd_excess with block sizes which are no
 multiple of 8

---
 lib/bp_support_algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bp_support_algorithm.cpp b/lib/bp_support_algorithm.cpp
index 40a9a0c..e45ce26 100644
--- a/lib/bp_support_algorithm.cpp
+++ b/lib/bp_support_algorithm.cpp
@@ -281,7 +281,7 @@ near_bwd_excess(const bit_vector& bp, uint64_t i, bit_vector::difference_type re
         excess += excess::data.word_sum[((*(b+(j>>6)))>>(j&0x3F))&0xFF];
     }
     excess -= 8;
-    for (difference_type j=std::min(l, r); j > begin; --j) {
+    for (difference_type j=std::min(l, r)-1; j >= begin; --j) {
         if (bp[j])
             ++excess;
         else
-- 
2.43.0


From fbc149360fb3fa2de14792a6c9a94567025110c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 50/81] fix: bwd_excess of bp_support_sada inspects the first
 small block if medium blocks contain one small block

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index dfae58b..1c2ae23 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -331,7 +331,7 @@ class bp_support_sada
                 }
                 --sml_block_idx;
             }
-            if (sml_block_idx == 0 and desired_excess == 0)
+            if (sml_block_idx == (size_type)-1 and desired_excess == 0)
                 return -1;
             return size();
         }
-- 
2.43.0


From 0f1375f1c318466c75f3301c19545ced640507ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 51/81] fix: rmq of bp_support_g returns a position with
 minimal excess

---
 include/sdsl/bp_support_g.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/bp_support_g.hpp b/include/sdsl/bp_support_g.hpp
index 567a371..7b6a32f 100644
--- a/include/sdsl/bp_support_g.hpp
+++ b/include/sdsl/bp_support_g.hpp
@@ -441,7 +441,7 @@ class bp_support_g
 //                assert( l>1 ); // mi is at greater or equal than 1
                 // note: mi and r are not in the same block
                 size_type        k, ex;    // helper variables
-                size_type         min_ex = excess(r);// + 2*((*m_bp[r])==0); // minimal excess
+                size_type         min_ex = excess(r) + 2*((*m_bp)[r]==0); // minimal excess
                 const size_type bl = (l/t_bs+1)*t_bs;  // leftmost position of the leftmost block between the blocks of l and r
                 const size_type br = (r/t_bs)*t_bs;       // leftmost position of the block of r
 
@@ -543,16 +543,13 @@ class bp_support_g
         size_type rmq(size_type l, size_type r)const {
             assert(l<=r);
             size_type m = rmq_open(l, r+1);
-            if (m==l)
+            if (m==size())
+                return r;
+            else if (m==l)
                 return l;
             else { // m>l and m<=r
                 assert(0 == (*m_bp)[m-1]);
-                size_type prev_open = m_rank_bp(m);
-                if (prev_open == 0 or m_select_bp(prev_open) < l) { // if there exists no opening parenthesis to the left of m which is greater or equal than l
-                    return l;
-                } else {
-                    return m-1;
-                }
+                return m-1;
             }
         }
 
-- 
2.43.0


From f1b050d71fe2c97719f4f6d6603a10d50a76fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 52/81] fix: rmq_support_sparse_table over two elements does
 not access an empty table

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..8c8bf1f 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 833ad8870113ac3094a35a15d33090b4ccc11c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 53/81] fix: k2_treap of the single point (0,0) has one level,
 as root() needs it

---
 include/sdsl/k2_treap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..10fca4d 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -95,7 +95,7 @@ class k2_treap
                 return tupmax(a) < tupmax(b);
             });
             uint64_t x = tupmax(*max_it);
-            uint8_t res = 0;
+            uint8_t res = 1; // root() needs at least one level
             while (precomp<t_k>::exp(res) <= x) { ++res; }
             return res;
         }
-- 
2.43.0


From b5f3768bd2ebd0e98dc1f38f0d3942b7a8d39ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 54/81] fix: k2_treap keeps the point (0,0,0) if the grid size
 does not fit into the coordinate type

---
 include/sdsl/k2_treap.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 10fca4d..496909d 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -240,6 +240,12 @@ class k2_treap
             using t_e = std::tuple<t_x, t_y, t_w>;
             m_t = get_t(v);
             uint64_t M = precomp<t_k>::exp(t);
+            if ((uint64_t)(t_x)M != M or (uint64_t)(t_y)M != M) {
+                // M marks processed points and has to be larger than each coordinate
+                std::vector<std::tuple<uint64_t, uint64_t, t_w>> wide_v(v.begin(), v.end());
+                construct(wide_v, temp_file_prefix);
+                return;
+            }
             t_e MM = t_e(M,M,M);
 
             std::string id_part = util::to_string(util::pid())
-- 
2.43.0


From 9aae042c09c2afa11f4786e7ddfba796242a70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 55/81] fix: k2_tree::range on a relation without edges read
 outside of the tree

---
 include/sdsl/k2_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..77b17a1 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -519,6 +519,8 @@ class k2_tree
 			idx_type col1, idx_type col2
 		) const {
 			std::vector<std::pair<idx_type,idx_type>> res;
+			if (k_l.size() == 0 && k_t.size() == 0)
+				return res;
 
 			size_type n = static_cast<size_type>(std::pow(k_k, k_height)) / k_k;
 			struct state{
-- 
2.43.0


From 5c42d397bcbe351fc45905861d8409e3888fee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 56/81] fix: copying a k2_tree or a k2_treap recursed endlessly

---
 include/sdsl/k2_treap.hpp | 2 +-
 include/sdsl/k2_tree.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 496909d..3f7f57a 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 77b17a1..6595c83 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -381,7 +381,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
-- 
2.43.0


From 1f394f1a914bf534be285be2a8bc21c2934ebad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 57/81] fix: members of a default-constructed k2_tree were not
 initialised

---
 include/sdsl/k2_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index 6595c83..ec2dcba 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -63,8 +63,8 @@ class k2_tree
 
         t_rank      k_t_rank;
 
-        uint8_t     k_k;
-        uint16_t    k_height;
+        uint8_t     k_k = k;
+        uint16_t    k_height = 0;
 
     protected:
 
-- 
2.43.0


From 0c312606684486c7effa099732e7626b5876e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 58/81] fix: a copied louds_node referred to the members of its
 source

---
 include/sdsl/louds_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..62d69de 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,14 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
-- 
2.43.0


From c07e92d9a2a15a64ef97578d26c438fc7f77a2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 59/81] fix: louds_tree::swap and louds_tree::serialize did not
 compile

---
 include/sdsl/louds_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 62d69de..b06475e 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -187,16 +187,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From e88767adb8a2c3aa1297c9f26ed954ebd28f56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 60/81] fix: uint256_t shifted left by 0 duplicated its low
 half into the high half

---
 include/sdsl/uint256_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/uint256_t.hpp b/include/sdsl/uint256_t.hpp
index e1fd69b..07e9b59 100644
--- a/include/sdsl/uint256_t.hpp
+++ b/include/sdsl/uint256_t.hpp
@@ -157,7 +157,7 @@ class uint256_t
             if (x < 128) {
                 uint128_t high = m_high << x;
                 uint128_t low  = (((uint128_t)m_mid<<64) | m_lo);
-                high |= (low >> (128-x));
+                high |= ((low >> (127-x)) >> 1);
                 low = low << x;
                 return uint256_t(low, low>>64, high);
             } else { // x >= 128
-- 
2.43.0


From 309c77643f4bf4a4bca9126cec1e84f857a01577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 61/81] fix: hugepage_allocator granted requests of about 2^63
 bytes and more

---
 include/sdsl/memory_management.hpp |  1 +
 lib/memory_management.cpp          | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 71023d5..80720cf 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -229,6 +229,7 @@ class hugepage_allocator
         size_t determine_available_hugepage_memory();
         void coalesce_block(mm_block_t* block);
         void split_block(mm_block_t* bptr, size_t size);
+        void check_request(size_t size);
         uint8_t* hsbrk(size_t size);
         mm_block_t* new_block(size_t size);
         void remove_from_free_set(mm_block_t* block);
diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..2db587b 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -343,6 +343,16 @@ hugepage_allocator::split_block(mm_block_t* bptr,size_t size)
 }
 
 
+void
+hugepage_allocator::check_request(size_t size)
+{
+    // also prevents that the calculation of the block size overflows
+    if (size > m_total_size) {
+        throw std::system_error(ENOMEM,std::system_category(),
+                                "hugepage_allocator: request exceeds hugepage memory");
+    }
+}
+
 uint8_t*
 hugepage_allocator::hsbrk(size_t size)
 {
@@ -450,6 +460,7 @@ void*
 hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
+    check_request(size_in_bytes);
     mm_block_t* bptr = nullptr;
     if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
@@ -506,6 +517,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
         mm_free(ptr);
         return nullptr;
     }
+    check_request(size);
     mm_block_t* bptr = block_cur(ptr);
 
     bool need_malloc = 0;
-- 
2.43.0


From ca5ac43525feb65a10ecf3e4b2ec3a40e517a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 62/81] fix: hugepage_allocator overwrote block footers if a
 request was no multiple of 8 bytes

---
 lib/memory_management.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 2db587b..1d6c3c8 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -461,6 +461,7 @@ hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
     check_request(size_in_bytes);
+    size_in_bytes = ALIGN(size_in_bytes);
     mm_block_t* bptr = nullptr;
     if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
@@ -518,6 +519,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
         return nullptr;
     }
     check_request(size);
+    size = ALIGN(size);
     mm_block_t* bptr = block_cur(ptr);
 
     bool need_malloc = 0;
-- 
2.43.0


From d42afa5dbe8dc3e2d68a1b7466f4d1f569b5e2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 63/81] fix: hugepage_allocator::mm_realloc kept all of the
 free neighbour it grew into

---
 lib/memory_management.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 1d6c3c8..6cc1cd4 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -558,6 +558,8 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
                     remove_from_free_set(next);
                     /* add the size of our block */
                     block_update(bptr,UNMASK_SIZE(bptr->size)+UNMASK_SIZE(next->size));
+                    /* give back what is not needed */
+                    split_block(bptr,size);
                 } else {
                     /* the next block is not enough. we allocate a new one instead */
                     need_malloc = true;
@@ -574,6 +576,8 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
                         block_markused(prev);
                         /* move the data into the previous block */
                         ptr = memmove(block_data(prev),ptr,blockdatasize);
+                        /* give back what is not needed */
+                        split_block(prev,size);
                     } else {
                         /* not enough in the prev block */
                         need_malloc = true;
-- 
2.43.0


From f0728fbb81e6dec2f9288b29304306db902fce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 64/81] fix: hugepage_allocator::mm_realloc read behind the
 block it moves

---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6cc1cd4..bf37ba9 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -592,7 +592,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize);
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From c74d9f54bb01b45a6bcc659482566c0951eedeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:29 +0000
Subject: [PATCH 65/81] fix: memory_monitor: an event that ended after stop()
 or a new start() accessed an empty stack

---
 include/sdsl/memory_management.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 80720cf..4cb5113 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -74,6 +74,7 @@ class memory_monitor
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    created = m.start_log;
                     m.event_stack.emplace(name, usage);
                 }
             }
@@ -82,6 +83,10 @@ class memory_monitor
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
+                    // nothing to do, if the monitor was stopped or started anew in the meantime
+                    if (m.event_stack.empty() or created != m.start_log) {
+                        return;
+                    }
                     auto& cur = m.event_stack.top();
                     auto cur_time = timer::now();
                     cur.allocations.emplace_back(cur_time, m.current_usage);
-- 
2.43.0


From b35275070160e8c50b7b562726d397b2bb593c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:56 +0000
Subject: [PATCH 66/81] fix: memory_monitor::event read the current usage
 without the lock

---
 include/sdsl/memory_management.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 4cb5113..fe1d3f9 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -69,13 +69,13 @@ class memory_monitor
         struct mm_event_proxy {
             bool add;
             timer::time_point created;
-            mm_event_proxy(const std::string& name, int64_t usage, bool a) : add(a)
+            mm_event_proxy(const std::string& name, bool a) : add(a)
             {
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
                     created = m.start_log;
-                    m.event_stack.emplace(name, usage);
+                    m.event_stack.emplace(name, m.current_usage);
                 }
             }
             ~mm_event_proxy()
@@ -197,9 +197,9 @@ class memory_monitor
         {
             auto& m = the_monitor();
             if (m.track_usage) {
-                return mm_event_proxy(name, m.current_usage, true);
+                return mm_event_proxy(name, true);
             }
-            return mm_event_proxy(name, m.current_usage, false);
+            return mm_event_proxy(name, false);
         }
         template<format_type F>
         static void write_memory_log(std::ostream& out)
-- 
2.43.0


From eda6c84491aefbd69d1e51c5b2bef25e3a00c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 67/81] fix: memory_monitor: events were told apart by the
 start time of their session

---
 include/sdsl/memory_management.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index fe1d3f9..91fbe97 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -69,12 +69,13 @@ class memory_monitor
         struct mm_event_proxy {
             bool add;
             timer::time_point created;
+            uint64_t session = 0; // the monitoring session the event belongs to
             mm_event_proxy(const std::string& name, bool a) : add(a)
             {
                 if (add) {
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
-                    created = m.start_log;
+                    session = m.session;
                     m.event_stack.emplace(name, m.current_usage);
                 }
             }
@@ -84,7 +85,7 @@ class memory_monitor
                     auto& m = the_monitor();
                     std::lock_guard<util::spin_lock> lock(m.spinlock);
                     // nothing to do, if the monitor was stopped or started anew in the meantime
-                    if (m.event_stack.empty() or created != m.start_log) {
+                    if (m.event_stack.empty() or session != m.session) {
                         return;
                     }
                     auto& cur = m.event_stack.top();
@@ -108,6 +109,7 @@ class memory_monitor
         bool track_usage = false;
         std::vector<mm_event> completed_events;
         std::stack<mm_event> event_stack;
+        uint64_t session = 0; // number of calls of start()
         timer::time_point start_log;
         timer::time_point last_event;
         util::spin_lock spinlock;
@@ -159,6 +161,7 @@ class memory_monitor
             while (m.event_stack.size()) {
                 m.event_stack.pop();
             }
+            ++m.session;
             m.start_log = timer::now();
             m.current_usage = 0;
             m.last_event = m.start_log;
-- 
2.43.0


From b96533e35c481ff5058325e0bd0c3726e8f69dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:49 +0000
Subject: [PATCH 68/81] fix: util::id handed out the same id to concurrent
 threads

---
 include/sdsl/util.hpp | 2 +-
 lib/util.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index f1261ac..bc623e0 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -237,7 +237,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index bdda981..8845f48 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From a594435e8c960ae8ff0a16b55a2112b27f57ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 69/81] fix: make the move constructors of
 succinct_byte_alphabet and int_alphabet compile

---
 include/sdsl/csa_alphabet_strategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From f174cc00bf9f6f7634f5d221cec0a7ac813f20a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:00 +0000
Subject: [PATCH 70/81] fix: let a copied wt_gmr use its own permutation

---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index 759f013..cd3fe72 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 4f3d5f9f3a59b56eeb28e640590c3466d11538da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:05 +0000
Subject: [PATCH 71/81] fix: re-bind the ISA samples after moving a csa_wt or
 csa_sada

---
 include/sdsl/csa_sada.hpp | 1 +
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..d576922 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -263,6 +263,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
                 m_psi_buf    = std::move(csa.m_psi_buf);
             }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From ec57e6c99be8ecbe51fdedc6bcaf50d783730230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 72/81] fix: report a failed write from the functions that
 store to files (C32)

---
 include/sdsl/io.hpp | 23 ++++++++++++++++++++++-
 lib/io.cpp          | 13 ++++++++-----
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..52ea08b 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -272,7 +272,8 @@ bool store_to_plain_array(t_int_vec& v, const std::string& file)
             int_type x = v[i];
             out.write((char*)&x, sizeof(int_type));
         }
-        return true;
+        out.close();
+        return !out.fail();
     } else {
         return false;
     }
@@ -664,6 +665,12 @@ bool store_to_file(const T& t, const std::string& file)
     }
     serialize(t,out);
     out.close();
+    if (out.fail()) {
+        if (util::verbose) {
+            std::cerr<<"ERROR: store_to_file: could not write `"<<file<<"`"<<std::endl;
+        }
+        return false;
+    }
     if (util::verbose) {
         std::cerr<<"INFO: store_to_file: `"<<file<<"`"<<std::endl;
     }
@@ -683,6 +690,12 @@ bool store_to_checked_file(const T& t, const std::string& file)
     }
     add_hash(t, out);
     out.close();
+    if (out.fail()) {
+        if (util::verbose) {
+            std::cerr<<"ERROR: store_to_checked_file: could not write `"<<checkfile<<"`"<<std::endl;
+        }
+        return false;
+    }
     return store_to_file(t, file);
 }
 
@@ -704,6 +717,10 @@ bool store_to_file(const int_vector<t_width>& v, const std::string& file, bool w
     }
     v.serialize(out, nullptr, "", write_fixed_as_variable);
     out.close();
+    if (out.fail()) {
+        std::cerr<<"ERROR: util::store_to_file:: Could not write file `"<<file<<"`"<<std::endl;
+        return false;
+    }
     return true;
 }
 
@@ -722,6 +739,10 @@ bool store_to_checked_file(const int_vector<t_width>& v, const std::string& file
     }
     add_hash(v, out);
     out.close();
+    if (out.fail()) {
+        std::cerr<<"ERROR: util::store_to_checked_file: Could not write check file `"<<checkfile<<"`"<<std::endl;
+        return false;
+    }
     return store_to_file(v, file, write_fixed_as_variable);
 }
 
diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..e5b4157 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,13 +13,13 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
     out.close();
-    return true;
+    return !out.fail();
 }
 
 bool store_to_file(const std::string& v, const std::string& file)
@@ -28,12 +28,12 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
-    return true;
+    return !out.fail();
 }
 
 
@@ -44,11 +44,14 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
+    if (out.fail()) {
+        return false;
+    }
     return store_to_file(v, file);
 }
 
-- 
2.43.0


From 2d6594c6ac97b34ac9aa0c704d88eb9522cf6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 73/81] fix: decode psi values of csa_sada::rank_bwt into a
 local buffer (C36)

The shared mutable buffer made concurrent const queries race.
---
 include/sdsl/csa_sada.hpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index d576922..f045f62 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -34,6 +34,7 @@
 #include <cstring> // for strlen
 #include <iomanip>
 #include <iterator>
+#include <memory>
 
 namespace sdsl
 {
@@ -117,8 +118,6 @@ class csa_sada
         isa_sample_type m_isa_sample; // inverse suffix array samples
         alphabet_type   m_alphabet;   // alphabet component
 
-        mutable std::vector<uint64_t> m_psi_buf; // buffer for decoded psi values
-
         void copy(const csa_sada& csa)
         {
             m_psi        = csa.m_psi;
@@ -128,13 +127,6 @@ class csa_sada
             m_alphabet   = csa.m_alphabet;
         };
 
-        void create_buffer()
-        {
-            if (enc_vector_type::sample_dens < linear_decode_limit) {
-                m_psi_buf = std::vector<uint64_t>(enc_vector_type::sample_dens+1);
-            }
-        }
-
     public:
         const typename alphabet_type::char2comp_type& char2comp  = m_alphabet.char2comp;
         const typename alphabet_type::comp2char_type& comp2char  = m_alphabet.comp2char;
@@ -154,7 +146,6 @@ class csa_sada
         //! Default Constructor
         csa_sada()
         {
-            create_buffer();
         }
         //! Default Destructor
         ~csa_sada() { }
@@ -162,7 +153,6 @@ class csa_sada
         //! Copy constructor
         csa_sada(const csa_sada& csa)
         {
-            create_buffer();
             copy(csa);
         }
 
@@ -265,7 +255,6 @@ class csa_sada
                 m_isa_sample = std::move(csa.m_isa_sample);
                 m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
-                m_psi_buf    = std::move(csa.m_psi_buf);
             }
             return *this;
         }
@@ -324,24 +313,26 @@ class csa_sada
 // TODO: don't use get_inter_sampled_values if t_dens is really
 //       large
                 lower_b = lower_sb*sd;
-                if (0 == m_psi_buf.size()) {
+                if (enc_vector_type::sample_dens >= linear_decode_limit) {
                     upper_b = std::min(upper_sb*sd, C[cc+1]);
                     goto finish;
                 }
-                uint64_t* p = m_psi_buf.data();
+                // buffer for the decoded psi values; local, as queries may run concurrently
+                std::unique_ptr<uint64_t[]> psi_buf(new uint64_t[sd+1]);
+                uint64_t* p = psi_buf.get();
                 // extract the psi values between two samples
                 m_psi.get_inter_sampled_values(lower_sb, p);
-                p = m_psi_buf.data();
+                p = psi_buf.get();
                 uint64_t smpl = m_psi.sample(lower_sb);
                 // handle border cases
                 if (lower_b + m_psi.get_sample_dens() >= C[cc+1])
-                    m_psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
+                    psi_buf[ C[cc+1]-lower_b ] = size()-smpl;
                 else
-                    m_psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
+                    psi_buf[ m_psi.get_sample_dens() ] = size()-smpl;
                 // search the result linear
                 while ((*p++)+smpl < i);
 
-                return p-1-m_psi_buf.data() + lower_b - C[cc];
+                return p-1-psi_buf.get() + lower_b - C[cc];
             } else { // lower_b == (m_C[cc]+sd-1)/sd and lower_sb < upper_sb
                 if (m_psi.sample(lower_sb) >= i) {
                     lower_b = C[cc];
@@ -395,7 +386,6 @@ finish:
 template<class t_enc_vec, uint32_t t_dens, uint32_t t_inv_dens, class t_sa_sample_strat, class t_isa, class t_alphabet_strat>
 csa_sada<t_enc_vec, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat>::csa_sada(cache_config& config)
 {
-    create_buffer();
     if (!cache_file_exists(key_trait<alphabet_type::int_width>::KEY_BWT, config)) {
         return;
     }
-- 
2.43.0


From fd9028b42a17b5371e8133d432d5e7db1b12b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 74/81] fix: book the size of a written string on its own
 structure tree node (C12)

---
 lib/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index e5b4157..c960921 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -64,7 +64,7 @@ size_t write_member<std::string>(const std::string& t, std::ostream& out, struct
     written_bytes += write_member(t.size(), out, child, "length");
     out.write(t.c_str(), t.size());
     written_bytes += t.size();
-    structure_tree::add_size(v, written_bytes);
+    structure_tree::add_size(child, written_bytes);
     return written_bytes;
 }
 
-- 
2.43.0


From b529be292ca46b3c4ed780da36ff5a9989559d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 75/81] fix: refuse a truncated check file in
 load_from_checked_file (C37)

The hash value was compared although it had not been read.
---
 include/sdsl/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 52ea08b..1d86038 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -774,9 +774,9 @@ bool load_from_checked_file(T& v, const std::string& file)
         }
         return false;
     }
-    uint64_t hash_value;
+    uint64_t hash_value = 0;
     read_member(hash_value, in);
-    if (hash_value != util::hashvalue_of_classname(v)) {
+    if (in.fail() or hash_value != util::hashvalue_of_classname(v)) {
         if (util::verbose) {
             std::cerr << "File `" << file << "` is not an instance of the class `" << sdsl::util::demangle2(typeid(T).name()) << "`" << std::endl;
         }
-- 
2.43.0


From 29b8d1cf3963a075ed48a3da9105dfa0da60c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 76/81] fix: refuse missing files and files of a wrong length
 in construct and load_vector_from_file (C37)

---
 include/sdsl/construct.hpp | 22 +++++++++++++++++++---
 include/sdsl/io.hpp        |  5 ++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index f6ab84b..82b4b30 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -44,6 +44,15 @@ bool contains_no_zero_symbol(const int_vector& text, const std::string& file)
     return true;
 }
 
+//! Loads the input of a construction; throws if the file does not exist.
+template<class int_vector>
+void load_text(int_vector& text, const std::string& file, uint8_t num_bytes)
+{
+    if (!load_vector_from_file(text, file, num_bytes)) {
+        throw std::ios_base::failure(std::string("construct: Cannot load file \"")+file+"\".");
+    }
+}
+
 template<class int_vector>
 void append_zero_symbol(int_vector& text)
 {
@@ -97,12 +106,19 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
     auto event = memory_monitor::event("construct wavelet tree");
     if ((t_index::alphabet_category::WIDTH==8 and num_bytes <= 1)
         or (t_index::alphabet_category::WIDTH==0 and num_bytes != 'd')) {
+        if (!isfstream(file, std::ios::in | std::ios::binary)) {
+            throw std::ios_base::failure(std::string("construct: Cannot load file \"")+file+"\".");
+        }
+        if (num_bytes > 0 and util::file_size(file) % num_bytes != 0) {
+            throw std::logic_error("file size "+util::to_string(util::file_size(file))+" of \""+ file
+                                   +"\" is not a multiple of "+util::to_string(num_bytes));
+        }
         int_vector_buffer<t_index::alphabet_category::WIDTH> text_buf(file, std::ios::in, 1024*1024, num_bytes*8, (bool)num_bytes);
         t_index tmp(text_buf, text_buf.size());
         idx.swap(tmp);
     } else {
         int_vector<t_index::alphabet_category::WIDTH> text;
-        load_vector_from_file(text, file, num_bytes);
+        load_text(text, file, num_bytes);
         std::string tmp_key = util::to_string(util::pid())+"_"+util::to_string(util::id());
         std::string tmp_file_name = cache_file_name(tmp_key, config);
         store_to_file(text, tmp_file_name);
@@ -129,7 +145,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         // (1) check, if the text is cached
         if (!cache_file_exists(KEY_TEXT, config)) {
             text_type text;
-            load_vector_from_file(text, file, num_bytes);
+            load_text(text, file, num_bytes);
             if (contains_no_zero_symbol(text, file)) {
                 append_zero_symbol(text);
                 store_to_cache(text,KEY_TEXT, config);
@@ -181,7 +197,7 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
                 // (1) check, if the text is cached
                 if (!cache_file_exists(KEY_TEXT, config)) {
                     text_type text;
-                    load_vector_from_file(text, file, num_bytes);
+                    load_text(text, file, num_bytes);
                     if (contains_no_zero_symbol(text, file)) {
                         append_zero_symbol(text);
                         store_to_cache(text,KEY_TEXT, config);
diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 1d86038..232a8d5 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -196,6 +196,10 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
             return true;
         }
     } else {
+        isfstream in(file, std::ios::in | std::ios::binary);
+        if (!in) {
+            return false;
+        }
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
             v.resize(0);
@@ -206,7 +210,6 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
                                    +"\" is not a multiple of "+util::to_string(num_bytes));
             return false;
         }
-        isfstream in(file, std::ios::in | std::ios::binary);
         if (in) {
             v.width(std::min((int)8*num_bytes, (int)max_int_width));
             v.resize(file_size / num_bytes);
-- 
2.43.0


From f796f55290ef6c2ab6b045f1e32c2a3233d08e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 77/81] fix: remove the RAM file of construct_im when the
 construction throws (C37)

---
 include/sdsl/construct.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index 82b4b30..960d4f4 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -77,7 +77,12 @@ void construct_im(t_index& idx, t_data data, uint8_t num_bytes=0)
 {
     std::string tmp_file = ram_file_name(util::to_string(util::pid())+"_"+util::to_string(util::id()));
     store_to_file(data, tmp_file);
-    construct(idx, tmp_file, num_bytes);
+    try {
+        construct(idx, tmp_file, num_bytes);
+    } catch (...) {
+        ram_fs::remove(tmp_file);
+        throw;
+    }
     ram_fs::remove(tmp_file);
 }
 
-- 
2.43.0


From f1c54f844d9a8eedd457cca252c5d29e3d100e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:59 +0000
Subject: [PATCH 78/81] fix: keep the RAM prefix in util::dirname (C31)

tmp_file() for a RAM-file in a sub directory named a file on disk.
---
 lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index 8845f48..baaa1c6 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -71,7 +71,7 @@ std::string dirname(std::string file)
     if (ram_file) {
         if ("." == res) {
             res = ram_file_name("");
-        } else if ("/" ==res) {
+        } else {
             res = ram_file_name(res);
         }
     }
-- 
2.43.0


From cb129eacb158bffdd0844535cd184d08fa2e86aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:59 +0000
Subject: [PATCH 79/81] fix: seeking on a closed RAM file fails instead of
 crashing (C31)

---
 lib/ram_filebuf.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index fac8aca..d2a522e 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -79,7 +79,7 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
-    if (sp < (pos_type)0) {
+    if (!is_open() or sp < (pos_type)0) {
         return pos_type(off_type(-1));
     }
     if (m_append) {
@@ -108,6 +108,9 @@ ram_filebuf::pos_type
 ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
                         std::ios_base::openmode which)
 {
+    if (!is_open()) {
+        return pos_type(off_type(-1));
+    }
     if (std::ios_base::beg == way) {
         if (seekpos(off, which) == pos_type(-1)) {
             return pos_type(-1);
-- 
2.43.0


From 0042f281ec4acfe7a1c47663dc0a0e0995deff10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:27 +0000
Subject: [PATCH 80/81] fix: cst construction with the CSA cached and the SA
 missing (C31)

---
 include/sdsl/construct.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/sdsl/construct.hpp b/include/sdsl/construct.hpp
index 960d4f4..32bb326 100644
--- a/include/sdsl/construct.hpp
+++ b/include/sdsl/construct.hpp
@@ -277,6 +277,20 @@ void construct(t_index& idx, const std::string& file, cache_config& config, uint
         register_cache_file(KEY_BWT, config);
         register_cache_file(conf::KEY_SA, config);
         if (!cache_file_exists(conf::KEY_LCP, config)) {
+            // the text and the suffix array are missing if just the CSA was cached
+            if (!cache_file_exists(KEY_TEXT, config)) {
+                int_vector<t_index::alphabet_category::WIDTH> text;
+                load_text(text, file, num_bytes);
+                if (contains_no_zero_symbol(text, file)) {
+                    append_zero_symbol(text);
+                    store_to_cache(text,KEY_TEXT, config);
+                }
+                register_cache_file(KEY_TEXT, config);
+            }
+            if (!cache_file_exists(conf::KEY_SA, config)) {
+                construct_sa<t_index::alphabet_category::WIDTH>(config);
+                register_cache_file(conf::KEY_SA, config);
+            }
             if (t_index::alphabet_category::WIDTH==8) {
                 construct_lcp_semi_extern_PHI(config);
             } else {
-- 
2.43.0


From e2b49d8c4d56a54824ae88a5ab304838649263f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 81/81] fix: lcp_support_sada construction with the SA missing
 in the cache (C31)

---
 include/sdsl/lcp_support_sada.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/lcp_support_sada.hpp b/include/sdsl/lcp_support_sada.hpp
index 99958b5..1bce92c 100644
--- a/include/sdsl/lcp_support_sada.hpp
+++ b/include/sdsl/lcp_support_sada.hpp
@@ -119,7 +119,17 @@ class _lcp_support_sada
             typedef typename t_csa::size_type size_type;
             set_csa(f_csa);
             if (!cache_file_exists(conf::KEY_ISA, config)) {
-                construct_isa(config);
+                if (cache_file_exists(conf::KEY_SA, config)) {
+                    construct_isa(config);
+                } else { // the CSA and the LCP array were cached, but not the SA
+                    t_csa csa; // m_csa is not loaded yet
+                    load_from_cache(csa, std::string(conf::KEY_CSA)+"_"+util::class_to_hash(csa), config);
+                    int_vector<> isa(csa.size(), 0, bits::hi(csa.size())+1);
+                    for (size_type i=0; i < isa.size(); ++i) {
+                        isa[csa[i]] = i;
+                    }
+                    store_to_cache(isa, conf::KEY_ISA, config);
+                }
             }
             int_vector<> lcp;
             load_from_file(lcp, cache_file_name(conf::KEY_LCP, config));
-- 
2.43.0


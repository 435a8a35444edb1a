From 46126eae93c18d3008e9174709ba9a1638fbeb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 01/18] fix: bit_vector::get_bits shifted by 64 for 64-bit
 fields (undefined)

---
 bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 452ea79..1c8e6c9 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -255,7 +255,7 @@ namespace succinct {
             }
             uint64_t block = pos / 64;
             uint64_t shift = pos % 64;
-            uint64_t mask = -(len == 64) | ((1ULL << len) - 1);
+            uint64_t mask = uint64_t(-1) >> (64 - len); // len is in [1, 64]
             if (shift + len <= 64) {
                 return m_bits[block] >> shift & mask;
             } else {
-- 
2.43.0


From d9766b0d68a74e00bd32d047af9e134fb6013ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 02/18] fix: bp_vector find_close/find_open shifted by 64 at
 word boundaries (undefined)

---
 bp_vector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 79df0f4..866ca36 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -175,7 +175,7 @@ namespace succinct {
         uint64_t shift = (pos + 1) % 64;
         uint64_t shifted_word = m_bits[word_pos] >> shift;
         // Pad with "open"
-        uint64_t padded_word = shifted_word | (-!!shift & (~0ULL << (64 - shift)));
+        uint64_t padded_word = shift ? (shifted_word | (~0ULL << (64 - shift))) : shifted_word;
         uint64_t byte_counts = broadword::byte_counts(padded_word);
 
         excess_t word_exc = 1;
@@ -236,7 +236,7 @@ namespace succinct {
         uint64_t word_pos = (pos / 64);
         uint64_t len = pos % 64;
         // Rest is padded with "close"
-        uint64_t shifted_word = -!!len & (m_bits[word_pos] << (64 - len));
+        uint64_t shifted_word = len ? (m_bits[word_pos] << (64 - len)) : 0;
         uint64_t byte_counts = broadword::byte_counts(shifted_word);
 
         excess_t word_exc = 1;
-- 
2.43.0


From 6cd03e0e0c6b5ea2b8edd4980b317fa328417cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 03/18] fix: bit_vector::enumerator::take(64) left consumed
 bits in its buffer

---
 bit_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 1c8e6c9..50e3830 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -383,6 +383,7 @@ namespace succinct {
                     m_buf >>= l;
                 } else {
                     val = m_buf;
+                    m_buf = 0;
                 }
                 m_avail -= l;
                 m_pos += l;
-- 
2.43.0


From 60196d7c6de064ebba8a7a3365e63758c30425b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 04/18] fix: bit_vector_builder::reserve left the current word
 pointer dangling

---
 bit_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 50e3830..5a554a2 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -39,6 +39,9 @@ namespace succinct {
 
         void reserve(uint64_t size) {
             m_bits.reserve(detail::words_for(size));
+            if (m_size) {
+                m_cur_word = &m_bits.back();
+            }
         }
 
         inline void push_back(bool b) {
-- 
2.43.0


From cfe463b0a8da32557dcc0a56f8f5023ca0a80846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 05/18] fix: fast_getline repeated the last line when it has no
 newline

---
 util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c8c079f..c2ffcdb 100644
--- a/util.hpp
+++ b/util.hpp
@@ -34,7 +34,7 @@ namespace succinct { namespace util {
                 if (!line.size()) {
                     return false;
                 } else {
-                    done = true;
+                    break;
                 }
             }
             line += buffer;
-- 
2.43.0


From b392f0e62ff6e2bb07b840cc03d19f15cc244c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 06/18] fix: line_iterator yielded an empty line before the
 first one

---
 util.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util.hpp b/util.hpp
index c2ffcdb..99a601d 100644
--- a/util.hpp
+++ b/util.hpp
@@ -57,12 +57,17 @@ namespace succinct { namespace util {
     public:
         line_iterator()
             : m_file(0)
+            , m_trim_newline(false)
         {}
 
         explicit line_iterator(FILE* input, bool trim_newline = false)
             : m_file(input)
             , m_trim_newline(trim_newline)
-        {}
+        {
+            if (m_file) {
+                increment(); // read the first line
+            }
+        }
 
     private:
         friend class boost::iterator_core_access;
-- 
2.43.0


From 69b3a30064287db1e04bdcac4ba70764e866f68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 07/18] fix: int2nat/nat2int overflowed for large magnitudes

---
 util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index 99a601d..5f14fd4 100644
--- a/util.hpp
+++ b/util.hpp
@@ -252,16 +252,16 @@ namespace succinct { namespace util {
     inline uint64_t int2nat(int64_t x)
     {
         if (x < 0) {
-            return uint64_t(-2 * x - 1);
+            return 2 * ~uint64_t(x) + 1;
         } else {
-            return uint64_t(2 * x);
+            return 2 * uint64_t(x);
         }
     }
 
     inline int64_t nat2int(uint64_t n)
     {
         if (n % 2) {
-            return -int64_t((n + 1) / 2);
+            return -int64_t(n / 2) - 1;
         } else {
             return int64_t(n / 2);
         }
-- 
2.43.0


From 99fb6d46a1710ab38d2b72a8c0e8101aea51dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 08/18] fix: mappable_vector::assign freed its elements before
 copying a range that may alias them

---
 mappable_vector.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index 0c1c9a7..bd8fda8 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -82,7 +82,6 @@ namespace succinct { namespace mapper {
 
         template <typename Range>
         void assign(Range const& from) {
-            clear();
             mappable_vector(from).swap(*this);
         }
 
-- 
2.43.0


From 9992d6f9a36bc148fac0dc11503990b4f67ee15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 09/18] fix: mappable_vector::steal was left with a size but no
 data if its allocation failed

---
 mappable_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mappable_vector.hpp b/mappable_vector.hpp
index bd8fda8..10d16ef 100644
--- a/mappable_vector.hpp
+++ b/mappable_vector.hpp
@@ -71,12 +71,12 @@ namespace succinct { namespace mapper {
 
         void steal(std::vector<T>& vec) {
             clear();
-            m_size = vec.size();
-            if (m_size) {
+            if (vec.size()) {
                 std::vector<T>* new_vec = new std::vector<T>;
                 new_vec->swap(vec);
                 m_deleter = boost::lambda::bind(boost::lambda::delete_ptr(), new_vec);
                 m_data = &(*new_vec)[0];
+                m_size = new_vec->size();
             }
         }
 
-- 
2.43.0


From 67e44bf9ec398b6b83bb760018804cfdf4d13481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 10/18] fix: empty bp_vector and elias_fano froze uninitialized
 members

---
 bp_vector.hpp  | 2 ++
 elias_fano.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bp_vector.hpp b/bp_vector.hpp
index 55e35fb..9a76ff6 100644
--- a/bp_vector.hpp
+++ b/bp_vector.hpp
@@ -14,6 +14,7 @@ namespace succinct {
     public:
         bp_vector()
             : rs_bit_vector()
+            , m_internal_nodes(0)
         {}
 
         template <class Range>
@@ -21,6 +22,7 @@ namespace succinct {
                   bool with_select_hints = false,
                   bool with_select0_hints = false)
             : rs_bit_vector(from, with_select_hints, with_select0_hints)
+            , m_internal_nodes(0)
         {
             build_min_tree();
         }
diff --git a/elias_fano.hpp b/elias_fano.hpp
index 4991fcc..6c0ef69 100644
--- a/elias_fano.hpp
+++ b/elias_fano.hpp
@@ -9,6 +9,7 @@ namespace succinct {
     public:
         elias_fano()
             : m_size(0)
+            , m_l(0)
         {}
 
         struct elias_fano_builder {
-- 
2.43.0


From e0fa2a45a0e0feec346f91039c61d3b643f5827f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 11/18] fix: compressed lists overflowed on the maximum of
 32-bit value types

---
 elias_fano_compressed_list.hpp | 4 ++--
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 51d1848..3067baf 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -20,7 +20,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                s += broadword::msb(*iter + 1);
+                s += broadword::msb(value_type(*iter) + 1);
                 n += 1;
             }
 
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                size_t val = *iter + 1;
+                size_t val = value_type(*iter) + 1;
                 size_t l = broadword::msb(val);
                 bits_builder.append_bits(val ^ (uint64_t(1) << l), l);
                 ef_builder.push_back(bits_builder.size());
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 89d5fb6..037beff 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -31,7 +31,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(vals);
                  iter != boost::end(vals);
                  ++iter) {
-                const uint64_t val = *iter + 2; // increment the second bit
+                const uint64_t val = uint64_t(*iter) + 2; // increment the second bit
 
                 uint8_t l = broadword::msb(val);
 
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 9da8114..8a460f1 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -26,7 +26,7 @@ namespace succinct {
             for (iterator_t iter = boost::begin(ints);
                  iter != boost::end(ints);
                  ++iter) {
-                const value_type val = *iter + 1;
+                const value_type val = value_type(*iter) + 1;
 
                 uint8_t l = broadword::msb(val);
 
-- 
2.43.0


From 9a2811eb518c9922b8802877b1205220a2cb51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 12/18] fix: default-constructed structures reported size -1 or
 read before null

---
 cartesian_tree.hpp             | 2 +-
 elias_fano_compressed_list.hpp | 2 +-
 elias_fano_list.hpp            | 2 +-
 gamma_bit_vector.hpp           | 2 +-
 gamma_vector.hpp               | 2 +-
 rs_bit_vector.hpp              | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cartesian_tree.hpp b/cartesian_tree.hpp
index 8d62142..4d82910 100644
--- a/cartesian_tree.hpp
+++ b/cartesian_tree.hpp
@@ -143,7 +143,7 @@ namespace succinct {
 
         uint64_t size() const
         {
-            return m_bp.size() / 2 - 1;
+            return m_bp.size() ? m_bp.size() / 2 - 1 : 0;
         }
 
         template <typename Visitor>
diff --git a/elias_fano_compressed_list.hpp b/elias_fano_compressed_list.hpp
index 3067baf..9812c3c 100644
--- a/elias_fano_compressed_list.hpp
+++ b/elias_fano_compressed_list.hpp
@@ -49,7 +49,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_ef.num_ones() - 1;
+            return m_ef.num_ones() ? m_ef.num_ones() - 1 : 0;
         }
 
         void swap(elias_fano_compressed_list& other)
diff --git a/elias_fano_list.hpp b/elias_fano_list.hpp
index e8191c8..cd7a110 100644
--- a/elias_fano_list.hpp
+++ b/elias_fano_list.hpp
@@ -46,7 +46,7 @@ namespace succinct {
         }
 
         size_t sum() const {
-            return m_ef.size() - 1;
+            return m_ef.size() ? m_ef.size() - 1 : 0;
         }
 
         void swap(elias_fano_list& other)
diff --git a/gamma_bit_vector.hpp b/gamma_bit_vector.hpp
index 037beff..64c72f4 100644
--- a/gamma_bit_vector.hpp
+++ b/gamma_bit_vector.hpp
@@ -53,7 +53,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_bit_vector& other)
diff --git a/gamma_vector.hpp b/gamma_vector.hpp
index 8a460f1..0101271 100644
--- a/gamma_vector.hpp
+++ b/gamma_vector.hpp
@@ -47,7 +47,7 @@ namespace succinct {
 
         size_t size() const
         {
-            return m_high_bits.num_ones() - 1;
+            return m_high_bits.num_ones() ? m_high_bits.num_ones() - 1 : 0;
         }
 
         void swap(gamma_vector& other)
diff --git a/rs_bit_vector.hpp b/rs_bit_vector.hpp
index 1197ffb..4b78443 100644
--- a/rs_bit_vector.hpp
+++ b/rs_bit_vector.hpp
@@ -41,7 +41,7 @@ namespace succinct {
         }
 
         inline uint64_t num_ones() const {
-            return *(m_block_rank_pairs.end() - 2);
+            return m_block_rank_pairs.size() ? *(m_block_rank_pairs.end() - 2) : 0;
         }
 
         inline uint64_t num_zeros() const {
-- 
2.43.0


From 460294243e942707d0821a4a91ba9a0a388083c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 13/18] fix: freeze to a file name silently succeeded when
 opening or writing failed

---
 mapper.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mapper.hpp b/mapper.hpp
index 381e199..d39fcac 100644
--- a/mapper.hpp
+++ b/mapper.hpp
@@ -2,6 +2,8 @@
 
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 
 #include <boost/make_shared.hpp>
 #include <boost/utility/enable_if.hpp>
@@ -243,7 +245,15 @@ namespace succinct { namespace mapper {
     size_t freeze(T& val, const char* filename, uint64_t flags = 0, const char* friendly_name = "<TOP>")
     {
         std::ofstream fout(filename, std::ios::binary);
-        return freeze(val, fout, flags, friendly_name);
+        if (!fout) {
+            throw std::runtime_error(std::string("Unable to open file '") + filename + "'.");
+        }
+        size_t written = freeze(val, fout, flags, friendly_name);
+        fout.close();
+        if (!fout) {
+            throw std::runtime_error(std::string("Error writing file '") + filename + "'.");
+        }
+        return written;
     }
 
     template <typename T>
-- 
2.43.0


From d6cd16fe97791ebc62b7e62a0d4a1dce04f2f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 14/18] fix: bit_vector::get_word56 read through a misaligned
 pointer

---
 bit_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bit_vector.hpp b/bit_vector.hpp
index 5a554a2..2e49e49 100644
--- a/bit_vector.hpp
+++ b/bit_vector.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstring>
 #include <vector>
 
 #include <boost/range.hpp>
@@ -284,7 +285,9 @@ namespace succinct {
         {
             // XXX check endianness?
             const char* ptr = reinterpret_cast<const char*>(m_bits.data());
-            return *(reinterpret_cast<uint64_t const*>(ptr + pos / 8)) >> (pos % 8);
+            uint64_t word;
+            std::memcpy(&word, ptr + pos / 8, sizeof(word)); // may be misaligned
+            return word >> (pos % 8);
         }
 
         inline uint64_t predecessor0(uint64_t pos) const {
-- 
2.43.0


From 749cc390827809f08383a71c28a34e96589a3db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 15/18] fix: map read scalar fields through misaligned pointers

---
 mapper.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mapper.hpp b/mapper.hpp
index d39fcac..b8ceea4 100644
--- a/mapper.hpp
+++ b/mapper.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include <stdexcept>
@@ -106,7 +107,7 @@ namespace succinct { namespace mapper {
                 , m_cur(m_base)
                 , m_flags(flags)
             {
-                m_freeze_flags = *reinterpret_cast<const uint64_t*>(m_cur);
+                std::memcpy(&m_freeze_flags, m_cur, sizeof(m_freeze_flags)); // may be misaligned
                 m_cur += sizeof(m_freeze_flags);
             }
 
@@ -120,7 +121,7 @@ namespace succinct { namespace mapper {
             template <typename T>
             typename boost::enable_if<boost::is_pod<T>, map_visitor&>::type
             operator()(T& val, const char* /* friendly_name */) {
-                val = *reinterpret_cast<const T*>(m_cur);
+                std::memcpy(&val, m_cur, sizeof(T)); // may be misaligned
                 m_cur += sizeof(T);
                 return *this;
             }
-- 
2.43.0


From 80747a0919c2af4443745286e3b5e61688fe9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 16/18] fix: mmap_lines threw on an empty file

---
 util.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/util.hpp b/util.hpp
index 5f14fd4..306ba28 100644
--- a/util.hpp
+++ b/util.hpp
@@ -219,12 +219,20 @@ namespace succinct { namespace util {
         typedef buffer_line_iterator const_iterator;
 
         mmap_lines(std::string filename)
-            : m_map(filename)
-        {}
+        {
+            // an empty file cannot be mapped, but it is a valid text with no lines
+            std::ifstream fin(filename.c_str(), std::ios::binary);
+            bool empty = fin.is_open() && fin.peek() == std::ifstream::traits_type::eof() && !fin.bad();
+            if (!empty) {
+                m_map.open(filename);
+            }
+        }
 
         const_iterator begin() const
         {
-            return const_iterator(m_map.data(), m_map.size());
+            return m_map.is_open()
+                ? const_iterator(m_map.data(), m_map.size())
+                : const_iterator();
         }
 
         const_iterator end() const
-- 
2.43.0


From e219b8ae4899d38cdde2e0e1afeca46dea2645c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:22 +0000
Subject: [PATCH 17/18] fix: uleq_step_8 was wrong for bytes whose high bits
 differ

---
 broadword.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/broadword.hpp b/broadword.hpp
index 7e55e53..98619c6 100644
--- a/broadword.hpp
+++ b/broadword.hpp
@@ -28,7 +28,7 @@ namespace succinct { namespace broadword {
 
     inline uint64_t uleq_step_8(uint64_t x, uint64_t y)
     {
-        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) ^ (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
+        return (((((y | msbs_step_8) - (x & ~msbs_step_8)) | (x ^ y)) ^ (x & ~y)) & msbs_step_8) >> 7;
     }
 
     inline uint64_t zcompare_step_8(uint64_t x)
-- 
2.43.0


From 5e87aa8f028c6040a661761551bb4a890c9f3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:05 +0000
Subject: [PATCH 18/18] fix: bp_vector broke beyond 2^31 parentheses although
 only the depth is limited

---
 bp_vector.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bp_vector.cpp b/bp_vector.cpp
index 866ca36..543683e 100644
--- a/bp_vector.cpp
+++ b/bp_vector.cpp
@@ -72,6 +72,14 @@ namespace succinct {
 
         const static excess_tables tables;
 
+        // an excess larger than any block minimum; the number of
+        // parentheses, unlike the depth, can exceed excess_t
+        inline bp_vector::excess_t past_the_end_excess(uint64_t size)
+        {
+            return static_cast<bp_vector::excess_t>
+                (std::min(size, uint64_t(std::numeric_limits<bp_vector::excess_t>::max())));
+        }
+
         inline bool find_close_in_word(uint64_t word, uint64_t byte_counts, bp_vector::excess_t cur_exc, uint64_t& ret)
         {
             assert(cur_exc > 0 && cur_exc <= 64);
@@ -305,7 +313,7 @@ namespace succinct {
     }
 
     inline bool bp_vector::in_node_range(uint64_t node, excess_t excess) const {
-        assert(m_superblock_excess_min[node] != excess_t(size()));
+        assert(m_superblock_excess_min[node] != past_the_end_excess(size()));
         return excess >= m_superblock_excess_min[node];
     }
 
@@ -677,7 +685,7 @@ namespace succinct {
 
         // Fill in the leaves of the tree
         for (size_t superblock = 0; superblock < n_superblocks; ++superblock) {
-            excess_t cur_super_min = static_cast<excess_t>(size());
+            excess_t cur_super_min = past_the_end_excess(size());
             excess_t superblock_excess = get_block_excess(superblock * superblock_size);
 
             for (size_t block = superblock * superblock_size;
@@ -685,7 +693,7 @@ namespace succinct {
                  ++block) {
                 cur_super_min = std::min(cur_super_min, superblock_excess + block_excess_min[block]);
             }
-            assert(cur_super_min >= 0 && cur_super_min < excess_t(size()));
+            assert(cur_super_min >= 0 && cur_super_min < past_the_end_excess(size()));
 
             superblock_excess_min[m_internal_nodes + superblock] = cur_super_min;
         }
@@ -693,7 +701,7 @@ namespace succinct {
         // fill in the internal nodes with past-the-boundary values
         // (they will also serve as sentinels in debug)
         for (size_t node = 0; node < m_internal_nodes; ++node) {
-            superblock_excess_min[node] = static_cast<excess_t>(size());
+            superblock_excess_min[node] = past_the_end_excess(size());
         }
 
         // Fill bottom-up the other layers: each node updates the parent
-- 
2.43.0


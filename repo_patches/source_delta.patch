From f2db773cfcbfa67234c159d7b8e33dffaf71d595 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:02:39 +0000
Subject: [PATCH 01/27] fix: StaticSort insertion index must not wrap for
 arrays longer than 32767 elements

---
 include/utils/StaticSort.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StaticSort.h b/include/utils/StaticSort.h
index 1825da9..762dfaa 100644
--- a/include/utils/StaticSort.h
+++ b/include/utils/StaticSort.h
@@ -9,7 +9,7 @@ void static_insertion_sort(std::array<T, N> &arr) {
 
     for (unsigned short i = 1; i < N; ++i) {
         T value = arr[i];
-        short hole = i;
+        unsigned short hole = i;
 
         for (; hole > 0 && value < arr[hole - 1]; --hole)
             arr[hole] = arr[hole - 1];
@@ -25,7 +25,7 @@ void static_insertion_sort_with_data(std::array<T, N> &arr, std::array<D, N> &da
     for (unsigned short i = 1; i < N; ++i) {
         T value = arr[i];
         D data = dat[i];
-        short hole = i;
+        unsigned short hole = i;
 
         for (; hole > 0 && value < arr[hole - 1]; --hole) {
             arr[hole] = arr[hole - 1];
-- 
2.43.0


From bd7160cdb23fc0ebf57a5b9c131559260c8e65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 02/27] fix: BlockedArray::at must reject the index equal to
 the capacity

---
 include/datastructures/BlockedArray.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/datastructures/BlockedArray.hxx b/include/datastructures/BlockedArray.hxx
index 0f6b966..0e5bfaf 100644
--- a/include/datastructures/BlockedArray.hxx
+++ b/include/datastructures/BlockedArray.hxx
@@ -41,13 +41,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
@@ -93,13 +93,13 @@ public:
     }
 
     const T& at(const std::size_t idx) const {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
 
     T& at(const std::size_t idx) {
-        if(idx > m_nBlocks * BS)
+        if(idx >= m_nBlocks * BS)
             throw std::out_of_range("index: " + std::to_string(idx) + " size: " + std::to_string(m_nBlocks * BS));
         return m_blocks[idx / BS][idx % BS];
     }
-- 
2.43.0


From 0fa9f80ac5c350167533590c98381ccb25617ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 03/27] fix: number recognisers accept only an optional sign
 before the digits

---
 include/utils/StringUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/StringUtils.h b/include/utils/StringUtils.h
index 1b0d998..824ac0d 100644
--- a/include/utils/StringUtils.h
+++ b/include/utils/StringUtils.h
@@ -7,11 +7,11 @@
 bool is_int(const std::string & s){
     return !s.empty() &&
            ((s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|][0-9]+")));
+           || std::regex_match(s, std::regex("[-+]?[0-9]+")));
 }
 
 bool is_float(const std::string & s){
     return !s.empty() && (
            (s.size() == 1 && std::isdigit(s[0]))
-           || std::regex_match(s, std::regex("[(-|+)|](([1-9][0-9]*\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
+           || std::regex_match(s, std::regex("[-+]?(([0-9]+\\.?[0-9]*)|(\\.[0-9]+))([Ee][+-]?[0-9]+)?")));
 }
\ No newline at end of file
-- 
2.43.0


From d6dc82ee5302bbff33bec37c6227b1b7aa331fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 04/27] fix: equalNeighbors must be true for equal neighbor
 lists

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 13c7c10..7d3b896 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -499,7 +499,7 @@ public:
     bool equalNeighbors(const dSimplex<D, Precision> &a) const {
         PROFILER_INC("dSimplex_equalNeighbors");
 
-        return neighbors != a.neighbors;
+        return neighbors == a.neighbors;
     }
 
     bool operator==(const tIdType a) const { return id == a; }
-- 
2.43.0


From 89b498e8ac32ff110e1f3c463d7b2366e26d39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 05/27] fix: no shift by the word width in the fingerprint
 rotation

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index 7d3b896..da0e0b6 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -659,7 +659,7 @@ private:
     }
 
     inline tHashType _rol(const tHashType x, const uint r) const {
-        return (x << r) | (x >> (sizeof(tHashType) * 8 - r));
+        return (x << r) | (x >> (-r & (sizeof(tHashType) * 8 - 1)));
     }
 
 public:
-- 
2.43.0


From 86b57352b1fa216a40ae45a3f7368c90dd1ebb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 06/27] fix: point statistics must start from the lowest value

---
 include/Partitioner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Partitioner.h b/include/Partitioner.h
index 61e77ec..985893d 100644
--- a/include/Partitioner.h
+++ b/include/Partitioner.h
@@ -79,7 +79,7 @@ struct dPointStats {
         for (uint dim = 0; dim < D; ++dim) {
             min[dim] = std::numeric_limits<Precision>::max();
             mid[dim] = 0;
-            max[dim] = std::numeric_limits<Precision>::min();
+            max[dim] = std::numeric_limits<Precision>::lowest();
         }
     }
 
@@ -122,7 +122,7 @@ dPointStats<D, Precision> getPointStatsSeq(const InputIt &first,
 
     for (uint dim = 0; dim < D; ++dim) {
         stats.min[dim] = std::numeric_limits<Precision>::max();
-        stats.max[dim] = std::numeric_limits<Precision>::min();
+        stats.max[dim] = std::numeric_limits<Precision>::lowest();
 
         for (auto it = first; it != last; ++it) {
 
-- 
2.43.0


From 957daaad59e7e0e21ff5cc7d0334c12aa1a9ae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 07/27] fix: bounds of loaded points must start from the lowest
 value

---
 include/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Geometry.h b/include/Geometry.h
index da0e0b6..6d68d6d 100644
--- a/include/Geometry.h
+++ b/include/Geometry.h
@@ -260,7 +260,7 @@ public:
 
         dBox<D, Precision> bounds;
         bounds.low.fill(std::numeric_limits<Precision>::max());
-        bounds.high.fill(std::numeric_limits<Precision>::min());
+        bounds.high.fill(std::numeric_limits<Precision>::lowest());
 
 #ifndef NDEBUG
         std::size_t lc = 0;
-- 
2.43.0


From 55d8f582c48d36554ef21f22e4ca89e301a24175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 08/27] fix: Bit_Set::filter must keep counting the elements
 outside the filter's range

---
 include/datastructures/Bit_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 2f9dc25..5c5c37d 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -375,10 +375,10 @@ public:
     template<class BitSet>
     void filter(const BitSet &filter) {
 
-        m_ones = 0;
         for (std::size_t i = std::max(m_lowerBound, filter.m_lowerBound);
              i < std::min(m_upperBound, filter.m_upperBound);
              i += cENTRIES) {
+            m_ones -= popcount(m_array[_block(i)]);
             m_array[_block(i)] &= ~filter.m_array[filter._block(i)];
             m_ones += popcount(m_array[_block(i)]);
         }
-- 
2.43.0


From 12acb3688e8236e7319290ad25ba52f09a750f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 09/27] fix: Bit_Set::batchSet must not shift by the word width

---
 include/datastructures/Bit_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/Bit_Set.hxx b/include/datastructures/Bit_Set.hxx
index 5c5c37d..5eb8633 100644
--- a/include/datastructures/Bit_Set.hxx
+++ b/include/datastructures/Bit_Set.hxx
@@ -242,7 +242,7 @@ public:
         //print("middle");
 
         // special case: last block
-        m_array[toBlock] = ((~(tKeyType) 0) >> (cENTRIES - (to % cENTRIES))) &
+        m_array[toBlock] = ((~(tKeyType) 0) >> ((cENTRIES - (to % cENTRIES)) % cENTRIES)) &
                            (toBlock == fromBlock ? m_array[toBlock] : (~(tKeyType) 0));
 
         m_ones = to - from;
-- 
2.43.0


From 41e3ba9d944ae012c82f3bd06fffc327050ccc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 10/27] fix: a growing LP_Set must keep a free slot

With one slot the first insertion filled the table and the lookup of any other
key never returned. For all larger tables the threshold is unchanged.
---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index d096c6d..4a2f2db 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -305,7 +305,7 @@ public:
     bool insert(const K &key) {
         ASSERT(key != 0);
 
-        if (Growing && !m_rehashing && (double) m_items / (double) m_arraySize >= 0.5)
+        if (Growing && !m_rehashing && (double) (m_items + 1) / (double) m_arraySize > 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 11bd6390520b0dd3827887d2bd382f116a5e72d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 11/27] fix: LP_Set::merge with filter must pass on cmp and
 survive empty sets

Own keys were filtered with the opposite meaning for cmp = true; merging two empty
sets left a table without slots.
---
 include/datastructures/LP_Set.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 4a2f2db..6c083a7 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -423,7 +423,7 @@ public:
 
     template<class Set, bool Growing2>
     void merge(LP_Set<K, Growing2> &&other, const Set &filter, const bool cmp = false) {
-        rehash(2*(size() + other.size()), filter);
+        rehash(std::max(std::size_t(1), 2*(size() + other.size())), filter, cmp);
 
         for (std::size_t i = 0; i < other.capacity(); ++i) {
             if (other.m_array[i] != 0 && filter.count(other.m_array[i]) == cmp)
-- 
2.43.0


From 4c1e1b7673ef48523fdc9f944b4b243005c31be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 12/27] fix: LP_Map and LP_MultiMap must grow before they are
 full

The load factor was computed with integer division: the tables grew only when
full, and the lookup of an absent key in a full table never returned.
---
 include/datastructures/LP_Map.hxx      | 2 +-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 8c1d7fd..b7980a8 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -45,7 +45,7 @@ public:
     bool insert(const K &key, const V &value) {
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && (double) (m_items + 1) / (double) m_arraySize > 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index fa9557d..067ad3d 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -131,7 +131,7 @@ public:
 
         ASSERT(key != 0);
 
-        if (!m_rehashing && m_items / m_arraySize >= 0.5)
+        if (!m_rehashing && (double) (m_items + 1) / (double) m_arraySize > 0.5)
             rehash(m_arraySize << 1);
 
         for (K idx = m_hasher(key); ; idx++) {
-- 
2.43.0


From 21734b630fefe14870ac181025cf1aa382fa1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 13/27] fix: LP_Map and LP_MultiMap of size zero must have a
 slot

as LP_Set already does; the first insertion divided by zero
---
 include/datastructures/LP_Map.hxx      | 2 +-
 include/datastructures/LP_MultiMap.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index b7980a8..1bf4fad 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -18,7 +18,7 @@ public:
               m_keys(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
         ALLOCATE(m_arraySize);
     }
 
diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 067ad3d..061fe0f 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -102,7 +102,7 @@ public:
               m_keys(nullptr),
               m_hasher(hasher) {
         // Initialize cells
-        m_arraySize = nextPow2(size);
+        m_arraySize = nextPow2(std::max(std::size_t(1), size));
 
         ALLOCATE(m_arraySize);
     }
-- 
2.43.0


From c61af3283ac3f06d88187720308f17c40dc1ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:24 +0000
Subject: [PATCH 14/27] fix: LP_Map::contains must find keys with value zero

---
 include/datastructures/LP_Map.hxx | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/LP_Map.hxx b/include/datastructures/LP_Map.hxx
index 1bf4fad..2648570 100644
--- a/include/datastructures/LP_Map.hxx
+++ b/include/datastructures/LP_Map.hxx
@@ -91,7 +91,16 @@ public:
     }
 
     bool contains(const K &key) const {
-        return get(key) != 0;
+        ASSERT(key != 0);
+
+        for (K idx = m_hasher(key); ; idx++) {
+            idx &= m_arraySize - 1;
+            K probedKey = m_keys[idx];
+            if (probedKey == key)
+                return true;
+            if (probedKey == 0)
+                return false;
+        }
     }
 
     std::size_t count(const K &key) const {
@@ -346,7 +355,16 @@ public:
     }
 
     bool contains(const K &key) const {
-        return get(key) != 0;
+        ASSERT(key != 0);
+
+        for (K idx = m_hasher(key); ; idx++) {
+            idx &= m_arraySize - 1;
+            K probedKey = m_keys[idx].load();
+            if (probedKey == key)
+                return true;
+            if (probedKey == 0)
+                return false;
+        }
     }
 
     std::size_t count(const K &key) const {
-- 
2.43.0


From 05fc4c83df38ff7982efb5310d663e442b59ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 15/27] fix: LP_MultiMap::get must not return an empty range in
 a table with one free slot

The end of the range was the slot after the free one, which is the first slot of
the range when only one slot is free.
---
 include/datastructures/LP_MultiMap.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/datastructures/LP_MultiMap.hxx b/include/datastructures/LP_MultiMap.hxx
index 061fe0f..bc9b0d9 100644
--- a/include/datastructures/LP_MultiMap.hxx
+++ b/include/datastructures/LP_MultiMap.hxx
@@ -178,13 +178,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
@@ -464,13 +464,13 @@ public:
                     firstIdx &= m_arraySize - 1;
                 }
 
-                ++lastIdx;
-                lastIdx &= m_arraySize - 1;
-
                 if (probedKey == 0 /* implicitly && idx != firstIdx */)
                     // we have found the end of the chain of equal hashes
                     return std::make_pair(const_filtered_iterator(*this, firstIdx, lastIdx, key),
                                           const_filtered_iterator(*this, lastIdx, lastIdx, key));
+
+                ++lastIdx;
+                lastIdx &= m_arraySize - 1;
             }
         }
 
-- 
2.43.0


From ffa46333d6e94611e80cae6a5b79b10984d3a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:45 +0000
Subject: [PATCH 16/27] fix: in-sphere test compares the signs of the
 predicates, their product may underflow

---
 src/lib/Geometry.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 884adfa..8c19538 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -183,7 +183,11 @@ public:
 //
 //        det = alift * bcdet + blift * cadet + clift * abdet;
 
-        return orientation(s0, s1, s2) * Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data()) >= 0;
+        // compare the signs, the product of both values may underflow to zero
+        const Precision o = orientation(s0, s1, s2);
+        const Precision i = Predicates<2, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), p.coords.data());
+
+        return o == 0 || i == 0 || (o > 0) == (i > 0);
     }
 
     static dSphere<2, Precision>
@@ -406,7 +410,11 @@ public:
 //
 //        det = (dlift * abc - clift * dab) + (blift * cda - alift * bcd);
 
-        return orientation(s0, s1, s2, s3) * Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data()) >= 0;
+        // compare the signs, the product of both values may underflow to zero
+        const Precision o = orientation(s0, s1, s2, s3);
+        const Precision i = Predicates<3, Precision>::insphere(s0.coords.data(), s1.coords.data(), s2.coords.data(), s3.coords.data(), p.coords.data());
+
+        return o == 0 || i == 0 || (o > 0) == (i > 0);
     }
 
     static dSphere<3, Precision>
-- 
2.43.0


From ca2f0fece020c552d72da2a2255b7f86ddfcd5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:06 +0000
Subject: [PATCH 17/27] fix: keep free cells when converting a concurrent set,
 lookups of absent keys did not return

---
 include/datastructures/LP_Set.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/LP_Set.hxx b/include/datastructures/LP_Set.hxx
index 6c083a7..a5066f5 100644
--- a/include/datastructures/LP_Set.hxx
+++ b/include/datastructures/LP_Set.hxx
@@ -792,7 +792,13 @@ LP_Set<K, Growing>::LP_Set(Concurrent_LP_Set<K, Growing2> &&other)
         : m_arraySize(other.m_arraySize),
           m_items(other.m_items),
           m_array(reinterpret_cast<K *>(other.m_array.release())),
-          m_hasher(std::move(other.m_hasher)) { }
+          m_hasher(std::move(other.m_hasher)) {
+
+    // a fixed-size concurrent table may be completely filled, but probing for
+    // an absent key only ends at a free cell
+    if ((double) m_items / (double) m_arraySize > 0.5)
+        rehash(m_arraySize << 1);
+}
 
 template<typename K, bool Growing> template<bool Growing2>
 Concurrent_LP_Set<K, Growing>::Concurrent_LP_Set(LP_Set<K, Growing2> &&other)
-- 
2.43.0


From 2940e49cd10d8f63c29adb384fd5d891923968d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:06 +0000
Subject: [PATCH 18/27] fix: extend partitioner accepts coinciding points

---
 src/lib/Partitioner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Partitioner.cpp b/src/lib/Partitioner.cpp
index b2d07f9..6087b92 100644
--- a/src/lib/Partitioner.cpp
+++ b/src/lib/Partitioner.cpp
@@ -200,7 +200,7 @@ ExtendPartitioner<D, Precision>::partition(const dPointStats<D, Precision> &stat
 
     // determine most vast dimension
     Precision maxExtend = 0;
-    int maxDim = -1;
+    int maxDim = 0; // all points may coincide, then any dimension will do
 
     for (uint d = 0; d < D; ++d) {
         if (stats.max[d] - stats.min[d] > maxExtend) {
-- 
2.43.0


From a3e01b22b5dbac32c79b04c855ac10e8af567d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:08 +0000
Subject: [PATCH 19/27] fix: run comparison ignores whether an ignored trait is
 present

---
 src/utils/Timings.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index 5066629..b0f83bf 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -76,9 +76,6 @@ ExperimentRun::tMeasurement ExperimentRun::avgMeasurement(const std::string &nam
 
 bool ExperimentRun::operator==(const ExperimentRun &o) const {
 
-    if (m_traits.size() != o.m_traits.size())
-        return false;
-
     bool eq = true;
     for (const auto &t : m_traits) {
 
@@ -93,6 +90,16 @@ bool ExperimentRun::operator==(const ExperimentRun &o) const {
             eq = false;
     }
 
+    for (const auto &t : o.m_traits) {
+
+        if (std::find(c_ignored_fields.begin(), c_ignored_fields.end(), t.first) != c_ignored_fields.end())
+            //trait is ignored field
+            continue;
+
+        if (m_traits.count(t.first) == 0)
+            // this object does not contain the trait
+            return false;
+    }
 
     return eq;
 
-- 
2.43.0


From 9dc60629eab1d352387bf99ffe915423038b0a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:37 +0000
Subject: [PATCH 20/27] fix: a run record with an empty trait value did not
 survive writing and reading

---
 src/utils/Timings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Timings.cpp b/src/utils/Timings.cpp
index b0f83bf..5fe4e93 100644
--- a/src/utils/Timings.cpp
+++ b/src/utils/Timings.cpp
@@ -25,7 +25,8 @@ ExperimentRun::ExperimentRun(const std::string &run, std::string _traitSep, std:
 
     while (currPos < run.length()) {
         innerSep = run.find(_innerSep, currPos);
-        traitSep = run.find(_traitSep, currPos);
+        //the value may be empty: its end is searched for behind the inner separator, not across it
+        traitSep = run.find(_traitSep, innerSep != std::string::npos ? innerSep + _innerSep.length() : currPos);
 
         //we have the last trait in the string
         traitSep = traitSep != std::string::npos ? traitSep : run.length() + 1;
-- 
2.43.0


From 88c5c3951fe8e6b4f2db2c25c580be61daeea464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:15 +0000
Subject: [PATCH 21/27] fix: the box tree covers the cells that start at its
 upper bound

---
 include/datastructures/AABBTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/datastructures/AABBTree.h b/include/datastructures/AABBTree.h
index 32adbc7..e9abe08 100644
--- a/include/datastructures/AABBTree.h
+++ b/include/datastructures/AABBTree.h
@@ -246,10 +246,10 @@ private:
 
     static dBox<D, Precision> round(dBox<D, Precision> bounds, const Precision cell_size) {
 
-        // round bounds to cell size
+        // round bounds to cell size, the cell that starts at the upper bound belongs to the tree as well
         for(uint d = 0; d < D; ++d){
             bounds.low[d] = std::floor(bounds.low[d] / cell_size) * cell_size;
-            bounds.high[d] = std::ceil(bounds.high[d] / cell_size) * cell_size;
+            bounds.high[d] = (std::floor(bounds.high[d] / cell_size) + 1) * cell_size;
         }
 
         return bounds;
-- 
2.43.0


From 84f858404590170cd814d9648f006b9636ab4950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:26 +0000
Subject: [PATCH 22/27] fix: bubble and skew line generators set every point
 for every number of points

---
 include/utils/Generator.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/utils/Generator.h b/include/utils/Generator.h
index b71252d..2a5fe8c 100644
--- a/include/utils/Generator.h
+++ b/include/utils/Generator.h
@@ -149,7 +149,6 @@ protected:
             }
         }
 
-        tIdType ppB = n / bubbles.size(); // points per bubble
         for(uint b = 0; b < bubbles.size(); ++b) {
             const auto & bubble = bubbles[b];
 
@@ -161,7 +160,8 @@ protected:
                 span[d] -= bubble.low[d];
             }
 
-            for (tIdType i = b*ppB + 1; i <= (b+1)*ppB; ++i) {
+            // points per bubble, the remainder is spread over the bubbles
+            for (tIdType i = b*n / bubbles.size() + 1; i <= (b+1)*n / bubbles.size(); ++i) {
                 dPoint<D, Precision> p;
 
                 do {
@@ -274,7 +274,7 @@ protected:
         // a is skewed
         // b crosses the opposite corner
 
-        for (tIdType i = 1; i < n; i += 2) {
+        for (tIdType i = 1; i <= n; i += 2) {
             dPoint<D, Precision> p1, p2;
 
             Precision r = dice();
@@ -286,7 +286,8 @@ protected:
 
 
             points[i] = std::move(p1);
-            points[i + 1] = std::move(p2);
+            if (i < n)
+                points[i + 1] = std::move(p2);
         }
 
         // TODO checks for colliding points, straight lines, etc.
-- 
2.43.0


From d1c730687dcca11c94a26e3025f4163ca655c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:26 +0000
Subject: [PATCH 23/27] fix: bubble generators of the load balancing
 experiments set the points 1 to n

---
 include/load_balancing/MaliciousBubbleGenerator.h | 4 ++--
 include/load_balancing/UnboundBubbleGenerator.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/load_balancing/MaliciousBubbleGenerator.h b/include/load_balancing/MaliciousBubbleGenerator.h
index 15b1186..2168184 100644
--- a/include/load_balancing/MaliciousBubbleGenerator.h
+++ b/include/load_balancing/MaliciousBubbleGenerator.h
@@ -32,7 +32,7 @@ protected:
         std::normal_distribution<Precision> pointDist(0.0, 0.5);
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             const auto& center = bubbleCenters[centerIndex];
             const auto& radius = bubbleRadiuses[centerIndex];
                   
@@ -43,7 +43,7 @@ protected:
                 });
                 coords = coords * radius + center;
             } while(!bounds.contains(coords));            
-            points[i] = coords;
+            points[i + 1] = coords;
         }
     }
     
diff --git a/include/load_balancing/UnboundBubbleGenerator.h b/include/load_balancing/UnboundBubbleGenerator.h
index 6c274c0..a51e9ea 100644
--- a/include/load_balancing/UnboundBubbleGenerator.h
+++ b/include/load_balancing/UnboundBubbleGenerator.h
@@ -54,14 +54,14 @@ protected:
         });
         
         for(size_t i = 0; i < n; ++i) {
-            size_t centerIndex = i * ((float)mNumBubbles / n);
+            size_t centerIndex = i * mNumBubbles / n;
             
             dVector<D, Precision> coords;
             std::generate(coords.begin(), coords.end(), [&pointDist, &gen]() -> auto {
                 return pointDist(gen);
             });
             
-            points[i] = bubbleCenters[centerIndex] + coords;
+            points[i + 1] = bubbleCenters[centerIndex] + coords;
         }
     }
 };
-- 
2.43.0


From 92eaac27998d39f39cac8af11ca09037ccebe890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:35 +0000
Subject: [PATCH 24/27] fix: loading a stored block array creates the blocks it
 reads

---
 include/datastructures/BlockedArray2.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/datastructures/BlockedArray2.hxx b/include/datastructures/BlockedArray2.hxx
index cc228ae..258083b 100644
--- a/include/datastructures/BlockedArray2.hxx
+++ b/include/datastructures/BlockedArray2.hxx
@@ -599,9 +599,11 @@ private:
         // invoke serialization of the base class
         std::size_t n;
         ar >> n;
-        m_blocks.resize(n);
+        m_blocks.clear();
+        m_hint = 0;
 
         for (std::size_t i = 0; i < n; ++i) {
+            m_blocks.emplace_back(std::make_unique<block>(0, 0));
             ar >> *m_blocks[i];
         }
     }
-- 
2.43.0


From 780899c38d3ced63d2597c114c1f62d1b67461c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:49 +0000
Subject: [PATCH 25/27] fix: cross check reports every missing simplex, not
 only the first of a range

---
 src/lib/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 8c19538..e993de4 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -832,7 +832,7 @@ CrossCheckReport<D, Precision> dSimplices<D, Precision>::crossCheck(
                 LOG("did not find simplex " << realSimplex << std::endl);
                 result.valid = false;
                 result.missing.push_back(realSimplex);
-                return;
+                continue; // the other simplices of the range still need to be checked
             }
 
             // check neighbors
-- 
2.43.0


From 63d791fd2931e3f441636816915a322658725894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:27 +0000
Subject: [PATCH 26/27] fix: verification rejects links to removed cells and to
 cells that share no face

---
 src/lib/Geometry.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index e993de4..286be67 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -1100,6 +1100,20 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                     }
                 }
             }
+
+            // a link to a simplex that shares no face with a is not found by the faces
+            for (const auto &n : a.neighbors) {
+                if (!dSimplex<D, Precision>::isFinite(n))
+                    continue;
+
+                const bool exists = thisHandle.contains(n);
+                if (!exists || !a.isNeighbor(thisHandle.at(n))) {
+                    tbb::spin_mutex::scoped_lock lock(mtx);
+                    LOG("Wrong neighbor " << n << " of " << a << std::endl);
+                    result.wrongNeighbors.emplace_back(a, exists ? thisHandle.at(n) : dSimplex<D, Precision>());
+                    result.valid = false;
+                }
+            }
         }
     });
 
@@ -1115,7 +1129,7 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
             // we check for all neighbors whether the NOT shared point is in the circle
 
             for (const auto &n : s.neighbors) {
-                if (!dSimplex<D, Precision>::isFinite(n))
+                if (!dSimplex<D, Precision>::isFinite(n) || !thisHandle.contains(n))
                     continue;
 
                 const dSimplex<D, Precision> &nn = thisHandle.at(n);
-- 
2.43.0


From cda3db429650d0d084240d2a01dd4fa4c00656e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:26 +0000
Subject: [PATCH 27/27] fix: verification accepts triangulations without
 infinite points

---
 src/lib/Geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/Geometry.cpp b/src/lib/Geometry.cpp
index 286be67..a24a454 100644
--- a/src/lib/Geometry.cpp
+++ b/src/lib/Geometry.cpp
@@ -935,7 +935,8 @@ dSimplices<D, Precision>::verify(const dPoints<D, Precision> &points, const Poin
                 }
             }
         } else {
-            for (std::size_t i = 0; i < points.finite_size(); ++i) {
+            // the first entry is reserved and not a point
+            for (std::size_t i = points.offset() + 1; i < points.offset() + points.finite_size(); ++i) {
                 const auto &p = points[i];
                 if (usedPoints.count(i) != 1 && dPoint<D, Precision>::isFinite(i)) {
                     sNotUsed << i << " - " << p << " ";
-- 
2.43.0


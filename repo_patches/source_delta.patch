From 4edd48894bdcd0f3f636d1cf2fff6ca67f58f07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 01/10] fix: do not read the furthest neighbor of an empty
 SearchBuffer in can_skip

can_skip() compared against back() before checking full(), so inserting into
an empty buffer (as the inverted index search does) read one element before
the start of the candidate storage.
---
 include/svs/index/vamana/search_buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/svs/index/vamana/search_buffer.h b/include/svs/index/vamana/search_buffer.h
index 3a9b6cf..4a9e854 100644
--- a/include/svs/index/vamana/search_buffer.h
+++ b/include/svs/index/vamana/search_buffer.h
@@ -296,7 +296,8 @@ template <typename Idx, typename Cmp = std::less<>> class SearchBuffer {
     /// returns ``true``.
     ///
     bool can_skip(float distance) const {
-        return compare_(back().distance(), distance) && full();
+        // Check fullness first: the furthest neighbor of an empty buffer does not exist.
+        return full() && compare_(back().distance(), distance);
     }
 
     ///
-- 
2.43.0


From cc114bafce4f3caf02778f34d698910dc3241efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 02/10] fix: UnitRange::contains must be false for every index
 of an empty range starting at zero

---
 include/svs/lib/threads/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/svs/lib/threads/types.h b/include/svs/lib/threads/types.h
index a743558..171d7cc 100644
--- a/include/svs/lib/threads/types.h
+++ b/include/svs/lib/threads/types.h
@@ -260,7 +260,7 @@ class UnitRange {
     ///
     /// Return `true` if the value `i` is in `[front(), back()]`. Otherwise, return `false`.
     ///
-    bool contains(const T& i) const { return front() <= i && i <= back(); }
+    bool contains(const T& i) const { return start_ <= i && i < stop_; }
 
     ///
     /// Return a unit range over the valid indices of the current range.
-- 
2.43.0


From 5a3812d256ec491439d6bafc24ebeffecb44e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:43 +0000
Subject: [PATCH 03/10] fix: lib::bitmask must not shift by the full width when
 hi is the last bit

---
 include/svs/lib/misc.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/svs/lib/misc.h b/include/svs/lib/misc.h
index a1787c3..69fe931 100644
--- a/include/svs/lib/misc.h
+++ b/include/svs/lib/misc.h
@@ -12,6 +12,7 @@
 #pragma once
 
 #include <bit>
+#include <limits>
 #include <memory>
 #include <span>
 #include <tuple>
@@ -531,7 +532,11 @@ template <std::integral T> constexpr T bitmask(T lo, T hi) {
     assert(lo < T(8 * sizeof(T)));
     assert(hi < T(8 * sizeof(T)));
 
-    T one{1};
-    return static_cast<T>(one << (hi + one)) - static_cast<T>(one << lo);
+    // Work on the unsigned type and never shift by the full width (`hi` may be the last bit).
+    using U = std::make_unsigned_t<T>;
+    constexpr U ones = std::numeric_limits<U>::max();
+    return static_cast<T>(
+        static_cast<U>(ones << lo) & static_cast<U>(ones >> (8 * sizeof(T) - 1 - hi))
+    );
 }
 } // namespace svs::lib
-- 
2.43.0


From 4cb6c4fab9e5f7289f4f6813ea853c486986e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 04/10] fix: prune clears the result when the candidate pool is
 empty

---
 include/svs/index/vamana/prune.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/index/vamana/prune.h b/include/svs/index/vamana/prune.h
index ee6b13d..0c6dee8 100644
--- a/include/svs/index/vamana/prune.h
+++ b/include/svs/index/vamana/prune.h
@@ -112,11 +112,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     if (poolsize == 0) {
@@ -188,11 +188,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<float> pruned(poolsize, type_traits::tombstone_v<float, decltype(cmp)>);
@@ -262,11 +262,11 @@ void heuristic_prune_neighbors(
 ) {
     auto cmp = distance::comparator(distance_function);
     assert(std::is_sorted(pool.begin(), pool.end(), cmp));
+    result.clear();
     if (pool.empty()) {
         return;
     }
 
-    result.clear();
     result.reserve(max_result_size);
     size_t poolsize = pool.size();
     std::vector<bool> pruned(poolsize, false);
-- 
2.43.0


From ddb914f998f1eec7479d632e263d51b6c5ce9082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 05/10] fix: loading an empty IDTranslator

---
 include/svs/core/translation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/svs/core/translation.h b/include/svs/core/translation.h
index c1c7efb..4c2b43f 100644
--- a/include/svs/core/translation.h
+++ b/include/svs/core/translation.h
@@ -357,6 +357,10 @@ class IDTranslator {
         // the points.
         auto num_points = lib::load_at<size_t>(table, "num_points");
         auto translator = IDTranslator{};
+        if (num_points == 0) {
+            // An empty translator is saved as an empty file, which cannot be opened.
+            return translator;
+        }
         auto resolved = table.resolve_at("filename");
         auto stream = lib::open_read(resolved);
         for (size_t i = 0; i < num_points; ++i) {
-- 
2.43.0


From 66e2e52adff536c69234d13bed9118f8e5abac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:42 +0000
Subject: [PATCH 06/10] fix: adding no points to a dynamic index with a free
 first slot corrupted it

add_points collected every empty slot when num_points was zero, so the number
of additional slots needed wrapped around and the dataset was shrunk.
---
 include/svs/index/vamana/dynamic_index.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/svs/index/vamana/dynamic_index.h b/include/svs/index/vamana/dynamic_index.h
index e8b288e..4c17f12 100644
--- a/include/svs/index/vamana/dynamic_index.h
+++ b/include/svs/index/vamana/dynamic_index.h
@@ -550,8 +550,8 @@ class MutableVamanaIndex {
         std::vector<size_t> slots{};
         slots.reserve(num_points);
 
-        bool have_room = false;
-        for (size_t i = 0, imax = status_.size(); i < imax; ++i) {
+        bool have_room = (num_points == 0);
+        for (size_t i = 0, imax = status_.size(); i < imax && !have_room; ++i) {
             if (status_[i] == SlotMetadata::Empty) {
                 slots.push_back(i);
             }
-- 
2.43.0


From 361b9eadd5e7064b3f7d4a2c4c45a6e7df1e0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 07/10] fix: reading the dimensions of a binary file without
 elements divided by zero

---
 include/svs/core/io/binary.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index d3ea7bd..57a6d28 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -51,8 +51,16 @@ get_dims(std::ifstream& stream, std::string_view source = {}, size_t elsize_hint
     size_t filesize_minus_header = filesize - sizeof(header);
     size_t n_vec_elements =
         lib::narrow<size_t>(header.num_vectors) * lib::narrow<size_t>(header.vector_dim);
-    size_t remainder = filesize_minus_header % n_vec_elements;
-    size_t deduced_elsize = filesize_minus_header / n_vec_elements;
+    // A file without any element must not have any payload. There is no element size to
+    // deduce in this case.
+    if (n_vec_elements == 0 && filesize_minus_header == 0) {
+        return std::make_pair(header.num_vectors, header.vector_dim);
+    }
+
+    size_t remainder =
+        n_vec_elements == 0 ? filesize_minus_header : filesize_minus_header % n_vec_elements;
+    size_t deduced_elsize =
+        n_vec_elements == 0 ? elsize_hint : filesize_minus_header / n_vec_elements;
 
     bool elsize_match = elsize_hint == 0 ? true : elsize_hint == deduced_elsize;
 
-- 
2.43.0


From 1f2e2b9c21d748d21ab2e470d51cc45ed17be137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 08/10] fix: deducing the element size of a vecs file with one
 short vector

---
 include/svs/core/io/vecs.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 85a13f3..7f2d88a 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -56,7 +56,10 @@ inline size_t deduce_element_size(std::ifstream& stream, size_t dims, size_t fil
     for (size_t elsize : ALLOWED_ELEMENT_SIZES) {
         size_t offset = sizeof(length_t) + elsize * dims;
         if (is_last_vec(offset)) {
-            return offset == filesize ? elsize : 0;
+            if (offset == filesize) {
+                return elsize;
+            }
+            continue;
         }
 
         if (dims == next_dims(offset)) {
-- 
2.43.0


From cfeac9527c230c279fa850fc30eda95a71e69a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 09/10] fix: io::save_vecs and the writers of VecsFile and
 BinaryFile did not compile when used

---
 include/svs/core/data/io.h   | 2 +-
 include/svs/core/io/binary.h | 2 +-
 include/svs/core/io/vecs.h   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 54ee777..6cb62ca 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -124,7 +124,7 @@ void save(const Dataset& data, const File& file, const lib::UUID& uuid = lib::Ze
 template <data::ImmutableMemoryDataset Dataset>
 void save_vecs(const Dataset& data, const std::filesystem::path& path) {
     auto file = vecs::VecsFile{path};
-    auto writer = file.writer(data.dimensionsions());
+    auto writer = file.writer<typename Dataset::element_type>(data.dimensions());
     for (size_t i = 0; i < data.size(); ++i) {
         writer << data.get_datum(i);
     }
diff --git a/include/svs/core/io/binary.h b/include/svs/core/io/binary.h
index 57a6d28..b056ea8 100644
--- a/include/svs/core/io/binary.h
+++ b/include/svs/core/io/binary.h
@@ -197,7 +197,7 @@ class BinaryFile {
     ///
     template <typename T>
     BinaryWriter<T> writer(size_t n_vectors, size_t dimensions) const {
-        return BinaryWriter<T>(path_, n_vectors, dimensions);
+        return BinaryWriter<T>(path_.native(), n_vectors, dimensions);
     }
 
     ///
diff --git a/include/svs/core/io/vecs.h b/include/svs/core/io/vecs.h
index 7f2d88a..1aa25ef 100644
--- a/include/svs/core/io/vecs.h
+++ b/include/svs/core/io/vecs.h
@@ -248,7 +248,7 @@ class VecsFile {
     /// @param dimensions The number of dimensions in each vector being written.
     ///
     template <typename T> VecsWriter<T> writer(size_t dimensions) const {
-        return VecsWriter<T>(path_, dimensions);
+        return VecsWriter<T>(path_.native(), dimensions);
     }
 
     ///
-- 
2.43.0


From eca35629f582019ebdc86d9fbcecfb45a110b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 10/10] fix: loading a vecs file could create a dataset of
 another number of vectors than the file holds

---
 include/svs/core/data/io.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/svs/core/data/io.h b/include/svs/core/data/io.h
index 6cb62ca..4f6f871 100644
--- a/include/svs/core/data/io.h
+++ b/include/svs/core/data/io.h
@@ -138,7 +138,18 @@ void save_vecs(const Dataset& data, const std::filesystem::path& path) {
 template <typename File, typename WriteAccessor, lib::LazyInvocable<size_t, size_t> F>
 lib::lazy_result_t<F, size_t, size_t>
 load_impl(const File& file, WriteAccessor& accessor, const F& lazy) {
-    auto [vectors_to_read, ndims] = file.get_dims();
+    // The default accessor reads elements of the same type as the dataset. Use this
+    // knowledge when the file type cannot tell the size of its elements for sure.
+    auto get_dims = [&]() -> std::pair<size_t, size_t> {
+        if constexpr (std::is_same_v<WriteAccessor, DefaultWriteAccessor> &&
+                      requires { file.get_dims(size_t{}); }) {
+            using Data = lib::lazy_result_t<F, size_t, size_t>;
+            return file.get_dims(sizeof(typename Data::element_type));
+        } else {
+            return file.get_dims();
+        }
+    };
+    auto [vectors_to_read, ndims] = get_dims();
     auto data = lazy(vectors_to_read, ndims);
     populate(data, accessor, file);
     return data;
-- 
2.43.0


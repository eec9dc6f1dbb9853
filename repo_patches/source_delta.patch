From acb367ff6da1541170c927cb5365c0f425cc7cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 1/7] fix: adjacent_find on an empty range returns the end
 instead of scanning size()-1 positions

---
 include/parlay/primitives.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 962f557..0b4b6ad 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -632,6 +632,7 @@ template <typename R, typename BinaryPred>
 auto adjacent_find(R&& r, BinaryPred&& p) {
   static_assert(is_random_access_range_v<R>);
   static_assert(std::is_invocable_r_v<bool, BinaryPred, range_reference_type_t<R>, range_reference_type_t<R>>);
+  if (parlay::size(r) == 0) return std::end(r);
   auto idx = internal::find_if_index(parlay::size(r) - 1,
                  [&p, it = std::begin(r)](size_t i) {
                    return p(it[i], it[i + 1]); });
-- 
2.43.0


From 400c847a9023a7c8d36648b3c15cbe58bd7bb941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 2/7] fix: find_end returns the end when the pattern is longer
 than the range

---
 include/parlay/primitives.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parlay/primitives.h b/include/parlay/primitives.h
index 0b4b6ad..84bd185 100644
--- a/include/parlay/primitives.h
+++ b/include/parlay/primitives.h
@@ -701,7 +701,8 @@ auto find_end(R1&& r1, R2&& r2, BinaryPred&& p) {
   size_t n2 = parlay::size(r2);
 
   // According to the C++ standard, std::find_end should return the end iterator if the pattern is empty
-  if (n2 == 0) return std::end(r1);
+  // (and likewise if the pattern is longer than the sequence)
+  if (n2 == 0 || n2 > n1) return std::end(r1);
 
   size_t idx = internal::find_if_index(n1 - n2 + 1, [&](size_t i) {
     size_t j;
-- 
2.43.0


From 82ec0c46a961ce3863e16db5a36967b56c34abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:37 +0000
Subject: [PATCH 3/7] fix: delayed::scan_inclusive over a single block read its
 end sentinel out of bounds

---
 include/parlay/internal/delayed/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/internal/delayed/scan.h b/include/parlay/internal/delayed/scan.h
index 56bbf0a..bb442d3 100644
--- a/include/parlay/internal/delayed/scan.h
+++ b/include/parlay/internal/delayed/scan.h
@@ -61,7 +61,7 @@ struct block_delayed_scan_t :
       total = parlay::internal::scan_inplace(make_slice(block_sums), parlay::make_monoid(*(op.get()), identity));
     }
     else {
-      block_sums = sequence<T>(1, identity);
+      block_sums = sequence<T>(n_blocks + 1, identity);   // the extra value is read by the end iterator
     }
 
     // If inclusive, each block needs to initially include its first value
-- 
2.43.0


From 0c92219d61456a5de54ed12e95aab18a0b1bb1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 4/7] fix: sequence operations whose argument refers to an
 element of the same sequence

push_back, emplace_back, insert, emplace, append(n, v) and resize(n, v) read
their argument after the elements had been relocated to a larger buffer (or
moved into the tail), i.e. after the element it refers to was destroyed.
---
 include/parlay/sequence.h | 46 ++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 4970214..3e1147e 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -232,6 +232,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     if (p == end()) {
       return emplace_back(std::forward<Args>(args)...);
     } else {
+      // args might refer to an element of this sequence, all of which
+      // might be relocated below, so the new element is created first
+      value_type v(std::forward<Args>(args)...);
+
       // p might be invalidated when the capacity is increased,
       // so we need to remember where it occurs in the sequence
       auto pos = p - begin();
@@ -242,7 +246,7 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
       // append since we ensured that there was sufficient capacity already,
       // so a second reallocation will never happen after this point
       auto the_tail = pop_tail(p);
-      auto it = emplace_back(std::forward<Args>(args)...);
+      auto it = emplace_back(std::move(v));
       append(std::move(the_tail));
       return it;
     }
@@ -250,8 +254,15 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
 
   template<typename... Args>
   iterator emplace_back(Args&&... args) {
-    storage.ensure_capacity(size() + 1);
-    storage.initialize(end(), std::forward<Args>(args)...);
+    if (size() < capacity()) {
+      storage.initialize(end(), std::forward<Args>(args)...);
+    } else {
+      // Increasing the capacity relocates the current elements, and args might
+      // refer to one of them, so the new element has to be created first
+      value_type v(std::forward<Args>(args)...);
+      storage.ensure_capacity(size() + 1);
+      storage.initialize(end(), std::move(v));
+    }
     storage.set_size(size() + 1);
     return end() - 1;
   }
@@ -372,15 +383,10 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
         auto buffer = storage.data();
         parallel_for(new_size, current, [&](size_t i) { storage.destroy(&buffer[i]); });
       }
+      storage.set_size(new_size);
     } else {
-      storage.ensure_capacity(new_size);
-      assert(storage.capacity() >= new_size);
-      auto buffer = storage.data();
-      parallel_for(
-          current, new_size, [&](size_t i) { storage.initialize_explicit(&buffer[i], v); },
-          copy_granularity(new_size - current));
+      append_n(new_size - current, v);
     }
-    storage.set_size(new_size);
   }
 
   void reserve(size_t amount) {
@@ -588,7 +594,18 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
   }
 
   iterator append_n(size_t n, const value_type& t) {
-    storage.ensure_capacity(size() + n);
+    if (size() + n > capacity()) {
+      // Increasing the capacity relocates the current elements,
+      // and t might refer to one of them, so it is copied first
+      const value_type v(t);
+      storage.ensure_capacity(size() + n);
+      return append_n_within_capacity(n, v);
+    }
+    return append_n_within_capacity(n, t);
+  }
+
+  iterator append_n_within_capacity(size_t n, const value_type& t) {
+    assert(size() + n <= capacity());
     auto it = end();
     parallel_for(0, n, [&](size_t i) {
       storage.initialize_explicit(it + i, t);
@@ -597,7 +614,6 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     return it;
   }
 
-
   template<typename Iterator_>
   iterator append_range(Iterator_ first, Iterator_ last) {
     static_assert(is_input_iterator_v<Iterator_>);
@@ -629,7 +645,11 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     }
   }
 
-  iterator insert_n(iterator p, size_t n, const value_type& v) {
+  iterator insert_n(iterator p, size_t n, const value_type& t) {
+    // t might refer to an element of this sequence, all of
+    // which might be relocated below, so it is copied first
+    const value_type v(t);
+
     // p might be invalidated when the capacity is increased,
     // so we have to remember where it is in the sequence
     auto pos = p - begin();
-- 
2.43.0


From 485a80b31c094d651278490459f38146b00a871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 5/7] fix: sequence::insert(p, 0, v) at the front returned a
 dangling iterator

With nothing in front of the tail and nothing to insert, appending the tail
takes over its buffer and frees the one that the returned iterator refers to.
---
 include/parlay/sequence.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/parlay/sequence.h b/include/parlay/sequence.h
index 3e1147e..805d3fe 100644
--- a/include/parlay/sequence.h
+++ b/include/parlay/sequence.h
@@ -656,13 +656,12 @@ class PARLAY_TRIVIALLY_RELOCATABLE sequence : protected sequence_internal::seque
     storage.ensure_capacity(size() + n);
     p = begin() + pos;
 
-    // Note that "it" is guaranteed to remain valid even after the call to
-    // append since we ensured that there was sufficient capacity already,
-    // so a second reallocation will never happen after this point
+    // Note that append takes over the buffer of the tail
+    // if there is nothing in front of it
     auto the_tail = pop_tail(p);
-    auto it = append_n(n, v);
+    append_n(n, v);
     append(std::move(the_tail));
-    return it;
+    return begin() + pos;
   }
 
   template<typename Iterator_>
-- 
2.43.0


From 48b033fb2580d68cdb63ecf4a3d352cb000af16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 6/7] fix: ThreadSpecific iterators create the chunk they point
 into before dereferencing it

The iterator's range covers every thread id handed out so far, but the chunk of an id only comes into existence when its thread first uses the list (or the iterator is incremented into it). Reaching such a position by --end(), end() - 1 or begin() + n and dereferencing it followed a null pointer.
---
 include/parlay/thread_specific.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parlay/thread_specific.h b/include/parlay/thread_specific.h
index 0215b12..5d9d36e 100644
--- a/include/parlay/thread_specific.h
+++ b/include/parlay/thread_specific.h
@@ -251,7 +251,7 @@ class ThreadSpecific {
     /* implicit */ iterator_t(const iterator_t<false>& other)  // cppcheck-suppress noExplicitConstructor    // NOLINT
         : chunk_id(other.chunk_id), position(other.position), parent(other.parent) { }
 
-    reference operator*() const { return parent->get_by_index_nocheck(chunk_id, position); }
+    reference operator*() const { return parent->get_by_index(chunk_id, position); }
 
     reference operator[](std::size_t p) const {
       auto tmp = *this;
-- 
2.43.0


From 16cb8f95bb17ed96b4d520dd48a4f1dc83d27f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:48 +0000
Subject: [PATCH 7/7] fix: pool_allocator counts the bytes of large blocks as
 obtained, so that clearing or freeing them subtracts what was added

---
 include/parlay/internal/pool_allocator.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/parlay/internal/pool_allocator.h b/include/parlay/internal/pool_allocator.h
index 2b8c2ac..dcfad29 100644
--- a/include/parlay/internal/pool_allocator.h
+++ b/include/parlay/internal/pool_allocator.h
@@ -58,6 +58,12 @@ struct pool_allocator {
   std::unique_ptr<internal::hazptr_stack<void*>[]> large_buckets;
   unique_array<block_allocator> small_allocators;
 
+  // The number of bytes obtained from operator new for a request of n bytes:
+  // rounded up to the next multiple of the alignment.
+  static size_t large_block_size(size_t n) {
+    return (n % max_alignment == 0) ? n : n + (max_alignment - (n % max_alignment));
+  }
+
   void* allocate_large(size_t n) {
 
     size_t bucket = num_small;
@@ -71,15 +77,11 @@ struct pool_allocator {
       alloc_size = sizes[bucket];
     } else alloc_size = n;
 
-    // Alloc size must be a multiple of the alignment
-    // Round up to the next multiple.
-    if (alloc_size % max_alignment != 0) {
-      alloc_size += (max_alignment - (alloc_size % max_alignment));
-    }
+    alloc_size = large_block_size(alloc_size);
 
     void* a = ::operator new(alloc_size, std::align_val_t{max_alignment});
 
-    large_allocated += n;
+    large_allocated += alloc_size;
     return a;
   }
 
@@ -87,7 +89,7 @@ struct pool_allocator {
     large_used -= n;
     if (n > max_size) {
       ::operator delete(ptr, std::align_val_t{max_alignment});
-      large_allocated -= n;
+      large_allocated -= large_block_size(n);
     } else {
       size_t bucket = num_small;
       while (n > sizes[bucket]) bucket++;
@@ -186,7 +188,7 @@ struct pool_allocator {
     for (size_t i = num_small; i < num_buckets; i++) {
       std::optional<void*> r = large_buckets[i-num_small].pop();
       while (r) {
-        large_allocated -= sizes[i];
+        large_allocated -= large_block_size(sizes[i]);
         ::operator delete(*r, std::align_val_t{max_alignment});
         r = large_buckets[i-num_small].pop();
       }
-- 
2.43.0


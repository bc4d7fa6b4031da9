From 22ace08dafea9970b0f08891d841eff586769047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 01/99] fix: insertion_sort_has_sentinel must not run past an
 empty range

introsort passes it an empty right half when every element is equal.
---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..b891003 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2686,6 +2686,9 @@ constexpr size_t insertion_sort_limit =
 // If that is not the case, behaviour is undefined.
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
+    if(begin == end) {
+        return;
+    }
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
-- 
2.43.0


From 96af2e10b55da3c0dfc2ed24482c8a94c96bfd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 02/99] fix: shell_sort must order with the given comparator,
 not operator>

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From b79e4afc3464fbb95f057818e60b460584faa4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:29 +0000
Subject: [PATCH 03/99] fix: introsort must skip pivot duplicates according to
 the comparator, not operator==

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..3c0d1f6 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && cmp.compare(*right_begin, *last_value_point) == 0) {
         ++right_begin;
     }
 
-- 
2.43.0


From 86219d9c76033c8826b0904ab14d3f45da35451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:25 +0000
Subject: [PATCH 04/99] fix: lower_bound on an empty range must return its end

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b891003..b2fe40e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2530,7 +2530,7 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From 7d6ae73b8b0068d40c62043ab95196c26fa925eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:25 +0000
Subject: [PATCH 05/99] fix: radix sort must compute its bit mask in the value
 type

---
 include/pystd2026_radixsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..268a560 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -9,7 +9,7 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    const ValueType sort_bit = ((ValueType)1 << (num_bits - 1 - round));
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
-- 
2.43.0


From 13498964b88f0cc0665967fae17bca9e99a37cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:25 +0000
Subject: [PATCH 06/99] fix: bucket sort must not count elements in the value
 type

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 095beeae90d28e1aed080b9693b222edb4f7a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 07/99] fix: radix sort must stop after the lowest bit even if
 that bit is skipped

---
 include/pystd2026_radixsort.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 268a560..89e27da 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -9,6 +9,9 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
+    if(round >= num_bits) {
+        return;
+    }
     const ValueType sort_bit = ((ValueType)1 << (num_bits - 1 - round));
 
     if(end - begin < INSERTION_SORT_LIMIT) {
-- 
2.43.0


From 41ba6cf1d3b2233e3957136c9f5fbfc30c75403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 08/99] fix: nth_element must not shift an address by the
 element size

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..774055b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -64,7 +64,7 @@ It nth_element(It begin, It end, size_t nth, const Comparator &cmp) {
         }
         ++round;
         size_t random_number = (size_t)&(*begin);
-        random_number >>= sizeof(ValueType);
+        random_number /= sizeof(ValueType);
         size_t pivot_offset = (random_number + round) % buf_size;
         if(pivot_offset != 0) {
             ::pystd2026::swap(*begin, *(begin + pivot_offset), scratch);
-- 
2.43.0


From 8ca26f2cea6e2326ded53244396bd1148c21f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 09/99] fix: nth_element header needs an include guard

---
 include/pystd2026_nth_element.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 774055b..fe7f643 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
-- 
2.43.0


From ee572ad7d59b39aeee27e11bad2b440d44094083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:49 +0000
Subject: [PATCH 10/99] fix: lower_bound of 2025 on an empty range must return
 its end

---
 include/pystd2025.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c838037..4d8fc7c 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -3209,7 +3209,7 @@ template<WellBehaved T> void insertion_sort(Span<T> array) {
 
 template<typename It, typename Value, typename Callable>
 It lower_bound(It first, It last, const Value &value, const Callable &is_less) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From 117b3d5271550e61c117ab62a581220af3a297d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 11/99] fix: integer clamp must return the lower bound for
 smaller values

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..3cf1311 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1325,7 +1325,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From 20ac2e4b48e6d69b884b34dac7fc3ec6c6b777ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 12/99] fix: FloatIgnoreNanComparator must report equal values
 as equal

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b2fe40e..95f0406 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2522,7 +2522,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From 87b672496547e8413815a6b1da403ef4891e4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:50 +0000
Subject: [PATCH 13/99] fix: Span::subspan must accept ranges that end at the
 end of the span and not wrap

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 95f0406..40deda5 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -869,13 +869,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From c71b9203f6a5b0a99d2cc36398cae1013485faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 14/99] fix: Range must support negative steps, reject a zero
 step and not overflow

---
 src/pystd2026.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3cf1311..2d1406f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1228,15 +1228,22 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step > 0 ? i >= end : i <= end) {
         return {};
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        // The next value would be past every possible end point.
+        i = end;
+    }
     return result;
 }
 
-- 
2.43.0


From fafacb5ca4fecfbec00615ce7f9318dbae0db8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 15/99] fix: fix: Expected::value must abort when there is no
 value, not when there is one

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 40deda5..fe0b450 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From 4a0df1d02c55fda69b830c81a191b336b29dce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 16/99] fix: fix: Expected move assignment must take the value
 of its argument

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index fe0b450..0c7b5bf 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From f777c97a7ee395f12fd641bd13386359b1072ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 17/99] fix: fix: moving from an empty Expected must not abort

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 0c7b5bf..ec23973 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
-- 
2.43.0


From b73f23d4f1318a2f03eda64c36fb98d0c4b6a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 18/99] fix: fix: Unexpected::error on an rvalue must return an
 rvalue

---
 include/pystd2026.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index ec23973..dcccd89 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -298,9 +298,11 @@ public:
     Unexpected(const E &e_) noexcept : e(e_) {}
 
     E &error() & noexcept { return e; }
-    E &&error() && noexcept { return e; }
+    E &&error() && noexcept { return ::pystd2026::move(e); }
     const E &error() const & noexcept { return e; }
-    const E &&error() const && noexcept { return e; }
+    const E &&error() const && noexcept {
+        return static_cast<const E &&>(e);
+    }
 
     Unexpected &operator=(Unexpected &&o) = default;
 
-- 
2.43.0


From 5a990a62c3f742d326c4060dce6831351747c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:29 +0000
Subject: [PATCH 19/99] fix: fix: unique_arr with a custom deleter must be
 movable and not copyable

---
 include/pystd2026.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index dcccd89..8b59e7a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -545,16 +545,16 @@ public:
     unique_arr() noexcept = default;
     explicit unique_arr(size_t size) noexcept : ptr{new T[size]}, array_size{size} {}
     unique_arr(T *t, size_t size = 0) noexcept : ptr{t}, array_size{size} {}
-    explicit unique_arr(const unique_arr<T> &o) = delete;
-    explicit unique_arr(unique_arr<T> &&o) noexcept : ptr{o.ptr}, array_size{o.array_size} {
+    explicit unique_arr(const unique_arr<T, Deleter> &o) = delete;
+    explicit unique_arr(unique_arr<T, Deleter> &&o) noexcept : ptr{o.ptr}, array_size{o.array_size} {
         o.ptr = nullptr;
         o.array_size = 0;
     }
     ~unique_arr() { Deleter::del(ptr); }
 
-    unique_arr &operator=(const unique_arr<T> &o) = delete;
+    unique_arr &operator=(const unique_arr<T, Deleter> &o) = delete;
 
-    unique_arr &operator=(unique_arr<T> &&o) noexcept {
+    unique_arr &operator=(unique_arr<T, Deleter> &&o) noexcept {
         if(this != &o) {
             Deleter::del(ptr);
             ptr = o.ptr;
-- 
2.43.0


From 17b01ebc43fd436dd8c68b9787aca745dc6e1db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:04 +0000
Subject: [PATCH 20/99] fix: a Variant must be copyable from a non-const
 Variant

---
 include/pystd2026_variant.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 367abe3..0cc38d5 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -66,7 +66,9 @@ public:
     }                                                                                              \
     break;
 
-    template<typename InType> constexpr Variant(InType &&o) noexcept {
+    template<typename InType>
+        requires(!is_same_v<InType, Variant<T...> &>)
+    constexpr Variant(InType &&o) noexcept {
         constexpr int new_type = get_index_for_type<InType, T...>();
         switch(new_type) {
         case 0:
@@ -144,7 +146,9 @@ public:
     }                                                                                              \
     break;
 
-    template<typename InType> Variant(InType &o) {
+    template<typename InType>
+        requires(!is_same_v<InType, Variant<T...>>)
+    Variant(InType &o) {
         constexpr int new_type = get_index_for_type<InType, T...>();
         switch(new_type) {
         case 0:
-- 
2.43.0


From 5dfe8494d3dd8100e510e2869aa24238c1e66b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 21/99] fix: Vector::emplace_back must not use arguments after
 moving the elements they refer to

---
 include/pystd2026.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8b59e7a..dd3df20 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1085,8 +1085,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments may refer to the contents of this vector.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2026::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
             ++num_entries;
-- 
2.43.0


From 66c5c91ef282e33e15e314a2f52ba35b57a0591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 22/99] fix: Vector::append_with_default must construct every
 new element

---
 include/pystd2026.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index dd3df20..3c7af11 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1247,11 +1247,10 @@ public:
 
     void append_with_default(size_t num_copies) {
         reserve(size() + num_copies);
-        T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(objptr(num_entries)) T{};
+            ++num_entries;
         }
-        num_entries += num_copies;
     }
 
 private:
-- 
2.43.0


From 91d5637b76e0d4640296163588f6cf7c330b6120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 23/99] fix: Vector must not wrap around when computing the
 size of its buffer

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3c7af11..5cd72ce 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1277,6 +1277,9 @@ private:
         if(new_capacity < num_entries) {
             bootstrap_throw("Shrinking too small.");
         }
+        if(new_capacity > (size_t)-1 / sizeof(T)) {
+            bootstrap_throw("Vector capacity is too large.");
+        }
         if(new_capacity < MIN_CAPACITY) {
             // To avoid multiple small allocations at the beginning.
             new_capacity = MIN_CAPACITY;
-- 
2.43.0


From 8e2e7dbed69ec9a020365fc666856fe60253e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 24/99] fix: Vector::emplace_back must be callable without
 arguments

---
 include/pystd2026.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5cd72ce..2e907e1 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1083,9 +1083,7 @@ public:
     }
 
     void emplace_back(auto &&...args) noexcept {
-        if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
-            this->push_back(::pystd2026::forward(args...[0]));
-        } else if(needs_to_grow_for(1)) {
+        if(needs_to_grow_for(1)) {
             // The arguments may refer to the contents of this vector.
             T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
-- 
2.43.0


From 29813889a13916740c3f6e63d283667096856cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 25/99] fix: FixedVector::emplace_back must be callable without
 arguments

---
 include/pystd2026.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2e907e1..1740f72 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1382,13 +1382,9 @@ public:
         if(is_full()) {
             return false;
         }
-        if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
-            this->push_back(::pystd2026::forward(args...[0]));
-        } else {
-            auto obj_loc = objptr(num_entries);
-            new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
-            ++num_entries;
-        }
+        auto obj_loc = objptr(num_entries);
+        new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
+        ++num_entries;
         return true;
     }
 
-- 
2.43.0


From 7547d1d284f772a19d492c46cd86e50070f88d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 26/99] fix: UTF-8 validation must reject overlong forms,
 surrogates and values above U+10FFFF

---
 src/pystd2026.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 2d1406f..ab69472 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,7 +57,16 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Overlong encodings, surrogates and values past the end of Unicode
+    // are not valid UTF-8.
+    const uint32_t smallest_values[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_values[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF;
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
-- 
2.43.0


From d741b669411087937c2f1de22e601b3ce3aca977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 27/99] fix: U8StringView of a NUL terminated string must end
 at the NUL

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ab69472..c3534df 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -941,6 +941,9 @@ void ValidU8ReverseIterator::compute_char_info() {
 
 U8StringView::U8StringView(const char *buf_, size_t bufsize) {
     const unsigned char *buf = (const unsigned char *)buf_;
+    if(bufsize == (size_t)-1) {
+        bufsize = strlen(buf_);
+    }
     if(!is_valid_utf8(buf_, bufsize)) {
         throw PyException("String is not valid UTF-8.");
     }
-- 
2.43.0


From 624eb6f1a48a352fdc97e1def6bfc701b3d9a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 28/99] fix: append_codepoint must reject surrogates and NUL

---
 src/pystd2026.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c3534df..aea0f9b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1142,6 +1142,12 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("Embedded NUL characters are not supported.");
+    }
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not valid Unicode codepoints.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From 15faa5adb93a2b0f0a76c3f6f927574beaf3aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 29/99] fix: comparing a U8StringView with a C string must work
 for non-ASCII text and stop at the NUL

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index aea0f9b..4abad1f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -973,7 +973,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(txt[i] == '\0' || data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
-- 
2.43.0


From 88bd662825347ed224cae09d76e5bf6a531c496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 30/99] fix: U8String::substr must not read outside the string

---
 src/pystd2026.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4abad1f..5f967f4 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1061,7 +1061,9 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > cstring.size() || (length != (size_t)-1 && length > cstring.size() - offset)) {
+        throw PyException("OOB in U8String::substr.");
+    }
     return U8String(cstring.data() + offset, length);
 }
 
-- 
2.43.0


From 54bc302086d1e1b5f795923bb2b83b7285582a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 31/99] fix: CStringView::operator[] accepted the index one
 past the end

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 1740f72..d8f1a33 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1631,7 +1631,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
-- 
2.43.0


From a780c94aedb8ee0f6d01e83784d13ffb854fff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 32/99] fix: CStringView::starts_with read past the end of a
 shorter prefix

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5f967f4..d37c1e3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -434,7 +434,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
-- 
2.43.0


From 67d053283dae6eb927e2a337e844645a9af3bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 33/99] fix: CStringView::find missed a match at the very end

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index d37c1e3..bc599e7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -468,7 +468,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 590f16a0512dc4ee1e9572a3f1ef6ffbd67f59d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 34/99] fix: CStringView::substr with a huge count left the
 view

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index bc599e7..db287eb 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -458,7 +458,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From a9a492a459f665fa2f66a01d4734ae48169a7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 35/99] fix: CStringView::overlaps reported adjacent views as
 overlapping

---
 src/pystd2026.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index db287eb..7b4e36d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -501,13 +501,9 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
-        return false;
-    }
-    if(e1 < s2) {
-        return false;
-    }
-    return true;
+    const auto start = s1 < s2 ? s2 : s1;
+    const auto end = e1 < e2 ? e1 : e2;
+    return start < end;
 }
 
 CString CStringView::upper() const noexcept {
-- 
2.43.0


From cd417e147c7f14e34c913feee0cdeac6b829e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 36/99] fix: ZStringView of a NUL terminated string had the
 size (size_t)-1

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7b4e36d..50672c0 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -607,7 +607,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From 5c18c2a25e0233d74c75c5b2a2c781829d67a488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 37/99] fix: comparing an empty ZStringView dereferenced a null
 pointer

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 50672c0..b31d787 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -795,7 +795,7 @@ ZStringView CString::zview() const {
     return ZStringView{bytes.data()};
 }
 
-bool ZStringView::operator==(const char *text) const noexcept { return strcmp(buf, text) == 0; }
+bool ZStringView::operator==(const char *text) const noexcept { return view() == text; }
 
 char CString::back() const {
     if(bytes.size() < 2) {
-- 
2.43.0


From fe34dca1e8a05a17751ffcbb32b5fe887e37371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 38/99] fix: comparing with an empty ZStringView dereferenced a
 null pointer

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d8f1a33..a7fd05a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1681,7 +1681,7 @@ public:
     size_t size() const noexcept { return bufsize; }
 
     bool operator==(const char *text) const noexcept;
-    bool operator==(const ZStringView &other) const noexcept { return *this == other.c_str(); }
+    bool operator==(const ZStringView &other) const noexcept { return view() == other.view(); }
 
     // Only the right half, because the result has to be
     // null terminated.
-- 
2.43.0


From a726fe9d6eaff1f651cb973ec1999659b5abe299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 39/99] fix: ordering an empty CStringView passed a null
 pointer to strncmp

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b31d787..5896fd2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -485,7 +485,7 @@ size_t CStringView::find(CStringView substr) const {
 
 bool CStringView::operator<(const CStringView &o) const {
     const size_t common_size = o.size() < size() ? o.size() : size();
-    auto rc = strncmp(data(), o.data(), common_size);
+    const auto rc = common_size > 0 ? memcmp(data(), o.data(), common_size) : 0;
     if(rc < 0) {
         return true;
     }
-- 
2.43.0


From 1c3a30a1e35993194642e3040a6babb4c84e0eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 40/99] fix: Bytes::operator< must stop at the first difference

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a7fd05a..05bdfdd 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -963,7 +963,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
-- 
2.43.0


From 4e84dc98b977a1e24c4f53a07c9eeb5e5ac65b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 41/99] fix: Bytes::back must return the last byte, not the
 last byte of the allocation

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5896fd2..61334c6 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -346,7 +346,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
-- 
2.43.0


From 9709912566a8d2784cf806ff81df7ffc01597994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 42/99] fix: Bytes::pop_front of everything must leave an empty
 buffer

---
 src/pystd2026.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 61334c6..8476940 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -251,8 +251,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
-- 
2.43.0


From 6397b0b0b5f1137e7a47ef5c920d27138b57ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 43/99] fix: Bytes::remove must reject ranges that end past the
 end

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8476940..7f2f9cc 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -352,7 +352,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From 7236b1ecedf4dfc3a8f9c7a4f36d200608f55897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 44/99] fix: Bytes::operator[] must reject indices past the end

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 05bdfdd..b67b255 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -927,7 +927,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("OOB in Bytes.");
+        }
+        return buf[i];
+    }
 
     char unsafe_at(size_t i) const { return buf.unsafe_at(i); }
 
-- 
2.43.0


From f06d0395c68eaf645ddb839525c9e8ac3b9e0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 45/99] fix: appending a part of a Bytes to itself read freed
 memory

---
 src/pystd2026.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7f2f9cc..ca6a146 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -286,6 +286,12 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(begin != end && is_ptr_within(begin)) {
+        // Growing would free the bytes being appended.
+        const Bytes tmp(begin, end);
+        append(tmp.data(), tmp.data() + tmp.size());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From 5ab51eaf5963dfd238b8f23685c9b799dda11cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 46/99] fix: CString copy assignment was declared but not
 defined

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b67b255..d4fe440 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1730,7 +1730,7 @@ public:
 
     char operator[](size_t i) const { return bytes[i]; }
 
-    void operator=(const ::pystd2026::CString &) noexcept;
+    void operator=(const ::pystd2026::CString &o) noexcept { bytes = o.bytes; }
     void operator=(CString &&o) noexcept {
         if(this != &o) {
             bytes = move(o.bytes);
-- 
2.43.0


From a656d4b1be767421cfba75cf531cc7946bef6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 47/99] fix: CString::clear must leave the terminator in place

---
 include/pystd2026.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d4fe440..e0e891b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1724,7 +1724,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
-- 
2.43.0


From df5388d33324d038e73412f6d1964e3ad7cc1629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 48/99] fix: CString::substr must not read outside the string

---
 src/pystd2026.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ca6a146..546dc2c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -686,10 +686,14 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
+    if(offset > size()) {
+        throw PyException("CString substring index out of bounds.");
+    }
     if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+        length = size() - offset;
+    } else if(length > size() - offset) {
+        throw PyException("CString substring length out of bounds.");
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
-- 
2.43.0


From 3f1eec2a64502dd8ce465127cf05450d3a5986e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 49/99] fix: CString::operator+= must reject a null byte

---
 src/pystd2026.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 546dc2c..c72f049 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -758,9 +758,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
-- 
2.43.0


From 18629dc0d6652613d0e7e17254e6775a99d5784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 50/99] fix: appending a part of a CString to itself read freed
 memory

---
 src/pystd2026.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c72f049..faa0d7d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -788,6 +788,12 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        // Growing would free the text being appended.
+        const CString copy(str, strsize);
+        append(copy.c_str(), strsize);
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
-- 
2.43.0


From e6e15c2741e95d59a4fff0d1a8b461808b027542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 51/99] fix: CString::insert reports bad positions and
 therefore must not be noexcept

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e0e891b..7602203 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1785,7 +1785,7 @@ public:
     void pop_back() noexcept;
     void push_back(const char c) noexcept { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index faa0d7d..b3b41e7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -826,7 +826,7 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From ae7d9fe5260e0d12ba0fabd6b11f3589b7381a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 52/99] fix: CString::rfind must not find the terminator

---
 src/pystd2026.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b3b41e7..7243d21 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -838,12 +838,10 @@ void CString::insert(size_t i, const CStringView &v) {
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
-        if(bytes[i] == c) {
-            return i;
+    for(size_t i = size(); i > 0; --i) {
+        if(bytes[i - 1] == c) {
+            return i - 1;
         }
-        --i;
     }
     return -1;
 }
-- 
2.43.0


From ae7312bd5748dfb2890e8567eaf3f74b5f31cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 53/99] fix: CString::resize must keep the terminator

---
 include/pystd2026.hpp | 3 ++-
 src/pystd2026.cpp     | 9 +++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7602203..61d8269 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1793,7 +1793,8 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    // New characters are spaces.
+    void resize(size_t new_size) noexcept;
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7243d21..3ba68fc 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -835,6 +835,15 @@ void CString::insert(size_t i, const CStringView &v) {
     bytes.insert(i, v.data(), v.size());
 }
 
+void CString::resize(size_t new_size) noexcept {
+    const auto old_size = size();
+    bytes.resize(new_size + 1);
+    for(size_t i = old_size; i < new_size; ++i) {
+        bytes.data()[i] = ' ';
+    }
+    bytes.data()[new_size] = '\0';
+}
+
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-- 
2.43.0


From 34062fb053d6257977141e94c7714f9b13d5d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 54/99] fix: CString::remove must not remove the terminator

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 61d8269..6ceb579 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1796,7 +1796,7 @@ public:
     // New characters are spaces.
     void resize(size_t new_size) noexcept;
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to);
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3ba68fc..26a952d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -835,6 +835,13 @@ void CString::insert(size_t i, const CStringView &v) {
     bytes.insert(i, v.data(), v.size());
 }
 
+void CString::remove(size_t from, size_t to) {
+    if(to > size()) {
+        throw PyException("Invalid sequence to remove.");
+    }
+    bytes.remove(from, to);
+}
+
 void CString::resize(size_t new_size) noexcept {
     const auto old_size = size();
     bytes.resize(new_size + 1);
-- 
2.43.0


From af81f3b320ab0de9e5ca5ad2be48c77835833df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 55/99] fix: CString::front must report an empty string

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6ceb579..c88c0f9 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1778,7 +1778,7 @@ public:
         return bytes.size() == 1;
     }
 
-    char front() const { return bytes.front(); }
+    char front() const;
 
     char back() const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 26a952d..320986b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -812,6 +812,13 @@ ZStringView CString::zview() const {
 
 bool ZStringView::operator==(const char *text) const noexcept { return view() == text; }
 
+char CString::front() const {
+    if(is_empty()) {
+        throw PyException("Called front() on empty string.");
+    }
+    return bytes.front();
+}
+
 char CString::back() const {
     if(bytes.size() < 2) {
         throw PyException("Called back() on empty string.");
-- 
2.43.0


From f8d5c2a34a01a9b6205ef2c887d45b5ec9f89b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 56/99] fix: CString::push_back reports null bytes and
 therefore must not be noexcept

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index c88c0f9..9cbade7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1783,7 +1783,7 @@ public:
     char back() const;
 
     void pop_back() noexcept;
-    void push_back(const char c) noexcept { append(c); }
+    void push_back(const char c) { append(c); }
 
     void insert(size_t i, const CStringView &v);
 
-- 
2.43.0


From e2bad11f3d4b98f754fc5d9e9afd9c9e30295aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 57/99] fix: assigning a part of itself to a CString lost the
 text

clear() overwrote the text that was being assigned.
---
 src/pystd2026.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 320986b..9e3c126 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -770,7 +770,6 @@ CString &CString::operator+=(const char *str) {
 
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
-- 
2.43.0


From 1961421b4eddba105eb4cfa11cbeeac0f08a2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 58/99] fix: CString::insert accepted null bytes

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 9e3c126..ec4253e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -838,6 +838,9 @@ void CString::insert(size_t i, const CStringView &v) {
         insert(i, string_copy.view());
         return;
     }
+    if(v.find('\0') != (size_t)-1) {
+        throw PyException("Tried to add a null byte to a CString.");
+    }
     bytes.insert(i, v.data(), v.size());
 }
 
-- 
2.43.0


From 02a9a2662c23c28e32b778f7f28447258be30203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 59/99] fix: FixedCString constructed with a length read past
 the text and lacked a terminator

---
 include/pystd2026.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9cbade7..3495b72 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1841,9 +1841,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
-- 
2.43.0


From f30f45759de28b2640c0f6c1822151d341c94bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 60/99] fix: assigning a too long FixedCString of another size
 must be reported

The operator was noexcept, so the report ended the program.
---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3495b72..bd6a16f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1866,7 +1866,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
-- 
2.43.0


From b726df76cae1e3a5a2da3954e4bdb27ccd91e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 61/99] fix: assigning the beginning of a FixedCString to
 itself did nothing

---
 include/pystd2026.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index bd6a16f..b29dc2e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1872,9 +1872,6 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
-            return *this;
-        }
         if(o.size() > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-- 
2.43.0


From ab0921c436c8d26f2026662f3eede34f7679a41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 62/99] fix: comparing a FixedCString that holds a null byte
 read past the end of the C string

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b29dc2e..2dc1e50 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1899,6 +1899,9 @@ public:
             if(buf[i] != str[i]) {
                 return false;
             }
+            if(str[i] == '\0' && i < strsize) {
+                return false;
+            }
         }
         return true;
     }
-- 
2.43.0


From 964558b31b1351c7febb378f49f1cc15591318ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 63/99] fix: natural_order read the right hand number at the
 left hand position

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ec4253e..02cd57a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -551,7 +551,7 @@ int CStringView::natural_order(const CStringView &o) const {
         char *left_end;
         char *right_end;
         const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
+        const auto right_int = strtoul(right + i_right, &right_end, 10);
         const bool left_has_num = (left + i_left) != left_end;
         const bool right_has_num = (right + i_right) != right_end;
 
-- 
2.43.0


From fd11275fa9d986057739071a77f438c4a5cac8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 64/99] fix: natural_order read past its views and misread
 signs, white space and long numbers

---
 src/pystd2026.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 02cd57a..aead42e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -22,6 +22,8 @@ void bootstrap_throw(const char *msg) { throw PyException(msg); }
 
 namespace {
 
+bool is_ascii_digit(char c) { return c >= '0' && c <= '9'; }
+
 bool is_ascii_whitespace(uint32_t c) {
     return c == ' ' || c == '\n' || c == '\n' || c == '\t' || c == '\r';
 }
@@ -548,23 +550,35 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_right, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const bool left_has_num = is_ascii_digit(left[i_left]);
+        const bool right_has_num = is_ascii_digit(right[i_right]);
 
         if(left_has_num) {
             if(right_has_num) {
-                if(left_int < right_int) {
-                    return -1;
+                // Numbers can be arbitrarily long and the views need not be terminated.
+                while(i_left < bufsize && left[i_left] == '0') {
+                    ++i_left;
+                }
+                while(i_right < o.bufsize && right[i_right] == '0') {
+                    ++i_right;
+                }
+                const size_t left_start = i_left;
+                const size_t right_start = i_right;
+                while(i_left < bufsize && is_ascii_digit(left[i_left])) {
+                    ++i_left;
+                }
+                while(i_right < o.bufsize && is_ascii_digit(right[i_right])) {
+                    ++i_right;
+                }
+                const size_t left_digits = i_left - left_start;
+                const size_t right_digits = i_right - right_start;
+                if(left_digits != right_digits) {
+                    return left_digits < right_digits ? -1 : 1;
                 }
-                if(left_int > right_int) {
-                    return 1;
+                const int rc = memcmp(left + left_start, right + right_start, left_digits);
+                if(rc != 0) {
+                    return rc < 0 ? -1 : 1;
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
             } else {
                 return -1;
             }
-- 
2.43.0


From 2cd7c69bf9e9810548edee53dfca648e0ec1c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 65/99] fix: natural_order ordered bytes above 127 before all
 others unlike operator<

---
 src/pystd2026.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index aead42e..38b427e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -585,10 +585,12 @@ int CStringView::natural_order(const CStringView &o) const {
         } else if(right_has_num) {
             return 1;
         } else {
-            if(left[i_left] < right[i_right]) {
+            const auto left_byte = (unsigned char)left[i_left];
+            const auto right_byte = (unsigned char)right[i_right];
+            if(left_byte < right_byte) {
                 return -1;
             }
-            if(left[i_left] > right[i_right]) {
+            if(left_byte > right_byte) {
                 return 1;
             }
             ++i_left;
-- 
2.43.0


From f64eb24dd37d086b0e61570f40d9b82f17721f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 66/99] fix: matching a glob star that is not at the start of
 the name read past its end

---
 src/pystd2026_filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..6079384 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -43,7 +43,7 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
-- 
2.43.0


From 05c7dceda7142e0e8cdd83e06d2742f4286f977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 67/99] fix: a glob star at the end of a pattern did not match
 the empty string

---
 src/pystd2026_filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 6079384..49bfb2a 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -26,6 +26,10 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
+        if(pattern_char == '*') {
+            // A star also matches the empty string.
+            return glob_matches(text, text_offset, pattern, pattern_offset + 1);
+        }
         return false;
     }
     if(pattern_char == '\0') {
-- 
2.43.0


From 6d152adb9b618f0d2c4e579f1dd7a9a70585369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 68/99] fix: joining or detaching a Thread twice used a dead
 thread handle

---
 src/pystd2026_threading.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 20095b7..6e03ee5 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -59,11 +59,17 @@ Thread::~Thread() {
 }
 
 void Thread::join() {
+    if(thread_is_finalized) {
+        throw PyException("Thread was already joined or detached.");
+    }
     pthread_join(thread, nullptr);
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
+    if(thread_is_finalized) {
+        throw PyException("Thread was already joined or detached.");
+    }
     pthread_detach(thread);
     thread_is_finalized = true;
 }
-- 
2.43.0


From 7edd8eb9c6738e2e62a2767db8b952d404885bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 69/99] fix: move assigning to an MMapping leaked its old
 mapping

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2dc1e50..0f4b6ff 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2285,6 +2285,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping released(::pystd2026::move(*this));
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From 97c69d12e9abb6565ae942aa343e1645a10579b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 70/99] fix: File::readline_bytes added a NUL byte to an
 unterminated last line

---
 src/pystd2026.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 38b427e..e6a519b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1277,9 +1277,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
-- 
2.43.0


From f384bbe506acf0dc76a3fc2c6061f89af9a639f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 71/99] fix: dereferencing a FileLineIterator a second time
 skipped a line

---
 src/pystd2026.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e6a519b..d15c86e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1256,6 +1256,7 @@ bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eo
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        is_up_to_date = true;
     }
     return move(line);
 }
-- 
2.43.0


From cc9e0c9d7fb4a144f9a09d63e41e719ed33aecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:06 +0000
Subject: [PATCH 72/99] fix: load_bytes aborted on a directory and lost the
 contents of files that report no size

---
 src/pystd2026_filesystem.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 49bfb2a..90a48c4 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -171,18 +171,20 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    // The size of the file is not a reliable guide to how much can be read:
+    // it is zero for e.g. files in /proc and nonsense for directories and pipes.
+    const size_t block_size = 4096;
     Bytes contents;
-    contents.resize_to(file_size);
-    auto bytes_read = fread(contents.data(), 1, file_size, f);
-    if(ferror(f) != 0) {
-        fclose(f);
-        return Optional<Bytes>();
-    }
+    size_t bytes_read;
+    do {
+        contents.extend(block_size);
+        bytes_read =
+            fread(contents.data() + contents.size() - block_size, 1, block_size, f);
+        contents.shrink(block_size - bytes_read);
+    } while(bytes_read == block_size);
+    const bool failed = ferror(f) != 0;
     fclose(f);
-    if(bytes_read != (size_t)file_size) {
+    if(failed) {
         return Optional<Bytes>();
     }
     return Optional<Bytes>(move(contents));
-- 
2.43.0


From b7bf066f2c5c1b0352b41acd1a85ab9252a811a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 73/99] fix: formatting a text of 1024 bytes or more aborted

---
 src/pystd2026.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index d15c86e..76f7009 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1362,21 +1362,30 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
+    // Formatting consumes the argument list.
+    va_list ap2;
+    va_copy(ap2, ap);
     auto rc = vsnprintf(buf, bufsize, format, ap);
-    if(rc < 0) {
-        throw PyException(strerror(errno));
-    } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
-            // Almost certainly either a bug or an exploit.
-            internal_failure("Tried to format a buffer that is too big.");
+    if(rc < bufsize) {
+        va_end(ap2);
+        if(rc < 0) {
+            throw PyException(strerror(errno));
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
-        assert(rc > 0);
-        cb(bigbuf.get(), rc, ctx);
-    } else {
         cb(buf, rc, ctx);
+        return;
+    }
+    if(rc >= INT_MAX - 1) {
+        // Almost certainly either a bug or an exploit.
+        internal_failure("Tried to format a buffer that is too big.");
+    }
+    const size_t bigsize = (size_t)rc + 1;
+    unique_arr<char> bigbuf(bigsize);
+    rc = vsnprintf(bigbuf.get(), bigsize, format, ap2);
+    va_end(ap2);
+    if(rc < 0 || (size_t)rc >= bigsize) {
+        throw PyException("Formatting failed.");
     }
+    cb(bigbuf.get(), rc, ctx);
 }
 
 double clamp(double val, double lower, double upper) {
-- 
2.43.0


From 56a8c7be6768d46b3872b01d4656251171153cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 74/99] fix: format_append silently cut the text at a NUL byte

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 0f4b6ff..d9b3dac 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2336,7 +2336,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
-- 
2.43.0


From 2f050699f69a5f793643367a5b45fd13dc61ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 75/99] fix: the root directory path became an empty, relative
 path

---
 src/pystd2026_filesystem.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 90a48c4..0b9e3c9 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -93,19 +93,20 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
     return all_subdirs;
 }
 
-} // namespace
-
-Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
-        buf.pop_back();
+void drop_trailing_separators(CString &path) {
+    // A lone separator is the root directory.
+    size_t new_size = path.size();
+    while(new_size > 1 && path[new_size - 1] == '/') {
+        --new_size;
     }
+    path.resize(new_size);
 }
 
-Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
-        buf.pop_back();
-    }
-}
+} // namespace
+
+Path::Path(const char *path) : buf{path} { drop_trailing_separators(buf); }
+
+Path::Path(CString path) : buf{move(path)} { drop_trailing_separators(buf); }
 
 bool Path::exists() const noexcept {
     struct stat sb;
@@ -134,9 +135,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') {
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
-- 
2.43.0


From 053e8b424ca65ac6147ccf2985497383c59ef648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 76/99] fix: Path extension functions used dots of directory
 names and could leave a trailing separator

---
 src/pystd2026_filesystem.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 0b9e3c9..d3f93be 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -102,6 +102,16 @@ void drop_trailing_separators(CString &path) {
     path.resize(new_size);
 }
 
+size_t extension_start(const CString &path) {
+    const auto dot = path.rfind('.');
+    const auto separator = path.rfind('/');
+    if(dot != (size_t)-1 && separator != (size_t)-1 && dot < separator) {
+        // The dot is in the name of a directory.
+        return -1;
+    }
+    return dot;
+}
+
 } // namespace
 
 Path::Path(const char *path) : buf{path} { drop_trailing_separators(buf); }
@@ -151,7 +161,7 @@ Path Path::operator/(const char *str) const noexcept {
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
+    auto loc = extension_start(buf);
     if(loc == (size_t)-1) {
         return CString();
     }
@@ -206,9 +216,7 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
+    auto extpoint = extension_start(buf);
     if(extpoint == (size_t)-1) {
         buf += new_extension;
     } else {
@@ -217,6 +225,7 @@ void Path::replace_extension(CStringView new_extension) {
         }
         buf += new_extension;
     }
+    drop_trailing_separators(buf);
 }
 
 bool Path::rename_to(const Path &targetname) const noexcept {
-- 
2.43.0


From 07714fd213dc9b4a3f6318f38f1f8677cda78516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 77/99] fix: glob lost the leading directories of results and
 looked in the wrong ones for patterns of several parts

---
 src/pystd2026_filesystem.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index d3f93be..5de8895 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -299,24 +299,22 @@ private:
         auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
         const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
         if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
+            unique_ptr<DIR, DirCloser> dir(sd);
             const bool do_starstar = parts[new_depth] == "**";
+            // ** expands to any number of directories, also to none. What comes after it
+            // is looked for in all of them. When it is last, it matches all their entries.
+            const auto match_depth =
+                do_starstar && new_depth + 1 < parts.size() ? new_depth + 1 : new_depth;
+            dir_stack.emplace_back(match_depth, full_path, move(dir));
             if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
+                auto sstar_dirs = glob_starstar_dirs(full_path);
                 for(auto &sdir : sstar_dirs) {
                     auto *ssd = opendir(sdir.c_str());
                     if(ssd) {
                         dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
+                            match_depth, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
                     }
                 }
-            } else {
             }
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
-- 
2.43.0


From bca8197bdb310779bc0ed38119706bde5331ada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 78/99] fix: a moved-from directory handle was closed

---
 src/pystd2026_filesystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 5de8895..d5f219b 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -13,7 +13,11 @@ namespace pystd2026 {
 namespace {
 
 struct DirCloser {
-    static void del(DIR *dir) { closedir(dir); }
+    static void del(DIR *dir) {
+        if(dir) {
+            closedir(dir);
+        }
+    }
 };
 
 bool glob_matches(const char *text,
-- 
2.43.0


From c684a051557737d870c8a4991de690a59d08f4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 79/99] fix: U8Match::group read beyond the result vector for
 the first group number that does not exist

---
 src/pystd2026_regex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..677417d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -60,7 +60,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
-- 
2.43.0


From f4a459d953f1642dd01761f18026c451a9f6b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 80/99] fix: regex groups that took no part in the match were
 pointers before the text

---
 src/pystd2026_regex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 677417d..e04a56f 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -48,6 +48,9 @@ U8String U8Match::get_submatch(size_t i) {
         throw PyException("Submatch does not exist.");
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
+    if(ovector[2 * i] == PCRE2_UNSET) {
+        throw PyException("Submatch is not part of the match.");
+    }
     auto match_start = ovector[2 * i];
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
@@ -65,6 +68,9 @@ U8StringView U8Match::group(size_t group_num) const {
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
 
+    if(group_vector[2 * group_num] == PCRE2_UNSET) {
+        throw PyException("Regex group is not part of the match.");
+    }
     const size_t match_start = group_vector[2 * group_num];
     const size_t match_end = group_vector[2 * group_num + 1];
     return U8StringView{ValidU8Iterator{(const unsigned char *)original->c_str() + match_start},
-- 
2.43.0


From c763dc85d010ea3d498e5acfcf6796a307edff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 81/99] fix: a short option at the end of the command line read
 its value from beyond it

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From 4fe3acc9d28402e9fec66cb4e13eab21f17fbfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 82/99] fix: integer arguments took text that is not a number
 for 0

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..e79797e 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *endptr = nullptr;
+            int64_t intval = strtol(tmp.c_str(), &endptr, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(endptr == tmp.c_str() || *endptr != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From 7e01f7f63a9334d0e7ce171b5780ca6cc5c6c1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 83/99] fix: text attached to an option without parameter was
 dropped silently

---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index e79797e..9ba42a9 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -228,6 +228,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -261,7 +264,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() > 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From abefb1ab8ce217a9a4011b68453b229de5217b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 84/99] fix: an option with an empty value was an out of bounds
 error

---
 src/pystd2026_argparse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 9ba42a9..1ddd752 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -219,7 +219,8 @@ int ArgParse::process_long_argument(
 
     if(arg.needs_parameter()) {
         if(splitpoint != (size_t)-1) {
-            valuepart = current.substr(splitpoint + 1);
+            // The value may be empty.
+            valuepart = CStringView(argv[i] + splitpoint + 1);
         } else {
             if(i + 1 >= argc) {
                 fprintf(stderr, "Last entry on the command line would need a further argument.\n");
-- 
2.43.0


From 1e0a0d64d3edcf52528f04190d9e3003a893fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 85/99] fix: arguments of a parse that failed showed up in the
 results of the next one

---
 src/pystd2026_argparse.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 1ddd752..1e9f048 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -141,6 +141,9 @@ void ArgParse::argument_matched(ParseResult &pr, size_t match_index, CStringView
 
 Optional<ParseOutput> ArgParse::parse_args(int argc, const char **argv) {
     progname = argv[0];
+    // A previous parse may have ended with an exception.
+    posargs.clear();
+    extra_args.clear();
     ParseResult result = create_value_obj();
     for(int i = 1; i < argc; ++i) {
         CStringView current(argv[i]);
-- 
2.43.0


From 484244a20c84f191370045ed2e31c286f8942ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 86/99] fix: the value of a boolean argument was dropped
 silently

---
 src/pystd2026_argparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 1e9f048..f53edd8 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -81,7 +81,7 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             break;
         }
         case ArgumentType::Boolean:
-            break;
+            throw PyException("A boolean argument does not take a value.");
         case ArgumentType::Integer: {
             // FIXME, needed for null terminator.
             CString tmp(source);
-- 
2.43.0


From 1bdf6369a000701567676b3da5f8ff3ce5c12651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:27 +0000
Subject: [PATCH 87/99] fix: hash sets and hash maps with a hash algorithm of
 their own could not be iterated

---
 include/pystd2026_hashtable.hpp | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..cda21f8 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -5,7 +5,7 @@
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo = SimpleHash> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -15,7 +15,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -106,12 +106,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -282,9 +282,9 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -294,9 +294,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -309,25 +309,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -358,9 +358,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
-- 
2.43.0


From 1c3b2dfb09db5dae40a63c30c6794097aecf5eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 88/99] fix: a hash map that was moved from could not be used
 any more, and assigning to one leaked its entries

---
 include/pystd2026_hashtable.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index cda21f8..7a6b657 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -27,6 +27,17 @@ public:
         data.valuedata = Bytes(initial_table_size * sizeof(Value));
     }
 
+    // A map that was moved from is empty.
+    HashMap(HashMap &&o) noexcept : HashMap() { swap_contents(o); }
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            clear();
+            swap_contents(o);
+        }
+        return *this;
+    }
+
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
@@ -152,6 +163,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
@@ -232,6 +244,15 @@ private:
         }
     }
 
+    void swap_contents(HashMap &o) noexcept {
+        MapData tmp_data = ::pystd2026::move(data);
+        data = ::pystd2026::move(o.data);
+        o.data = ::pystd2026::move(tmp_data);
+        ::pystd2026::swap(salt, o.salt);
+        ::pystd2026::swap(num_entries, o.num_entries);
+        ::pystd2026::swap(size_in_powers_of_two, o.size_in_powers_of_two);
+    }
+
     void grow() {
         const auto new_size = 2 * table_size();
         const auto new_powers_of_two = size_in_powers_of_two + 1;
-- 
2.43.0


From f6ca2ebee548653086a9f5ceb902d3f4fde24acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 89/99] fix: removing from a hash map did not destroy the key

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 7a6b657..7923040 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -86,6 +86,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
                     if(data.md[previous_slot].state == SlotState::Empty &&
-- 
2.43.0


From f104f44df674ad51b90383386fe173de0c5a3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 90/99] fix: inserting a key that was already in the hash map
 could add it a second time

---
 include/pystd2026_hashtable.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 7923040..0757912 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -65,6 +65,10 @@ public:
     }
 
     Value &insert(const Key &key, Value v) {
+        if(auto *existing = lookup(key)) {
+            *existing = ::pystd2026::move(v);
+            return *existing;
+        }
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
             grow();
         }
@@ -221,6 +225,7 @@ private:
         return slot;
     }
 
+    // The key must not be in the table.
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
         while(true) {
@@ -233,14 +238,6 @@ private:
                 ++num_entries;
                 return *value_loc;
             }
-            if(data.md[slot].bloom_matches(hashval)) {
-                auto *potential_key = data.keyptr(slot);
-                if(*potential_key == key) {
-                    auto *value_loc = data.valueptr(slot);
-                    *value_loc = ::pystd2026::move(v);
-                    return *value_loc;
-                }
-            }
             slot = (slot + 1) & mod_mask();
         }
     }
-- 
2.43.0


From bd8aee66df38a05911f8ffe8d7b60953b729fc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:08 +0000
Subject: [PATCH 91/99] fix: hash map operations did not terminate once all
 free slots were tombstones

---
 include/pystd2026_hashtable.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 0757912..0ed9e0d 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -19,6 +19,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
@@ -98,6 +99,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -133,6 +135,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -230,6 +233,9 @@ private:
         auto slot = hash_to_slot(hashval);
         while(true) {
             if(data.md[slot].state != SlotState::HasValue) {
+                if(data.md[slot].state == SlotState::Tombstone) {
+                    --num_tombstones;
+                }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
                 new(key_loc) Key(key);
@@ -248,12 +254,15 @@ private:
         o.data = ::pystd2026::move(tmp_data);
         ::pystd2026::swap(salt, o.salt);
         ::pystd2026::swap(num_entries, o.num_entries);
+        ::pystd2026::swap(num_tombstones, o.num_tombstones);
         ::pystd2026::swap(size_in_powers_of_two, o.size_in_powers_of_two);
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // If most used slots are tombstones, getting rid of them is enough.
+        const bool mostly_tombstones = num_tombstones > num_entries;
+        const auto new_size = mostly_tombstones ? table_size() : 2 * table_size();
+        const auto new_powers_of_two = size_in_powers_of_two + (mostly_tombstones ? 0 : 1);
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -265,6 +274,7 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -286,13 +296,15 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    // Tombstones count, because searches only end at empty slots.
+    size_t fill_ratio() const { return ((num_entries + num_tombstones) * 100) / table_size(); }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From 4dbe7e5b41162fac6a35ca2752bea73fdc233690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 92/99] fix: elements could not be removed from B-trees of
 anything but numbers

---
 include/pystd2026_btree.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..8da0ab6 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 5174921da29a52630bd47334346b4f3463bcf057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:03 +0000
Subject: [PATCH 93/99] fix: B-tree maps could not be used at all

---
 include/pystd2026_btree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 8da0ab6..bd9d6fc 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -1045,9 +1045,9 @@ private:
         Value value;
         bool operator==(const MapEntry &o) const noexcept { return key == o.key; }
         bool operator<(const MapEntry &o) const noexcept { return key < o.key; }
-
-        bool operator==(const Key &k) const noexcept { return k == key; }
-        bool operator<(const Key &k) const noexcept { return k <= key; }
+        int operator<=>(const MapEntry &o) const noexcept {
+            return DefaultComparator<Key>{}.compare(key, o.key);
+        }
     };
 
 public:
@@ -1063,7 +1063,7 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
-- 
2.43.0


From d1f6ff214fa7841fdfafde619f89dc86216a2ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 94/99] fix: elements added to a B-tree after its last one was
 removed were lost

---
 include/pystd2026_btree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index bd9d6fc..f1394ed 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -882,6 +882,9 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            internals.clear();
+            leaves.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
-- 
2.43.0


From aa2090ac9864e21ea6a1964d5d33c049660f2863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 95/99] fix: removing from an internal node of a B-tree could
 leave nodes with too few elements

---
 include/pystd2026_btree.hpp | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index f1394ed..2730546 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -658,27 +658,11 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            return replace_value(value, extract_value(predecessor, lc_id));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            return replace_value(value, extract_value(successor, rc_id));
         } else {
             debug_print("Before merge.");
             merge_siblings_of_entry(node_id, node_loc);
@@ -689,6 +673,15 @@ private:
         abort();
     }
 
+    // Extracting the replacement may have moved nodes around, so look the value up again.
+    Payload replace_value(const Payload &value, Optional<Payload> &&replacement) {
+        assert(replacement);
+        auto &location = *const_cast<Payload *>(lookup(value));
+        Payload old_value = ::pystd2026::move(location);
+        location = ::pystd2026::move(replacement.value());
+        return old_value;
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
-- 
2.43.0


From 1f139b19bf9f3390f6ba3e0a399b9a1780b6bd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 96/99] fix: removing from a B-tree used the old position of a
 merged node that had been moved

---
 include/pystd2026_btree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 2730546..6a367fe 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -665,8 +665,8 @@ private:
             return replace_value(value, extract_value(successor, rc_id));
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            auto merged_node_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_node_id);
             assert(sub_value);
             return ::pystd2026::move(sub_value.value());
         }
-- 
2.43.0


From e19b48ce723ada7413521ae299e819578472fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 97/99] fix: the new root of a B-tree could get lost when the
 old one was removed

---
 include/pystd2026_btree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 6a367fe..c70d5c4 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -888,7 +888,10 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
+            if(!new_root.to_leaf && new_root.id == internals.size() - 1) {
+                // Popping the old root moves the last node to its place.
+                new_root = root;
+            }
             swap_to_end_and_pop(root);
             root = new_root;
             get_node_common(root).parent = NodeReference::null_ref();
-- 
2.43.0


From 390e78239076e9ffd7ae2fb01359f86f6adf6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:08 +0000
Subject: [PATCH 98/99] fix: removing an element of a B-tree via a reference to
 itself removed something else

---
 include/pystd2026_btree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index c70d5c4..e4fcf9a 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,7 +34,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument may be an element of this tree.
+        const Payload to_remove(value);
+        auto v = extract_value(to_remove, root);
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 4144791acc5d0ffe52aeb21e0e8daebe05caa66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 99/99] fix: a B-tree that was moved from claimed to still have
 its elements

---
 include/pystd2026_btree.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index e4fcf9a..1ff601c 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -13,6 +13,28 @@ template<WellBehaved Payload, size_t EntryCount> class BTree {
     class BTreeIterator;
 
 public:
+    BTree() noexcept = default;
+
+    // A tree that was moved from is empty.
+    BTree(BTree &&o) noexcept
+        : root{o.root}, num_values{o.num_values}, internals{::pystd2026::move(o.internals)},
+          leaves{::pystd2026::move(o.leaves)} {
+        o.root = NodeReference::null_ref();
+        o.num_values = 0;
+    }
+
+    BTree &operator=(BTree &&o) noexcept {
+        if(this != &o) {
+            root = o.root;
+            num_values = o.num_values;
+            internals = ::pystd2026::move(o.internals);
+            leaves = ::pystd2026::move(o.leaves);
+            o.root = NodeReference::null_ref();
+            o.num_values = 0;
+        }
+        return *this;
+    }
+
     void insert(const Payload &value) {
         Payload p(value);
         insert(::pystd2026::move(p));
-- 
2.43.0


From de119562305df7459f26082fe14f1d7d185733e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 01/23] fix: overlay_mask of a 32-bit unsigned index must write
 -1 for missing values

---
 src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
index de98cec..d1b7dc1 100644
--- a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
+++ b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
@@ -12,7 +12,7 @@ ERROR awkward_IndexedArray_overlay_mask(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     M m = mask[i];
-    toindex[i] = (m ? -1 : fromindex[i]);
+    toindex[i] = (m ? -1 : (TO)fromindex[i]);
   }
   return success();
 }
-- 
2.43.0


From c6acfa8460cf1dfe3f6cf089f09b78eecd253697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 02/23] fix: index carry must reject a position equal to the
 length

---
 src/cpu-kernels/awkward_Index_carry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_Index_carry.cpp b/src/cpu-kernels/awkward_Index_carry.cpp
index 3b1dfc5..4a8b514 100644
--- a/src/cpu-kernels/awkward_Index_carry.cpp
+++ b/src/cpu-kernels/awkward_Index_carry.cpp
@@ -13,7 +13,7 @@ ERROR awkward_index_carry(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     T j = carry[i];
-    if (j > lenfromindex) {
+    if (j >= lenfromindex) {
       return failure("index out of range", kSliceNone, j, FILENAME(__LINE__));
     }
     toindex[i] = fromindex[(size_t)(j)];
-- 
2.43.0


From ed0e35196b9ad515eab719a35513cd68cf3cc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:18 +0000
Subject: [PATCH 03/23] fix: ravel of slice arrays with three or more
 dimensions

---
 src/cpu-kernels/awkward_slicearray_ravel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_slicearray_ravel.cpp b/src/cpu-kernels/awkward_slicearray_ravel.cpp
index b4196e8..b5bfc80 100644
--- a/src/cpu-kernels/awkward_slicearray_ravel.cpp
+++ b/src/cpu-kernels/awkward_slicearray_ravel.cpp
@@ -17,10 +17,14 @@ ERROR awkward_slicearray_ravel(
     }
   }
   else {
+    int64_t itemsize = 1;
+    for (int64_t d = 1;  d < ndim;  d++) {
+      itemsize *= shape[d];
+    }
     for (T i = 0;  i < shape[0];  i++) {
       ERROR err =
         awkward_slicearray_ravel<T>(
-          &toptr[i*shape[1]],
+          &toptr[i*itemsize],
           &fromptr[i*strides[0]],
           ndim - 1,
           &shape[1],
-- 
2.43.0


From 3b079d59c8c9ab66093319d039c4fcce510c1142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:31 +0000
Subject: [PATCH 04/23] fix: argmin/argmax of complex numbers must compare with
 the current best element

---
 src/cpu-kernels/awkward_reduce_argmax_complex.cpp | 6 +++---
 src/cpu-kernels/awkward_reduce_argmin_complex.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
index 37069b7..e281bb7 100644
--- a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmax_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] > fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] > fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] > fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] > fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
index 711c050..a106410 100644
--- a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmin_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] < fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] < fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] < fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] < fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
-- 
2.43.0


From c09a848d8f1ef7bdf9dc5770519b991e0b3d0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:42 +0000
Subject: [PATCH 05/23] fix: non-local reduction must not count empty lists
 when spacing its output

Gaps between output lists were computed from the parents of all lists, but
only non-empty lists contribute distinct values, so an entry with nothing
but empty lists shifted every following result:
ak.sum([[[1]], [[]], [[2]]], axis=1) gave [[1], [2], []].
---
 src/libawkward/array/ListOffsetArray.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..060e7e6 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1409,12 +1409,23 @@ namespace awkward {
         nextlen);
       util::handle_error(err4, classname(), identities_.get());
 
+      // empty lists contribute no distincts, so they must not contribute gaps
+      Index64 nonemptyparents(parents.length());
+      int64_t numnonempty = 0;
+      for (int64_t i = 0;  i < parents.length();  i++) {
+        if (offsets_.getitem_at_nowrap(i) < offsets_.getitem_at_nowrap(i + 1)) {
+          nonemptyparents.setitem_at_nowrap(numnonempty,
+                                            parents.getitem_at_nowrap(i));
+          numnonempty++;
+        }
+      }
+
       Index64 gaps(outlength);
       struct Error err5 = kernel::ListOffsetArray_reduce_nonlocal_findgaps_64(
         kernel::lib::cpu,   // DERIVE
         gaps.data(),
-        parents.data(),
-        parents.length());
+        nonemptyparents.data(),
+        numnonempty);
       util::handle_error(err5, classname(), identities_.get());
 
       Index64 outstarts(outlength);
-- 
2.43.0


From 79173958d66199c7bcf5ce529cfd57d497e8ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:37 +0000
Subject: [PATCH 06/23] fix: identities of content beyond a RegularArray's last
 row were left uninitialised

---
 src/cpu-kernels/awkward_Identities_from_RegularArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_Identities_from_RegularArray.cpp b/src/cpu-kernels/awkward_Identities_from_RegularArray.cpp
index 5e794a4..8404139 100644
--- a/src/cpu-kernels/awkward_Identities_from_RegularArray.cpp
+++ b/src/cpu-kernels/awkward_Identities_from_RegularArray.cpp
@@ -21,7 +21,7 @@ ERROR awkward_Identities_from_RegularArray(
       toptr[(i*size + j)*(fromwidth + 1) + fromwidth] = (ID)(j);
     }
   }
-  for (int64_t k = (fromlength + 1)*size*(fromwidth + 1);
+  for (int64_t k = fromlength*size*(fromwidth + 1);
        k < tolength*(fromwidth + 1);
        k++) {
     toptr[k] = -1;
-- 
2.43.0


From 073f185330618b51462707d8b5418518f3728edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:37 +0000
Subject: [PATCH 07/23] fix: ListOffsetArray identities wrote past the buffer
 when offsets start beyond the content

---
 src/cpu-kernels/awkward_Identities_from_ListOffsetArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cpu-kernels/awkward_Identities_from_ListOffsetArray.cpp b/src/cpu-kernels/awkward_Identities_from_ListOffsetArray.cpp
index 7fa0735..dd9642d 100644
--- a/src/cpu-kernels/awkward_Identities_from_ListOffsetArray.cpp
+++ b/src/cpu-kernels/awkward_Identities_from_ListOffsetArray.cpp
@@ -14,6 +14,9 @@ ERROR awkward_Identities_from_ListOffsetArray(
   int64_t fromwidth) {
   int64_t globalstart = fromoffsets[0];
   int64_t globalstop = fromoffsets[fromlength];
+  if (globalstart > tolength) {   // all lists are empty or an error is raised
+    globalstart = tolength;
+  }
   for (int64_t k = 0;  k < globalstart*(fromwidth + 1);  k++) {
     toptr[k] = -1;
   }
-- 
2.43.0


From 81437d9abc39c9c2f68aad6dfec424eb54cb9321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:39 +0000
Subject: [PATCH 08/23] fix: sorting strings must not wrap the character
 position at 256

---
 src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
index fe55538..d2498e0 100644
--- a/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_sort_asstrings_uint8.cpp
@@ -29,7 +29,7 @@ ERROR awkward_NumpyArray_sort_asstrings_uint8(
     int64_t stop = offsets[k + 1];
     int64_t slen = start;
     std::string strvar;
-    for (uint8_t i = (uint8_t)start;  slen < stop;  i++) {
+    for (int64_t i = start;  slen < stop;  i++) {
       slen++;
       strvar += (char)fromptr[i];
     }
-- 
2.43.0


From 630e1140b6411c09fa65d728012dbc034913a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:39 +0000
Subject: [PATCH 09/23] fix: unique strings dropped a leading empty string and
 compared with overwritten characters

---
 src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
index cbebea3..1f0565a 100644
--- a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
@@ -20,7 +20,7 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
 
   for (int64_t i = 0;  i < offsetslength - 1;  i++) {
     differ = false;
-    if (offsets[i + 1] - offsets[i] != slen) {
+    if (i == 0  ||  offsets[i + 1] - offsets[i] != slen) {
       differ = true;
     }
     else {
@@ -32,9 +32,9 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
       }
     }
     if (differ) {
+      start = index;
       for (int64_t j = offsets[i]; j < offsets[i + 1]; j++) {
         toptr[index++] = toptr[j];
-        start = offsets[i];
      }
      counter++;
    }
-- 
2.43.0


From 59f4a1f43a7527c181fae705005816e5ac45a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:39 +0000
Subject: [PATCH 10/23] fix: an equal pair of lists was forgotten when a later
 pair differs

---
 src/cpu-kernels/awkward_NumpyArray_subrange_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_subrange_equal.cpp b/src/cpu-kernels/awkward_NumpyArray_subrange_equal.cpp
index f04084c..ad6e42f 100644
--- a/src/cpu-kernels/awkward_NumpyArray_subrange_equal.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_subrange_equal.cpp
@@ -16,9 +16,9 @@ ERROR awkward_NumpyArray_subrange_equal(
   int64_t leftlen;
   int64_t rightlen;
 
-  for (int64_t i = 0;  i < length - 1;  i++) {
+  for (int64_t i = 0;  differ  &&  i < length - 1;  i++) {
     leftlen = fromstops[i] - fromstarts[i];
-    for (int64_t ii = i + 1; ii < length - 1;  ii++) {
+    for (int64_t ii = i + 1; differ  &&  ii < length - 1;  ii++) {
       rightlen = fromstops[ii] - fromstarts[ii];
       if (leftlen == rightlen) {
         differ = false;
-- 
2.43.0


From 6a7a8a7c2d7d28e7a590d8eb17c5dcfab1bbd319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:07 +0000
Subject: [PATCH 11/23] fix: descending argsort of strings needs a strict
 ordering

---
 .../awkward_ListOffsetArray_argsort_strings.cpp       | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index 932270c..ce9ed5e 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -25,18 +25,11 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
           int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
-          bool out;
           if (cmp == 0) {
-            out = left_n < right_n;
+            return is_ascending ? left_n < right_n : left_n > right_n;
           }
           else {
-            out = cmp < 0;
-          }
-          if (is_ascending) {
-            return out;
-          }
-          else {
-            return !out;
+            return is_ascending ? cmp < 0 : cmp > 0;
           }
         };
 
-- 
2.43.0


From 9f15c99ae48b2d42c4d2fe26094e3d915a3cbdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:24 +0000
Subject: [PATCH 12/23] fix: sorting strings must compare the bytes after a
 zero byte

---
 src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index ce9ed5e..3c588f7 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -24,7 +24,7 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
           size_t right_n = stringstops[right] - stringstarts[right];
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
-          int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
+          int cmp = memcmp(left_str, right_str, std::min(left_n, right_n));
           if (cmp == 0) {
             return is_ascending ? left_n < right_n : left_n > right_n;
           }
-- 
2.43.0


From ce961c75f50c93d37ace7c2517fc87a0eb3cad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:59 +0000
Subject: [PATCH 13/23] fix: appending to a GrowableBuffer that has no room
 must always grow it

With initial=0 (or a resize factor that rounds back to the same size) the
reservation never grew and append wrote beyond the end of the buffer.
---
 src/libawkward/builder/GrowableBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..6fdcd65 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -123,7 +123,8 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      int64_t grown = (int64_t)ceil(reserved_ * options_.resize());
+      set_reserved((grown > reserved_) ? grown : reserved_ + 1);
     }
     ptr_.get()[length_] = datum;
     length_++;
-- 
2.43.0


From 61717047748316ae237560cef9dd180c4f89b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:59 +0000
Subject: [PATCH 14/23] fix: ForthInputBuffer must refuse negative reads and
 skips that overflow

A negative byte count moved the position in front of the buffer, and the next
read returned memory outside of it.
---
 src/libawkward/forth/ForthInputBuffer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/forth/ForthInputBuffer.cpp b/src/libawkward/forth/ForthInputBuffer.cpp
index 13807d6..72f2a7b 100644
--- a/src/libawkward/forth/ForthInputBuffer.cpp
+++ b/src/libawkward/forth/ForthInputBuffer.cpp
@@ -15,15 +15,14 @@ namespace awkward {
 
   void*
   ForthInputBuffer::read(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next > length_) {
+    if (num_bytes < 0  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::read_beyond;
       return nullptr;
     }
     void* out = reinterpret_cast<void*>(
         reinterpret_cast<size_t>(ptr_.get()) + (size_t)offset_ + (size_t)pos_
     );
-    pos_ = next;
+    pos_ += num_bytes;
     return out;
   }
 
@@ -39,12 +38,11 @@ namespace awkward {
 
   void
   ForthInputBuffer::skip(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next < 0  ||  next > length_) {
+    if (num_bytes < -pos_  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::skip_beyond;
     }
     else {
-      pos_ = next;
+      pos_ += num_bytes;
     }
   }
 
-- 
2.43.0


From 68400cfb731b057fd7e958e7a4a1904af31c7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:59 +0000
Subject: [PATCH 15/23] fix: ForthOutputBuffer::rewind must refuse a negative
 number of items

It extended the length beyond what had been written, and beyond what was
reserved.
---
 src/libawkward/forth/ForthOutputBuffer.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..9e3f70b 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -66,12 +66,11 @@ namespace awkward {
 
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
-    int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (num_items < 0  ||  num_items > length_) {
       err = util::ForthError::rewind_beyond;
     }
     else {
-      length_ = next;
+      length_ -= num_items;
     }
   }
 
-- 
2.43.0


From 875ff081f8359adec4b1b11c5713fdb249d90374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:59 +0000
Subject: [PATCH 16/23] fix: ForthOutputBuffer must always grow when it is
 asked to

With an initial size of 0 or a resize factor of at most 1 the loop that
looks for a sufficient reservation never ended.
---
 src/libawkward/forth/ForthOutputBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 9e3f70b..261eb66 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -711,7 +711,8 @@ namespace awkward {
     if (next > reserved_) {
       int64_t reservation = reserved_;
       while (next > reservation) {
-        reservation = (int64_t)std::ceil(reservation * resize_);
+        int64_t grown = (int64_t)std::ceil(reservation * resize_);
+        reservation = (grown > reservation) ? grown : reservation + 1;
       }
       std::shared_ptr<OUT> new_buffer = std::shared_ptr<OUT>(new OUT[reservation],
                                                              kernel::array_deleter<OUT>());
-- 
2.43.0


From 069c3f3b6a7a131bd6433d48afcb879d44ba5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:20 +0000
Subject: [PATCH 17/23] fix: sorting more than 2^31 elements counts positions
 in 64 bits

---
 .../awkward_ListOffsetArray_local_preparenext_64.cpp            | 2 +-
 src/cpu-kernels/awkward_argsort.cpp                             | 2 +-
 src/cpu-kernels/awkward_sort.cpp                                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_local_preparenext_64.cpp b/src/cpu-kernels/awkward_ListOffsetArray_local_preparenext_64.cpp
index 39540b2..44a6185 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_local_preparenext_64.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_local_preparenext_64.cpp
@@ -13,7 +13,7 @@ ERROR awkward_ListOffsetArray_local_preparenext_64(
   const int64_t* fromindex,
   int64_t length) {
   std::vector<int64_t> result(length);
-  std::iota(result.begin(), result.end(), 0);
+  std::iota(result.begin(), result.end(), (int64_t)0);
   std::sort(result.begin(), result.end(),
     [&fromindex](int64_t i1, int64_t i2) {
       return fromindex[i1] < fromindex[i2];
diff --git a/src/cpu-kernels/awkward_argsort.cpp b/src/cpu-kernels/awkward_argsort.cpp
index 23b91ae..d857b6c 100644
--- a/src/cpu-kernels/awkward_argsort.cpp
+++ b/src/cpu-kernels/awkward_argsort.cpp
@@ -18,7 +18,7 @@ ERROR awkward_argsort(
   bool ascending,
   bool stable) {
   std::vector<int64_t> result(length);
-  std::iota(result.begin(), result.end(), 0);
+  std::iota(result.begin(), result.end(), (int64_t)0);
 
   if (ascending  &&  stable) {
     for (int64_t i = 0;  i < offsetslength - 1;  i++) {
diff --git a/src/cpu-kernels/awkward_sort.cpp b/src/cpu-kernels/awkward_sort.cpp
index 9a71958..69caaa9 100644
--- a/src/cpu-kernels/awkward_sort.cpp
+++ b/src/cpu-kernels/awkward_sort.cpp
@@ -19,7 +19,7 @@ ERROR awkward_sort(
   bool ascending,
   bool stable) {
   std::vector<int64_t> index(length);
-  std::iota(index.begin(), index.end(), 0);
+  std::iota(index.begin(), index.end(), (int64_t)0);
 
   if (ascending  &&  stable) {
     for (int64_t i = 0;  i < offsetslength - 1;  i++) {
-- 
2.43.0


From 99d859964c6f9507923fff84238654c72283073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:39 +0000
Subject: [PATCH 18/23] fix: the number of bytes of a repeated Forth read must
 not overflow

---
 src/libawkward/forth/ForthMachine.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..3c97403 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -9,6 +9,19 @@
 #include "awkward/forth/ForthMachine.h"
 
 namespace awkward {
+  // Number of bytes in num_items items. If there are fewer than none or too many
+  // to count, the result is a number of bytes that no input buffer can read.
+  inline int64_t
+  bytes_to_read(int64_t num_items, int64_t itemsize) {
+    if (num_items < 0) {
+      return -1;
+    }
+    if (num_items > kMaxInt64 / itemsize) {
+      return kMaxInt64;
+    }
+    return num_items * itemsize;
+  }
+
   // Instruction values are preprocessor macros to be equally usable in 32-bit and
   // 64-bit instruction sets.
 
@@ -2854,7 +2867,7 @@ namespace awkward {
             #define WRITE_DIRECTLY(TYPE, SUFFIX) {                             \
                 TYPE* ptr = reinterpret_cast<TYPE*>(                           \
                     current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->read( \
-                      num_items * (int64_t)sizeof(TYPE), current_error_));     \
+                      bytes_to_read(num_items, (int64_t)sizeof(TYPE)), current_error_)); \
                 if (current_error_ != util::ForthError::none) {                \
                   return;                                                      \
                 }                                                              \
@@ -2893,7 +2906,7 @@ namespace awkward {
               # define WRITE_TO_STACK(TYPE) {                                  \
                 TYPE* ptr = reinterpret_cast<TYPE*>(                           \
                     current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->read( \
-                        num_items * (int64_t)sizeof(TYPE), current_error_));   \
+                        bytes_to_read(num_items, (int64_t)sizeof(TYPE)), current_error_)); \
                 if (current_error_ != util::ForthError::none) {                \
                   return;                                                      \
                 }                                                              \
@@ -2911,7 +2924,7 @@ namespace awkward {
               # define WRITE_TO_STACK_SWAP(TYPE, SWAP) {                       \
                 TYPE* ptr = reinterpret_cast<TYPE*>(                           \
                     current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->read( \
-                        num_items * (int64_t)sizeof(TYPE), current_error_));   \
+                        bytes_to_read(num_items, (int64_t)sizeof(TYPE)), current_error_)); \
                 if (current_error_ != util::ForthError::none) {                \
                   return;                                                      \
                 }                                                              \
@@ -2932,7 +2945,7 @@ namespace awkward {
               # define WRITE_TO_STACK_SWAP_INTP(TYPE) {                        \
                 TYPE* ptr = reinterpret_cast<TYPE*>(                           \
                     current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->read( \
-                        num_items * (int64_t)sizeof(TYPE), current_error_));   \
+                        bytes_to_read(num_items, (int64_t)sizeof(TYPE)), current_error_)); \
                 if (current_error_ != util::ForthError::none) {                \
                   return;                                                      \
                 }                                                              \
-- 
2.43.0


From 020822eeefa39230f7de8c1261165920babea0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:39 +0000
Subject: [PATCH 19/23] fix: ForthMachine64 must not cut values pushed on the
 stack to 32 bits

---
 src/libawkward/forth/ForthMachine.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 3c97403..7ed88b3 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2937,7 +2937,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2963,7 +2963,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3230,7 +3230,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3241,7 +3241,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3337,7 +3337,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3401,7 +3401,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3410,7 +3410,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3419,7 +3419,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
-- 
2.43.0


From 5e66eb5e9984465074250c67d7fccba5dd14cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:39 +0000
Subject: [PATCH 20/23] fix: zigzag values written by ForthMachine32 must not
 be cut to 32 bits

---
 src/libawkward/forth/ForthMachine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 7ed88b3..ee1c2b2 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2783,7 +2783,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
-- 
2.43.0


From fca15eb6cfdb5ada4956314c2af3e9ba674513d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:39 +0000
Subject: [PATCH 21/23] fix: Forth bit reads wider than 31 bits

---
 src/libawkward/forth/ForthMachine.cpp | 75 +++++++++++----------------
 1 file changed, 29 insertions(+), 46 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index ee1c2b2..2beba53 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2803,59 +2803,42 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
-            uint64_t bits_wnd_l = 8;
-            uint64_t bits_wnd_r = 0;
-            int64_t items_remaining = num_items;
-            uint64_t data;
-            uint64_t tmp;
-            uint8_t* tmpptr;
-
-            if (items_remaining != 0) {
-              tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-              if (current_error_ != util::ForthError::none) {
-                return;
-              }
-              tmp = (uint64_t)(*tmpptr);
-              if (flip) {
-                // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-              }
-              data = tmp;
-            }
-            while (items_remaining != 0) {
-              if (bits_wnd_r >= 8) {
-                bits_wnd_r -= 8;
-                bits_wnd_l -= 8;
-                data >>= 8;
-              }
-              else if (bits_wnd_l - bits_wnd_r >= (uint64_t)bit_width) {
-                tmp = (data >> bits_wnd_r) & mask;
-                if (output == nullptr) {
-                  if (stack_cannot_push()) {
-                    current_error_ = util::ForthError::stack_overflow;
+            uint64_t byte = 0;
+            int64_t bits_in_byte = 0;
+            for (int64_t items_remaining = num_items;  items_remaining != 0;  items_remaining--) {
+              uint64_t value = 0;
+              int64_t bits_in_value = 0;
+              while (bits_in_value < (int64_t)bit_width) {
+                if (bits_in_byte == 0) {
+                  uint8_t* ptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
+                  if (current_error_ != util::ForthError::none) {
                     return;
                   }
-                  stack_push((T)tmp);
+                  byte = (uint64_t)(*ptr);
+                  if (flip) {
+                    // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
+                    byte = (uint64_t)(bitswap_lookup[byte & 0b1111] << 4) | bitswap_lookup[byte >> 4];
+                  }
+                  bits_in_byte = 8;
                 }
-                else {
-                  output->write_one_int64((T)tmp, false);
+                int64_t bits = (int64_t)bit_width - bits_in_value;
+                if (bits > bits_in_byte) {
+                  bits = bits_in_byte;
                 }
-                items_remaining--;
-                bits_wnd_r += (uint64_t)bit_width;
+                value |= (byte & ((1u << bits) - 1)) << bits_in_value;
+                byte >>= bits;
+                bits_in_byte -= bits;
+                bits_in_value += bits;
               }
-              else {
-                tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-                if (current_error_ != util::ForthError::none) {
+              if (output == nullptr) {
+                if (stack_cannot_push()) {
+                  current_error_ = util::ForthError::stack_overflow;
                   return;
                 }
-                tmp = (uint64_t)(*tmpptr);
-                if (flip) {
-                  // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                  tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-                }
-                data |= tmp << bits_wnd_l;
-                bits_wnd_l += 8;
+                stack_push((T)value);
+              }
+              else {
+                output->write_one_uint64(value, false);
               }
             }
           }
-- 
2.43.0


From c05af92c8bf5e26fecc151fd5b1746241f797a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:39 +0000
Subject: [PATCH 22/23] fix: repartitioning with empty, decreasing or no
 partition stops

---
 .../partition/IrregularlyPartitionedArray.cpp         | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libawkward/partition/IrregularlyPartitionedArray.cpp b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
index 1b02b02..5e14656 100644
--- a/src/libawkward/partition/IrregularlyPartitionedArray.cpp
+++ b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
@@ -2,6 +2,7 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/partition/IrregularlyPartitionedArray.cpp", line)
 
+#include <algorithm>
 #include <sstream>
 
 #include "awkward/array/UnionArray.h"
@@ -68,6 +69,12 @@ namespace awkward {
     if (stops == stops_) {
       return shallow_copy();
     }
+    if (stops.empty()  ||  stops[0] < 0  ||
+        !std::is_sorted(stops.begin(), stops.end())) {
+      throw std::invalid_argument(
+        std::string("partition stops must be non-negative, non-decreasing, and "
+                    "there must be at least one") + FILENAME(__LINE__));
+    }
     if (stops.back() != stops_.back()) {
       throw std::invalid_argument(
         std::string("cannot repartition array of length ")
@@ -82,6 +89,10 @@ namespace awkward {
       ContentPtr dst(nullptr);
       int64_t length = (i == 0 ? stops[i]
                                : stops[i] - stops[i - 1]);
+      if (length == 0) {
+        // all of the original partitions may have been used up already
+        dst = partitions_[0].get()->getitem_nothing();
+      }
 
       while (dst.get() == nullptr  ||  dst.get()->length() < length) {
         ContentPtr piece(nullptr);
-- 
2.43.0


From eb26b177c167dfb901c6eb8afe63711d7c5d1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:40 +0000
Subject: [PATCH 23/23] fix: NumpyArray::deep_copy of a view must forget the
 view's byte offset

---
 src/libawkward/array/NumpyArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..8efc9ae 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1152,6 +1152,7 @@ namespace awkward {
           reinterpret_cast<uint8_t*>(data()),
           bytelength());
         util::handle_error(err, classname(), identities_.get());
+        byteoffset = 0;
       }
     }
     IdentitiesPtr identities = identities_;
-- 
2.43.0


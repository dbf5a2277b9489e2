From 27f7588189ece48752021d50996b8b5e68aa0a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:14 +0000
Subject: [PATCH 1/6] fix: saturate the position counter instead of wrapping it
 around

A pull following skip_to_end of an iterator, or pulls with huge chunk sizes, wrapped
the counter and revived elements which had already been delivered.
---
 src/iter/atomic_counter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..88cb37c 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,21 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The counter saturates at `usize::MAX`; it never wraps around.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        self.current
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |current| {
+                Some(current.saturating_add(len))
+            })
+            .unwrap_or_else(|current| current)
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
-- 
2.43.0


From 9fbbaf14136158f523f268b64547face7d6e6a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:20 +0000
Subject: [PATCH 2/6] fix: avoid overflow of begin index plus chunk size

Huge chunk sizes and ranges whose bounds are close to the largest index overflowed,
which panicked in debug builds and returned wrapped around positions otherwise.
---
 src/iter/buffered/range.rs     | 4 +++-
 src/iter/buffered/slice.rs     | 3 ++-
 src/iter/implementors/array.rs | 4 ++--
 src/iter/implementors/range.rs | 9 ++++-----
 src/iter/implementors/slice.rs | 5 ++++-
 src/iter/implementors/vec.rs   | 7 +++++--
 6 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2bca5a5 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -41,7 +41,9 @@ where
         let begin_value = begin_idx + range.start.into();
         match begin_value.cmp(&range.end.into()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..f9b4b72 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..8535b91 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -119,7 +118,7 @@ where
             .unwrap_or(self.initial_len());
         let begin_value = begin_idx + self.range.start.into();
         let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
+            Ordering::Less => begin_value.saturating_add(n).min(self.range.end.into()),
             _ => begin_value,
         };
         let end_idx: usize = end_value - self.range.start.into();
@@ -243,7 +242,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..039b02c 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..f2c0bb1 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 77c24fa8e8df494589895cc4365385535acbd03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 3/6] fix: drop or move out each element of consumed vectors
 and arrays exactly once

Chunks were built by Vec::from_raw_parts with zero capacity over a part of the storage
which violates its preconditions, buffer of the consumed vector was leaked, remaining
elements of arrays were dropped twice and elements skipped by skip_to_end were leaked.
---
 src/iter/implementors/array.rs       | 47 +++++++++++---------------
 src/iter/implementors/mod.rs         |  1 +
 src/iter/implementors/taken_slice.rs | 49 ++++++++++++++++++++++++++++
 src/iter/implementors/vec.rs         | 40 ++++++++++++-----------
 4 files changed, 90 insertions(+), 47 deletions(-)
 create mode 100644 src/iter/implementors/taken_slice.rs

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f9b4b72..f3bc96a 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -1,3 +1,4 @@
+use super::taken_slice::TakenSlice;
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -23,10 +24,11 @@ pub struct ConIterOfArray<const N: usize, T: Send + Sync> {
 
 impl<const N: usize, T: Send + Sync> Drop for ConIterOfArray<N, T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= N {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(N);
+
+        // SAFETY: elements before `current` have already been taken out;
+        // the remaining elements are still owned by the iterator
+        unsafe { std::ptr::drop_in_place(&mut self.array.get_mut()[current..]) };
     }
 }
 
@@ -40,8 +42,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
     }
 
     unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
+        let src_ptr = self.array.get().cast::<T>().add(item_idx);
 
         let mut value = MaybeUninit::<T>::uninit();
         let dst_ptr = value.as_mut_ptr();
@@ -54,27 +55,12 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
-        let array = &mut *self.array.get();
-        let end_idx = begin_idx.saturating_add(len).min(array.len());
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
+        let end_idx = begin_idx.saturating_add(len).min(N);
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
-    }
-
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= N);
-
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
-
-        *man_array = ManuallyDrop::new(array);
-        right_vec
+        let ptr = self.array.get().cast::<T>().add(begin_idx);
+        TakenSlice::new(ptr, len)
     }
 }
 
@@ -125,7 +111,8 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        // remaining elements are taken out and dropped
+        drop(self.fetch_n(N));
     }
 }
 
@@ -185,8 +172,12 @@ impl<const N: usize, T: Send + Sync> ConcurrentIter for ConIterOfArray<N, T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(N)) };
+        let current = self.counter().current().min(N);
+        // SAFETY: the iterator is owned and elements starting from `current` are not taken out
+        let remaining_vec: Vec<_> = (current..N)
+            .map(|i| unsafe { self.take_one(i) })
+            .collect();
+        self.counter().store(N);
         remaining_vec.into_iter()
     }
 
diff --git a/src/iter/implementors/mod.rs b/src/iter/implementors/mod.rs
index c6dc775..7f49a25 100644
--- a/src/iter/implementors/mod.rs
+++ b/src/iter/implementors/mod.rs
@@ -2,4 +2,5 @@ pub mod array;
 pub mod iter;
 pub mod range;
 pub mod slice;
+mod taken_slice;
 pub mod vec;
diff --git a/src/iter/implementors/taken_slice.rs b/src/iter/implementors/taken_slice.rs
new file mode 100644
index 0000000..d292d25
--- /dev/null
+++ b/src/iter/implementors/taken_slice.rs
@@ -0,0 +1,49 @@
+use std::{mem::ManuallyDrop, slice::IterMut};
+
+/// Iterator over a slice of elements which are taken out of a consumed collection.
+///
+/// Elements which are not yielded by the iterator are dropped together with it;
+/// the storage of the elements remains to be owned by the collection.
+pub(crate) struct TakenSlice<'a, T> {
+    values: IterMut<'a, ManuallyDrop<T>>,
+}
+
+impl<'a, T> TakenSlice<'a, T> {
+    /// Creates the iterator over `len` elements starting from the one that `ptr` points to.
+    ///
+    /// # Safety
+    ///
+    /// `len` elements starting at `ptr` must be initialized, must outlive `'a` in place, and
+    /// they must never be accessed or dropped by anything else than the created iterator.
+    pub(crate) unsafe fn new(ptr: *mut T, len: usize) -> Self {
+        let values = std::slice::from_raw_parts_mut(ptr.cast(), len).iter_mut();
+        Self { values }
+    }
+}
+
+impl<'a, T> Iterator for TakenSlice<'a, T> {
+    type Item = T;
+
+    #[inline(always)]
+    fn next(&mut self) -> Option<Self::Item> {
+        self.values
+            .next()
+            // SAFETY: each element is visited, and hence, taken at most once
+            .map(|x| unsafe { ManuallyDrop::take(x) })
+    }
+
+    #[inline(always)]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.values.size_hint()
+    }
+}
+
+impl<'a, T> ExactSizeIterator for TakenSlice<'a, T> {}
+
+impl<'a, T> Drop for TakenSlice<'a, T> {
+    fn drop(&mut self) {
+        let remaining: *mut [ManuallyDrop<T>] = std::mem::take(&mut self.values).into_slice();
+        // SAFETY: remaining elements are not yielded, and they are owned by this iterator
+        unsafe { std::ptr::drop_in_place(remaining as *mut [T]) }
+    }
+}
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index f2c0bb1..d651c80 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -1,3 +1,4 @@
+use super::taken_slice::TakenSlice;
 use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
@@ -22,9 +23,16 @@ pub struct ConIterOfVec<T: Send + Sync> {
 
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
+        let current = self.counter().current().min(self.vec_len);
+        let num_remaining = self.vec_len - current;
+
+        // SAFETY: elements before `current` have already been taken out;
+        // the remaining elements and the buffer are still owned by the iterator
+        unsafe {
+            let mut vec = ManuallyDrop::take(self.vec.get_mut());
+            vec.set_len(0);
+            let remaining = vec.as_mut_ptr().add(current);
+            std::ptr::drop_in_place(std::ptr::slice_from_raw_parts_mut(remaining, num_remaining));
         }
     }
 }
@@ -54,24 +62,13 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         &self,
         begin_idx: usize,
         len: usize,
-    ) -> impl ExactSizeIterator<Item = T> {
+    ) -> impl ExactSizeIterator<Item = T> + '_ {
         let vec = &mut *self.vec.get();
         let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
-    }
-
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= self.vec_len);
-
-        let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
-        right_vec
+        TakenSlice::new(ptr, len)
     }
 }
 
@@ -124,7 +121,8 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        // remaining elements are taken out and dropped
+        drop(self.fetch_n(self.vec_len));
     }
 }
 
@@ -181,8 +179,12 @@ impl<T: Send + Sync> ConcurrentIter for ConIterOfVec<T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(self.vec_len)) };
+        let current = self.counter().current().min(self.vec_len);
+        // SAFETY: the iterator is owned and elements starting from `current` are not taken out
+        let remaining_vec: Vec<_> = (current..self.vec_len)
+            .map(|i| unsafe { self.take_one(i) })
+            .collect();
+        self.counter().store(self.vec_len);
         remaining_vec.into_iter()
     }
 
-- 
2.43.0


From a20efa1dc34afdda25bf78a7241c00b89cb0464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 4/6] fix: end the iteration of wrapped iterators at their
 first None, also when they panic

A panic of the wrapped iterator left the waiting threads hanging. A short chunk did not
complete the iteration and the wrapped iterator was pulled again after it returned None or
after skip_to_end. Pulling a chunk of size zero completed the iteration. Creating a buffered
iterator allocated the entire chunk upfront and failed on huge chunk sizes.
---
 src/iter/buffered/iter.rs     | 19 ++++++++++--
 src/iter/implementors/iter.rs | 58 +++++++++++++++++++++++++++++------
 2 files changed, 64 insertions(+), 13 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..0732747 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -9,6 +9,7 @@ where
     Iter: Iterator<Item = T>,
 {
     values: Vec<Option<T>>,
+    chunk_size: usize,
     phantom: PhantomData<Iter>,
 }
 
@@ -21,13 +22,15 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            // grows up to chunk_size elements as the elements are pulled
+            values: Vec::new(),
+            chunk_size,
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -35,12 +38,17 @@ where
         iter: &Self::ConIter,
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = T>> {
+        // completed unless the entire chunk is obtained; i.e., also if `next` panics
+        let completion = iter.complete_on_drop();
         let core_iter = unsafe { iter.mut_iter() };
 
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(value) => *value = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => break,
             }
 
@@ -50,6 +58,11 @@ where
             }
         }
 
+        match i == self.chunk_size() {
+            true => completion.cancel(),
+            false => drop(completion),
+        }
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..2321022 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -62,6 +62,28 @@ where
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
     }
+
+    pub(crate) fn complete_on_drop(&self) -> CompleteOnDrop<'_> {
+        CompleteOnDrop(&self.completed)
+    }
+}
+
+/// Marks the iteration as completed when dropped, unless it is cancelled.
+///
+/// It is held while the wrapped iterator is advanced so that the threads waiting for their turn
+/// are released also when the wrapped iterator panics.
+pub(crate) struct CompleteOnDrop<'a>(&'a AtomicBool);
+
+impl CompleteOnDrop<'_> {
+    pub(crate) fn cancel(self) {
+        std::mem::forget(self);
+    }
+}
+
+impl Drop for CompleteOnDrop<'_> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
 }
 
 impl<T: Send + Sync, Iter> From<Iter> for ConIterOfIter<T, Iter>
@@ -90,7 +112,10 @@ where
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
                 // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                Ordering::Equal => match self.completed.load(atomic::Ordering::Relaxed) {
+                    true => return None,
+                    false => return Some(begin_idx),
+                },
 
                 Ordering::Less => return None,
 
@@ -110,14 +135,18 @@ where
             match item_idx.cmp(&yielded_count) {
                 // item_idx==yielded_count => it is our job to provide the item
                 Ordering::Equal => {
+                    if self.completed.load(atomic::Ordering::Relaxed) {
+                        return None;
+                    }
+
+                    // completed unless a value is obtained; i.e., also if `next` panics
+                    let completion = self.complete_on_drop();
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
-                    match next.is_some() {
-                        true => {
-                            _ = self.yielded_counter.fetch_and_increment();
-                        }
-                        false => self.completed.store(true, atomic::Ordering::SeqCst),
-                    };
+                    if next.is_some() {
+                        completion.cancel();
+                        _ = self.yielded_counter.fetch_and_increment();
+                    }
                     return next;
                 }
 
@@ -134,19 +163,28 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        if n == 0 {
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
+            // completed unless all `n` values are obtained; i.e., also if `next` panics
+            let completion = self.complete_on_drop();
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
-            let buffer = (begin_idx..end_idx)
+            let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            match buffer.len() == n {
+                true => completion.cancel(),
+                false => drop(completion),
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
-- 
2.43.0


From a0942a5e6432e691e77ec44a72ae5ce03e9cc266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 5/6] fix: acquire the yielded counter before using the wrapped
 iterator

A relaxed load does not synchronize with the release increment of the previous ticket holder;
hence, consecutive calls to next of the wrapped iterator were not ordered by happens-before.
---
 src/iter/atomic_counter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 88cb37c..586883b 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -33,7 +33,7 @@ impl AtomicCounter {
     /// Fetches and returns the current value of the counter.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From 6847040bc2b619bc270bda772fc5844eafa7e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 6/6] fix: mark the low level element access as unsafe

Safe calls to AtomicIter::get, AtomicCounter::store and BufferedChunk::pull could move the
same element of a consumed collection out more than once.
---
 src/iter/atomic_counter.rs                 |  2 +-
 src/iter/atomic_iter.rs                    | 10 ++++++++--
 src/iter/buffered/array.rs                 |  2 +-
 src/iter/buffered/buffered_chunk.rs        |  8 +++++++-
 src/iter/buffered/buffered_iter.rs         |  4 ++--
 src/iter/buffered/cloned_buffered_chunk.rs |  2 +-
 src/iter/buffered/copied_buffered_chunk.rs |  2 +-
 src/iter/buffered/iter.rs                  |  2 +-
 src/iter/buffered/range.rs                 |  2 +-
 src/iter/buffered/slice.rs                 |  2 +-
 src/iter/buffered/vec.rs                   |  2 +-
 src/iter/cloned.rs                         |  2 +-
 src/iter/copied.rs                         |  2 +-
 src/iter/implementors/array.rs             |  2 +-
 src/iter/implementors/iter.rs              |  2 +-
 src/iter/implementors/range.rs             |  2 +-
 src/iter/implementors/slice.rs             |  2 +-
 src/iter/implementors/vec.rs               |  2 +-
 18 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 586883b..320be9a 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -38,7 +38,7 @@ impl AtomicCounter {
 
     /// Updates the value of the current value of the counter as the given `new_value`.
     #[inline(always)]
-    pub fn store(&self, new_value: usize) {
+    pub(crate) fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
 }
diff --git a/src/iter/atomic_iter.rs b/src/iter/atomic_iter.rs
index 8ddef85..2330224 100644
--- a/src/iter/atomic_iter.rs
+++ b/src/iter/atomic_iter.rs
@@ -15,13 +15,19 @@ pub trait AtomicIter<T: Send + Sync>: Send + Sync {
     fn progress_and_get_begin_idx(&self, number_to_fetch: usize) -> Option<usize>;
 
     /// Returns the `item_idx`-th item that the iterator yields; returns None if the iterator completes before.
-    fn get(&self, item_idx: usize) -> Option<T>;
+    ///
+    /// # Safety
+    ///
+    /// An item of a consuming iterator is moved out by this call. Therefore, the caller must have
+    /// reserved `item_idx` by progressing the counter of this iterator and it must fetch it only once.
+    unsafe fn get(&self, item_idx: usize) -> Option<T>;
 
     /// Returns the next item that the iterator yields; returns None if the iteration has completed.
     #[inline(always)]
     fn fetch_one(&self) -> Option<Next<T>> {
         let idx = self.counter().fetch_and_increment();
-        self.get(idx).map(|value| Next { idx, value })
+        // SAFETY: idx is reserved by this call and fetched only once
+        unsafe { self.get(idx) }.map(|value| Next { idx, value })
     }
 
     /// Returns an iterator of the next `n` **consecutive items** that the iterator yields.
diff --git a/src/iter/buffered/array.rs b/src/iter/buffered/array.rs
index 0923147..6710ea4 100644
--- a/src/iter/buffered/array.rs
+++ b/src/iter/buffered/array.rs
@@ -24,7 +24,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/buffered_chunk.rs b/src/iter/buffered/buffered_chunk.rs
index 6b9f16b..252f9ee 100644
--- a/src/iter/buffered/buffered_chunk.rs
+++ b/src/iter/buffered/buffered_chunk.rs
@@ -7,7 +7,13 @@ pub trait BufferedChunk<T: Send + Sync> {
 
     fn chunk_size(&self) -> usize;
 
-    fn pull(
+    /// Pulls the chunk of `iter` starting at `begin_idx`.
+    ///
+    /// # Safety
+    ///
+    /// The caller must have reserved the chunk by progressing the counter of `iter`, and it must
+    /// pull the chunk only once.
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/buffered_iter.rs b/src/iter/buffered/buffered_iter.rs
index 6dd2efa..8cc38c7 100644
--- a/src/iter/buffered/buffered_iter.rs
+++ b/src/iter/buffered/buffered_iter.rs
@@ -35,8 +35,8 @@ where
         self.atomic_iter
             .progress_and_get_begin_idx(self.buffered_iter.chunk_size())
             .and_then(|begin_idx| {
-                self.buffered_iter
-                    .pull(self.atomic_iter, begin_idx)
+                // SAFETY: chunk starting at begin_idx is reserved by this call and pulled only once
+                unsafe { self.buffered_iter.pull(self.atomic_iter, begin_idx) }
                     .map(|values| NextChunk { begin_idx, values })
             })
     }
diff --git a/src/iter/buffered/cloned_buffered_chunk.rs b/src/iter/buffered/cloned_buffered_chunk.rs
index 9bfefb3..ece99c2 100644
--- a/src/iter/buffered/cloned_buffered_chunk.rs
+++ b/src/iter/buffered/cloned_buffered_chunk.rs
@@ -29,7 +29,7 @@ where
         self.chunk.chunk_size()
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/copied_buffered_chunk.rs b/src/iter/buffered/copied_buffered_chunk.rs
index 2c05f41..f460d94 100644
--- a/src/iter/buffered/copied_buffered_chunk.rs
+++ b/src/iter/buffered/copied_buffered_chunk.rs
@@ -29,7 +29,7 @@ where
         self.chunk.chunk_size()
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 0732747..f167a6e 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -33,7 +33,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 2bca5a5..9780c31 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -32,7 +32,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 859989b..95660f6 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -24,7 +24,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/buffered/vec.rs b/src/iter/buffered/vec.rs
index 9857166..df33147 100644
--- a/src/iter/buffered/vec.rs
+++ b/src/iter/buffered/vec.rs
@@ -24,7 +24,7 @@ where
         self.chunk_size
     }
 
-    fn pull(
+    unsafe fn pull(
         &mut self,
         iter: &Self::ConIter,
         begin_idx: usize,
diff --git a/src/iter/cloned.rs b/src/iter/cloned.rs
index 4977889..73195c8 100644
--- a/src/iter/cloned.rs
+++ b/src/iter/cloned.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).cloned()
     }
 
diff --git a/src/iter/copied.rs b/src/iter/copied.rs
index 35f7841..95d0db5 100644
--- a/src/iter/copied.rs
+++ b/src/iter/copied.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).copied()
     }
 
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f3bc96a..9964a0e 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -86,7 +86,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&N) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2321022..83abd3b 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -129,7 +129,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 8535b91..3cfc9e9 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -104,7 +104,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<Idx> {
+    unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
         match item_idx.cmp(&self.initial_len()) {
             Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 039b02c..22e41a6 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -65,7 +65,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<&'a T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<&'a T> {
         self.slice.get(item_idx)
     }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index d651c80..3d7413e 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -94,7 +94,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&self.vec_len) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
-- 
2.43.0


From 014679a7d4464b73e41c5b66718f1d777a900c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:49 +0000
Subject: [PATCH 01/17] fix: push every chunk of an untyped value whose size
 exceeds its alignment

---
 src/vec_void.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..eef3717 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -263,14 +263,18 @@ impl VecVoid {
     #[inline]
     pub(crate) fn push(&mut self, val: &[MaybeUninit<u8>]) {
         fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
+            let size = buf.elem.size;
+            assert_eq!(val.len(), buf.elem.num_bytes());
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
+                    v.reserve(size);
                     // SAFETY: T here is one of the T# so it's copy. The
-                    // following is effectively a move and doesn't rely on the
-                    // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
+                    // following is effectively a move of all `size` chunks of
+                    // the value and doesn't rely on the "actual" type being Copy.
+                    let end = v.as_mut_ptr().add(v.len());
+                    std::ptr::copy_nonoverlapping(val.as_ptr() as *const T, end, size);
+                    v.set_len(v.len() + size);
                 });
             }
         }
-- 
2.43.0


From 354e39c19c1ccd50940772260c91d7f98f3a9c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:01 +0000
Subject: [PATCH 02/17] fix: keep the capacity of untyped vectors a multiple of
 the element size when growing

---
 src/vec_void.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index eef3717..d09c81b 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -67,7 +67,12 @@ impl Clone for VecVoid {
                     elem: source.elem,
                 };
                 let src = ManuallyDrop::new(src.into_aligned_vec_unchecked::<T>());
-                out.apply_aligned_unchecked(|out: &mut Vec<T>| out.clone_from(&src))
+                let size = source.elem.size;
+                out.apply_aligned_unchecked(|out: &mut Vec<T>| {
+                    out.clear();
+                    VecVoid::reserve_chunks(out, src.len() / size, size);
+                    out.clone_from(&src)
+                })
             }
         }
         eval_align!(self.elem.alignment; clone_from::<_>(self, source))
@@ -210,6 +215,18 @@ impl VecVoid {
         eval_align!(self.elem.alignment; clear::<_>(self));
     }
 
+    /// Reserve space in `v` for `additional` elements each occupying `size` chunks of type `T`.
+    ///
+    /// In contrast to `Vec::reserve`, this keeps the capacity of `v` at a multiple of `size`.
+    fn reserve_chunks<T>(v: &mut Vec<T>, additional: usize, size: usize) {
+        let additional = additional.checked_mul(size).expect("capacity overflow");
+        if additional > v.capacity() - v.len() {
+            let required = v.len().checked_add(additional).expect("capacity overflow");
+            let new_cap = required.max(v.capacity().saturating_mul(2));
+            v.reserve_exact(new_cap - v.len());
+        }
+    }
+
     /// Reserve `additional` extra elements.
     #[inline]
     pub(crate) fn reserve(&mut self, additional: usize) {
@@ -218,7 +235,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    VecVoid::reserve_chunks(v, additional, size);
                 })
             };
         }
@@ -243,9 +260,11 @@ impl VecVoid {
     pub(crate) fn append(&mut self, other: &mut VecVoid) {
         fn append<T: 'static>(buf: &mut VecVoid, other: &mut VecVoid) {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
+            let size = buf.elem.size;
             unsafe {
                 buf.apply_aligned_unchecked(|target: &mut Vec<T>| {
                     other.apply_aligned_unchecked(|source: &mut Vec<T>| {
+                        VecVoid::reserve_chunks(target, source.len() / size, size);
                         target.append(source);
                     });
                 });
@@ -268,7 +287,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(size);
+                    VecVoid::reserve_chunks(v, 1, size);
                     // SAFETY: T here is one of the T# so it's copy. The
                     // following is effectively a move of all `size` chunks of
                     // the value and doesn't rely on the "actual" type being Copy.
@@ -303,6 +322,9 @@ impl VecVoid {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
+                    if len * size > orig_len {
+                        VecVoid::reserve_chunks(v, len - orig_len / size, size);
+                    }
                     v.resize_with(len * size, Default::default);
                     let byte_slice = std::slice::from_raw_parts_mut(
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
-- 
2.43.0


From 51cace9c09343efbd1c1a097523b68e65d3ef571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 03/17] fix: clone_from between untyped vectors of different
 element types

---
 src/vec_void.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index d09c81b..1f34266 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -75,6 +75,11 @@ impl Clone for VecVoid {
                 })
             }
         }
+        if self.elem != source.elem {
+            // The allocation of `self` cannot be reused for elements of another type.
+            *self = source.clone();
+            return;
+        }
         eval_align!(self.elem.alignment; clone_from::<_>(self, source))
     }
 }
-- 
2.43.0


From 35d0f78ee968c8a93b99281165945bc978d3a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:44 +0000
Subject: [PATCH 04/17] fix: scale inclusive ranges to whole elements and keep
 out of bounds ranges out of bounds

---
 src/index_slice.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..8a6c747 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -7,11 +7,23 @@ pub trait ScaleRange {
     fn scale_range(self, scale: usize) -> Self;
 }
 
+/// Scale a range bound, saturating so that an out of bounds index remains out of bounds.
+#[inline]
+fn scale_bound(bound: usize, scale: usize) -> usize {
+    bound.saturating_mul(scale)
+}
+
+/// Scale an inclusive end, such that the last chunk is included in its entirety.
+#[inline]
+fn scale_inclusive_end(end: usize, scale: usize) -> usize {
+    scale_bound(end.saturating_add(1), scale).saturating_sub(1)
+}
+
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = scale_bound(self.start, scale);
+        self.end = scale_bound(self.end, scale);
         self
     }
 }
@@ -19,7 +31,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_bound(self.end, scale);
         self
     }
 }
@@ -27,7 +39,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = scale_bound(self.start, scale);
         self
     }
 }
@@ -43,14 +55,14 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        scale_bound(*self.start(), scale)..=scale_inclusive_end(*self.end(), scale)
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_inclusive_end(self.end, scale);
         self
     }
 }
-- 
2.43.0


From e46c5269a09b8dc0aa192a669f12196cdeb45bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:52 +0000
Subject: [PATCH 05/17] fix: out of bounds indices panic instead of wrapping
 around or reading out of bounds

---
 src/lib.rs        |  9 +++++----
 src/slice_copy.rs | 14 +++++++-------
 src/vec_copy.rs   |  7 +++----
 src/vec_void.rs   |  4 ++--
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..865e8f8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,8 @@ pub(crate) trait ElementBytes {
     /// Get a range of byte indices representing the given element index.
     #[inline]
     fn index_byte_range(&self, i: usize) -> std::ops::Range<usize> {
-        i * self.element_size()..(i + 1) * self.element_size()
+        let start = i.checked_mul(self.element_size()).expect("index overflow");
+        start..start.checked_add(self.element_size()).expect("index overflow")
     }
 
     /// Index into an immutable slice of bytes.
@@ -226,19 +227,19 @@ pub(crate) trait ElementBytesMut: ElementBytes {
         if i == j {
             return;
         }
-        let element_size = self.element_size();
         let r_rng = self.index_byte_range(0);
+        let r_start = self.index_byte_range(i.max(j)).start;
         if i < j {
             let l_rng = self.index_byte_range(i);
             // SAFETY: it is safe to swap aligned data since we have unique access.
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * j);
+                let (l, r) = self.bytes_mut().split_at_mut(r_start);
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         } else {
             let l_rng = self.index_byte_range(j);
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * i);
+                let (l, r) = self.bytes_mut().split_at_mut(r_start);
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..200c2e8 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,7 +279,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -290,7 +290,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at(mid * elem.num_bytes());
+            let (l, r) = data.split_at(mid.saturating_mul(elem.num_bytes()));
             (
                 SliceCopy::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopy::from_raw_parts(r, elem, vtable.as_ref()),
@@ -624,7 +624,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
-        self.data.rotate_left(mid * self.element_size());
+        self.data.rotate_left(mid.saturating_mul(self.element_size()));
     }
 
     /// Rotates the slice in-place such that the first `self.len() - k` elements of the slice move
@@ -642,7 +642,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
-        self.data.rotate_right(k * self.element_size());
+        self.data.rotate_right(k.saturating_mul(self.element_size()));
     }
 
     /*
@@ -687,7 +687,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,7 +698,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(elem.num_bytes().saturating_mul(chunk_size))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -709,7 +709,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at_mut(mid * elem.num_bytes());
+            let (l, r) = data.split_at_mut(mid.saturating_mul(elem.num_bytes()));
             (
                 SliceCopyMut::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopyMut::from_raw_parts(r, elem, vtable.as_ref()),
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..f517316 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
@@ -870,8 +870,7 @@ impl VecVoid {
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
         debug_assert!(i < self.len());
-        let element_size = self.element_size();
-        &self.bytes()[i * element_size..(i + 1) * element_size]
+        self.index_byte_slice(i)
     }
 
     /// Get a mutable reference to the byte slice of the `i`'th element of the buffer.
diff --git a/src/vec_void.rs b/src/vec_void.rs
index 1f34266..5f6dde3 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -350,7 +350,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_left(n * size);
+                    v.rotate_left(n.saturating_mul(size));
                 });
             }
         }
@@ -365,7 +365,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_right(n * size);
+                    v.rotate_right(n.saturating_mul(size));
                 });
             }
         }
-- 
2.43.0


From 7e5237e19ca5b3816c311f9e25423b92dfc05ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 06/17] fix: slices and vectors of different lengths are not
 equal

---
 src/slice.rs   | 13 ++++++-------
 src/vec_dyn.rs |  8 +++++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..3cb7437 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,11 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +347,7 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.reborrow() == other.reborrow()
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..0bfc318 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,11 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
-- 
2.43.0


From e2691143fbbe67e868104dca02ba58dacc414c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 07/17] fix: drop the value when an owned downcast fails

---
 src/value.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index b527308..e9927c9 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -367,6 +367,10 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        if !self.is::<T>() {
+            // Dropping self here drops the contents.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
@@ -390,6 +394,10 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        if !self.is::<T>() {
+            // Dropping self here drops the contents.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-- 
2.43.0


From 716212ad3408f764873ddc594fbfc1322da5e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 08/17] fix: drop the elements when a vector is converted into
 a Vec of another type

---
 src/vec_dyn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 0bfc318..8030d2e 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -351,6 +351,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // If the types don't match, self is dropped here along with its elements.
+        self.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From 43c189000c94183dbe6c205eaeb35631b71619b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 09/17] fix: drop a value that does not fit into a SmallValue

---
 src/value.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/value.rs b/src/value.rs
index e9927c9..1cdbdf2 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -114,6 +114,10 @@ impl<V: HasDrop> SmallValue<V> {
     where
         V: VTable<T>,
     {
+        if std::mem::size_of::<T>() != std::mem::size_of::<usize>() {
+            // Doesn't fit, value is dropped here.
+            return None;
+        }
         // Prevent drop of value when it goes out of scope.
         let val = ManuallyDrop::new(value);
         val.try_into_usize().map(|usized_value| Value {
-- 
2.43.0


From 868c56635fc151dc46a67f5e414805b5ad4ecbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:55 +0000
Subject: [PATCH 10/17] fix: free the box of a pushed value with the alignment
 it was allocated with

---
 src/vec_dyn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 8030d2e..3ec8331 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -436,8 +436,10 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
+            let (mut bytes, _, alignment, _) = value.into_raw_parts();
             self.data.data.push(&*bytes);
+            // Release the memory with the same layout it was allocated with.
+            bytes.drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From b54df67bd7d595099768b0a8bef3a717f5d44b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:26 +0000
Subject: [PATCH 11/17] fix: tie the lifetime of a slice view to the slice it
 was made from

---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 3cb7437..c29f7d2 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -47,7 +47,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 200c2e8..78c9885 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0


From 4bc2b3bfe20be2da06adf001b83579b0a4a21b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 12/17] fix: the Send and Sync vtables are only for element
 types that are Send and Sync

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 79db2c4..8249d37 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -202,13 +202,13 @@ impl<T: DropBytes + HashBytes> VTable<T> for HashVTable {
     }
 }
 
-impl<T: DropBytes> VTable<T> for SendVTable {
+impl<T: DropBytes + Send> VTable<T> for SendVTable {
     fn build_vtable() -> Self {
         SendVTable(T::drop_bytes)
     }
 }
 
-impl<T: DropBytes> VTable<T> for SyncVTable {
+impl<T: DropBytes + Sync> VTable<T> for SyncVTable {
     fn build_vtable() -> Self {
         SyncVTable(T::drop_bytes)
     }
-- 
2.43.0


From 9a3ebcdd050229853b9664d3146347fc76ef3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 13/17] fix: SliceMut::into_raw_parts gave up mutability, so
 its parts could not be put back together

---
 src/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice.rs b/src/slice.rs
index c29f7d2..7d3ca75 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -376,7 +376,7 @@ impl<'a, V: ?Sized + HasDrop> SliceMut<'a, V> {
     /// This function exists mainly to enable the `into_dyn` macro until `CoerceUnsized` is
     /// stabilized.
     #[inline]
-    pub fn into_raw_parts(self) -> (&'a [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
+    pub fn into_raw_parts(self) -> (&'a mut [MaybeUninit<u8>], ElemInfo, VTableRef<'a, V>) {
         let SliceCopyMut { data, elem, vtable } = self.data;
         (data, elem, vtable)
     }
-- 
2.43.0


From 6107608ce2f382de246e106571a3fb6852645a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:04 +0000
Subject: [PATCH 14/17] fix: from_dyn! never matched for slices

---
 src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 865e8f8..9d6dc34 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,17 +98,17 @@ macro_rules! from_dyn {
 
         from_dyn::<$vtable>
     }};
-    (@slice $slice:ident < dyn $trait:path >) => {{
-        fn from_dyn<'a, V: ?Sized + HasDrop + std::any::Any>(slice: $crate::$slice<'a, V>) -> $crate::$slice<'a, $vtable> {
+    (@slice $slice:ident < dyn $trait:path as $vtable:path >) => {{
+        fn from_dyn<'a>(slice: $crate::$slice<'a, dyn $trait>) -> $crate::$slice<'a, $vtable> {
             unsafe {
                 let (data, elem, vtable) = slice.into_raw_parts();
                 match vtable {
                     $crate::VTableRef::Ref(v) => {
-                        let updated_vtable: &$vtable = v.downcast_ref().unwrap();
+                        let updated_vtable: &'a $vtable = v.downcast_ref().unwrap();
                         $slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     $crate::VTableRef::Box(v) => {
-                        let updated_vtable: Box<$vtable> = v.downcast().unwrap();
+                        let updated_vtable: Box<$vtable> = v.downcast().ok().unwrap();
                         $slice::from_raw_parts(data, elem, updated_vtable)
                     }
                     // $crate::VTableRef::Rc(v) => {
-- 
2.43.0


From ea65858a48ee65775d11971de3fac388868425c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 15/17] fix: displaying a VecCopy panicked where the writer
 fails

---
 src/vec_copy.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index f517316..4e116a8 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -745,11 +745,15 @@ impl<V> VecCopy<V> {
 
     #[cfg(feature = "numeric")]
     /// Display the contents of this buffer reinterpreted in the given type.
-    unsafe fn reinterpret_display<T: CopyElem + fmt::Display>(&self, f: &mut fmt::Formatter) {
+    unsafe fn reinterpret_display<T: CopyElem + fmt::Display>(
+        &self,
+        f: &mut fmt::Formatter,
+    ) -> fmt::Result {
         debug_assert_eq!(self.element_type_id(), TypeId::of::<T>()); // Check invariant.
         for item in self.as_slice_as_unchecked::<T>().iter() {
-            write!(f, "{} ", item).expect("Error occurred while writing an VecCopy.");
+            write!(f, "{} ", item)?;
         }
+        Ok(())
     }
 }
 
@@ -965,8 +969,8 @@ impl<V> fmt::Display for VecCopy<V> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         call_numeric_buffer_fn!( self.reinterpret_display::<_>(f) or {
             println!("Unknown VecCopy type for pretty printing.");
-        } );
-        write!(f, "")
+            Ok(())
+        } )
     }
 }
 
-- 
2.43.0


From 65673d12f97f3251c6e0e6bb03f576811bc3aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:02 +0000
Subject: [PATCH 16/17] fix: a panic while clearing or shrinking a VecDyn
 dropped elements twice

---
 src/vec_dyn.rs  | 10 +++-------
 src/vec_void.rs | 21 +++++++++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 3ec8331..d8790b1 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -261,10 +261,9 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         // Drop all elements manually.
         unsafe {
             let VecCopy { data, vtable, .. } = &mut *self.data;
-            for elem_bytes in data.byte_chunks_mut() {
+            for elem_bytes in data.split_off_chunks(0) {
                 vtable.drop_fn()(elem_bytes);
             }
-            data.clear();
         }
     }
 
@@ -688,16 +687,13 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
                 self.data.push_as(value.clone());
             }
         } else {
-            // Drop trailing elements manually.
+            // Truncate data and drop trailing elements manually.
             unsafe {
                 let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut().skip(new_len) {
+                for elem_bytes in data.split_off_chunks(new_len) {
                     vtable.drop_fn()(elem_bytes);
                 }
             }
-
-            // Truncate data
-            self.data.data.truncate(new_len);
         }
         Some(self)
     }
diff --git a/src/vec_void.rs b/src/vec_void.rs
index 5f6dde3..f488363 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -261,6 +261,27 @@ impl VecVoid {
         eval_align!(self.elem.alignment; truncate::<_>(self, new_len));
     }
 
+    /// Truncate this vector, and return the bytes of the elements it had beyond the new length.
+    ///
+    /// The elements are gone even if the caller panics while dropping them.
+    #[cfg(feature = "traits")]
+    pub(crate) fn split_off_chunks(
+        &mut self,
+        new_len: usize,
+    ) -> impl Iterator<Item = &mut [MaybeUninit<u8>]> + '_ {
+        let chunk_size = self.elem.num_bytes();
+        let tail = new_len.min(self.len)..self.len;
+        self.truncate(tail.start);
+        // SAFETY: truncating neither moves nor changes the bytes.
+        let bytes = unsafe {
+            std::slice::from_raw_parts_mut(
+                (self.ptr as *mut MaybeUninit<u8>).add(tail.start * chunk_size),
+                tail.len() * chunk_size,
+            )
+        };
+        bytes.chunks_exact_mut(chunk_size)
+    }
+
     #[inline]
     pub(crate) fn append(&mut self, other: &mut VecVoid) {
         fn append<T: 'static>(buf: &mut VecVoid, other: &mut VecVoid) {
-- 
2.43.0


From b20eb8517b623b9a8d7d31214624a014bbf6970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 17/17] fix: a panic inside an operation on a VecVoid lost its
 contents and aborted while unwinding

---
 src/vec_void.rs | 51 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index f488363..43428ed 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -23,6 +23,24 @@ pub struct VecVoid {
     pub(crate) elem: ElemInfo,
 }
 
+/// A typed `Vec` taken out of a `VecVoid`, which is put back when this is dropped, even if the
+/// function it was lent to panics.
+struct Lent<'a, T: 'static> {
+    buf: &'a mut VecVoid,
+    vec: ManuallyDrop<Vec<T>>,
+    elem: ElemInfo,
+    into_void: unsafe fn(Vec<T>, ElemInfo) -> VecVoid,
+}
+
+impl<T: 'static> Drop for Lent<'_, T> {
+    fn drop(&mut self) {
+        // SAFETY: `self.vec` is not used again, and `self.elem` describes the `VecVoid` it came from.
+        let vec_void = unsafe { (self.into_void)(ManuallyDrop::take(&mut self.vec), self.elem) };
+        // Returned default VecVoid value can be safely ignored.
+        let _ = std::mem::replace(self.buf, vec_void);
+    }
+}
+
 // This implements a shallow clone, which is sufficient for VecCopy, but not for VecDrop.
 impl Clone for VecVoid {
     fn clone(&self) -> Self {
@@ -185,12 +203,15 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let orig_elem = self.elem;
-        let mut v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid value can be safely ignored
-        let _ = std::mem::replace(self, VecVoid::from_vec_override(v, orig_elem));
-        out
+        let elem = self.elem;
+        let v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
+        let mut lent = Lent {
+            buf: self,
+            vec: ManuallyDrop::new(v),
+            elem,
+            into_void: VecVoid::from_vec_override,
+        };
+        f(&mut lent.vec) // May allocate/deallocate
     }
 
     /// Apply a function to this vector as if it was a `Vec<T>` where `T` is
@@ -200,11 +221,15 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let mut v = std::mem::take(self).into_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid can be safely ignored.
-        let _ = std::mem::replace(self, VecVoid::from_vec(v));
-        out
+        let elem = self.elem;
+        let v = std::mem::take(self).into_vec_unchecked::<T>();
+        let mut lent = Lent {
+            buf: self,
+            vec: ManuallyDrop::new(v),
+            elem,
+            into_void: |v, _| VecVoid::from_vec(v),
+        };
+        f(&mut lent.vec) // May allocate/deallocate
     }
 
     #[inline]
@@ -356,7 +381,11 @@ impl VecVoid {
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
                         num_bytes,
                     );
+                    // The new element does not count as long as it is not initialized, which it
+                    // never will be if `init` panics.
+                    v.set_len(orig_len);
                     init(byte_slice);
+                    v.set_len(len * size);
                 });
             }
         }
-- 
2.43.0


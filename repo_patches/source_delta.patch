From daff667678c0b71dbc3135ce4e1ea47c5de147a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 01/21] fix: check bounds in VecCopy::get_ref and get_mut in
 release builds

Both are safe functions that index raw memory, so a debug assertion is not enough.
---
 src/vec_copy.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 13b0615..0ce342c 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -567,7 +567,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_ref(&self, i: usize) -> CopyValueRef<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         // This call is safe since our buffer guarantees that the given bytes have the
         // corresponding TypeId.
         let num_bytes = self.data.elem.num_bytes();
@@ -587,7 +587,7 @@ impl<V: ?Sized> VecCopy<V> {
     /// Get a mutable reference to a value stored in this container at index `i`.
     #[inline]
     pub fn get_mut(&mut self, i: usize) -> CopyValueMut<V> {
-        debug_assert!(i < self.len());
+        assert!(i < self.len());
         let num_bytes = self.data.elem.num_bytes();
         unsafe {
             CopyValueMut::from_raw_parts(
-- 
2.43.0


From 1a0cf63ae0174c69636752d7395e866e61747106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:04 +0000
Subject: [PATCH 02/21] fix: do not let element indices wrap around when scaled
 to bytes

In release builds an index close to usize::MAX / element size could wrap around and address
a part of an element, or the wrong one, instead of causing a panic.
---
 src/elem.rs        | 22 ++++++++++++++++++++++
 src/index_slice.rs | 14 ++++++++------
 src/lib.rs         |  7 ++++---
 src/slice_copy.rs  | 14 +++++++-------
 src/vec_copy.rs    |  3 +--
 src/vec_void.rs    | 10 +++++-----
 6 files changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/elem.rs b/src/elem.rs
index 3430ea9..9eacd1a 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -120,6 +120,17 @@ macro_rules! eval_align {
     }
 }
 
+/// Scale an element index or count by a given element size.
+///
+/// # Panics
+///
+/// This function panics if the result doesn't fit into a `usize`.
+#[inline]
+pub(crate) fn scale_index(i: usize, scale: usize) -> usize {
+    i.checked_mul(scale)
+        .expect("element index is out of the addressable range")
+}
+
 pub trait CopyElem: Any + Copy {}
 impl<T> CopyElem for T where T: Any + Copy {}
 
@@ -149,6 +160,17 @@ impl ElemInfo {
     pub const fn num_bytes(self) -> usize {
         self.size * self.alignment
     }
+
+    /// The number of bytes occupied by `n` consecutive elements.
+    ///
+    /// # Panics
+    ///
+    /// This function panics if the result doesn't fit into a `usize`, which is never the case for
+    /// elements that are actually stored in memory.
+    #[inline]
+    pub(crate) fn scale(self, n: usize) -> usize {
+        scale_index(n, self.num_bytes())
+    }
 }
 
 #[cfg(test)]
diff --git a/src/index_slice.rs b/src/index_slice.rs
index 2e7b881..18fff59 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -1,5 +1,7 @@
 use std::ops;
 
+use crate::elem::scale_index;
+
 /// A helper trait to scale a standard Rust range by a given scale.
 ///
 /// This allows us to use all of Rust's range types for indexing out `Slice`s.
@@ -10,8 +12,8 @@ pub trait ScaleRange {
 impl ScaleRange for ops::Range<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
-        self.end *= scale;
+        self.start = scale_index(self.start, scale);
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -19,7 +21,7 @@ impl ScaleRange for ops::Range<usize> {
 impl ScaleRange for ops::RangeTo<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_index(self.end, scale);
         self
     }
 }
@@ -27,7 +29,7 @@ impl ScaleRange for ops::RangeTo<usize> {
 impl ScaleRange for ops::RangeFrom<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.start *= scale;
+        self.start = scale_index(self.start, scale);
         self
     }
 }
@@ -43,14 +45,14 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        self.start() * scale..=self.end() * scale
+        scale_index(*self.start(), scale)..=scale_index(*self.end(), scale)
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end *= scale;
+        self.end = scale_index(self.end, scale);
         self
     }
 }
diff --git a/src/lib.rs b/src/lib.rs
index 1c52faa..f225b9e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -195,7 +195,8 @@ pub(crate) trait ElementBytes {
     /// Get a range of byte indices representing the given element index.
     #[inline]
     fn index_byte_range(&self, i: usize) -> std::ops::Range<usize> {
-        i * self.element_size()..(i + 1) * self.element_size()
+        let start = elem::scale_index(i, self.element_size());
+        start..start + self.element_size()
     }
 
     /// Index into an immutable slice of bytes.
@@ -232,13 +233,13 @@ pub(crate) trait ElementBytesMut: ElementBytes {
             let l_rng = self.index_byte_range(i);
             // SAFETY: it is safe to swap aligned data since we have unique access.
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * j);
+                let (l, r) = self.bytes_mut().split_at_mut(elem::scale_index(j, element_size));
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         } else {
             let l_rng = self.index_byte_range(j);
             unsafe {
-                let (l, r) = self.bytes_mut().split_at_mut(element_size * i);
+                let (l, r) = self.bytes_mut().split_at_mut(elem::scale_index(i, element_size));
                 l[l_rng].swap_with_slice(&mut r[r_rng])
             }
         }
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 7e0cc62..13cb515 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -279,7 +279,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.scale(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -290,7 +290,7 @@ impl<'a, V: ?Sized> SliceCopy<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at(mid * elem.num_bytes());
+            let (l, r) = data.split_at(elem.scale(mid));
             (
                 SliceCopy::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopy::from_raw_parts(r, elem, vtable.as_ref()),
@@ -624,7 +624,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_left(&mut self, mid: usize) {
-        self.data.rotate_left(mid * self.element_size());
+        self.data.rotate_left(self.elem.scale(mid));
     }
 
     /// Rotates the slice in-place such that the first `self.len() - k` elements of the slice move
@@ -642,7 +642,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
     /// ```
     #[inline]
     pub fn rotate_right(&mut self, k: usize) {
-        self.data.rotate_right(k * self.element_size());
+        self.data.rotate_right(self.elem.scale(k));
     }
 
     /*
@@ -687,7 +687,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact(elem.num_bytes() * chunk_size)
+        data.chunks_exact(elem.scale(chunk_size))
             .map(move |data| unsafe { SliceCopy::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -698,7 +698,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             elem,
             ref vtable,
         } = self;
-        data.chunks_exact_mut(elem.num_bytes() * chunk_size)
+        data.chunks_exact_mut(elem.scale(chunk_size))
             .map(move |data| unsafe { SliceCopyMut::from_raw_parts(data, elem, vtable.as_ref()) })
     }
 
@@ -709,7 +709,7 @@ impl<'a, V: ?Sized> SliceCopyMut<'a, V> {
             ref vtable,
         } = self;
         unsafe {
-            let (l, r) = data.split_at_mut(mid * elem.num_bytes());
+            let (l, r) = data.split_at_mut(elem.scale(mid));
             (
                 SliceCopyMut::from_raw_parts(l, elem, vtable.as_ref()),
                 SliceCopyMut::from_raw_parts(r, elem, vtable.as_ref()),
diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index 0ce342c..f517316 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -870,8 +870,7 @@ impl VecVoid {
     #[inline]
     pub fn get_bytes(&self, i: usize) -> &[MaybeUninit<u8>] {
         debug_assert!(i < self.len());
-        let element_size = self.element_size();
-        &self.bytes()[i * element_size..(i + 1) * element_size]
+        self.index_byte_slice(i)
     }
 
     /// Get a mutable reference to the byte slice of the `i`'th element of the buffer.
diff --git a/src/vec_void.rs b/src/vec_void.rs
index b6ec5f4..f200183 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -218,7 +218,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(additional * size);
+                    v.reserve(scale_index(additional, size));
                 })
             };
         }
@@ -232,7 +232,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.truncate(new_len * size);
+                    v.truncate(new_len.saturating_mul(size));
                 })
             };
         }
@@ -299,7 +299,7 @@ impl VecVoid {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // SAFETY: T here is one of the T# so it's copy.
                     let orig_len = v.len();
-                    v.resize_with(len * size, Default::default);
+                    v.resize_with(scale_index(len, size), Default::default);
                     let byte_slice = std::slice::from_raw_parts_mut(
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
                         num_bytes,
@@ -319,7 +319,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_left(n * size);
+                    v.rotate_left(scale_index(n, size));
                 });
             }
         }
@@ -334,7 +334,7 @@ impl VecVoid {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.rotate_right(n * size);
+                    v.rotate_right(scale_index(n, size));
                 });
             }
         }
-- 
2.43.0


From 5835f8400465024c539dfd04f930b3367a0b9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/21] fix: tie the lifetime of Slice and SliceCopy to the
 slice they are created from

The lifetime of the slice was not constrained by the argument of from_slice, so that safe code
could keep using an untyped slice after its data was freed.
---
 src/slice.rs      | 2 +-
 src/slice_copy.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index bffca3a..7509911 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -45,7 +45,7 @@ impl<'a, V: ?Sized + HasDrop + HasDebug> fmt::Debug for Slice<'a, V> {
 impl<'a, V: HasDrop> Slice<'a, V> {
     /// Construct a `Slice` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: Elem>(slice: &[T]) -> Self
+    pub fn from_slice<T: Elem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index 13cb515..cf289f9 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -29,7 +29,7 @@ where
 impl<'a, V> SliceCopy<'a, V> {
     /// Construct a `SliceCopy` from a given typed slice by reusing the provided memory.
     #[inline]
-    pub fn from_slice<T: CopyElem>(slice: &[T]) -> Self
+    pub fn from_slice<T: CopyElem>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
@@ -39,7 +39,7 @@ impl<'a, V> SliceCopy<'a, V> {
 
     /// It is unsafe to call this for `T` that is not `Copy`.
     #[inline]
-    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &[T]) -> Self
+    pub(crate) unsafe fn from_slice_non_copy<T: Any>(slice: &'a [T]) -> Self
     where
         V: VTable<T>,
     {
-- 
2.43.0


From 3b3856487abb2338abd2205fbb632202e8f88aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 04/21] fix: drop the contained value when downcasting a Value
 to a wrong type

A failed downcast consumed the value, but leaked its contents and memory.
---
 src/value.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index b527308..6eb57aa 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -367,15 +367,15 @@ impl<V: ?Sized + HasDrop> Value<Box<[MaybeUninit<u8>]>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<Box<T>> {
+        if !self.is::<T>() {
+            // The value is dropped here as usual.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
-        let output = if s.is::<T>() {
-            // This is safe since we check that self.bytes represents a `T`.
-            Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) })
-        } else {
-            None
-        };
+        // This is safe since we check that self.bytes represents a `T`.
+        let output = Some(unsafe { Bytes::box_from_box_bytes(ManuallyDrop::take(&mut s.bytes)) });
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
@@ -390,15 +390,15 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
     /// Downcast this value reference into a boxed `T` type. Return `None` if the downcast fails.
     #[inline]
     pub fn downcast<T: 'static>(self) -> Option<T> {
+        if !self.is::<T>() {
+            // The value is dropped here as usual.
+            return None;
+        }
         // Override the Drop implementation, since we don't actually want to drop the contents
         // here, just the vtable.
         let mut s = ManuallyDrop::new(self);
         // This is safe since we check that self.bytes represent a `T`.
-        let output = if s.is::<T>() {
-            unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) }
-        } else {
-            None
-        };
+        let output = unsafe { Bytes::try_from_usize(ManuallyDrop::take(&mut s.bytes)) };
         // We are done with self, dropping the remaining fields here to avoid memory leaks.
         // This is safe since `s` will not be used again.
         unsafe {
-- 
2.43.0


From ab374d59b7906374acf54748066ed60a51e306d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 05/21] fix: drop the elements when converting a VecDyn into a
 Vec of a wrong type

Only the storage was freed in this case, and the elements were leaked.
---
 src/vec_dyn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index d0cc0e2..2e389f1 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -349,6 +349,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// This function helps the compiler determine the type `T` automatically.
     #[inline]
     pub fn into_vec<T: Elem>(self) -> Option<Vec<T>> {
+        // If the type doesn't match, then self is dropped here together with its elements.
+        self.check_ref::<T>()?;
         // This is safe because self.data will not be used after this call, and the resulting
         // Vec<T> will drop all elements correctly.
         unsafe {
-- 
2.43.0


From fff4b2520df0bfb2c23d1b0e28775bac4c682521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 06/21] fix: drop values that do not fit into a SmallValue

SmallValue::try_new leaked the given value when returning None.
---
 src/value.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/value.rs b/src/value.rs
index 6eb57aa..ca0758e 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -116,12 +116,19 @@ impl<V: HasDrop> SmallValue<V> {
     {
         // Prevent drop of value when it goes out of scope.
         let val = ManuallyDrop::new(value);
-        val.try_into_usize().map(|usized_value| Value {
-            bytes: ManuallyDrop::new(usized_value),
-            type_id: TypeId::of::<T>(),
-            alignment: std::mem::align_of::<T>(),
-            vtable: ManuallyDrop::new(Ptr::new(V::build_vtable())),
-        })
+        match val.try_into_usize() {
+            Some(usized_value) => Some(Value {
+                bytes: ManuallyDrop::new(usized_value),
+                type_id: TypeId::of::<T>(),
+                alignment: std::mem::align_of::<T>(),
+                vtable: ManuallyDrop::new(Ptr::new(V::build_vtable())),
+            }),
+            None => {
+                // The value doesn't fit and so it isn't stored anywhere else.
+                drop(ManuallyDrop::into_inner(val));
+                None
+            }
+        }
     }
     /// This function will panic if the given type does not fit into a `usize`.
     #[inline]
-- 
2.43.0


From 9294cbecd05ad0b5272a49cba47ea8be53596763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 07/21] fix: free the memory of values pushed onto a VecDyn
 with the right alignment

The box was freed as a slice of bytes although it was allocated for the type of the value.
---
 src/vec_dyn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 2e389f1..27faa10 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -434,8 +434,11 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
         if value.value_type_id() == self.element_type_id() {
             // Prevent the value from being dropped at the end of this scope since it will be later
             // dropped by this container. The remaining fields like vtable will be dropped here.
-            let (bytes, _, _, _) = value.into_raw_parts();
-            self.data.data.push(&*bytes);
+            let (bytes, _, alignment, _) = value.into_raw_parts();
+            let mut bytes = ManuallyDrop::new(bytes);
+            self.data.data.push(&**bytes);
+            // The memory was allocated with the alignment of the value.
+            bytes.drop_as_aligned(alignment);
             Some(self)
         } else {
             None
-- 
2.43.0


From 8ddbeca774bd3cbf14a8608d3eebbce164e572e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 08/21] fix: grow untyped vectors by whole elements

The growth strategy of Vec for the aligned chunks that make up an element may produce a capacity
that is not a multiple of the element size, which caused a panic in from_vec_override.
---
 src/vec_void.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index f200183..1d2c7e4 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -213,16 +213,23 @@ impl VecVoid {
     /// Reserve `additional` extra elements.
     #[inline]
     pub(crate) fn reserve(&mut self, additional: usize) {
-        fn reserve<T: 'static>(buf: &mut VecVoid, additional: usize) {
+        fn reserve<T: 'static>(buf: &mut VecVoid, cap: usize) {
             let size = buf.elem.size;
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
-                    v.reserve(scale_index(additional, size));
+                    v.reserve_exact(scale_index(cap, size) - v.len());
                 })
             };
         }
-        eval_align!(self.elem.alignment; reserve::<_>(self, additional));
+        if self.cap - self.len >= additional {
+            return;
+        }
+        // The capacity must remain a multiple of the element size, which is not guaranteed if we
+        // let `Vec<T>` pick a capacity for us.
+        let min_cap = self.len.checked_add(additional).expect("capacity overflow");
+        let cap = min_cap.max(self.cap.saturating_mul(2));
+        eval_align!(self.elem.alignment; reserve::<_>(self, cap));
     }
 
     #[inline]
@@ -257,6 +264,7 @@ impl VecVoid {
         debug_assert_eq!(self.elem.alignment, other.elem.alignment);
         debug_assert_eq!(self.elem.size, other.elem.size);
 
+        self.reserve(other.len);
         eval_align!(self.elem.alignment; append::<_>(self, other));
     }
 
@@ -275,6 +283,7 @@ impl VecVoid {
             }
         }
 
+        self.reserve(1);
         eval_align!(self.elem.alignment; push::<_>(self, val));
     }
 
@@ -309,6 +318,7 @@ impl VecVoid {
             }
         }
 
+        self.reserve(len.saturating_sub(self.len));
         eval_align!(self.elem.alignment; resize_with::<_, I>(self, len, init));
     }
 
-- 
2.43.0


From 48c258464ef4ef01355163284330dc0443ef56d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 09/21] fix: push all bytes of a value whose size is larger
 than its alignment

Only the first alignment sized chunk was pushed.
---
 src/vec_void.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 1d2c7e4..6d2e923 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -271,18 +271,20 @@ impl VecVoid {
     #[inline]
     pub(crate) fn push(&mut self, val: &[MaybeUninit<u8>]) {
         fn push<T: 'static + Copy>(buf: &mut VecVoid, val: &[MaybeUninit<u8>]) {
+            let size = buf.elem.size;
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
                 buf.apply_aligned_unchecked(|v: &mut Vec<T>| {
                     // SAFETY: T here is one of the T# so it's copy. The
                     // following is effectively a move and doesn't rely on the
                     // "actual" type being Copy.
-                    let val_t = *(val.as_ptr() as *const T);
-                    v.push(val_t);
+                    let val_t = std::slice::from_raw_parts(val.as_ptr() as *const T, size);
+                    v.extend_from_slice(val_t);
                 });
             }
         }
 
+        assert_eq!(val.len(), self.elem.num_bytes());
         self.reserve(1);
         eval_align!(self.elem.alignment; push::<_>(self, val));
     }
-- 
2.43.0


From 8454221381e6ade83191be9f6bb8a72aaba7ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 10/21] fix: restore the contents of an untyped vector when an
 operation on it panics

The storage was moved out of the vector for the duration of the operation. If it panicked, for
instance when rotating by more than the number of elements, the elements were leaked and the
remaining vector had a zero-sized element type, which caused another panic when dropped.
---
 src/vec_void.rs | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 6d2e923..526d59a 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -175,12 +175,25 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let orig_elem = self.elem;
-        let mut v = std::mem::take(self).into_aligned_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid value can be safely ignored
-        let _ = std::mem::replace(self, VecVoid::from_vec_override(v, orig_elem));
-        out
+        // Writes the `Vec` back when dropped, so that the contents are preserved even if `f` panics.
+        struct WriteBack<'a, T: 'static> {
+            buf: &'a mut VecVoid,
+            v: ManuallyDrop<Vec<T>>,
+        }
+        impl<'a, T: 'static> Drop for WriteBack<'a, T> {
+            fn drop(&mut self) {
+                // SAFETY: The storage referred to by `buf` is owned by `v`, so `buf` is overwritten
+                // without being dropped, and `v` isn't used after this.
+                unsafe {
+                    let elem = self.buf.elem;
+                    let v = ManuallyDrop::take(&mut self.v);
+                    std::ptr::write(self.buf, VecVoid::from_vec_override(v, elem));
+                }
+            }
+        }
+        let v = self.aligned_vec_unchecked::<T>();
+        let mut guard = WriteBack { buf: self, v };
+        f(&mut guard.v) // May allocate/deallocate
     }
 
     /// Apply a function to this vector as if it was a `Vec<T>` where `T` is
@@ -190,11 +203,24 @@ impl VecVoid {
         &mut self,
         f: impl FnOnce(&mut Vec<T>) -> U,
     ) -> U {
-        let mut v = std::mem::take(self).into_vec_unchecked::<T>();
-        let out = f(&mut v); // May allocate/deallocate
-                             // Returned default VecVoid can be safely ignored.
-        let _ = std::mem::replace(self, VecVoid::from_vec(v));
-        out
+        // See `apply_aligned_unchecked`.
+        struct WriteBack<'a, T: 'static> {
+            buf: &'a mut VecVoid,
+            v: ManuallyDrop<Vec<T>>,
+        }
+        impl<'a, T: 'static> Drop for WriteBack<'a, T> {
+            fn drop(&mut self) {
+                // SAFETY: The storage referred to by `buf` is owned by `v`, so `buf` is overwritten
+                // without being dropped, and `v` isn't used after this.
+                unsafe {
+                    let v = ManuallyDrop::take(&mut self.v);
+                    std::ptr::write(self.buf, VecVoid::from_vec(v));
+                }
+            }
+        }
+        let v = ManuallyDrop::new(Vec::from_raw_parts(self.ptr as *mut T, self.len, self.cap));
+        let mut guard = WriteBack { buf: self, v };
+        f(&mut guard.v) // May allocate/deallocate
     }
 
     #[inline]
-- 
2.43.0


From 6e473c575369638179c26d4db74d8c9102263de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 11/21] fix: do not expose an uninitialized element if cloning
 it into a VecDyn panics

---
 src/vec_void.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 526d59a..64d6b99 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -341,7 +341,10 @@ impl VecVoid {
                         (&mut v[orig_len..]).as_mut_ptr() as *mut MaybeUninit<u8>,
                         num_bytes,
                     );
+                    // Don't expose the new element if `init` panics.
+                    v.set_len(orig_len);
                     init(byte_slice);
+                    v.set_len(scale_index(len, size));
                 });
             }
         }
-- 
2.43.0


From 901079a433cca79b8c98cec14c60ffd094a2866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 12/21] fix: do not clone an untyped vector into storage of
 another element type

VecVoid::clone_from interpreted the source according to the element type of the destination.
---
 src/vec_void.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vec_void.rs b/src/vec_void.rs
index 64d6b99..9debce5 100644
--- a/src/vec_void.rs
+++ b/src/vec_void.rs
@@ -56,6 +56,11 @@ impl Clone for VecVoid {
     }
 
     fn clone_from(&mut self, source: &Self) {
+        if self.elem != source.elem {
+            // The existing storage can't be reused for elements of another type.
+            *self = source.clone();
+            return;
+        }
         fn clone_from<T: 'static + Clone>(out: &mut VecVoid, source: &VecVoid) {
             // SAFETY: Memory layout is ensured to be correct by eval_align.
             unsafe {
@@ -70,6 +75,7 @@ impl Clone for VecVoid {
                 out.apply_aligned_unchecked(|out: &mut Vec<T>| out.clone_from(&src))
             }
         }
+        self.reserve(source.len.saturating_sub(self.len));
         eval_align!(self.elem.alignment; clone_from::<_>(self, source))
     }
 }
-- 
2.43.0


From 18e26943e7778778233d1fbef0e662c29c5dadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:34 +0000
Subject: [PATCH 13/21] fix: do not drop elements of a VecDyn twice if one of
 them panics while being dropped

clear and resize dropped the elements before updating the length.
---
 src/vec_dyn.rs | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 27faa10..554e5f9 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -49,7 +49,7 @@
 use std::{
     any::{Any, TypeId},
     fmt,
-    mem::ManuallyDrop,
+    mem::{ManuallyDrop, MaybeUninit},
     slice,
 };
 
@@ -256,13 +256,28 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// Clear the data buffer without destroying its type information.
     #[inline]
     pub fn clear(&mut self) {
-        // Drop all elements manually.
+        self.truncate(0);
+    }
+
+    /// Drop all but the first `new_len` elements.
+    fn truncate(&mut self, new_len: usize) {
+        if new_len >= self.len() {
+            return;
+        }
+        // Drop trailing elements manually.
         unsafe {
             let VecCopy { data, vtable, .. } = &mut *self.data;
-            for elem_bytes in data.byte_chunks_mut() {
+            let num_bytes = data.elem.num_bytes();
+            let tail = slice::from_raw_parts_mut(
+                (data.ptr as *mut MaybeUninit<u8>).add(new_len * num_bytes),
+                (data.len() - new_len) * num_bytes,
+            );
+            // Truncate data before calling any drop function to make sure that no element is
+            // dropped again if one of them panics.
+            data.truncate(new_len);
+            for elem_bytes in tail.chunks_exact_mut(num_bytes) {
                 vtable.drop_fn()(elem_bytes);
             }
-            data.clear();
         }
     }
 
@@ -687,16 +702,7 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
                 self.data.push_as(value.clone());
             }
         } else {
-            // Drop trailing elements manually.
-            unsafe {
-                let VecCopy { data, vtable, .. } = &mut *self.data;
-                for elem_bytes in data.byte_chunks_mut().skip(new_len) {
-                    vtable.drop_fn()(elem_bytes);
-                }
-            }
-
-            // Truncate data
-            self.data.data.truncate(new_len);
+            self.truncate(new_len);
         }
         Some(self)
     }
-- 
2.43.0


From f13c747c31c95500d3131736895fa530f1497671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 14/21] fix: compare types and lengths when comparing slices
 and vectors

Containers of different lengths compared equal if one was a prefix of the other.
---
 src/slice.rs   | 14 +++++++-------
 src/vec_dyn.rs |  4 +---
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 7509911..7ad44f1 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -30,9 +30,12 @@ pub type SliceDrop<'a> = Slice<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for Slice<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.element_type_id() == other.element_type_id()
+            && self.len() == other.len()
+            && self
+                .iter()
+                .zip(other.iter())
+                .all(|(this, that)| this == that)
     }
 }
 
@@ -345,10 +348,7 @@ pub type SliceMutDrop<'a> = SliceMut<'a, DropVTable>;
 
 impl<'a, V: ?Sized + HasDrop + HasPartialEq> PartialEq for SliceMut<'a, V> {
     fn eq(&self, other: &Self) -> bool {
-        self.reborrow()
-            .iter()
-            .zip(other.reborrow().iter())
-            .all(|(this, that)| this == that)
+        self.reborrow() == other.reborrow()
     }
 }
 
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index 554e5f9..c41d912 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -123,9 +123,7 @@ impl<V: ?Sized + Clone + HasDrop + HasClone> Clone for VecDyn<V> {
 
 impl<V: ?Sized + HasDrop + HasPartialEq> PartialEq for VecDyn<V> {
     fn eq(&self, other: &Self) -> bool {
-        self.iter()
-            .zip(other.iter())
-            .all(|(this, that)| this == that)
+        self.as_slice() == other.as_slice()
     }
 }
 
-- 
2.43.0


From d99145f2eb60030a781bb2fe2c1da297e6bc1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 15/21] fix: require Eq of the contained type for untyped
 values and containers to be Eq

---
 src/traits.rs | 2 +-
 src/value.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 79db2c4..c535f37 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -190,7 +190,7 @@ impl<T: DropBytes + PartialEqBytes> VTable<T> for PartialEqVTable {
     }
 }
 
-impl<T: DropBytes + PartialEqBytes> VTable<T> for EqVTable {
+impl<T: DropBytes + PartialEqBytes + Eq> VTable<T> for EqVTable {
     fn build_vtable() -> Self {
         EqVTable(T::drop_bytes, T::eq_bytes)
     }
diff --git a/src/value.rs b/src/value.rs
index ca0758e..068ea44 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -355,7 +355,7 @@ impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Partial
     }
 }
 
-impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasPartialEq> Eq for Value<B, V> {}
+impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasEq> Eq for Value<B, V> {}
 
 impl<B: GetBytesMut + DropAsAligned, V: ?Sized + HasDrop + HasHash> Hash for Value<B, V> {
     #[inline]
-- 
2.43.0


From f3286e85feb023d61956f6fdc7976801df670600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 16/21] fix: require shared untyped references to be Sync to
 send them across threads

A shared reference to a type that is Send but not Sync, like Cell, must not be sent.
---
 src/slice.rs |  3 ++-
 src/value.rs | 14 ++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index 7ad44f1..3b5299c 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -330,7 +330,8 @@ where
     }
 }
 
-unsafe impl<'a, V: ?Sized + HasDrop + HasSend> Send for Slice<'a, V> {}
+// A `Slice` is a shared reference.
+unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Send for Slice<'a, V> {}
 unsafe impl<'a, V: ?Sized + HasDrop + HasSync> Sync for Slice<'a, V> {}
 
 /*
diff --git a/src/value.rs b/src/value.rs
index 068ea44..a658999 100644
--- a/src/value.rs
+++ b/src/value.rs
@@ -417,8 +417,8 @@ impl<V: ?Sized + HasDrop> Value<MaybeUninit<usize>, V> {
 }
 
 macro_rules! impl_value_ref_traits {
-    ($value_ref:ident : $($maybe_drop:ident)*) => {
-        unsafe impl<'a, V: ?Sized + HasSend $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
+    ($value_ref:ident : $send:ident : $($maybe_drop:ident)*) => {
+        unsafe impl<'a, V: ?Sized + $send $( + $maybe_drop)*> Send for $value_ref<'a, V> {}
         unsafe impl<'a, V: ?Sized + HasSync $( + $maybe_drop)*> Sync for $value_ref<'a, V> {}
 
         impl<'a, V: ?Sized + HasHash $( + $maybe_drop)*> Hash for $value_ref<'a, V> {
@@ -455,8 +455,9 @@ macro_rules! impl_value_ref_traits {
 }
 
 // Impl value ref traits for CopyValue types.
-impl_value_ref_traits!(CopyValueMut:);
-impl_value_ref_traits!(CopyValueRef:);
+impl_value_ref_traits!(CopyValueMut: HasSend:);
+// Sending a shared reference requires its contents to be `Sync`.
+impl_value_ref_traits!(CopyValueRef: HasSync:);
 
 /// A generic value reference into a buffer.
 #[derive(Clone)]
@@ -470,7 +471,8 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueRef: HasDrop);
+// Sending a shared reference requires its contents to be `Sync`.
+impl_value_ref_traits!(ValueRef: HasSync: HasDrop);
 
 impl<'a, V: HasDrop> ValueRef<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
@@ -630,7 +632,7 @@ where
     pub(crate) vtable: VTableRef<'a, V>,
 }
 
-impl_value_ref_traits!(ValueMut: HasDrop);
+impl_value_ref_traits!(ValueMut: HasSend: HasDrop);
 
 impl<'a, V: HasDrop> ValueMut<'a, V> {
     /// Create a new `ValueRef` from a typed reference.
-- 
2.43.0


From 1996b39bf368cd60a02d130518fb03d405d71521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 17/21] fix: return None when pushing a value of a wrong type
 onto a VecCopy

As documented, instead of causing a panic if the size of the value is different.
---
 src/vec_copy.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index f517316..d0d5fba 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -675,7 +675,6 @@ impl<V: ?Sized> VecCopy<V> {
     /// value.
     #[inline]
     pub fn push<U>(&mut self, value: CopyValueRef<U>) -> Option<&mut Self> {
-        assert_eq!(value.size(), self.element_size());
         if value.value_type_id() == self.element_type_id() {
             self.data.push(value.bytes);
             Some(self)
-- 
2.43.0


From 7ebe342ceb70f70ee27df94c9161486fd4fe3336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 18/21] fix: include the whole last element when slicing by an
 inclusive range

The scaled range covered only the first byte of the last element.
---
 src/index_slice.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/index_slice.rs b/src/index_slice.rs
index 18fff59..b8f6f9e 100644
--- a/src/index_slice.rs
+++ b/src/index_slice.rs
@@ -45,14 +45,25 @@ impl ScaleRange for ops::RangeFull {
 impl ScaleRange for ops::RangeInclusive<usize> {
     #[inline]
     fn scale_range(self, scale: usize) -> Self {
-        scale_index(*self.start(), scale)..=scale_index(*self.end(), scale)
+        scale_index(*self.start(), scale)..=scale_inclusive_end(*self.end(), scale)
     }
 }
 
 impl ScaleRange for ops::RangeToInclusive<usize> {
     #[inline]
     fn scale_range(mut self, scale: usize) -> Self {
-        self.end = scale_index(self.end, scale);
+        self.end = scale_inclusive_end(self.end, scale);
         self
     }
 }
+
+/// The last index covered by the element at index `end`.
+///
+/// Note that `scale` is never zero, since zero sized types are not supported.
+#[inline]
+fn scale_inclusive_end(end: usize, scale: usize) -> usize {
+    let end = end
+        .checked_add(1)
+        .expect("element index is out of the addressable range");
+    scale_index(end, scale) - 1
+}
-- 
2.43.0


From fa3125d6275adf41b4b6a0f967656653d1661638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 19/21] fix: allow only copyable elements to be pushed onto a
 VecCopy

An empty VecCopy can be created from the metadata of a container of non-copyable elements.
Elements pushed onto it were never dropped, and duplicated when the VecCopy was cloned.
---
 src/vec_copy.rs | 9 ++++++++-
 src/vec_dyn.rs  | 5 +++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vec_copy.rs b/src/vec_copy.rs
index d0d5fba..0d1be5f 100644
--- a/src/vec_copy.rs
+++ b/src/vec_copy.rs
@@ -319,7 +319,14 @@ impl<V: ?Sized> VecCopy<V> {
     /// stored by this buffer, then the modified buffer is returned via a mutable reference.
     /// Otherwise, `None` is returned.
     #[inline]
-    pub fn push_as<T: Any>(&mut self, element: T) -> Option<&mut Self> {
+    pub fn push_as<T: CopyElem>(&mut self, element: T) -> Option<&mut Self> {
+        // SAFETY: `T` is a `CopyElem`.
+        unsafe { self.push_as_non_copy(element) }
+    }
+
+    /// It is unsafe to call this for `T` that is not a `CopyElem`.
+    #[inline]
+    pub(crate) unsafe fn push_as_non_copy<T: Any>(&mut self, element: T) -> Option<&mut Self> {
         self.check_mut::<T>().map(|s| {
             // SAFETY: Checked using `check_mut`.
             unsafe {
diff --git a/src/vec_dyn.rs b/src/vec_dyn.rs
index c41d912..1c9d747 100644
--- a/src/vec_dyn.rs
+++ b/src/vec_dyn.rs
@@ -286,7 +286,8 @@ impl<V: ?Sized + HasDrop> VecDyn<V> {
     /// returned.
     #[inline]
     pub fn push_as<T: Elem>(&mut self, element: T) -> Option<&mut Self> {
-        let _ = self.data.push_as(element)?;
+        // This is safe because the drops of the elements are handled by this container.
+        let _ = unsafe { self.data.push_as_non_copy(element)? };
         Some(self)
     }
 
@@ -697,7 +698,7 @@ impl<V: ?Sized + HasDrop + HasClone> VecDyn<V> {
             let diff = new_len - self.len();
             self.data.reserve(diff);
             for _ in 0..diff {
-                self.data.push_as(value.clone());
+                self.push_as(value.clone());
             }
         } else {
             self.truncate(new_len);
-- 
2.43.0


From b546e210f31e8e92ebdea53b4eae6ddd4fc22404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 20/21] fix: reject slices of zero sized types

The length of such a slice is not known, and calling len or get on it failed with an arithmetic
error.
---
 src/slice_copy.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/slice_copy.rs b/src/slice_copy.rs
index cf289f9..14234d0 100644
--- a/src/slice_copy.rs
+++ b/src/slice_copy.rs
@@ -44,6 +44,10 @@ impl<'a, V> SliceCopy<'a, V> {
         V: VTable<T>,
     {
         let element_size = size_of::<T>();
+        assert_ne!(
+            element_size, 0,
+            "SliceCopy doesn't support zero sized types."
+        );
         SliceCopy {
             data: std::slice::from_raw_parts(
                 slice.as_ptr() as *const MaybeUninit<u8>,
@@ -407,6 +411,10 @@ impl<'a, V> SliceCopyMut<'a, V> {
         V: VTable<T>,
     {
         let element_size = size_of::<T>();
+        assert_ne!(
+            element_size, 0,
+            "SliceCopyMut doesn't support zero sized types."
+        );
         SliceCopyMut {
             data: std::slice::from_raw_parts_mut(
                 slice.as_mut_ptr() as *mut MaybeUninit<u8>,
-- 
2.43.0


From 07692b8a7ae724667ccaea4012f8c8323d2fd1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:55 +0000
Subject: [PATCH 21/21] fix: support Eq without PartialEq in the list of
 supertraits of dync_trait

---
 dync-derive/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dync-derive/src/lib.rs b/dync-derive/src/lib.rs
index dc373ad..352874a 100644
--- a/dync-derive/src/lib.rs
+++ b/dync-derive/src/lib.rs
@@ -428,6 +428,9 @@ pub fn dync_trait(
 
     fill_trait_map_from_item_trait(&item_trait, &mut trait_map);
 
+    // Supertraits of builtin traits are needed too (e.g. `PartialEq` for `Eq`).
+    flatten_inheritance(&item_trait, &mut trait_map);
+
     fill_drop_for_inheritance(&mut trait_map);
 
     //fill_inherited_impls(&mut impls, &config, &trait_inheritance);
-- 
2.43.0


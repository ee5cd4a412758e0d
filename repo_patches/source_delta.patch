From 6a5edbc4a58b67a19b1c109d87cd7b328e373833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 01/44] fix: allow sub-slices that touch the end of a slice

---
 pasture-core/src/containers/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 5f764a5..77cc1f2 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -187,8 +187,8 @@ impl<'a, T: BorrowedBuffer<'a> + Sized> SliceBuffer<'a> for BufferSlice<'a, T> {
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&self, range: Range<usize>) -> BufferSlice<'a, T> {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -424,8 +424,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBuffer<'a>
     type SliceType = BufferSlice<'a, T>;
 
     fn slice(&'a self, range: Range<usize>) -> Self::SliceType {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
@@ -444,8 +444,8 @@ impl<'a, T: BorrowedBuffer<'a> + BorrowedMutBuffer<'a> + Sized> SliceBufferMut<'
     type SliceTypeMut = BufferSliceMut<'a, T>;
 
     fn slice_mut(&'a mut self, range: Range<usize>) -> Self::SliceTypeMut {
-        assert!(range.start < self.len());
-        assert!(range.end < self.len());
+        assert!(range.start <= self.len());
+        assert!(range.end <= self.len());
         let global_range = if range.start > range.end {
             (self.point_range.start + range.end)..(self.point_range.start + range.end)
         } else {
-- 
2.43.0


From 3cf2535c1b6172ccae611ca6af5b7097ce627b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 02/44] fix: check indices into BufferSliceMut against the
 length of the slice

---
 pasture-core/src/containers/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index 77cc1f2..b664823 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -219,12 +219,12 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
     }
 
     fn get_and_check_global_point_index(&self, local_index: usize) -> usize {
-        assert!(local_index < self.point_range.end);
+        assert!(local_index < self.point_range.len());
         local_index + self.point_range.start
     }
 
     fn get_and_check_global_point_range(&self, local_range: Range<usize>) -> Range<usize> {
-        assert!(local_range.end <= self.point_range.end);
+        assert!(local_range.end <= self.point_range.len());
         if local_range.start >= local_range.end {
             // Doesn't matter what range we return, as long as it is empty
             self.point_range.end..self.point_range.end
-- 
2.43.0


From 4781c3df7d727fcf3edf722ce316b9a654705170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 03/44] fix: iterators over points and attributes yield nothing
 after nth past the end

---
 pasture-core/src/containers/attribute_iterators.rs | 12 ++++++------
 pasture-core/src/containers/point_iterators.rs     | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index a36ac4e..8729d9a 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -36,7 +36,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.buffer.len() {
+        if self.current_index >= self.buffer.len() {
             None
         } else {
             let mut attribute = T::zeroed();
@@ -55,7 +55,7 @@ impl<'a, 'b, T: PrimitiveType, B: BorrowedBuffer<'a>> Iterator
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -87,7 +87,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.attribute_data.len() {
+        if self.current_index >= self.attribute_data.len() {
             None
         } else {
             let ret = &self.attribute_data[self.current_index];
@@ -97,7 +97,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -129,7 +129,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.attribute_data.len() {
+        if self.current_index >= self.attribute_data.len() {
             None
         } else {
             unsafe {
@@ -141,7 +141,7 @@ impl<'a, T: PrimitiveType> Iterator for AttributeIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index dedacdf..20c9fef 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -30,7 +30,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.buffer.len() {
+        if self.current_index >= self.buffer.len() {
             None
         } else {
             let mut point = T::zeroed();
@@ -42,7 +42,7 @@ impl<'a, 'b, T: PointType, B: BorrowedBuffer<'a>> Iterator for PointIteratorByVa
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -70,7 +70,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     type Item = &'a T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.point_data.len() {
+        if self.current_index >= self.point_data.len() {
             None
         } else {
             let point = &self.point_data[self.current_index];
@@ -80,7 +80,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByRef<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
@@ -111,7 +111,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current_index == self.point_data.len() {
+        if self.current_index >= self.point_data.len() {
             None
         } else {
             unsafe {
@@ -123,7 +123,7 @@ impl<'a, T: PointType> Iterator for PointIteratorByMut<'a, T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current_index += n;
+        self.current_index = self.current_index.saturating_add(n);
         self.next()
     }
 }
-- 
2.43.0


From 46730f849eb9efee3689940dd597a3105f016824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 04/44] fix: iterating and sorting an empty buffer by reference
 must not panic

---
 pasture-core/src/containers/attribute_iterators.rs | 14 ++++++++++++--
 pasture-core/src/containers/buffer_views.rs        |  4 ++++
 pasture-core/src/containers/point_iterators.rs     | 14 ++++++++++++--
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/attribute_iterators.rs b/pasture-core/src/containers/attribute_iterators.rs
index 8729d9a..eaf0397 100644
--- a/pasture-core/src/containers/attribute_iterators.rs
+++ b/pasture-core/src/containers/attribute_iterators.rs
@@ -77,7 +77,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByRef<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_ref(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice(attribute_memory),
+            // The memory of an empty buffer can have any alignment
+            attribute_data: if attribute_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(attribute_memory)
+            },
             current_index: 0,
         }
     }
@@ -119,7 +124,12 @@ impl<'a, T: PrimitiveType> AttributeIteratorByMut<'a, T> {
     {
         let attribute_memory = buffer.get_attribute_range_mut(attribute, 0..buffer.len());
         Self {
-            attribute_data: bytemuck::cast_slice_mut(attribute_memory),
+            // The memory of an empty buffer can have any alignment
+            attribute_data: if attribute_memory.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(attribute_memory)
+            },
             current_index: 0,
         }
     }
diff --git a/pasture-core/src/containers/buffer_views.rs b/pasture-core/src/containers/buffer_views.rs
index b44ed20..6273f28 100644
--- a/pasture-core/src/containers/buffer_views.rs
+++ b/pasture-core/src/containers/buffer_views.rs
@@ -235,6 +235,10 @@ impl<'a, 'b, B: InterleavedBufferMut<'a>, T: PointType> PointViewMut<'a, 'b, B,
 
     /// Sorts the point buffer using the given `comparator` function
     pub fn sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, comparator: F) {
+        if self.buffer.is_empty() {
+            // The memory of an empty buffer can have any alignment
+            return;
+        }
         let typed_points: &mut [T] =
             bytemuck::cast_slice_mut(self.buffer.get_point_range_mut(0..self.buffer.len()));
         typed_points.sort_by(comparator);
diff --git a/pasture-core/src/containers/point_iterators.rs b/pasture-core/src/containers/point_iterators.rs
index 20c9fef..e24e1d0 100644
--- a/pasture-core/src/containers/point_iterators.rs
+++ b/pasture-core/src/containers/point_iterators.rs
@@ -60,7 +60,12 @@ where
     fn from(value: &'a B) -> Self {
         let points_memory = value.get_point_range_ref(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice(points_memory),
+            // The memory of an empty buffer can have any alignment
+            point_data: if points_memory.is_empty() {
+                &[]
+            } else {
+                bytemuck::cast_slice(points_memory)
+            },
             current_index: 0,
         }
     }
@@ -100,7 +105,12 @@ where
     fn from(value: &'a mut B) -> Self {
         let memory_for_all_points = value.get_point_range_mut(0..value.len());
         Self {
-            point_data: bytemuck::cast_slice_mut(memory_for_all_points),
+            // The memory of an empty buffer can have any alignment
+            point_data: if memory_for_all_points.is_empty() {
+                &mut []
+            } else {
+                bytemuck::cast_slice_mut(memory_for_all_points)
+            },
             current_index: 0,
             _phantom: Default::default(),
         }
-- 
2.43.0


From fa288f0522352d794c7c56d1f9450f45d90b717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 05/44] fix: VectorBuffer::from_iter must not treat the upper
 bound of size_hint as the length

---
 pasture-core/src/containers/point_buffer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 335dd8d..5cac66e 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -851,7 +851,9 @@ impl<T: PointType> FromIterator<T> for VectorBuffer {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let point_layout = T::layout();
         let iter = iter.into_iter();
-        let (_, maybe_known_length) = iter.size_hint();
+        // The upper bound alone is not the number of points (e.g. for a filtered iterator)
+        let (min_length, max_length) = iter.size_hint();
+        let maybe_known_length = max_length.filter(|max_length| *max_length == min_length);
         if let Some(known_length) = maybe_known_length {
             let num_bytes = known_length * point_layout.size_of_point_entry() as usize;
             let storage = vec![0; num_bytes];
-- 
2.43.0


From b46b8db32dce3ddca7cc33b637843ad5d294ca78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 06/44] fix: layouts packed to N bytes are aligned like
 repr(packed(N)) types

---
 pasture-core/src/layout/point_layout.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index 97bd11a..c32732f 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -826,9 +826,13 @@ impl PointLayout {
                 current_max_alignment,
                 point_attribute.datatype().min_alignment(),
             ),
-            FieldAlignment::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, current_max_alignment)
-            }
+            FieldAlignment::Packed(max_alignment) => std::cmp::min(
+                max_alignment,
+                std::cmp::max(
+                    current_max_alignment,
+                    point_attribute.datatype().min_alignment(),
+                ),
+            ),
         };
 
         self.attributes
-- 
2.43.0


From d02f73e949800dfb6aa0febeff5c4ec959ec6d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 07/44] fix: add_attribute must not overlap attributes of a
 layout with reordered members

---
 pasture-core/src/layout/point_layout.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/pasture-core/src/layout/point_layout.rs b/pasture-core/src/layout/point_layout.rs
index c32732f..166400c 100644
--- a/pasture-core/src/layout/point_layout.rs
+++ b/pasture-core/src/layout/point_layout.rs
@@ -1012,14 +1012,13 @@ impl PointLayout {
     /// Returns the offset of the next field that could be added to this `PointLayout`, without any alignment
     /// requirements
     fn packed_offset_of_next_field(&self) -> u64 {
-        if self.attributes.is_empty() {
-            0
-        } else {
-            // If there are previous attributes, the offset to this attribute is equal to the offset
-            // to the previous attribute plus the previous attribute's size
-            let last_attribute = self.attributes.last().unwrap();
-            last_attribute.offset() + last_attribute.size()
-        }
+        // The attributes are not necessarily ordered by their offset, so the next field has to be placed
+        // after the attribute that ends last, which might not be the last attribute
+        self.attributes
+            .iter()
+            .map(|attribute| attribute.offset() + attribute.size())
+            .max()
+            .unwrap_or(0)
     }
 }
 
-- 
2.43.0


From cb557a5437225710e0ed4c53d2fd3469eea8f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 08/44] fix: align_to must not overflow when the aligned value
 is representable

---
 pasture-core/src/math/arithmetic.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pasture-core/src/math/arithmetic.rs b/pasture-core/src/math/arithmetic.rs
index 1017a43..3204845 100644
--- a/pasture-core/src/math/arithmetic.rs
+++ b/pasture-core/src/math/arithmetic.rs
@@ -15,7 +15,7 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            self.div_ceil(alignment) * alignment
         }
     }
 }
@@ -25,7 +25,7 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            self.div_ceil(alignment) * alignment
         }
     }
 }
@@ -35,7 +35,7 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            self.div_ceil(alignment) * alignment
         }
     }
 }
@@ -45,7 +45,7 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            self.div_ceil(alignment) * alignment
         }
     }
 }
@@ -55,7 +55,7 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            self.div_ceil(alignment) * alignment
         }
     }
 }
@@ -65,7 +65,7 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            self.div_ceil(alignment) * alignment
         }
     }
 }
-- 
2.43.0


From 8a439b52c9044532806d8a6071c304ed55638246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 09/44] fix: HashMapBufferAttributePusher must reject more
 values than points for an attribute

---
 pasture-core/src/containers/point_buffer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-core/src/containers/point_buffer.rs b/pasture-core/src/containers/point_buffer.rs
index 5cac66e..2b36f73 100644
--- a/pasture-core/src/containers/point_buffer.rs
+++ b/pasture-core/src/containers/point_buffer.rs
@@ -953,12 +953,12 @@ impl<'a> HashMapBufferAttributePusher<'a> {
             return;
         }
 
-        // Check that all attributes are complete! We don't have to check the exact size of the vectors,
-        // as this is checked in `push_attribute_range`, it is sufficient to verify that no vector is empty
+        // Check that all attributes are complete! `push_attribute_range` can be called multiple times for the same
+        // attribute, so the exact size of the vectors has to be checked
         assert!(self
             .attributes_storage
-            .values()
-            .all(|vector| !vector.is_empty()));
+            .iter()
+            .all(|(attribute, data)| data.len() == num_new_points * attribute.size() as usize));
 
         for (attribute, mut data) in self.attributes_storage {
             // Can safely unwrap, because self.attributes_storage was initialized from the `PointLayout` of the buffer!
-- 
2.43.0


From f768182876a6f1d73bfbf3a788c1652fe02d7caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 10/44] fix: RawPointConverter must copy attributes whose
 datatypes are equal

---
 .../layout/conversion/attribute_conversion.rs | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pasture-core/src/layout/conversion/attribute_conversion.rs b/pasture-core/src/layout/conversion/attribute_conversion.rs
index 3e11e2d..3aae39c 100644
--- a/pasture-core/src/layout/conversion/attribute_conversion.rs
+++ b/pasture-core/src/layout/conversion/attribute_conversion.rs
@@ -70,23 +70,23 @@ impl RawPointConverter {
         let converters = from_layout
             .attributes()
             .filter(|&from_attribute| to_layout.has_attribute_with_name(from_attribute.name()))
-            .filter_map(|from_attribute| {
+            .map(|from_attribute| {
                 let to_attribute = to_layout
                     .get_attribute_by_name(from_attribute.name())
                     .unwrap();
+                // Attributes with equal datatypes need no conversion, but their values still have to be copied
                 let conversion_fn = get_converter_for_attributes(
                     from_attribute.attribute_definition(),
                     to_attribute.attribute_definition(),
-                );
-                conversion_fn.map(|conversion_fn| {
-                    RawAttributeConverter::new(
-                        conversion_fn,
-                        from_attribute.offset(),
-                        from_attribute.size(),
-                        to_attribute.offset(),
-                        to_attribute.size(),
-                    )
-                })
+                )
+                .unwrap_or(convert_unit);
+                RawAttributeConverter::new(
+                    conversion_fn,
+                    from_attribute.offset(),
+                    from_attribute.size(),
+                    to_attribute.offset(),
+                    to_attribute.size(),
+                )
             })
             .collect::<Vec<_>>();
 
-- 
2.43.0


From e4c8ecf1422c2302b9d68fd518e836de0360750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 11/44] fix: convex hull must recognize collinear points
 exactly

---
 pasture-algorithms/src/convexhull.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 01f2390..cf2e4c0 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -146,10 +146,10 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 first.b = pointid;
             } else {
                 let ac: Vector3<f64> = point - first_a;
-                let ab_norm = ab.normalize();
-                let ac_ab_projected_length = ac.dot(&ab_norm);
-                if f64::abs(ac_ab_projected_length) == ac.magnitude() {
-                    if ac_ab_projected_length >= 0.0 {
+                let normal = calc_normal(first_a, first_b, point);
+                if normal == Vector3::zeros() {
+                    // The point is on the line through `a` and `b`
+                    if ac.dot(&ab) >= 0.0 {
                         if ac.magnitude_squared() > ab_mag_sqr {
                             first.b = pointid;
                         }
@@ -158,7 +158,7 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                     }
                 } else {
                     first.c = pointid;
-                    first.normal = calc_normal(first_a, first_b, point);
+                    first.normal = normal;
 
                     let first = triangles[0];
                     triangles.push(Triangle {
-- 
2.43.0


From 138cfb15080d1fb9b7e0004c9f717cd1bab184f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 12/44] fix: a point in line with an edge of a planar convex
 hull does not face that edge

---
 pasture-algorithms/src/convexhull.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index cf2e4c0..5b5c0c7 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -211,21 +211,21 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 let planar_b = position_view.at(pt.b);
                 let planar_c = position_view.at(pt.c);
                 let dist_ab = dist_point_to_edge(point, planar_a, planar_b, pt.normal);
-                if dist_ab >= 0.0 {
+                if dist_ab > 0.0 {
                     edges_facing_point.push(Edge { a: pt.a, b: pt.b });
                     edge_triangle_id.push(i);
                 }
                 let dist_bc = dist_point_to_edge(point, planar_b, planar_c, pt.normal);
-                if dist_bc >= 0.0 {
+                if dist_bc > 0.0 {
                     edges_facing_point.push(Edge { a: pt.b, b: pt.c });
                     edge_triangle_id.push(i);
                 }
                 let dist_ca = dist_point_to_edge(point, planar_c, planar_a, pt.normal);
-                if dist_ca >= 0.0 {
+                if dist_ca > 0.0 {
                     edges_facing_point.push(Edge { a: pt.c, b: pt.a });
                     edge_triangle_id.push(i);
                 }
-                if dist_ab < 0.0 && dist_bc < 0.0 && dist_ca < 0.0 {
+                if dist_ab <= 0.0 && dist_bc <= 0.0 && dist_ca <= 0.0 {
                     edges_facing_point.clear();
                     break;
                 }
@@ -379,6 +379,11 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
 
             for i in 0..edges_facing_point.len() {
                 let edg = edges_facing_point[i];
+                let edg_a: Vector3<f64> = position_view.at(edg.a);
+                let edg_b: Vector3<f64> = position_view.at(edg.b);
+                if calc_normal(edg_a, edg_b, point) == Vector3::zeros() {
+                    continue;
+                }
                 triangles.push(Triangle {
                     a: edg.a,
                     b: edg.b,
-- 
2.43.0


From b78db3e7f68bdb6b39f8f7c8f0d3bf3cd684da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 13/44] fix: edges inside a planar side of the convex hull are
 not visible from outside

---
 pasture-algorithms/src/convexhull.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 5b5c0c7..9afef06 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -231,6 +231,23 @@ fn iteration<'a, T: BorrowedBuffer<'a>>(
                 }
             }
 
+            // An edge between two triangles on the same side of the plane is no border of that side.
+            for i in (0..edges_facing_point.len()).rev() {
+                let edg = edges_facing_point[i];
+                let id = edge_triangle_id[i];
+                let inner = planar_triangles.iter().enumerate().any(|(j, pt)| {
+                    j != id
+                        && pt.normal.dot(&planar_triangles[id].normal) > 0.0
+                        && [(pt.a, pt.b), (pt.b, pt.c), (pt.c, pt.a)]
+                            .iter()
+                            .any(|(a, b)| Edge { a: *a, b: *b } == edg)
+                });
+                if inner {
+                    edges_facing_point.remove(i);
+                    edge_triangle_id.remove(i);
+                }
+            }
+
             // Remove all edges occluded by other edges.
             let mut edge_triangle_normals = Vec::new();
             for i in (0..edges_facing_point.len()).rev() {
-- 
2.43.0


From 122ccab412371144a6af642825f1ce16c821584a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 14/44] fix: the convex hull of an empty buffer is empty

---
 pasture-algorithms/src/convexhull.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index 9afef06..a04b71b 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -69,8 +69,7 @@ pub fn convex_hull_as_points<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<us
             points.insert(tri.b);
             points.insert(tri.c);
         }
-    } else {
-        let tri = triangles[0];
+    } else if let Some(tri) = triangles.first() {
         points.insert(tri.a);
         points.insert(tri.b);
         if tri.c != 0 {
-- 
2.43.0


From 72ff6e87e54b3e1b9a199e3c170f1faed96d7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 15/44] fix: convex hull of positions that are not stored as
 Vector3<f64>

---
 pasture-algorithms/src/convexhull.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pasture-algorithms/src/convexhull.rs b/pasture-algorithms/src/convexhull.rs
index a04b71b..44eb852 100644
--- a/pasture-algorithms/src/convexhull.rs
+++ b/pasture-algorithms/src/convexhull.rs
@@ -1,6 +1,11 @@
 use anyhow::{anyhow, Result};
-use pasture_core::containers::BorrowedBuffer;
-use pasture_core::{layout::attributes::POSITION_3D, nalgebra::Vector3};
+use pasture_core::containers::{
+    BorrowedBuffer, BorrowedMutBuffer, MakeBufferFromLayout, OwningBuffer, VectorBuffer,
+};
+use pasture_core::{
+    layout::{attributes::POSITION_3D, PointLayout},
+    nalgebra::Vector3,
+};
 use std::collections::{HashMap, HashSet};
 use std::hash::{Hash, Hasher};
 use std::usize;
@@ -99,13 +104,19 @@ fn create_convex_hull<'a, T: BorrowedBuffer<'a>>(buffer: &'a T) -> Vec<Triangle>
             pointid += 1;
         }
     } else {
-        for point in buffer
+        // All steps of the algorithm access the positions as Vector3<f64>
+        let mut converted = VectorBuffer::new_from_layout(PointLayout::from_attributes(&[POSITION_3D]));
+        converted.resize(buffer.len());
+        let mut converted_positions = converted.view_attribute_mut::<Vector3<f64>>(&POSITION_3D);
+        for (index, point) in buffer
             .view_attribute_with_conversion::<Vector3<f64>>(&POSITION_3D)
             .expect("Can't convert POSITION_3D attribute")
+            .into_iter()
+            .enumerate()
         {
-            iteration(buffer, pointid, point, &mut triangles);
-            pointid += 1;
+            converted_positions.set_at(index, point);
         }
+        return create_convex_hull(&converted);
     };
     triangles
 }
-- 
2.43.0


From 5103aea7b2b4992b59915b6b707f255c4f1284bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 16/44] fix: eigenvalues must belong to the scaled covariance
 matrix that they are subtracted from

---
 pasture-algorithms/src/normal_estimation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 3bf9f89..6bc2153 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -436,7 +436,7 @@ fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
         covariance_matrix_scaled[index] = value / scale;
     }
 
-    let eigen_values = solve_polynomial(covariance_matrix);
+    let eigen_values = solve_polynomial(&covariance_matrix_scaled);
     // undo scale for smallest eigen vector
     let eigen_value = eigen_values[0] * scale;
 
-- 
2.43.0


From 7546b99fabeebb396e2046693f47a858ae381b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 17/44] fix: points with infinite coordinates must not be part
 of the centroid

---
 pasture-algorithms/src/normal_estimation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 6bc2153..437a398 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -127,10 +127,10 @@ where
     points_with_normals_curvature
 }
 
-/// checks whether a given point cloud has points with coordinates that are Not a Number
+/// checks whether all points of a given point cloud have finite coordinates
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-        if point.x.is_nan() || point.y.is_nan() || point.z.is_nan() {
+        if !is_finite(&point) {
             return false;
         }
     }
-- 
2.43.0


From df44c03c7c38c9a60496879e4973440f07214f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 18/44] fix: max-pooling of negative values in the voxel grid

---
 pasture-algorithms/src/voxel_grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/voxel_grid.rs b/pasture-algorithms/src/voxel_grid.rs
index 96e62fd..dd6a6af 100644
--- a/pasture-algorithms/src/voxel_grid.rs
+++ b/pasture-algorithms/src/voxel_grid.rs
@@ -169,7 +169,7 @@ fn centroid_max_pool<'a, T: BorrowedBuffer<'a>>(
     attribute_definition: &PointAttributeDefinition,
     point_type: PointAttributeDataType,
 ) -> f64 {
-    let mut curr_max = 0.0;
+    let mut curr_max = f64::NEG_INFINITY;
     let mut value;
     for p in &v.points {
         match point_type {
-- 
2.43.0


From b72264de91c35ce1b1b06e2a034dc01d938a3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 19/44] fix: unknown coordinate reference systems must be
 reported as an error

---
 pasture-algorithms/src/reprojection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/reprojection.rs b/pasture-algorithms/src/reprojection.rs
index 8496ed4..eb69e01 100644
--- a/pasture-algorithms/src/reprojection.rs
+++ b/pasture-algorithms/src/reprojection.rs
@@ -1,6 +1,6 @@
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use pasture_core::containers::BorrowedMutBuffer;
 use pasture_core::math::AABB;
 use pasture_core::nalgebra::{Point3, Vector3};
@@ -26,6 +26,14 @@ impl Projection {
                 target_cstr.as_ptr(),
                 std::ptr::null_mut(),
             );
+            if projection.is_null() {
+                proj_sys::proj_context_destroy(proj_context);
+                return Err(anyhow!(
+                    "Can't create a projection from {} to {}",
+                    source_crs,
+                    target_crs
+                ));
+            }
 
             Ok(Self {
                 proj_context,
-- 
2.43.0


From 834a8768b9183ef96652556e0eac38e56635c5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:14 +0000
Subject: [PATCH 20/44] fix: subtract the eigenvalue from the covariance matrix
 and not from a copy of its diagonal

---
 pasture-algorithms/src/normal_estimation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 437a398..68991a3 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -441,10 +441,9 @@ fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
     let eigen_value = eigen_values[0] * scale;
 
     // subtract the smallest eigen value from the diagonal of the matrix
-    covariance_matrix_scaled
-        .diagonal()
-        .iter_mut()
-        .for_each(|x| *x -= eigen_values[0]);
+    for i in 0..3 {
+        covariance_matrix_scaled[(i, i)] -= eigen_values[0];
+    }
 
     let eigen_vector = get_largest_eigen_vector(&covariance_matrix_scaled);
     (eigen_value, eigen_vector)
-- 
2.43.0


From 93d4dbde98c4a433470d6427c38830d05ab3bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 21/44] fix: the neighborhoods of the normal estimation must be
 the closest points

---
 pasture-algorithms/src/normal_estimation.rs | 47 ++++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 68991a3..0829c29 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -5,6 +5,7 @@ use num_traits::{self};
 use pasture_core::containers::{BorrowedBuffer, BorrowedMutBuffer, HashMapBuffer, OwningBuffer};
 use pasture_core::layout::{attributes::POSITION_3D, PointType};
 use pasture_core::nalgebra::{DMatrix, Vector3};
+use std::cmp::Ordering;
 use std::result::Result;
 
 /// Normal Estimation Algorithm
@@ -103,7 +104,7 @@ where
     // iterate over all points in the point cloud and and calculate the k nearest neighbors with the constructed kd tree
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
         let r: &[f64; 3] = point.as_ref();
-        let nearest_points = cloud_as_kd_tree.nearests(r, k_nn);
+        let nearest_points = k_nearest_neighbors(&cloud_as_kd_tree, r, k_nn);
 
         // stores the k nearest neighbors in a PointStorage
         let mut k_nn_buffer =
@@ -113,7 +114,7 @@ where
         for (index, point) in nearest_points.iter().enumerate() {
             k_nn_buffer.view_attribute_mut(&POSITION_3D).set_at(
                 index,
-                Vector3::new(point.item[0], point.item[1], point.item[2]),
+                Vector3::new(point[0], point[1], point[2]),
             );
         }
 
@@ -127,6 +128,48 @@ where
     points_with_normals_curvature
 }
 
+/// Returns the `k` points in the `kd_tree` that are closest to `point` (or all points, if there are less than `k`).
+///
+/// `KdTree::nearests` skips subtrees that are further away than the points it found so far, even if it found less than `k`
+/// points so far. So it can return less than `k` points, or points that are not the closest ones. If it returns `k` points,
+/// the `k` closest points are at most as far away as these.
+fn k_nearest_neighbors<'t>(
+    kd_tree: &'t KdTree<[f64; 3]>,
+    point: &[f64; 3],
+    k: usize,
+) -> Vec<&'t [f64; 3]> {
+    let squared_distance = |other: &[f64; 3]| -> f64 {
+        (0..3)
+            .map(|axis| (other[axis] - point[axis]) * (other[axis] - point[axis]))
+            .sum()
+    };
+
+    let found = kd_tree.nearests(point, k);
+    let mut neighbors: Vec<&[f64; 3]> = if found.len() == k {
+        let max_distance = found[k - 1].squared_distance.sqrt();
+        kd_tree.within_by_cmp(|other, axis| {
+            let difference = other[axis] - point[axis];
+            if difference < -max_distance {
+                Ordering::Less
+            } else if difference > max_distance {
+                Ordering::Greater
+            } else {
+                Ordering::Equal
+            }
+        })
+    } else {
+        kd_tree.iter().collect()
+    };
+
+    neighbors.sort_by(|a, b| {
+        let (a, b) = (squared_distance(a), squared_distance(b));
+        a.partial_cmp(&b)
+            .unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
+    });
+    neighbors.truncate(k);
+    neighbors
+}
+
 /// checks whether all points of a given point cloud have finite coordinates
 fn is_dense<'a, T: BorrowedBuffer<'a>>(point_cloud: &'a T) -> bool {
     for point in point_cloud.view_attribute::<Vector3<f64>>(&POSITION_3D) {
-- 
2.43.0


From e18d10d934ea564a493c367643cb04d4d3da3ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:28 +0000
Subject: [PATCH 22/44] fix: layouts of derived point types must match the
 memory layout the compiler chose

---
 pasture-derive/src/layout.rs | 117 +++++++++-------------------------
 pasture-derive/src/lib.rs    | 119 +++++++++--------------------------
 2 files changed, 58 insertions(+), 178 deletions(-)

diff --git a/pasture-derive/src/layout.rs b/pasture-derive/src/layout.rs
index d33a1f1..fcf4850 100644
--- a/pasture-derive/src/layout.rs
+++ b/pasture-derive/src/layout.rs
@@ -1,12 +1,6 @@
 use syn::{Attribute, DataStruct, Error};
 use syn::{NestedMeta, Result};
 
-#[derive(Debug)]
-pub(crate) enum StructMemberLayout {
-    C,
-    Packed(u64),
-}
-
 /// Is the given Attribute a #[repr(...)] attribute?
 fn is_repr_attribute(attribute: &Attribute) -> bool {
     attribute
@@ -43,102 +37,49 @@ fn arg_is_packed(arg: &NestedMeta) -> bool {
     }
 }
 
-fn get_packing_from_arg(arg: &NestedMeta) -> Result<u64> {
-    match arg {
-        NestedMeta::Meta(meta) => {
-            match meta {
-                syn::Meta::Path(_) => Ok(1),
-                syn::Meta::List(list) => {
-                    let packed_value = match list.nested.first() {
-                    Some(f) => f,
-                    None => return Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]. packed List attribute has no nested members")),
-                };
-
-                    match packed_value {
-                        NestedMeta::Meta(meta) => match meta {
-                            syn::Meta::Path(path) => {
-                                let val_str = path
-                                    .get_ident()
-                                    .map(|ident| ident.to_string())
-                                    .ok_or_else(|| {
-                                        Error::new_spanned(
-                                            arg,
-                                            "Expected #[repr(packed(N))]. Could not get ident",
-                                        )
-                                    })?;
-                                val_str.parse::<u64>().map_err(|_| {
-                                    Error::new_spanned(
-                                        arg,
-                                        "Expected #[repr(packed(N))]. Could not parse number",
-                                    )
-                                })
-                            }
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))]. Meta is no Path",
-                            )),
-                        },
-                        NestedMeta::Lit(literal) => match literal {
-                            syn::Lit::Int(int_literal) => Ok(int_literal.base10_parse::<u64>()?),
-                            _ => Err(Error::new_spanned(
-                                arg,
-                                "Expected #[repr(packed(N))], but argument N is no integer literal",
-                            )),
-                        },
-                    }
-                }
-                _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-            }
-        }
-        _ => Err(Error::new_spanned(arg, "Expected #[repr(packed(N))]")),
-    }
-}
-
-pub(crate) fn get_struct_member_layout(
+/// Checks that the struct is at least one of `#[repr(C)]` and `#[repr(packed)]`
+pub(crate) fn check_struct_member_layout(
     struct_attributes: &[Attribute],
     data_struct: &DataStruct,
-) -> Result<StructMemberLayout> {
-    // Do we have a #[repr(...)] attribute?
-    let maybe_repr_attribute = struct_attributes.iter().find(|a| is_repr_attribute(a));
-    if maybe_repr_attribute.is_none() {
-        //return Ok(StructMemberLayout::Rust);
+) -> Result<()> {
+    let repr_attributes = struct_attributes
+        .iter()
+        .filter(|a| is_repr_attribute(a))
+        .collect::<Vec<_>>();
+    if repr_attributes.is_empty() {
         return Err(Error::new_spanned(data_struct.struct_token, "derive(PointType) is only valid for structs that are either #[repr(C)] or #[repr(packed)]"));
     }
 
-    let repr_attribute = maybe_repr_attribute.unwrap();
-    let attribute_as_meta = repr_attribute.parse_meta()?;
-
-    match &attribute_as_meta {
-        syn::Meta::List(list) => {
+    for repr_attribute in repr_attributes.iter() {
+        match repr_attribute.parse_meta()? {
             // There are several possible arguments for #[repr] on structs:
             // - C
             // - transparent (on single-value structs)
             // - packed
             // - packed(N)
             // - align(N)
-            // Several combinations of those are possible! So first we look for either
+            // Several combinations of those are possible! So we look for either
             // the 'C' or 'packed'/'packed(N)' arguments
-
-            let maybe_packed = list.nested.iter().find(|arg| arg_is_packed(arg));
-            if let Some(packed_arg) = maybe_packed {
-                let packing = get_packing_from_arg(packed_arg)?;
-                return Ok(StructMemberLayout::Packed(packing));
+            syn::Meta::List(list) => {
+                if list
+                    .nested
+                    .iter()
+                    .any(|arg| arg_is_packed(arg) || arg_is_c(arg))
+                {
+                    return Ok(());
+                }
             }
-
-            let maybe_repr_c = list.nested.iter().find(|arg| arg_is_c(arg));
-            if maybe_repr_c.is_some() {
-                return Ok(StructMemberLayout::C);
+            _ => {
+                return Err(Error::new_spanned(
+                    repr_attribute,
+                    "Could not parse repr attribute",
+                ))
             }
-
-            //Ok(StructMemberLayout::Rust)
-            Err(Error::new_spanned(
-                repr_attribute,
-                "Unrecongized repr attribute",
-            ))
         }
-        _ => Err(Error::new_spanned(
-            repr_attribute,
-            "Could not parse repr attribute",
-        )),
     }
+
+    Err(Error::new_spanned(
+        repr_attributes[0],
+        "Unrecongized repr attribute",
+    ))
 }
diff --git a/pasture-derive/src/lib.rs b/pasture-derive/src/lib.rs
index 701e9fe..d6096c1 100644
--- a/pasture-derive/src/lib.rs
+++ b/pasture-derive/src/lib.rs
@@ -2,12 +2,12 @@ extern crate proc_macro;
 use std::collections::HashSet;
 
 //use anyhow::{anyhow, bail, Result};
-use layout::{get_struct_member_layout, StructMemberLayout};
+use layout::check_struct_member_layout;
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::DeriveInput;
 use syn::{
-    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit,
+    parse_macro_input, Attribute, Data, Error, Field, Fields, GenericArgument, Ident, Lit, Member,
     NestedMeta, PathArguments, Result, Type, TypePath,
 };
 
@@ -33,48 +33,6 @@ enum PasturePrimitiveType {
 }
 
 impl PasturePrimitiveType {
-    fn min_alignment(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 1,
-            PasturePrimitiveType::Vec3u16 => 2,
-            PasturePrimitiveType::Vec3f32 => 4,
-            PasturePrimitiveType::Vec3f64 => 8,
-            PasturePrimitiveType::Vec3i32 => 4,
-            &PasturePrimitiveType::Vec4u8 => 1,
-        }
-    }
-
-    fn size(&self) -> u64 {
-        match self {
-            PasturePrimitiveType::U8 => 1,
-            PasturePrimitiveType::I8 => 1,
-            PasturePrimitiveType::U16 => 2,
-            PasturePrimitiveType::I16 => 2,
-            PasturePrimitiveType::U32 => 4,
-            PasturePrimitiveType::I32 => 4,
-            PasturePrimitiveType::U64 => 8,
-            PasturePrimitiveType::I64 => 8,
-            PasturePrimitiveType::F32 => 4,
-            PasturePrimitiveType::F64 => 8,
-            PasturePrimitiveType::Vec3u8 => 3,
-            PasturePrimitiveType::Vec3u16 => 6,
-            PasturePrimitiveType::Vec3f32 => 12,
-            PasturePrimitiveType::Vec3f64 => 24,
-            PasturePrimitiveType::Vec3i32 => 12,
-            &PasturePrimitiveType::Vec4u8 => 4,
-        }
-    }
-
     fn as_token_stream(&self) -> quote::__private::TokenStream {
         match self {
             PasturePrimitiveType::U8 => quote! {pasture_core::layout::PointAttributeDataType::U8},
@@ -301,9 +259,10 @@ fn get_attribute_name_from_field(field: &Field) -> Result<String> {
     }
 }
 
-/// Describes a single field within a `PointType` struct. Contains the name of the field, the point attribute
+/// Describes a single field within a `PointType` struct. Contains the name (or index) of the field, the point attribute
 /// that the field maps to, as well as the primitive type of the field
 struct FieldLayoutDescription {
+    pub member: Member,
     pub attribute_name: String,
     pub primitive_type: PasturePrimitiveType,
 }
@@ -311,12 +270,19 @@ struct FieldLayoutDescription {
 fn get_field_layout_descriptions(fields: &Fields) -> Result<Vec<FieldLayoutDescription>> {
     fields
         .iter()
-        .map(|field| match field.ty {
+        .enumerate()
+        .map(|(index, field)| match field.ty {
             Type::Path(ref type_path) => {
                 let primitive_type = type_path_to_primitive_type(type_path)?;
                 let attribute_name = get_attribute_name_from_field(field)?;
 
+                let member = match &field.ident {
+                    Some(ident) => Member::Named(ident.clone()),
+                    None => Member::Unnamed(index.into()),
+                };
+
                 Ok(FieldLayoutDescription {
+                    member,
                     attribute_name,
                     primitive_type,
                 })
@@ -343,41 +309,15 @@ fn field_parameters(data: &Data, ident: &Ident) -> Result<Vec<FieldLayoutDescrip
     }
 }
 
-fn calculate_offsets_and_alignment(
-    fields: &[FieldLayoutDescription],
-    data: &Data,
-    ident: &Ident,
-    type_attributes: &[Attribute],
-) -> Result<(Vec<u64>, u64)> {
-    let struct_data = match data {
-        Data::Struct(struct_data) => struct_data,
-        _ => {
-            return Err(Error::new_spanned(
-                ident,
-                "#[derive(PointType)] is only valid for structs",
-            ))
-        }
-    };
-    let struct_layout = get_struct_member_layout(type_attributes, struct_data)?;
-
-    let mut current_offset = 0;
-    let mut max_alignment = 1;
-    let mut offsets = vec![];
-    for field in fields {
-        let min_alignment = match struct_layout {
-            StructMemberLayout::C => field.primitive_type.min_alignment(),
-            StructMemberLayout::Packed(max_alignment) => {
-                std::cmp::min(max_alignment, field.primitive_type.min_alignment())
-            }
-        };
-        max_alignment = std::cmp::max(min_alignment, max_alignment);
-
-        let aligned_offset = ((current_offset + min_alignment - 1) / min_alignment) * min_alignment;
-        offsets.push(aligned_offset);
-        current_offset = aligned_offset + field.primitive_type.size();
+/// Checks that the struct has a representation for which deriving `PointType` is allowed
+fn check_representation(data: &Data, ident: &Ident, type_attributes: &[Attribute]) -> Result<()> {
+    match data {
+        Data::Struct(struct_data) => check_struct_member_layout(type_attributes, struct_data),
+        _ => Err(Error::new_spanned(
+            ident,
+            "#[derive(PointType)] is only valid for structs",
+        )),
     }
-
-    Ok((offsets, max_alignment))
 }
 
 /// Custom `derive` macro that implements the [`PointType`](pasture_core::layout::PointType) trait for the type that it is applied to.
@@ -445,19 +385,18 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             return why.to_compile_error().into();
         }
     };
-    let (offsets, type_alignment) =
-        match calculate_offsets_and_alignment(&fields, &input.data, name, input.attrs.as_slice()) {
-            Ok(inner) => inner,
-            Err(why) => {
-                return why.to_compile_error().into();
-            }
-        };
+    if let Err(why) = check_representation(&input.data, name, input.attrs.as_slice()) {
+        return why.to_compile_error().into();
+    }
 
-    let attribute_descriptions = fields.iter().zip(offsets.iter()).map(|(field, offset)| {
+    // The compiler knows the offsets, which also depend on the representation (fields of a struct that is
+    // `#[repr(packed(N))]` but not `#[repr(C)]` can be reordered)
+    let attribute_descriptions = fields.iter().map(|field| {
+        let member = &field.member;
         let attribute_name = &field.attribute_name;
         let primitive_type = &field.primitive_type.as_token_stream();
         quote! {
-            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(#offset)
+            pasture_core::layout::PointAttributeDefinition::custom(std::borrow::Cow::Borrowed(#attribute_name), #primitive_type).at_offset_in_type(std::mem::offset_of!(#name, #member) as u64)
         }
     });
 
@@ -466,7 +405,7 @@ pub fn derive_point_type(item: TokenStream) -> TokenStream {
             fn layout() -> pasture_core::layout::PointLayout {
                 pasture_core::layout::PointLayout::from_members_and_alignment(&[
                     #(#attribute_descriptions ,)*
-                ], #type_alignment)
+                ], std::mem::align_of::<#name>() as u64)
             }
         }
     };
-- 
2.43.0


From 94b9b3a725d65cf546f5fd3f5c7e69d4082000fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 23/44] fix: normal estimation must not panic if the nearest
 neighbors are the same point

---
 pasture-algorithms/src/normal_estimation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasture-algorithms/src/normal_estimation.rs b/pasture-algorithms/src/normal_estimation.rs
index 0829c29..09e7ee9 100644
--- a/pasture-algorithms/src/normal_estimation.rs
+++ b/pasture-algorithms/src/normal_estimation.rs
@@ -468,7 +468,11 @@ fn get_largest_eigen_vector(scaled_matrix: &DMatrix<f64>) -> Vector3<f64> {
 
 /// for a given 3x3 matrix the functions calculates the eigen vector of the smallest eigen value that can be found
 fn eigen_3x3(covariance_matrix: &DMatrix<f64>) -> (f64, Vector3<f64>) {
-    let scale = covariance_matrix.abs().max();
+    let mut scale = covariance_matrix.abs().max();
+    // if all points are the same point, there is nothing to scale
+    if scale == 0.0 {
+        scale = 1.0;
+    }
     let mut covariance_matrix_scaled = DMatrix::<f64>::zeros(3, 3);
     for i in 0..covariance_matrix.len() {
         covariance_matrix_scaled[i] = covariance_matrix[i] / scale;
-- 
2.43.0


From 539dcd5f9c8cc907155047fe5330a49b2bb3e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 24/44] fix: the length of a slice over a reversed range must
 not wrap around

---
 pasture-core/src/containers/slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pasture-core/src/containers/slice.rs b/pasture-core/src/containers/slice.rs
index b664823..4b23fd0 100644
--- a/pasture-core/src/containers/slice.rs
+++ b/pasture-core/src/containers/slice.rs
@@ -92,7 +92,7 @@ impl<'a, T: BorrowedBuffer<'a>> BufferSlice<'a, T> {
 
 impl<'a, T: BorrowedBuffer<'a>> BorrowedBuffer<'a> for BufferSlice<'a, T> {
     fn len(&self) -> usize {
-        self.point_range.end - self.point_range.start
+        self.point_range.len()
     }
 
     fn point_layout(&self) -> &PointLayout {
@@ -236,7 +236,7 @@ impl<'a, T: BorrowedMutBuffer<'a>> BufferSliceMut<'a, T> {
 
 impl<'a, T: BorrowedMutBuffer<'a>> BorrowedBuffer<'a> for BufferSliceMut<'a, T> {
     fn len(&self) -> usize {
-        self.point_range.end - self.point_range.start
+        self.point_range.len()
     }
 
     fn point_layout(&self) -> &PointLayout {
-- 
2.43.0


From 4c76a0c784ab343dd51c0460b8117934fed1a9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 25/44] fix: write the classification and the user data of
 points to ASCII files

---
 pasture-io/src/ascii/raw_writer.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pasture-io/src/ascii/raw_writer.rs b/pasture-io/src/ascii/raw_writer.rs
index 4e8da8c..731a9ad 100644
--- a/pasture-io/src/ascii/raw_writer.rs
+++ b/pasture-io/src/ascii/raw_writer.rs
@@ -124,15 +124,13 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawAsciiWriter<T> {
                         }
                         PointDataType::Classification => {
                             let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
+                                point.get_attribute::<u64>(&attributes::CLASSIFICATION)?;
                             self.writer
                                 .write_all(classification.to_string().as_bytes())?;
                         }
                         PointDataType::UserData => {
-                            let classification =
-                                point.get_attribute::<u64>(&attributes::RETURN_NUMBER)?;
-                            self.writer
-                                .write_all(classification.to_string().as_bytes())?;
+                            let user_data = point.get_attribute::<u64>(&attributes::USER_DATA)?;
+                            self.writer.write_all(user_data.to_string().as_bytes())?;
                         }
                         PointDataType::ColorR => {
                             let color =
-- 
2.43.0


From f7799d9246200cc952b72995c2b604275d747a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 26/44] fix: read_into of the ASCII reader returns how many
 points it has read

---
 pasture-io/src/ascii/raw_reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/ascii/raw_reader.rs b/pasture-io/src/ascii/raw_reader.rs
index a7fdf0c..da81032 100644
--- a/pasture-io/src/ascii/raw_reader.rs
+++ b/pasture-io/src/ascii/raw_reader.rs
@@ -301,6 +301,7 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
     {
         let layout = point_buffer.point_layout().clone();
         let mut temp_point = UntypedPointBuffer::new(&layout);
+        let mut num_points_read = 0;
         //read line by line
         for (index, line) in (&mut self.reader).lines().take(count).enumerate() {
             let line = line?;
@@ -311,8 +312,9 @@ impl<T: Read + BufRead> PointReader for RawAsciiReader<T> {
             unsafe {
                 point_buffer.set_point(index, temp_point.get_buffer());
             }
+            num_points_read += 1;
         }
-        Ok(count)
+        Ok(num_points_read)
     }
 
     fn get_default_point_layout(&self) -> &PointLayout {
-- 
2.43.0


From 3dc04daa2c825c3a2f414257e7d2d162a13d1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 27/44] fix: move only the points just read by the center of a
 PNTS file

---
 pasture-io/src/tiles3d/pnts_reader.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/pnts_reader.rs b/pasture-io/src/tiles3d/pnts_reader.rs
index c81ca47..d6fcad9 100644
--- a/pasture-io/src/tiles3d/pnts_reader.rs
+++ b/pasture-io/src/tiles3d/pnts_reader.rs
@@ -247,6 +247,7 @@ impl<R: BufRead + Seek> PntsReader<R> {
     fn apply_rtc_center_offset<'a, 'b, B: BorrowedMutBuffer<'a>>(
         &self,
         point_buffer: &'b mut B,
+        num_points: usize,
     ) -> Result<()>
     where
         'a: 'b,
@@ -264,7 +265,10 @@ impl<R: BufRead + Seek> PntsReader<R> {
             match position_attribute.datatype() {
                 PointAttributeDataType::Vec3f32 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f32>| -> Vector3<f32> {
+                    |index, position: Vector3<f32>| -> Vector3<f32> {
+                        if index >= num_points {
+                            return position;
+                        }
                         Vector3::new(
                             (position.x as f64 + rtc_center.x) as f32,
                             (position.y as f64 + rtc_center.y) as f32,
@@ -274,7 +278,12 @@ impl<R: BufRead + Seek> PntsReader<R> {
                 ),
                 PointAttributeDataType::Vec3f64 => point_buffer.transform_attribute(
                     position_attribute.attribute_definition(),
-                    |_, position: Vector3<f64>| -> Vector3<f64> { position + rtc_center },
+                    |index, position: Vector3<f64>| -> Vector3<f64> {
+                        if index >= num_points {
+                            return position;
+                        }
+                        position + rtc_center
+                    },
                 ),
                 other => bail!("Unsupported datatype {other} for POSITION_3D attribute"),
             }
@@ -358,7 +367,7 @@ impl<R: BufRead + Seek> PointReader for PntsReader<R> {
         self.current_point_index += num_to_read;
 
         if let PntsReadPositionsMode::Absolute = self.read_positions_mode {
-            self.apply_rtc_center_offset(point_buffer)
+            self.apply_rtc_center_offset(point_buffer, num_to_read)
                 .context("Failed to apply RTC_CENTER offset")?;
         }
 
-- 
2.43.0


From 2b212a1395bd1c3f7290247c9f5b6a6cda6c1574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 28/44] fix: write all bytes of the JSON parts of a PNTS file

---
 pasture-io/src/tiles3d/common.rs      | 2 +-
 pasture-io/src/tiles3d/pnts_writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/tiles3d/common.rs b/pasture-io/src/tiles3d/common.rs
index 3a885c1..462b927 100644
--- a/pasture-io/src/tiles3d/common.rs
+++ b/pasture-io/src/tiles3d/common.rs
@@ -46,7 +46,7 @@ pub fn write_json_header<W: Write>(
 
     if num_padding_bytes > 0 {
         writer
-            .write(&vec![0x20; num_padding_bytes])
+            .write_all(&vec![0x20; num_padding_bytes])
             .context("Could not write padding bytes of JSON header to writer")?;
     }
 
diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index 18bdfd9..cb2ed7b 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -214,11 +214,11 @@ impl<W: Write + Seek> PntsWriter<W> {
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
-            .write(feature_table_blob.as_slice())
+            .write_all(feature_table_blob.as_slice())
             .context("Error while writing FeatureTable header")?;
         self.write_feature_table_body()?;
         self.writer
-            .write(batch_table_blob.as_slice())
+            .write_all(batch_table_blob.as_slice())
             .context("Error while writing BatchTable header")?;
         // TODO Write BatchTable binary body. For now, it doesn't exist, so we don't have to write anything
 
-- 
2.43.0


From 818d7ab2ff4b03b9dd208e65267d4e473044117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:32 +0000
Subject: [PATCH 29/44] fix: points written to a PNTS file after a flush are
 not lost

---
 pasture-io/src/tiles3d/pnts_writer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/tiles3d/pnts_writer.rs b/pasture-io/src/tiles3d/pnts_writer.rs
index cb2ed7b..a323fb3 100644
--- a/pasture-io/src/tiles3d/pnts_writer.rs
+++ b/pasture-io/src/tiles3d/pnts_writer.rs
@@ -2,7 +2,7 @@ use std::{
     borrow::Cow,
     collections::HashMap,
     convert::TryInto,
-    io::{Cursor, Seek, Write},
+    io::{Cursor, Seek, SeekFrom, Write},
 };
 
 use anyhow::{Context, Result};
@@ -99,6 +99,7 @@ impl<W: Write + Seek> PntsWriter<W> {
     /// **does not automatically translate points relative to this center!** This has to be done prior to calling `write`!
     pub fn set_rtc_center(&mut self, rtc_center: Vector3<f64>) {
         self.rtc_center = Some(rtc_center);
+        self.requires_flush = true;
     }
 
     /// Makes the given `PointLayout` compatible with the supported point semantics of the 3D Tiles .pnts format. Doing
@@ -211,6 +212,8 @@ impl<W: Write + Seek> PntsWriter<W> {
                 .expect("Size of BatchTable binary body exceeds maximum size of 4GiB!"),
         );
 
+        // A previous flush has written a file with fewer points, overwrite it
+        self.writer.seek(SeekFrom::Start(0))?;
         bincode::serialize_into(&mut self.writer, &pnts_header)
             .context("Error while serializing .pnts header")?;
         self.writer
@@ -338,6 +341,8 @@ impl<W: Write + Seek> PointWriter for PntsWriter<W> {
             panic!("PointLayout of buffer does not match the PointLayout that this PntsReader was constructed with! Make sure that you only pass PointBuffers with the same layout as the one you used to create this PntsWriter!");
         }
 
+        self.requires_flush = true;
+
         if points.point_layout() == self.cached_points.point_layout() {
             self.cached_points.append(points);
         } else {
-- 
2.43.0


From e01f5d203d637c879b7159d961c09614f98fb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:43 +0000
Subject: [PATCH 30/44] fix: round positions to the nearest LAS position
 instead of towards zero

---
 pasture-io/src/las/write_helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/write_helpers.rs b/pasture-io/src/las/write_helpers.rs
index ecb420b..18b930b 100644
--- a/pasture-io/src/las/write_helpers.rs
+++ b/pasture-io/src/las/write_helpers.rs
@@ -12,9 +12,9 @@ pub(crate) fn write_position_as_las_position<T: Write>(
     las_header: &las::raw::Header,
     mut writer: T,
 ) -> Result<()> {
-    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
-    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor) as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_x : i32 = (((world_space_position.x - las_header.x_offset) / las_header.x_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_y : i32 = (((world_space_position.y - las_header.y_offset) / las_header.y_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
+    let local_z : i32 = (((world_space_position.z - las_header.z_offset) / las_header.z_scale_factor).round() as i64).try_into().expect("write_position_as_las_position: Position is out of bounds given the current LAS offset and scale!");
     writer.write_i32::<LittleEndian>(local_x)?;
     writer.write_i32::<LittleEndian>(local_y)?;
     writer.write_i32::<LittleEndian>(local_z)?;
-- 
2.43.0


From bfc228fd50d6e0809a4c80b9d72e1dd0d79336fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:43 +0000
Subject: [PATCH 31/44] fix: write only the points of the chunk to a LAZ file
 when they have a custom layout

---
 pasture-io/src/las/raw_writers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 1d580b2..af14e86 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -1103,10 +1103,10 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
             }
 
             las_point_buffer = las_point_write.into_inner();
-            self.writer.compress_many(
-                &las_point_buffer[0..num_points_in_chunk
-                    * self.current_header.point_data_record_length as usize],
-            )?;
+            let bytes_in_current_las_chunk =
+                points_in_cur_chunk * self.current_header.point_data_record_length as usize;
+            self.writer
+                .compress_many(&las_point_buffer[..bytes_in_current_las_chunk])?;
 
             chunk_buffer = point_read.into_inner();
         }
-- 
2.43.0


From e7ee1dcf3d880f6a9b97d8d2979e82f0927a4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:43 +0000
Subject: [PATCH 32/44] fix: count points by return when writing points with a
 custom layout to a LAS file

---
 pasture-io/src/las/raw_writers.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index af14e86..7fd5a33 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -466,9 +466,13 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                 self.writer
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -489,7 +493,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
@@ -1003,9 +1007,13 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                 las_point_write
                     .write_u16::<LittleEndian>(intensity_reader(point_index, &mut point_read)?)?;
 
+                let return_number = return_number_reader(point_index, &mut point_read)?;
+                if let Some(count) = points_by_return.get_mut(&return_number) {
+                    *count += 1;
+                }
                 let bit_attributes: BitAttributes = if target_format.is_extended {
                     BitAttributes::Extended(BitAttributesExtended {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         classification_flags: classification_flags_reader.as_ref().unwrap()(
                             point_index,
@@ -1026,7 +1034,7 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
                     })
                 } else {
                     BitAttributes::Regular(BitAttributesRegular {
-                        return_number: return_number_reader(point_index, &mut point_read)?,
+                        return_number,
                         number_of_returns: number_of_returns_reader(point_index, &mut point_read)?,
                         scan_direction_flag: scan_direction_flag_reader(
                             point_index,
-- 
2.43.0


From 99b26dfa3bfd00692ea66739d55da52b337a3a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:43 +0000
Subject: [PATCH 33/44] fix: write the padding after the VLRs of a LAS file

---
 pasture-io/src/las/raw_writers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 7fd5a33..9247b98 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -136,6 +136,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             let raw_vlr = vlr.clone().into_raw(false)?;
             raw_vlr.write_to(&mut write)?;
         }
+        write.write_all(header.vlr_padding())?;
 
         let point_start_index = write.stream_position()?;
         assert_eq!(point_start_index, raw_header.offset_to_point_data as u64);
-- 
2.43.0


From e58c544f046ed2a7a31283ab81d16830185eb81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 34/44] fix: keep the VLRs, the padding and the number of EVLRs
 of the header of a LAZ file

---
 pasture-io/src/las/raw_writers.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 9247b98..3f651a1 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -673,7 +673,14 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         };
 
         let mut header_builder = Builder::new(raw_header)?;
+        // The header might come from a LAZ file and have the LAZ VLR of that file
+        header_builder.vlrs = header.vlrs().clone();
+        header_builder.vlrs.retain(|vlr| {
+            vlr.user_id != laz_vlr.user_id || vlr.record_id != laz_vlr.record_id
+        });
         header_builder.vlrs.push(laz_vlr);
+        header_builder.vlr_padding = header.vlr_padding().clone();
+        header_builder.evlrs = header.evlrs().clone();
         let header_with_laz_vlr = header_builder.into_header()?;
         header_with_laz_vlr
             .clone()
-- 
2.43.0


From 570bc4b6aa82ee38d61c769aa4c64e31b2722a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 35/44] fix: write LAZ files with versions below 1.4 without a
 panic

---
 pasture-io/src/las/raw_writers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 3f651a1..b44e043 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -695,12 +695,16 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
             write.write_all(header.vlr_padding())?;
         }
 
+        // Older headers have no 'large_file' field, but it is always used for keeping track of the number of points
+        let mut current_header = header_with_laz_vlr.into_raw()?;
+        current_header.large_file.get_or_insert_with(Default::default);
+
         let laz_writer = LasZipCompressor::new(write, raw_laz_vlr).map_err(map_laz_err)?;
 
         Ok(Self {
             writer: laz_writer,
             default_layout,
-            current_header: header_with_laz_vlr.into_raw()?,
+            current_header,
             evlrs: header
                 .evlrs()
                 .iter()
-- 
2.43.0


From d98d19aeea8b1b4d7817a992b94e78b2c58bbf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 36/44] fix: the header of a LAS file has the place where the
 EVLRs are

---
 pasture-io/src/las/raw_writers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index b44e043..81473cf 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -604,6 +604,9 @@ impl<T: std::io::Write + std::io::Seek> PointWriter for RawLASWriter<T> {
         }
 
         let current_index = self.writer.stream_position()?;
+        if let Some(evlr) = self.current_header.evlr.as_mut() {
+            evlr.start_of_first_evlr = current_index;
+        }
         self.write_header()?;
         self.write_evlrs()?;
         self.writer.seek(SeekFrom::Start(current_index))?;
@@ -1167,6 +1170,9 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
     fn do_flush(&mut self) -> Result<()> {
         self.writer.done()?;
+        if let Some(evlr) = self.current_header.evlr.as_mut() {
+            evlr.start_of_first_evlr = self.writer.get_mut().stream_position()?;
+        }
         self.write_evlrs()?;
         self.write_header()
     }
-- 
2.43.0


From 26d36db6f753852774c330734523800b68332c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 37/44] fix: undescribed extra bytes of a LAS file have their
 own size

---
 pasture-io/src/las/las_layout.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 439008f..3d0b9f7 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -174,7 +174,7 @@ pub fn point_layout_from_las_metadata(
         base_layout.add_attribute(
             PointAttributeDefinition::custom(
                 Cow::Borrowed("UndescribedExtraBytes"),
-                PointAttributeDataType::ByteArray(num_described_bytes as u64),
+                PointAttributeDataType::ByteArray(num_undescribed_bytes as u64),
             ),
             FieldAlignment::Packed(1),
         );
-- 
2.43.0


From 2c5a87c62f68d63d7deec07e16a2a9a2a5469146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 38/44] fix: only use point formats that LAS has for points
 with other combinations of attributes

---
 pasture-io/src/las/las_layout.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pasture-io/src/las/las_layout.rs b/pasture-io/src/las/las_layout.rs
index 3d0b9f7..c636a22 100644
--- a/pasture-io/src/las/las_layout.rs
+++ b/pasture-io/src/las/las_layout.rs
@@ -228,6 +228,17 @@ pub fn las_point_format_from_point_layout(point_layout: &PointLayout) -> Format
         format.is_extended = true;
     }
 
+    // Not every combination of attributes has a point format of its own, take the smallest one that has them all
+    if format.is_extended || format.has_waveform {
+        format.has_gps_time = true;
+    }
+    if format.has_nir {
+        format.has_color = true;
+    }
+    if format.is_extended && format.has_waveform && format.has_color {
+        format.has_nir = true;
+    }
+
     format
 }
 
-- 
2.43.0


From 3e092df41f729b07725b5ca41db11f678d7bd5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 39/44] fix: limits of extra bytes of floating point types can
 be displayed

---
 pasture-io/src/las/las_metadata.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index f53bfa8..6d1469c 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -434,7 +434,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn min_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -465,7 +465,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn max_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -496,7 +496,7 @@ impl ExtraBytesEntry {
     }
 
     pub fn no_data_value_as_float(&self) -> Result<f64> {
-        if !self.data_type.is_unsigned() {
+        if !self.data_type.is_floating_point() {
             bail!("Extra bytes datatype is not a floating point type");
         }
 
@@ -559,7 +559,7 @@ impl Display for ExtraBytesEntry {
                 self.no_data_value_as_unsigned().unwrap()
             ))
         } else {
-            Some(format!("No-data value (raw bytes): {:#?}", self.min_value))
+            Some(format!("No-data value (raw bytes): {:#?}", self.no_data_value))
         };
         let helper_array = [scale_str, offset_str, min_str, max_str, no_value_str];
         let combined_strings = helper_array
-- 
2.43.0


From e019e4615aa1e90fbe52c166ca840cc6a40922ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 40/44] fix: files with an upper case LAZ extension are
 compressed files

---
 pasture-io/src/las/las_metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasture-io/src/las/las_metadata.rs b/pasture-io/src/las/las_metadata.rs
index 6d1469c..b4cd589 100644
--- a/pasture-io/src/las/las_metadata.rs
+++ b/pasture-io/src/las/las_metadata.rs
@@ -67,7 +67,7 @@ pub fn pasture_bounds_to_las_bounds(bounds: &AABB<f64>) -> Bounds {
 pub fn path_is_compressed_las_file<P: AsRef<Path>>(path: P) -> Result<bool> {
     path.as_ref()
         .extension()
-        .map(|extension| extension == "laz")
+        .map(|extension| extension.eq_ignore_ascii_case("laz"))
         .ok_or(anyhow!(
             "Could not determine file extension of file {}",
             path.as_ref().display()
-- 
2.43.0


From fcce07bd7c47c23bd870d3ddb590a91abf3dedd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 41/44] fix: reading points of a LAZ file into a custom layout
 works with a larger buffer and skips no points

---
 pasture-io/src/las/raw_readers.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pasture-io/src/las/raw_readers.rs b/pasture-io/src/las/raw_readers.rs
index 2b611c4..6b0a1d3 100644
--- a/pasture-io/src/las/raw_readers.rs
+++ b/pasture-io/src/las/raw_readers.rs
@@ -558,16 +558,24 @@ impl<'a, T: Read + Seek + Send + 'a> RawLAZReader<'a, T> {
         let mut convert_buffer =
             VectorBuffer::with_capacity(num_points_to_read, self.las_point_records_layout.clone());
         convert_buffer.resize(num_points_to_read);
-        self.read_into_default_layout(&mut convert_buffer, num_points_to_read)?;
 
+        // Make the converter first, so that no points are skipped if there is no conversion
+        let source_layout = self.las_point_records_layout.clone();
         let target_layout = point_buffer.point_layout().clone();
         let converter = get_default_las_converter(
-            &self.las_point_records_layout,
+            &source_layout,
             &target_layout,
             self.metadata.raw_las_header().expect("Missing LAS header"),
         )
         .context("Unsupported conversion")?;
-        converter.convert_into(&convert_buffer, point_buffer);
+
+        self.read_into_default_layout(&mut convert_buffer, num_points_to_read)?;
+        converter.convert_into_range(
+            &convert_buffer,
+            0..num_points_to_read,
+            point_buffer,
+            0..num_points_to_read,
+        );
 
         Ok(num_points_to_read)
     }
-- 
2.43.0


From 319913f1c97b639079547f4ccfbaf0b3d7cf16bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 42/44] fix: write the extra bytes of points to a LAS file

---
 pasture-io/src/las/raw_writers.rs | 95 ++++++++++++++++++++++++++++---
 1 file changed, 87 insertions(+), 8 deletions(-)

diff --git a/pasture-io/src/las/raw_writers.rs b/pasture-io/src/las/raw_writers.rs
index 81473cf..a80d04a 100644
--- a/pasture-io/src/las/raw_writers.rs
+++ b/pasture-io/src/las/raw_writers.rs
@@ -8,7 +8,11 @@ use anyhow::{anyhow, Context, Result};
 use byteorder::{LittleEndian, NativeEndian, ReadBytesExt, WriteBytesExt};
 use las_rs::{point::Format, Builder, Vlr};
 use laz::{LasZipCompressor, LazItemRecordBuilder, LazVlr};
-use pasture_core::{containers::BorrowedBuffer, layout::PointLayout, nalgebra::Vector3};
+use pasture_core::{
+    containers::BorrowedBuffer,
+    layout::{conversion::get_generic_converter, PointLayout},
+    nalgebra::Vector3,
+};
 
 use crate::base::PointWriter;
 
@@ -20,8 +24,9 @@ use super::{
     get_scan_angle_rank_reader, get_scan_direction_flag_reader, get_scanner_channel_reader,
     get_user_data_reader, get_wave_packet_descriptor_index_reader, get_waveform_data_offset_reader,
     get_waveform_packet_size_reader, get_waveform_parameters_reader, map_laz_err,
-    point_layout_from_las_metadata, write_las_bit_attributes, write_position_as_las_position,
-    BitAttributes, BitAttributesExtended, BitAttributesRegular,
+    point_layout_from_las_metadata, point_layout_from_las_point_format, write_las_bit_attributes,
+    write_position_as_las_position, BitAttributes, BitAttributesExtended, BitAttributesRegular,
+    ReaderFn,
 };
 
 /// Update the bounds in the given `las_header` by including the given `new_position`
@@ -91,6 +96,63 @@ fn finalize_las_header(las_header: &mut las::raw::Header) {
     }
 }
 
+/// Returns one reader for each extra bytes attribute in the `default_layout` of a LAS file. Each reader returns the bytes of
+/// its attribute for a single point in `source_layout`, which are all zero if `source_layout` does not have the attribute
+///
+/// # Errors
+///
+/// If an attribute has a data type in `source_layout` that can't be converted to the data type in the LAS file
+fn get_extra_bytes_readers(
+    source_layout: &PointLayout,
+    default_layout: &PointLayout,
+    target_format: &Format,
+) -> Result<Vec<ReaderFn<Vec<u8>>>> {
+    let size_of_single_point = source_layout.size_of_point_entry() as usize;
+    let offset_to_extra_bytes =
+        point_layout_from_las_point_format(target_format, false)?.size_of_point_entry();
+    default_layout
+        .attributes()
+        .filter(|attribute| attribute.offset() >= offset_to_extra_bytes)
+        .map(|target_attribute| -> Result<ReaderFn<Vec<u8>>> {
+            let target_size = target_attribute.size() as usize;
+            let source_attribute =
+                match source_layout.get_attribute_by_name(target_attribute.name()) {
+                    Some(attribute) => attribute,
+                    None => return Ok(Box::new(move |_, _| Ok(vec![0; target_size]))),
+                };
+            let converter = if source_attribute.datatype() == target_attribute.datatype() {
+                None
+            } else {
+                let converter =
+                    get_generic_converter(source_attribute.datatype(), target_attribute.datatype());
+                Some(converter.ok_or_else(|| {
+                    anyhow!(
+                        "Can't convert extra bytes attribute {} to data type {}",
+                        source_attribute,
+                        target_attribute.datatype()
+                    )
+                })?)
+            };
+            let source_offset = source_attribute.offset() as usize;
+            let source_size = source_attribute.size() as usize;
+            Ok(Box::new(move |point_index, point_read| {
+                let start = point_index * size_of_single_point + source_offset;
+                let source_bytes = &point_read.get_ref()[start..(start + source_size)];
+                match converter {
+                    None => Ok(source_bytes.to_vec()),
+                    Some(converter) => {
+                        let mut target_bytes = vec![0; target_size];
+                        unsafe {
+                            converter(source_bytes, &mut target_bytes);
+                        }
+                        Ok(target_bytes)
+                    }
+                }
+            }))
+        })
+        .collect()
+}
+
 pub(crate) struct RawLASWriter<T: std::io::Write + std::io::Seek> {
     writer: T,
     default_layout: PointLayout,
@@ -223,7 +285,7 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             let mut point_read = Cursor::new(chunk_buffer);
 
             // Read all the attributes from the raw memory inside `points` and transform them into the format that LAS expects
-            for _ in 0..points_in_cur_chunk {
+            for point_index in 0..points_in_cur_chunk {
                 let pos_x = point_read.read_f64::<NativeEndian>()?;
                 let pos_y = point_read.read_f64::<NativeEndian>()?;
                 let pos_z = point_read.read_f64::<NativeEndian>()?;
@@ -329,6 +391,13 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(py)?;
                     self.writer.write_f32::<LittleEndian>(pz)?;
                 }
+
+                // All remaining bytes of the point are extra bytes, which are stored as they are
+                let extra_bytes_start = point_read.position() as usize;
+                let extra_bytes_end = (point_index + 1) * size_of_single_point;
+                self.writer
+                    .write_all(&point_read.get_ref()[extra_bytes_start..extra_bytes_end])?;
+                point_read.set_position(extra_bytes_end as u64);
             }
 
             chunk_buffer = point_read.into_inner();
@@ -446,6 +515,9 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
             None
         };
 
+        let extra_bytes_readers =
+            get_extra_bytes_readers(points.point_layout(), &self.default_layout, &target_format)?;
+
         for chunk_index in 0..num_chunks {
             let points_in_cur_chunk = std::cmp::min(
                 num_points_in_chunk,
@@ -573,6 +645,11 @@ impl<T: std::io::Write + std::io::Seek> RawLASWriter<T> {
                     self.writer.write_f32::<LittleEndian>(params.y)?;
                     self.writer.write_f32::<LittleEndian>(params.z)?;
                 }
+
+                for reader in extra_bytes_readers.iter() {
+                    self.writer
+                        .write_all(&reader(point_index, &mut point_read)?)?;
+                }
             }
 
             chunk_buffer = point_read.into_inner();
@@ -678,9 +755,9 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
         let mut header_builder = Builder::new(raw_header)?;
         // The header might come from a LAZ file and have the LAZ VLR of that file
         header_builder.vlrs = header.vlrs().clone();
-        header_builder.vlrs.retain(|vlr| {
-            vlr.user_id != laz_vlr.user_id || vlr.record_id != laz_vlr.record_id
-        });
+        header_builder
+            .vlrs
+            .retain(|vlr| vlr.user_id != laz_vlr.user_id || vlr.record_id != laz_vlr.record_id);
         header_builder.vlrs.push(laz_vlr);
         header_builder.vlr_padding = header.vlr_padding().clone();
         header_builder.evlrs = header.evlrs().clone();
@@ -700,7 +777,9 @@ impl<T: std::io::Write + std::io::Seek + Send + 'static> RawLAZWriter<T> {
 
         // Older headers have no 'large_file' field, but it is always used for keeping track of the number of points
         let mut current_header = header_with_laz_vlr.into_raw()?;
-        current_header.large_file.get_or_insert_with(Default::default);
+        current_header
+            .large_file
+            .get_or_insert_with(Default::default);
 
         let laz_writer = LasZipCompressor::new(write, raw_laz_vlr).map_err(map_laz_err)?;
 
-- 
2.43.0


From 69b0c42dca2da3608e58862bf15f2b20fa73bab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:43 +0000
Subject: [PATCH 43/44] fix: read_all_into appends the points of a file to the
 buffer

---
 pasture-io/src/base/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pasture-io/src/base/mod.rs b/pasture-io/src/base/mod.rs
index 31f8716..8ac2109 100644
--- a/pasture-io/src/base/mod.rs
+++ b/pasture-io/src/base/mod.rs
@@ -2,6 +2,7 @@ use anyhow::{Context, Result};
 use pasture_core::containers::BorrowedBuffer;
 use pasture_core::containers::MakeBufferFromLayout;
 use pasture_core::containers::OwningBuffer;
+use pasture_core::containers::VectorBuffer;
 
 mod reader;
 use std::path::Path;
@@ -49,7 +50,12 @@ pub fn read_all_into<'a, B: OwningBuffer<'a>, P: AsRef<Path>>(
         "Could not determine number of points in point cloud file {}",
         path.as_ref().display()
     ))?;
-    reader.read_into(buffer, num_points)
+    let mut points = VectorBuffer::new_from_layout(buffer.point_layout().clone());
+    points.resize(num_points);
+    let num_read = reader.read_into(&mut points, num_points)?;
+    points.resize(num_read);
+    buffer.append(&points);
+    Ok(num_read)
 }
 
 /// Writes all points in the given `buffer` into the file at `path`
-- 
2.43.0


From 9f8122a7b036bc1659d5de5f8870cf72b2bdf384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 44/44] fix: no null properties in the JSON of a tileset
 without properties

---
 pasture-io/src/tiles3d/tileset.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pasture-io/src/tiles3d/tileset.rs b/pasture-io/src/tiles3d/tileset.rs
index 7b4539e..3171153 100644
--- a/pasture-io/src/tiles3d/tileset.rs
+++ b/pasture-io/src/tiles3d/tileset.rs
@@ -272,6 +272,7 @@ pub struct TilesetProperty {
 #[derive(Clone, Serialize, Deserialize, Default, PartialEq, Debug)]
 pub struct RootTileset {
     pub asset: TilesetAssetInfo,
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub properties: Option<HashMap<String, TilesetProperty>>,
     #[serde(rename = "geometricError")]
     pub geometric_error: f64,
-- 
2.43.0


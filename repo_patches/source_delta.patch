From e3b67f9ace6298d3a4a0dfeb30975c34814ccfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/34] fix: keep child links and counts of nodes when
 refitting a Bvh

---
 src/bvh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 5ff07ae..f08ac09 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -199,8 +199,9 @@ impl Bvh {
                 aabb.offset_by(0.0001);
             }
 
-            // Overwrite AABB
-            self.nodes[i].bounds = aabb;
+            // Overwrite the extents only, the extra fields store the node's children and count
+            self.nodes[i].bounds.min = aabb.min;
+            self.nodes[i].bounds.max = aabb.max;
         }
     }
 
-- 
2.43.0


From f9b48baa66a8d25864837346c2d6bcfb9d46bac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 02/34] fix: keep computed AABBs in primitive order when none
 are supplied

---
 src/bvh.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index f08ac09..1d31313 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -76,8 +76,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
             Ok(SpatialSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())
@@ -101,8 +100,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
@@ -127,8 +125,7 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
         } else {
             let aabbs = self
                 .primitives
-                .iter()
-                .par_bridge()
+                .par_iter()
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-- 
2.43.0


From 1f0f9b838b7be513ac9172c32afdf701ae0167b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 03/34] fix: interpolate along the edge when splitting a
 triangle at a plane

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index b27d21f..5719260 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -90,7 +90,7 @@ pub trait SpatialTriangle {
 
         let split_edge = |a: Vec3, b: Vec3| -> Vec3 {
             let t = (Vec3::splat(position) - Vec3::splat(a[axis])) / Vec3::splat(b[axis] - a[axis]);
-            a * t * (b - a)
+            a + t * (b - a)
         };
 
         let q0 = p[0][axis] <= position;
-- 
2.43.0


From 2a2644d054004a56226e900d1dfd05dcb64566af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 04/34] fix: let spatial work items follow the references moved
 to make split space

---
 src/builders/spatial_sah.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 5719260..6d089cd 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -427,15 +427,15 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             new_nodes.left,
             self.work_item.begin,
             left_end,
-            right_begin,
+            right_begin + left_split_count,
             self.work_item.depth + 1,
             is_sorted,
         );
 
         let right_item = WorkItem::new(
             new_nodes.right,
-            right_begin,
-            right_end ,
+            right_begin + left_split_count,
+            right_end + left_split_count,
             self.work_item.split_end,
             self.work_item.depth + 1,
             is_sorted,
-- 
2.43.0


From d22305ad3809f4dc3a975597468476d7ad88b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 05/34] fix: halve the work item's own range when a spatial
 split leaves one side empty

---
 src/builders/spatial_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 6d089cd..9bd7257 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -647,7 +647,7 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             // references are on a single side. This code block splits the number of primitives
             // equally to either side to prevent every primitive going to one side.
             if left_count > 0 {
-                left_end = left_count / 2;
+                left_end = self.work_item.begin + left_count / 2;
             } else {
                 left_end += right_count / 2;
             }
-- 
2.43.0


From 549465ca1b4e1d7d6765b79db6572ccc659c2fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 06/34] fix: sort references of the spatial builder with a
 consistent order

---
 src/builders/spatial_sah.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 9bd7257..7bbdfe7 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -317,16 +317,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             for axis in 0..3 {
                 let slice = self.references[axis].range(begin, end);
                 slice.sort_by(|a, b| {
-                    let a_center = a.center[axis];
-                    let b_center = b.center[axis];
-
-                    if a_center < b_center {
-                        std::cmp::Ordering::Less
-                    } else if (a_center - b_center).abs() < 0.0001 {
-                        std::cmp::Ordering::Equal
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
+                    a.center[axis]
+                        .partial_cmp(&b.center[axis])
+                        .unwrap_or(Ordering::Equal)
                 });
             }
         }
-- 
2.43.0


From 07717a00a55cd2d4d89b7d668875a37d5732ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 07/34] fix: report only the references in use after a spatial
 build

---
 src/builders/spatial_sah.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 7bbdfe7..61aea8c 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -1016,6 +1016,8 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> BuildAlgorithm for SpatialSahBuild
         task_spawner.run(root_task);
 
         nodes.resize(node_count.load(SeqCst), BvhNode::new());
+        // Not every reference that was reserved for splits has to be used
+        prim_indices.truncate(reference_count.load(SeqCst));
 
         // Compose bvh
         Bvh {
-- 
2.43.0


From 83bfab54192b02045d043dc6efa8a4463fb9f927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 08/34] fix: respect the leaf size when the spatial builder
 finds no split

---
 src/builders/spatial_sah.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 61aea8c..837698f 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -760,8 +760,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> Task for SpatialSahBuildTask<'a, T
 
         let max_split_cost = node.bounds.half_area()
             * (self.work_item.work_size() as f32 - self.builder.traversal_cost);
+        let no_split_found = !use_spatial_split && best_object_split.index.is_none();
         // Make sure the cost of splitting does not exceed the cost of not splitting
-        if best_cost >= max_split_cost {
+        if best_cost >= max_split_cost || no_split_found {
             // In case splitting results in worse node costs, use median split as fallback strategy
             if self.work_item.work_size() > self.builder.max_leaf_size {
                 use_spatial_split = false;
-- 
2.43.0


From c425dea812ccddcd1cb25280f4c5e458fac74bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 09/34] fix: bound the left child by the bins that were split
 off in binned SAH

---
 src/builders/binned_sah.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index 3bf88c3..c1e6c54 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -230,7 +230,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             let mut right_box = Aabb::empty();
 
             let bins = &self.bins_per_axis[best_axis];
-            for bin in bins[0..(best_splits[best_axis].count as usize)].iter() {
+            for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
             }
 
-- 
2.43.0


From 98ea2d13f2cb15902bf8182fda1790a8efbe7b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 10/34] fix: respect the leaf size when binned SAH cannot
 separate centers

---
 src/builders/binned_sah.rs | 43 +++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/builders/binned_sah.rs b/src/builders/binned_sah.rs
index c1e6c54..9248e59 100644
--- a/src/builders/binned_sah.rs
+++ b/src/builders/binned_sah.rs
@@ -5,6 +5,7 @@ use crate::{
 };
 use crate::{Aabb, Bvh, BvhNode};
 use glam::*;
+use std::cmp::Ordering;
 use std::fmt::Debug;
 use std::num::NonZeroUsize;
 use std::sync::atomic::AtomicUsize;
@@ -210,7 +211,7 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
         }
 
         let primitives = self.builder.primitives;
-        let begin_right = self.begin
+        let mut begin_right = self.begin
             + partition(self.prim_indices, 0..(self.end - self.begin), |i| {
                 let i = *i;
                 let center = primitives[i as usize].center();
@@ -218,17 +219,15 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
                     < split_index
             });
 
+        let mut left_box = Aabb::empty();
+        let mut right_box = Aabb::empty();
+        let mut found_split = false;
+
         // Check if the split does not leave one side empty
         if begin_right > self.begin && begin_right < self.end {
-            // Allocate two nodes
-            let new_nodes = self.allocator.allocate().unwrap();
-            self.node.set_left_first(Some(new_nodes.left as u32));
-            self.node.set_count(None);
+            found_split = true;
 
             // Compute the bounding boxes
-            let mut left_box = Aabb::empty();
-            let mut right_box = Aabb::empty();
-
             let bins = &self.bins_per_axis[best_axis];
             for bin in bins[0..split_index].iter() {
                 left_box.grow_bb(&bin.aabb);
@@ -237,6 +236,34 @@ impl<'a, T: Primitive<i32>> Task for BinnedSahBuildTask<'a, T> {
             for bin in bins[split_index..bin_count].iter() {
                 right_box.grow_bb(&bin.aabb);
             }
+        } else if self.work_size() > self.builder.max_leaf_size {
+            found_split = true;
+
+            // All centers fell on the same side: split the primitives at their median
+            let aabbs = self.builder.aabbs;
+            let axis = self.node.bounds.longest_axis();
+            let median = self.work_size() / 2;
+            self.prim_indices.select_nth_unstable_by(median, |a, b| {
+                let a = primitives[*a as usize].center()[axis];
+                let b = primitives[*b as usize].center()[axis];
+                a.partial_cmp(&b).unwrap_or(Ordering::Equal)
+            });
+            begin_right = self.begin + median;
+
+            for i in self.prim_indices[0..median].iter() {
+                left_box.grow_bb(&aabbs[*i as usize]);
+            }
+
+            for i in self.prim_indices[median..].iter() {
+                right_box.grow_bb(&aabbs[*i as usize]);
+            }
+        }
+
+        if found_split {
+            // Allocate two nodes
+            let new_nodes = self.allocator.allocate().unwrap();
+            self.node.set_left_first(Some(new_nodes.left as u32));
+            self.node.set_count(None);
 
             // Retrieve references to new nodes
             let left_node = new_nodes.left_node;
-- 
2.43.0


From f0ce8606f4e6d0a61811c200ed23da39975935bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 11/34] fix: respect the leaf size when clustering two
 primitives

---
 src/builders/locb.rs | 10 +++++++++-
 src/bvh.rs           | 12 ++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/builders/locb.rs b/src/builders/locb.rs
index 2934edf..cc45825 100644
--- a/src/builders/locb.rs
+++ b/src/builders/locb.rs
@@ -11,6 +11,7 @@ pub struct LocallyOrderedClusteringBuilder<'a, T: Primitive<i32>> {
     encoder: MortonEncoder,
     world_bounds: Aabb,
     search_radius: usize,
+    max_leaf_size: usize,
 }
 
 #[allow(dead_code)]
@@ -25,6 +26,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
             encoder,
             world_bounds,
             search_radius: 14,
+            max_leaf_size: 2,
         }
     }
 
@@ -33,6 +35,12 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
         self
     }
 
+    /// Maximum number of primitives inside a node
+    pub(crate) fn with_max_leaf_size(mut self, max_leaf_size: usize) -> Self {
+        self.max_leaf_size = max_leaf_size;
+        self
+    }
+
     fn search_range(&self, i: usize, begin: usize, end: usize) -> (usize, usize) {
         let begin = if i > (begin + self.search_radius) {
             i - self.search_radius
@@ -255,7 +263,7 @@ impl<'a, T: Primitive<i32>> BuildAlgorithm for LocallyOrderedClusteringBuilder<'
         }
 
         let prim_count = self.aabbs.len();
-        if prim_count <= 2 {
+        if prim_count <= self.max_leaf_size.max(1).min(2) {
             // Splitting not worth it, just create a single root leaf node
             return Bvh {
                 nodes: vec![BvhNode {
diff --git a/src/bvh.rs b/src/bvh.rs
index 1d31313..252e681 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -121,7 +121,11 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
                 ));
             }
 
-            Ok(LocallyOrderedClusteringBuilder::new(aabbs, self.primitives).build())
+            let mut builder = LocallyOrderedClusteringBuilder::new(aabbs, self.primitives);
+            if let Some(max_leaf_size) = self.primitives_per_leaf {
+                builder = builder.with_max_leaf_size(max_leaf_size.get());
+            }
+            Ok(builder.build())
         } else {
             let aabbs = self
                 .primitives
@@ -129,7 +133,11 @@ impl<'a, T: Primitive<i32>> Builder<'a, T> {
                 .map(|p| p.aabb())
                 .collect::<Vec<_>>();
 
-            Ok(LocallyOrderedClusteringBuilder::new(&aabbs, self.primitives).build())
+            let mut builder = LocallyOrderedClusteringBuilder::new(&aabbs, self.primitives);
+            if let Some(max_leaf_size) = self.primitives_per_leaf {
+                builder = builder.with_max_leaf_size(max_leaf_size.get());
+            }
+            Ok(builder.build())
         }
     }
 }
-- 
2.43.0


From 694be09020fe31dfcb1b828fe0a6480ce0477252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 12/34] fix: traverse trees deeper than the fixed-size stack of
 32 nodes

---
 src/bvh_node.rs     |  6 +++---
 src/iter.rs         | 37 +++++++++++++++++--------------------
 src/iter_indices.rs | 37 +++++++++++++++++--------------------
 src/utils.rs        | 45 +++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 82 insertions(+), 43 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 6723328..8c76ecc 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -1,7 +1,7 @@
 use glam::*;
 use std::fmt::{Display, Formatter};
 
-use crate::{Aabb, Ray, RayPacket4};
+use crate::{utils::TraversalStack, Aabb, Ray, RayPacket4};
 
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
@@ -150,7 +150,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes(
         left: Option<f32>,
         right: Option<f32>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
@@ -180,7 +180,7 @@ impl BvhNode {
     pub(crate) fn sort_nodes4(
         left: Option<[f32; 4]>,
         right: Option<[f32; 4]>,
-        hit_stack: &mut [i32],
+        hit_stack: &mut TraversalStack,
         mut stack_ptr: i32,
         left_first: i32,
     ) -> i32 {
diff --git a/src/iter.rs b/src/iter.rs
index eda2d61..7a89eb2 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIterator<'a, 'b, T: 'a + Primitive>: Iterator<Item = (&'a T, &'b mut Ray)> {}
@@ -22,7 +23,7 @@ pub trait IntoPacketIterator<'a, 'b, T: 'a + Primitive> {
 pub struct BvhIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -46,7 +47,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -73,7 +74,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -93,7 +94,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -131,7 +132,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
 pub struct BvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     ray: &'b mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -158,7 +159,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: bvh.nodes(),
             indices: bvh.indices(),
@@ -188,7 +189,7 @@ impl<'a, 'b, T: 'a + Primitive> BvhPacketIterator<'a, 'b, T> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -208,7 +209,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -249,7 +250,7 @@ pub struct MbvhIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -271,7 +272,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -293,7 +294,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -343,9 +344,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -361,7 +360,7 @@ pub struct MbvhPacketIterator<'a, 'b, T: 'a + Primitive> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -383,7 +382,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -405,7 +404,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -457,9 +456,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 9e603c7..da8b713 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -1,3 +1,4 @@
+use crate::utils::TraversalStack;
 use crate::*;
 
 pub trait RayIndexIterator<'a>: Iterator<Item = (u32, &'a mut Ray)> {}
@@ -19,7 +20,7 @@ pub trait IntoPacketIndexIterator<'a> {
 pub struct BvhIndexIterator<'a> {
     ray: &'a mut Ray,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -38,7 +39,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -55,7 +56,7 @@ impl<'a> BvhIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -74,7 +75,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -110,7 +111,7 @@ impl<'a> Iterator for BvhIndexIterator<'a> {
 pub struct BvhPacketIndexIterator<'a> {
     ray: &'a mut RayPacket4,
     i: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     nodes: &'a [BvhNode],
     indices: &'a [u32],
@@ -135,7 +136,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes: &bvh.nodes,
             indices: &bvh.prim_indices,
@@ -158,7 +159,7 @@ impl<'a> BvhPacketIndexIterator<'a> {
         Self {
             ray,
             i: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr,
             nodes,
             indices,
@@ -177,7 +178,7 @@ impl<'a> Iterator for BvhPacketIndexIterator<'a> {
 
             let node = unsafe {
                 self.nodes
-                    .get_unchecked(*self.stack.get_unchecked(self.stack_ptr as usize) as usize)
+                    .get_unchecked(self.stack[self.stack_ptr as usize] as usize)
             };
             self.stack_ptr -= 1;
 
@@ -216,7 +217,7 @@ pub struct MbvhIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -237,7 +238,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -253,7 +254,7 @@ impl<'a> MbvhIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -301,9 +302,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
@@ -319,7 +318,7 @@ pub struct MbvhPacketIndexIterator<'a> {
     current: i32,
     i: i32,
     j: i32,
-    stack: [i32; 32],
+    stack: TraversalStack,
     stack_ptr: i32,
     indices: &'a [u32],
     nodes: &'a [MbvhNode],
@@ -340,7 +339,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices: &bvh.prim_indices,
             nodes: &bvh.m_nodes,
@@ -356,7 +355,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
             current: 0,
             i: 0,
             j: 0,
-            stack: [0; 32],
+            stack: TraversalStack::new(),
             stack_ptr: -1,
             indices,
             nodes,
@@ -403,9 +402,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
                         self.j = 0;
                     } else if left_first > -1 {
                         self.stack_ptr += 1;
-                        unsafe {
-                            *self.stack.get_unchecked_mut(self.stack_ptr as usize) = left_first;
-                        }
+                        self.stack[self.stack_ptr as usize] = left_first;
                     }
                 }
                 self.i += 1;
diff --git a/src/utils.rs b/src/utils.rs
index 79f7c8f..358e35e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -288,6 +288,51 @@ impl TaskSpawner {
     }
 }
 
+/// Stack of node ids that only allocates when a tree is unusually deep
+#[derive(Debug, Clone)]
+pub(crate) struct TraversalStack {
+    inline: [i32; 32],
+    spill: Vec<i32>,
+}
+
+impl TraversalStack {
+    #[inline(always)]
+    pub fn new() -> Self {
+        Self {
+            inline: [0; 32],
+            spill: Vec::new(),
+        }
+    }
+}
+
+impl Index<usize> for TraversalStack {
+    type Output = i32;
+
+    #[inline(always)]
+    fn index(&self, index: usize) -> &i32 {
+        if index < self.inline.len() {
+            &self.inline[index]
+        } else {
+            &self.spill[index - self.inline.len()]
+        }
+    }
+}
+
+impl IndexMut<usize> for TraversalStack {
+    #[inline(always)]
+    fn index_mut(&mut self, index: usize) -> &mut i32 {
+        if index < self.inline.len() {
+            &mut self.inline[index]
+        } else {
+            let index = index - self.inline.len();
+            if index >= self.spill.len() {
+                self.spill.resize(index + 1, 0);
+            }
+            &mut self.spill[index]
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::utils::*;
-- 
2.43.0


From 58d71c7d5d1fa23766585eb36f0646146a38df47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 13/34] fix: let ray packets hit flat boxes

---
 src/aabb.rs      | 2 +-
 src/mbvh_node.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aabb.rs b/src/aabb.rs
index 7635d2f..276bc12 100644
--- a/src/aabb.rs
+++ b/src/aabb.rs
@@ -235,7 +235,7 @@ impl<E: Debug + Copy> Aabb<E> {
         let t_min = t_min_x.max(t_min_y.max(t_min_z));
         let t_max = t_max_x.min(t_max_y.min(t_max_z));
 
-        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpgt(t_min) & t_min.cmplt(packet.t);
+        let mask = t_max.cmpgt(Vec4::ZERO) & t_max.cmpge(t_min) & t_min.cmplt(packet.t);
         if mask.any() {
             Some(t_min.into())
         } else {
diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index b4b3713..d4064f4 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -274,7 +274,7 @@ impl MbvhNode {
             let t_min: Vec4 = t_min.max(t1.min(t2));
             let t_max: Vec4 = t_max.min(t1.max(t2));
 
-            let greater_than_min = t_max.cmpgt(t_min);
+            let greater_than_min = t_max.cmpge(t_min);
             let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));
             result |= greater_than_min & less_than_t;
 
-- 
2.43.0


From 86fa774876c38f5dc870bb2a03ee666497199ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 14/34] fix: treat negative zero direction components as
 negative, like their inverse

---
 src/ray.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ray.rs b/src/ray.rs
index 5e7defd..27d0d4a 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -18,9 +18,9 @@ pub struct Ray {
 impl From<(Vec3, Vec3)> for Ray {
     fn from(vectors: (Vec3, Vec3)) -> Self {
         let signs = [
-            (vectors.1.x < 0.0) as u8,
-            (vectors.1.y < 0.0) as u8,
-            (vectors.1.z < 0.0) as u8,
+            vectors.1.x.is_sign_negative() as u8,
+            vectors.1.y.is_sign_negative() as u8,
+            vectors.1.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -131,9 +131,9 @@ impl RayPacket4 {
         );
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -165,9 +165,9 @@ impl Ray {
 
     pub fn new(origin: Vec3, direction: Vec3) -> Ray {
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
@@ -187,9 +187,9 @@ impl Ray {
         let direction = self.direction - tmp;
 
         let signs = [
-            (direction.x < 0.0) as u8,
-            (direction.y < 0.0) as u8,
-            (direction.z < 0.0) as u8,
+            direction.x.is_sign_negative() as u8,
+            direction.y.is_sign_negative() as u8,
+            direction.z.is_sign_negative() as u8,
             0,
         ];
 
-- 
2.43.0


From d02c6be7edfe8fd4a65f9eeddc066b9d6bb0a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 15/34] fix: do not assume 16-byte alignment of quad nodes

---
 src/mbvh_node.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d4064f4..8f4dff3 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -84,12 +84,12 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -115,9 +115,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.min_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
             )
         }
         #[cfg(any(
@@ -140,9 +140,9 @@ impl MbvhNode {
         ))]
         {
             (
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_x.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_y.as_ptr()) }),
-                Vec4::from(unsafe { core::arch::x86_64::_mm_load_ps(self.max_z.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_x.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_y.as_ptr()) }),
+                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.max_z.as_ptr()) }),
             )
         }
         #[cfg(any(
-- 
2.43.0


From b81d1aa7e30071f24de1ea4a9398ac32e83c58a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/34] fix: skip primitives missing from the slice instead of
 looping or dropping a leaf

---
 src/iter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iter.rs b/src/iter.rs
index 7a89eb2..c1a9658 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -112,6 +112,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -227,6 +228,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for BvhPacketIterator<'a, 'b, T> {
                             std::mem::transmute::<&mut RayPacket4, &'b mut RayPacket4>(self.ray)
                         }));
                     }
+                    continue;
                 }
                 self.i = 0;
             } else if left_first > -1 {
@@ -340,6 +342,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
                                     std::mem::transmute::<&mut Ray, &'b mut Ray>(self.ray)
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
@@ -452,6 +455,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
                                     )
                                 }));
                             }
+                            continue;
                         }
                         self.j = 0;
                     } else if left_first > -1 {
-- 
2.43.0


From 4aa164ecf054f0d9e4bc7398f8c01bd0f9982ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 17/34] fix: validate an empty Bvh without panicking

---
 src/bvh.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 252e681..0e8b27f 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -237,7 +237,9 @@ impl Bvh {
     /// tree structure
     pub fn validate(&self, prim_count: usize) -> bool {
         let mut found_indices = vec![0_u8; prim_count];
-        self.traverse_check(&self.nodes[0], found_indices.as_mut());
+        if let Some(root) = self.nodes.get(0) {
+            self.traverse_check(root, found_indices.as_mut());
+        }
 
         let mut valid = true;
         for (i, index) in found_indices.iter().copied().enumerate() {
-- 
2.43.0


From a806c2003a863f8b7ff8d522dc9110795a89ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 18/34] fix: do not access the root of an empty quad Bvh

---
 src/iter.rs         | 6 ++----
 src/iter_indices.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index c1a9658..30905de 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -310,8 +310,6 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -328,6 +326,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhIterator<'a, 'b, T> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
@@ -421,8 +420,6 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -439,6 +436,7 @@ impl<'a, 'b, T: 'a + Primitive> Iterator for MbvhPacketIterator<'a, 'b, T> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index da8b713..1aae147 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -267,8 +267,6 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -285,6 +283,7 @@ impl<'a> Iterator for MbvhIndexIterator<'a> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
@@ -368,8 +367,6 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
 
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
-
             if self.i >= 4 {
                 if self.stack_ptr < 0 {
                     return None;
@@ -386,6 +383,7 @@ impl<'a> Iterator for MbvhPacketIndexIterator<'a> {
             } else {
                 let id = unsafe { *self.hit.ids.get_unchecked((3 - self.i) as usize) } as usize;
                 if unsafe { *self.hit.result.get_unchecked(id) } {
+                    let node = unsafe { self.nodes.get_unchecked(self.current as usize) };
                     let count = node.counts[id];
                     let left_first = node.children[id];
 
-- 
2.43.0


From de53826232cf209b013fe1dd78004111e17a16ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 19/34] fix: end quad traversals of NaN rays immediately, like
 those of a Bvh

---
 src/iter.rs         | 14 ++++++++++++--
 src/iter_indices.rs | 14 ++++++++++++--
 src/ray.rs          | 15 +++++++++++++++
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index 30905de..1b8ebe3 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -266,6 +266,7 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
         let hit = bvh
             .m_nodes
             .get(0)
+            .filter(|_| !ray.is_nan())
             .map(|n| n.intersect(&ray))
             .unwrap_or_default();
         Self {
@@ -288,7 +289,11 @@ impl<'a, 'b, T: Primitive> MbvhIterator<'a, 'b, T> {
         indices: &'a [u32],
         primitives: &'a [T],
     ) -> Self {
-        let hit = nodes.get(0).map(|n| n.intersect(&ray)).unwrap_or_default();
+        let hit = nodes
+            .get(0)
+            .filter(|_| !ray.is_nan())
+            .map(|n| n.intersect(&ray))
+            .unwrap_or_default();
 
         Self {
             ray,
@@ -376,6 +381,7 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
         let hit = bvh
             .m_nodes
             .get(0)
+            .filter(|_| !ray.is_nan())
             .map(|n| n.intersect4(&ray))
             .unwrap_or_default();
         Self {
@@ -398,7 +404,11 @@ impl<'a, 'b, T: 'a + Primitive> MbvhPacketIterator<'a, 'b, T> {
         indices: &'a [u32],
         primitives: &'a [T],
     ) -> Self {
-        let hit = nodes.get(0).map(|n| n.intersect4(&ray)).unwrap_or_default();
+        let hit = nodes
+            .get(0)
+            .filter(|_| !ray.is_nan())
+            .map(|n| n.intersect4(&ray))
+            .unwrap_or_default();
 
         Self {
             ray,
diff --git a/src/iter_indices.rs b/src/iter_indices.rs
index 1aae147..2ef2b09 100644
--- a/src/iter_indices.rs
+++ b/src/iter_indices.rs
@@ -230,6 +230,7 @@ impl<'a> MbvhIndexIterator<'a> {
         let hit = bvh
             .m_nodes
             .get(0)
+            .filter(|_| !ray.is_nan())
             .map(|n| n.intersect(&ray))
             .unwrap_or_default();
         Self {
@@ -246,7 +247,11 @@ impl<'a> MbvhIndexIterator<'a> {
     }
 
     pub fn from_slices(ray: &'a mut Ray, nodes: &'a [MbvhNode], indices: &'a [u32]) -> Self {
-        let hit = nodes.get(0).map(|n| n.intersect(&ray)).unwrap_or_default();
+        let hit = nodes
+            .get(0)
+            .filter(|_| !ray.is_nan())
+            .map(|n| n.intersect(&ray))
+            .unwrap_or_default();
 
         Self {
             ray,
@@ -330,6 +335,7 @@ impl<'a> MbvhPacketIndexIterator<'a> {
         let hit = bvh
             .m_nodes
             .get(0)
+            .filter(|_| !ray.is_nan())
             .map(|n| n.intersect4(&ray))
             .unwrap_or_default();
         Self {
@@ -346,7 +352,11 @@ impl<'a> MbvhPacketIndexIterator<'a> {
     }
 
     pub fn from_slices(ray: &'a mut RayPacket4, nodes: &'a [MbvhNode], indices: &'a [u32]) -> Self {
-        let hit = nodes.get(0).map(|n| n.intersect4(&ray)).unwrap_or_default();
+        let hit = nodes
+            .get(0)
+            .filter(|_| !ray.is_nan())
+            .map(|n| n.intersect4(&ray))
+            .unwrap_or_default();
 
         Self {
             ray,
diff --git a/src/ray.rs b/src/ray.rs
index 27d0d4a..5b65dce 100644
--- a/src/ray.rs
+++ b/src/ray.rs
@@ -147,6 +147,16 @@ impl RayPacket4 {
         }
     }
 
+    #[inline(always)]
+    pub(crate) fn is_nan(&self) -> bool {
+        self.origin_x.is_nan()
+            || self.origin_y.is_nan()
+            || self.origin_z.is_nan()
+            || self.direction_x.is_nan()
+            || self.direction_y.is_nan()
+            || self.direction_z.is_nan()
+    }
+
     #[inline(always)]
     pub fn t(&self) -> Vec4 {
         self.t
@@ -213,6 +223,11 @@ impl Ray {
         self.origin + t * self.direction
     }
 
+    #[inline(always)]
+    pub(crate) fn is_nan(&self) -> bool {
+        self.origin.is_nan() || self.direction.is_nan()
+    }
+
     #[inline(always)]
     pub(crate) fn sign_x(&self) -> usize {
         self.signs[0] as usize
-- 
2.43.0


From e980a8855314e21ee327cfce4778da8d0ac239d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 20/34] fix: compute AABBs of FFI triangles from their own
 vertices

---
 rtbvh_ffi/src/lib.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4a5d8df..3bc4fd1 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -280,18 +280,9 @@ impl Primitive for RTTriangleWrapper {
 
     fn aabb(&self) -> Aabb {
         let mut aabb = Aabb::empty();
-        unsafe {
-            let ptr0 = self
-                .vertices
-                .add((self.vertex0_offset * self.vertex_stride / 4) as usize);
-            let ptr1 = ptr0.add((self.vertex_stride / 4) as usize);
-            let ptr2 = ptr0.add((self.vertex_stride / 4) as usize * 2);
-
-            aabb.grow(vec3(*ptr0, *ptr0.add(1), *ptr0.add(2)));
-            aabb.grow(vec3(*ptr1, *ptr1.add(1), *ptr1.add(2)));
-            aabb.grow(vec3(*ptr2, *ptr2.add(1), *ptr2.add(2)));
-        }
-
+        aabb.grow(self.vertex0());
+        aabb.grow(self.vertex1());
+        aabb.grow(self.vertex2());
         aabb
     }
 }
-- 
2.43.0


From f5e1c91a41296dc4066b29ab5df2174c7f72ed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 21/34] fix: do not require over-aligned or surplus AABBs in
 the FFI

---
 rtbvh_ffi/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 3bc4fd1..4813447 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -172,6 +172,14 @@ impl From<RTAabb> for Aabb {
     }
 }
 
+/// Copies AABBs, as those passed by the caller are not aligned to 16 bytes.
+unsafe fn read_aabbs(aabbs: *const RTAabb, count: usize) -> Vec<Aabb> {
+    slice::from_raw_parts(aabbs, count)
+        .iter()
+        .map(|bb| (*bb).into())
+        .collect()
+}
+
 #[derive(Debug, Copy, Clone)]
 #[repr(C)]
 pub struct RTBvhNode {
@@ -347,7 +355,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(read_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -365,7 +373,7 @@ pub unsafe extern "C" fn create_spatial_Bvh(
         .collect();
 
     match (Builder {
-        aabbs,
+        aabbs: aabbs.as_deref(),
         primitives: primitives.as_slice(),
         primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
     })
@@ -440,7 +448,7 @@ pub unsafe extern "C" fn create_bvh(
     );
 
     let aabbs = if !aabbs.is_null() {
-        Some(slice::from_raw_parts(aabbs as *const Aabb, prim_count))
+        Some(read_aabbs(aabbs, prim_count))
     } else {
         None
     };
@@ -449,7 +457,7 @@ pub unsafe extern "C" fn create_bvh(
         12 => {
             let primitives = slice::from_raw_parts(centers as *const Vector3, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -461,7 +469,7 @@ pub unsafe extern "C" fn create_bvh(
         16 => {
             let primitives = slice::from_raw_parts(centers as *const Vector4, prim_count);
             let builder = rtbvh::Builder {
-                aabbs,
+                aabbs: aabbs.as_deref(),
                 primitives,
                 primitives_per_leaf: NonZeroUsize::new(prims_per_leaf as usize),
             };
@@ -514,10 +522,9 @@ pub unsafe extern "C" fn refit(aabbs: *const RTAabb, bvh: RTBvh) -> ResultCode {
 
     let refitted = MANAGER
         .get_mut(bvh.id, |bvh| {
-            bvh.refit(slice::from_raw_parts(
-                aabbs as *const Aabb,
-                bvh.prim_count(),
-            ));
+            // Spatial splits reference primitives more than once
+            let prim_count = bvh.indices().iter().max().map_or(0, |i| *i as usize + 1);
+            bvh.refit(&read_aabbs(aabbs, prim_count));
         })
         .is_some();
 
-- 
2.43.0


From e081971bc197e4aa786082a4a162849b33e5c5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 22/34] fix: do not assume an aligned t array when intersecting
 packets in the FFI

---
 rtbvh_ffi/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 4813447..66b76b0 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -678,7 +678,7 @@ pub unsafe extern "C" fn intersect_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
@@ -827,7 +827,7 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
         }
     }
 
-    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4, t as *mut Vec4, 1);
+    std::ptr::copy_nonoverlapping(&ray.t as *const Vec4 as *const f32, t, 4);
 
     ResultCode::Ok
 }
-- 
2.43.0


From 0480b0c41986bb7694697ad8e60fbba147629458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 23/34] fix: return an error for null handles and pointers in
 the FFI

---
 rtbvh_ffi/src/lib.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rtbvh_ffi/src/lib.rs b/rtbvh_ffi/src/lib.rs
index 66b76b0..522f374 100644
--- a/rtbvh_ffi/src/lib.rs
+++ b/rtbvh_ffi/src/lib.rs
@@ -352,6 +352,10 @@ pub unsafe extern "C" fn create_spatial_Bvh(
     prims_per_leaf: u32,
     result: *mut RTBvh,
 ) -> ResultCode {
+    if centers.is_null() || vertices.is_null() || result.is_null() {
+        return ResultCode::Error;
+    }
+
     assert_eq!(stride % 4, 0);
 
     let aabbs = if !aabbs.is_null() {
@@ -554,6 +558,10 @@ pub unsafe extern "C" fn intersect(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
     if origin.is_nan() || direction.is_nan() {
@@ -606,6 +614,10 @@ pub unsafe extern "C" fn intersect_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
@@ -703,6 +715,10 @@ pub unsafe extern "C" fn intersect_mbvh(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin = Vec3::new(*origin, *origin.add(1), *origin.add(2));
     let direction = Vec3::new(*direction, *direction.add(1), *direction.add(2));
 
@@ -756,6 +772,10 @@ pub unsafe extern "C" fn intersect_mbvh_packet(
     user_data: *mut std::ffi::c_void,
     intersect: extern "C" fn(u32, *mut f32, *mut std::ffi::c_void) -> bool,
 ) -> ResultCode {
+    if bvh.nodes.is_null() || bvh.indices.is_null() {
+        return ResultCode::Error;
+    }
+
     let origin_x = Vec4::new(
         *origin_x,
         *origin_x.add(1),
-- 
2.43.0


From 8df9fb40965630dbcb0e71c95466a520a0267f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 24/34] hook: schedule points and task threshold override
 behind cfg(rtbvh_verif)

---
 src/builders/mod.rs |  3 +++
 src/lib.rs          | 25 +++++++++++++++++++++++++
 src/utils.rs        |  8 ++++++++
 3 files changed, 36 insertions(+)

diff --git a/src/builders/mod.rs b/src/builders/mod.rs
index b94868f..70f789d 100644
--- a/src/builders/mod.rs
+++ b/src/builders/mod.rs
@@ -56,9 +56,12 @@ impl<'a> AtomicNodeStack<'a> {
         (Self { counter, nodes }, first_node)
     }
 
+    #[allow(unexpected_cfgs)]
     pub fn allocate(&self) -> Option<AllocatedNodes<'a>> {
         let left = self.counter.fetch_add(2, SeqCst);
         let right = left + 1;
+        #[cfg(rtbvh_verif)]
+        crate::verif_hooks::schedule_point(1);
 
         if self.nodes.len() <= left {
             return None;
diff --git a/src/lib.rs b/src/lib.rs
index 6518d1d..fa4fc2d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,6 +9,31 @@ mod morton;
 mod ray;
 mod utils;
 
+/// Instrumentation for runtime monitoring, only compiled with `--cfg rtbvh_verif`
+#[allow(unexpected_cfgs)]
+#[cfg(rtbvh_verif)]
+pub mod verif_hooks {
+    use std::sync::atomic::{AtomicUsize, Ordering};
+
+    /// Overrides the number of primitives above which build tasks get their own thread
+    pub static WORK_SIZE_THRESHOLD: AtomicUsize = AtomicUsize::new(1024);
+    static SCHEDULE_POINT: AtomicUsize = AtomicUsize::new(0);
+
+    /// Registers a function that is called with the id of every scheduling point
+    pub fn set_schedule_point(f: Option<fn(u32)>) {
+        SCHEDULE_POINT.store(f.map_or(0, |f| f as usize), Ordering::SeqCst);
+    }
+
+    #[inline]
+    pub(crate) fn schedule_point(id: u32) {
+        let f = SCHEDULE_POINT.load(Ordering::Relaxed);
+        if f != 0 {
+            // Only set_schedule_point stores non-zero values
+            unsafe { std::mem::transmute::<usize, fn(u32)>(f)(id) };
+        }
+    }
+}
+
 pub use crate::bvh::*;
 pub use aabb::*;
 pub use builders::*;
diff --git a/src/utils.rs b/src/utils.rs
index 358e35e..a081f83 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -240,6 +240,7 @@ impl TaskSpawner {
         .unwrap();
     }
 
+    #[allow(unexpected_cfgs)]
     fn run_task<'a, T: Task + Sized + 'a>(
         task: T,
         config: TaskConfig,
@@ -247,11 +248,18 @@ impl TaskSpawner {
         scope: &crossbeam::thread::Scope<'a>,
     ) {
         thread_count.fetch_add(1, Ordering::SeqCst);
+        #[cfg(rtbvh_verif)]
+        let config = TaskConfig {
+            work_size_threshold: crate::verif_hooks::WORK_SIZE_THRESHOLD.load(Ordering::Relaxed),
+            ..config
+        };
         let mut sub_tasks = Vec::new();
 
         let mut stack: Vec<T> = vec![task];
 
         while !stack.is_empty() {
+            #[cfg(rtbvh_verif)]
+            crate::verif_hooks::schedule_point(0);
             let work_item = stack.pop().unwrap();
             debug_assert!(work_item.depth() <= config.max_depth);
 
-- 
2.43.0


From 1746178a8d19980cdd0c53e1144ce190f3f17c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 25/34] fix: give leaves directly below a merged node their own
 bounds in quad nodes

---
 src/mbvh_node.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index 8f4dff3..d15ab42 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -319,6 +319,7 @@ impl MbvhNode {
                     if left_node.is_leaf() {
                         nodes[0] = left_first as i32;
                         leafs[0] = left_node.get_count_unchecked();
+                        mbvh_pool[m_index].set_bounds_bb(0, &left_node.bounds);
                     } else {
                         if bvh_pool[left_first as usize].is_leaf() {
                             nodes[0] = bvh_pool[left_first as usize].get_left_first_unchecked();
@@ -350,6 +351,7 @@ impl MbvhNode {
                     if right_node.is_leaf() {
                         nodes[2] = left_first as i32;
                         leafs[2] = right_node.get_count_unchecked();
+                        mbvh_pool[m_index].set_bounds_bb(2, &right_node.bounds);
                     } else {
                         if bvh_pool[left_first as usize].is_leaf() {
                             nodes[2] = bvh_pool[left_first as usize].get_left_first_unchecked();
-- 
2.43.0


From 68192093e19224615947451c82ce84d936e8daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:40 +0000
Subject: [PATCH 26/34] fix: validate trees of any depth without recursion

---
 src/bvh.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/bvh.rs b/src/bvh.rs
index 0e8b27f..7489461 100644
--- a/src/bvh.rs
+++ b/src/bvh.rs
@@ -210,25 +210,26 @@ impl Bvh {
         }
     }
 
-    fn traverse_check(&self, cur_node: &BvhNode, checks: &mut [u8]) {
-        if let Some(left_first) = cur_node.get_left_first() {
-            if cur_node.is_leaf() {
-                for i in 0..cur_node.get_count_unchecked() {
-                    let prim_id = self.prim_indices[(left_first as i32 + i) as usize] as usize;
-                    debug_assert!(
-                        prim_id < checks.len(),
-                        "prim_id: {}, max_prim_id: {}",
-                        prim_id,
-                        checks.len()
-                    );
-                    checks[prim_id] = 1;
+    fn traverse_check(&self, root: &BvhNode, checks: &mut [u8]) {
+        // Trees can be too deep for recursion
+        let mut stack = vec![root];
+        while let Some(cur_node) = stack.pop() {
+            if let Some(left_first) = cur_node.get_left_first() {
+                if cur_node.is_leaf() {
+                    for i in 0..cur_node.get_count_unchecked() {
+                        let prim_id = self.prim_indices[(left_first as i32 + i) as usize] as usize;
+                        debug_assert!(
+                            prim_id < checks.len(),
+                            "prim_id: {}, max_prim_id: {}",
+                            prim_id,
+                            checks.len()
+                        );
+                        checks[prim_id] = 1;
+                    }
+                } else {
+                    stack.push(&self.nodes[left_first as usize + 1]);
+                    stack.push(&self.nodes[left_first as usize]);
                 }
-            } else {
-                let left_node = &self.nodes[left_first as usize];
-                let right_node = &self.nodes[left_first as usize + 1];
-
-                self.traverse_check(left_node, checks);
-                self.traverse_check(right_node, checks);
             }
         }
     }
-- 
2.43.0


From 3cbeb63d0f63aa646cea98e43b417a2e2952eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 27/34] fix: convert trees of any depth without recursion

---
 src/mbvh_node.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index d15ab42..cea00a0 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -300,6 +300,21 @@ impl MbvhNode {
         bvh_pool: &[BvhNode],
         mbvh_pool: &mut [MbvhNode],
         pool_ptr: &mut usize,
+    ) {
+        // Trees can be too deep for recursion
+        let mut stack = vec![(m_index, cur_node)];
+        while let Some((m_index, cur_node)) = stack.pop() {
+            Self::merge_node(m_index, cur_node, bvh_pool, mbvh_pool, pool_ptr, &mut stack);
+        }
+    }
+
+    fn merge_node(
+        m_index: usize,
+        cur_node: usize,
+        bvh_pool: &[BvhNode],
+        mbvh_pool: &mut [MbvhNode],
+        pool_ptr: &mut usize,
+        stack: &mut Vec<(usize, usize)>,
     ) {
         for i in 0..4 {
             mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[cur_node].bounds);
@@ -407,7 +422,7 @@ impl MbvhNode {
                 *pool_ptr += 1;
                 mbvh_pool[m_index].children[i] = new_m_index as i32;
                 mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[node as usize].bounds);
-                Self::merge_nodes(new_m_index, node as usize, bvh_pool, mbvh_pool, pool_ptr);
+                stack.push((new_m_index, node as usize));
             }
         }
     }
-- 
2.43.0


From 6ac693198e27c1e5e334b7d0bb40d18c8403b8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 28/34] fix: never give a spatial child more split space than
 there is

---
 src/builders/spatial_sah.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 837698f..4ed53f5 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -384,7 +384,9 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
         let left_split_count = if remaining_split_count == 0 {
             0
         } else {
-            (remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize
+            // Boxes of clipped references can be inverted, which makes their cost negative
+            ((remaining_split_count as f32 * (left_cost / (left_cost + right_cost))) as usize)
+                .min(remaining_split_count)
         };
 
         // Move references of the right child to end of the list to leave some split space for the left one
-- 
2.43.0


From 614aebbfdf2bff79907a001b1858ebd3e8a00da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 29/34] fix: keep a straddling spatial reference on the one
 side its triangle is on

A supplied AABB can straddle the split plane although the triangle lies
on one side of it. Such a reference was split in two, leaving leaves with
the reversed (empty) box on the other side, which quad traversals enter
with every ray.
---
 src/builders/spatial_sah.rs | 74 ++++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 25 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 4ed53f5..660179c 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -637,29 +637,6 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
 
         let mut left_count = left_end - self.work_item.begin;
         let mut right_count = right_end - right_begin;
-        if (left_count == 0 || right_count == 0) && left_end == right_begin {
-            // Sometimes the algorithm will suggest a spatial split is possible, but all
-            // references are on a single side. This code block splits the number of primitives
-            // equally to either side to prevent every primitive going to one side.
-            if left_count > 0 {
-                left_end = self.work_item.begin + left_count / 2;
-            } else {
-                left_end += right_count / 2;
-            }
-            right_begin = left_end;
-
-            // Recompute the left and right bounding boxes
-            left_box = Aabb::empty();
-            right_box = Aabb::empty();
-
-            for r in &references_to_split[self.work_item.begin..left_end] {
-                left_box.grow_bb(&r.aabb);
-            }
-
-            for r in &references_to_split[left_end..self.work_item.end] {
-                right_box.grow_bb(&r.aabb);
-            }
-        }
 
         // Handle straddling references
         while left_end < right_begin {
@@ -671,8 +648,31 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             left_prim_box.shrink(&reference.aabb);
             right_prim_box.shrink(&reference.aabb);
 
-            // Make sure there is enough space to split reference
-            if self.work_item.split_end - right_end > 0 {
+            // An AABB can straddle the plane although its triangle lies on one side only;
+            // no reference is needed on the side that has nothing of the triangle.
+            let has_left = left_prim_box.is_valid();
+            let has_right = right_prim_box.is_valid();
+            if has_left && !has_right {
+                left_box.grow_bb(&left_prim_box);
+                references_to_split[left_end] = SpatialReference {
+                    aabb: left_prim_box,
+                    center: left_prim_box.center(),
+                    prim_id: reference.prim_id,
+                };
+                left_end += 1;
+                left_count += 1;
+            } else if has_right && !has_left {
+                right_box.grow_bb(&right_prim_box);
+                references_to_split[left_end] = SpatialReference {
+                    aabb: right_prim_box,
+                    center: right_prim_box.center(),
+                    prim_id: reference.prim_id,
+                };
+                right_begin -= 1;
+                references_to_split.swap(right_begin, left_end);
+                right_count += 1;
+            } else if has_left && self.work_item.split_end - right_end > 0 {
+                // There is enough space to split the reference
                 left_box.grow_bb(&left_prim_box);
                 right_box.grow_bb(&right_prim_box);
 
@@ -705,6 +705,30 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             }
         }
 
+        if left_count == 0 || right_count == 0 {
+            // Sometimes the algorithm will suggest a spatial split is possible, but all
+            // references are on a single side. This code block splits the number of primitives
+            // equally to either side to prevent every primitive going to one side.
+            if left_count > 0 {
+                left_end = self.work_item.begin + left_count / 2;
+            } else {
+                left_end += right_count / 2;
+            }
+            right_begin = left_end;
+
+            // Recompute the left and right bounding boxes
+            left_box = Aabb::empty();
+            right_box = Aabb::empty();
+
+            for r in &references_to_split[self.work_item.begin..left_end] {
+                left_box.grow_bb(&r.aabb);
+            }
+
+            for r in &references_to_split[left_end..right_end] {
+                right_box.grow_bb(&r.aabb);
+            }
+        }
+
         self.references[(split.axis + 1) % 3].as_mut()[self.work_item.begin..right_end]
             .copy_from_slice(&references_to_split[self.work_item.begin..right_end]);
         self.references[(split.axis + 2) % 3].as_mut()[self.work_item.begin..right_end]
-- 
2.43.0


From 03246c89adc9fb76e6d27d5ec0a83eebbb55ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 30/34] fix: sort the middle two of a quad node's children by
 distance, too

---
 src/mbvh_node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index cea00a0..2fc9e8c 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -232,8 +232,8 @@ impl MbvhNode {
             t_minf.swap(1, 3);
             ids.swap(1, 3);
         }
-        if t_minf[2] > t_minf[3] {
-            ids.swap(2, 3);
+        if t_minf[1] > t_minf[2] {
+            ids.swap(1, 2);
         }
 
         MbvhHit { ids, result }
-- 
2.43.0


From a873be5a011bef5bd0da233c3d23e926758b58d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:27 +0000
Subject: [PATCH 31/34] fix: visit the child nearer to a packet first

---
 src/bvh_node.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bvh_node.rs b/src/bvh_node.rs
index 8c76ecc..b5ad3a0 100644
--- a/src/bvh_node.rs
+++ b/src/bvh_node.rs
@@ -190,14 +190,15 @@ impl BvhNode {
             let t_near_right = Vec4::from(right);
 
             stack_ptr += 1;
+            // The node that is pushed last is visited first
             if t_near_left.cmplt(t_near_right).bitmask() > 0 {
-                hit_stack[stack_ptr as usize] = left_first;
-                stack_ptr += 1;
-                hit_stack[stack_ptr as usize] = left_first + 1;
-            } else {
                 hit_stack[stack_ptr as usize] = left_first + 1;
                 stack_ptr += 1;
                 hit_stack[stack_ptr as usize] = left_first;
+            } else {
+                hit_stack[stack_ptr as usize] = left_first;
+                stack_ptr += 1;
+                hit_stack[stack_ptr as usize] = left_first + 1;
             }
         } else if left.is_some() {
             stack_ptr += 1;
-- 
2.43.0


From 542bfac16766e084ee2fcd24ffa255e84a148c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:16 +0000
Subject: [PATCH 32/34] fix: cluster boxes that are too large to measure

Half areas that overflow or are not numbers left nodes without a nearest
neighbour: the clustering panicked on an out of range index.
---
 src/builders/locb.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/builders/locb.rs b/src/builders/locb.rs
index cc45825..4ba863e 100644
--- a/src/builders/locb.rs
+++ b/src/builders/locb.rs
@@ -52,6 +52,13 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
         (begin, end)
     }
 
+    /// Boxes that are too large to be measured, or whose extents are not numbers,
+    /// are as far apart as can be. Distances have to be comparable, as every pass
+    /// needs two nodes that are each other's nearest neighbour.
+    fn distance(a: &Aabb, b: &Aabb) -> f32 {
+        a.union_of(b).half_area().min(std::f32::MAX)
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn cluster(
         &self,
@@ -92,7 +99,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
                 for j in (i + 1)..self.search_range(i, begin, end).1 {
                     unsafe {
                         (*distance_matrix[chunk_begin - i].add(j - i - 1)) =
-                            input[i].bounds.union_of(&input[j].bounds).half_area();
+                            Self::distance(&input[i].bounds, &input[j].bounds);
                     }
                 }
             }
@@ -100,13 +107,12 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
             // Nearest neighbour search
             for i in chunk_begin..chunk_end {
                 let (search_begin, search_end) = self.search_range(i, begin, end);
-                let mut best_distance = std::f32::MAX;
+                let mut best_distance = std::f32::INFINITY;
                 let mut best_neighbour = -1;
 
                 // Backward search
                 for j in search_begin..i {
                     let distance = unsafe { *distance_matrix[i - j].add(i - j - 1) };
-                    debug_assert!(!distance.is_infinite());
 
                     if distance < best_distance {
                         best_distance = distance;
@@ -116,15 +122,7 @@ impl<'a, T: Primitive<i32>> LocallyOrderedClusteringBuilder<'a, T> {
 
                 // Forward search
                 for j in (i + 1)..search_end {
-                    let distance = input[i].bounds.union_of(&input[j].bounds).half_area();
-                    debug_assert!(
-                        !distance.is_infinite(),
-                        "i {}, j {}, bounds1 {}, bound2 {}",
-                        i,
-                        j,
-                        &input[i].bounds,
-                        &input[j].bounds
-                    );
+                    let distance = Self::distance(&input[i].bounds, &input[j].bounds);
                     unsafe {
                         (*distance_matrix[0].add(j - i - 1)) = distance;
                     }
-- 
2.43.0


From a202ac402e48d61d242811b8e2c732a043a576ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:16 +0000
Subject: [PATCH 33/34] fix: order centers that are not numbers consistently

Sorting panicked, as NaN compared equal to everything.
---
 src/builders/spatial_sah.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/builders/spatial_sah.rs b/src/builders/spatial_sah.rs
index 660179c..13127ac 100644
--- a/src/builders/spatial_sah.rs
+++ b/src/builders/spatial_sah.rs
@@ -317,9 +317,10 @@ impl<'a, T: Primitive<i32> + SpatialTriangle> SpatialSahBuildTask<'a, T> {
             for axis in 0..3 {
                 let slice = self.references[axis].range(begin, end);
                 slice.sort_by(|a, b| {
-                    a.center[axis]
-                        .partial_cmp(&b.center[axis])
-                        .unwrap_or(Ordering::Equal)
+                    let (a, b) = (a.center[axis], b.center[axis]);
+                    // Centers that are NaN come last
+                    a.partial_cmp(&b)
+                        .unwrap_or_else(|| a.is_nan().cmp(&b.is_nan()))
                 });
             }
         }
-- 
2.43.0


From 7c88c8a150620694e6cb094753132f383ffb63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:13 +0000
Subject: [PATCH 34/34] fix: convert trees whose root is a leaf with any first
 index to quad BVHs

---
 src/mbvh_node.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mbvh_node.rs b/src/mbvh_node.rs
index 2fc9e8c..584aff7 100644
--- a/src/mbvh_node.rs
+++ b/src/mbvh_node.rs
@@ -320,6 +320,13 @@ impl MbvhNode {
             mbvh_pool[m_index].set_bounds_bb(i, &bvh_pool[cur_node].bounds);
         }
 
+        // A root that is a leaf has no children to merge
+        if bvh_pool[cur_node].is_leaf() && bvh_pool[cur_node].is_valid() {
+            mbvh_pool[m_index].children[0] = bvh_pool[cur_node].get_left_first_unchecked();
+            mbvh_pool[m_index].counts[0] = bvh_pool[cur_node].get_count_unchecked();
+            return;
+        }
+
         // cur_node is the parent node.
         // We want to merge its children's children such that we have 4 nodes for a new mbvhnode
         let (nodes, leafs) = if let Some(left_first) = bvh_pool[cur_node].get_left_first() {
-- 
2.43.0


From eb0f9de62b669c7491d88b4acbea9754fe1c2503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 01/15] verif hook: expose span insertion behind
 cfg(rerecast_verif)

---
 crates/rerecast/src/heightfield.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..e9ae690 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -303,6 +303,36 @@ pub enum SpanInsertionError {
     },
 }
 
+/// Entry points for the verification harnesses; compiled only with `--cfg rerecast_verif`.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(rerecast_verif)]
+    impl super::Heightfield {
+        /// Inserts a single span, exactly as rasterization does.
+        pub fn verif_add_span(
+            &mut self,
+            x: u16,
+            z: u16,
+            min: u16,
+            max: u16,
+            area: crate::AreaType,
+            flag_merge_threshold: u16,
+        ) -> Result<(), super::SpanInsertionError> {
+            self.add_span(super::SpanInsertion {
+                x,
+                z,
+                flag_merge_threshold,
+                span: super::Span {
+                    min,
+                    max,
+                    area,
+                    next: None,
+                },
+            })
+        }
+    }
+}
+
 pub(crate) struct SpanInsertion {
     /// The x-coordinate of the span
     pub(crate) x: u16,
-- 
2.43.0


From e55af820e022112d0f08ca4d585e2e96ff858db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 02/15] fix: link neighbours on layer 62 instead of silently
 dropping them

The highest layer index that fits next to the NOT_CONNECTED marker is 62, and only
indices above it raise TooManyLayers, so a neighbour on layer 62 was neither
connected nor reported.
---
 crates/rerecast/src/compact_heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..6c491c0 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -228,7 +228,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From 554cbff0392880ecc938ecb3bcb26c2e2f270a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 03/15] fix: report columns with more than 255 walkable spans
 instead of overflowing the cell's count

---
 crates/rerecast/src/compact_heightfield.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 6c491c0..f2b30af 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -170,6 +170,13 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        // The cell cannot count any more spans.
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: u8::MAX - 1,
+                            layer_index: u8::MAX as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
-- 
2.43.0


From 733e3732f304f63f564a53c57669667599f89848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 04/15] fix: building the distance field of a heightfield
 without walkable spans no longer panics

---
 crates/rerecast/src/watershed_distance_field.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/rerecast/src/watershed_distance_field.rs b/crates/rerecast/src/watershed_distance_field.rs
index 1bbf117..1a70324 100644
--- a/crates/rerecast/src/watershed_distance_field.rs
+++ b/crates/rerecast/src/watershed_distance_field.rs
@@ -17,8 +17,7 @@ impl CompactHeightfield {
     /// Prepare for region partitioning, by calculating distance field along the walkable surface.
     pub fn build_distance_field(&mut self) {
         let distance_field = self.calculate_distance_field();
-        // Safety: Unwrap is fine as long as `spans` is not empty, as `distance_field` has the same length
-        self.max_distance = *distance_field.iter().max().unwrap();
+        self.max_distance = distance_field.iter().copied().max().unwrap_or_default();
         let distance_field = self.box_blur(1, &distance_field);
         self.dist = distance_field;
     }
-- 
2.43.0


From 10d5f9ce0737aa35c35c873a7bc61f67dd1f8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 05/15] fix: erosion radii of 128 and more no longer wrap
 around to a smaller radius

Distances to the boundary were kept in 8 bits and the threshold was truncated to
8 bits as well, so e.g. a radius of 128 did not erode anything.
---
 crates/rerecast/src/erosion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..b96cfe0 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,8 +163,7 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius.saturating_mul(2);
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
-- 
2.43.0


From dd3d76f9756a877118ec3b5694a7144f02c79ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 06/15] fix: maximum edge lengths of 256 and more no longer
 overflow when splitting contour edges

---
 crates/rerecast/src/contours.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index fd24f47..5bbf479 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -444,8 +444,8 @@ fn simplify_contour(
                 && area.intersects(RegionVertexId::AREA_BORDER);
             let should_tesselate = is_wall_edge || is_edge_between_areas;
             if should_tesselate {
-                let d = b.xz().as_ivec2() - a.xz().as_ivec2();
-                if d.length_squared() > (max_edge_len * max_edge_len) as i32 {
+                let d = b.xz().as_i64vec2() - a.xz().as_i64vec2();
+                if d.length_squared() > (max_edge_len as i64).pow(2) {
                     // Round based on the segments in lexilogical order so that the
                     // max tesselation is consistent regardless in which direction
                     // segments are traversed.
-- 
2.43.0


From e6c0bea00be3c027fe56ed3b7b36b335d65e3f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 07/15] fix: regions with many holes no longer overrun the
 contour array

---
 crates/rerecast/src/contours.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/contours.rs b/crates/rerecast/src/contours.rs
index 5bbf479..85946c9 100644
--- a/crates/rerecast/src/contours.rs
+++ b/crates/rerecast/src/contours.rs
@@ -38,9 +38,9 @@ impl CompactHeightfield {
             cset.aabb.max.z -= pad;
         }
 
-        let mut max_contours = self.max_region.bits().max(8);
+        let mut max_contours = self.max_region.bits().max(8) as usize;
 
-        cset.contours = vec![Contour::default(); max_contours as usize];
+        cset.contours = vec![Contour::default(); max_contours];
         // We will shrink contours to this value later
         let mut contour_count = 0;
         let mut flags = vec![0_u8; self.spans.len()];
@@ -111,12 +111,12 @@ impl CompactHeightfield {
                     // Store region->contour remap info.
                     // Create contour.
                     if simplified.len() >= 3 {
-                        if contour_count >= max_contours as usize {
+                        if contour_count >= max_contours {
                             // Allocate more contours.
                             // This happens when a region has holes.
                             let old_max = max_contours;
                             max_contours *= 2;
-                            cset.contours.truncate(max_contours as usize);
+                            cset.contours.resize_with(max_contours, Contour::default);
 
                             tracing::warn!(
                                 "Region has holes. Expanding contour set from max {old_max} to max {max_contours}"
-- 
2.43.0


From c2c474cd2e09057d2f6d16dbcac62ade149e3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 08/15] fix: truncate the polygon mesh's regions to its polygon
 count

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..882c796 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -177,6 +177,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
         }
         value.vertices.truncate(value.nvertices as usize);
         value.areas.truncate(value.npolys);
+        value.regions.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
             polygons,
-- 
2.43.0


From 6a89592ee05af3671c55a71513c3056056977eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 09/15] fix: compute contour lengths and areas without integer
 overflow

---
 crates/rerecast/src/poly_mesh.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 882c796..d509bd9 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -959,8 +959,8 @@ fn get_poly_merge_value(
     va = pa[ea] as usize;
     vb = pa[(ea + 1) % na] as usize;
 
-    let d = verts[va].as_ivec3() - verts[vb].as_ivec3();
-    let length_squared = d.xz().length_squared() as u32;
+    let d = verts[va].as_i64vec3() - verts[vb].as_i64vec3();
+    let length_squared = d.xz().length_squared();
     Some(PolyMergeValue {
         length_squared,
         edge_a: ea,
@@ -970,8 +970,8 @@ fn get_poly_merge_value(
 
 #[inline]
 fn uleft(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
-    let cross = (b.x as i32 - a.x as i32) * (c.z as i32 - a.z as i32)
-        - (c.x as i32 - a.x as i32) * (b.z as i32 - a.z as i32);
+    let cross = (b.x as i64 - a.x as i64) * (c.z as i64 - a.z as i64)
+        - (c.x as i64 - a.x as i64) * (b.z as i64 - a.z as i64);
     cross < 0
 }
 
@@ -984,7 +984,7 @@ fn count_poly_verts(p: &[u16], nvp: usize) -> usize {
 
 #[derive(Debug)]
 struct PolyMergeValue {
-    length_squared: u32,
+    length_squared: i64,
     edge_a: usize,
     edge_b: usize,
 }
@@ -1058,8 +1058,8 @@ fn triangulate(
                 let p0 = verts[indices[i] & INDEX_MASK].0;
                 let p2 = verts[indices[next(i1, n)] & INDEX_MASK].0;
 
-                let d = p2.as_ivec3() - p0.as_ivec3();
-                let len = d.xz().length_squared() as u16;
+                let d = p2.as_i64vec3() - p0.as_i64vec3();
+                let len = d.xz().length_squared();
                 if min_len.is_none_or(|min| len < min) {
                     min_len = Some(len);
                     mini = Some(i);
@@ -1082,8 +1082,8 @@ fn triangulate(
                 if is_diagonal_loose(i, i2, n, verts, indices) {
                     let p0 = verts[indices[i] & INDEX_MASK].0;
                     let p2 = verts[indices[next(i2, n)] & INDEX_MASK].0;
-                    let d = p2.as_ivec3() - p0.as_ivec3();
-                    let len = d.xz().length_squared() as u16;
+                    let d = p2.as_i64vec3() - p0.as_i64vec3();
+                    let len = d.xz().length_squared();
                     if min_len.is_none_or(|min| len < min) {
                         min_len = Some(len);
                         mini = Some(i);
@@ -1176,10 +1176,10 @@ fn is_left(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> bool {
 }
 
 #[inline]
-fn area2(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> i32 {
-    let a = a.as_ivec3();
-    let b = b.as_ivec3();
-    let c = c.as_ivec3();
+fn area2(a: U16Vec3, b: U16Vec3, c: U16Vec3) -> i64 {
+    let a = a.as_i64vec3();
+    let b = b.as_i64vec3();
+    let c = c.as_i64vec3();
     (b.x - a.x) * (c.z - a.z) - (c.x - a.x) * (b.z - a.z)
 }
 
-- 
2.43.0


From 3e2beae20308763089b69a4469a708bdd3ecfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 10/15] fix: find the edges at a vertex when deciding whether
 it can be removed

---
 crates/rerecast/src/poly_mesh.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index d509bd9..7d20b80 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -823,7 +823,8 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for j in 0..nv {
+                let k = prev(j, nv);
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
@@ -855,7 +856,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From edb99c4e2cf34bd61dd251dd2c350c224bad09fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 11/15] fix: collect the outline of the hole that a removed
 vertex leaves

---
 crates/rerecast/src/poly_mesh.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 7d20b80..fb46518 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -560,7 +560,8 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for j in 0..nv {
+                    let k = prev(j, nv);
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -634,20 +635,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
-- 
2.43.0


From 42af9e0008ceca04700c1804457fe300672c65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 12/15] fix: keep room for new polygons and do not underflow
 when removing vertices

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index fb46518..a1dd218 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -364,7 +364,6 @@ impl ContourSet {
             }
         }
 
-        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Remove edge vertices.
         let mut i = 0;
         while i < mesh.nvertices as usize {
@@ -378,11 +377,12 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+                continue;
             }
 
             i += 1;
         }
+        mesh.polygons.truncate(mesh.npolys * nvp * 2);
         // Calculate adjacency.
         mesh.build_mesh_adjacency()?;
 
-- 
2.43.0


From 4782ed3da0be20235f24c89741b5e1e5be456249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 13/15] fix: dividing an empty polygon no longer keeps the
 previous vertex counts

---
 crates/rerecast/src/rasterize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..326dc83 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -207,6 +207,9 @@ fn divide_poly(
     if in_vert_count > 12 {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
+        // Nothing is left to divide
+        *out_vert_count_1 = 0;
+        *out_vert_count_2 = 0;
         return Ok(());
     }
     let in_vert_count = in_vert_count as usize;
-- 
2.43.0


From ee8ba1a3d680a1ef982a43f24bc445d9347823e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 14/15] fix: rasterize into fields wider than 32767 cells and
 into fields without columns

---
 crates/rerecast/src/rasterize.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index 326dc83..c428c4f 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,20 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        let w = self.width as i32;
+        let h = self.height as i32;
+        if w == 0 || h == 0 {
+            // There are no columns to rasterize into.
+            return Ok(());
+        }
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +110,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From 8f15d39da38bd7a24b06a6311649ec44fc5b2e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:04 +0000
Subject: [PATCH 15/15] fix: rasterizing at the very top of the height range no
 longer panics

---
 crates/rerecast/src/rasterize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index c428c4f..86706f1 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -160,7 +160,7 @@ impl Heightfield {
 
                 // Snap the span to the heightfield height grid.
                 let span_min_cell_index = ((span_min * inverse_cell_height).floor() as i32)
-                    .clamp(0, Span::MAX_HEIGHT as i32)
+                    .clamp(0, Span::MAX_HEIGHT as i32 - 1)
                     as u16;
                 let span_max_cell_index = ((span_max * inverse_cell_height).ceil() as i32)
                     .clamp(span_min_cell_index as i32 + 1, Span::MAX_HEIGHT as i32)
-- 
2.43.0


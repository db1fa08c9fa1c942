From 970abde8e401f822f8665cd3c318d88efcfacc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 01/16] fix: connect the highest layer that fits a span's
 connection slot

A neighbour in layer 62 was neither connected nor reported: the error is
only raised for layers above MAX_LAYERS, but the connection was already
refused at MAX_LAYERS itself.
---
 crates/rerecast/src/compact_heightfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 8e590a7..6c491c0 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -228,7 +228,7 @@ impl Heightfield {
                             }
                             // Mark direction as walkable.
                             let layer_index = k as i32 - neighbor_cell.index() as i32;
-                            if layer_index < 0 || layer_index >= MAX_LAYERS as i32 {
+                            if layer_index < 0 || layer_index > MAX_LAYERS as i32 {
                                 max_layer_index = max_layer_index.max(layer_index as u32);
                                 continue;
                             }
-- 
2.43.0


From 65cf94acde53716bf7dcfa4ebb9c13cec467caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:39 +0000
Subject: [PATCH 02/16] fix: erode agents wider than 127 cells by their whole
 radius

---
 crates/rerecast/src/erosion.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/erosion.rs b/crates/rerecast/src/erosion.rs
index c14d2b6..b96cfe0 100644
--- a/crates/rerecast/src/erosion.rs
+++ b/crates/rerecast/src/erosion.rs
@@ -6,7 +6,7 @@ use crate::{
 impl CompactHeightfield {
     /// Erode the walkable area by agent radius.
     pub fn erode_walkable_area(&mut self, erosion_radius: u16) {
-        let mut distance_to_boundary = vec![u8::MAX; self.spans.len()];
+        let mut distance_to_boundary = vec![u16::MAX; self.spans.len()];
 
         // Mark boundary cells.
         for z in 0..self.height {
@@ -49,7 +49,7 @@ impl CompactHeightfield {
             }
         }
 
-        let mut new_distance: u8;
+        let mut new_distance: u16;
 
         // Pass 1
         for z in 0..self.height {
@@ -163,8 +163,7 @@ impl CompactHeightfield {
             }
         }
 
-        // Jan: This just wraps on overflow. Is that intentional???
-        let min_boundary_distance = (erosion_radius * 2) as u8;
+        let min_boundary_distance = erosion_radius.saturating_mul(2);
         #[expect(
             clippy::needless_range_loop,
             reason = "lol the alternative suggestion is really unreadable"
-- 
2.43.0


From c00a8a53aa0f0d1aa06a0a7338dd29a8946c03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 03/16] fix: rasterise onto grids wider than 32767 cells

---
 crates/rerecast/src/rasterize.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index ee844e8..fcf5b94 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -46,16 +46,16 @@ impl Heightfield {
         let inverse_cell_size = 1.0 / self.cell_size;
         let inverse_cell_height = 1.0 / self.cell_height;
 
-        let w = self.width as i16;
-        let h = self.height as i16;
+        let w = self.width as i32;
+        let h = self.height as i32;
         // The height of the heightfield AABB
         let by = self.aabb.max[1] - self.aabb.min[1];
 
         // Calculate the footprint of the triangle on the grid's z-axis
         // z0 is the first z cell that the triangle touches
         // z1 is the last z cell that the triangle touches
-        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
-        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i16;
+        let z0 = ((aabb.min[2] - self.aabb.min[2]) * inverse_cell_size) as i32;
+        let z1 = ((aabb.max[2] - self.aabb.min[2]) * inverse_cell_size) as i32;
 
         // use -1 rather than 0 to cut the polygon properly at the start of the tile
         let z0 = z0.clamp(-1, h - 1);
@@ -106,8 +106,8 @@ impl Heightfield {
                 min_x = min_x.min(in_row[i as usize].x);
                 max_x = max_x.max(in_row[i as usize].x);
             }
-            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i16;
-            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i16;
+            let x0 = ((min_x - self.aabb.min[0]) * inverse_cell_size) as i32;
+            let x1 = ((max_x - self.aabb.min[0]) * inverse_cell_size) as i32;
             if x1 < 0 || x0 >= w {
                 continue;
             }
-- 
2.43.0


From a4e0a6918825a9a767ca2be92fc0df087ff89e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 04/16] fix: report heightfields with more than 65535 cells
 along an axis

---
 crates/rerecast/src/heightfield.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/rerecast/src/heightfield.rs b/crates/rerecast/src/heightfield.rs
index 392a409..740e122 100644
--- a/crates/rerecast/src/heightfield.rs
+++ b/crates/rerecast/src/heightfield.rs
@@ -254,14 +254,14 @@ pub struct HeightfieldBuilder {
 impl HeightfieldBuilder {
     /// Builds the heightfield.
     ///
-    /// # Panics
+    /// # Errors
     ///
-    /// Panics if the column count is above `usize::MAX`.
+    /// Returns an error if the width or height in cells is above `u16::MAX`.
     pub fn build(self) -> Result<Heightfield, HeightfieldBuilderError> {
         let width = (self.aabb.max.x - self.aabb.min.x) / self.cell_size + 0.5;
         let height = (self.aabb.max.z - self.aabb.min.z) / self.cell_size + 0.5;
         let column_count = width as u128 * height as u128;
-        if column_count > usize::MAX as u128 {
+        if width as u128 > u16::MAX as u128 || height as u128 > u16::MAX as u128 {
             return Err(HeightfieldBuilderError::ColumnCountTooLarge { width, height });
         }
         let column_count = column_count as usize;
@@ -281,7 +281,7 @@ impl HeightfieldBuilder {
 #[derive(Error, Debug)]
 pub enum HeightfieldBuilderError {
     /// Happens when the column count is too large.
-    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}", column_count = width * height, max = usize::MAX)]
+    #[error("Column count (width*height) is too large, got {width}*{height}={column_count} but max is {max}*{max}", column_count = width * height, max = u16::MAX)]
     ColumnCountTooLarge {
         /// The width of the heightfield along the x-axis in cell units
         width: f32,
-- 
2.43.0


From 21c273bc74bf95039f15dc54063b3c738dcd0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:01 +0000
Subject: [PATCH 05/16] fix: report more regions than ids below the border flag

---
 crates/rerecast/src/watershed_build_regions.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/watershed_build_regions.rs b/crates/rerecast/src/watershed_build_regions.rs
index 3bedbe0..e06cb4b 100644
--- a/crates/rerecast/src/watershed_build_regions.rs
+++ b/crates/rerecast/src/watershed_build_regions.rs
@@ -129,7 +129,8 @@ impl CompactHeightfield {
                         &mut stack,
                     )
                 {
-                    if region_id == RegionId::MAX {
+                    // Ids with the border flag are reserved for border regions.
+                    if region_id.bits() + 1 >= RegionId::BORDER_REGION.bits() {
                         return Err(BuildRegionsError::RegionIdOverflow);
                     }
                     region_id += 1;
-- 
2.43.0


From cc8bfd71eac4a10681c3bde8a5d768cb77a73c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 06/16] fix: report columns with more than 255 walkable spans

---
 crates/rerecast/src/compact_heightfield.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rerecast/src/compact_heightfield.rs b/crates/rerecast/src/compact_heightfield.rs
index 6c491c0..f445be0 100644
--- a/crates/rerecast/src/compact_heightfield.rs
+++ b/crates/rerecast/src/compact_heightfield.rs
@@ -149,6 +149,7 @@ impl Heightfield {
         };
         compact_heightfield.aabb.max.y += walkable_height as f32 * compact_heightfield.cell_height;
 
+        const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
         let mut cell_index = 0_usize;
         // Fill in cells and spans
         for z in 0..self.height {
@@ -170,6 +171,12 @@ impl Heightfield {
                     if !span.area.is_walkable() {
                         continue;
                     }
+                    if cell.count() == u8::MAX {
+                        return Err(CompactHeightfieldError::TooManyLayers {
+                            max_layer_index: MAX_LAYERS,
+                            layer_index: u8::MAX as u32,
+                        });
+                    }
                     let bot = span.max;
                     let top = span
                         .next
@@ -186,7 +193,6 @@ impl Heightfield {
         }
 
         // Find neighbour connections
-        const MAX_LAYERS: u8 = CompactSpan::NOT_CONNECTED - 1;
         let mut max_layer_index = 0_u32;
         for z in 0..self.height {
             for x in 0..self.width {
-- 
2.43.0


From a12d6664e6d66cc5bbfb7f950013095f08373856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 07/16] fix: skip references to meshes, materials and images a
 response does not contain

---
 .../src/get_navmesh_input.rs                   | 18 +++++++++++++-----
 .../serialized_standard_material.rs            |  6 +++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
index 705830c..798d792 100644
--- a/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
+++ b/crates/bevy_rerecast_editor/src/get_navmesh_input.rs
@@ -101,8 +101,14 @@ fn fetch_navmesh_input(
         let mesh = if let Some(mesh_handle) = mesh_indices.get(&visual.mesh) {
             mesh_handle.clone()
         } else {
-            let serialized_mesh = response.meshes[visual.mesh as usize].clone();
-            let mesh = serialized_mesh.into_mesh();
+            let Some(serialized_mesh) = response.meshes.get(visual.mesh as usize) else {
+                warn!(
+                    "Failed to load visual mesh: no mesh at index {}",
+                    visual.mesh
+                );
+                continue;
+            };
+            let mesh = serialized_mesh.clone().into_mesh();
             let handle = meshes.add(mesh);
             mesh_indices.insert(visual.mesh, handle.clone());
             handle
@@ -111,9 +117,8 @@ fn fetch_navmesh_input(
         let material = if let Some(index) = visual.material {
             if let Some(material_handle) = material_indices.get(&index) {
                 material_handle.clone()
-            } else {
-                let serialized_material = response.materials[index as usize].clone();
-                let material = serialized_material.into_standard_material(
+            } else if let Some(serialized_material) = response.materials.get(index as usize) {
+                let material = serialized_material.clone().into_standard_material(
                     &mut image_indices,
                     &mut images,
                     &response.images,
@@ -121,6 +126,9 @@ fn fetch_navmesh_input(
                 let handle = materials.add(material.clone());
                 material_indices.insert(index, handle.clone());
                 handle
+            } else {
+                warn!("Failed to load material: no material at index {index}");
+                fallback_material.clone()
             }
         } else {
             fallback_material.clone()
diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs
index 33cf663..70051f4 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_standard_material.rs
@@ -275,7 +275,11 @@ impl SerializedStandardMaterial {
             let handle = if let Some(handle) = indices.get(&index) {
                 handle.clone()
             } else {
-                let image = serialized_images[index as usize].clone().into_image();
+                let Some(image) = serialized_images.get(index as usize) else {
+                    tracing::warn!("Failed to deserialize material: no image at index {index}");
+                    return None;
+                };
+                let image = image.clone().into_image();
                 let handle = images.add(image);
                 indices.insert(index, handle.clone());
                 handle
-- 
2.43.0


From 4d2bca8f7042b03f1b3309744cab40c2fdfddb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 08/16] fix: skip received mesh attributes whose values have
 the wrong format

---
 .../src/transmission/serialized_mesh.rs                   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs
index 0e0c11c..9af8243 100644
--- a/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs
+++ b/crates/bevy_rerecast_editor_integration/src/transmission/serialized_mesh.rs
@@ -68,6 +68,14 @@ impl SerializedMesh {
                 );
                 continue;
             };
+            let values = VertexAttributeValues::from(values);
+            if attribute.format != (&values).into() {
+                tracing::warn!(
+                    "Failed to deserialize mesh: wrong format for attribute {}",
+                    attribute.name
+                );
+                continue;
+            }
             mesh.insert_attribute(*attribute, values);
         }
         if let Some(indices) = self.indices {
-- 
2.43.0


From 4f7829a00eb580405b77615eb46712fea479551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:48 +0000
Subject: [PATCH 09/16] fix: place each part of a compound collider by its own
 pose

---
 crates/avian_rerecast/src/collider_to_trimesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/avian_rerecast/src/collider_to_trimesh.rs b/crates/avian_rerecast/src/collider_to_trimesh.rs
index d8c84e2..6c6e662 100644
--- a/crates/avian_rerecast/src/collider_to_trimesh.rs
+++ b/crates/avian_rerecast/src/collider_to_trimesh.rs
@@ -93,7 +93,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
     compound.shapes().iter().fold(
         TriMesh::default(),
         |mut compound_trimesh, (isometry, shape)| {
-            let Some(trimesh) =
+            let Some(mut trimesh) =
                 // No need to track recursive compounds because parry panics on nested compounds anyways lol
                 shape_to_trimesh(&shape.as_typed_shape(), subdivisions)
             else {
@@ -105,7 +105,7 @@ fn compound_trimesh(compound: &Compound, subdivisions: u32) -> TriMesh {
                 rotation: Quat::from(isometry.rotation),
             };
 
-            apply_isometry(&mut compound_trimesh, isometry);
+            apply_isometry(&mut trimesh, isometry);
             compound_trimesh.extend(trimesh);
             compound_trimesh
         },
-- 
2.43.0


From c0d488e1bcc7bb78f834d79473210fcce125187f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:30 +0000
Subject: [PATCH 10/16] fix: clear the counts when there is no polygon left to
 divide

---
 crates/rerecast/src/rasterize.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/rerecast/src/rasterize.rs b/crates/rerecast/src/rasterize.rs
index fcf5b94..e19f472 100644
--- a/crates/rerecast/src/rasterize.rs
+++ b/crates/rerecast/src/rasterize.rs
@@ -207,6 +207,9 @@ fn divide_poly(
     if in_vert_count > 12 {
         return Err(PolygonDivisionError::TooManyVertices(in_vert_count));
     } else if in_vert_count == 0 {
+        // Nothing is left to divide, so the outputs must not keep the counts of an earlier division.
+        *out_vert_count_1 = 0;
+        *out_vert_count_2 = 0;
         return Ok(());
     }
     let in_vert_count = in_vert_count as usize;
-- 
2.43.0


From 2f64b49550e4586f18365d77ae63bd990c357756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 11/16] fix: cut the region list to the polygons, like the
 areas

---
 crates/rerecast/src/poly_mesh.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 9e0fc62..42ba2b7 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -176,6 +176,7 @@ impl From<InternalPolygonNavmesh> for PolygonNavmesh {
             polygon_neighbors.extend_from_slice(neighbors);
         }
         value.vertices.truncate(value.nvertices as usize);
+        value.regions.truncate(value.npolys);
         value.areas.truncate(value.npolys);
         PolygonNavmesh {
             vertices: value.vertices,
-- 
2.43.0


From 8e10281cca73e2de4f3eeee910d36400d08cbd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 12/16] fix: pair a polygon's first vertex with its last when
 removing a vertex

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 42ba2b7..4894bd9 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -560,7 +560,7 @@ impl InternalPolygonNavmesh {
                     continue;
                 }
                 // Collect edges which does not touch the removed vertex.
-                for (j, k) in (0..nv).zip(nv - 1..) {
+                for (j, k) in (0..nv).map(|j| (j, prev(j, nv))) {
                     if p[j] != rem && p[k] != rem {
                         let e = &mut edges[nedges];
                         e.polygon1 = p[k];
@@ -823,7 +823,7 @@ impl InternalPolygonNavmesh {
             let nv = count_poly_verts(p, nvp);
 
             // Collect edges which touches the removed vertex.
-            for (j, k) in (0..nv).zip((nv - 1)..) {
+            for (j, k) in (0..nv).map(|j| (j, prev(j, nv))) {
                 if !(p[j] == rem || p[k] == rem) {
                     continue;
                 }
-- 
2.43.0


From 696c778f5f86456e6bb1c6ed6965d2531572af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 13/16] fix: advance past edges that do not extend the hole

---
 crates/rerecast/src/poly_mesh.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 4894bd9..d92bd15 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -634,20 +634,20 @@ impl InternalPolygonNavmesh {
                     push_front(r, &mut hreg, &mut nhreg);
                     push_front(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 } else if hole[nhole - 1] == ea {
                     // The segment matches the end of the hole boundary.
                     push_back(eb, &mut hole, &mut nhole);
                     push_back(r, &mut hreg, &mut nhreg);
                     push_back(a, &mut harea, &mut nharea);
                     add = true;
-                    i += 1;
                 }
                 if add {
                     // The edge segment was added, remove it.
                     edges[i] = edges[nedges - 1].clone();
                     nedges -= 1;
                     match_ = true;
+                } else {
+                    i += 1;
                 }
             }
             if !match_ {
-- 
2.43.0


From d034e5d63bda9b8782c5784f26acd8ee04134d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 14/16] fix: count open edges among the edges found only

---
 crates/rerecast/src/poly_mesh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index d92bd15..899b30d 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -855,7 +855,7 @@ impl InternalPolygonNavmesh {
         // There should be no more than 2 open edges.
         // This catches the case that two non-adjacent polygons
         // share the removed vertex. In that case, do not remove the vertex.
-        let num_open_edges = edges.iter().filter(|e| e[2] < 2).count();
+        let num_open_edges = edges.iter().take(nedges).filter(|e| e[2] < 2).count();
         num_open_edges <= 2
     }
 }
-- 
2.43.0


From 6ea351983c4aa3d3310ab10a99dc576716ea9b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:17 +0000
Subject: [PATCH 15/16] fix: do not step below the first vertex after removing
 it

---
 crates/rerecast/src/poly_mesh.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/poly_mesh.rs b/crates/rerecast/src/poly_mesh.rs
index 899b30d..6866dca 100644
--- a/crates/rerecast/src/poly_mesh.rs
+++ b/crates/rerecast/src/poly_mesh.rs
@@ -378,10 +378,9 @@ impl ContourSet {
                 // Note: nverts is already decremented inside removeVertex()!
                 // Fixup vertex flags
                 vflags.copy_within((i + 1)..=mesh.nvertices as usize, i);
-                i -= 1;
+            } else {
+                i += 1;
             }
-
-            i += 1;
         }
         // Calculate adjacency.
         mesh.build_mesh_adjacency()?;
-- 
2.43.0


From 697e4c98b1af8d3168265c3b71d7f2302bf6e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:15 +0000
Subject: [PATCH 16/16] fix: take polygon corners from the polygon mesh when
 seeding height data

---
 crates/rerecast/src/detail_mesh.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rerecast/src/detail_mesh.rs b/crates/rerecast/src/detail_mesh.rs
index b780369..eaf8677 100644
--- a/crates/rerecast/src/detail_mesh.rs
+++ b/crates/rerecast/src/detail_mesh.rs
@@ -241,7 +241,7 @@ impl DetailNavmesh {
                 chf,
                 p,
                 npoly,
-                &verts,
+                &mesh.vertices,
                 border_size,
                 &mut arr,
                 mesh.regions[i],
@@ -1237,7 +1237,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         queue: &mut Vec<(i32, i32, usize)>,
         region: RegionId,
@@ -1346,7 +1346,7 @@ impl HeightPatch {
         chf: &CompactHeightfield,
         poly: &[u16],
         npoly: usize,
-        verts: &[Vec3A],
+        verts: &[U16Vec3],
         bs: u16,
         array: &mut Vec<(i32, i32, usize)>,
     ) {
-- 
2.43.0


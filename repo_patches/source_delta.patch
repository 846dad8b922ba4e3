From ae8441e9831c5f3b93c97ac9c8aee401105e8545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 1/6] fix: restore of a solution with more placed copies than
 demanded

The difference was taken in usize and underflowed when an item is placed more
often than its demand.
---
 jagua-rs/src/entities/problems/bin_packing.rs   | 3 ++-
 jagua-rs/src/entities/problems/strip_packing.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..0c0192a 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -287,7 +287,8 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty =
+                    self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..44dd0ef 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From 0b56f67ccc50634620e1daeb3c570bf9a92eb0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 2/6] fix: square the distance to the border for points inside
 an AARectangle

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..1e27dc7 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance * min_distance)
             }
         }
     }
-- 
2.43.0


From 6ecb8fcd0581082b513680ecb6347c45da60cba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 3/6] fix: bounding circle of a circle that contains the ones
 before it

The result did not contain such a circle, and for concentric circles a
degenerate edge was created (panic).
---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..c53c225 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius >= distance_between_centers + bounding_circle.radius {
+                // bounding circle fully contained in circle, replace
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From d98f8557e93e5ec14d177e57fbc9dddd2c4ae2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 4/6] fix: convex hull of points that share an x coordinate

The monotone chain needs the points sorted lexicographically; vertices of the
hull were lost when several points have the same x.
---
 jagua-rs/src/geometry/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..56763fa 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,10 +31,10 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
+    //sort the points by x coordinate, then by y coordinate
     points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
+        let (a_xy, b_xy) = ((a.0, a.1), (b.0, b.1));
+        a_xy.partial_cmp(&b_xy).unwrap()
     });
 
     let mut lower_hull = points
-- 
2.43.0


From f611ab3923ce29cf320e17e28f8a835800bbad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:10 +0000
Subject: [PATCH 5/6] fix: collect all hazards in a quadtree node entirely
 occupied by one of them

---
 jagua-rs/src/collision_detection/quadtree/qt_node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..38cb23a 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -186,7 +186,11 @@ impl QTNode {
                 false => (),
                 true => match strongest_hazard.presence {
                     QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
+                    QTHazPresence::Entire => {
+                        detected.push(strongest_hazard.entity);
+                        //other hazards in this node can collide as well
+                        self.collect_collisions(entity, detected)
+                    }
                     QTHazPresence::Partial(_) => match &self.children {
                         Some(children) => {
                             //Check if any of the children intersect with the entity
-- 
2.43.0


From 5b9aacfd150f169a5bd312507e9133817d30a97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:21 +0000
Subject: [PATCH 6/6] fix: restore the bin of a layout that was changed after
 the snapshot

The quadtree and static hazards of the other bin were kept, and the layout
reported the other bin.
---
 jagua-rs/src/entities/layout.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..60885cf 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,11 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            // the bin was changed since the snapshot was taken
+            self.cde = layout_snapshot.bin.base_cde.as_ref().clone();
+        }
+        self.bin = layout_snapshot.bin.clone();
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


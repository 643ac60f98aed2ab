From 61e3e4a9082d31678f552944c8021b1a6c16bbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 01/10] fix: fill the concave node itself in the right-hand
 convex edge event

fill_right_convex_edge_event found the *next* node to be concave but filled
the current one, unlike its left-hand mirror (and the C++ original). That
filled convex corners with inverted triangles, and for some valid polygons
never changed the front again, so triangulate() did not return.
---
 src/sweeper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index e0b9341..a843f4d 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -695,7 +695,7 @@ impl Sweeper<'_> {
         .is_ccw()
         {
             // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
+            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
         } else {
             // convex
             // next above or below edge?
-- 
2.43.0


From e2c3227fef925000ef022620015797a50f11bd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 02/10] fix: return read errors from PlainFileLoader instead of
 panicking

---
 src/loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader.rs b/src/loader.rs
index 71684cf..574f002 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -30,7 +30,7 @@ impl Loader for PlainFileLoader {
     fn load(&mut self, path: &str) -> Result<Builder, LoaderError> {
         let mut f = std::fs::File::options().read(true).open(path)?;
         let mut value = "".to_string();
-        std::io::Read::read_to_string(&mut f, &mut value).unwrap();
+        std::io::Read::read_to_string(&mut f, &mut value)?;
 
         let mut state = ParseState::default();
         let mut polygon = vec![];
-- 
2.43.0


From 150bb63d5addd7306fc38e8df7d5494d5cd8a458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 03/10] fix: return malformed coordinate lines as errors from
 PlainFileLoader

---
 src/loader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index 574f002..90878cc 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -75,10 +75,14 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
         return Ok(None);
     }
     let mut iter = line.split_whitespace();
-    let x = iter.next().unwrap();
-    let y = iter.next().unwrap();
-    let x = x.parse::<Float>().unwrap();
-    let y = y.parse::<Float>().unwrap();
+    let mut coordinate = || -> Result<Float, Box<dyn std::error::Error>> {
+        let value = iter
+            .next()
+            .ok_or_else(|| format!("expected two coordinates: {line:?}"))?;
+        Ok(value.parse::<Float>()?)
+    };
+    let x = coordinate()?;
+    let y = coordinate()?;
 
     Ok(Some(Point::new(x, y)))
 }
-- 
2.43.0


From 375bf5b237b7d90dbfaa652daf4f5707294df123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 04/10] fix: return repeated ring points as errors from
 PlainFileLoader

---
 src/loader.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/loader.rs b/src/loader.rs
index 90878cc..30cfedd 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -64,6 +64,11 @@ impl Loader for PlainFileLoader {
             }
         }
 
+        check_ring(&polygon)?;
+        for hole in &holes {
+            check_ring(hole)?;
+        }
+
         Ok(Builder::new(polygon)
             .add_holes(holes)
             .add_steiner_points(steiner_points))
@@ -86,3 +91,17 @@ fn parse_point(line: &str) -> Result<Option<Point>, LoaderError> {
 
     Ok(Some(Point::new(x, y)))
 }
+
+/// An edge needs two different end points, `Builder` panics without
+fn check_ring(ring: &[Point]) -> Result<(), LoaderError> {
+    for (idx, point) in ring.iter().enumerate() {
+        let next = &ring[(idx + 1) % ring.len()];
+        if point.eq(next) {
+            return Err(LoaderError::Inner(
+                format!("repeat points: {} {}", point.x, point.y).into(),
+            ));
+        }
+    }
+
+    Ok(())
+}
-- 
2.43.0


From a6db08a7ef7d356a9d395a078014d9ecefb6cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:57 +0000
Subject: [PATCH 05/10] fix: check identifiers passed to safe TriangleStore and
 AdvancingFront lookups

---
 src/advancing_front/vec_backed.rs | 2 +-
 src/triangles.rs                  | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/advancing_front/vec_backed.rs b/src/advancing_front/vec_backed.rs
index 7029013..b760676 100644
--- a/src/advancing_front/vec_backed.rs
+++ b/src/advancing_front/vec_backed.rs
@@ -200,7 +200,7 @@ impl AdvancingFront {
     pub fn locate_node(&self, point: Point) -> Option<NodeRef> {
         let key = PointKey(point);
         let idx = match self.search_by_key(&key) {
-            Err(idx) => idx - 1,
+            Err(idx) => idx.checked_sub(1)?,
             Ok(idx) => idx,
         };
         // safety: idx is checked
diff --git a/src/triangles.rs b/src/triangles.rs
index 1d69085..84584f7 100644
--- a/src/triangles.rs
+++ b/src/triangles.rs
@@ -68,15 +68,12 @@ impl TriangleStore {
     }
 
     pub fn get(&self, id: TriangleId) -> Option<&InnerTriangle> {
-        if id == TriangleId::INVALID {
-            return None;
-        }
-        unsafe { Some(self.triangles.get_unchecked(id.as_usize())) }
+        self.triangles.get(id.as_usize())
     }
 
     pub fn get_unchecked(&self, id: TriangleId) -> &InnerTriangle {
         debug_assert!(!id.invalid());
-        unsafe { self.triangles.get_unchecked(id.as_usize()) }
+        &self.triangles[id.as_usize()]
     }
 
     pub fn get_mut(&mut self, id: TriangleId) -> Option<&mut InnerTriangle> {
-- 
2.43.0


From 6472353fe3ee4e0e39ae7ae562981217ffdd9f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 06/10] fix: decide flips and left fills by exact sign, so
 small coordinates terminate

---
 src/sweeper.rs |  2 +-
 src/utils.rs   | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index a843f4d..bdd453b 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -140,7 +140,7 @@ impl Sweeper<'_> {
 
         // in middle case, the node's x should be less than point'x
         // in left case, they are same.
-        if point.x <= node_point.x + Float::EPSILON {
+        if point.x <= node_point.x {
             self.fill_one(node_id, observer);
         }
 
diff --git a/src/utils.rs b/src/utils.rs
index 5617e0f..957b747 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,13 +61,15 @@ pub fn in_circle(pa: Point, pb: Point, pc: Point, pd: Point) -> bool {
 }
 
 pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
-    let oadb = (a.x - b.x) * (d.y - b.y) - (d.x - b.x) * (a.y - b.y);
-    if oadb >= -Float::EPSILON {
+    let coord = |p: Point| robust::Coord { x: p.x, y: p.y };
+
+    let oadb = robust::orient2d(coord(a), coord(d), coord(b));
+    if oadb >= 0. {
         return false;
     }
 
-    let oadc = (a.x - c.x) * (d.y - c.y) - (d.x - c.x) * (a.y - c.y);
-    if oadc <= Float::EPSILON {
+    let oadc = robust::orient2d(coord(a), coord(d), coord(c));
+    if oadc <= 0. {
         return false;
     }
 
-- 
2.43.0


From cce52082534e8452cae1dbea3557c63178810c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:16 +0000
Subject: [PATCH 07/10] fix: take the sign of hole angles exactly, so no
 inverted triangle is filled in

---
 src/utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 957b747..2cc2460 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -78,7 +78,7 @@ pub fn in_scan_area(a: Point, b: Point, c: Point, d: Point) -> bool {
 
 #[derive(Debug, Clone, Copy)]
 pub struct Angle {
-    dy: Float,
+    dy: f64,
     dx: Float,
 }
 
@@ -91,7 +91,13 @@ impl Angle {
         let day = a.y - oy;
         let dbx = b.x - ox;
         let dby = b.y - oy;
-        let y = dax * dby - day * dbx;
+        // only the signs matter, and the one of the cross product must be exact: a hole that is
+        // taken for convex when it is not would be filled with an inverted triangle
+        let y = robust::orient2d(
+            robust::Coord { x: ox, y: oy },
+            robust::Coord { x: a.x, y: a.y },
+            robust::Coord { x: b.x, y: b.y },
+        );
         let x = dax * dbx + day * dby;
         Angle { dy: y, dx: x }
     }
-- 
2.43.0


From cda54d3bc71a379f035a77b5b830e887ba7b91eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:15 +0000
Subject: [PATCH 08/10] fix: fill below an edge in loops, so long chains of
 nodes do not overflow the stack

---
 src/sweeper.rs | 225 ++++++++++++++++++++++++++-----------------------
 1 file changed, 120 insertions(+), 105 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index bdd453b..3bcf7a8 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -617,61 +617,64 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        if node_id.point().x >= edge.p.x {
-            return None;
-        }
+        while node_id.point().x < edge.p.x {
+            let node = self.advancing_front.get_node_with_id(node_id).unwrap();
 
-        let node = self.advancing_front.get_node_with_id(node_id).unwrap();
+            let next_node = node.next().unwrap();
+            let next_next_node = next_node.next().unwrap();
 
-        let next_node = node.next().unwrap();
-        let next_next_node = next_node.next().unwrap();
+            if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
+                // concave
+                self.fill_right_concave_edge_event(edge, node_id, observer);
+                return Some(());
+            }
 
-        if orient_2d(node.point(), next_node.point(), next_next_node.point()).is_ccw() {
-            // concave
-            self.fill_right_concave_edge_event(edge, node_id, observer);
-        } else {
             // convex
             self.fill_right_convex_edge_event(edge, node_id, observer)?;
 
             // retry this one
-            self.fill_right_below_edge_event(edge, node_id, observer);
         }
 
-        Some(())
+        None
     }
 
-    /// recursively fill concave nodes
+    /// repeatedly fill concave nodes
     fn fill_right_concave_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
-        let next_id = {
-            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
-            let next_id = next_node.get_node_id();
-            match self.fill_one(next_id, observer) {
-                None => {
-                    // nothing changed
-                    next_id
+        loop {
+            let next_id = {
+                let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
+                let next_id = next_node.get_node_id();
+                match self.fill_one(next_id, observer) {
+                    None => {
+                        // nothing changed
+                        next_id
+                    }
+                    Some(fill_one) => fill_one.next,
                 }
-                Some(fill_one) => fill_one.next,
-            }
-        };
+            };
 
-        if next_id.point_id() != edge.p_id() {
-            // next above or below edge?
-            if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
-                let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();
+            if next_id.point_id() != edge.p_id() {
+                // next above or below edge?
+                if orient_2d(edge.q, next_id.point(), edge.p).is_ccw() {
+                    let next_next_node = self.advancing_front.locate_next_node(next_id).unwrap();
 
-                //  below
-                if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw() {
-                    // next is concave
-                    self.fill_right_concave_edge_event(edge, node_id, observer);
-                } else {
-                    // next is convex
+                    //  below
+                    if orient_2d(node_id.point(), next_id.point(), next_next_node.point()).is_ccw()
+                    {
+                        // next is concave
+                        continue;
+                    } else {
+                        // next is convex
+                    }
                 }
             }
+
+            break;
         }
     }
 
@@ -680,34 +683,37 @@ impl Sweeper<'_> {
     fn fill_right_convex_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
-        node_id: NodeId,
+        mut node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
-        let next_next_node = next_node.next().unwrap();
-        let next_next_next_node = next_next_node.next()?;
-        // next concave or convex?
-        if orient_2d(
-            next_node.point(),
-            next_next_node.point(),
-            next_next_next_node.point(),
-        )
-        .is_ccw()
-        {
-            // concave
-            self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
-        } else {
-            // convex
-            // next above or below edge?
-            if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
-                // Below
-                self.fill_right_convex_edge_event(edge, next_node.get_node_id(), observer)?;
+        loop {
+            let next_node = self.advancing_front.locate_next_node(node_id).unwrap();
+            let next_next_node = next_node.next().unwrap();
+            let next_next_next_node = next_next_node.next()?;
+            // next concave or convex?
+            if orient_2d(
+                next_node.point(),
+                next_next_node.point(),
+                next_next_next_node.point(),
+            )
+            .is_ccw()
+            {
+                // concave
+                self.fill_right_concave_edge_event(edge, next_node.get_node_id(), observer);
             } else {
-                // Above
+                // convex
+                // next above or below edge?
+                if orient_2d(edge.q, next_next_node.point(), edge.p).is_ccw() {
+                    // Below
+                    node_id = next_node.get_node_id();
+                    continue;
+                } else {
+                    // Above
+                }
             }
-        }
 
-        Some(())
+            return Some(());
+        }
     }
 
     fn fill_left_above_edge_event(
@@ -737,22 +743,21 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        if node_id.point().x > edge.p.x {
+        while node_id.point().x > edge.p.x {
             let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
             let prev_prev_node = prev_node.prev().unwrap();
             if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
                 self.fill_left_concave_edge_event(edge, node_id, observer);
-            } else {
-                // convex
-                self.fill_left_convex_edge_event(edge, node_id, observer)?;
-
-                // retry this one
-                self.fill_left_below_edge_event(edge, node_id, observer);
+                return Some(());
             }
-            Some(())
-        } else {
-            None
+
+            // convex
+            self.fill_left_convex_edge_event(edge, node_id, observer)?;
+
+            // retry this one
         }
+
+        None
     }
 
     // if nothing changed, returns None
@@ -760,34 +765,38 @@ impl Sweeper<'_> {
     fn fill_left_convex_edge_event(
         &mut self,
         edge: &ConstrainedEdge,
-        node_id: NodeId,
+        mut node_id: NodeId,
         observer: &mut dyn Observer,
     ) -> Option<()> {
-        // next concave or convex?
-        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
-        let prev_prev_node = prev_node.prev().unwrap();
-        let prev_prev_prev_node = prev_prev_node.prev()?;
+        loop {
+            // next concave or convex?
+            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
+            let prev_prev_node = prev_node.prev().unwrap();
+            let prev_prev_prev_node = prev_prev_node.prev()?;
 
-        if orient_2d(
-            prev_node.point(),
-            prev_prev_node.point(),
-            prev_prev_prev_node.point(),
-        )
-        .is_cw()
-        {
-            // concave
-            self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
-        } else {
-            // convex
-            // next above or below edge?
-            if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
-                // below
-                self.fill_left_convex_edge_event(edge, prev_node.get_node_id(), observer)?;
+            if orient_2d(
+                prev_node.point(),
+                prev_prev_node.point(),
+                prev_prev_prev_node.point(),
+            )
+            .is_cw()
+            {
+                // concave
+                self.fill_left_concave_edge_event(edge, prev_node.get_node_id(), observer);
             } else {
-                // above
+                // convex
+                // next above or below edge?
+                if orient_2d(edge.q, prev_prev_node.point(), edge.p).is_cw() {
+                    // below
+                    node_id = prev_node.get_node_id();
+                    continue;
+                } else {
+                    // above
+                }
             }
+
+            return Some(());
         }
-        Some(())
     }
 
     fn fill_left_concave_edge_event(
@@ -796,28 +805,34 @@ impl Sweeper<'_> {
         node_id: NodeId,
         observer: &mut dyn Observer,
     ) {
-        let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
+        loop {
+            let prev_node = self.advancing_front.locate_prev_node(node_id).unwrap();
 
-        let prev_node_id = prev_node.get_node_id();
+            let prev_node_id = prev_node.get_node_id();
 
-        let prev_node_id = match self.fill_one(prev_node_id, observer) {
-            Some(fill_one) => fill_one.prev,
-            None => prev_node_id,
-        };
+            let prev_node_id = match self.fill_one(prev_node_id, observer) {
+                Some(fill_one) => fill_one.prev,
+                None => prev_node_id,
+            };
 
-        if prev_node_id.point_id() != edge.p_id() {
-            // next above or below edge?
-            if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
-                let prev_node = self.advancing_front.get_node_with_id(prev_node_id).unwrap();
-                // below
-                let prev_prev_node = prev_node.prev().unwrap();
-                if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point()).is_cw() {
-                    // next is concave
-                    self.fill_left_concave_edge_event(edge, node_id, observer);
-                } else {
-                    // next is convex
+            if prev_node_id.point_id() != edge.p_id() {
+                // next above or below edge?
+                if orient_2d(edge.q, prev_node_id.point(), edge.p).is_cw() {
+                    let prev_node = self.advancing_front.get_node_with_id(prev_node_id).unwrap();
+                    // below
+                    let prev_prev_node = prev_node.prev().unwrap();
+                    if orient_2d(node_id.point(), prev_node.point(), prev_prev_node.point())
+                        .is_cw()
+                    {
+                        // next is concave
+                        continue;
+                    } else {
+                        // next is convex
+                    }
                 }
             }
+
+            break;
         }
     }
 
-- 
2.43.0


From 504b1baeb151f2397f829b439348eea7f32c25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 09/10] fix: keep the steps of an edge event in a list, so
 edges across many triangles do not overflow the stack

---
 src/sweeper.rs | 161 +++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 136 insertions(+), 25 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 3bcf7a8..2745d4f 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -475,7 +475,7 @@ struct FillOne {
     next: NodeId,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone, Copy)]
 struct ConstrainedEdge {
     constrained_edge: Edge,
     p: Point,
@@ -507,6 +507,36 @@ impl ConstrainedEdge {
     }
 }
 
+/// What is left to do for an edge event. How many steps follow from one another depends on the
+/// input, so they are kept in a list instead of calling each other.
+enum EdgeTask {
+    /// `Sweeper::edge_event_process`
+    Process {
+        ep: PointId,
+        eq: PointId,
+        edge: ConstrainedEdge,
+        triangle_id: TriangleId,
+        p: PointId,
+    },
+    /// `Sweeper::flip_edge_event`
+    Flip {
+        ep: PointId,
+        eq: PointId,
+        edge: ConstrainedEdge,
+        triangle_id: TriangleId,
+        p: PointId,
+    },
+    /// `Sweeper::flip_scan_edge_event`
+    FlipScan {
+        ep: PointId,
+        eq: PointId,
+        edge: ConstrainedEdge,
+        flip_triangle_id: TriangleId,
+        t_id: TriangleId,
+        p: PointId,
+    },
+}
+
 /// EdgeEvent related methods
 impl Sweeper<'_> {
     fn edge_event(&mut self, edge: Edge, q: Point, observer: &mut dyn Observer) {
@@ -544,14 +574,18 @@ impl Sweeper<'_> {
 
         // this triangle crosses constraint so let's flippin start!
         let mut triangle_ids = std::mem::take(&mut self.triangle_id_queue);
+        let mut tasks = Vec::new();
         self.edge_event_process(
             edge.p,
             edge.q,
             &constrain_edge,
             triangle,
             edge.q,
-            &mut triangle_ids,
+            &mut tasks,
         );
+        while let Some(task) = tasks.pop() {
+            self.edge_task(task, &mut tasks, &mut triangle_ids);
+        }
 
         for triangle_id in triangle_ids.drain(..) {
             self.legalize(triangle_id, observer);
@@ -836,6 +870,39 @@ impl Sweeper<'_> {
         }
     }
 
+    /// Run one task, the last of `tasks` is the next to run
+    fn edge_task(
+        &mut self,
+        task: EdgeTask,
+        tasks: &mut Vec<EdgeTask>,
+        triangle_ids: &mut Vec<TriangleId>,
+    ) {
+        match task {
+            EdgeTask::Process {
+                ep,
+                eq,
+                edge,
+                triangle_id,
+                p,
+            } => self.edge_event_process(ep, eq, &edge, triangle_id, p, tasks),
+            EdgeTask::Flip {
+                ep,
+                eq,
+                edge,
+                triangle_id,
+                p,
+            } => self.flip_edge_event(ep, eq, &edge, triangle_id, p, tasks, triangle_ids),
+            EdgeTask::FlipScan {
+                ep,
+                eq,
+                edge,
+                flip_triangle_id,
+                t_id,
+                p,
+            } => self.flip_scan_edge_event(ep, eq, &edge, flip_triangle_id, t_id, p, tasks),
+        }
+    }
+
     fn edge_event_process(
         &mut self,
         ep: PointId,
@@ -843,7 +910,7 @@ impl Sweeper<'_> {
         constrain_edge: &ConstrainedEdge,
         triangle_id: TriangleId,
         p: PointId,
-        triangle_ids: &mut Vec<TriangleId>,
+        tasks: &mut Vec<EdgeTask>,
     ) {
         assert!(!triangle_id.invalid());
 
@@ -864,14 +931,13 @@ impl Sweeper<'_> {
                 triangle.set_constrained(edge_index, true);
 
                 let neighbor_across_t = triangle.neighbor_across(p);
-                self.edge_event_process(
+                tasks.push(EdgeTask::Process {
                     ep,
-                    p1,
-                    &constrain_edge.with_q(p1, self),
-                    neighbor_across_t,
-                    p1,
-                    triangle_ids,
-                );
+                    eq: p1,
+                    edge: constrain_edge.with_q(p1, self),
+                    triangle_id: neighbor_across_t,
+                    p: p1,
+                });
                 return;
             } else {
                 panic!("EdgeEvent - collinear points not supported")
@@ -889,14 +955,13 @@ impl Sweeper<'_> {
                 triangle.set_constrained(edge_index, true);
 
                 let neighbor_across_t = triangle.neighbor_across(p);
-                self.edge_event_process(
+                tasks.push(EdgeTask::Process {
                     ep,
-                    p2,
-                    &constrain_edge.with_q(p2, self),
-                    neighbor_across_t,
-                    p2,
-                    triangle_ids,
-                );
+                    eq: p2,
+                    edge: constrain_edge.with_q(p2, self),
+                    triangle_id: neighbor_across_t,
+                    p: p2,
+                });
 
                 return;
             } else {
@@ -913,9 +978,21 @@ impl Sweeper<'_> {
                 triangle.neighbor_cw(p)
             };
 
-            self.edge_event_process(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+            tasks.push(EdgeTask::Process {
+                ep,
+                eq,
+                edge: *constrain_edge,
+                triangle_id,
+                p,
+            });
         } else {
-            self.flip_edge_event(ep, eq, constrain_edge, triangle_id, p, triangle_ids);
+            tasks.push(EdgeTask::Flip {
+                ep,
+                eq,
+                edge: *constrain_edge,
+                triangle_id,
+                p,
+            });
         }
     }
 }
@@ -929,6 +1006,7 @@ impl Sweeper<'_> {
         edge: &ConstrainedEdge,
         triangle_id: TriangleId,
         p: PointId,
+        tasks: &mut Vec<EdgeTask>,
         legalize_queue: &mut Vec<TriangleId>,
     ) {
         let t = triangle_id.get(&self.triangles);
@@ -968,12 +1046,32 @@ impl Sweeper<'_> {
                 );
 
                 let t = Self::next_flip_triangle(o, triangle_id, ot_id, legalize_queue);
-                self.flip_edge_event(ep, eq, edge, t, p, legalize_queue);
+                tasks.push(EdgeTask::Flip {
+                    ep,
+                    eq,
+                    edge: *edge,
+                    triangle_id: t,
+                    p,
+                });
             }
         } else {
             let new_p = self.next_flip_point(ep, eq, ot_id, op);
-            self.flip_scan_edge_event(ep, eq, edge, triangle_id, ot_id, new_p, legalize_queue);
-            self.edge_event_process(ep, eq, edge, triangle_id, p, legalize_queue);
+            // after the scan and all that follows from it
+            tasks.push(EdgeTask::Process {
+                ep,
+                eq,
+                edge: *edge,
+                triangle_id,
+                p,
+            });
+            tasks.push(EdgeTask::FlipScan {
+                ep,
+                eq,
+                edge: *edge,
+                flip_triangle_id: triangle_id,
+                t_id: ot_id,
+                p: new_p,
+            });
         }
     }
 
@@ -1031,7 +1129,7 @@ impl Sweeper<'_> {
         flip_triangle_id: TriangleId,
         t_id: TriangleId,
         p: PointId,
-        triangle_ids: &mut Vec<TriangleId>,
+        tasks: &mut Vec<EdgeTask>,
     ) {
         let t = t_id.get(&self.triangles);
         let ot = t.neighbor_across(p);
@@ -1051,7 +1149,13 @@ impl Sweeper<'_> {
             op.get(&self.points),
         ) {
             // flip with new edge op -> eq
-            self.flip_edge_event(eq, op, edge, ot, op, triangle_ids);
+            tasks.push(EdgeTask::Flip {
+                ep: eq,
+                eq: op,
+                edge: *edge,
+                triangle_id: ot,
+                p: op,
+            });
 
             // original comment:
             // TODO: Actually I just figured out that it should be possible to
@@ -1063,7 +1167,14 @@ impl Sweeper<'_> {
             // so it will have to wait.
         } else {
             let new_p = self.next_flip_point(ep, eq, ot, op);
-            self.flip_scan_edge_event(ep, eq, edge, flip_triangle_id, ot, new_p, triangle_ids);
+            tasks.push(EdgeTask::FlipScan {
+                ep,
+                eq,
+                edge: *edge,
+                flip_triangle_id,
+                t_id: ot,
+                p: new_p,
+            });
         }
     }
 }
-- 
2.43.0


From f7d364b240660c4b3fff4cea0edaaf50f3dedf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 10/10] fix: fill basins in a loop, so deep basins of many
 points do not overflow the stack

---
 src/sweeper.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/sweeper.rs b/src/sweeper.rs
index 2745d4f..f4319be 100644
--- a/src/sweeper.rs
+++ b/src/sweeper.rs
@@ -1278,26 +1278,27 @@ impl Sweeper<'_> {
         let width = right.point().x - left.point().x;
         let left_higher: bool = left.point().y > right.point().y;
 
-        self.fill_basin_req(
-            bottom.get_node_id(),
-            &Basin {
-                left: left.point(),
-                right: right.point(),
-                width,
-                left_higher,
-            },
-            observer,
-        );
+        let basin = Basin {
+            left: left.point(),
+            right: right.point(),
+            width,
+            left_higher,
+        };
+        let mut node = Some(bottom.get_node_id());
+        while let Some(node_id) = node {
+            node = self.fill_basin_node(node_id, &basin, observer);
+        }
 
         Some(())
     }
 
-    fn fill_basin_req(
+    /// fill one node of the basin, returns the node to fill next
+    fn fill_basin_node(
         &mut self,
         node: NodeId,
         basin: &Basin,
         observer: &mut dyn Observer,
-    ) -> Option<()> {
+    ) -> Option<NodeId> {
         if basin.completed(node.point()) {
             return None;
         }
@@ -1307,7 +1308,7 @@ impl Sweeper<'_> {
         let next = fill_one.next;
 
         if prev.point().eq(&basin.left) && next.point().eq(&basin.right) {
-            return Some(());
+            return None;
         }
 
         let new_node = if prev.point().eq(&basin.left) {
@@ -1335,7 +1336,7 @@ impl Sweeper<'_> {
             }
         };
 
-        self.fill_basin_req(new_node, basin, observer)
+        Some(new_node)
     }
 }
 
-- 
2.43.0


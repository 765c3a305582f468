From 9df35753a8c1cdc83fd4723ce3be7e40396e48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 01/20] fix: VecOption::clone must give the clone the length of
 the original

---
 trellis/src/vec_option.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..50ed993 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,6 +49,9 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
             present: self.present.clone(),
-- 
2.43.0


From 6f10b9bd703aba2c39d1bf2cb808b53dd37ee9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:26 +0000
Subject: [PATCH 02/20] fix: VecOption::drop must not drop items twice when an
 item destructor panics

---
 trellis/src/vec_option.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 50ed993..689df8e 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -754,6 +754,11 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // Do this first, so that 'vec' never drops any item by itself, even if
+        // the destructor of an item panics.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -763,9 +768,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From 818566e862a2155c482e06ebacc9791ee65b91af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 03/20] fix: RampTable::iter_pairs_manual must report the key
 that owns each value

---
 trellis/src/ramp_table.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..1f246df 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -191,7 +191,7 @@ impl<T> RampTable<T> {
         struct Pairs<'a, T> {
             value_iter: core::slice::Iter<'a, T>,
             index_iter: core::slice::Iter<'a, u32>,
-            current_key: usize,
+            next_key: usize,
             current_index: usize,
             num_values: usize,
         }
@@ -201,14 +201,14 @@ impl<T> RampTable<T> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        // If there are no more keys, then the value is unowned.
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
-                        self.current_key += 1;
+                        self.next_key += 1;
                     }
-                    // TODO: current_key is not correct yet
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.next_key - 1, value))
                 } else {
                     None
                 }
@@ -217,8 +217,8 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
-            current_key: 0,
+            index_iter: self.index[1..].iter(),
+            next_key: 0,
             current_index: 0,
             num_values: 0,
         }
-- 
2.43.0


From 460e53e6b0ba98575e596a0670ad350f53c8a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 04/20] fix: find_disjoint_subgraphs must keep every connection
 between subgraphs

---
 trellis/src/disjoint.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..c9f3486 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,15 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+/// Follows the connections in `graph_alias`, from `g` to the graph that it is connected to.
+fn find_leader(graph_alias: &[u32], g: u32) -> u32 {
+    let mut leader = g;
+    while graph_alias[leader as usize] != leader {
+        leader = graph_alias[leader as usize];
+    }
+    leader
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,8 +70,12 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
-                    let g_low = g_from.min(g_to);
-                    let g_high = g_from.max(g_to);
+                    // Either graph may already be an alias for another graph, so we connect
+                    // their leaders; otherwise we would lose the earlier connection.
+                    let leader_from = find_leader(&graph_alias, g_from);
+                    let leader_to = find_leader(&graph_alias, g_to);
+                    let g_low = leader_from.min(leader_to);
+                    let g_high = leader_from.max(leader_to);
                     graph_alias[g_high as usize] = g_low;
                     debug!("v{from} (in g{g_from}) --> v{to} (in g{g_to}), in different graphs. assigning g{g_high} --> g{g_low}", from=from, to=to, g_from=g_from, g_to=g_to, g_high=g_high, g_low=g_low);
                 }
-- 
2.43.0


From 8dba41024e2cf1fe679b332f6746a73fa40d11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 05/20] fix: PQ::remove must move the greater child up

---
 trellis/src/priority_queue.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..5388249 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -62,16 +62,15 @@ impl<T: Ord> PQ<T> {
         let result = self.pq.pop();
         let mut i: usize = 0;
         loop {
-            let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
+            // Find the greater of the two children.
+            let mut child = left(i);
             let right = right(i);
-            if right < self.pq.len() && self.pq[i] < self.pq[right] {
-                self.pq.swap(i, right);
-                i = right;
+            if right < self.pq.len() && self.pq[child] < self.pq[right] {
+                child = right;
+            }
+            if child < self.pq.len() && self.pq[i] < self.pq[child] {
+                self.pq.swap(i, child);
+                i = child;
                 continue;
             }
             break;
-- 
2.43.0


From ae00abfb4e49bed71779dcfe0e09786dcf6fd375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 06/20] fix: create_proper_graph must return the proper graph
 instead of panicking

---
 trellis/src/layering.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/trellis/src/layering.rs b/trellis/src/layering.rs
index 0032ae4..f6d00f1 100644
--- a/trellis/src/layering.rs
+++ b/trellis/src/layering.rs
@@ -1,5 +1,7 @@
 use crate::error::Error;
 use crate::graph::Graph;
+use crate::ramp_table::RampTableBuilder;
+use crate::V;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct LayerMap {
@@ -121,12 +123,11 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
     let expected_num_vert_proper = graph.num_verts() + proper_num_virt_v;
     let expected_num_edge_proper = graph.num_edges() + proper_num_virt_v;
 
-    let mut proper_from: Vec<u32> = Vec::with_capacity(expected_num_edge_proper);
-    let mut proper_to: Vec<u32> = Vec::with_capacity(expected_num_edge_proper);
+    let mut proper_edges: RampTableBuilder<V> =
+        RampTableBuilder::with_capacity(expected_num_edge_proper);
 
     let mut add_edge = |f, t| {
-        proper_from.push(f);
-        proper_to.push(t);
+        proper_edges.push(f, t);
     };
 
     for (from, to) in graph.iter_edges_flattened() {
@@ -145,15 +146,20 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
         add_edge(prev_v, to);
     }
 
-    // Because of the iteration order, we know that values in 'proper_form'
-    // are in non-decreasing order. Next, we transform that into an index
-    // table for a RampTable.
+    let nv_proper = next_virt_v as usize;
+    assert_eq!(nv_proper, expected_num_vert_proper);
 
-    let nv_proper = next_virt_v;
-
-    let index = convert_runs_to_index(proper_from.iter().copied(), nv_proper as usize);
+    // The edges of a virtual vertex are added while iterating the edges of an
+    // original vertex, so the 'from' verts are not in order. RampTableBuilder
+    // sorts them. Verts after the last vert that has an out-edge have no entry
+    // in the table yet, so add them.
+    let mut edges = proper_edges.finish();
+    while edges.len() < nv_proper {
+        edges.finish_key();
+    }
+    assert_eq!(edges.num_values(), expected_num_edge_proper);
 
-    unimplemented!();
+    Graph { edges }
 }
 
 /*
-- 
2.43.0


From f556e8fe845f4f39025f7dc0aba047580ce14a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 07/20] fix: find_shortest_path must follow the path entries
 back to the first one

---
 trellis/src/ortho/shortest_path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..6ce9497 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -153,10 +153,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi == -1 {
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From 6878c92a76a8ff63e107e7aa4b18f143348d4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 08/20] fix: find_shortest_path must end when it reaches a
 cycle

---
 trellis/src/ortho/shortest_path.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index 6ce9497..b4a7edc 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 
 type Weight = i32;
 
@@ -51,17 +52,15 @@ impl FindPathState {
     fn pq_reorder_down(&mut self, index: usize) {
         let mut i: usize = index;
         while i < self.pq.len() {
-            let i_key = &self.pq[i];
-            let left = left(i);
-            if left < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[left]) {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
+            // Find the lesser of the two children.
+            let mut child = left(i);
             let right = right(i);
-            if right < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[right]) {
-                self.pq.swap(i, right);
-                i = right;
+            if right < self.pq.len() && !Self::pq_is_ordered(&self.pq[child], &self.pq[right]) {
+                child = right;
+            }
+            if child < self.pq.len() && !Self::pq_is_ordered(&self.pq[i], &self.pq[child]) {
+                self.pq.swap(i, child);
+                i = child;
                 continue;
             }
             break;
@@ -115,6 +114,12 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     let mut best_path: Option<BestPath> = None;
 
+    // The least weight of any path found so far, for each vertex. A path that
+    // does not improve on this is not explored; otherwise, the search would
+    // never end if it reaches a cycle.
+    let mut least_weights: HashMap<V, Weight> = HashMap::new();
+    least_weights.insert(from_vert, 0);
+
     loop {
         // iterate on search
         // the entry at pq[0] is the shortest path
@@ -138,6 +143,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
                 let next_path_weight = current_path.weight + edge_weight;
+                match least_weights.get(&next_vert_index) {
+                    Some(&least) if least <= next_path_weight => continue,
+                    _ => least_weights.insert(next_vert_index, next_path_weight),
+                };
                 state.paths.push(Path {
                     vert: next_vert_index as i32,
                     // weight: next_path_weight,
-- 
2.43.0


From bfc2f69540a7284eee2190f32f07a07b0d7e6581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 09/20] fix: Pshortestpath must allocate its point list and its
 deque

---
 trellis/src/pathplan/shortest.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..4301f7c 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, NULL_PNLS);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From 6b5d931d92c91ee7a9dd7bf0d89d95756892542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 10/20] fix: compVis must not look for vertices before the
 first one

---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..d66b71c 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let j_end = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..j_end).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From 9e29220aba787f5a1028c804a4b21ac1dd720651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 11/20] hooks: expose private functions to the verification
 harness under cfg(vp_hooks)

---
 trellis/src/common/colxlate.rs | 19 +++++++++++++++++++
 trellis/src/pathplan/triang.rs |  8 ++++++++
 2 files changed, 27 insertions(+)

diff --git a/trellis/src/common/colxlate.rs b/trellis/src/common/colxlate.rs
index 6cf0ee3..c28c014 100644
--- a/trellis/src/common/colxlate.rs
+++ b/trellis/src/common/colxlate.rs
@@ -98,6 +98,25 @@ fn rgb2cmyk(r: f64, g: f64, b: f64) -> Cmyk<f64> {
     }
 }
 
+/// Verification hooks: let an external harness call the color conversions.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    pub fn hsv2rgb(h: f64, s: f64, v: f64) -> [f64; 3] {
+        let rgb = super::hsv2rgb(h, s, v);
+        [rgb.r, rgb.g, rgb.b]
+    }
+
+    pub fn rgb2hsv(r: f64, g: f64, b: f64) -> [f64; 3] {
+        let hsv = super::rgb2hsv(r, g, b);
+        [hsv.h, hsv.s, hsv.v]
+    }
+
+    pub fn rgb2cmyk(r: f64, g: f64, b: f64) -> [f64; 4] {
+        let cmyk = super::rgb2cmyk(r, g, b);
+        [cmyk.c, cmyk.m, cmyk.y, cmyk.k]
+    }
+}
+
 /*
 
 static int colorcmpf(const void *p0, const void *p1)
diff --git a/trellis/src/pathplan/triang.rs b/trellis/src/pathplan/triang.rs
index f094f3b..7b4f31a 100644
--- a/trellis/src/pathplan/triang.rs
+++ b/trellis/src/pathplan/triang.rs
@@ -137,3 +137,11 @@ fn dpd_between(pa: Ppoint_t, pb: Ppoint_t, pc: Ppoint_t) -> bool {
             && (pca.x * pca.x + pca.y * pca.y <= pba.x * pba.x + pba.y * pba.y)
     }
 }
+
+/// Verification hook: lets an external harness call `Ptriangulate`.
+#[cfg(vp_hooks)]
+pub fn vp_triangulate(polygon: &Ppoly_t) -> Vec<[Ppoint_t; 3]> {
+    let mut triangles: Vec<[Ppoint_t; 3]> = Vec::new();
+    let _ = Ptriangulate(polygon, &mut |a, b, c| triangles.push([a, b, c]));
+    triangles
+}
-- 
2.43.0


From 3ff3886bbdc82f67df8bf62dc1d35f9163ed0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 12/20] fix: ellipticWedge must not add a turn to an arc of
 half a turn

---
 trellis/src/common/ellipse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..a5b9f0b 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -234,8 +234,9 @@ fn initEllipse(
     ep.eta2 -= TWOPI * ((ep.eta2 - ep.eta1) / TWOPI).floor();
 
     // the preceding correction fails if we have exactly eta2 - eta1 = 2*PI
-    // it reduces the interval to zero length
-    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < PI) {
+    // it reduces the interval to zero length; an interval of half a turn must stay
+    // as it is, even if rounding puts the two differences on different sides of PI
+    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < 0.5 * PI) {
         ep.eta2 += TWOPI;
     }
 
-- 
2.43.0


From 9dfa67a09dd36a18f20a4f5d937541c936710152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 13/20] fix: Pshortestpath took some counterclockwise polygons
 for clockwise

If the first of the leftmost corners was in the middle of a straight left
side, the polygon was reversed whatever its direction, so it could not be
triangulated.
---
 trellis/src/pathplan/shortest.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 4301f7c..9cb67d8 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -96,7 +96,13 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
         } else {
             minpi + 1
         }];
-        if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) != ISCCW {
+        let reverse = if p1.x == p2.x && p2.x == p3.x {
+            /* on a straight left side, only the direction of that side tells */
+            p3.y > p2.y
+        } else {
+            ccw(p1, p2, p3) != ISCCW
+        };
+        if reverse {
             for pi in (0..polyp.ps.len()).rev() {
                 if pi < polyp.ps.len() - 1 && polyp.ps[pi] == polyp.ps[pi + 1] {
                     continue;
-- 
2.43.0


From e20d1b7781184c67c6b6e96acbab501e6a8f50ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 14/20] fix: Pshortestpath took a repeated leftmost corner for
 a clockwise one

Repeated corners are skipped, but the direction of the polygon was told from
the two neighbors of the leftmost corner, even if one of them was equal to it.
---
 trellis/src/pathplan/shortest.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 9cb67d8..df2dcf4 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -86,16 +86,13 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
         }
 
         let p2 = polyp.ps[minpi];
-        let p1 = polyp.ps[if minpi == 0 {
-            polyp.ps.len() - 1
-        } else {
-            minpi - 1
-        }];
-        let p3 = polyp.ps[if minpi == polyp.ps.len() - 1 {
-            0
-        } else {
-            minpi + 1
-        }];
+        /* the neighbors of p2, which may be repeated */
+        let n = polyp.ps.len();
+        let differs = |p: &Ppoint_t| *p != p2;
+        let p1 = (1..n).map(|i| polyp.ps[(minpi + n - i) % n]).find(differs);
+        let p1 = p1.unwrap_or(p2);
+        let p3 = (1..n).map(|i| polyp.ps[(minpi + i) % n]).find(differs);
+        let p3 = p3.unwrap_or(p2);
         let reverse = if p1.x == p2.x && p2.x == p3.x {
             /* on a straight left side, only the direction of that side tells */
             p3.y > p2.y
-- 
2.43.0


From 3a918ce647f1a1e3aad617f8c0df8a60229bf4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 15/20] fix: ROUND(0.49999999999999994) was 1

Adding a half rounds up to the next integer already.
---
 trellis/src/common/arith.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/trellis/src/common/arith.rs b/trellis/src/common/arith.rs
index c72dffd..c098237 100644
--- a/trellis/src/common/arith.rs
+++ b/trellis/src/common/arith.rs
@@ -42,11 +42,7 @@ pub const M_PI: f64 = core::f64::consts::PI;
 pub const SQRT2: f64 = core::f64::consts::SQRT_2;
 
 pub fn ROUND(f: f64) -> i32 {
-    if f >= 0.0 {
-        (f + 0.5) as i32
-    } else {
-        (f - 0.5) as i32
-    }
+    f.round() as i32
 }
 pub fn RADIANS(deg: f64) -> f64 {
     deg / 180.0 * M_PI
-- 
2.43.0


From a19fc137cbe51362f69eed993be1253adc14e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 16/20] hooks: expose the run iterators to the verification
 harness under cfg(vp_hooks)

---
 trellis/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/trellis/src/lib.rs b/trellis/src/lib.rs
index 1386f60..2d3b06a 100644
--- a/trellis/src/lib.rs
+++ b/trellis/src/lib.rs
@@ -28,6 +28,12 @@ pub mod vec_option;
 
 mod iters;
 
+/// The run iterators, for the verification harness only.
+#[cfg(vp_hooks)]
+pub mod vp_iters {
+    pub use crate::iters::*;
+}
+
 pub mod testing;
 
 
-- 
2.43.0


From 26642f3b38bda46f3c5db55d65487322e8be063b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 17/20] hooks: expose rotated ellipses to the verification
 harness under cfg(vp_hooks)

---
 trellis/src/common/ellipse.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index a5b9f0b..681e002 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -611,3 +611,31 @@ fn test_ellipse() {
     }
     println!("stroke showpage");
 }
+
+/// Ellipses with any orientation and their arcs, for the verification harness only.
+#[cfg(vp_hooks)]
+pub mod vp_hooks {
+    use super::*;
+
+    /// `[eta1, eta2, x1, y1, x2, y2, xF1, yF1, xF2, yF2, xLeft, yUp, width, height]`
+    pub fn ellipse(ctr: Ppoint_t, a: f64, b: f64, theta: f64, lambda1: f64, lambda2: f64) -> [f64; 14] {
+        let e = initEllipse(ctr.x, ctr.y, a, b, theta, lambda1, lambda2);
+        [
+            e.eta1, e.eta2, e.x1, e.y1, e.x2, e.y2, e.xF1, e.yF1, e.xF2, e.yF2, e.xLeft, e.yUp, e.width, e.height,
+        ]
+    }
+
+    pub fn path<P: PathTarget>(
+        ctr: Ppoint_t,
+        axes: (f64, f64),
+        theta: f64,
+        lambda: (f64, f64),
+        degree: i32,
+        threshold: f64,
+        isSlice: bool,
+        path: &mut P,
+    ) {
+        let mut ell = initEllipse(ctr.x, ctr.y, axes.0, axes.1, theta, lambda.0, lambda.1);
+        gen_elliptic_path(&mut ell, degree, threshold, isSlice, path);
+    }
+}
-- 
2.43.0


From e0e1598bc7ba180383c147c4a883220a72d179c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 18/20] hooks: each hook can be left out on its own

---
 trellis/src/common/colxlate.rs | 2 +-
 trellis/src/common/ellipse.rs  | 2 +-
 trellis/src/lib.rs             | 2 +-
 trellis/src/pathplan/triang.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trellis/src/common/colxlate.rs b/trellis/src/common/colxlate.rs
index c28c014..d73207e 100644
--- a/trellis/src/common/colxlate.rs
+++ b/trellis/src/common/colxlate.rs
@@ -99,7 +99,7 @@ fn rgb2cmyk(r: f64, g: f64, b: f64) -> Cmyk<f64> {
 }
 
 /// Verification hooks: let an external harness call the color conversions.
-#[cfg(vp_hooks)]
+#[cfg(all(vp_hooks, not(vp_no_color)))]
 pub mod vp_hooks {
     pub fn hsv2rgb(h: f64, s: f64, v: f64) -> [f64; 3] {
         let rgb = super::hsv2rgb(h, s, v);
diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index 681e002..1afa6b9 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -613,7 +613,7 @@ fn test_ellipse() {
 }
 
 /// Ellipses with any orientation and their arcs, for the verification harness only.
-#[cfg(vp_hooks)]
+#[cfg(all(vp_hooks, not(vp_no_ellipse)))]
 pub mod vp_hooks {
     use super::*;
 
diff --git a/trellis/src/lib.rs b/trellis/src/lib.rs
index 2d3b06a..c77a0a9 100644
--- a/trellis/src/lib.rs
+++ b/trellis/src/lib.rs
@@ -29,7 +29,7 @@ pub mod vec_option;
 mod iters;
 
 /// The run iterators, for the verification harness only.
-#[cfg(vp_hooks)]
+#[cfg(all(vp_hooks, not(vp_no_iters)))]
 pub mod vp_iters {
     pub use crate::iters::*;
 }
diff --git a/trellis/src/pathplan/triang.rs b/trellis/src/pathplan/triang.rs
index 7b4f31a..873d9a4 100644
--- a/trellis/src/pathplan/triang.rs
+++ b/trellis/src/pathplan/triang.rs
@@ -139,7 +139,7 @@ fn dpd_between(pa: Ppoint_t, pb: Ppoint_t, pc: Ppoint_t) -> bool {
 }
 
 /// Verification hook: lets an external harness call `Ptriangulate`.
-#[cfg(vp_hooks)]
+#[cfg(all(vp_hooks, not(vp_no_triang)))]
 pub fn vp_triangulate(polygon: &Ppoly_t) -> Vec<[Ppoint_t; 3]> {
     let mut triangles: Vec<[Ppoint_t; 3]> = Vec::new();
     let _ = Ptriangulate(polygon, &mut |a, b, c| triangles.push([a, b, c]));
-- 
2.43.0


From 6bcb1605eb499d44ec1dcdb76d80931170044a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:57 +0000
Subject: [PATCH 19/20] fix: shortestPath must find paths longer than 2^31

A distance of i32::MAX stood for a vertex that was not reached yet, so a
vertex farther than that from the root was taken for one that cannot be
reached, and its predecessor was -1.
---
 trellis/src/pathplan/shortestpth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortestpth.rs b/trellis/src/pathplan/shortestpth.rs
index cf004b8..1915c6a 100644
--- a/trellis/src/pathplan/shortestpth.rs
+++ b/trellis/src/pathplan/shortestpth.rs
@@ -4,7 +4,7 @@ use super::visibility::directVis;
 use super::*;
 use crate::vec2::Ppoint_t;
 
-const UNSEEN: COORD = core::i32::MAX as f64;
+const UNSEEN: COORD = core::f64::MAX;
 
 /* shortestPath:
  * Given a VxV weighted adjacency matrix, compute the shortest
@@ -30,7 +30,7 @@ pub fn shortestPathGeneric<Wadj: Fn(usize, usize) -> f64>(
     /* initialize arrays */
     let mut dad: Vec<i32> = vec![-1; V];
     let mut vl: Vec<COORD> = vec![-UNSEEN; V + 1]; /* One extra for sentinel, which is at index 0 */
-    vl[0] = -(UNSEEN + 1.0); /* Set sentinel */
+    vl[0] = core::f64::NEG_INFINITY; /* Set sentinel */
     const val: usize = 1; // an offset into vl; rewrite val[x] as vl[val + x]
 
     let mut min = root;
-- 
2.43.0


From c38fdabb75ac536b98e0a40b719fe6837843b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:05 +0000
Subject: [PATCH 20/20] fix: find_shortest_path must not overflow on heavy
 paths

The weights on a path were added up in an i32. A path heavier than
i32::MAX wrapped around (or panicked), also when it was not the shortest
one, and then was taken for the lightest.
---
 trellis/src/ortho/shortest_path.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index b4a7edc..585983d 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -2,6 +2,9 @@ use std::collections::HashMap;
 
 type Weight = i32;
 
+// The sum of the weights on a path, which may exceed the range of Weight.
+type PathWeight = i64;
+
 // Each entry in the priority queue represents a path.
 struct Path {
     vert: V, // vertex
@@ -11,7 +14,7 @@ struct Path {
 
 struct PQEntry {
     path: i32,
-    weight: Weight,
+    weight: PathWeight,
 }
 
 fn left(parent: usize) -> usize { parent * 2 + 1 }
@@ -109,7 +112,7 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     struct BestPath {
         path: i32,
-        weight: Weight,
+        weight: PathWeight,
     }
 
     let mut best_path: Option<BestPath> = None;
@@ -117,7 +120,7 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
     // The least weight of any path found so far, for each vertex. A path that
     // does not improve on this is not explored; otherwise, the search would
     // never end if it reaches a cycle.
-    let mut least_weights: HashMap<V, Weight> = HashMap::new();
+    let mut least_weights: HashMap<V, PathWeight> = HashMap::new();
     least_weights.insert(from_vert, 0);
 
     loop {
@@ -142,7 +145,7 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             // new path entries.
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
-                let next_path_weight = current_path.weight + edge_weight;
+                let next_path_weight = current_path.weight + PathWeight::from(edge_weight);
                 match least_weights.get(&next_vert_index) {
                     Some(&least) if least <= next_path_weight => continue,
                     _ => least_weights.insert(next_vert_index, next_path_weight),
-- 
2.43.0


From 35a470aa975f3826fe860bbc22ee07b7268e22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:00 +0000
Subject: [PATCH 01/25] fix: EditDigraph::adjacent is symmetric

---
 src/editdigraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 01f1d73..dd82594 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -59,7 +59,7 @@ impl Graph for EditDigraph {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.has_arc(u, v) || self.has_arc(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-- 
2.43.0


From 4baff302aea26bb2996dc6bf93b7f9f97a214773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 02/25] fix: EditDigraph normalize and disj_union keep the arc
 orientation

---
 src/editdigraph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index dd82594..8f7f249 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -340,7 +340,7 @@ impl EditDigraph {
         let offset:Vertex = self.vertices().max().map(|x| x+1).unwrap_or(0);
 
         res.add_vertices(self.vertices().cloned());
-        res.add_arcs(self.edges());
+        res.add_arcs(self.arcs());
 
         res.add_vertices(graph.vertices().map(|v| v+offset));
         res.add_arcs(graph.edges().map(|(u,v)| (u+offset,v+offset) ));
@@ -378,7 +378,7 @@ impl EditDigraph {
         for u in self.vertices() {
             res.add_vertex(&vex2id[u]);
         }
-        for (u, v) in self.edges() {
+        for (u, v) in self.arcs() {
             res.add_arc(&vex2id[&u], &vex2id[&v]);
         }
         (res, id2vex)
-- 
2.43.0


From 6c3507dba31dcbd1449808eebf6b2c824365348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:05 +0000
Subject: [PATCH 03/25] fix: EditDigraph path and clique on zero or one vertex

---
 src/editdigraph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 8f7f249..7224bc4 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -223,8 +223,11 @@ impl EditDigraph {
     /// Generates a directed path on `n` vertices.
     pub fn path(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
-        for u in 0..(n-1) {
-            let v = u+1;
+        for u in 0..n {
+            res.add_vertex(&u);
+        }
+        for v in 1..n {
+            let u = v-1;
             res.add_arc(&u,&v);
         }
 
@@ -263,6 +266,7 @@ impl EditDigraph {
     pub fn clique(n:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity(n as usize);
         for u in 0..n {
+            res.add_vertex(&u);
             for v in (u+1)..n {
                 res.add_arc(&u,&v);
             }
-- 
2.43.0


From 280d2273b210c13232b378899b1655c1627e4696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:08 +0000
Subject: [PATCH 04/25] fix: biclique, star and grid include isolated vertices

---
 src/editdigraph.rs | 4 ++++
 src/editgraph.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/editdigraph.rs b/src/editdigraph.rs
index 7224bc4..e5983cb 100644
--- a/src/editdigraph.rs
+++ b/src/editdigraph.rs
@@ -289,6 +289,9 @@ impl EditDigraph {
     /// Arcs go from the s-side to the t-side.
     pub fn biclique(s:u32, t:u32) -> EditDigraph {
         let mut res = EditDigraph::with_capacity((s+t) as usize);
+        for u in 0..(s+t) {
+            res.add_vertex(&u);
+        }
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_arc(&u,&v);
@@ -305,6 +308,7 @@ impl EditDigraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0); // A 1x1 grid has no edges
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
diff --git a/src/editgraph.rs b/src/editgraph.rs
index 3a710ac..b22f067 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -336,6 +336,9 @@ impl EditGraph {
     /// Generates a complete bipartite graph (biclique) on `s`+`t` vertices.
     pub fn biclique(s:u32, t:u32) -> EditGraph {
         let mut res = EditGraph::with_capacity((s+t) as usize);
+        for u in 0..(s+t) {
+            res.add_vertex(&u);
+        }
         for u in 0..s {
             for v in s..(s+t) {
                 res.add_edge(&u,&v);
@@ -391,6 +394,7 @@ impl EditGraph {
         if s == 0 || t == 0 {
             return res;
         }
+        res.add_vertex(&0); // A 1x1 grid has no edges
 
         // s = 3, t = 4
         // 0 -- 1 -- 2 -- 3
-- 
2.43.0


From 79af56266c1a3b98fd120d1599834b6246a93c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:11 +0000
Subject: [PATCH 05/25] fix: complete_kpartite keeps vertices without
 neighbours, single part is independent

---
 src/editgraph.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/editgraph.rs b/src/editgraph.rs
index b22f067..190acb0 100644
--- a/src/editgraph.rs
+++ b/src/editgraph.rs
@@ -357,8 +357,6 @@ impl EditGraph {
 
         if sizes.is_empty() {
             return EditGraph::new();
-        } else if sizes.len() == 1 {
-            return EditGraph::clique(sizes[0]);
         }
 
         let mut ranges:Vec<(u32,u32)> = Vec::new();
@@ -371,6 +369,9 @@ impl EditGraph {
         let n = ranges.last().unwrap().1;
 
         let mut res = EditGraph::with_capacity(n as usize);
+        for u in 0..n {
+            res.add_vertex(&u);
+        }
 
         #[allow(clippy::needless_range_loop)]
         for i in 0..ranges.len() {
-- 
2.43.0


From 371f784b5b9baa0ba88a79747411d1b02156e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:14 +0000
Subject: [PATCH 06/25] fix: MixedIterator returns loops

---
 src/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index f57fa17..04e52cd 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -230,7 +230,7 @@ impl<G> Iterator for MixedIterator<'_, G> where G: Graph {
             // Otherwise return edge
             for u in it.by_ref() {
                 // Tie-break so we do not return edges multiple times
-                if v < *u {
+                if v <= *u {
                     return Some(VertexOrEdge::E( (v,*u) ));
                 }
             }
-- 
2.43.0


From b75520253f5f2d8e1de8beab67ee9b30ff4f407a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:17 +0000
Subject: [PATCH 07/25] fix: graph products keep isolated vertices

---
 src/operations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ae7610b..15d3546 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -78,6 +78,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
             for v in other.vertices() {
                 map.insert((*u,*v), free_id);
                 inverse.insert(free_id, (*u,*v));
+                res.add_vertex(&free_id);
                 free_id += 1;
             }
         }
@@ -121,6 +122,7 @@ impl<G> GraphOperations<G> for G where G: Graph {
             for v in other.vertices() {
                 map.insert((*u,*v), free_id);
                 inverse.insert(free_id, (*u,*v));
+                res.add_vertex(&free_id);
                 free_id += 1;
             }
         }
-- 
2.43.0


From 76f096148aa49524bb582452ed34d7357235dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:34 +0000
Subject: [PATCH 08/25] fix: readers return an error instead of panicking on
 unreadable lines

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 07bafb3..866b7c3 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -53,7 +53,7 @@ impl LoadFromFile for VertexSet {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = VertexSet::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.insert(u);
         }
@@ -76,7 +76,7 @@ impl LoadFromFile for Vec<Vertex> {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut res = Vec::default();
         for (i, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let u = parse_vertex(l.trim(), i)?;
             res.push(u);
         }
@@ -114,7 +114,7 @@ impl EditGraph {
     fn from_buf_with_estimate<R: BufRead>(reader: &mut R, n_estimate:usize) -> io::Result<EditGraph> {
         let mut G = EditGraph::with_capacity(n_estimate);
         for (lineno, line) in reader.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
@@ -184,7 +184,7 @@ impl LoadFromFile for EditGraph {
     fn from_buf(buf:Box<dyn BufRead>) -> io::Result<Self> where Self: Sized {
         let mut G = EditGraph::with_capacity(500);
         for (lineno, line) in buf.lines().enumerate() {
-            let l = line.unwrap();
+            let l = line?;
             let tokens:Vec<&str> = l.split_whitespace().collect();
             if tokens.len() != 2 {
                 let err = io::Error::new(io::ErrorKind::InvalidData,
-- 
2.43.0


From 61aa3d92430737984879d07d363c2a00d8368d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:36 +0000
Subject: [PATCH 09/25] fix: read all members of a gzip file

---
 src/io.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 866b7c3..4de7627 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -8,7 +8,7 @@ use std::io::{BufRead,BufReader,BufWriter,Write};
 use std::fs::File;
 use std::path::Path;
 use flate2::Compression;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use flate2::write::GzEncoder;
 
 use crate::graph::*;
@@ -172,7 +172,7 @@ impl LoadFromFile for EditGraph {
         let file = File::open(filename)?;
         let metadata = file.metadata()?;
         let size = metadata.len();
-        let gz = GzDecoder::new(file);
+        let gz = MultiGzDecoder::new(file);
 
         // This is a rought estimate of n given the number of bytes in
         // the compresed file, obtained from data in my network collection.
@@ -211,7 +211,7 @@ fn open_reader(filename:&str) -> io::Result<Box<dyn BufRead>> {
         }
         Some("gz") => {
             let file = File::open(path)?;
-            let gz = GzDecoder::new(file);
+            let gz = MultiGzDecoder::new(file);
             Box::new(BufReader::new(gz))
         }
         _ => {
@@ -232,7 +232,7 @@ fn open_reader_txt(filename:&str) -> io::Result<Box<dyn BufRead>> {
 fn open_reader_gzip(filename:&str) -> io::Result<Box<dyn BufRead>> {
     let path = Path::new(&filename);
     let file = File::open(path)?;
-    let gz = GzDecoder::new(file);
+    let gz = MultiGzDecoder::new(file);
     Ok(Box::new(BufReader::new(gz)))
 }
 
-- 
2.43.0


From c2aec24415e038b00cedd07eef89f92bddb2f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 10/25] fix: sreach_set with radius zero is empty

---
 src/algorithms/lineargraph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec46ab..e75675a 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -134,8 +134,11 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
     }
 
     fn sreach_set(&self, u:&Vertex, r:u32) -> VertexMap<u32> {
-        let bfs = self.right_bfs(u, r-1);
         let mut res = VertexMap::default();
+        if r == 0 {
+            return res;
+        }
+        let bfs = self.right_bfs(u, r-1);
 
         let iu = self.index_of(u);
         for (d, layer) in bfs.iter().enumerate() {
-- 
2.43.0


From 8f4f7b668baf96e8fa980a410e069691a16b2e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:00 +0000
Subject: [PATCH 11/25] fix: count_max_cliques recurses into the neighbourhood
 of the chosen vertex

---
 src/algorithms/lineargraph.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index e75675a..9ec574f 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -648,14 +648,17 @@ fn bk_pivot_count<L: LinearGraph>(graph:&L, v:&Vertex, vertices:&[Vertex], inclu
             continue
         }
 
-        // Recursion
+        // Recursion in the neighbourhood of `w`
+        let w_neighbours:Vec<Vertex> = vertices.iter()
+                .filter(|x| *x != w && graph.adjacent(w, x)).cloned().collect();
+        let w_neighbours_set:VertexSet = w_neighbours.iter().cloned().collect();
         include.insert(*w);
         bk_pivot_count(graph,
                 v,
-                &left_neighbours,
+                &w_neighbours,
                 include,
-                maybe.intersection(&left_neighbours_set).cloned().collect(),
-                exclude.intersection(&left_neighbours_set).cloned().collect(),
+                maybe.intersection(&w_neighbours_set).cloned().collect(),
+                exclude.intersection(&w_neighbours_set).cloned().collect(),
                 results);
         include.remove(w);
 
-- 
2.43.0


From 1e519bb9eba97369a8b6119bc542f15f3101a4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:03 +0000
Subject: [PATCH 12/25] fix: colour_greedy compares the number of distinct
 neighbour colours

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 9ec574f..ac5a54c 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -225,7 +225,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
         let mut colours:VertexColouring<u32> = VertexColouring::default();
         let mut used_colours:Vec<u32> = vec![];
         for (v, N) in self.left_neighbourhoods() {
-            let Ncols:Vec<u32> = N.iter().map(|x| colours[x]).collect();
+            let Ncols:FxHashSet<u32> = N.iter().map(|x| colours[x]).collect();
             if Ncols.len() == used_colours.len() {
                 let new_colour = used_colours.len() as u32;
                 used_colours.push(new_colour);
-- 
2.43.0


From 4497917bb80f471bb7ef2156ef10be7e9cc36607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 13/25] fix: scattered_colouring keeps the distance for odd
 distances

---
 src/algorithms/lineargraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index ac5a54c..3250081 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -523,7 +523,7 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
 
                     let dist = small_distance_sets(&wreach, distance, set1.iter(), set2.iter());
                     if let Some(dist) = dist {
-                        if dist < 2*radius {
+                        if dist < distance {
                             // Cannot merge these two classes
                             continue;
                         }
-- 
2.43.0


From 26864113f11c30e38f63cc127e0358f9c305a1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:09 +0000
Subject: [PATCH 14/25] fix: domset returns the minimum distance to the
 dominating set

---
 src/algorithms/lineargraph.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/algorithms/lineargraph.rs b/src/algorithms/lineargraph.rs
index 3250081..7d50eb3 100644
--- a/src/algorithms/lineargraph.rs
+++ b/src/algorithms/lineargraph.rs
@@ -327,6 +327,27 @@ impl<L> LinearGraphAlgorithms for L where L: LinearGraph {
             }
         }
 
+        // So far `dom_distance` only contains upper bounds and placeholders
+        dom_distance.clear();
+        let mut layer:Vec<Vertex> = domset.iter().cloned().collect();
+        for v in &layer {
+            dom_distance.insert(*v, 0);
+        }
+        let mut dist = 0;
+        while !layer.is_empty() {
+            dist += 1;
+            let mut next = vec![];
+            for u in &layer {
+                for v in self.neighbours(u) {
+                    if !dom_distance.contains_key(v) {
+                        dom_distance.insert(*v, dist);
+                        next.push(*v);
+                    }
+                }
+            }
+            layer = next;
+        }
+
         if !witness {
             return (domset, dom_distance, None)
         }
-- 
2.43.0


From f9b770ce6c02972539bf5e0dbc84de206853e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:33 +0000
Subject: [PATCH 15/25] fix: OrdGraph::swap of adjacent vertices

---
 src/ordgraph.rs | 51 ++++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 2b656cd..046235e 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -133,41 +133,32 @@ impl OrdGraph {
             _ => return
         };
 
-        // Recompute left/right neighbours of u and v for u when moved to iv
-        // and for v when moved to iu.
-        for (s,old_i,new_i) in [(u,iu,iv), (v,iv,iu)]{
-            let mut needs_update:Vec<usize> = Vec::new();            
-            {   // Update vertex itself
-                let n = &mut self.nodes[old_i];
-                let (mut new_left, mut new_right) = (VertexSet::default(), VertexSet::default());
-                for x in n.neighbours() {
-                    let ix = self.indices.get(x).unwrap();
-                    needs_update.push(*ix);
-                    if ix < &new_i {
-                        new_left.insert(*x);
-                    } else {
-                        new_right.insert(*x);
-                    }
-                }
-                (n.left, n.right) = (new_left, new_right);
-            }
-            // Now update neighbours
-            for ix in needs_update {
+        // Swap u and v
+        self.indices.insert(*u, iv);
+        self.indices.insert(*v, iu);
+        self.nodes.swap(iu, iv);
+
+        // Recompute the left/right neighbours of u and v at their new positions
+        for s in [u, v] {
+            let is = self.indices[s];
+            let neighbours:Vec<Vertex> = self.nodes[is].neighbours().cloned().collect();
+            let (mut new_left, mut new_right) = (VertexSet::default(), VertexSet::default());
+            for x in neighbours {
+                let ix = self.indices[&x];
                 let n = &mut self.nodes[ix];
-                if new_i > ix && n.left.contains(s) {
-                    n.left.remove(s);
+                n.left.remove(s);
+                n.right.remove(s);
+                if ix < is {
+                    new_left.insert(x);
                     n.right.insert(*s);
-                } else if new_i < ix && n.right.contains(s) {
-                    n.right.remove(s);
+                } else {
+                    new_right.insert(x);
                     n.left.insert(*s);
                 }
-            }            
+            }
+            let n = &mut self.nodes[is];
+            (n.left, n.right) = (new_left, new_right);
         }
-
-        // Finally, swap u and v
-        self.indices.insert(*u, iv);
-        self.indices.insert(*v, iu);
-        self.nodes.swap(iu, iv);
     }
 
     /// Returns a copy of `u`'s right neighbourhood. 
-- 
2.43.0


From 2ebeb1aa42ca4b1cedb64ea5e6396095aff705b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:36 +0000
Subject: [PATCH 16/25] fix: DegenGraph::normalize of the empty graph

---
 src/degengraph.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index cea5b5e..3c82b3e 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -69,6 +69,9 @@ impl DegenGraph {
         let mut ix = 0;
         let mut new_to_old = VertexMap::default();
         let mut old_to_new = VertexMap::default();
+        if self.contents.is_empty() {
+            return new_to_old
+        }
         unsafe {
             loop {
                 let u = *self.contents.get_unchecked(i); // contents[i]
-- 
2.43.0


From 60432a257d58765ffe8964ec77be9df91c4a0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 17/25] fix: is_bipartite returns a simple odd cycle

---
 src/algorithms/graph.rs | 46 +++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index b14cfe5..01a635d 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -196,9 +196,9 @@ impl<G> GraphAlgorithms for G where G: Graph {
 
         // If the colouring failed we construct an odd path witness
         if let Some((parent1, v, parent2)) = conflict {       
-            // The first path starts at v and follows it until
-            // the 'root' of the colouring via parent1
-            let mut path1:Vec<Vertex> = vec![v, parent1];
+            // The first path starts at parent1 and follows it until
+            // the 'root' of the colouring
+            let mut path1:Vec<Vertex> = vec![parent1];
             loop {
                 let last = *path1.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -209,9 +209,12 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // The first path starts at parent2 and follows it until
-            // the 'root' of the colouring
-            let mut path2:Vec<Vertex> = vec![parent2];
+            // The second path starts at v and follows it until
+            // the 'root' of the colouring via parent2
+            let mut path2:Vec<Vertex> = vec![v];
+            if parent2 != v {
+                path2.push(parent2);
+            }
             loop {
                 let last = *path2.last().unwrap();                
                 let par = colours.get(&last).unwrap().1;
@@ -222,32 +225,25 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 }
             }
 
-            // path1: v parent1 ... root
-            // path1: parent2 ... root
+            // path1: parent1 ... root
+            // path2: v parent2 ... root
             assert_eq!(path1.last(), path2.last());
 
-            // If v == parent2 then path1 is already an odd cycle
-            if path1.len() > 1 && path1.first() == path1.last() {
+            // Cut both paths at the first vertex x that they share, otherwise
+            // the concatenation would visit vertices repeatedly.
+            while path1.len() > 1 && path2.len() > 1
+                    && path1[path1.len()-2] == path2[path2.len()-2] {
                 path1.pop();
-                return BipartiteWitness::OddCycle(path1);   
-            }
-
-            // If v == parent1 then path2 is already an odd cycle
-            if path2.len() > 1 && path2.first() == path2.last() {
                 path2.pop();
-                return BipartiteWitness::OddCycle(path2);   
-            }            
-
-            // path2 = parent2 ... x root  (for some vertex x, potentially x = parent2)
-            path2.pop();     
+            }
 
-            // path2 = parent2 ... x
-            path2.reverse(); 
-            // path2 = x ... parent2
-        
+            // path1: parent1 ... x
+            // path2: v parent2 ... x
+            path2.pop();
+            path2.reverse();
 
             // Create odd cycle by concatenating paths
-            path1.append(&mut path2); // root ... parent1 v parent2 ... x
+            path1.append(&mut path2); // parent1 ... x ... parent2 v
 
             return BipartiteWitness::OddCycle(path1);
         };
-- 
2.43.0


From a4900f0851cd8498f83772e7813328b432b05ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:01 +0000
Subject: [PATCH 18/25] fix: degeneracy bounds and core numbers beyond 128

---
 src/algorithms/graph.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/algorithms/graph.rs b/src/algorithms/graph.rs
index 01a635d..c76e87d 100644
--- a/src/algorithms/graph.rs
+++ b/src/algorithms/graph.rs
@@ -83,6 +83,15 @@ impl<G> GraphAlgorithms for G where G: Graph {
                     .trailing_zeros() as usize
         }
 
+        // The smallest and largest value which belongs to the bucket with this index.
+        fn bucket_range(ix: u32) -> (u32, u32) {
+            if ix <= 128 {
+                (ix, ix)
+            } else {
+                (128 + (1 << (ix - 129)), 127 + (1 << (ix - 128)))
+            }
+        }
+
         let mut deg_dict = VertexMap::default();
         let mut core_numbers = VertexMap::default();        
         let mut buckets = FxHashMap::<i32, FxHashSet<Vertex>>::default();
@@ -138,18 +147,12 @@ impl<G> GraphAlgorithms for G where G: Graph {
                 // Updated degree
                 deg_dict.entry(*u).and_modify(|e| *e -= 1);
             }
-            core_numbers.insert(v, core_num);
+            core_numbers.insert(v, bucket_range(core_num).1);
             order.push(v);
         }
 
-        // Compute lower bound for core number. 
-        let ix = calc_index(core_num) as u32; 
-        let lower = if ix <= 129 {       
-            ix
-        } else {
-            129 + (1 << ((ix - 129 - 1) as u32 ))
-        };
-        let upper = core_num;                  
+        // The bucket index only determines the degeneracy up to the size of the bucket.
+        let (lower, upper) = bucket_range(core_num);
 
         order.reverse(); // The reverse order is more natural to us (small left-degree)
         (lower, upper, order, core_numbers)
-- 
2.43.0


From 347d8866d550057d5ee4d63c6cb373332309f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 19/25] fix: DTFArcIterator returns every arc with its
 orientation

---
 src/iterators.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/iterators.rs b/src/iterators.rs
index 04e52cd..b2633e2 100644
--- a/src/iterators.rs
+++ b/src/iterators.rs
@@ -419,12 +419,8 @@ impl Iterator for DTFArcIterator<'_> {
                 continue;
             }
 
-            // Tie-breaking so we only return every edge once
-            let u = *uu.unwrap();
-            if self.curr_v > u {
-                continue;
-            }
-            return Some((self.curr_v, u));
+            // Every arc is stored exactly once, at its head
+            return Some((*uu.unwrap(), self.curr_v));
         }
 
         None
-- 
2.43.0


From f8ffa44cd4d1bc3314ddda0640623c2a6ba00b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 20/25] fix: adding arcs to or viewing layers of a DTFGraph
 keeps its augmentation depth

---
 src/dtfgraph.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 2c9d107..0fe4cc1 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -282,7 +282,7 @@ impl DTFGraph {
     }
 
     pub fn add_vertex(&mut self, u: Vertex) {
-        let d = self.depth;
+        let d = self.ms.len();
         self.nodes.entry(u).or_insert_with(||  DTFNode::new(d));
     }
 
@@ -339,20 +339,22 @@ impl DTFGraph {
         H
     }
 
+    /// Reserves space for arcs up to weight `depth`, this does not change
+    /// the depth of the augmentation.
     fn reserve_depth(&mut self, depth:usize) {
-        if self.depth < depth {
+        if self.ms.len() < depth {
             for (_, node) in self.nodes.iter_mut() {
                 node.reserve_depth(depth);
             }
-            self.ms.push(0);
+            self.ms.resize(depth, 0);
         }
-        self.depth = depth;
     }
 
     pub fn add_arc(&mut self, u:&Vertex, v:&Vertex, depth:usize) {
         self.reserve_depth(depth);
+        self.depth = max(self.depth, depth);
 
-        let d = self.depth;
+        let d = self.ms.len();
         let inserted = {
             let nodeV = self.nodes.entry(*v).or_insert_with(||  DTFNode::new(d));
             if nodeV.in_arcs.get_mut(depth-1).unwrap().insert(*u) {
@@ -448,8 +450,8 @@ impl DTFGraph {
             let mut fGraph = EditGraph::new();
             let mut tArcs = FxHashSet::<Arc>::default();
 
-            // This updates self.depth!
-            self.reserve_depth(self.depth+1);
+            self.depth += 1;
+            self.reserve_depth(self.depth);
 
             // Collect fraternal edges and transitive arcs
             for u in self.vertices() {
-- 
2.43.0


From 883bb0bc8b016ab709c154961b532bf8ccad3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:35 +0000
Subject: [PATCH 21/25] fix: small_distance of a vertex to itself is zero

---
 src/dtfgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 0fe4cc1..1d510ea 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -415,6 +415,10 @@ impl DTFGraph {
     /// Returns the distance between the vertices `u` and `v` if it
     /// it smaller than the depth of the augmentation. Otherwise returns `None`.
     pub fn small_distance(&self, u:&Vertex, v:&Vertex) -> Option<u32> {
+        if u == v {
+            return Some(0)
+        }
+
         let mut dist = u32::MAX;
 
         if let Some(d) = self.get_arc_depth(u, v) {
-- 
2.43.0


From 4f416a8a3ed2f3bf5cd0e6cbd87340146df9e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:38 +0000
Subject: [PATCH 22/25] fix: DTFLayer degrees and adjacency only consider the
 arcs of its depth

---
 src/dtfgraph.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dtfgraph.rs b/src/dtfgraph.rs
index 1d510ea..70c01ec 100644
--- a/src/dtfgraph.rs
+++ b/src/dtfgraph.rs
@@ -61,11 +61,11 @@ impl Graph for DTFLayer<'_> {
     }
 
     fn adjacent(&self, u:&Vertex, v:&Vertex) -> bool {
-        self.graph.adjacent(u, v)
+        self.has_arc(u, v) || self.has_arc(v, u)
     }
 
     fn degree(&self, u:&Vertex) -> u32 {
-        self.graph.degree(u)
+        self.in_degree(u) + self.out_degree(u)
     }
 
     fn vertices<'b>(&'b self) -> Box<dyn Iterator<Item=&'b Vertex> + 'b> {
@@ -85,11 +85,11 @@ impl Digraph for DTFLayer<'_> {
     }
 
     fn in_degree(&self, u:&Vertex) -> u32 {
-        self.graph.in_degree(u)
+        self.graph.nodes.get(u).unwrap().in_degree_at(self.depth)
     }
 
     fn out_degree(&self, u:&Vertex) -> u32 {
-        self.graph.out_degree(u)
+        self.graph.nodes.get(u).unwrap().out_degree_at(self.depth)
     }
 
     fn neighbours<'a>(&'a self, _:&Vertex) -> Box<dyn Iterator<Item=&'a Vertex> + 'a> {
@@ -163,7 +163,7 @@ impl DTFNode {
     }
 
     pub fn in_neighbours_at(&self, depth:usize) ->  Box<dyn Iterator<Item=&Vertex> + '_> {
-        Box::new(self.in_arcs.get(depth-1).unwrap().iter())
+        Box::new(self.in_arcs.get(depth-1).into_iter().flatten())
     }
 
     pub fn in_degree(&self) -> u32 {
@@ -174,6 +174,14 @@ impl DTFNode {
         self.out_degs.iter().sum1::<u32>().unwrap() 
     }
 
+    fn in_degree_at(&self, depth:usize) -> u32 {
+        self.in_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
+    fn out_degree_at(&self, depth:usize) -> u32 {
+        self.out_degs.get(depth-1).copied().unwrap_or(0)
+    }
+
     pub fn degree(&self) -> u32 {
         self.out_degree()+self.in_degree()
     }
-- 
2.43.0


From d76c8d8df22909cf90c962a9fcac412ebdec72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 23/25] fix: OrdGraph counts antiparallel arcs of a digraph as
 one edge

---
 src/ordgraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ordgraph.rs b/src/ordgraph.rs
index 046235e..2e72002 100644
--- a/src/ordgraph.rs
+++ b/src/ordgraph.rs
@@ -85,7 +85,9 @@ impl OrdGraph {
             }
         }
 
-        OrdGraph {nodes, indices, m: graph.num_edges()}
+        // Antiparallel arcs of a digraph are only one edge here
+        let m = nodes.iter().map(|n| n.left.len()).sum();
+        OrdGraph {nodes, indices, m}
     }
 
     pub fn to_degeneracy_graph(&self) -> DegenGraph {
-- 
2.43.0


From ce5517baf3c590519cf91e6b877be744474c31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 24/25] fix: DegenGraph::with_ordering stores each left
 neighbour once for antiparallel arcs

---
 src/degengraph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/degengraph.rs b/src/degengraph.rs
index 3c82b3e..fd802c4 100644
--- a/src/degengraph.rs
+++ b/src/degengraph.rs
@@ -44,6 +44,7 @@ impl DegenGraph {
                 }
             }
             L.sort_unstable();
+            L.dedup(); // Antiparallel arcs of a digraph are only one edge here
 
             let L = L.iter().map(|(_,v)| *v).collect();
             builder.append(u, &L);
-- 
2.43.0


From 4ea324a889c3357020bdbb22dc5cee77ad5c153f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 25/25] fix: compute_traces panics instead of undefined
 behaviour on unsorted or repeated vertices

---
 src/datastructures/sreach_trace_oracle.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/datastructures/sreach_trace_oracle.rs b/src/datastructures/sreach_trace_oracle.rs
index cd53061..3a0e223 100644
--- a/src/datastructures/sreach_trace_oracle.rs
+++ b/src/datastructures/sreach_trace_oracle.rs
@@ -173,9 +173,7 @@ impl SReachTraceOracle {
 
                 // Correct count for prefix
                 let set_prefix = &set[..set.len()-1];
-                unsafe {
-                    *traces.get_mut(set_prefix).unwrap_unchecked() -= count; // This entry must exist
-                }
+                *traces.get_mut(set_prefix).expect("`inner` must be sorted") -= count;
             }
         }
 
@@ -210,10 +208,9 @@ impl SReachTraceOracle {
                 }
             }
 
-            // Correct count for prefix. This key must exist in `traces`
-            unsafe {
-                *traces.get_mut(&trace_prefix).unwrap_unchecked() -= 1;
-            }
+            // Correct count for prefix. This key exists in `traces` if `inner` is sorted
+            // and contains every vertex only once.
+            *traces.get_mut(&trace_prefix).expect("`inner` must not contain duplicates") -= 1;
         }
         // println!("Final traces {traces:?}");
 
-- 
2.43.0


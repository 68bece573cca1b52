From 02e44bc12e293acaaa49cd3b2f7b4316798ace2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 1/8] fix: pair DBSCAN centroids with their own cluster IDs

centroids() followed the iteration order of a randomly seeded HashMap while
callers index count_at() by position, so a swatch could report the share of
another cluster, differently on every run.
---
 src/math/clustering/dbscan/algorithm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/math/clustering/dbscan/algorithm.rs b/src/math/clustering/dbscan/algorithm.rs
index 7ac2859..6b5e449 100644
--- a/src/math/clustering/dbscan/algorithm.rs
+++ b/src/math/clustering/dbscan/algorithm.rs
@@ -5,7 +5,7 @@ use crate::math::neighbors::kdtree::KDTree;
 use crate::math::neighbors::nns::{Neighbor, NeighborSearch};
 use crate::math::number::Float;
 use crate::math::point::Point;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{BTreeMap, HashMap, VecDeque};
 use std::marker::PhantomData;
 
 /// DBSCAN clustering algorithm.
@@ -16,7 +16,7 @@ where
     P: Point<F>,
 {
     _t: PhantomData<F>,
-    centroids: HashMap<usize, P>,
+    centroids: BTreeMap<usize, P>,
     membership: HashMap<usize, Vec<usize>>,
     outliers: Vec<usize>,
 }
@@ -26,7 +26,7 @@ where
     F: Float,
     P: Point<F>,
 {
-    /// Return a set of centroid.
+    /// Return the centroids in ascending order of cluster ID.
     pub fn centroids(&self) -> Vec<P> {
         self.centroids
             .values()
@@ -103,7 +103,7 @@ where
         if dataset.is_empty() {
             return DBSCAN {
                 _t: PhantomData::default(),
-                centroids: HashMap::new(),
+                centroids: BTreeMap::new(),
                 membership: HashMap::new(),
                 outliers: Vec::new(),
             };
@@ -131,7 +131,7 @@ where
             cluster_id += 1;
         }
 
-        let mut centroids: HashMap<usize, P> = HashMap::new();
+        let mut centroids: BTreeMap<usize, P> = BTreeMap::new();
         let mut membership: HashMap<usize, Vec<usize>> = HashMap::new();
         let mut outliers: Vec<usize> = Vec::new();
         for (index, label) in labels.into_iter().enumerate() {
-- 
2.43.0


From bee67334ed93766ccaba1f354b805c29a33c1d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:03 +0000
Subject: [PATCH 2/8] fix: limit sRGB channels to 0..255 when converting from
 XYZ

The mean CIELAB colour of a group of pixels can lie outside of the sRGB
gamut, which made the extraction panic.
---
 src/color/rgba.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/color/rgba.rs b/src/color/rgba.rs
index f482a27..75f54ec 100644
--- a/src/color/rgba.rs
+++ b/src/color/rgba.rs
@@ -124,7 +124,10 @@ impl Rgba {
 
     #[must_use]
     fn normalize_value<F: Float>(value: F) -> u8 {
-        value.to_u8().expect("The value could not be cast to u8")
+        value
+            .clamp(F::zero(), Self::max_value())
+            .to_u8()
+            .expect("The value could not be cast to u8")
     }
 }
 
-- 
2.43.0


From cbda4fd20028f66a00bcffb164f30b48778e0dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:07 +0000
Subject: [PATCH 3/8] fix: never seed K-means with the same sample twice

Inserting into the list of selected flags shifted the flags of the following
samples, and K-means++ picked already selected samples when all distances
were zero.
---
 src/math/clustering/kmeans/init.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math/clustering/kmeans/init.rs b/src/math/clustering/kmeans/init.rs
index 4c99b36..aac231e 100644
--- a/src/math/clustering/kmeans/init.rs
+++ b/src/math/clustering/kmeans/init.rs
@@ -52,7 +52,7 @@ where
 
             let point = dataset.get(index);
             if let Some(centroid) = point {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(*centroid);
             }
         }
@@ -69,17 +69,14 @@ where
         let mut centroids = Vec::with_capacity(k);
 
         let index = rng.gen_range(0..dataset.len());
-        selected.insert(index, true);
+        selected[index] = true;
         centroids.push(dataset[index]);
         while centroids.len() < k {
             let furthest = dataset
                 .iter()
                 .enumerate()
+                .filter(|(index, _)| !selected[*index])
                 .map(|(index, point)| -> (usize, F) {
-                    if selected[index] {
-                        return (index, F::zero());
-                    }
-
                     let min_distance = centroids
                         .iter()
                         .map(|centroid| metric.measure(point, centroid))
@@ -93,7 +90,7 @@ where
                 .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap_or(Ordering::Greater));
 
             if let Some((index, _)) = furthest {
-                selected.insert(index, true);
+                selected[index] = true;
                 centroids.push(dataset[index]);
             } else {
                 break;
-- 
2.43.0


From d3504bfcbcf599f12033ce8253814918e74290c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 4/8] fix: do not double the centroids of K-means with one
 sample per cluster

---
 src/math/clustering/kmeans/algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index f0affa6..667879d 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -97,7 +97,7 @@ where
                 .iter()
                 .enumerate()
                 .map(|(index, data)| {
-                    let mut cluster = Cluster::new(data);
+                    let mut cluster = Cluster::new(&P::zero());
                     cluster.insert(index, data);
                     cluster
                 })
-- 
2.43.0


From 3cf6d4c4cf98a135bf0a1d4126390946b79e661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:15 +0000
Subject: [PATCH 5/8] fix: run K-means until every centroid has settled, not
 just one

---
 src/math/clustering/kmeans/algorithm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 667879d..242b48b 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -58,7 +58,7 @@ where
             }
         });
 
-        let mut converged = false;
+        let mut converged = true;
         clusters
             .iter_mut()
             .zip(centroids)
@@ -70,8 +70,8 @@ where
                 cluster.update_centroid();
 
                 let difference = metric.measure(&old_centroid, cluster.centroid());
-                if difference < tolerance {
-                    converged = true;
+                if !(difference < tolerance) {
+                    converged = false;
                 }
             });
         converged
-- 
2.43.0


From ca8c7cd2f3c8d8b7913ed9fc422270044e1d22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 6/8] fix: keep the centroid of a K-means cluster that lost all
 its samples

The centroid became the origin, which may be far away from every sample.
---
 src/math/clustering/kmeans/algorithm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math/clustering/kmeans/algorithm.rs b/src/math/clustering/kmeans/algorithm.rs
index 242b48b..c14f88b 100644
--- a/src/math/clustering/kmeans/algorithm.rs
+++ b/src/math/clustering/kmeans/algorithm.rs
@@ -64,6 +64,7 @@ where
             .zip(centroids)
             .for_each(|(cluster, old_centroid)| {
                 if cluster.is_empty() {
+                    *cluster = Cluster::new(&old_centroid);
                     return;
                 }
 
-- 
2.43.0


From 49e14d5975577e5aaf0ea4c9a457e186768d0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 7/8] fix: prune the k-d tree by the distance in its own metric

Squared distances and radii were compared with the plain distance to the
splitting plane, so nearer points on the other side were missed.
---
 src/math/neighbors/kdtree/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/math/neighbors/kdtree/mod.rs b/src/math/neighbors/kdtree/mod.rs
index dd58d37..5209044 100644
--- a/src/math/neighbors/kdtree/mod.rs
+++ b/src/math/neighbors/kdtree/mod.rs
@@ -69,7 +69,7 @@ where
             query[axis] - point[axis]
         };
         let distance = heap.peek().map(|e| e.distance()).unwrap_or(F::min_value());
-        if heap.len() < k || delta.abs() <= distance {
+        if heap.len() < k || self.plane_distance(delta) <= distance {
             self.search_recursively(node.left(), query, k, heap);
             self.search_recursively(node.right(), query, k, heap);
         } else if delta < F::zero() {
@@ -101,7 +101,7 @@ where
             let axis = node.axis();
             query[axis] - point[axis]
         };
-        if delta.abs() <= radius {
+        if self.plane_distance(delta) <= radius {
             self.search_radius_recursively(node.left(), query, radius, results);
             self.search_radius_recursively(node.right(), query, radius, results);
         } else if delta < F::zero() {
@@ -111,6 +111,14 @@ where
         }
     }
 
+    /// Return the distance to a splitting plane in the metric of this tree.
+    fn plane_distance(&self, delta: F) -> F {
+        match self.metric {
+            DistanceMetric::Euclidean => delta.abs(),
+            DistanceMetric::SquaredEuclidean => delta.powi(2),
+        }
+    }
+
     fn build_node(dataset: &'a [P], indices: &mut [usize], depth: usize) -> Option<Node> {
         if dataset.is_empty() || indices.is_empty() {
             return None;
-- 
2.43.0


From 2ebd261616fcf2c22950794965476f53c11344aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 8/8] Entry points for deterministic simulation, behind --cfg
 auto_palette_dst

---
 src/dst_hooks.rs                        | 167 ++++++++++++++++++++++++
 src/lib.rs                              |   5 +
 src/math/clustering/hierarchical/mod.rs |   3 +
 3 files changed, 175 insertions(+)
 create mode 100644 src/dst_hooks.rs

diff --git a/src/dst_hooks.rs b/src/dst_hooks.rs
new file mode 100644
index 0000000..d550662
--- /dev/null
+++ b/src/dst_hooks.rs
@@ -0,0 +1,167 @@
+//! Entry points for the deterministic simulation in which this crate is verified.
+//!
+//! Only compiled with `--cfg auto_palette_dst`, never part of a normal build. Every function hands plain
+//! values to one internal component and returns what that component reports.
+#![allow(missing_docs)]
+use crate::math::clustering::dbscan::algorithm::DBSCAN;
+use crate::math::clustering::dbscan::params::Params;
+use crate::math::clustering::hierarchical::HierarchicalClustering;
+use crate::math::clustering::kmeans::algorithm::Kmeans;
+use crate::math::clustering::kmeans::init::Initializer;
+use crate::math::clustering::kmeans::params::KmeansParams;
+use crate::math::clustering::traits::Fit;
+use crate::math::distance::metric::DistanceMetric;
+use crate::math::graph::edge::Edge;
+use crate::math::graph::spanning_tree::{MinimumSpanningTree, SpanningTree};
+use crate::math::number::Float;
+use crate::math::point::{Point, Point2, Point3, Point5};
+use rand::Rng;
+
+/// The k-means parameters of a run.
+#[derive(Clone, Debug)]
+pub struct KmeansConfig {
+    pub k: usize,
+    pub plus_plus: bool,
+    pub squared: bool,
+    pub max_iterations: usize,
+    pub tolerance: f64,
+}
+
+/// Centroids and sizes of clusters.
+pub type Clusters<F> = Vec<(Vec<F>, usize)>;
+
+fn metric(squared: bool) -> DistanceMetric {
+    if squared {
+        DistanceMetric::SquaredEuclidean
+    } else {
+        DistanceMetric::Euclidean
+    }
+}
+
+fn initializer<R: Rng + Clone>(plus_plus: bool, rng: R) -> Initializer<R> {
+    if plus_plus {
+        Initializer::KmeansPlusPlus(rng)
+    } else {
+        Initializer::Random(rng)
+    }
+}
+
+macro_rules! with_points {
+    ($dim:expr, $points:expr, |$dataset:ident| $body:expr) => {
+        match $dim {
+            2 => {
+                let $dataset: Vec<Point2<F>> = $points.iter().map(|p| Point2(p[0], p[1])).collect();
+                $body
+            }
+            3 => {
+                let $dataset: Vec<Point3<F>> =
+                    $points.iter().map(|p| Point3(p[0], p[1], p[2])).collect();
+                $body
+            }
+            _ => {
+                let $dataset: Vec<Point5<F>> = $points
+                    .iter()
+                    .map(|p| Point5(p[0], p[1], p[2], p[3], p[4]))
+                    .collect();
+                $body
+            }
+        }
+    };
+}
+
+/// The seeds picked for every use of the same initializer, `times` times in a row.
+pub fn seeds<F: Float, R: Rng + Clone>(
+    dim: usize,
+    points: &[Vec<F>],
+    config: &KmeansConfig,
+    rng: R,
+    times: usize,
+) -> Vec<Vec<Vec<F>>> {
+    let initializer = initializer(config.plus_plus, rng);
+    let metric = metric(config.squared);
+    with_points!(dim, points, |dataset| {
+        (0..times)
+            .map(|_| {
+                initializer
+                    .initialize(&dataset, config.k, &metric)
+                    .iter()
+                    .map(|point| point.to_vec())
+                    .collect()
+            })
+            .collect()
+    })
+}
+
+/// The clusters of every fit with the same parameters, `times` times in a row.
+pub fn kmeans<F: Float, R: Rng + Clone>(
+    dim: usize,
+    points: &[Vec<F>],
+    config: &KmeansConfig,
+    rng: R,
+    times: usize,
+) -> Vec<Clusters<F>> {
+    let initializer = initializer(config.plus_plus, rng);
+    let params = KmeansParams::new(config.k, metric(config.squared), initializer)
+        .with_max_iterations(config.max_iterations)
+        .with_tolerance(F::from_f64(config.tolerance));
+    with_points!(dim, points, |dataset| {
+        (0..times)
+            .map(|_| {
+                let kmeans = Kmeans::fit(&dataset, &params);
+                kmeans
+                    .centroids()
+                    .iter()
+                    .enumerate()
+                    .map(|(index, centroid)| (centroid.to_vec(), kmeans.count_at(index)))
+                    .collect()
+            })
+            .collect()
+    })
+}
+
+/// The clusters and outliers of a density clustering.
+pub fn density<F: Float>(
+    dim: usize,
+    points: &[Vec<F>],
+    min_points: usize,
+    epsilon: F,
+    squared: bool,
+) -> (Clusters<F>, Vec<usize>) {
+    let params = Params::new(min_points, epsilon, metric(squared));
+    with_points!(dim, points, |dataset| {
+        let dbscan = DBSCAN::fit(&dataset, &params);
+        let clusters = dbscan
+            .centroids()
+            .iter()
+            .enumerate()
+            .map(|(index, centroid)| (centroid.to_vec(), dbscan.count_at(index)))
+            .collect();
+        (clusters, dbscan.outliers())
+    })
+}
+
+/// The total weight and the edges of a spanning tree of `n` vertices.
+pub fn spanning_tree<F: Float, WF: Fn(usize, usize) -> F>(
+    n: usize,
+    weight_fn: WF,
+) -> (F, Vec<(usize, usize, F)>) {
+    let vertices: Vec<usize> = (0..n).collect();
+    let tree = MinimumSpanningTree::build(&vertices, weight_fn);
+    let edges = tree
+        .edges()
+        .iter()
+        .map(|edge| (edge.u(), edge.v(), edge.weight()))
+        .collect();
+    (tree.weight(), edges)
+}
+
+/// The labels of `n` samples for every requested number of groups.
+pub fn partitions<F: Float, WF: Fn(usize, usize) -> F>(
+    n: usize,
+    ks: &[usize],
+    weight_fn: WF,
+) -> Vec<Vec<usize>> {
+    let dataset: Vec<usize> = (0..n).collect();
+    let clustering = HierarchicalClustering::fit(&dataset, weight_fn);
+    ks.iter().map(|k| clustering.partition(*k)).collect()
+}
diff --git a/src/lib.rs b/src/lib.rs
index b005593..cda0379 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,9 @@
+#![allow(unexpected_cfgs)]
+
 mod color;
+#[cfg(auto_palette_dst)]
+#[doc(hidden)]
+pub mod dst_hooks;
 pub mod image;
 mod math;
 pub mod swatch;
diff --git a/src/math/clustering/hierarchical/mod.rs b/src/math/clustering/hierarchical/mod.rs
index 868c28e..4a341d6 100644
--- a/src/math/clustering/hierarchical/mod.rs
+++ b/src/math/clustering/hierarchical/mod.rs
@@ -1,3 +1,6 @@
 mod algorithm;
 mod node;
 mod union_find;
+
+#[cfg(auto_palette_dst)]
+pub(crate) use algorithm::HierarchicalClustering;
-- 
2.43.0


From bab796229b6ceaca6fc37b246a5eef658428767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:19 +0000
Subject: [PATCH 01/18] fix: pair each removed signature with its own id in
 MinHashIndex::bulk_remove

Signatures of ids that are not in the index were filtered out before being
zipped with the unfiltered id list, so an unknown or repeated id shifted the
pairing and left the remaining ids in the band tables.
---
 gaoya/src/minhash/minhash_index.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 8a7d996..df51ac2 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -700,16 +700,16 @@ where
         where
             Id: Hash + Eq + Clone + Send + Sync,
             T: Send + Sync {
-        let sigs: Vec<Vec<T>> = ids.iter()
-            .filter_map(|id| self.id_signatures.remove(id))
+        let removed: Vec<(&Id, Vec<T>)> = ids.iter()
+            .filter_map(|id| self.id_signatures.remove(id).map(|sig| (id, sig)))
             .collect();
 
         self.bands.par_iter_mut()
             .for_each(|band| {
-                sigs.iter().zip(ids)
-                    .for_each(|(sig, id)| band.remove(id, sig))
+                removed.iter()
+                    .for_each(|(id, sig)| band.remove(id, sig))
             });
-        sigs
+        removed.into_iter().map(|(_, sig)| sig).collect()
     }
 
     pub fn size(&self) -> usize {
-- 
2.43.0


From e8c84fcb003cf3706c138b11751b8ddbda85f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:24 +0000
Subject: [PATCH 02/18] fix: skip stale band entries in similarity-returning
 and top-k queries

query and query_owned ignore ids that are left in a band after being
overwritten and removed; query_owned_return_similarity and query_top_k
panicked on them.
---
 gaoya/src/minhash/minhash_index.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index df51ac2..d2a9b2c 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -628,10 +628,12 @@ where
         }
         let mut result = Vec::new();
         for id in match_ids.into_iter() {
-            let signature = &self.id_signatures[&id];
-            let similarity = compute_minhash_similarity(signature, query_signature);
-            if similarity >= self.threshold {
-                result.push((id, similarity))
+            // Bands may still hold ids that were overwritten and then removed
+            if let Some(signature) = self.id_signatures.get(&id) {
+                let similarity = compute_minhash_similarity(signature, query_signature);
+                if similarity >= self.threshold {
+                    result.push((id, similarity))
+                }
             }
         }
         result.sort_unstable_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
@@ -647,10 +649,10 @@ where
         }
         let mut ids_distances: Vec<(Id, f64)> = match_ids
             .into_iter()
-            .map(|id| {
-                let signature = &self.id_signatures[&id];
+            .filter_map(|id| {
+                let signature = self.id_signatures.get(&id)?;
                 let distance = compute_minhash_distance(query_signature, signature);
-                (id, distance)
+                Some((id, distance))
             })
             .collect();
         ids_distances.sort_unstable_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
-- 
2.43.0


From 846fec432c382f3a5bd15c6ca19a1106a4da55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:29 +0000
Subject: [PATCH 03/18] fix: let MinHashIndex::query_one accept a similarity
 equal to the threshold

All other queries use similarity >= threshold.
---
 gaoya/src/minhash/minhash_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index d2a9b2c..f28b33b 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -539,7 +539,7 @@ where
             .map(|id| (id, self.id_signatures.get(&id)))
             .filter(|(id, sig)| sig.is_some())
             .map(|(id, sig)| (id, compute_minhash_similarity(sig.unwrap(), query_signature)))
-            .filter(|pair| pair.1 > self.threshold)
+            .filter(|pair| pair.1 >= self.threshold)
             .max_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
     }
 
-- 
2.43.0


From f9c9264bd4d5b18124a15d7391ebf62658a334d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:34 +0000
Subject: [PATCH 04/18] fix: do not panic in MinHashIndex::shrink_to on empty
 or all-distinct contents

An index without similar documents has as many buckets as documents
(ratio 1.0), and an empty one gave 0/0.
---
 gaoya/src/minhash/minhash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index f28b33b..0d393cb 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -486,8 +486,8 @@ where
             .for_each(|band| {
                 // On average the size of every band will be lower than the size of
                 // id_signatures. We adjust the desired capacity.
-                let ratio = band.hash_table.len() as f64 / self.id_signatures.len() as f64;
-                assert!(ratio < 1.0);
+                let num_points = self.id_signatures.len().max(1);
+                let ratio = (band.hash_table.len() as f64 / num_points as f64).min(1.0);
                 let adjusted_capacity = (min_capacity as f64 * ratio) as usize;
                 band.shrink_to(adjusted_capacity)
             });
-- 
2.43.0


From 5b7e84f7edb4d1e32c440e193a4f6b97dbdc4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:42 +0000
Subject: [PATCH 05/18] fix: SimHashIndex::size returns the number of indexed
 ids instead of always 0

---
 gaoya/src/simhash/sim_hash_index.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index ac56fe0..66ebc3e 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -102,7 +102,6 @@ where
     hash_tables: Vec<SimHashTable<S, Id>>,
     id_signatures: AHashMap<Id, S>,
     marker: PhantomData<(S, Id)>,
-    size: usize,
 }
 
 impl<S, Id> SimHashIndex<S, Id>
@@ -123,7 +122,6 @@ where
                 .collect()),
             id_signatures: AHashMap::default(),
             marker: PhantomData,
-            size: 0,
         }
     }
 
@@ -225,7 +223,7 @@ where
     }
 
     pub fn size(&self) -> usize {
-        self.size
+        self.id_signatures.len()
     }
 
     fn avg_bucket_count(&self) -> usize {
-- 
2.43.0


From e3a4e3d8236329c7aadc1dddc5dafa552038c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:47 +0000
Subject: [PATCH 06/18] fix: include entries at exactly the configured Hamming
 distance in SimHashIndex queries

The tables are built so that every signature within max distance is a
candidate; the filter then dropped those at the maximum, so that an index
with distance 0 did not even find identical signatures.
---
 gaoya/src/simhash/sim_hash_index.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/simhash/sim_hash_index.rs b/gaoya/src/simhash/sim_hash_index.rs
index 66ebc3e..1a3b542 100644
--- a/gaoya/src/simhash/sim_hash_index.rs
+++ b/gaoya/src/simhash/sim_hash_index.rs
@@ -54,7 +54,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     });
                 match_ids.extend(matches);
             }
@@ -75,7 +75,7 @@ where
                     .iter()
                     .filter(|id| {
                         let signature = id_signatures.get(id).unwrap();
-                        query_signature.hamming_distance(signature) < max_distance
+                        query_signature.hamming_distance(signature) <= max_distance
                     }).cloned();
                 match_ids.extend(matches);
             }
-- 
2.43.0


From a26590afa432ed53b118de9bff84dca6d8b6589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:18 +0000
Subject: [PATCH 07/18] fix: MultiShingles keeps the shorter shingles at the
 end of the input

The iterator ended at the first position where a shingle of some size did
not fit, dropping the shorter shingles of the remaining positions whenever
the range spans three or more sizes.
---
 gaoya/src/text/multi_shingles.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gaoya/src/text/multi_shingles.rs b/gaoya/src/text/multi_shingles.rs
index ff8ab62..5754165 100644
--- a/gaoya/src/text/multi_shingles.rs
+++ b/gaoya/src/text/multi_shingles.rs
@@ -28,6 +28,11 @@ impl<'a, T> Iterator for MultiShingles<'a, [T]> {
     type Item = &'a [T];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.data.len() < self.size && self.size > self.from_size && !self.data.is_empty() {
+            // Larger shingles no longer fit here, continue with the next position
+            self.size = self.from_size;
+            self.data = &self.data[self.step..];
+        }
         if self.data.len() >= self.size {
             let ret = &self.data[0..self.size];
             self.size += 1;
@@ -79,8 +84,9 @@ impl<'a> Iterator for MultiShingles<'a, str> {
         };
 
         // move data slice to next step position
+        let larger_does_not_fit = ret.is_none() && self.size > self.from_size;
         self.size += 1;
-        if self.size > self.to_size {
+        if self.size > self.to_size || larger_does_not_fit {
             self.size = self.from_size;
             if pos_next != 0 {
                 self.data = &self.data[pos_next..];
@@ -89,6 +95,10 @@ impl<'a> Iterator for MultiShingles<'a, str> {
             }
         }
 
+        if larger_does_not_fit && !self.data.is_empty() {
+            // Larger shingles no longer fit here, continue with the next position
+            return self.next();
+        }
         ret
     }
 }
-- 
2.43.0


From 16e753c0e8c7cdfbe555694dc2966b768e2ce4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:54 +0000
Subject: [PATCH 08/18] fix: do not reuse the last document id in
 load_from_file_parallel

insert uses doc_id + 1 for the next document, the parallel loader started
at doc_id and replaced the last document added before the load.
---
 gaoya/src/minhash/string_index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index 4f8e947..b899fc1 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -80,7 +80,7 @@ impl MinHashStringIndex {
                 let lines: Vec<(u64, String)> = reader
                     .lines()
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From 30d248d98dfab2f81c6a19ff84a8de05dc1db0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:00 +0000
Subject: [PATCH 09/18] fix: handle unreadable lines alike in the serial and
 parallel string index loaders

The parallel loader panicked on a line that is not valid UTF-8, which the
serial loader skips, and the serial loader never ended when the reader keeps
failing, as reading a directory does.
---
 gaoya/src/minhash/string_index.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/gaoya/src/minhash/string_index.rs b/gaoya/src/minhash/string_index.rs
index b899fc1..bb4ba09 100644
--- a/gaoya/src/minhash/string_index.rs
+++ b/gaoya/src/minhash/string_index.rs
@@ -6,7 +6,7 @@ use std::collections::HashMap;
 use std::fmt;
 use std::fmt::{Display, Formatter, write};
 use std::fs::File;
-use std::io::{BufRead, BufReader, Error};
+use std::io::{BufRead, BufReader, Error, ErrorKind};
 use std::io::{Read, Write};
 use fnv::FnvBuildHasher;
 
@@ -26,6 +26,18 @@ impl Display for MinHashStringIndex {
     }
 }
 
+/// Iterates over the lines of the reader, skipping the ones that are not valid UTF-8.
+/// Any other error ends the iteration, since it may be returned forever.
+fn valid_lines<B: BufRead>(reader: B) -> impl Iterator<Item = String> {
+    reader
+        .lines()
+        .take_while(|line| match line {
+            Ok(_) => true,
+            Err(e) => e.kind() == ErrorKind::InvalidData,
+        })
+        .filter_map(|line| line.ok())
+}
+
 impl MinHashStringIndex {
 
     pub fn new(num_bands: usize, band_width: usize, jaccard_threshold: f64) -> Self {
@@ -51,11 +63,8 @@ impl MinHashStringIndex {
     }
 
     pub fn load_from_lines<R: Read>(&mut self, reader: &mut BufReader<R>) {
-        for line_result in reader.lines() {
-            match line_result {
-                Ok(line) => self.insert(line),
-                Err(e) => (),
-            }
+        for line in valid_lines(reader) {
+            self.insert(line);
         }
     }
 
@@ -77,10 +86,9 @@ impl MinHashStringIndex {
             Ok(file) => {
                 let current_size = self.size();
                 let mut reader: BufReader<File> = BufReader::new(file);
-                let lines: Vec<(u64, String)> = reader
-                    .lines()
+                let lines: Vec<(u64, String)> = valid_lines(reader)
                     .enumerate()
-                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1.unwrap()))
+                    .map(|v| (v.0 as u64 + self.doc_id + 1, v.1))
                     .collect();
                 let minhashes = lines
                     .par_iter()
-- 
2.43.0


From 563bc0cf01b4592eab6a7dda3b34d1f43a9c6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:35 +0000
Subject: [PATCH 10/18] fix: serial Clusterer creates clusters of exactly
 min_cluster_size points

As the name says, and as the parallel Clusterer does.
---
 gaoya/src/clustering/clustering_serial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index 492ba30..e29e54a 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -99,7 +99,7 @@ impl<Id> Clusterer<Id>
             let similar_points: Vec<_> = query_index.query(point).into_iter()
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
-            if similar_points.len() > self.min_cluster_size {
+            if similar_points.len() >= self.min_cluster_size {
                 cluster_id_seq += 1;
                 let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
                 clusters.push(cluster);
-- 
2.43.0


From 558750771dbb58735f56ce26899aec37c703f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:40 +0000
Subject: [PATCH 11/18] fix: serial Clusterer does not repeat cluster ids
 across calls

The sequence was copied into a local and never written back, so a second
call numbered its clusters from 1 again.
---
 gaoya/src/clustering/clustering_serial.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gaoya/src/clustering/clustering_serial.rs b/gaoya/src/clustering/clustering_serial.rs
index e29e54a..f909e83 100644
--- a/gaoya/src/clustering/clustering_serial.rs
+++ b/gaoya/src/clustering/clustering_serial.rs
@@ -90,7 +90,6 @@ impl<Id> Clusterer<Id>
                    points: &mut Vec<ClusterPoint<Id>>,
                    query_index: & (dyn QueryIndex<Id=ClusterPoint<Id>> )) -> Vec<Box<Cluster<Id>>> {
         let mut clusters = Vec::new();
-        let mut cluster_id_seq = self.cluster_id_sequence;
         for point in points {
             if point.cluster.get().is_some() {
                 continue;
@@ -100,8 +99,8 @@ impl<Id> Clusterer<Id>
                 .filter(|point| point.cluster.get().is_none())
                 .map(|p| p.clone()).collect();
             if similar_points.len() >= self.min_cluster_size {
-                cluster_id_seq += 1;
-                let cluster = self.create_new_cluster(similar_points, cluster_id_seq);
+                let cluster_id = self.new_cluster_id();
+                let cluster = self.create_new_cluster(similar_points, cluster_id);
                 clusters.push(cluster);
             }
         }
-- 
2.43.0


From 8059c70e1ec929a43a1c90abaa6cb781e505ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:45 +0000
Subject: [PATCH 12/18] fix: Clusterer::cluster_par does not panic with fewer
 points than threads

---
 gaoya/src/clustering/clusterer_parallel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index ef5ede1..9ec0dbc 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -167,7 +167,7 @@ where
         points: &mut Vec<ClusterPoint<Id>>,
         query_index: &MinHashIndex<T, ClusterPoint<Id>, C>,
     ) -> Vec<Box<Cluster<Id>>> {
-        let chunk_size = points.len() / self.n_threads;
+        let chunk_size = (points.len() / self.n_threads).max(1);
         let result: Vec<_> = points.par_chunks_mut(chunk_size)
             .map(|chunk| self.cluster_slice(chunk, query_index))
             .collect();
-- 
2.43.0


From e96d66c904bdd3899475b5a889f48f1079b0f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:16 +0000
Subject: [PATCH 13/18] fix: parallel Clusterer never assigns a point to two
 clusters or to a dropped one

The optimistic protocol could not tell committed from rolled back clusters
(both states were 1), recorded a point it had taken over in two clusters and
dereferenced pointers to clusters that another thread had already dropped.
Create clusters under a lock instead; index queries stay parallel.
---
 gaoya/src/clustering/clusterer_parallel.rs | 116 +++++----------------
 1 file changed, 26 insertions(+), 90 deletions(-)

diff --git a/gaoya/src/clustering/clusterer_parallel.rs b/gaoya/src/clustering/clusterer_parallel.rs
index 9ec0dbc..dcc5ea5 100644
--- a/gaoya/src/clustering/clusterer_parallel.rs
+++ b/gaoya/src/clustering/clusterer_parallel.rs
@@ -8,7 +8,8 @@ use std::marker::PhantomData;
 use std::pin::Pin;
 use std::ptr;
 use std::ptr::null_mut;
-use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU8, Ordering};
+use std::sync::atomic::{AtomicPtr, AtomicU32, Ordering};
+use std::sync::Mutex;
 use triomphe::Arc;
 
 /// Implementation of a parallel,  multi-threaded clustering algorithm.
@@ -85,13 +86,9 @@ impl<Id> Eq for ClusterPointInner<Id> where Id: Eq {}
 
 pub type ClusterPoint<Id> = Arc<ClusterPointInner<Id>>;
 
-const COMMITTED: u8 = 1;
-const ROLLED_BACK: u8 = 1;
-
 pub struct Cluster<Id> {
     pub points: Vec<ClusterPoint<Id>>,
     pub cluster_id: u32,
-    state: AtomicU8,
 }
 
 impl<Id> Cluster<Id> {
@@ -99,33 +96,8 @@ impl<Id> Cluster<Id> {
         Cluster {
             points: Vec::with_capacity(cluster_size),
             cluster_id: cluster_id,
-            state: AtomicU8::new(0),
         }
     }
-
-    /// cluster state machine is simple. There are only 3 possible states and 2 transitions:
-    /// NEW -> COMMITTED, NEW -> ROLLED_BACK
-
-
-    fn commit(&self) -> bool {
-        self.state
-            .compare_exchange(0, COMMITTED, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn rollback(&self) -> bool {
-        self.state
-            .compare_exchange(0, ROLLED_BACK, Ordering::Relaxed, Ordering::Relaxed)
-            .is_ok()
-    }
-
-    fn is_rolled_back(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == ROLLED_BACK
-    }
-
-    fn is_commited(&self) -> bool {
-        self.state.load(Ordering::Relaxed) == COMMITTED
-    }
 }
 
 /// Parallel Clusterer searches clusters using multiple threads
@@ -135,6 +107,7 @@ impl<Id> Cluster<Id> {
 ///
 pub struct Clusterer<T, Id> {
     cluster_id_sequence: AtomicU32,
+    create_cluster_lock: Mutex<()>,
     phandom: PhantomData<(T, Id)>,
     n_threads: usize,
     min_cluster_size: usize,
@@ -148,6 +121,7 @@ where
     pub fn new(min_cluster_size: usize, n_threads: usize) -> Self {
         Clusterer {
             cluster_id_sequence: AtomicU32::new(0),
+            create_cluster_lock: Mutex::new(()),
             phandom: PhantomData,
             n_threads: n_threads,
             min_cluster_size: min_cluster_size,
@@ -208,7 +182,7 @@ where
             if similar_points.len() >= self.min_cluster_size {
                 let mut similar_points_cloned =
                     similar_points.into_iter().map(|p| p.clone()).collect();
-                match self.try_create_cluster(&mut similar_points_cloned) {
+                match self.try_create_cluster(point, &mut similar_points_cloned) {
                     Some(cluster) => {
                         clusters.push(cluster);
                     }
@@ -219,73 +193,35 @@ where
         clusters
     }
 
-    /// Creates a new cluster given the points.
+    /// Creates a new cluster given the points similar to the `seed` point.
     /// During parallel clustering two threads may attempt to create a cluster from
-    /// similar points.
-    fn try_create_cluster(&self, points: &mut Vec<ClusterPoint<Id>>) -> Option<Box<Cluster<Id>>> {
+    /// similar points. Clusters are created one at a time: the points that another thread
+    /// has assigned in the meantime are left out, and no cluster is created if `seed` is
+    /// one of them or if too few points remain.
+    fn try_create_cluster(
+        &self,
+        seed: &ClusterPoint<Id>,
+        points: &mut Vec<ClusterPoint<Id>>,
+    ) -> Option<Box<Cluster<Id>>> {
+        let _guard = self.create_cluster_lock.lock().unwrap();
+        if seed.is_cluster_assigned() {
+            return None;
+        }
+        points.retain(|point| !point.is_cluster_assigned());
+        if points.len() < self.min_cluster_size {
+            return None;
+        }
+
         let cluster_id = self.cluster_id_sequence.fetch_add(1, Ordering::Relaxed) + 1;
         let mut cluster: Box<Cluster<Id>> =
             Box::new(Cluster::new(cluster_id, self.min_cluster_size));
         let cluster_const_ptr: *const Cluster<Id> = &*cluster;
         let cluster_ptr = cluster_const_ptr as *mut Cluster<Id>;
-
-        for mut i in 0..points.len() {
-            // Another thread may rolled us back
-            if cluster.is_rolled_back() {
-                self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            }
-            let point = &points[i];
-            match point.assign_cluster(cluster_ptr) {
-                Ok(_) => {
-                    cluster.points.push(point.clone());
-                }
-                Err(conflict_ptr) => {
-                    // This point has already been assigned a cluster by another thread,
-                    // but if the conflict cluster has not been commited we still can win this point
-                    let conflict_cluster: &mut Cluster<Id> = unsafe { &mut *conflict_ptr };
-                    if conflict_cluster.is_commited() {
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else if conflict_cluster.is_rolled_back() {
-                        i = i - 1; // go back and retry
-                    } else if (cluster_id > conflict_cluster.cluster_id) {
-                        // We loose because conflict_cluster was first
-                        cluster.rollback();
-                        self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                        return None;
-                    } else {
-                        if conflict_cluster.rollback() {
-                            cluster.points.push(point.clone());
-                        } else {
-                            // We are too late
-                            cluster.rollback();
-                            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-                            return None;
-                        }
-                    }
-                }
+        for point in points.iter() {
+            if point.assign_cluster(cluster_ptr).is_ok() {
+                cluster.points.push(point.clone());
             }
         }
-        if !cluster.commit() {
-            self.rollback_cluster_points(&mut cluster, cluster_ptr);
-            return None;
-        }
         Some(cluster)
     }
-
-    fn rollback_cluster_points(
-        &self,
-        cluster: &mut Box<Cluster<Id>>,
-        cluster_ptr: *mut Cluster<Id>,
-    ) {
-        for point in cluster.points.iter_mut() {
-            point.cluster.compare_exchange(
-                cluster_ptr,
-                null_mut(),
-                Ordering::Relaxed,
-                Ordering::Relaxed,
-            );
-        }
-    }
 }
-- 
2.43.0


From d8715cc46540b209d5db1ff8bea18d046bddaae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:47 +0000
Subject: [PATCH 14/18] fix: similarity_greater_than_threshold does not round
 the threshold down

The number of expected matches was truncated, so that e.g. 1 match of 3
passed a threshold of 0.6, unlike compute_minhash_similarity() >= 0.6.
---
 gaoya/src/minhash/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/mod.rs b/gaoya/src/minhash/mod.rs
index d8f69d1..1ef1d08 100644
--- a/gaoya/src/minhash/mod.rs
+++ b/gaoya/src/minhash/mod.rs
@@ -147,13 +147,12 @@ pub fn similarity_greater_than_threshold<T>(
 {
     assert_eq!(min_hashes_1.len(), min_hashes_2.len());
     let num_hashes = min_hashes_1.len();
-    let expected_matches = (num_hashes as f64 * threshold) as u32;
     let mut num_matches: u32 = 0;
     for pair in min_hashes_1.iter().zip(min_hashes_2.iter()) {
         if pair.0 == pair.1 {
             num_matches += 1;
         }
-        if num_matches >= expected_matches {
+        if num_matches as f64 / num_hashes as f64 >= threshold {
             return true;
         }
     }
-- 
2.43.0


From 8442aea4062cd7cbeb443b4a140e9c5d514e1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:56 +0000
Subject: [PATCH 15/18] fix: check the length of every signature in
 MinHashIndex bulk insertion

insert refuses signatures of the wrong length. Bulk insertion looked at the
first one at most: a longer signature was stored and made later queries
panic, a shorter one panicked halfway through.
---
 gaoya/src/minhash/minhash_index.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index 0d393cb..d3d7b4c 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -430,8 +430,8 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
-        if !signatures.is_empty() {
-            assert_eq!(self.num_hashes(), signatures[0].len());
+        for signature in signatures.iter() {
+            assert_eq!(self.num_hashes(), signature.len());
         }
 
         self.bands.par_iter_mut().for_each(|band| {
@@ -452,6 +452,10 @@ where
         Id: Hash + Eq + Clone + Send + Sync,
         T: Send + Sync,
     {
+        for (_, signature) in id_signature_pairs.iter() {
+            assert_eq!(self.num_hashes(), signature.len());
+        }
+
         self.bands.par_iter_mut().for_each(|band| {
             for item in id_signature_pairs.iter() {
                 let i: &(Id, Vec<T>) = item;
-- 
2.43.0


From e44dd833ceb65839a1a384c3ad5675cb9ed911c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:59 +0000
Subject: [PATCH 16/18] fix: SimHashStringIndex rejects num_blocks outside of
 3..32

The condition could never be true.
---
 py-gaoya/gaoya/simhash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 3c53b67..02b32a7 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -50,7 +50,7 @@ class SimHashStringIndex:
 
         if hash_size not in [64, 128]:
             raise ValueError(f"Invalid hash_size {hash_size}. hash_size must be one of of 64 or 128")
-        if num_blocks < 3 and num_blocks > 32:
+        if num_blocks < 3 or num_blocks > 32:
             raise ValueError(f"Invalid num_blocks {num_blocks}. num_blocks must be between 3 and 32")
         if hamming_distance >= num_blocks:
             raise ValueError(f"Number of blocks must be greater than hamming distance")
-- 
2.43.0


From b6f1da1645cf8095efc623bd5ee7b0862e626cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:07 +0000
Subject: [PATCH 17/18] fix: SimHashStringIndex calls existing methods of the
 native index

query(return_hamming_distance=True), par_bulk_query(return_similarity=True)
and par_bulk_query with a callable analyzer raised AttributeError.
---
 py-gaoya/gaoya/simhash.py |  8 ++++----
 py-gaoya/src/sim_hash.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/py-gaoya/gaoya/simhash.py b/py-gaoya/gaoya/simhash.py
index 02b32a7..fdd5ae0 100644
--- a/py-gaoya/gaoya/simhash.py
+++ b/py-gaoya/gaoya/simhash.py
@@ -102,12 +102,12 @@ class SimHashStringIndex:
         """
         if callable(self.analyzer):
             if return_hamming_distance:
-                return self.index.query_tokens_return_similarity(self.analyzer(doc))
+                return self.index.query_tokens_return_distance(self.analyzer(doc))
             else:
                 return self.index.query_tokens(self.analyzer(doc))
         else:
             if return_hamming_distance:
-                return self.index.query_return_similarity(doc)
+                return self.index.query_return_distance(doc)
             else:
                 return self.index.query(doc)
 
@@ -132,11 +132,11 @@ class SimHashStringIndex:
         if callable(self.analyzer):
             analyzed_docs = [self.analyzer(doc) for doc in docs]
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(analyzed_docs)
+                return self.index.par_bulk_query_tokens_return_similarity(analyzed_docs)
             else:
                 return self.index.par_bulk_query_tokens(analyzed_docs)
         else:
             if return_similarity:
-                return self.index.par_bulk_query_tokens_return_distance(docs)
+                return self.index.par_bulk_query_return_distance(docs)
             else:
                 return self.index.par_bulk_query(docs)
diff --git a/py-gaoya/src/sim_hash.rs b/py-gaoya/src/sim_hash.rs
index 1fc9454..9b5d022 100644
--- a/py-gaoya/src/sim_hash.rs
+++ b/py-gaoya/src/sim_hash.rs
@@ -156,6 +156,16 @@ macro_rules! py_simhash_index {
                 self.inner.par_bulk_query_return_distance(&signatures)
             }
 
+            pub fn par_bulk_query_tokens(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<i64>> {
+                let signatures = doc_tokens.par_iter()
+                    .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
+                    .collect();
+                self.inner.par_bulk_query(&signatures)
+                    .into_iter()
+                    .map(|set| set.into_iter().collect())
+                    .collect()
+            }
+
             pub fn par_bulk_query_tokens_return_similarity(&self, doc_tokens: Vec<Vec<&str>>) -> Vec<Vec<(i64, usize)>> {
                 let signatures = doc_tokens.par_iter()
                     .map(|tokens| self.sim_hash.create_signature(tokens.iter()))
-- 
2.43.0


From 168bfec50f98518d4b72130a32c4df9712874433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:07 +0000
Subject: [PATCH 18/18] fix: similarity and top-k queries refuse signatures of
 the wrong length like the other queries

---
 gaoya/src/minhash/minhash_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gaoya/src/minhash/minhash_index.rs b/gaoya/src/minhash/minhash_index.rs
index d3d7b4c..2ffb874 100644
--- a/gaoya/src/minhash/minhash_index.rs
+++ b/gaoya/src/minhash/minhash_index.rs
@@ -626,6 +626,7 @@ where
         where
             Id: Hash + Eq + Clone,
     {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
@@ -647,6 +648,7 @@ where
 
 
     pub fn query_top_k(&self, query_signature: &[T], k: usize) -> Vec<(Id, f64)> {
+        assert_eq!(self.num_hashes(), query_signature.len());
         let mut match_ids = HashSet::with_capacity(10);
         for band in &self.bands {
             band.query_to_owned(query_signature, &mut match_ids);
-- 
2.43.0


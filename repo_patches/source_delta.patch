From ad502c2f81548a23911ab555984137b7e0d3cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 01/19] fix: a point inserted concurrently with the first one
 is always linked

Parallel first insertions could return without linking a point: the thread
which got rank 1 returned as soon as another thread had set the entry point,
and a thread finding no entry point returned even if check_entry_point kept
another one. Only the point which initializes the entry point may skip linking.
---
 src/hnsw.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index d23eb58..5e6d029 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1057,34 +1057,38 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         let (data, origin_id) = data_with_id;
         let keep_pruned = self.keep_pruned;
         // insert in indexation and get point_id adn generate a new entry_point if necessary
-        let (new_point, point_rank) = self
+        let (new_point, _point_rank) = self
             .layer_indexed_points
             .generate_new_point(data, origin_id);
         trace!("Hnsw insert generated new point {:?} ", new_point.p_id);
         // now real work begins
         // allocate a binary heap
         let level = new_point.p_id.0;
-        let mut enter_point_copy = None;
-        let mut max_level_observed = 0;
-        // entry point has been set in
-        {
-            // I open a read lock on an option
-            if let Some(arc_point) = self.layer_indexed_points.entry_point.read().as_ref() {
-                enter_point_copy = Some(Arc::clone(arc_point));
-                if point_rank == 1 {
+        let mut enter_point_copy = self
+            .layer_indexed_points
+            .entry_point
+            .read()
+            .as_ref()
+            .map(Arc::clone);
+        if enter_point_copy.is_none() {
+            // No entry point yet. We must check again under a write lock as, with parallel insertions, another thread can
+            // initialize the entry point in between. Only the point initializing the entry point can return without being linked.
+            let mut entry_point_ref = self.layer_indexed_points.entry_point.write();
+            match entry_point_ref.as_ref() {
+                Some(arc_point) => {
+                    enter_point_copy = Some(Arc::clone(arc_point));
+                }
+                None => {
                     debug!(
                         "Hnsw  stored first point , direct return  {:?} ",
                         new_point.p_id
                     );
+                    *entry_point_ref = Some(Arc::clone(&new_point));
                     return;
                 }
-                max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
             }
         }
-        if enter_point_copy.is_none() {
-            self.layer_indexed_points.check_entry_point(&new_point);
-            return;
-        }
+        let max_level_observed = enter_point_copy.as_ref().unwrap().p_id.0;
         let mut dist_to_entry = self
             .dist_f
             .eval(data, enter_point_copy.as_ref().unwrap().data.get_v());
-- 
2.43.0


From ba9f2c104f4c9cb58ed088fb5b445fe43504c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 02/19] fix: IterPoint::next on an empty or exhausted index,
 and with a waiting writer

next() unwrapped an entry point that is absent in an empty index, indexed past
the last layer when called again after exhaustion with the top layer occupied,
and took a second read lock on points_by_layer while holding one, which
deadlocks with a writer waiting in between.
---
 src/hnsw.rs | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 5e6d029..2c35c59 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -624,7 +624,7 @@ impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
 /// The iteration begins at level 0 (most populated level) and goes upward in levels.
 /// The iterator takes a ReadGuard on the PointIndexation structure
 pub struct IterPoint<'a, 'b, T: Clone + Send + Sync + 'b> {
-    point_indexation: &'a PointIndexation<'b, T>,
+    _point_indexation: &'a PointIndexation<'b, T>,
     pi_guard: RwLockReadGuard<'a, Vec<Layer<'b, T>>>,
     layer: i64,
     slot_in_layer: i64,
@@ -634,7 +634,7 @@ impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
     pub fn new(point_indexation: &'a PointIndexation<'b, T>) -> Self {
         let pi_guard: RwLockReadGuard<Vec<Layer<'b, T>>> = point_indexation.points_by_layer.read();
         IterPoint {
-            point_indexation,
+            _point_indexation: point_indexation,
             pi_guard,
             layer: -1,
             slot_in_layer: -1,
@@ -651,31 +651,21 @@ impl<'b, T: Clone + Send + Sync> Iterator for IterPoint<'_, 'b, T> {
             self.layer = 0;
             self.slot_in_layer = 0;
         }
-        if (self.slot_in_layer as usize) < self.pi_guard[self.layer as usize].len() {
+        // must reach a non exhausted layer if possible. We use only pi_guard : taking a second read lock on points_by_layer
+        // in the same thread can deadlock if a writer waits between the two locks.
+        let nb_layer = self.pi_guard.len();
+        while (self.layer as usize) < nb_layer
+            && (self.slot_in_layer as usize) >= self.pi_guard[self.layer as usize].len()
+        {
+            self.layer += 1;
+            self.slot_in_layer = 0;
+        }
+        if (self.layer as usize) < nb_layer {
             let slot = self.slot_in_layer as usize;
             self.slot_in_layer += 1;
             Some(self.pi_guard[self.layer as usize][slot].clone())
         } else {
-            self.slot_in_layer = 0;
-            self.layer += 1;
-            // must reach a non empty layer if possible
-            let entry_point_ref = self.point_indexation.entry_point.read();
-            let points_by_layer = self.point_indexation.points_by_layer.read();
-            let entry_point_level = entry_point_ref.as_ref().unwrap().p_id.0;
-            while (self.layer as u8) <= entry_point_level
-                && points_by_layer[self.layer as usize].is_empty()
-            {
-                self.layer += 1;
-            }
-            // now here either  (self.layer as u8) > self.point_indexation.max_level_observed
-            // or self.point_indexation.points_by_layer[self.layer as usize ].len() > 0
-            if (self.layer as u8) <= entry_point_level {
-                let slot = self.slot_in_layer as usize;
-                self.slot_in_layer += 1;
-                Some(points_by_layer[self.layer as usize][slot].clone())
-            } else {
-                None
-            }
+            None
         }
     } // end of next
 } // end of impl Iterator
-- 
2.43.0


From d7af78a122533955104486b4c84f52617d2714e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 03/19] fix: the level scale survives a dump and reload

The scale dumped is the one used in sampling, but the reload multiplied it again
by the default scale: levels of points inserted after a reload were sampled with
another law, and the value changed at each dump and reload.
---
 src/hnsw.rs   |  9 ++-------
 src/hnswio.rs | 12 +++++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 2c35c59..01f9fb4 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -334,16 +334,11 @@ impl LayerGenerator {
     }
 
     // new when we know scale used. Should replace the one without scale
-    pub(crate) fn new_with_scale(
-        max_nb_connection: usize,
-        scale_factor: f64,
-        maxlevel: usize,
-    ) -> Self {
-        let scale_default = 1. / (max_nb_connection as f64).ln();
+    pub(crate) fn new_with_scale(scale: f64, maxlevel: usize) -> Self {
         LayerGenerator {
             rng: Arc::new(Mutex::new(StdRng::from_entropy())),
             unif: Uniform::<f64>::new(0., 1.),
-            scale: scale_default * scale_factor,
+            scale,
             maxlevel,
         }
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index ea845f5..7ed78e9 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -766,15 +766,17 @@ impl HnswIo {
             entry_point.get_point_id()
         );
         //
+        // since format version 4 the scale used in level sampling is dumped. Before, only the default scale was possible
+        let level_scale = if descr.format_version >= 4 {
+            descr.level_scale
+        } else {
+            1. / (descr.max_nb_connection as f64).ln()
+        };
         let point_indexation = PointIndexation {
             max_nb_connection: descr.max_nb_connection as usize,
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
-            layer_g: LayerGenerator::new_with_scale(
-                descr.max_nb_connection as usize,
-                descr.level_scale,
-                NB_LAYER_MAX as usize,
-            ),
+            layer_g: LayerGenerator::new_with_scale(level_scale, NB_LAYER_MAX as usize),
             nb_point: Arc::new(RwLock::new(nb_points_loaded)), // CAVEAT , we should increase , the whole thing is to be able to increment graph ?
             entry_point: Arc::new(RwLock::new(Some(entry_point))),
         };
-- 
2.43.0


From e6fdb9c6ea692955f2c206043cdf40188e6b9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 04/19] fix: a filtered search never returns a point rejected
 by the filter

The entry point of the lowest layer search was returned, accepted or not, when no
accepted point replaced it.
---
 src/hnsw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 01f9fb4..670a747 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1505,7 +1505,11 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         // now search with asked ef in lower layer
         let neighbours_heap = self.search_layer(data, pivot, ef, layer_to_search, filter);
         // go from heap of points with negative dist to a sorted vec of increasing points with > 0 distances.
-        let neighbours = neighbours_heap.into_sorted_vec();
+        let mut neighbours = neighbours_heap.into_sorted_vec();
+        // search_layer begins with its entry point, which stays in the heap if no point accepted by the filter replaced it
+        if let Some(filter) = filter {
+            neighbours.retain(|p| filter.hnsw_filter(&p.point_ref.origin_id));
+        }
         // get the min of K and ef points into a vector.
         //
         let last = knbn.min(ef).min(neighbours.len());
-- 
2.43.0


From 98b436f3cbca843df21a99b7baa9f19eaf6f3b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 05/19] fix: vectors of different lengths are reloaded with
 their own length

A dump stores the length of each vector, but the reload (in memory and by mmap)
used the dimension of the entry point for all vectors: with DistLevenshtein a
reload returned truncated vectors or read past the end of the buffers.
---
 src/datamap.rs | 45 ++++++++++++++++++++-------------------------
 src/hnswio.rs  | 19 ++++++++++++++++---
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 3bce7c3..770a961 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -96,7 +96,7 @@ impl DataMap {
             error!("Could not open file : {:?}", &datapath);
             std::process::exit(1);
         }
-        let fsize = meta.unwrap().len().try_into().unwrap();
+        let fsize: usize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
@@ -150,10 +150,10 @@ impl DataMap {
         // now we know that each record consists in
         //   - MAGICDATAP (u32), DataId  (u64), dimension (u64) and then  (length of type in bytes * dimension)
         //
-        let record_size = std::mem::size_of::<u32>()
-            + 2 * std::mem::size_of::<u64>()
-            + dimension * std::mem::size_of::<T>();
-        let residual = mmap.size() - current_mmap_addr;
+        // Vectors can have different lengths (as with DistLevenshtein) so the number of records is not deduced from dimension
+        let header_size = std::mem::size_of::<u32>() + 2 * std::mem::size_of::<u64>();
+        let record_size = header_size + dimension * std::mem::size_of::<T>();
+        let residual = fsize - current_mmap_addr;
         info!(
             "Mmap size {}, current_mmap_addr {}, residual : {}",
             mmap.size(),
@@ -161,7 +161,7 @@ impl DataMap {
             residual
         );
         let nb_record = residual / record_size;
-        debug!("Record size : {}, nb_record : {}", record_size, nb_record);
+        debug!("Record size : {}, estimated nb_record : {}", record_size, nb_record);
         // allocate hmap with correct capacity
         let mut hmap = IndexMap::<DataId, usize>::with_capacity(nb_record);
         // fill hmap to have address of each data point in file
@@ -169,8 +169,11 @@ impl DataMap {
         //
         // now we loop on records
         //
-        for i in 0..nb_record {
-            debug!("Record i : {}, addr : {}", i, current_mmap_addr);
+        while current_mmap_addr < fsize {
+            debug!("Record addr : {}", current_mmap_addr);
+            if fsize - current_mmap_addr < header_size {
+                return Err(String::from("data file is truncated"));
+            }
             // decode Magic
             u32_slice.copy_from_slice(
                 &mapped_slice[current_mmap_addr..current_mmap_addr + std::mem::size_of::<u32>()],
@@ -196,21 +199,10 @@ impl DataMap {
             );
             current_mmap_addr += std::mem::size_of::<u64>();
             let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
-            if i == 0 {
-                debug!("serialized bytes len to reload {:?}", serialized_len);
+            if fsize - current_mmap_addr < serialized_len {
+                return Err(String::from("data file is truncated"));
             }
-            let mut v_serialized = vec![0; serialized_len];
-            v_serialized.copy_from_slice(
-                &mapped_slice[current_mmap_addr..current_mmap_addr + serialized_len],
-            );
             current_mmap_addr += serialized_len;
-            let slice_t =
-                unsafe { std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, dimension) };
-            trace!(
-                "Deserialized v : {:?} address : {:?} ",
-                slice_t,
-                v_serialized.as_ptr() as *const T
-            );
         } // end of for on record
           //
         debug!("End of DataMap::from_hnsw.");
@@ -283,11 +275,14 @@ impl DataMap {
         let serialized_len = u64::from_ne_bytes(u64_slice) as usize;
         current_mmap_addr += std::mem::size_of::<u64>();
         trace!("Serialized bytes len to reload {:?}", serialized_len);
+        let size_t = std::mem::size_of::<T>();
+        let len = if size_t > 0 {
+            serialized_len / size_t
+        } else {
+            self.dimension
+        };
         let slice_t = unsafe {
-            std::slice::from_raw_parts(
-                mapped_slice[current_mmap_addr..].as_ptr() as *const T,
-                self.dimension,
-            )
+            std::slice::from_raw_parts(mapped_slice[current_mmap_addr..].as_ptr() as *const T, len)
         };
         Some(slice_t)
     }
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 7ed78e9..14edbf8 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1159,10 +1159,23 @@ where
         match descr.format_version {
             2 => bincode::deserialize(&v_serialized).unwrap(),
             3 | 4 => {
-                let slice_t = unsafe {
-                    std::slice::from_raw_parts(v_serialized.as_ptr() as *const T, descr.dimension)
+                // vectors can have different lengths (as with DistLevenshtein), so we use the length dumped with the vector
+                let size_t = std::mem::size_of::<T>();
+                let len = if size_t > 0 {
+                    v_serialized.len() / size_t
+                } else {
+                    descr.dimension
                 };
-                slice_t.to_vec()
+                let mut v = Vec::<T>::with_capacity(len);
+                unsafe {
+                    std::ptr::copy_nonoverlapping(
+                        v_serialized.as_ptr(),
+                        v.as_mut_ptr() as *mut u8,
+                        len * size_t,
+                    );
+                    v.set_len(len);
+                }
+                v
             }
             _ => {
                 error!(
-- 
2.43.0


From 4eb82e482d3651f3f0507f6e35710209aa687a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:26 +0000
Subject: [PATCH 06/19] fix: DataMap and mmap reload from a relative directory

The directory was pushed twice in the path of the graph file, so a relative
directory gave a non existing path and the process exited.
---
 src/datamap.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 770a961..6b11532 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -47,7 +47,6 @@ impl DataMap {
     ) -> Result<DataMap, String> {
         // reload description to have data type, and check for dump version
         let mut graphpath = PathBuf::from(dir);
-        graphpath.push(dir);
         let mut filename = file_name.to_string();
         filename.push_str(".hnsw.graph");
         graphpath.push(filename);
-- 
2.43.0


From 2c28d9a7a12b4d37e053c2a54d071277140eadff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 07/19] fix: reloading a truncated or missing dump returns an
 error

load_hnsw and DataMap::from_hnswdump return a Result but a dump interrupted at
some point made them panic or exit the process.
---
 src/datamap.rs | 15 ++++++++++-----
 src/hnswio.rs  | 23 +++++++++++------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 6b11532..9bcd2f4 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -53,12 +53,13 @@ impl DataMap {
         let graphfileres = OpenOptions::new().read(true).open(&graphpath);
         if graphfileres.is_err() {
             println!("DataMap: could not open file {:?}", graphpath.as_os_str());
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", graphpath));
         }
         let graphfile = graphfileres.unwrap();
         let mut graph_in = BufReader::new(graphfile);
         // we need to call load_description first to get distance name
-        let hnsw_description = hnswio::load_description(&mut graph_in).unwrap();
+        let hnsw_description =
+            hnswio::load_description(&mut graph_in).map_err(|e| e.to_string())?;
         if hnsw_description.format_version <= 2 {
             let msg = String::from("from_hnsw::from_hnsw : data mapping is only possible for dumps with the version > 0.1.19 of this crate");
             error!(
@@ -93,16 +94,20 @@ impl DataMap {
         let meta = std::fs::metadata(&datapath);
         if meta.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let fsize: usize = meta.unwrap().len().try_into().unwrap();
         //
         let file_res = File::open(&datapath);
         if file_res.is_err() {
             error!("Could not open file : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not open file {:?}", datapath));
         }
         let file = file_res.unwrap();
+        // a data file begins with MAGICDATAP and dimension
+        if fsize < std::mem::size_of::<u32>() + std::mem::size_of::<usize>() {
+            return Err(String::from("data file is truncated"));
+        }
         let offset = 0;
         //
         let mmap_opt = MmapOptions::new(fsize).unwrap();
@@ -110,7 +115,7 @@ impl DataMap {
         let mapping_res = mmap_opt.map();
         if mapping_res.is_err() {
             error!("Could not memory map : {:?}", &datapath);
-            std::process::exit(1);
+            return Err(format!("could not memory map {:?}", datapath));
         }
         let mmap = mapping_res.unwrap();
         //
diff --git a/src/hnswio.rs b/src/hnswio.rs
index 14edbf8..8a92ce5 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -413,7 +413,7 @@ impl HnswIo {
         let mut graph_in = BufReader::new(graphfile);
         let data_in = BufReader::new(datafile);
         // we need to call load_description first to get distance name
-        let hnsw_description = load_description(&mut graph_in).unwrap();
+        let hnsw_description = load_description(&mut graph_in)?;
         //
         Ok(LoadInit {
             descr: hnsw_description,
@@ -818,9 +818,8 @@ impl HnswIo {
                 let v = load_point_data::<T>(origin_id, data_in, descr);
                 if v.is_err() {
                     error!("loading point {:?}", origin_id);
-                    std::process::exit(1);
                 }
-                Point::<T>::new(v.unwrap(), origin_id, p_id)
+                Point::<T>::new(v?, origin_id, p_id)
             }
             true => {
                 skip_point_data(origin_id, data_in, descr)?; // keep cohrence between data file and graph file!
@@ -1238,23 +1237,23 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
     trace!("in load_point_graph");
     // read and check magic
     let mut it_slice = [0u8; std::mem::size_of::<u32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let magic = u32::from_ne_bytes(it_slice);
     if magic != MAGICPOINT {
         error!("got instead of MAGICPOINT {:x}", magic);
         return Err(anyhow!("bad magic at point beginning"));
     }
     let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let origin_id = DataId::from_ne_bytes(it_slice);
     //
     // read point_id
     let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let layer = u8::from_ne_bytes(it_slice);
     //
     let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-    graph_in.read_exact(&mut it_slice).unwrap();
+    graph_in.read_exact(&mut it_slice)?;
     let rank_in_l = i32::from_ne_bytes(it_slice);
     let p_id = PointId(layer, rank_in_l);
     debug!(
@@ -1269,24 +1268,24 @@ fn load_point_graph(graph_in: &mut dyn Read, descr: &Description) -> Result<Poin
         let mut neighbour: Neighbour = Default::default();
         // read nb_neighbour as usize!!! CAUTION, then nb_neighbours times identity(depends on Full or Light) distance : f32
         let mut it_slice = [0u8; std::mem::size_of::<usize>()];
-        graph_in.read_exact(&mut it_slice).unwrap();
+        graph_in.read_exact(&mut it_slice)?;
         let nb_neighbours = usize::from_ne_bytes(it_slice);
         let mut neighborhood_l: Vec<Neighbour> = Vec::with_capacity(nb_neighbours);
         for _j in 0..nb_neighbours {
             let mut it_slice = [0u8; std::mem::size_of::<DataId>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.d_id = DataId::from_ne_bytes(it_slice);
             if descr.dumpmode == 1 {
                 let mut it_slice = [0u8; std::mem::size_of::<u8>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.0 = u8::from_ne_bytes(it_slice);
                 //
                 let mut it_slice = [0u8; std::mem::size_of::<i32>()];
-                graph_in.read_exact(&mut it_slice).unwrap();
+                graph_in.read_exact(&mut it_slice)?;
                 neighbour.p_id.1 = i32::from_ne_bytes(it_slice);
             }
             let mut it_slice = [0u8; std::mem::size_of::<f32>()];
-            graph_in.read_exact(&mut it_slice).unwrap();
+            graph_in.read_exact(&mut it_slice)?;
             neighbour.distance = f32::from_ne_bytes(it_slice);
             //  debug!("        voisins  load {:?} {:?} {:?} ", neighbour.p_id, neighbour.d_id , neighbour.distance);
             // now we have a new neighbour, we must really fill neighbourhood info, so it means going from Neighbour to PointWithOrder
-- 
2.43.0


From 72e98911a425749dc4e6724dda642b35891988cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 08/19] fix: a reload falls back to memory when no mmap is
 available

With the mmap option, load_hnsw_with_dist, or load_hnsw when the mmap could not be
initialized (T = NoData, old format), panicked on the missing datamap.
---
 src/hnswio.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 8a92ce5..047b695 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -494,7 +494,8 @@ impl HnswIo {
         if self.options.use_mmap().0 {
             let datamap_res = DataMap::from_hnswdump::<T>(self.dir.as_path(), &self.basename);
             if datamap_res.is_err() {
-                error!("load_hnsw could not initialize mmap")
+                error!("load_hnsw could not initialize mmap");
+                self.datamap = None;
             } else {
                 info!("reload using mmap");
                 self.datamap = Some(datamap_res.unwrap());
@@ -603,7 +604,7 @@ impl HnswIo {
             data_dimension: data_dim,
             dist_f: f,
             searching: false,
-            datamap_opt: false,
+            datamap_opt: self.options.use_mmap().0 && self.datamap.is_some(),
         };
         //
         debug!("load_hnsw_with_dist completed");
@@ -652,6 +653,8 @@ impl HnswIo {
         let mut nb_points_loaded: usize = 0;
         let mut nb_still_to_load = descr.nb_point as i64;
         let (use_mmap, max_nbpoint_in_memory) = self.options.use_mmap();
+        // if datamap could not be initialized, all points are loaded in memory
+        let use_mmap = use_mmap && self.datamap.is_some();
         //
         for l in 0..nb_layer as usize {
             // read and check magic
-- 
2.43.0


From ba99bf792c48b16927abb0ba4a173af60641746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 09/19] fix: reloading a dump with another data type returns an
 error

load_hnsw returns a Result but panicked when the type asked is not the one dumped.
---
 src/hnswio.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 047b695..359a9ca 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -635,7 +635,11 @@ impl HnswIo {
                 descr.t_name,
                 std::any::type_name::<T>()
             );
-            panic!("incohrent size of T in description");
+            return Err(anyhow!(
+                "typename in dump {:?} does not correspond to type asked {:?}",
+                descr.t_name,
+                std::any::type_name::<T>()
+            ));
         }
         //
         let mut points_by_layer: Vec<Vec<Arc<Point<T>>>> =
-- 
2.43.0


From 80d4d8d05d502430a31e4fd74bcf4ad0f02340da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 10/19] fix: load_hnsw_description fills the number of points

---
 src/libext.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libext.rs b/src/libext.rs
index 76bfd62..d19fc55 100644
--- a/src/libext.rs
+++ b/src/libext.rs
@@ -1195,6 +1195,7 @@ pub unsafe extern "C" fn load_hnsw_description(
                 ffi_description.max_nb_connection = description.max_nb_connection;
                 ffi_description.nb_layer = description.nb_layer;
                 ffi_description.ef = description.ef;
+                ffi_description.nb_point = description.nb_point;
                 ffi_description.data_dimension = description.dimension;
                 ffi_description.distname_len = distname_len;
                 ffi_description.distname = distname_ptr;
-- 
2.43.0


From d89f0a1896254c33ae72fc03f9c293f4a3087da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 11/19] fix: filtered search with knbn = 0 and ef = 0 must not
 panic

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 670a747..57b7701 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1492,7 +1492,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             }
         } // end on for on layers
           // ef must be greater than knbn. Possibly it should be between knbn and self.max_nb_connection
-        let ef = ef_arg.max(knbn);
+        // and at least 1, or search_layer with a filter can end with an empty heap
+        let ef = ef_arg.max(knbn).max(1);
         log::debug!("pivot changed , current pivot {:?}", pivot.get_point_id());
         // search lowest non empty layer (in case of search with incomplete lower layer at beginning of hnsw filling)
         let mut l = 0u8;
-- 
2.43.0


From bed276bc448a70c74516179149cc66f0b2ce4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 12/19] fix: concurrent insertions of neighbour points must not
 deadlock in reverse update

---
 src/hnsw.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 57b7701..2abc0d7 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1210,7 +1210,10 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         );
         let level = new_point.p_id.0;
         for l in (0..level + 1).rev() {
-            for q in &new_point.neighbours.read()[l as usize] {
+            // we iterate on a copy : keeping a lock on new_point while waiting for the lock of one of its neighbours can deadlock
+            // as this neighbour can be a point being inserted by another thread, which waits for the lock of new_point.
+            let new_point_neighbours = new_point.neighbours.read()[l as usize].clone();
+            for q in &new_point_neighbours {
                 if new_point.p_id != q.point_ref.p_id {
                     // as new point is in global table, do not loop and deadlock!!
                     let q_point = &q.point_ref;
-- 
2.43.0


From d05c92cca905969b7a19acc134919fd4fa76e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:03 +0000
Subject: [PATCH 13/19] fix: the number of points of a dump is that of the
 points dumped

A point stored by another thread between the description and the dump of
the layers made a dump that cannot be loaded.
---
 src/hnswio.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 359a9ca..a86c2ba 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -1324,8 +1324,8 @@ impl<T: Serialize + DeserializeOwned + Clone + Send + Sync> HnswIoT for PointInd
     fn dump(&self, mode: DumpMode, dumpinit: &mut DumpInit) -> Result<i32> {
         let graphout = &mut dumpinit.graph_out;
         let dataout = &mut dumpinit.data_out;
-        // dump max_layer
-        let layers = self.points_by_layer.read();
+        // dump max_layer. The dump of Hnsw already holds a read lock on points_by_layer
+        let layers = self.points_by_layer.read_recursive();
         let nb_layer = layers.len() as u8;
         graphout.write_all(&nb_layer.to_ne_bytes())?;
         // dump layers from lower (most populatated to higher level)
@@ -1384,6 +1384,9 @@ impl<
             DumpMode::Full => 1,
             _ => 0,
         };
+        // no point must be stored between the description, which has the number of points, and the points.
+        let layers = self.layer_indexed_points.points_by_layer.read();
+        let nb_point = layers.iter().map(|layer| layer.len()).sum();
         let datadim: usize = self.layer_indexed_points.get_data_dimension();
         let level_scale = self.layer_indexed_points.get_level_scale();
         let description = Description {
@@ -1394,7 +1397,7 @@ impl<
             level_scale,
             nb_layer: self.get_max_level() as u8,
             ef: self.get_ef_construction(),
-            nb_point: self.get_nb_point(),
+            nb_point,
             dimension: datadim,
             distname: self.get_distance_name(),
             t_name: type_name::<T>().to_string(),
-- 
2.43.0


From ac544e64926e2edb49266d31cba9fdc8c8af7c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 14/19] fix: a search for any number of neighbours does not
 reserve more room than there are points

---
 src/hnsw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 2abc0d7..83be731 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -911,7 +911,8 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
         //
         // here we allocate a binary_heap on values not on reference beccause we want to return
         // log2(skiplist_size) must be greater than 1.
-        let skiplist_size = ef.max(2);
+        // there is no need to reserve room for more points than stored : ef and the number of neighbours asked for can be any number
+        let skiplist_size = ef.min(self.get_nb_point()).max(2);
         // we will store positive distances in this one
         let mut return_points = BinaryHeap::<Arc<PointWithOrder<T>>>::with_capacity(skiplist_size);
         //
-- 
2.43.0


From a0bfe54c6cb13160946f4c069bd916eb72c7ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 15/19] fix: check_data_type compares the names of types and
 not only the names of their crates

---
 src/datamap.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/datamap.rs b/src/datamap.rs
index 9bcd2f4..3b222be 100644
--- a/src/datamap.rs
+++ b/src/datamap.rs
@@ -231,29 +231,15 @@ impl DataMap {
     where
         T: 'static + Sized,
     {
-        // we check last part of name of type
-        let tname_vec = self.t_name.rsplit_terminator("::").collect::<Vec<&str>>();
-
-        if tname_vec.last().is_none() {
-            let errmsg = "DataMap::check_data_type() cannot determine data type name ";
-            error!("DataMap::check_data_type() cannot determine data type name ");
-            std::panic!("DataMap::check_data_type(), {}", errmsg);
-        }
-        let tname_last = tname_vec.last().unwrap();
-        //
-        let datat_name_arg = std::any::type_name::<T>().to_string();
-        let datat_name_vec = datat_name_arg
-            .rsplit_terminator("::")
-            .collect::<Vec<&str>>();
-
-        let datat_name_arg_last = datat_name_vec.last().unwrap();
+        // we check the whole name of type, as in [Self::from_hnswdump()]
+        let datat_name_arg = std::any::type_name::<T>();
         //
-        if datat_name_arg_last == tname_last {
+        if datat_name_arg == self.t_name {
             true
         } else {
             info!(
                 "Data type in DataMap : {},  type arg = {}",
-                tname_last, datat_name_arg_last
+                self.t_name, datat_name_arg
             );
             false
         }
-- 
2.43.0


From 11588d454a662aeac9687cfb7e017081aad1966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 16/19] fix: the whole name of a generic distance is compared
 when a dump is loaded

---
 src/hnswio.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index a86c2ba..9b72e14 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -471,13 +471,9 @@ impl HnswIo {
         // for that we check for short names equality stripping
         debug!("distance in description = {:?}", distname);
         let d_type_name = type_name::<D>().to_string();
-        let d_type_name_split: Vec<&str> = d_type_name.rsplit_terminator("::").collect();
-        for s in &d_type_name_split {
-            info!(" distname in generic type argument {:?}", s);
-        }
-        let distname_split: Vec<&str> = distname.rsplit_terminator("::").collect();
+        info!(" distname in generic type argument {:?}", d_type_name);
         if (std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>())
-            && (d_type_name_split[0] != distname_split[0])
+            && (short_name(&d_type_name) != short_name(&distname))
         {
             // for all types except NoData , distance asked in reload declaration and distance in dump must be equal!
             let mut errmsg = String::from("error in distances : dumped distance is : ");
@@ -847,6 +843,13 @@ impl HnswIo {
     } // end of load_point
 } // end of Hnswio
 
+// strips module paths from the name of a type, in generic arguments also : a::B<c::D> is B<D>
+fn short_name(name: &str) -> String {
+    name.split_inclusive(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':'))
+        .map(|s| s.rsplit("::").next().unwrap_or(s))
+        .collect()
+}
+
 /// structure describing main parameters for hnsnw data and written at the beginning of a dump file.
 ///
 /// Name of distance and type of data must be encoded in the dump file for a coherent reload.
-- 
2.43.0


From c0b4778dfdacec3829b2b0034867a00559c96e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 17/19] fix: a dump with a name of type or distance longer than
 256 bytes can be reloaded

---
 src/hnswio.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 9b72e14..d4579d2 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -850,6 +850,9 @@ fn short_name(name: &str) -> String {
         .collect()
 }
 
+/// maximum length (in bytes) of the names of distance and type in a dump. Names of generic types can be long
+const NAME_LEN_MAX: usize = 65536;
+
 /// structure describing main parameters for hnsnw data and written at the beginning of a dump file.
 ///
 /// Name of distance and type of data must be encoded in the dump file for a coherent reload.
@@ -888,6 +891,9 @@ impl Description {
     ///
     fn dump<W: Write>(&self, argmode: DumpMode, out: &mut BufWriter<W>) -> Result<i32> {
         info!("in dump of description");
+        if self.distname.len() > NAME_LEN_MAX || self.t_name.len() > NAME_LEN_MAX {
+            return Err(anyhow!("dump of Description, names must not exceed {} bytes", NAME_LEN_MAX));
+        }
         out.write_all(&MAGICDESCR_4.to_ne_bytes())?;
         let mode: u8 = match argmode {
             DumpMode::Full => 1,
@@ -1023,9 +1029,9 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     let len: usize = usize::from_ne_bytes(it_slice);
     debug!("length of distance name {:?} ", len);
-    if len > 256 {
-        info!(" length of distance name > 256");
-        println!(" length of distance name should not exceed 256");
+    if len > NAME_LEN_MAX {
+        info!(" length of distance name > {}", NAME_LEN_MAX);
+        println!(" length of distance name should not exceed {}", NAME_LEN_MAX);
         return Err(anyhow!("bad length for distance name"));
     }
     let mut distv = vec![0; len];
@@ -1038,8 +1044,8 @@ pub fn load_description(io_in: &mut dyn Read) -> Result<Description> {
     io_in.read_exact(&mut it_slice)?;
     let len: usize = usize::from_ne_bytes(it_slice);
     debug!("length of T  name {:?} ", len);
-    if len > 256 {
-        println!(" length of T name should not exceed 256");
+    if len > NAME_LEN_MAX {
+        println!(" length of T name should not exceed {}", NAME_LEN_MAX);
         return Err(anyhow!("bad lenght for T name"));
     }
     let mut tnamev = vec![0; len];
-- 
2.43.0


From f27853d0116ae6a38d5ad29ae33c5ea1669e7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 18/19] fix: an index with max_nb_connection = 256 (0 as u8)
 was reloaded with no connection, and inserted without its upper links

---
 src/hnsw.rs   |  4 +---
 src/hnswio.rs | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/hnsw.rs b/src/hnsw.rs
index 83be731..e0bd880 100644
--- a/src/hnsw.rs
+++ b/src/hnsw.rs
@@ -1105,9 +1105,7 @@ impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
             //
             if let Some(ep) = sorted_points.pop() {
                 // useful for projecting lower layer to upper layer. keep track of points encountered.
-                if new_point.neighbours.read()[l as usize].len()
-                    < self.get_max_nb_connection() as usize
-                {
+                if new_point.neighbours.read()[l as usize].len() < self.max_nb_connection {
                     new_point.neighbours.write()[l as usize].push(Arc::clone(&ep));
                 }
                 // get the lowest distance point
diff --git a/src/hnswio.rs b/src/hnswio.rs
index d4579d2..729c815 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -502,7 +502,7 @@ impl HnswIo {
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
-            max_nb_connection: description.max_nb_connection as usize,
+            max_nb_connection: description.get_max_nb_connection(),
             ef_construction: description.ef,
             extend_candidates: true,
             keep_pruned: false,
@@ -591,7 +591,7 @@ impl HnswIo {
         let data_dim = layer_point_indexation.get_data_dimension();
         //
         let hnsw: Hnsw<T, D> = Hnsw {
-            max_nb_connection: description.max_nb_connection as usize,
+            max_nb_connection: description.get_max_nb_connection(),
             ef_construction: description.ef,
             extend_candidates: true,
             keep_pruned: false,
@@ -773,10 +773,10 @@ impl HnswIo {
         let level_scale = if descr.format_version >= 4 {
             descr.level_scale
         } else {
-            1. / (descr.max_nb_connection as f64).ln()
+            1. / (descr.get_max_nb_connection() as f64).ln()
         };
         let point_indexation = PointIndexation {
-            max_nb_connection: descr.max_nb_connection as usize,
+            max_nb_connection: descr.get_max_nb_connection(),
             max_layer: NB_LAYER_MAX as usize,
             points_by_layer: Arc::new(RwLock::new(points_by_layer)),
             layer_g: LayerGenerator::new_with_scale(level_scale, NB_LAYER_MAX as usize),
@@ -881,6 +881,14 @@ pub struct Description {
 }
 
 impl Description {
+    // The maximum number of connections goes up to 256, which is dumped as 0 in its u8
+    fn get_max_nb_connection(&self) -> usize {
+        match self.max_nb_connection {
+            0 => 256,
+            nb => nb as usize,
+        }
+    }
+
     /// The dump of Description consists in :
     /// . The value MAGICDESCR_* as a u32 (4 u8)
     /// . The type of dump as u8
-- 
2.43.0


From ae23b83758ba370ee7ef22e1ac936673919ad2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 19/19] fix: a load that failed in the entry point of the graph
 file left all points allocated

---
 src/hnswio.rs | 48 +++++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/hnswio.rs b/src/hnswio.rs
index 729c815..1208874 100644
--- a/src/hnswio.rs
+++ b/src/hnswio.rs
@@ -718,29 +718,10 @@ impl HnswIo {
             }
             points_by_layer.push(vlayer);
         }
-        // at this step all points are loaded , but without their neighbours fileds are not yet initialized
-        let mut nbp: usize = 0;
-        for (p_id, neighbours) in &neighbourhood_map {
-            let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
-            for (l, neighbours) in neighbours.iter().enumerate() {
-                for n in neighbours {
-                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
-                    // now n_point is the Arc<Point> corresponding to neighbour n of point,
-                    // construct a corresponding PointWithOrder
-                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
-                    point.neighbours.write()[l].push(Arc::new(n_pwo));
-                } // end of for n
-                  //  must sort
-                point.neighbours.write()[l].sort_unstable();
-            } // end of for l
-            nbp += 1;
-            if nbp % 500_000 == 0 {
-                debug!("reloading nb_points neighbourhood completed : {}", nbp);
-            }
-        } // end loop in neighbourhood_map
-          //
-          // get id of entry_point
-          // load entry point
+        //
+        // get id of entry_point
+        // load entry point. It is read before the points are linked: linked points own each other (through Arc),
+        // so if we failed after that they would never be freed.
         info!(
             "end of layer loading, allocating PointIndexation, nb points loaded {:?}",
             nb_points_loaded
@@ -769,6 +750,27 @@ impl HnswIo {
             entry_point.get_point_id()
         );
         //
+        // at this step all points are loaded , but without their neighbours fileds are not yet initialized
+        let mut nbp: usize = 0;
+        for (p_id, neighbours) in &neighbourhood_map {
+            let point = &points_by_layer[p_id.0 as usize][p_id.1 as usize];
+            for (l, neighbours) in neighbours.iter().enumerate() {
+                for n in neighbours {
+                    let n_point = &points_by_layer[n.p_id.0 as usize][n.p_id.1 as usize];
+                    // now n_point is the Arc<Point> corresponding to neighbour n of point,
+                    // construct a corresponding PointWithOrder
+                    let n_pwo = PointWithOrder::<T>::new(n_point, n.distance);
+                    point.neighbours.write()[l].push(Arc::new(n_pwo));
+                } // end of for n
+                  //  must sort
+                point.neighbours.write()[l].sort_unstable();
+            } // end of for l
+            nbp += 1;
+            if nbp % 500_000 == 0 {
+                debug!("reloading nb_points neighbourhood completed : {}", nbp);
+            }
+        } // end loop in neighbourhood_map
+        //
         // since format version 4 the scale used in level sampling is dumped. Before, only the default scale was possible
         let level_scale = if descr.format_version >= 4 {
             descr.level_scale
-- 
2.43.0


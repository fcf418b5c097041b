src = open("/verif/tools/seeds1.py").read().split('\nseed("')[0]
exec(src)
IO = "src/hnswio.rs"; DM = "src/datamap.rs"; FL = "src/flatten.rs"; LX = "src/libext.rs"
HEAD = r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
#[allow(unused)] fn bad(s: String) -> ! { println!("{}", s); std::process::exit(1) }
#[allow(unused)] struct R(u64);
#[allow(unused)] impl R { fn n(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
  fn f(&mut self) -> f32 { (self.n() % 100000) as f32 / 100000. } fn v(&mut self, d: usize) -> Vec<f32> { (0..d).map(|_| self.f()).collect() } }
'''
def seed2(id, prop, needs, breaks, edits, main): seed(id, prop, needs, breaks, edits, HEAD + main)

seed2("p01-lookup-sentinel", "P01", "a lookup with a negative rank other than the sentinel -1",
 "a lookup at a position that does not exist panics instead of answering none",
 [[H, """    pub fn get_point_data(&self, p_id: &PointId) -> Option<Vec<T>> {
        if p_id.1 < 0 {
""", """    pub fn get_point_data(&self, p_id: &PointId) -> Option<Vec<T>> {
        // -1 is the rank of a point not yet stored
        if p_id.1 == -1 {
"""]], r'''
fn main() {
    let h = Hnsw::<f32, DistL2>::new(4, 1000, 16, 50, DistL2 {});
    h.insert((&[1f32, 2.], 0));
    for r in [-1, -2, i32::MIN] {
        let x = h.get_point_indexation().get_point_data(&PointId(0, r));
        if x.is_some() { bad(format!("{:?}", x)); }
    }
}
''')

seed2("p02-threshold-loop-layer", "P02", "a point of level 1 or more linked to a point whose list for that level is full, through layer 0",
 "the capacity used when shrinking is that of the layer of the loop and not of the list being filled: lists of upper layers grow to twice their capacity",
 [[H, """                    let threshold_shrinking = if l_n > 0 {""", """                    let threshold_shrinking = if l > 0 {"""]], r'''
fn main() {
    let mut r = R(88172645463325252);
    for _ in 0..20 {
        let m = 3;
        let h = Hnsw::<f32, DistL2>::new(m, 1000, 16, 50, DistL2 {});
        for i in 0..300 { let v = r.v(2); h.insert((&v, i)); }
        for p in h.get_point_indexation() {
            for (l, n) in p.get_neighborhood_id().iter().enumerate() {
                if n.len() > if l == 0 { 2 * m } else { m } { bad(format!("{:?} layer {} : {} neighbours", p.get_point_id(), l, n.len())); }
            }
        }
    }
}
''')

seed2("p03-heuristic-strict", "P03", "more candidates than a list can hold, and a candidate as near to an already chosen neighbour as to the new point (duplicates, integer distances)",
 "the diversity heuristic keeps a candidate which is exactly as near to a chosen neighbour as to the new point",
 [[H, """                        self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) <= -e_p.dist_to_ref""",
      """                        self.dist_f.eval(e_point_v, d.point_ref.data.get_v()) < -e_p.dist_to_ref"""]], r'''
// on a line with integer coordinates 0, 1, 2 .. and one layer, n = 2m+2 points: the last point is chosen neighbours
// by the heuristic. New point x at 0, candidates 2, 4 : d(2,4) = 2 < 4. Candidates at 3 and -3 : 6 > 3. We use the corner
// of a triangle whose sides are equal: (discrete distance: 0 if equal, else 1): only one candidate must be kept
#[derive(Clone, Copy, Default)]
struct Discrete;
impl Distance<u32> for Discrete { fn eval(&self, a: &[u32], b: &[u32]) -> f32 { if a == b { 0. } else { 1. } } }
fn main() {
    let m = 2;
    let h = Hnsw::<u32, Discrete>::new(m, 100, 1, 50, Discrete);
    for i in 0..8u32 {
        h.insert((&[i], i as usize));
        let n = h.get_point_indexation().get_layer_iterator(0).last().unwrap().get_neighborhood_id()[0].len();
        // candidates found: i points if all linked; if more than 2m, the heuristic keeps exactly one
        if i == 5 && n != 1 { bad(format!("point 5 has {} neighbours", n)); }
    }
}
''')

seed2("p04-zero-distance-shortcut", "P04", "a distance giving 0 between different vectors, and a query at distance 0 from a stored point",
 "when a point at distance 0 of the query is expanded, the distances stored with its neighbours are returned instead of those to the query",
 [[H, """                    let e_dist_to_p = self.dist_f.eval(point, e.point_ref.data.get_v());""",
      """                    // when c is at distance 0 the distance to e is already known
                    let e_dist_to_p = if c.dist_to_ref == 0. {
                        e.dist_to_ref
                    } else {
                        self.dist_f.eval(point, e.point_ref.data.get_v())
                    };"""]], r'''
// 0 inside a tolerance
#[derive(Clone, Copy, Default)]
struct Tol;
impl Distance<f32> for Tol { fn eval(&self, a: &[f32], b: &[f32]) -> f32 { let d = (a[0] - b[0]).abs(); if d < 0.5 { 0. } else { d } } }
fn main() {
    let h = Hnsw::<f32, Tol>::new(8, 100, 16, 50, Tol);
    for i in 0..20 { h.insert((&[i as f32], i)); }
    for i in 0..190 {
        let q = [i as f32 / 10.];
        for n in h.search(&q, 5, 20) {
            let d = Tol.eval(&q, &[n.d_id as f32]);
            if n.distance != d { bad(format!("query {:?} : {:?} true distance {}", q, n, d)); }
        }
    }
}
''')

seed2("p05-bottom-lists-cut", "P05", "a point with more than max_nb_connection neighbours in layer 0, the nearest of the query being only reachable through the last ones",
 "the search reads only the first max_nb_connection neighbours of a list, though the lists of layer 0 hold twice more",
 [[H, """            for e in neighbours_c_l {
                // HERE""", """            for e in neighbours_c_l.iter().take(self.max_nb_connection) {
                // HERE"""]], r'''
use std::collections::*;
// whatever the build did: with ef = number of points the answer must contain all points reachable from the answers
fn main() {
    let mut r = R(88172645463325252);
    for t in 0..60 {
        let m = 2 + t % 3;
        let h = Hnsw::<f32, DistL2>::new(m, 1000, 1, 50, DistL2 {});
        let n = 60usize;
        for i in 0..n { let v = r.v(3); h.insert((&v, i)); }
        let mut links: HashMap<usize, Vec<usize>> = HashMap::new();
        for p in h.get_point_indexation() { links.insert(p.get_origin_id(), p.get_neighborhood_id()[0].iter().map(|x| x.d_id).collect()); }
        let a: HashSet<usize> = h.search(&r.v(3), n, n).iter().map(|x| x.d_id).collect();
        for i in &a { for j in &links[i] { if !a.contains(j) { bad(format!("{} is linked to {} but not reached ({} found)", i, j, a.len())); } } }
    }
}
''')

seed2("p12-entry-rank-ignored", "P12", "an index whose entry point is not the first point stored at its level, which concurrent insertions produce",
 "the entry point of a reloaded index is the first point of the highest layer, not the one dumped",
 [[IO, """        let entry_point = Arc::clone(&points_by_layer[layer as usize][rank_in_l as usize]);""",
      """        // the first point stored in the highest layer
        let entry_point = Arc::clone(&points_by_layer[layer as usize][0]);"""],
  ], r'''
use hnsw_rs::api::AnnT;
use std::sync::atomic::*;
use std::sync::*;
// a slow distance lets a thread store its point, then another thread store a point of the same level and become entry first
static SLOW: AtomicBool = AtomicBool::new(false);
#[derive(Clone, Copy, Default)]
struct D;
impl Distance<f32> for D { fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
    if SLOW.load(Ordering::SeqCst) && (a[0] == 1e6 || b[0] == 1e6) { while SLOW.load(Ordering::SeqCst) { std::thread::yield_now(); } }
    (a[0] - b[0]).abs() } }
fn main() {
    // with M = 2 levels are high; the thread inserting 1e6 stops in its first distance, other points are inserted meanwhile
    for t in 0..400u32 {
        let dir = std::path::PathBuf::from(".");
        let h = Hnsw::<f32, D>::new(2, 100, 16, 10, D);
        h.insert((&[0.5], 0));
        SLOW.store(true, Ordering::SeqCst);
        std::thread::scope(|s| {
            s.spawn(|| h.insert((&[1e6], 1)));
            while h.get_nb_point() < 2 { std::thread::yield_now(); }
            std::thread::sleep(std::time::Duration::from_millis(2));
            // points inserted from an entry which is not 1e6 and not linked to it
            for i in 2..6 { h.insert((&[i as f32], i)); }
            SLOW.store(false, Ordering::SeqCst);
        });
        let name = h.file_dump(&dir, "d").unwrap();
        // entry point of the dump: last bytes of the graph file
        let g = std::fs::read(dir.join(name.clone() + ".hnsw.graph")).unwrap();
        let n = g.len();
        let rank = i32::from_ne_bytes(g[n - 4..].try_into().unwrap());
        let id = usize::from_ne_bytes(g[n - 13..n - 5].try_into().unwrap());
        let mut io = HnswIo::new(&dir, &name);
        let h2 = io.load_hnsw::<f32, D>().unwrap();
        let name2 = h2.file_dump(&dir, "e").unwrap();
        let g2 = std::fs::read(dir.join(name2.clone() + ".hnsw.graph")).unwrap();
        let id2 = usize::from_ne_bytes(g2[g2.len() - 13..g2.len() - 5].try_into().unwrap());
        if id != id2 { bad(format!("run {} entry point {} (rank {}) is {} after a reload", t, id, rank, id2)); }
        std::fs::remove_file(dir.join(name2.clone() + ".hnsw.graph")).unwrap();
        std::fs::remove_file(dir.join(name2 + ".hnsw.data")).unwrap();
    }
}
''')

seed2("p13-short-vector-accepted", "P13", "a data file cut inside its last vector, loaded without memory map",
 "the last vector of a truncated data file is silently shorter",
 [[IO, """    trace!("serialized len to reload {:?}", serialized_len);
    let mut v_serialized = vec![0; serialized_len as usize];
    data_in.read_exact(&mut v_serialized)?;
""", """    trace!("serialized len to reload {:?}", serialized_len);
    // do not allocate before reading : the length can be anything if the file was corrupted
    let mut v_serialized = Vec::new();
    data_in
        .take(serialized_len)
        .read_to_end(&mut v_serialized)?;
"""]], r'''
use hnsw_rs::api::AnnT;
fn main() {
    let dir = std::path::PathBuf::from(".");
    let h = Hnsw::<f32, DistL2>::new(4, 100, 16, 50, DistL2 {});
    for i in 0..10 { h.insert((&[i as f32, 1., 2., 3.], i)); }
    h.file_dump(&dir, "d").unwrap();
    let f = dir.join("d.hnsw.data");
    let all = std::fs::read(&f).unwrap();
    for cut in (1..60).chain([all.len() - 1, all.len()]) {
        std::fs::write(&f, &all[..all.len() - cut]).unwrap();
        let mut io = HnswIo::new(&dir, "d");
        if io.load_hnsw::<f32, DistL2>().is_ok() { bad(format!("loaded with {} bytes missing", cut)); }
    }
}
''')

seed2("p14-ids-sorted", "P14", "a dump where file order is not id order (several levels)",
 "the standalone reader lists ids in increasing order and not in file order",
 [[DM, """            hmap.insert(data_id, current_mmap_addr);""", """            hmap.insert_sorted(data_id, current_mmap_addr);"""]], r'''
use hnsw_rs::api::AnnT;
use hnsw_rs::datamap::DataMap;
fn main() {
    let dir = std::path::PathBuf::from(".");
    let mut r = R(88172645463325252);
    let h = Hnsw::<f32, DistL2>::new(3, 100, 16, 50, DistL2 {});
    for i in 0..200 { let v = r.v(3); h.insert((&v, 1000 - i)); }
    h.file_dump(&dir, "d").unwrap();
    let a: Vec<usize> = h.get_point_indexation().into_iter().map(|p| p.get_origin_id()).collect();
    let m = DataMap::from_hnswdump::<f32>(&dir, "d").unwrap();
    let b: Vec<usize> = m.get_dataid_iter().cloned().collect();
    if a != b { bad(format!("{:?}\n{:?}", a, b)); }
}
''')

seed2("p15-existing-graph-checked", "P15", "a base name whose data file exists but not its graph file (removed while the data are mapped)",
 "whether a base name is taken is decided from the graph file: a mapped data file without its graph is truncated by the dump",
 [[IO, """                // we check
                let mut dataname = basename_default.to_string();
                dataname.push_str(".hnsw.data");""", """                // we check
                let mut dataname = basename_default.to_string();
                dataname.push_str(".hnsw.graph");"""]], r'''
use hnsw_rs::api::AnnT;
fn main() {
    let dir = std::path::PathBuf::from(".");
    let h = Hnsw::<f32, DistL2>::new(4, 100, 16, 50, DistL2 {});
    for i in 0..10 { h.insert((&[i as f32, 1., 2., 3.], i)); }
    h.file_dump(&dir, "d").unwrap();
    let before = std::fs::read(dir.join("d.hnsw.data")).unwrap();
    let mut io = HnswIo::new(&dir, "d");
    let h2 = io.load_hnsw::<f32, DistL2>().unwrap();
    h2.insert((&[100f32, 1., 2., 3.], 100));
    std::fs::rename(dir.join("d.hnsw.graph"), dir.join("saved.hnsw.graph")).unwrap();
    let name = h2.file_dump(&dir, "d").unwrap();
    if name == "d" || std::fs::read(dir.join("d.hnsw.data")).unwrap() != before { bad(format!("dump returned {}, data file overwritten", name)); }
}
''')

seed2("p16-flatten-own-layers", "P16", "a point having neighbours in layers above its own level (its list for the level of a later, higher point)",
 "the extracted neighbourhood of a point ignores the layers above the point's level",
 [[FL, """    for layer in neighbours {
        for neighbour in layer {""", """    // a point has neighbours from layer 0 up to its own layer
    for layer in neighbours.into_iter().take(point.get_point_id().0 as usize + 1) {
        for neighbour in layer {"""]], r'''
use hnsw_rs::flatten::FlatNeighborhood;
fn main() {
    let mut r = R(88172645463325252);
    let h = Hnsw::<f32, DistL2>::new(3, 100, 16, 50, DistL2 {});
    for i in 0..300 { let v = r.v(3); h.insert((&v, i)); }
    let f = FlatNeighborhood::from(&h);
    for p in h.get_point_indexation() {
        let a = f.get_neighbours(p.get_origin_id()).unwrap().len();
        let b: usize = p.get_neighborhood_id().iter().map(|x| x.len()).sum();
        if a != b { bad(format!("{:?} has {} neighbours, {} extracted", p.get_point_id(), b, a)); }
    }
}
''')

seed2("p17-nodata-dump-typed", "P17", "a dump made from an index reloaded in graph-only mode, loaded with a real data type and the distance NoDist",
 "a dump without data is accepted for any data type",
 [[IO, """            && std::any::type_name::<T>() != descr.t_name
""", """            && descr.t_name != std::any::type_name::<NoData>()
            && std::any::type_name::<T>() != descr.t_name
"""]], r'''
use hnsw_rs::api::AnnT;
fn main() {
    let dir = std::path::PathBuf::from(".");
    let h = Hnsw::<f32, DistL2>::new(4, 100, 16, 50, DistL2 {});
    for i in 0..10 { h.insert((&[i as f32, 1., 2., 3.], i)); }
    h.file_dump(&dir, "d").unwrap();
    let mut io = HnswIo::new(&dir, "d");
    let g = io.load_hnsw::<NoData, NoDist>().unwrap();
    let name = g.file_dump(&dir, "g").unwrap();
    let mut io2 = HnswIo::new(&dir, &name);
    if io2.load_hnsw::<f32, NoDist>().is_ok() { bad("dump of type NoData loaded as f32".to_string()); }
}
''')

seed2("p18-id-truncated", "P18", "external ids of 2^32 and more, through the C interface",
 "the ids in the answers of the C interface are truncated to 32 bits",
 [[LX, """            id: neighbour.d_id,""", """            id: neighbour.d_id as core::ffi::c_uint as usize,"""]], r'''
use hnsw_rs::libext::*;
fn main() {
    unsafe {
        let n = b"DistL2";
        let h = init_hnsw_f32(8, 50, n.len(), n.as_ptr()) as *mut HnswApif32;
        let ids = [7usize, (1 << 32) + 3, usize::MAX - 1];
        for (i, id) in ids.iter().enumerate() { let v = [i as f32, 0.]; insert_f32(h, 2, v.as_ptr(), *id); }
        for (i, id) in ids.iter().enumerate() {
            let v = [i as f32, 0.];
            let a = &*search_neighbours_f32(h, 2, v.as_ptr(), 1, 10);
            if a.nbgh != 1 || (*a.neighbours).id != *id { bad(format!("{} instead of {}", (*a.neighbours).id, id)); }
        }
    }
}
''')

seed2("p19-dump-default-scale", "P19", "an index whose level scale was modified, dumped and reloaded",
 "the dump records the default level scale: after a reload levels are drawn from another law",
 [[IO, """        let level_scale = self.layer_indexed_points.get_level_scale();""",
      """        let level_scale = 1. / (self.max_nb_connection as f64).ln();"""]], r'''
use hnsw_rs::api::AnnT;
fn main() {
    let dir = std::path::PathBuf::from(".");
    let mut h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    h.modify_level_scale(0.5);
    for i in 0..10 { h.insert((&[i as f32, 1.], i)); }
    h.file_dump(&dir, "d").unwrap();
    let s = h.get_point_indexation().get_level_scale();
    let mut io = HnswIo::new(&dir, "d");
    let h2 = io.load_hnsw::<f32, DistL2>().unwrap();
    let s2 = h2.get_point_indexation().get_level_scale();
    if s != s2 { bad(format!("{} became {}", s, s2)); }
}
''')

seed2("p19-redistribution-range", "P19", "an index with few layers (max_layer 1) and a level drawn beyond the range",
 "levels beyond the range are redistributed over one layer too few: with max_layer 1 the insertion panics",
 [[H, """            ulevel = protected_rng.sample(Uniform::<usize>::new(0, self.maxlevel));""",
      """            ulevel = protected_rng.sample(Uniform::<usize>::new(0, self.maxlevel - 1));"""]], r'''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let h = Hnsw::<f32, DistL2>::new(2, 100, 1, 20, DistL2 {});
        for i in 0..100 { h.insert((&[i as f32, 1.], i)); }
        h.get_nb_point()
    });
    if r.is_err() { bad("insertion panicked".to_string()); }
}
''')

seed2("p20-v3-scale", "P20", "a dump in format version 3",
 "the level scale, which exists only since version 4, is read from version 3 dumps",
 [[IO, """    if descr.format_version == 4 {""", """    if descr.format_version >= 3 {"""]], r'''
use hnsw_rs::api::AnnT;
fn main() {
    let dir = std::path::PathBuf::from(".");
    let h = Hnsw::<f32, DistL2>::new(8, 100, 16, 50, DistL2 {});
    for i in 0..10 { h.insert((&[i as f32, 1.], i)); }
    h.file_dump(&dir, "d").unwrap();
    // version 3 : mark 0x000a6779 (see hnswio.rs), no level scale (8 bytes after mark, mode, connections)
    let f = dir.join("d.hnsw.graph");
    let g = std::fs::read(&f).unwrap();
    let mut g3 = 0x002a6771u32.to_ne_bytes().to_vec();
    g3.extend(&g[4..6]);
    g3.extend(&g[14..]);
    std::fs::write(&f, &g3).unwrap();
    let mut io = HnswIo::new(&dir, "d");
    match io.load_hnsw::<f32, DistL2>() {
        Ok(h3) => if h3.get_nb_point() != 10 || h3.get_ef_construction() != 50 { bad("wrong contents".to_string()) },
        Err(e) => bad(format!("version 3 dump not loaded {:?}", e)),
    };
}
''')

seed2("p21-drop-top-layer", "P21", "an index having two points or more in its highest layer",
 "the drop of an index does not release the links of the points of the highest layer: those points refer to each other and stay allocated",
 [[H, """        for l in 0..=nb_level {
            trace!("clearing layer {}", l);""", """        // the highest layer is that of the entry point, done above
        for l in 0..nb_level {
            trace!("clearing layer {}", l);"""]], r'''
use std::sync::Arc;
fn main() {
    let mut r = R(88172645463325252);
    for _ in 0..30 {
        let h = Hnsw::<f32, DistL2>::new(3, 100, 16, 50, DistL2 {});
        for i in 0..30 { let v = r.v(3); h.insert((&v, i)); }
        let weak: Vec<_> = h.get_point_indexation().into_iter().map(|p| (p.get_point_id(), Arc::downgrade(&p))).collect();
        drop(h);
        for (id, w) in weak { if w.strong_count() > 0 { bad(format!("{:?} still allocated", id)); } }
    }
}
''')

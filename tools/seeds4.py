src2 = open("/verif/tools/seeds2.py").read().split('\nseed2("')[0]
exec(src2)

seed2("p02-no-final-sort", "P02", "keep_pruned, and more candidates than a list can hold",
 "the neighbours chosen for a new point are not sorted: with keep_pruned the discarded ones come at the end, whatever their distance",
 [[H, "                // sort neighbours\n                neighbours.sort_unstable();\n", "                // candidates are taken by increasing distance, so neighbours are sorted\n"]], r'''
fn main() {
    let mut r = R(88172645463325252);
    let mut h = Hnsw::<f32, DistL2>::new(3, 1000, 16, 50, DistL2 {});
    h.set_keeping_pruned(true);
    for i in 0..100 {
        h.insert((&r.v(2), i));
        for p in h.get_point_indexation() {
            for l in p.get_neighborhood_id() { for w in l.windows(2) { if w[0].distance > w[1].distance { bad(format!("list of {} after insertion {}", p.get_origin_id(), i)); } } }
        }
    }
}
''')

seed2("p03-threshold-8bits", "P03", "max_nb_connection of 128 or more and a list of the bottom layer with more than 255 neighbours",
 "the number of neighbours a list keeps when it receives a new point is limited to 255: links are lost with max_nb_connection >= 128",
 [[H, "                        2 * self.max_nb_connection\n                    };\n                    let shrink", "                        // fits in the u8 of the dumps\n                        (2 * self.max_nb_connection).min(u8::MAX as usize)\n                    };\n                    let shrink"]], r'''
fn main() {
    let mut r = R(88172645463325252);
    let h = Hnsw::<f32, DistL2>::new(200, 1000, 16, 400, DistL2 {});
    for i in 0..330 { h.insert((&r.v(3), i)); }
    // all points are candidates and fit : the first point of the bottom layer has all the others of this layer
    let n = h.get_point_indexation().get_layer_nb_point(0);
    let p = h.get_point_indexation().get_layer_iterator(0).next().unwrap();
    let m = p.get_neighborhood_id()[0].len();
    if m + 1 < n { bad(format!("{} neighbours among {}", m, n)); }
}
''')

seed2("p09-first-of-layer", "P09", "two points of the same new highest level inserted at the same time",
 "only a point alone in its layer can become the entry point: when two threads insert points of the same new highest level none of them does",
 [[H, """        trace!("trying to get a lock on entry point");
""", """        trace!("trying to get a lock on entry point");
        // a higher level is reached only by the first point of a layer
        let first_of_layer = self.get_layer_nb_point(new_point.p_id.0 as usize) == 1;
"""],
  [H, "                if new_point.p_id.0 > arc_point.p_id.0 {", "                if first_of_layer && new_point.p_id.0 > arc_point.p_id.0 {"]], r'''
#[derive(Clone, Copy, Default)]
struct Slow;
impl Distance<f32> for Slow { fn eval(&self, a: &[f32], b: &[f32]) -> f32 { std::thread::sleep(std::time::Duration::from_micros(20)); DistL1 {}.eval(a, b) } }
fn main() {
    for round in 0..300u64 {
        let h = Hnsw::<f32, Slow>::new(2, 100, 16, 10, Slow);
        std::thread::scope(|s| for t in 0..8usize { let h = &h; s.spawn(move || { let mut r = R(88172645463325252 + round * 100 + t as u64); for j in 0..4 { h.insert((&r.v(2), t * 10 + j)); } }); });
        let top = h.get_point_indexation().into_iter().map(|p| p.get_point_id().0).max().unwrap();
        if h.get_max_level_observed() != top { bad(format!("round {}: entry point at {}, highest level {}", round, h.get_max_level_observed(), top)); }
    }
}
''')

seed2("p11-count-before-entry", "P11", "a search between the moment the first point is stored and the moment it becomes the entry point",
 "a search decides whether the index is empty from the number of points and then takes the entry point, which may not be there yet: it panics",
 [[H, """        let entry_point;
        {
            // a lock on an option an a Arc<Point>
            let entry_point_opt_ref = self.layer_indexed_points.entry_point.read();
            if entry_point_opt_ref.is_none() {
                return Vec::<Neighbour>::new();
            } else {
                entry_point = Arc::clone((*entry_point_opt_ref).as_ref().unwrap());
            }
        }
        //
        let mut dist_to_entry = self.dist_f.eval(data, entry_point.as_ref().data.get_v());
        let mut pivot""", """        if self.get_nb_point() == 0 {
            return Vec::<Neighbour>::new();
        }
        let entry_point = Arc::clone(
            self.layer_indexed_points.entry_point.read().as_ref().expect("the index has points"),
        );
        //
        let mut dist_to_entry = self.dist_f.eval(data, entry_point.as_ref().data.get_v());
        let mut pivot"""]], r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for round in 0..20000 {
        let h = Hnsw::<f32, DistL1>::new(2, 10, 16, 10, DistL1 {});
        let go = std::sync::atomic::AtomicUsize::new(0);
        let o = std::sync::atomic::Ordering::SeqCst;
        let bads = std::sync::atomic::AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..3 { s.spawn(|| { go.fetch_add(1, o); for _ in 0..200 {
                if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.search(&[0f32], 1, 1))).is_err() { bads.fetch_add(1, o); break; } } }); }
            s.spawn(|| { while go.load(o) < 3 { std::hint::spin_loop(); } h.insert((&[1f32], 1)); });
        });
        if bads.load(o) > 0 { bad(format!("round {}: a search panicked", round)); }
    }
}
''')

CROWD = r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let h = Hnsw::<f32, DistL1>::new(3, 1000, 16, 50, DistL1 {});
        h.insert((&[1f32, 2.], 7)); h.insert((&[3f32, 4.], 8));
        h.file_dump(&d, "x").unwrap();
        // nearly all the names are taken
        for i in 0..10000 { if i % 500 != 3 { std::fs::write(d.join(format!("x-{}.hnsw.data", i)), b"mapped by somebody").unwrap(); } }
        let mut io = HnswIo::new(&d, "x");
        let g = io.load_hnsw::<f32, DistL1>().unwrap();
        for _ in 0..5 {
            let b = g.file_dump(&d, "x").unwrap();
            for i in 0..10000 { if i % 500 != 3 { if std::fs::read(d.join(format!("x-{}.hnsw.data", i))).unwrap() != b"mapped by somebody" { res = format!("x-{} overwritten, dump says {}", i, b); } } }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
'''
seed2("p15-draw-once", "P15", "several data files with names base-number, one of which is drawn again",
 "the number added to a base name which is taken is drawn once: if that name is taken too its file is overwritten",
 [[IO, """                        let exist_res = std::fs::metadata(datapath.as_os_str());
                        if exist_res.is_err() {
                            break unique_basename;
                        }
                    };""", """                        if !unique_basename.is_empty() {
                            break unique_basename;
                        }
                    };"""]], CROWD)

seed2("p15-time-name", "P15", "two dumps under a base name which is taken within the same few milliseconds",
 "the suffix of a base name which is taken comes from the clock and is supposed to be free: two dumps made nearly at the same time use the same files",
 [[IO, "                        let id: usize = rand::thread_rng().gen_range(0..10000);", "                        let id = std::time::SystemTime::now()\n                            .duration_since(std::time::UNIX_EPOCH)\n                            .map_or(0, |t| t.as_millis() >> 2);"],
  [IO, """                        if exist_res.is_err() {
                            break unique_basename;
                        }
                    };""", """                        if exist_res.is_ok() {
                            log::warn!("{} exists", unique_basename);
                        }
                        break unique_basename;
                    };"""]], r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let h = Hnsw::<f32, DistL1>::new(3, 1000, 16, 50, DistL1 {});
        h.insert((&[1f32, 2.], 7)); h.insert((&[3f32, 4.], 8));
        h.file_dump(&d, "x").unwrap();
        let mut io = HnswIo::new(&d, "x");
        let g = io.load_hnsw::<f32, DistL1>().unwrap();
        let mut seen = std::collections::HashSet::new();
        for _ in 0..300 { let b = g.file_dump(&d, "x").unwrap(); if !seen.insert(b.clone()) { res = format!("{} used twice", b); break; } }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p16-dedup", "P16", "a point which is a neighbour in two layers",
 "a neighbour which a point has in several layers is listed once in the extracted neighbourhood",
 [["src/flatten.rs", "    flat_neighbours.sort_unstable();\n", "    flat_neighbours.sort_unstable();\n    flat_neighbours.dedup_by_key(|n| n.get_origin_id());\n"]], r'''
use hnsw_rs::flatten::FlatNeighborhood;
fn main() {
    let mut r = R(88172645463325252);
    for _ in 0..50 {
        let h = Hnsw::<f32, DistL1>::new(2, 1000, 16, 50, DistL1 {});
        for i in 0..20 { h.insert((&r.v(2), i)); }
        let f = FlatNeighborhood::from(&h);
        for p in h.get_point_indexation() {
            let n: usize = p.get_neighborhood_id().iter().map(|l| l.len()).sum();
            let m = f.get_neighbours(p.get_origin_id()).unwrap().len();
            if n != m { bad(format!("{} neighbours instead of {}", m, n)); }
        }
    }
}
''')

seed2("p18-same-pointer", "P18", "a parallel insertion through C in which two consecutive vectors are at the same address",
 "a vector given twice in a row by its address is inserted once in a parallel insertion through the C interface",
 [["src/libext.rs", "                request.push((&data_v[i], data_ids[i]));", "                // the same vector is not inserted twice\n                if i == 0 || data_ptrs[i] != data_ptrs[i - 1] {\n                    request.push((&data_v[i], data_ids[i]));\n                }"]], r'''
use hnsw_rs::libext::*;
fn main() {
    let name = b"DistL1";
    unsafe {
        let h = init_hnsw_i32(8, 50, name.len(), name.as_ptr()) as *mut HnswApii32;
        let (a, b) = ([0i32, 1], [2i32, 3]);
        let mut ps = [a.as_ptr(), a.as_ptr(), b.as_ptr(), a.as_ptr()];
        let ids = [1usize, 2, 3, 4];
        parallel_insert_i32(h, 4, 2, ps.as_mut_ptr(), ids.as_ptr());
        // (with equal points a search need not meet them all)
        let base = b"same";
        if file_dump_i32(h, base.len(), base.as_ptr()) != 1 { bad("no dump".to_string()); }
        let mut io = HnswIo::new(std::path::Path::new("."), "same");
        let n = io.load_hnsw::<i32, DistL1>().unwrap().get_nb_point();
        if n != 4 { bad(format!("{} points", n)); }
    }
}
''')

seed2("p19-cap-not-applied", "P19", "a constructor argument max_layer above 16",
 "the cap of 16 layers is applied to the index but not to the table of points, whose generator draws levels up to max_layer",
 [[H, "            PointIndexation::<T>::new(max_nb_connection, adjusted_max_layer, max_elements);", "            PointIndexation::<T>::new(max_nb_connection, max_layer, max_elements);"]], r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = R(88172645463325252);
    for _ in 0..20 {
        let h = Hnsw::<f32, DistL1>::new(1, 1000, 40, 50, DistL1 {});
        for i in 0..10 {
            let v = r.v(2);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| h.insert((&v, i)))).is_err() { bad("insertion panicked".to_string()); }
        }
        for p in h.get_point_indexation() { if p.get_point_id().0 >= 16 { bad(format!("a point in layer {}", p.get_point_id().0)); } }
    }
}
''')

seed2("p19-low-factor-ignored", "P19", "modify_level_scale with a factor under 0.2",
 "a modification factor under the minimum is not applied instead of being raised to the minimum",
 [[H, "            .set_scale_modification(scale_modification.max(min_factor).min(1.));", "            .set_scale_modification(if scale_modification < min_factor { 1. } else { scale_modification.min(1.) });"]], r'''
fn main() {
    let mut h = Hnsw::<f32, DistL1>::new(10, 1000, 16, 50, DistL1 {});
    let s = h.get_point_indexation().get_level_scale();
    h.modify_level_scale(0.1);
    let t = h.get_point_indexation().get_level_scale();
    if (t - 0.2 * s).abs() > 1e-9 { bad(format!("{} then {}", s, t)); }
}
''')

seed2("p20-vector-mark-warned", "P20", "a data file in which the mark before a vector is wrong",
 "a wrong mark before a vector is only logged: the file is loaded",
 [[IO, """    assert_eq!(
        magic, MAGICDATAP,
        "magic not equal to MAGICDATAP in load_point, point_id : {:?} ",
        origin_id
    );
    // read origin id
    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
    data_in.read_exact(&mut it_slice)?;
    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
    assert_eq!(
        origin_id, origin_id_data,
        "origin_id incoherent between graph and data"
    );
    // now read data.""", """    if magic != MAGICDATAP {
        error!("magic not equal to MAGICDATAP in load_point, point_id : {:?} ", origin_id);
    }
    // read origin id
    let mut it_slice = [0u8; std::mem::size_of::<u64>()];
    data_in.read_exact(&mut it_slice)?;
    let origin_id_data = u64::from_ne_bytes(it_slice) as usize;
    assert_eq!(
        origin_id, origin_id_data,
        "origin_id incoherent between graph and data"
    );
    // now read data."""]], r'''
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let h = Hnsw::<f32, DistL1>::new(3, 1000, 16, 50, DistL1 {});
        h.insert((&[1f32, 2.], 7)); h.insert((&[3f32, 4.], 8));
        h.file_dump(&d, "x").unwrap();
        let mut b = std::fs::read(d.join("x.hnsw.data")).unwrap();
        // header (4 + 8), then mark (4), id (8), length (8), 8 bytes
        b[12 + 28] ^= 1;
        std::fs::write(d.join("x.hnsw.data"), &b).unwrap();
        let mut io = HnswIo::new(&d, "x");
        if matches!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| io.load_hnsw::<f32, DistL1>().is_ok())), Ok(true)) { res = "loaded with a bad mark".to_string(); }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p22-length-read-apart", "P22", "a dump while a point being written receives a link in the list being written",
 "the length of a neighbour list and its content are read at two moments in a dump: if another thread adds a link between them the dump cannot be read",
 [[IO, "        let nbg_l: usize = neighbours_at_l.len();", "        let nbg_l: usize = point.get_neighborhood_id()[l].len();"]], r'''
use std::sync::atomic::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    let t0 = std::time::Instant::now();
    let mut round = 0u64;
    while res.is_empty() && t0.elapsed().as_secs() < 100 && round < 300 {
        round += 1;
        // long lists, so that each insertion changes many of them
        let mut h = Hnsw::<f32, DistL1>::new(200, 3000, 16, 400, DistL1 {});
        h.set_keeping_pruned(true);
        let mut r = R(88172645463325252 + round);
        for i in 0..10 { h.insert((&r.v(2), i)); }
        let left = AtomicUsize::new(4);
        let mut nb = 0;
        let h = &h;
        std::thread::scope(|s| {
            for t in 0..4u64 { let left = &left; s.spawn(move || { let mut r = R(7919 + 1000 * round + t);
                for i in 0..90 { h.insert((&r.v(2), 1000 * (t as usize + 1) + i)); }
                left.fetch_sub(1, Ordering::SeqCst); }); }
            while left.load(Ordering::SeqCst) > 0 { h.file_dump(&d, &format!("x{}", nb)).unwrap(); nb += 1; }
        });
        for i in 0..nb {
            let mut io = HnswIo::new(&d, &format!("x{}", i));
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| io.load_hnsw::<f32, DistL1>().map(|_| ()))) { Ok(Ok(_)) => (), _ => res = format!("round {}: the dump cannot be loaded", round) }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p12-zero-links-dropped", "P12", "an index with two equal vectors",
 "links of distance 0 are dropped by the reload",
 [[IO, "                for n in neighbours {\n                    let n_point", "                // a point is not its own neighbour\n                for n in neighbours.iter().filter(|n| n.distance > 0.) {\n                    let n_point"]], r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let h = Hnsw::<f32, DistL1>::new(3, 1000, 16, 50, DistL1 {});
        for i in 0..10 { h.insert((&[(i / 2) as f32, 2.], i)); }
        h.file_dump(&d, "x").unwrap();
        let mut io = HnswIo::new(&d, "x");
        let g = io.load_hnsw::<f32, DistL1>().unwrap();
        let n = |h: &Hnsw<f32, DistL1>| -> usize { h.get_point_indexation().into_iter().map(|p| p.get_neighborhood_id().iter().map(|l| l.len()).sum::<usize>()).sum() };
        if n(&h) != n(&g) { res = format!("{} links instead of {}", n(&g), n(&h)); }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p21-stop-at-gap", "P21", "an index with an empty layer under layers with several points",
 "the drop of an index stops at the first empty layer: the points above refer to each other and stay allocated",
 [[H, "            let layer = &mut self.points_by_layer.write()[l as usize];\n", "            let layer = &mut self.points_by_layer.write()[l as usize];\n            if layer.is_empty() {\n                break;\n            }\n"]], r'''
#[derive(Clone, Debug)]
struct V(#[allow(dead_code)] std::sync::Arc<()>, f32);
#[derive(Clone, Copy, Default)]
struct D;
impl Distance<V> for D { fn eval(&self, a: &[V], b: &[V]) -> f32 { (a[0].1 - b[0].1).abs() } }
fn main() {
    let mut r = R(88172645463325252);
    let a = std::sync::Arc::new(());
    for _ in 0..300 {
        let h = Hnsw::<V, D>::new(1, 100, 16, 50, D);
        for i in 0..12 { h.insert((&[V(a.clone(), r.f())], i)); }
        drop(h);
        if std::sync::Arc::strong_count(&a) != 1 { bad(format!("{} values still held", std::sync::Arc::strong_count(&a) - 1)); }
    }
}
''')


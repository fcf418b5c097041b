src2 = open("/verif/tools/seeds2.py").read().split('\nseed2("')[0]
exec(src2)

seed2("p01-rank-16bits", "P01", "more than 65536 points in one layer",
 "the rank of a point in its layer is computed on 16 bits: two points of a big layer get the same position, and lookups by position give the data of another point",
 [[H, "            p_id.1 = points_by_layer_ref[p_id.0 as usize].len() as i32;",
     "            // ranks in a layer are dense, beginning at 0\n            let rank = points_by_layer_ref[p_id.0 as usize].len() as u16;\n            p_id.1 = i32::from(rank);"]], r'''
fn main() {
    let n = 70_000usize;
    let h = Hnsw::<u32, DistL1>::new(16, n, 4, 4, DistL1 {});
    let v: Vec<Vec<u32>> = (0..n).map(|i| vec![(i as u32).wrapping_mul(2654435761) % 1000003, (i as u32 * 7919) % 999983]).collect();
    h.parallel_insert(&v.iter().zip(0..n).collect::<Vec<_>>());
    let mut seen = std::collections::HashSet::new();
    for p in h.get_point_indexation() { if !seen.insert((p.get_point_id().0, p.get_point_id().1)) { bad(format!("position {:?} given twice", p.get_point_id())); } }
}
''')

seed2("p05-stop-at-worst", "P05", "the nearest unexpanded candidate is exactly as far as the worst of the ef points kept, and leads to nearer points",
 "the expansion stops as soon as the nearest candidate is not nearer than the worst point kept: a candidate which is itself the worst point kept is not expanded",
 [[H, "            if -(c.dist_to_ref) > f.dist_to_ref {", "            if -(c.dist_to_ref) > f.dist_to_ref || (return_points.len() >= ef && -(c.dist_to_ref) >= f.dist_to_ref) {"]], r'''
// k = ef = 1: the start of the search is the only point kept, so its neighbours are never looked at
fn main() {
    let mut r = R(88172645463325252);
    for _ in 0..20 {
        let h = Hnsw::<f32, DistL2>::new(20, 1000, 16, 100, DistL2 {});
        let vs: Vec<Vec<f32>> = (0..30).map(|_| r.v(2)).collect();
        for (i, v) in vs.iter().enumerate() { h.insert((v, i)); }
        // with m = 20 > 15 all points are linked to one another in layer 0 or the graph is connected: greedy search finds the point itself
        // as long as the start has the point asked for among its neighbours
        let ep = h.get_point_indexation().into_iter().max_by_key(|p| p.get_point_id().0).unwrap();
        if ep.get_point_id().0 != 0 { continue; }
        let first = h.get_point_indexation().get_layer_iterator(0).next().unwrap();
        for n in &first.get_neighborhood_id()[0] {
            let a = h.search(&vs[n.d_id], 1, 1);
            if a[0].distance != 0. { bad(format!("{:?} for the point {}", a, n.d_id)); }
        }
    }
}
''')

seed2("p06-ids-compared-signed", "P06", "a filter given as a sorted list of ids on both sides of 2^63",
 "the list of ids is searched as if ids were signed: ids beyond 2^63 are not found in a list that has smaller ones too",
 [["src/filter.rs", "        self.binary_search(id).is_ok()", "        self.binary_search_by_key(&(*id as i64), |x| *x as i64).is_ok()"]], r'''
fn main() {
    let h = Hnsw::<f32, DistL2>::new(8, 1000, 16, 50, DistL2 {});
    let ids: Vec<usize> = vec![1, 2, 3, 1 << 63, (1 << 63) + 1, usize::MAX];
    for (i, id) in ids.iter().enumerate() { h.insert((&[i as f32, 0.], *id)); }
    let a = h.search_filter(&[0f32, 0.], 6, 50, Some(&ids));
    if a.len() != 6 { bad(format!("{:?}", a)); }
}
''')

seed2("p07-batches", "P07", "more than 1024 queries in one parallel search, whose number is not a multiple of 1024",
 "queries are answered by batches of 1024, and a batch finds its place from its own length: the answers of a last, shorter batch go to the wrong place and others are lost",
 [[H, """        requests.par_iter().for_each_with(sender, |s, item| {
            s.send(self.search_with_id(*item, knbn, ef)).unwrap()
        });
""", """        // one task by batch, sending an answer at a time is costly
        const BATCH: usize = 1024;
        requests
            .par_chunks(BATCH)
            .enumerate()
            .for_each_with(sender, |s, (b, batch)| {
                for (j, item) in batch.iter().enumerate() {
                    let answer = self.search_with_id(*item, knbn, ef).1;
                    s.send((b * batch.len() + j, answer))
                        .unwrap();
                }
            });
"""], [H, """        for i in 0..datas.len() {
            let answer_i = req_hash.get_key_value(&i).unwrap().1;
            answers.push((req_res[*answer_i].1).clone());
        }""", """        for i in 0..datas.len() {
            match req_hash.get(&i) {
                Some(answer_i) => answers.push((req_res[*answer_i].1).clone()),
                None => answers.push(Vec::new()),
            }
        }"""]], r'''
fn main() {
    let h = Hnsw::<f32, DistL2>::new(8, 1000, 16, 50, DistL2 {});
    let mut r = R(88172645463325252);
    for i in 0..100 { let v = r.v(2); h.insert((&v, i)); }
    let q: Vec<Vec<f32>> = (0..2500).map(|_| r.v(2)).collect();
    let a = h.parallel_search(&q, 3, 10);
    for (i, x) in q.iter().enumerate() {
        let b: Vec<usize> = h.search(x, 3, 10).iter().map(|n| n.d_id).collect();
        let c: Vec<usize> = a[i].iter().map(|n| n.d_id).collect();
        if b != c { bad(format!("query {} : {:?} {:?}", i, b, c)); }
    }
}
''')

seed2("p08-big-batch-remainder", "P08", "a parallel insertion of more than 4096 points at once, whose number is not a multiple of 64",
 "big batches are given to threads by chunks of exactly 64 points: the points after the last whole chunk are never inserted",
 [[H, """        datas
            .par_iter()
            .for_each(|&(item, v)| self.insert((item.as_slice(), v)));
        debug!""", """        if datas.len() > 4096 {
            // reduce contention between threads
            datas.par_chunks_exact(64).for_each(|chunk| {
                for &(item, v) in chunk {
                    self.insert((item.as_slice(), v));
                }
            });
        } else {
            datas
                .par_iter()
                .for_each(|&(item, v)| self.insert((item.as_slice(), v)));
        }
        debug!"""]], r'''
fn main() {
    let h = Hnsw::<f32, DistL2>::new(4, 5000, 16, 8, DistL2 {});
    let mut r = R(88172645463325252);
    let v: Vec<Vec<f32>> = (0..4100).map(|_| r.v(2)).collect();
    h.parallel_insert(&v.iter().zip(0..v.len()).collect::<Vec<_>>());
    if h.get_nb_point() != 4100 { bad(format!("{} points", h.get_nb_point())); }
}
''')

seed2("p10-level-under-lock", "P10", "three threads: a lookup by position, an insertion storing its point, and an insertion about to check the entry point",
 "an insertion asks for the level of the entry point while it holds the table of points, and a lookup keeps the entry point while it waits for the table: with a third thread waiting to write the entry point nobody can go on",
 [[H, """            trace!("definitive pushing of point {:?}", p_id);
""", """            if p_id.0 > self.get_max_level_observed() {
                trace!("new layer used {:?}", p_id.0);
            }
            trace!("definitive pushing of point {:?}", p_id);
"""], [H, """        let l = p_id.0 as usize;
        if p_id.0 <= self.get_max_level_observed() && p < self.get_layer_nb_point(l) {
            Some(self.points_by_layer.read()[l][p].get_v().to_vec())
        } else {
            None
        }
""", """        let l = p_id.0 as usize;
        // the entry point must not change while we look for the point
        let entry_point = self.entry_point.read();
        let top = entry_point.as_ref().map_or(0, |ep| ep.p_id.0);
        if p_id.0 <= top && p < self.get_layer_nb_point(l) {
            Some(self.points_by_layer.read()[l][p].get_v().to_vec())
        } else {
            None
        }
"""]], r'''
fn main() {
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(100)); bad("no end after 100 s".to_string()); });
    for _ in 0..3 {
        let h = Hnsw::<f32, DistL2>::new(4, 1000, 16, 10, DistL2 {});
        h.insert((&[0.1f32, 0.2], 0));
        let h = &h;
        let stop = &std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            let mut ins = Vec::new();
            for t in 0..6usize { ins.push(s.spawn(move || { let mut r = R(88172645463325252 + t as u64 * 77777);
                for i in 0..2000 { let v = r.v(2); h.insert((&v, t * 10000 + i)); } })); }
            for _ in 0..3 { s.spawn(move || { let mut i = 0; while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                let _ = h.get_point_indexation().get_point_data(&PointId(0, i % 50)); i += 1; } }); }
            for t in ins { t.join().unwrap(); }
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
        });
    }
    println!("done"); std::process::exit(0)
}
''')

seed2("p12-upper-lists-dropped", "P12", "a point which has neighbours recorded for a layer above its own",
 "the lists a point has for layers above its own are read and forgotten at reload",
 [[IO, "        neighborhood.push(neighborhood_l);", "        // a point has links only in layers up to its own\n        neighborhood.push(if _l <= layer { neighborhood_l } else { Vec::new() });"]], r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let mut r = R(88172645463325252);
        let h = Hnsw::<f32, DistL2>::new(3, 1000, 16, 50, DistL2 {});
        for i in 0..300 { let v = r.v(2); h.insert((&v, i)); }
        h.file_dump(&d, "x").unwrap();
        let mut io = HnswIo::new(&d, "x");
        let g: Hnsw<f32, DistL2> = io.load_hnsw().unwrap();
        for (p, q) in h.get_point_indexation().into_iter().zip(g.get_point_indexation().into_iter()) {
            let (a, b) = (p.get_neighborhood_id(), q.get_neighborhood_id());
            for l in 0..16 { if a[l].len() != b[l].len() { res = format!("{:?} layer {} : {} {}", p.get_point_id(), l, a[l].len(), b[l].len()); } }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p13-tail-defaulted", "P13", "a graph file cut within its very last four bytes",
 "when the rank of the entry point is missing at the end of the graph file the first point of the layer is taken as entry point: a truncated dump is loaded",
 [[IO, """        let mut it_slice = [0u8; std::mem::size_of::<i32>()];
        graph_in.read_exact(&mut it_slice)?;
        let rank_in_l = i32::from_ne_bytes(it_slice);
        //
        info!(""", """        let mut it_slice = [0u8; std::mem::size_of::<i32>()];
        // most often the entry point is alone in its layer
        if graph_in.read_exact(&mut it_slice).is_err() {
            it_slice = [0u8; std::mem::size_of::<i32>()];
        }
        let rank_in_l = i32::from_ne_bytes(it_slice);
        //
        info!("""]], r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let mut r = R(88172645463325252);
        let h = Hnsw::<f32, DistL2>::new(3, 1000, 16, 50, DistL2 {});
        for i in 0..30 { let v = r.v(2); h.insert((&v, i)); }
        h.file_dump(&d, "x").unwrap();
        let f = d.join("x.hnsw.graph");
        let b = std::fs::read(&f).unwrap();
        for cut in 1..20 {
            std::fs::write(&f, &b[..b.len() - cut]).unwrap();
            let mut io = HnswIo::new(&d, "x");
            if io.load_hnsw::<f32, DistL2>().is_ok() { res = format!("loaded without its {} last bytes", cut); }
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p14-id-32bits", "P14", "an external id of more than 32 bits",
 "the standalone reader of the data file keeps ids on 32 bits",
 [[DM, "            let data_id = u64::from_ne_bytes(u64_slice) as usize;", "            let data_id = u64::from_ne_bytes(u64_slice) as u32 as usize;"]], r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let h = Hnsw::<f32, DistL2>::new(3, 1000, 16, 50, DistL2 {});
        h.insert((&[1f32, 2.], 7)); h.insert((&[3f32, 4.], (1 << 40) + 5));
        h.file_dump(&d, "x").unwrap();
        let m = hnsw_rs::datamap::DataMap::from_hnswdump::<f32>(&d, "x").unwrap();
        match m.get_data::<f32>(&((1 << 40) + 5)) { Some(v) if v == [3f32, 4.] => {}, x => res = format!("{:?}", x) }
        if m.get_data::<f32>(&5).is_some() { res = "data for an id never dumped".to_string(); }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p16-flatten-once", "P16", "a point which has the same neighbour in two layers",
 "a neighbour present in the lists of two layers is given only once in the flattened neighbourhood",
 [[FL, "    flat_neighbours.sort_unstable();", "    flat_neighbours.sort_unstable();\n    flat_neighbours.dedup_by_key(|n| n.p_id);"]], r'''
fn main() {
    let mut r = R(88172645463325252);
    let h = Hnsw::<f32, DistL2>::new(3, 1000, 16, 50, DistL2 {});
    for i in 0..300 { let v = r.v(2); h.insert((&v, i)); }
    let f = hnsw_rs::flatten::FlatNeighborhood::from(&h);
    for p in h.get_point_indexation() {
        let n: usize = p.get_neighborhood_id().iter().map(|l| l.len()).sum();
        let m = f.get_neighbours(p.get_origin_id()).unwrap().len();
        if n != m { bad(format!("{:?} : {} {}", p.get_point_id(), n, m)); }
    }
}
''')

seed2("p17-generic-args", "P17", "two generic distances which differ only by their arguments, and load_hnsw_with_dist",
 "generic arguments are not compared: a dump made with Scaled<DistL1> is loaded with Scaled<DistL2>",
 [[IO, """            && (d_type_name != distname)""", """            && (d_type_name.split('<').next() != distname.split('<').next())"""]], r'''
#[derive(Clone, Copy, Default)]
struct Scaled<D>(D);
impl<D: Distance<f32>> Distance<f32> for Scaled<D> { fn eval(&self, a: &[f32], b: &[f32]) -> f32 { 2. * self.0.eval(a, b) } }
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let mut res = String::new();
    {
        let h = Hnsw::<f32, Scaled<DistL1>>::new(3, 1000, 16, 50, Scaled(DistL1 {}));
        h.insert((&[1f32, 2.], 7)); h.insert((&[3f32, 4.], 8));
        h.file_dump(&d, "x").unwrap();
        let io = HnswIo::new(&d, "x");
        if io.load_hnsw_with_dist::<f32, Scaled<DistL2>>(Scaled(DistL2 {})).is_ok() { res = "loaded with Scaled<DistL2>".to_string(); }
        let io = HnswIo::new(&d, "x");
        if io.load_hnsw_with_dist::<f32, Scaled<DistL1>>(Scaled(DistL1 {})).is_err() { res = "not loaded with Scaled<DistL1>".to_string(); }
    }
    let _ = std::fs::remove_dir_all(&d);
    if !res.is_empty() { bad(res); }
}
''')

seed2("p18-count-asked", "P18", "a search through the C interface for more neighbours than the index can give",
 "the C interface announces as many neighbours as were asked for and not as many as were found",
 [[LX, "            let nbgh_i = neighbours.len() as i64;\n            let neighbours_ptr = neighbours_api.as_ptr();", "            // the caller knows how many neighbours it asked for\n            let nbgh_i = knbn.min(ef_search) as i64;\n            let neighbours_ptr = neighbours_api.as_ptr();"]], r'''
use hnsw_rs::libext::*;
fn main() {
    let name = b"DistL2";
    unsafe {
        let h = init_hnsw_f32(8, 50, name.len(), name.as_ptr()) as *mut HnswApif32;
        for i in 0..3 { let v = [i as f32, 1.]; insert_f32(h, 2, v.as_ptr(), i); }
        let q = [0f32, 0.];
        let a = search_neighbours_f32(h, 2, q.as_ptr(), 5, 20);
        if (*a).nbgh > 3 { bad(format!("{} neighbours among 3 points", (*a).nbgh)); }
    }
}
''')

seed2("p21-single-point-layers", "P21", "two layers above the bottom with exactly one point each, linked to each other, none of them the entry point",
 "layers with one point are not cleared when the index is dropped, as a single point has no neighbour: but it is linked with points of other layers",
 [[H, """            layer.into_par_iter().for_each(|p| clear_neighborhoods(p));
            layer.clear();""", """            // a point alone in its layer has no neighbour
            if layer.len() > 1 {
                layer.into_par_iter().for_each(|p| clear_neighborhoods(p));
            }
            layer.clear();"""]], r'''
#[derive(Clone, Debug)]
struct V(#[allow(dead_code)] std::sync::Arc<()>, f32);
#[derive(Clone, Copy, Default)]
struct D;
impl Distance<V> for D { fn eval(&self, a: &[V], b: &[V]) -> f32 { (a[0].1 - b[0].1).abs() } }
fn main() {
    let mut r = R(88172645463325252);
    let a = std::sync::Arc::new(());
    for _ in 0..300 {
        let h = Hnsw::<V, D>::new(2, 100, 16, 50, D);
        for i in 0..12 { h.insert((&[V(a.clone(), r.f())], i)); }
        drop(h);
        if std::sync::Arc::strong_count(&a) != 1 { bad(format!("{} vectors not released", std::sync::Arc::strong_count(&a) - 1)); }
    }
}
''')

seed2("p22-dump-counts-layer", "P22", "an insertion waiting to store its point between two locks taken by a dump",
 "the dump, which holds the table of points, asks for the number of points of a layer through a function that locks the table again: with an insertion waiting for the table the dump never ends",
 [[IO, "            let nb_point = layers[i].len();\n            debug!(\"dumping layer", "            let nb_point = self.get_layer_nb_point(i);\n            debug!(\"dumping layer"]], r'''
fn main() {
    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let e = d.clone();
    std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_secs(100)); let _ = std::fs::remove_dir_all(&e); bad("no end after 100 s".to_string()); });
    for _ in 0..3 {
        let h = Hnsw::<f32, DistL2>::new(4, 1000, 16, 10, DistL2 {});
        h.insert((&[0.1f32, 0.2], 0));
        let h = &h;
        std::thread::scope(|s| {
            for t in 0..6usize { s.spawn(move || { let mut r = R(88172645463325252 + t as u64 * 77777);
                for i in 0..1000 { let v = r.v(2); h.insert((&v, t * 10000 + i)); } }); }
            for _ in 0..60 { h.file_dump(&d, "x").unwrap(); }
        });
    }
    let _ = std::fs::remove_dir_all(&d);
    println!("done"); std::process::exit(0)
}
''')

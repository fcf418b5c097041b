src2 = open("/verif/tools/seeds2.py").read().split('\nseed2("')[0]
exec(src2)

seed2("p03-searching-no-reverse", "P03", "an insertion while the index is in searching mode",
 "in searching mode an insertion does not give the new point to its neighbours: it cannot be reached",
 [[H, """        self.reverse_update_neighborhood_simple(Arc::clone(&new_point));
        //
        self.layer_indexed_points""", """        if !self.searching {
            // no write in the points that other threads are searching
            self.reverse_update_neighborhood_simple(Arc::clone(&new_point));
        }
        //
        self.layer_indexed_points"""]], r'''
fn main() {
    // 8 points and room for all: each neighbour of a point, in the layer of the point, has the point too
    let mut r = R(88172645463325252);
    for mode in [false, true] { for _ in 0..20 {
        let mut h = Hnsw::<f32, DistL1>::new(16, 1000, 16, 50, DistL1 {});
        h.set_searching_mode(mode);
        for i in 0..8 { h.insert((&r.v(2), i)); }
        let pi = h.get_point_indexation();
        let pts: Vec<_> = pi.into_iter().collect();
        for p in &pts { if h.search(p.get_v(), 8, 50).is_empty() { bad("nothing found".into()); } }
        let last = pts.iter().find(|p| p.get_origin_id() == 7).unwrap();
        let l = last.get_point_id().0 as usize;
        for n in &last.get_neighborhood_id()[l] {
            let q = pts.iter().find(|p| p.get_origin_id() == n.d_id).unwrap();
            if !q.get_neighborhood_id()[l].iter().any(|x| x.d_id == 7) { bad(format!("{} does not have the last point, mode {}", n.d_id, mode)); }
        }
    } }
}
''')

seed2("p03-keep-latched", "P03", "set_keeping_pruned called on an index which has points",
 "the option is ignored as soon as the index has points",
 [[H, """        self.keep_pruned = flag;
""", """        // as for the scale of levels, coherence between insertions
        if self.get_nb_point() > 0 && flag != self.keep_pruned {
            log::warn!("set_keeping_pruned must be called before insertions, ignored");
            return;
        }
        self.keep_pruned = flag;
"""]], r'''
fn main() {
    // with pruned candidates kept, a new point has as many neighbours as possible
    let mut r = R(88172645463325252);
    let mut full = 0;
    let nb = 100;
    for _ in 0..nb {
        let mut h = Hnsw::<f32, DistL1>::new(4, 1000, 16, 50, DistL1 {});
        for i in 0..40 { h.insert((&r.v(2), i)); }
        h.set_keeping_pruned(true);
        h.insert((&r.v(2), 1000));
        let p = h.get_point_indexation().into_iter().find(|p| p.get_origin_id() == 1000).unwrap();
        if p.get_neighborhood_id()[0].len() == 8 { full += 1; }
    }
    if full < nb / 2 { bad(format!("only {} full lists of {}", full, nb)); }
}
''')

seed2("p05-ef-layer-size", "P05", "a search width larger than the number of points stored in the bottom layer, in an index with points in upper layers",
 "the width of the search is limited to the number of points stored in the layer, which does not count the points of the layers above: a search for all points does not give all",
 [[H, """            trace!("search layer negative point id : {:?}", entry_point.p_id);
            return return_points;
        }
""", """            trace!("search layer negative point id : {:?}", entry_point.p_id);
            return return_points;
        }
        // no more points can be found than the layer has
        let ef = ef.min(self.layer_indexed_points.points_by_layer.read()[layer as usize].len());
"""]], r'''
fn main() {
    let mut r = R(88172645463325252);
    let mut tried = 0;
    for _ in 0..100000 {
        let h = Hnsw::<f32, DistL1>::new(16, 1000, 16, 50, DistL1 {});
        h.insert((&r.v(2), 0));
        if h.get_max_level_observed() == 0 { continue; }
        for i in 1..6 { h.insert((&r.v(2), i)); }
        if h.get_point_indexation().get_layer_nb_point(0) != 5 { continue; }
        // all points below the first one, linked with each other at the bottom
        for ef in [6, 50] {
            let n = h.search(&r.v(2), 6, ef).len();
            if n != 6 { bad(format!("{} points found of 6", n)); }
        }
        tried += 1;
        if tried == 5 { return; }
    }
}
''')

seed2("p08-stale-length", "P08", "two insertions which add to the same list, each between the reading of its length and the addition of the other, the list having one place left",
 "the decision to shrink a list is taken with its length before the lock is taken to add the point: the list keeps one neighbour too many",
 [[H, """                    let mut q_point_neighbours = q_point.neighbours.write();
                    let n_to_add""", """                    let nb_before = q_point.neighbours.read()[level as usize].len();
                    let mut q_point_neighbours = q_point.neighbours.write();
                    let n_to_add"""],
  [H, """                    let nbn_at_l = q_point_neighbours[l_n].len();
""", """                    let nbn_at_l = nb_before + 1;
"""]], r'''
fn main() {
    // many threads add to the lists of few points
    let m = 2;
    for round in 0..300u64 {
        let mut h = Hnsw::<f32, DistL1>::new(m, 1000, 16, 50, DistL1 {});
        h.modify_level_scale(0.2);
        let mut r = R(88172645463325252 + round);
        h.insert((&vec![0.5f32; 400], 0));
        let data: Vec<Vec<f32>> = (0..64).map(|_| (0..400).map(|_| r.f()).collect()).collect();
        std::thread::scope(|s| { for t in 0..8 { let (h, data) = (&h, &data);
            s.spawn(move || { for i in 0..8 { h.insert((&data[8 * t + i], 1 + 8 * t + i)); } }); } });
        for p in h.get_point_indexation() {
            for (l, n) in p.get_neighborhood_id().iter().enumerate() {
                let max = if l == 0 { 2 * m } else { m };
                if n.len() > max { bad(format!("round {} : {} neighbours in layer {}", round, n.len(), l)); }
            }
        }
    }
}
''')

seed2("p10-log-entry-lock", "P10", "messages of level debug enabled, and a point which becomes the entry point of a non empty index",
 "the arguments of a debug message take the lock on the entry point, which the insertion holds: it never ends when the messages are formatted",
 [[H, """                        arc_point.p_id.0, new_point.p_id.0
                    );
                    *entry""", """                        self.get_max_level_observed(), new_point.p_id.0
                    );
                    *entry"""]], r'''
struct L;
impl log::Log for L {
    fn enabled(&self, m: &log::Metadata) -> bool { m.level() <= log::Level::Debug }
    fn log(&self, r: &log::Record) { if self.enabled(r.metadata()) { std::hint::black_box(format!("{}", r.args())); } }
    fn flush(&self) {}
}
static LOG: L = L;
fn main() {
    log::set_logger(&LOG).unwrap();
    log::set_max_level(log::LevelFilter::Debug);
    let (s, e) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut r = R(88172645463325252);
        for _ in 0..20 {
            let h = Hnsw::<f32, DistL1>::new(2, 1000, 16, 10, DistL1 {});
            for i in 0..50 { h.insert((&r.v(2), i)); }
            h.search(&r.v(2), 2, 10);
        }
        s.send(()).unwrap();
    });
    if e.recv_timeout(std::time::Duration::from_secs(60)).is_err() { bad("insertions do not end".into()); }
}
''')

seed2("p12-empty-vector", "P12", "a dumped point whose vector has no component",
 "a record without data is taken for the end of the file: the dump cannot be reloaded",
 [[IO, """    trace!("serialized len to reload {:?}", serialized_len);
    let mut v_serialized = vec![0; serialized_len as usize];
""", """    trace!("serialized len to reload {:?}", serialized_len);
    if serialized_len == 0 && std::any::TypeId::of::<T>() != std::any::TypeId::of::<NoData>() {
        return Err(anyhow!("no data for point {}", origin_id));
    }
    let mut v_serialized = vec![0; serialized_len as usize];
"""]], r'''
fn main() {
    let h = Hnsw::<u16, DistLevenshtein>::new(4, 1000, 16, 10, DistLevenshtein {});
    for (i, w) in ["a", "bc", "", "def"].iter().enumerate() { let v: Vec<u16> = w.encode_utf16().collect(); h.insert((&v, i)); }
    let name = h.file_dump(std::path::Path::new("."), "d").unwrap();
    let mut io = HnswIo::new(std::path::Path::new("."), &name);
    let g: Hnsw<u16, DistLevenshtein> = match io.load_hnsw() { Ok(g) => g, Err(e) => bad(format!("{}", e)) };
    let q: Vec<u16> = vec![];
    if g.search(&q, 1, 10)[0].d_id != 2 { bad("the empty word is not found".into()); }
}
''')

seed2("p13-no-truncate", "P13", "a dump over an older dump of the same size, interrupted while the graph is written",
 "the graph file is not emptied before a dump but cut at its end: an interrupted dump leaves the beginning of the new graph and the end of the old one, which load as an index that never existed",
 [[IO, """        let graphfileres = OpenOptions::new()
            .create(true)
            .truncate(true)
""", """        // the blocks of an older dump are used again, flush cuts what remains after our data
        let graphfileres = OpenOptions::new()
            .create(true)
            .truncate(false)
"""], [IO, """        self.graph_out.flush()?;
        Ok(())
""", """        self.graph_out.flush()?;
        let len = std::io::Seek::stream_position(&mut self.graph_out)?;
        self.graph_out.get_mut().set_len(len)?;
        Ok(())
"""]], r'''
extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
}
fn limit(n: u64) { unsafe { if setrlimit(1, &[n, u64::MAX]) != 0 { std::process::exit(3); } } }
fn build(f: f32) -> Hnsw<'static, f32, DistL1> {
    loop {
        let h = Hnsw::<f32, DistL1>::new(16, 1000, 16, 50, DistL1 {});
        for i in 0..30 { h.insert((&[f * i as f32], i)); }
        if h.get_max_level_observed() == 0 { return h; }
    }
}
fn main() {
    unsafe { signal(25, 1); } // SIGXFSZ ignored: writes fail
    let (a, b) = (build(1.), build(2.));
    let d = std::path::Path::new(".");
    a.file_dump(d, "a").unwrap();
    let size = std::fs::metadata("a.hnsw.graph").unwrap().len();
    let mut interrupted = 0;
    for l in (0..size).step_by(97) {
        std::fs::copy("a.hnsw.graph", "x.hnsw.graph").unwrap();
        std::fs::copy("a.hnsw.data", "x.hnsw.data").unwrap();
        std::fs::remove_file("x.hnsw.data").unwrap(); // so that the same name is taken
        limit(l);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.file_dump(d, "x")));
        limit(u64::MAX);
        if matches!(res, Ok(Ok(_))) { continue; }
        interrupted += 1;
        let mut io = HnswIo::new(d, "x");
        let r = io.load_hnsw::<f32, DistL1>();
        if r.is_ok() { bad(format!("dump interrupted at {} loads", l)); }
    }
    if interrupted == 0 { std::process::exit(3); }
}
''')

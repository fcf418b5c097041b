import json, subprocess, os
S = {}
def seed(id, prop, needs, breaks, edits, main):
    d = "/verif/seeded/" + id
    subprocess.run(["python3", "/verif/tools/mkpatch.py", d], input=json.dumps(edits), text=True, check=True)
    open(d + "/main.rs", "w").write(main)
    subprocess.run(["cp", "/verif/tools/demo.sh", d + "/demo.sh"])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(id)
H = "src/hnsw.rs"

seed("p10-lookup-recursive-lock", "P10", "a lookup of a point's data while another thread inserts (a writer queued between two read locks of the same thread)",
 "get_point_data takes the table lock once and calls a helper which takes it again: with a waiting writer both threads wait for ever",
 [[H, """        let l = p_id.0 as usize;
        if p_id.0 <= self.get_max_level_observed() && p < self.get_layer_nb_point(l) {
            Some(self.points_by_layer.read()[l][p].get_v().to_vec())
        } else {""", """        let l = p_id.0 as usize;
        let points_by_layer = self.points_by_layer.read();
        if p_id.0 <= self.get_max_level_observed() && p < self.get_layer_nb_point(l) {
            Some(points_by_layer[l][p].get_v().to_vec())
        } else {"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
use std::sync::atomic::*;
use std::sync::Arc;
fn main() {
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(40));
        if !d2.load(Ordering::SeqCst) {
            println!("deadlock");
            std::process::exit(1);
        }
    });
    let h = Hnsw::<f32, DistL2>::new(8, 1000, 16, 20, DistL2 {});
    h.insert((&[0.5f32, 0.5], 0));
    std::thread::scope(|s| {
        for t in 0..2usize {
            let h = &h;
            s.spawn(move || {
                for i in 0..3000usize {
                    let x = ((i * 7919 + t * 31) % 1000) as f32 / 1000.;
                    h.insert((&[x, 1. - x * x], 1 + t * 10000 + i));
                }
            });
        }
        for _ in 0..4 {
            let h = &h;
            s.spawn(move || {
                for i in 0..100000 {
                    let _ = h.get_point_indexation().get_point_data(&PointId(0, i % 50));
                }
            });
        }
    });
    done.store(true, Ordering::SeqCst);
}
''')

seed("p08-rank-race", "P08", "two threads storing a point of the same level at the same time",
 "the rank of a new point is read before the write lock on the table is taken: two points can be given the same position",
 [[H, """        let new_point;
        {
            // open a write lock on points_by_layer
            let mut points_by_layer_ref = self.points_by_layer.write();
            let mut p_id = PointId(level as u8, -1);
            p_id.1 = points_by_layer_ref[p_id.0 as usize].len() as i32;
            // make a Point and then an Arc<Point>
            let point = Point::new(data.to_vec(), origin_id, p_id);
            new_point = Arc::new(point);
""", """        let new_point;
        {
            let p_id = PointId(level as u8, self.get_layer_nb_point(level) as i32);
            // make a Point and then an Arc<Point>
            let point = Point::new(data.to_vec(), origin_id, p_id);
            new_point = Arc::new(point);
            // open a write lock on points_by_layer
            let mut points_by_layer_ref = self.points_by_layer.write();
"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
fn main() {
    for round in 0..20 {
        let h = Hnsw::<f32, DistL2>::new(8, 1000, 16, 20, DistL2 {});
        std::thread::scope(|s| {
            for t in 0..8usize {
                let h = &h;
                s.spawn(move || {
                    for i in 0..400usize {
                        let x = ((i * 7919 + t * 31) % 1000) as f32 / 1000.;
                        h.insert((&vec![x; 300], t * 10000 + i));
                    }
                });
            }
        });
        for l in 0..16 {
            for (i, p) in h.get_point_indexation().get_layer_iterator(l).enumerate() {
                if p.get_point_id() != PointId(l as u8, i as i32) {
                    println!("round {} layer {} rank {} point says {:?}", round, l, i, p.get_point_id());
                    std::process::exit(1);
                }
            }
        }
    }
}
''')

seed("p09-entry-stale-check", "P09", "two threads inserting points above the current top level at the same time",
 "the level test of the entry point is made under a read lock and not made again under the write lock: a lower point can replace a higher one",
 [[H, """        let mut entry_point_ref = self.entry_point.write();
        match entry_point_ref.as_ref() {
            Some(arc_point) => {
                if new_point.p_id.0 > arc_point.p_id.0 {
""", """        let replace = match self.entry_point.read().as_ref() {
            Some(arc_point) => new_point.p_id.0 > arc_point.p_id.0,
            None => true,
        };
        if !replace {
            return;
        }
        let mut entry_point_ref = self.entry_point.write();
        match entry_point_ref.as_ref() {
            Some(arc_point) => {
                if replace {
"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
// a slow log makes the interleaving likely
struct Slow;
impl log::Log for Slow {
    fn enabled(&self, m: &log::Metadata) -> bool { m.level() <= log::Level::Debug }
    fn log(&self, _r: &log::Record) {}
    fn flush(&self) {}
}
static SLOW: Slow = Slow;
fn main() {
    let _ = log::set_logger(&SLOW);
    let start = std::time::Instant::now();
    let mut rounds = 0;
    while start.elapsed().as_secs() < 60 {
        rounds += 1;
        let h = Hnsw::<f32, DistL2>::new(2, 64, 16, 4, DistL2 {});
        h.insert((&[0.5f32, 0.1], 0));
        let b = std::sync::Barrier::new(8);
        std::thread::scope(|s| {
            for t in 0..8usize {
                let (h, b) = (&h, &b);
                s.spawn(move || {
                    b.wait();
                    h.insert((&[t as f32, 1.], t + 1));
                });
            }
        });
        let top = (0..16).filter(|l| h.get_point_indexation().get_layer_nb_point(*l) > 0).max().unwrap();
        if top != h.get_max_level_observed() as usize {
            println!("round {}: top level {} entry {}", rounds, top, h.get_max_level_observed());
            std::process::exit(1);
        }
    }
    println!("{} rounds", rounds);
}
''')

seed("p11-search-try-entry", "P11", "a search at the very moment another thread holds the lock of the entry point",
 "search gives up (empty answer) when the lock of the entry point is held by an inserting thread",
 [[H, """        let entry_point;
        {
            // a lock on an option an a Arc<Point>
            let entry_point_opt_ref = self.layer_indexed_points.entry_point.read();
            if entry_point_opt_ref.is_none() {
""", """        let entry_point;
        {
            // a lock on an option an a Arc<Point>. Do not make searches wait for insertions
            let Some(entry_point_opt_ref) = self.layer_indexed_points.entry_point.try_read() else {
                return Vec::<Neighbour>::new();
            };
            if entry_point_opt_ref.is_none() {
"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
use std::sync::atomic::*;
fn main() {
    let h = Hnsw::<f32, DistL2>::new(4, 1000, 16, 4, DistL2 {});
    h.insert((&[0.5f32, 0.5], 0));
    let stop = AtomicBool::new(false);
    let bad = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for t in 0..4usize {
            let (h, stop) = (&h, &stop);
            s.spawn(move || {
                for i in 0..4000usize {
                    let x = ((i * 7919 + t * 31) % 1000) as f32 / 1000.;
                    h.insert((&[x, 1. - x * x], 1 + t * 10000 + i));
                }
                stop.store(true, Ordering::SeqCst);
            });
        }
        for _ in 0..4 {
            let (h, stop, bad) = (&h, &stop, &bad);
            s.spawn(move || {
                while !stop.load(Ordering::SeqCst) {
                    if h.search(&[0.1f32, 0.2], 1, 1).is_empty() {
                        bad.fetch_add(1, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    println!("empty answers {}", bad.load(Ordering::SeqCst));
    std::process::exit((bad.load(Ordering::SeqCst) > 0) as i32);
}
''')

seed("p07-answer-key-truncated", "P07", "more than 256 queries in one parallel search",
 "the answers are put back in order by a truncated request number: beyond 256 queries answers are exchanged",
 [[H, """        // get a map from request id to rank
        let mut req_hash = HashMap::<usize, usize>::new();
        for (i, elt) in req_res.iter().enumerate() {
            // the response of request req_res[i].0 is at rank i
            req_hash.insert(elt.0, i);
        }
        for i in 0..datas.len() {
            let answer_i = req_hash.get_key_value(&i).unwrap().1;
            answers.push((req_res[*answer_i].1).clone());
        }
        answers
""", """        // counting sort on the low byte of the request id, requests arriving nearly in order
        let mut req_res = req_res;
        req_res.sort_by_key(|r| (r.0 >> 8, r.0 as u8));
        if nb_request > 256 {
            req_res.sort_by_key(|r| r.0 as u8);
        }
        for r in req_res {
            answers.push(r.1);
        }
        answers
"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
fn main() {
    let h = Hnsw::<f32, DistL2>::new(8, 1000, 16, 20, DistL2 {});
    let v: Vec<Vec<f32>> = (0..300).map(|i| vec![i as f32, 1.]).collect();
    for (i, x) in v.iter().enumerate() {
        h.insert((x, i));
    }
    for n in [0, 1, 2, 5, 100, 255, 256, 257, 300] {
        let a = h.parallel_search(&v[0..n], 3, 20);
        if a.len() != n { println!("{} answers for {}", a.len(), n); std::process::exit(1); }
        for i in 0..n {
            let b = h.search(&v[i], 3, 20);
            let x: Vec<usize> = a[i].iter().map(|n| n.d_id).collect();
            let y: Vec<usize> = b.iter().map(|n| n.d_id).collect();
            if x != y { println!("{} queries: {} {:?} {:?}", n, i, x, y); std::process::exit(1); }
        }
    }
}
''')

seed("p06-filter-start-dropped", "P06", "a filter accepting the point where the descent ends, a width where that point is the only one kept when a second accepted point is met",
 "the start point of a filtered search is forgotten as soon as another point is accepted, even if the filter accepts the start point",
 [[H, """                                if return_points.len() == 1 {
                                    let only_id = return_points.peek().unwrap().point_ref.origin_id;
                                    if !filter.as_ref().unwrap().hnsw_filter(&only_id) {
                                        return_points.clear()
                                    }
                                }
""", """                                if return_points.len() == 1 {
                                    let only_id = return_points.peek().unwrap().point_ref.origin_id;
                                    if only_id == entry_point.origin_id {
                                        return_points.clear()
                                    }
                                }
"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
fn main() {
    for _ in 0..50 {
        let h = Hnsw::<f32, DistL2>::new(4, 1000, 16, 50, DistL2 {});
        let v: Vec<Vec<f32>> = (0..30).map(|i| vec![(i * 17 % 31) as f32, (i * 11 % 13) as f32]).collect();
        for (i, x) in v.iter().enumerate() { h.insert((x, i)); }
        let f = |_: &usize| true;
        for q in &v {
            let a: Vec<usize> = h.search(q, 5, 30).iter().map(|n| n.d_id).collect();
            let b: Vec<usize> = h.search_filter(q, 5, 30, Some(&f)).iter().map(|n| n.d_id).collect();
            if a[0] != b[0] { println!("{:?} {:?}", a, b); std::process::exit(1); }
        }
    }
}
''')

seed("p03-shrink-before-sort", "P03", "a point whose list is full getting a link from a new point that is not its farthest neighbour... then from a nearer one",
 "a list that overflows loses the link just added or an arbitrary one, not its farthest member",
 [[H, """                        // sort and shring if necessary
                        q_point_neighbours[l_n].sort_unstable();
                        if shrink {
                            q_point_neighbours[l_n].pop();
                        }
""", """                        // shrink if necessary, before sorting : one element less to sort
                        if shrink {
                            q_point_neighbours[l_n].swap_remove(threshold_shrinking - 1);
                        }
                        q_point_neighbours[l_n].sort_unstable();
"""]],
 r'''
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::prelude::*;
// a full list keeps its nearest members: a farther point does not displace a nearer one
fn main() {
    let m = 2usize;
    for _ in 0..200 {
        let mut h = Hnsw::<f32, DistL1>::new(m, 100, 1, 50, DistL1 {});
        h.set_keeping_pruned(true);
        // point 0 at 0, then points farther and farther, all on one layer
        let xs = [0f32, 1., 2.1, 3.3, 4.6, -10.];
        let mut before: Vec<(usize, f32)> = vec![];
        for (i, x) in xs.iter().enumerate() {
            h.insert((&[*x], i));
            let p = h.get_point_indexation().get_layer_iterator(0).next().unwrap();
            let now: Vec<(usize, f32)> = p.get_neighborhood_id()[0].iter().map(|n| (n.d_id, n.distance)).collect();
            if before.len() == 2 * m {
                for b in &before {
                    if !now.contains(b) && now.iter().any(|n| n.1 > b.1) { println!("{:?} -> {:?}", before, now); std::process::exit(1); }
                }
            }
            before = now;
        }
    }
}
''')

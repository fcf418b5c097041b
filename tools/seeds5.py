src2 = open("/verif/tools/seeds2.py").read().split('\nseed2("')[0]
exec(src2)

SLOW = r'''
#[derive(Clone, Copy, Default)]
struct Slow;
impl Distance<f32> for Slow { fn eval(&self, a: &[f32], b: &[f32]) -> f32 { DistL1 {}.eval(a, b) } }
'''

seed2("p23-lists-apart", "P23", "an insertion that changes two lists of a point while the point is extracted",
 "the lists of a point are copied one by one, each under its own lock: an extraction gives lists the point never had together",
 [[H, """        let ref_neighbours = self.neighbours.read();
        let nb_layer = ref_neighbours.len();
        let mut neighborhood = Vec::<Vec<Neighbour>>::with_capacity(nb_layer);
        for i in 0..nb_layer {
            let mut neighbours = Vec::<Neighbour>::new();
""", """        let nb_layer = self.neighbours.read().len();
        let mut neighborhood = vec![Vec::<Neighbour>::new(); nb_layer];
        // from the top, and the lock is not kept longer than a list needs
        for i in (0..nb_layer).rev() {
            let ref_neighbours = self.neighbours.read();
            let mut neighbours = Vec::<Neighbour>::new();
"""],
  [H, """                }
            }
            neighborhood.push(neighbours);
        }
        neighborhood
""", """                }
            }
            neighborhood[i] = neighbours;
        }
        neighborhood
"""]], r'''
use std::sync::atomic::*;
use std::collections::HashSet;
type L = Vec<Vec<usize>>;
fn lists(p: &Point<f32>) -> L { p.get_neighborhood_id().iter().map(|l| l.iter().map(|n| n.d_id).collect()).collect() }
fn main() {
    // one thread inserts: an insertion changes one list of another point, so that the lists a point had are those between insertions
    for round in 0..60u64 {
        let h = Hnsw::<f32, DistL1>::new(6, 1000, 16, 40, DistL1 {});
        let mut r = R(88172645463325252 + round);
        for i in 0..10 { h.insert((&r.v(1), i)); }
        let stop = AtomicBool::new(false);
        let p = h.get_point_indexation().into_iter().last().unwrap();
        let mut had: HashSet<L> = HashSet::new();
        had.insert(lists(&p));
        std::thread::scope(|s| {
            let (stop, p) = (&stop, &p);
            let rd: Vec<_> = (0..3).map(|_| s.spawn(move || {
                let mut seen: HashSet<L> = HashSet::new();
                while !stop.load(Ordering::Relaxed) { seen.insert(lists(p)); }
                seen
            })).collect();
            let mut r = R(777 + round);
            for i in 10..200 { h.insert((&r.v(1), i)); had.insert(lists(p)); }
            stop.store(true, Ordering::Relaxed);
            for t in rd { for l in t.join().unwrap() { if !had.contains(&l) { bad(format!("lists of {} never there together: {:?}", p.get_origin_id(), l)); } } }
        });
    }
}
''')

seed2("p23-lookup-try", "P23", "an insertion that holds the table while another thread looks up a point",
 "the lookup of a point by its position gives nothing when a thread is adding a point to the table",
 [[H, "            Some(self.points_by_layer.read()[l][p].get_v().to_vec())\n", "            // not to wait for insertions\n            self.points_by_layer.try_read().map(|layers| layers[l][p].get_v().to_vec())\n"]], r'''
use std::sync::atomic::*;
fn main() {
    let h = Hnsw::<f32, DistL1>::new(4, 1000, 16, 4, DistL1 {});
    let mut r = R(88172645463325252);
    for i in 0..3 { h.insert((&r.v(40000), i)); }
    let p0 = h.get_point_indexation().into_iter().next().unwrap().get_point_id();
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        let (h, stop) = (&h, &stop);
        for t in 0..3usize {
            s.spawn(move || { let mut r = R(99 + t as u64); for i in 0..200 { h.insert((&r.v(40000), 10 + 3 * i + t)); } stop.store(true, Ordering::Relaxed); });
        }
        let mut n = 0;
        while !stop.load(Ordering::Relaxed) {
            n += 1;
            if h.get_point_indexation().get_point_data(&p0).is_none() { bad(format!("lookup {} gives nothing", n)); }
        }
    });
}
''')

seed2("p23-layer0-by-difference", "P23", "a point inserted in an upper layer, between the moment it is in the table and the moment it is counted",
 "the number of points of the bottom layer is computed from the number of all points and those of the upper layers, which do not change at the same time",
 [[H, """        let nb_layer = self.points_by_layer.read().len();
        if layer < nb_layer {
            self""", """        let nb_layer = self.points_by_layer.read().len();
        if layer == 0 {
            // most points are there: all that are not above
            let above: usize = self.points_by_layer.read()[1..].iter().map(|l| l.len()).sum();
            self.get_nb_point().saturating_sub(above)
        } else if layer < nb_layer {
            self"""]], r'''
use std::sync::atomic::*;
fn main() {
    let bad_seen = AtomicUsize::new(0);
    for round in 0..200u64 {
        let h = Hnsw::<f32, DistL1>::new(2, 1000, 16, 4, DistL1 {});
        let mut r = R(88172645463325252 + round);
        for i in 0..50 { h.insert((&r.v(2), i)); }
        let stop = AtomicBool::new(false);
        std::thread::scope(|s| {
            let (h, stop, bad_seen) = (&h, &stop, &bad_seen);
            for _ in 0..3 { s.spawn(move || {
                let mut last = 0;
                while !stop.load(Ordering::Relaxed) {
                    let n = h.get_point_indexation().get_layer_nb_point(0);
                    if n < last { bad_seen.fetch_add(1, Ordering::Relaxed); }
                    last = n;
                }
            }); }
            let t: Vec<_> = (0..4usize).map(|t| s.spawn(move || { let mut r = R(5 + t as u64); for i in 0..100 { h.insert((&r.v(2), 100 + 4 * i + t)); } })).collect();
            for x in t { x.join().unwrap(); }
            stop.store(true, Ordering::Relaxed);
        });
    }
    let b = bad_seen.load(Ordering::Relaxed);
    if b > 0 { bad(format!("the number of points of the bottom layer decreased {} times", b)); }
}
''')

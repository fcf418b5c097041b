//! Levels of inserted points (`levels`) and what remains of an index that is dropped (`drop`).
use crate::io::*;
use crate::seq::{insert_one, plan_level};
use crate::util::*;
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::hnsw::*;
use hnsw_rs::hnswio::*;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Weak};

type H = Hnsw<'static, u8, DistL1>;

fn scale(h: &H, what: &str) -> Value {
    let s = h.get_point_indexation().get_level_scale();
    let e5 = if s.is_finite() && s < 20000. { (s * 1e5).round() as i64 } else { -1 };
    json!({"op": "scale", "what": what, "e5": e5, "bits": format!("s{:016x}", s.to_bits())})
}

fn level_of(p: &Point<u8>) -> usize {
    p.get_point_id().0 as usize
}

/// levels of the points with ids from `from`
fn hist(h: &H, from: usize) -> (usize, Vec<u64>) {
    let mut v = vec![0; 18];
    let mut n = 0;
    for p in h.get_point_indexation() {
        if p.get_origin_id() >= from {
            v[level_of(&p).min(17)] += 1;
            n += 1;
        }
    }
    (n, v)
}

fn fill(h: &H, from: usize, n: usize, how: usize, r: &mut StdRng) {
    let data: Vec<Vec<u8>> = (0..n).map(|_| vec![r.gen(), r.gen()]).collect();
    if how == 1 {
        let d: Vec<(&Vec<u8>, usize)> = data.iter().enumerate().map(|(i, v)| (v, from + i)).collect();
        h.parallel_insert(&d);
    } else {
        for (i, v) in data.iter().enumerate() {
            insert_one(h, v, from + i, how);
        }
    }
}

const FACTORS: [(i64, i64); 14] = [(1, 1), (1, 2), (1, 4), (1, 5), (1, 3), (2, 3), (3, 4), (1, 10), (0, 1), (3, 2), (-1, 1), (1, 2), (4, 5), (7, 1)];

/// steps: modifications of the scale
fn modify(h: &mut H, r: &mut StdRng, steps: &mut Vec<Value>) {
    let (a, b) = *FACTORS.choose(r).unwrap();
    h.modify_level_scale(a as f64 / b as f64);
    steps.push(json!({"op": "mod", "num": a, "den": b}));
    steps.push(scale(h, "modified"));
}

pub fn main_levels(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 8) as usize;
    let npts = a.u("pts", 6000) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    for t in 0..n {
        let mut r = rng(seed, 21000 + t as u64);
        let r = &mut r;
        let m = *[1usize, 2, 2, 2, 3, 3, 4, 4, 5, 8, 10, 12, 16, 24, 32, 48, 64, 100, 128, 200, 255, 256].choose(r).unwrap();
        let maxl = *[16usize, 16, 16, 16, 1, 2, 3, 4, 6, 15, 17, 40].choose(r).unwrap();
        let mk = || H::new(m, 10, maxl, 1, DistL1 {});
        let mut steps = vec![json!({"op": "new", "M": m, "maxl": maxl})];
        let mut h = mk();
        steps.push(json!({"op": "maxl", "maxl": h.get_max_level()}));
        steps.push(scale(&h, "new"));
        if r.gen_bool(0.35) {
            // many indexes of a few points
            let nm = *[0, 0, 1, 2].choose(r).unwrap();
            let fs: Vec<(i64, i64)> = (0..nm).map(|_| *FACTORS.choose(r).unwrap()).collect();
            for f in &fs {
                steps.push(json!({"op": "mod", "num": f.0, "den": f.1}));
            }
            let np = 4;
            let cnt = npts / 2;
            let mut hs = vec![vec![0u64; 18]; np];
            for j in 0..cnt {
                let mut h = mk();
                for f in &fs {
                    h.modify_level_scale(f.0 as f64 / f.1 as f64);
                }
                fill(&h, 0, np, if j % 16 == 0 { 1 } else { 0 }, r);
                for p in h.get_point_indexation() {
                    hs[p.get_origin_id()][level_of(&p).min(17)] += 1;
                }
            }
            for (k, v) in hs.iter().enumerate() {
                steps.push(json!({"op": "draw", "what": format!("point {} of an index", k + 1), "n": cnt, "hist": v}));
            }
        } else {
            let mut from = 0;
            if r.gen_bool(0.5) {
                modify(&mut h, r, &mut steps);
            }
            for round in 0..r.gen_range(1..4) {
                if round > 0 && r.gen_bool(0.4) {
                    modify(&mut h, r, &mut steps);
                }
                let how = r.gen_range(0..3);
                fill(&h, from, npts, how, r);
                let (k, v) = hist(&h, from);
                let what = if how == 1 { "inserted in parallel" } else { "inserted one by one" };
                steps.push(json!({"op": "draw", "what": what, "n": npts, "hist": v, "got": k}));
                from += npts;
                steps.push(scale(&h, "after insertions"));
                if maxl >= 16 && m <= 255 && r.gen_bool(0.6) {
                    let sc = Scratch::new("levels");
                    let b = h.file_dump(sc.path(), "lev").expect("dump");
                    steps.push(scale(&h, "dumped"));
                    // (leaked: the index may refer to it)
                    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(sc.path(), &b)));
                    if r.gen_bool(0.4) {
                        io.set_options(ReloadOptions::new(true));
                    }
                    match guard(|| io.load_hnsw::<u8, DistL1>()) {
                        Ok(Ok(x)) => {
                            h = x;
                            steps.push(scale(&h, "reloaded"));
                            steps.push(json!({"op": "maxl", "maxl": h.get_max_level()}));
                        }
                        _ => steps.push(json!({"op": "fail", "msg": "the dump is not loaded"})),
                    }
                }
            }
        }
        out.line(&json!({"id": format!("levels-{}", t), "steps": steps}));
    }
    out.flush();
    println!("sessions {}", out.n);
}

// ----------------------------------------------------------------------------------------------------------- drop

static LIVE: AtomicI64 = AtomicI64::new(0);

/// an element that is counted
#[derive(Debug)]
struct Cnt(u32);
impl Cnt {
    fn new(x: u32) -> Cnt {
        LIVE.fetch_add(1, Ordering::SeqCst);
        Cnt(x)
    }
}
impl Clone for Cnt {
    fn clone(&self) -> Cnt {
        Cnt::new(self.0)
    }
}
impl Drop for Cnt {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, Ordering::SeqCst);
    }
}
#[derive(Clone, Default)]
struct DCnt;
impl Distance<Cnt> for DCnt {
    fn eval(&self, a: &[Cnt], b: &[Cnt]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.0 as f32 - y.0 as f32).abs()).sum()
    }
}

trait Elt: Clone + Send + Sync + 'static {
    fn val(x: u32) -> Self;
    fn num(&self) -> u32;
    const COUNTED: bool;
}
impl Elt for Cnt {
    fn val(x: u32) -> Cnt {
        Cnt::new(x)
    }
    fn num(&self) -> u32 {
        self.0
    }
    const COUNTED: bool = true;
}
impl Elt for f32 {
    fn val(x: u32) -> f32 {
        x as f32
    }
    fn num(&self) -> u32 {
        *self as u32
    }
    const COUNTED: bool = false;
}

struct Watch<T: Elt>(Vec<(String, usize, Weak<Point<'static, T>>)>);
impl<T: Elt> Watch<T> {
    fn new() -> Self {
        Watch(vec![])
    }
    fn add<D: Distance<T> + Send + Sync>(&mut self, x: usize, h: &Hnsw<'static, T, D>) {
        self.0.retain(|w| w.1 != x);
        for p in h.get_point_indexation() {
            self.0.push((idtok(p.get_origin_id()), x, Arc::downgrade(&p)));
        }
    }
    /// <<index, id>> of the points that are still there
    fn live(&self) -> Value {
        json!(self.0.iter().filter(|w| w.2.strong_count() > 0).map(|w| json!([w.1, w.0])).collect::<Vec<_>>())
    }
}

/// one session: indexes filled in several ways, points held by the user, drops. load: dump and reload of an index in some way
#[allow(clippy::too_many_arguments, clippy::type_complexity)]
fn drop_session<T: Elt, D: Distance<T> + Send + Sync + 'static>(
    t: usize,
    kind: &str,
    maxn: usize,
    mkd: &dyn Fn() -> D,
    load: &dyn Fn(&Hnsw<'static, T, D>, &mut StdRng) -> Option<(String, Hnsw<'static, T, D>)>,
    r: &mut StdRng,
    fo: &mut Forcer,
    out: &mut Out,
) {
    let base = LIVE.load(Ordering::SeqCst);
    let mut steps: Vec<Value> = vec![];
    let mut hs: Vec<Option<Hnsw<'static, T, D>>> = vec![];
    let mut held: Vec<(usize, Arc<Point<'static, T>>, Vec<u32>)> = vec![];
    let mut w = Watch::new();
    let mut next = 0usize;
    let dim = r.gen_range(1..4);
    for _ in 0..r.gen_range(3..14) {
        let open: Vec<usize> = (0..hs.len()).filter(|k| hs[*k].is_some()).collect();
        let mut s = match r.gen_range(0..10) {
            0 | 1 => {
                let m = *[1usize, 2, 3, 8, 16].choose(r).unwrap();
                let maxl = *[16usize, 16, 16, 2, 4].choose(r).unwrap();
                let efc = r.gen_range(1..20);
                let mut h = Hnsw::<T, D>::new(m, 10, maxl, efc, mkd());
                h.set_extend_candidates(r.gen());
                h.set_keeping_pruned(r.gen());
                let n = if r.gen_bool(0.1) { 0 } else { r.gen_range(1..=maxn) };
                let rows: Vec<Vec<T>> = (0..n).map(|_| (0..dim).map(|_| T::val(r.gen_range(0..1000))).collect()).collect();
                let how = ["one by one", "forced levels", "in parallel", "by threads"].choose(r).unwrap();
                match *how {
                    "in parallel" => {
                        let d: Vec<(&Vec<T>, usize)> = rows.iter().enumerate().map(|(i, v)| (v, next + i)).collect();
                        h.parallel_insert(&d);
                    }
                    "by threads" => {
                        let hr = &h;
                        let rr = &rows;
                        std::thread::scope(|sc| {
                            for k in 0..3 {
                                sc.spawn(move || {
                                    for (i, v) in rr.iter().enumerate().filter(|x| x.0 % 3 == k) {
                                        hr.insert((v, next + i));
                                        hr.search(v, 3, 5);
                                    }
                                });
                            }
                        });
                    }
                    x => {
                        for (i, v) in rows.iter().enumerate() {
                            if x == "forced levels" {
                                let style = r.gen_range(1..4);
                                let s = plan_level(style, maxl, m, r).and_then(|l| fo.seed(m, maxl, 1., l, r));
                                parking_lot::sched::reseed_next(s);
                            }
                            insert_one(&h, v, next + i, 0);
                            parking_lot::sched::reseed_next(None);
                        }
                    }
                }
                next += n;
                hs.push(Some(h));
                let x = hs.len() - 1;
                w.add(x, hs[x].as_ref().unwrap());
                json!({"op": "fill", "x": x, "how": how})
            }
            2 if !open.is_empty() => {
                // more points in an index
                let x = *open.choose(r).unwrap();
                let h = hs[x].as_ref().unwrap();
                let n = r.gen_range(1..5);
                for i in 0..n {
                    let v: Vec<T> = (0..dim).map(|_| T::val(r.gen_range(0..1000))).collect();
                    h.insert((&v, next + i));
                }
                next += n;
                w.add(x, h);
                json!({"op": "fill", "x": x, "how": "later"})
            }
            3 if !open.is_empty() => {
                let x = *open.choose(r).unwrap();
                let rl = load(hs[x].as_ref().unwrap(), r);
                match rl {
                    Some((what, h)) => {
                        hs.push(Some(h));
                        let x = hs.len() - 1;
                        w.add(x, hs[x].as_ref().unwrap());
                        json!({"op": "fill", "x": x, "how": what})
                    }
                    None => continue,
                }
            }
            4 | 5 if !open.is_empty() => {
                // the user keeps a point
                let x = *open.choose(r).unwrap();
                let h = hs[x].as_ref().unwrap();
                let all: Vec<_> = h.get_point_indexation().into_iter().collect();
                // the top most often
                let top: Vec<_> = all.iter().filter(|p| p.get_point_id().0 > 0).collect();
                let p = if !top.is_empty() && r.gen() { (*top.choose(r).unwrap()).clone() } else if let Some(p) = all.choose(r) { p.clone() } else { continue };
                let d: Vec<u32> = p.get_v().iter().map(|e| e.num()).collect();
                let s = json!({"op": "hold", "x": x, "id": idtok(p.get_origin_id())});
                held.push((x, p, d));
                s
            }
            6 if !held.is_empty() => {
                let k = r.gen_range(0..held.len());
                let (x, p, _) = held.swap_remove(k);
                let s = json!({"op": "release", "x": x, "id": idtok(p.get_origin_id())});
                drop(p);
                s
            }
            7 if !open.is_empty() => {
                // searches, as they return copies, keep nothing
                let x = *open.choose(r).unwrap();
                let q: Vec<T> = (0..dim).map(|_| T::val(r.gen_range(0..1000))).collect();
                let h = hs[x].as_ref().unwrap();
                let a = h.search(&q, 5, 10);
                let b = h.parallel_search(&[q.clone(), q.clone()], 3, 4);
                drop((a, b));
                json!({"op": "search", "x": x})
            }
            8 | 9 if !open.is_empty() => {
                let x = *open.choose(r).unwrap();
                let h = hs[x].take().unwrap();
                let how = ["here", "other thread", "unwinding"].choose(r).unwrap();
                match *how {
                    "here" => drop(h),
                    "other thread" => std::thread::scope(|s| {
                        s.spawn(move || drop(h));
                    }),
                    _ => {
                        let _ = guard(move || {
                            let _h = h;
                            panic!("as a user function could")
                        });
                    }
                }
                json!({"op": "drop", "x": x, "how": how})
            }
            _ => continue,
        };
        observe::<T>(&mut s, &w, &held, base);
        steps.push(s);
    }
    for x in 0..hs.len() {
        if let Some(h) = hs[x].take() {
            drop(h);
            let mut s = json!({"op": "drop", "x": x, "how": "end"});
            observe::<T>(&mut s, &w, &held, base);
            steps.push(s);
        }
    }
    while let Some((x, p, _)) = held.pop() {
        let mut s = json!({"op": "release", "x": x, "id": idtok(p.get_origin_id())});
        drop(p);
        observe::<T>(&mut s, &w, &held, base);
        steps.push(s);
    }
    out.line(&json!({"id": format!("drop-{}-{}", t, kind), "dim": dim, "counted": T::COUNTED, "steps": steps}));
}

fn observe<T: Elt>(s: &mut Value, w: &Watch<T>, held: &[(usize, Arc<Point<'static, T>>, Vec<u32>)], base: i64) {
    s["live"] = w.live();
    s["elems"] = json!(if T::COUNTED { LIVE.load(Ordering::SeqCst) - base } else { 0 });
    // the points held are read: data, ids, neighbours
    let bad = held.iter().filter(|(_, p, d)| {
        p.get_neighborhood_id();
        p.get_v().iter().map(|e| e.num()).collect::<Vec<_>>() != *d
    });
    s["badheld"] = json!(bad.count());
}

/// a large index: filled, dropped while a few of its points are held, then these released. Only numbers are recorded
#[allow(clippy::type_complexity)]
fn bulk_session<T: Elt, D: Distance<T> + Send + Sync + 'static>(
    t: usize,
    kind: &str,
    n: usize,
    mkd: &dyn Fn() -> D,
    load: &dyn Fn(&Hnsw<'static, T, D>, &mut StdRng) -> Option<(String, Hnsw<'static, T, D>)>,
    r: &mut StdRng,
    out: &mut Out,
) {
    let base = LIVE.load(Ordering::SeqCst);
    let dim = r.gen_range(1..4);
    let m = *[1usize, 2, 2, 3, 8, 24].choose(r).unwrap();
    let maxl = *[16usize, 16, 16, 3].choose(r).unwrap();
    let mut steps: Vec<Value> = vec![];
    let mut h = Hnsw::<T, D>::new(m, n, maxl, r.gen_range(4..16), mkd());
    h.set_extend_candidates(r.gen());
    let sorted = r.gen_bool(0.4);
    let mut x = 0u32;
    let rows: Vec<Vec<T>> = (0..n)
        .map(|_| {
            x += 3;
            (0..dim).map(|_| T::val(if sorted { x } else { r.gen_range(0..1_000_000) })).collect()
        })
        .collect();
    // (elements outside of the index are not counted)
    let how = *["one by one", "in parallel", "in parallel", "by threads"].choose(r).unwrap();
    match how {
        "in parallel" => {
            for c in (0..n).collect::<Vec<_>>().chunks(n / r.gen_range(1..4) + 1) {
                let d: Vec<(&Vec<T>, usize)> = c.iter().map(|i| (&rows[*i], *i)).collect();
                h.parallel_insert(&d);
            }
        }
        "by threads" => {
            let hr = &h;
            let rr = &rows;
            std::thread::scope(|sc| {
                for k in 0..4 {
                    sc.spawn(move || {
                        for (i, v) in rr.iter().enumerate().filter(|x| x.0 % 4 == k) {
                            hr.insert((v, i));
                        }
                    });
                }
            });
        }
        _ => rows.iter().enumerate().for_each(|(i, v)| h.insert((v, i))),
    }
    drop(rows);
    let mut hs = vec![(how.to_string(), h)];
    if let Some(x) = load(&hs[0].1, r) {
        hs.push(x);
    }
    let mut w: Vec<Weak<Point<'static, T>>> = vec![];
    let mut held: Vec<Arc<Point<'static, T>>> = vec![];
    let data: std::cell::RefCell<Vec<Vec<u32>>> = Default::default();
    let obs = |steps: &mut Vec<Value>, op: &str, how: &str, n: usize, w: &[Weak<Point<'static, T>>], held: &[Arc<Point<'static, T>>]| {
        let live = w.iter().filter(|p| p.strong_count() > 0).count();
        let bad = held.iter().zip(&*data.borrow()).filter(|(p, d)| p.get_v().iter().map(|e| e.num()).collect::<Vec<_>>() != **d).count();
        steps.push(json!({"op": op, "how": how, "n": n, "held": held.len(), "livep": live,
            "elems": if T::COUNTED { LIVE.load(Ordering::SeqCst) - base } else { 0 }, "badheld": bad, "x": -1, "live": []}));
    };
    let mut open = 0;
    for (_, h) in &hs {
        let all: Vec<_> = h.get_point_indexation().into_iter().collect();
        w.extend(all.iter().map(Arc::downgrade));
        open += all.len();
        let k = *[0usize, 0, 1, 7].choose(r).unwrap();
        for _ in 0..k {
            let p = all.choose(r).unwrap();
            if !held.iter().any(|q| Arc::ptr_eq(p, q)) {
                data.borrow_mut().push(p.get_v().iter().map(|e| e.num()).collect());
                held.push(p.clone());
            }
        }
    }
    // (of an index which is open each point is live, of those held some are of indexes dropped)
    let hin = |h: &[(String, Hnsw<'static, T, D>)], held: &[Arc<Point<'static, T>>], w: &[Weak<Point<'static, T>>]| {
        // points held of indexes that are open: the last ones of w
        let nopen: usize = h.iter().map(|x| x.1.get_nb_point()).sum();
        let from = w.len() - nopen;
        held.iter().filter(|p| w[from..].iter().any(|q| std::ptr::eq(q.as_ptr(), Arc::as_ptr(p)))).count()
    };
    obs(&mut steps, "bulk", how, open, &w, &held);
    let both = hin(&hs, &held, &w);
    steps.last_mut().unwrap()["both"] = json!(both);
    while !hs.is_empty() {
        let (how, h) = hs.remove(0);
        open -= h.get_nb_point();
        if r.gen_bool(0.3) {
            std::thread::scope(|s| {
                s.spawn(move || drop(h));
            });
        } else {
            drop(h);
        }
        obs(&mut steps, "bulkdrop", &how, open, &w, &held);
        let both = hin(&hs, &held, &w);
        steps.last_mut().unwrap()["both"] = json!(both);
    }
    while held.pop().is_some() {
        obs(&mut steps, "bulkrelease", "", 0, &w, &held);
        steps.last_mut().unwrap()["both"] = json!(0);
    }
    out.line(&json!({"id": format!("bulk-{}-{}", t, kind), "dim": dim, "counted": T::COUNTED, "steps": steps}));
}

/// loads which fail, many times: what they allocate must be given back. The bytes allocated and not freed are counted
fn failing_session(t: usize, r: &mut StdRng, fo: &mut Forcer, out: &mut Out) {
    let sc = Scratch::new("drop");
    let n = r.gen_range(40..250);
    let m = *[2usize, 3, 8, 16].choose(r).unwrap();
    let h = Hnsw::<f32, DistL1>::new(m, n, 16, r.gen_range(4..16), DistL1 {});
    for i in 0..n {
        let s = if r.gen() { plan_level(2, 16, m, r).and_then(|l| fo.seed(m, 16, 1., l, r)) } else { None };
        parking_lot::sched::reseed_next(s);
        h.insert((&[r.gen_range(0..1000) as f32, r.gen_range(0..1000) as f32], i));
        parking_lot::sched::reseed_next(None);
    }
    let b = h.file_dump(sc.path(), "d").expect("dump");
    let mut steps: Vec<Value> = vec![];
    for form in 0..8 {
        let loads = r.gen_range(4..12);
        let f = sc.path().join(format!("{}.hnsw.{}", b, if form % 4 == 3 { "data" } else { "graph" }));
        let all = std::fs::read(&f).unwrap();
        let cut = match form {
            0 | 4 => all.len() - r.gen_range(1..13),
            1 => all.len() - r.gen_range(13..60),
            _ => r.gen_range(0..all.len()),
        };
        std::fs::write(&f, &all[..cut]).unwrap();
        let opt = r.gen_range(0..3);
        let thr = r.gen_range(0..n);
        let kind = r.gen_range(0..4);
        let one = || {
            let mut io = HnswIo::new(sc.path(), &b);
            if opt == 1 {
                io.set_options(ReloadOptions::new(true));
            }
            if opt == 2 {
                let mut o = ReloadOptions::new(true);
                o.set_mmap_threshold(thr);
                io.set_options(o);
            }
            let x = guard(|| match kind {
                0 => io.load_hnsw_with_dist::<f32, DistL1>(DistL1 {}).map(|_| ()).is_ok(),
                1 => io.load_hnsw::<NoData, NoDist>().map(|_| ()).is_ok(),
                _ => io.load_hnsw::<f32, DistL1>().map(|_| ()).is_ok(),
            });
            matches!(x, Ok(true))
        };
        // once before: what is allocated once for all
        one();
        crate::util::count_bytes(true);
        let k0 = crate::util::bytes();
        let ok = (0..loads).filter(|_| one()).count();
        let grown = crate::util::bytes() - k0;
        crate::util::count_bytes(false);
        std::fs::write(&f, &all).unwrap();
        steps.push(json!({"op": "badload", "how": format!("{} cut at {} of {}, kind {} opt {}", if form % 4 == 3 { "data" } else { "graph" }, cut, all.len(), kind, opt),
            "n": n, "loads": loads, "oks": ok, "grown": grown.min(2_000_000_000), "x": -1, "live": []}));
    }
    out.line(&json!({"id": format!("failing-{}", t), "dim": 2, "counted": false, "steps": steps}));
}

pub fn main_drop(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 60) as usize;
    let maxn = a.u("maxn", 14) as usize;
    let bulk = a.u("bulk", 0) as usize;
    let failing = a.u("failing", 0) > 0;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    for t in 0..n {
        let mut r = rng(seed, 31000 + t as u64);
        let r = &mut r;
        let mx = if t % 10 == 9 { maxn * 12 } else { maxn };
        let load = |h: &Hnsw<'static, f32, DistL1>, r: &mut StdRng| -> Option<(String, Hnsw<'static, f32, DistL1>)> {
            let sc = Scratch::new("drop");
            let b = match guard(|| h.file_dump(sc.path(), "d")) {
                Ok(Ok(b)) => b,
                _ => return None,
            };
            let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(sc.path(), &b)));
            let f = r.gen_range(0..3);
            if f == 1 {
                io.set_options(ReloadOptions::new(true));
            }
            let mut o = ReloadOptions::new(true);
            if f == 2 {
                o.set_mmap_threshold(r.gen_range(0..20));
                io.set_options(o);
            }
            let x = match guard(|| io.load_hnsw::<f32, DistL1>()) {
                Ok(Ok(x)) => x,
                _ => return None,
            };
            Some((["reloaded", "mapped", "mapped in part"][f].to_string(), x))
        };
        if failing {
            failing_session(t, r, &mut fo, &mut out);
            continue;
        }
        if bulk > 0 {
            let n = r.gen_range(bulk / 8..=bulk);
            if t % 2 == 0 {
                bulk_session::<Cnt, DCnt>(t, "counted", n, &|| DCnt, &|_, _| None, r, &mut out);
            } else {
                bulk_session::<f32, DistL1>(t, "f32", n, &|| DistL1 {}, &load, r, &mut out);
            }
            continue;
        }
        if t % 2 == 0 {
            drop_session::<Cnt, DCnt>(t, "counted", mx, &|| DCnt, &|_, _| None, r, &mut fo, &mut out);
        } else {
            drop_session::<f32, DistL1>(t, "f32", mx, &|| DistL1 {}, &load, r, &mut fo, &mut out);
        }
    }
    out.flush();
    println!("sessions {}", out.n);
}

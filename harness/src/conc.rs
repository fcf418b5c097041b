//! Concurrent executions under the controlled scheduler: every schedule is chosen here, the state is recorded whenever a
//! thread releases an exclusive lock.
use crate::dist::*;
use crate::seq::*;
use crate::io;
use crate::util::*;
use hnsw_rs::filter::FilterT;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnsw::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::hnswio::load_description;
use parking_lot::sched;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

type Idx = Hnsw<'static, u32, MatDist>;

#[derive(Clone, Debug)]
pub enum Op {
    Ins { k: usize, seed: Option<u64>, lvl: usize },
    Srch { q: usize, k: usize, ef: usize, filt: Option<Vec<usize>> },
    Iter,
    LayerIter(usize),
    Counts,
    Lookup(u8, i32),
    Flat,
    Info,
    Dump(usize),
}

#[derive(Clone, Debug)]
pub struct Scenario {
    pub c: Cfg,
    pub table: Vec<Vec<f32>>,
    pub prefill: Vec<(usize, Option<u64>)>,
    pub threads: Vec<Vec<Op>>,
    pub nins: usize,
    pub ids: Vec<usize>,
}

pub fn gen_scenario(r: &mut StdRng, fo: &mut Forcer, mode: &str) -> Scenario {
    let m = *[1usize, 1, 2, 2, 2, 3].choose(r).unwrap();
    let efc = *[1usize, 2, 3, 5, 8].choose(r).unwrap();
    if mode == "cross" {
        return gen_cross(r, fo);
    }
    let nthreads = match mode {
        "search" => r.gen_range(2..4),
        _ => *[2usize, 2, 2, 3, 3, 4].choose(r).unwrap(),
    };
    let pre = *[0usize, 0, 1, 1, 2, 3, 4, 6].choose(r).unwrap();
    let mut threads: Vec<Vec<Op>> = vec![];
    let mut key = pre;
    let toplvl = *[0usize, 1, 1, 2, 2, 3].choose(r).unwrap();
    let level = |r: &mut StdRng| if r.gen_bool(0.4) { 0 } else { r.gen_range(0..=toplvl) };
    let ftor = 1.;
    let mut total_ins = 0;
    for t in 0..nthreads {
        let mut ops = vec![];
        let nops = r.gen_range(1..=(if nthreads == 2 { 3 } else { 2 }));
        for o in 0..nops {
            let what = match mode {
                "ins" => 0,
                "search" => {
                    if t == 0 {
                        r.gen_range(0..2) // inserts and searches
                    } else if o == 0 && r.gen_bool(0.3) {
                        0
                    } else {
                        1
                    }
                }
                "dump" => (t == 0 || (t == 2 && o == 0 && r.gen_bool(0.2))) as usize * 7,
                "read" => {
                    if t == 0 || (t == 2 && o == 0) {
                        0
                    } else {
                        *[2, 2, 3, 4, 5, 6, 6].choose(r).unwrap()
                    }
                }
                _ => *[0usize, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8].choose(r).unwrap(),
            };
            let what = if mode == "search" && t == 0 && o == 0 { 0 } else { what };
            match what {
                0 => {
                    if total_ins < 6 {
                        let lvl = level(r);
                        key += 1;
                        total_ins += 1;
                        ops.push(Op::Ins { k: key, seed: fo.seed(m, 16, ftor, lvl, r), lvl });
                    }
                }
                1 => ops.push(Op::Srch { q: r.gen_range(0..3), k: r.gen_range(1..6), ef: r.gen_range(1..9), filt: if r.gen_bool(0.35) { Some(vec![]) } else { None } }),
                2 => ops.push(Op::Iter),
                3 => ops.push(Op::LayerIter(r.gen_range(0..3))),
                4 => ops.push(Op::Counts),
                5 => ops.push(Op::Lookup(r.gen_range(0..3), r.gen_range(-1..4))),
                6 => ops.push(Op::Flat),
                8 => ops.push(Op::Info),
                _ => ops.push(Op::Dump(r.gen_range(0..4))),
            }
        }
        threads.push(ops);
    }
    let nins = key;
    let c = Cfg {
        m,
        efc,
        maxl: 16,
        ext: r.gen_bool(0.3),
        keep: r.gen_bool(0.3),
        factor: ftor,
        nins,
        nq: 3,
        levels: 0,
        srch: 0.,
    };
    let ids = gen_ids(r, nins);
    for t in threads.iter_mut() {
        for o in t.iter_mut() {
            if let Op::Srch { filt: Some(f), .. } = o {
                let p = *[0., 0.3, 0.6].choose(r).unwrap();
                let mut v: Vec<usize> = ids.iter().filter(|_| r.gen_bool(p)).cloned().collect();
                v.sort();
                *f = v;
            }
        }
    }
    let prefill = (0..pre).map(|i| (i + 1, { let l = level(r); fo.seed(m, 16, ftor, l, r) })).collect();
    Scenario { table: rand_matrix(r, nins + 3, false), c, prefill, threads, nins, ids }
}

/// two or three threads insert one point each at upper levels above a base that fills all layers: the new points become
/// neighbours of each other while they are inserted
fn gen_cross(r: &mut StdRng, fo: &mut Forcer) -> Scenario {
    let m = *[1usize, 2, 2, 3].choose(r).unwrap();
    let nthreads = *[2usize, 2, 2, 3].choose(r).unwrap();
    let top = r.gen_range(1..=3);
    let mut levels = vec![top, 0];
    for _ in 0..r.gen_range(0..3) {
        levels.push(r.gen_range(0..=top));
    }
    levels.shuffle(r);
    let pre = levels.len();
    let prefill = levels.iter().enumerate().map(|(i, l)| (i + 1, fo.seed(m, 16, 1., *l, r))).collect();
    let mut threads = vec![];
    for t in 0..nthreads {
        let lvl = r.gen_range(1..=top + 1).min(top + (t == 0) as usize);
        let mut ops = vec![Op::Ins { k: pre + t + 1, seed: fo.seed(m, 16, 1., lvl, r), lvl }];
        if r.gen_bool(0.1) {
            ops.push(Op::Flat);
        }
        threads.push(ops);
    }
    let nins = pre + nthreads;
    let c = Cfg { m, efc: *[2usize, 3, 5, 8].choose(r).unwrap(), maxl: 16, ext: r.gen_bool(0.2), keep: r.gen_bool(0.3), factor: 1., nins, nq: 3, levels: 0, srch: 0. };
    // the new points are near to each other
    let mut table = rand_matrix(r, nins + 3, false);
    if r.gen_bool(0.7) {
        let mut close: Vec<f32> = (0..10).map(|i| 1e-42 * (i + 1) as f32).collect();
        close.shuffle(r);
        for a in pre..nins {
            for b in a + 1..nins {
                let x = close.pop().unwrap();
                table[a][b] = x;
                table[b][a] = x;
            }
        }
    }
    Scenario { table, c, prefill, threads, nins, ids: gen_ids(r, nins) }
}

struct Log {
    events: Vec<Value>,
    prev: Snap,
    keys: Keys,
    full: bool,
}

impl Log {
    fn observe(&mut self, h: &Idx, what: Value) {
        let mut cur = snap(h);
        if cur.dirty {
            if !what.is_null() {
                self.events.push(what);
            }
            return;
        }
        // what a paused thread is changing under a lock is seen by nobody yet
        if cur.dirty_n {
            cur.nbp = self.prev.nbp;
        }
        if cur.dirty_e {
            (cur.mlo, cur.ep) = (self.prev.mlo, self.prev.ep);
        }
        (cur.dirty_n, cur.dirty_e) = (false, false);
        for p in cur.pts.iter_mut() {
            if p.dirty {
                p.dirty = false;
                p.nb = self.prev.pts.iter().find(|o| o.id == p.id && o.pid == p.pid).map(|o| o.nb.clone()).unwrap_or_default();
            }
        }
        if cur == self.prev && what.is_null() {
            return;
        }
        let (chg, add, del) = diff(&self.prev, &cur, &self.keys);
        let mut v = if what.is_null() { json!({"op": "obs"}) } else { what };
        let same = cur == self.prev;
        v["same"] = json!(same);
        if !same || v["op"] == "final" || v["op"] == "init" {
            v["same"] = json!(false);
            v["chg"] = chg;
            v["add"] = add;
            v["del"] = del;
            v["nbp"] = json!(cur.nbp);
            v["cnt"] = json!(cur.cnt);
            v["mlo"] = json!(cur.mlo);
            v["ep"] = json!(cur.ep);
        }
        self.events.push(v);
        self.prev = cur;
    }
}

fn do_op(h: &Idx, op: &Op, tid: usize, sc: &Scenario, log: &Mutex<Log>) {
    let evt = |v: Value| {
        let mut l = log.lock().unwrap();
        if l.full {
            l.events.push(v);
        }
    };
    match op {
        Op::Ins { k, seed, .. } => {
            evt(json!({"op": "begin", "what": "ins", "tid": tid, "k": k}));
            sched::reseed_next(*seed);
            let row = vec![*k as u32 - 1];
            h.insert((&row, sc.ids[*k - 1]));
            sched::reseed_next(None);
            evt(json!({"op": "end", "what": "ins", "tid": tid, "k": k}));
        }
        Op::Srch { q, k, ef, filt } => {
            let row = vec![(sc.nins + q) as u32];
            let acc: Vec<i64> = match filt {
                Some(f) => f.iter().map(|i| log.lock().unwrap().keys[i]).collect(),
                None => vec![],
            };
            let started: bool = sched::bypass(|| h.get_point_indexation().get_data_dimension() > 0);
            evt(json!({"op": "begin", "what": "srch", "tid": tid, "ep": started}));
            let a = match filt {
                Some(f) => h.search_filter(&row, *k, *ef, Some(f as &dyn FilterT)),
                None => h.search(&row, *k, *ef),
            };
            let mut l = log.lock().unwrap();
            if l.full {
                let cur = sched::bypass(|| snap(h));
                let a = answer(&a, &cur, &l.keys);
                l.events.push(json!({"op": "end", "what": "srch", "tid": tid, "q": sc.nins + q + 1, "k": k, "ef": ef,
                     "fon": filt.is_some(), "acc": acc, "ans": a, "hadep": started}));
            }
        }
        Op::Iter | Op::LayerIter(_) => {
            evt(json!({"op": "begin", "what": "iter", "tid": tid}));
            let pi = h.get_point_indexation();
            let (ly, v): (i64, Vec<_>) = match op {
                Op::LayerIter(ly) => (*ly as i64, pi.get_layer_iterator(*ly).take(100).collect()),
                _ => (-1, pi.into_iter().take(100).collect()),
            };
            let nb: Vec<Vec<Vec<Neighbour>>> = v.iter().map(|p| p.get_neighborhood_id()).collect();
            let mut l = log.lock().unwrap();
            let it: Vec<Value> = v
                .iter()
                .map(|p| {
                    let d = p.get_point_id();
                    json!([*l.keys.get(&p.get_origin_id()).unwrap_or(&0), d.0, d.1, idtok(p.get_origin_id()), hex(p.get_v())])
                })
                .collect();
            // the lists without those empty at the end
            let nb: Vec<Vec<Vec<(i64, i64)>>> = nb
                .iter()
                .map(|ls| {
                    let n = ls.iter().rposition(|x| !x.is_empty()).map(|x| x + 1).unwrap_or(0);
                    ls[..n].iter().map(|v| v.iter().map(|n| (*l.keys.get(&n.d_id).unwrap_or(&0), bits(n.distance))).collect()).collect()
                })
                .collect();
            let ks: Vec<i64> = v.iter().map(|p| *l.keys.get(&p.get_origin_id()).unwrap_or(&0)).collect();
            if l.full {
                l.events.push(json!({"op": "end", "what": "iter", "tid": tid, "it": ks, "pts": it, "nb": nb, "layer": ly}));
            }
        }
        Op::Counts => {
            let pi = h.get_point_indexation();
            // each is an operation of its own
            for (w, f) in [
                ("nbp", Box::new(|| h.get_nb_point()) as Box<dyn Fn() -> usize>),
                ("nbp", Box::new(|| pi.get_nb_point())),
                ("layer", Box::new(|| pi.get_layer_nb_point(0))),
                ("mlo", Box::new(|| h.get_max_level_observed() as usize)),
                ("layer", Box::new(|| pi.get_layer_nb_point(1))),
                ("layer", Box::new(|| pi.get_layer_nb_point(99))),
                ("dim", Box::new(|| pi.get_data_dimension())),
            ]
            .iter()
            .zip([0i64, 0, 0, 0, 1, 99, 0])
            .map(|(x, l)| ((x.0, l), &x.1))
            {
                evt(json!({"op": "begin", "what": "cnt", "tid": tid}));
                let v = f();
                evt(json!({"op": "end", "what": "cnt", "tid": tid, "of": w.0, "layer": w.1, "v": v}));
            }
        }
        Op::Lookup(l, rk) => {
            for x in 0..2 {
                evt(json!({"op": "begin", "what": "look", "tid": tid}));
                let v = h.get_point_indexation().get_point_data(&PointId(*l, *rk + x));
                evt(json!({"op": "end", "what": "look", "tid": tid, "l": l, "r": rk + x, "got": v.is_some(), "v": v.map(|d| hex(&d)).unwrap_or_default()}));
            }
        }
        Op::Info => {
            // (prints)
            h.dump_layer_info();
            let p = h.get_point_indexation().into_iter().last();
            if let Some(p) = p {
                p.debug_dump();
            }
        }
        Op::Dump(form) => {
            evt(json!({"op": "begin", "what": "dump", "tid": tid}));
            let dir = Scratch::new("cdump");
            let res = h.file_dump(dir.path(), "d");
            let mut l = log.lock().unwrap();
            if l.full {
                let mut v = json!({"op": "end", "what": "dump", "tid": tid, "ok": res.is_ok(), "msg": res.as_ref().map(|x| x.clone()).unwrap_or_else(|e| e.to_string())});
                if res.is_ok() {
                    let (m, d) = sched::bypass(|| dumped(dir.path(), *form, &l.keys));
                    v["lmsg"] = json!(m);
                    v["d"] = if d.is_null() { json!({}) } else { d };
                }
                l.events.push(v);
            }
        }
        Op::Flat => {
            evt(json!({"op": "begin", "what": "flat", "tid": tid}));
            let f = FlatNeighborhood::from(h);
            let mut l = log.lock().unwrap();
            let mut v = vec![];
            for id in sc.ids.iter() {
                let nb = f.get_neighbours(*id);
                let key = |i: &usize| *l.keys.get(i).unwrap_or(&0);
                let ls: Vec<Value> = nb.iter().flatten().map(|n| json!([key(&n.d_id), bits(n.distance), n.p_id.0, n.p_id.1])).collect();
                v.push(json!([key(id), nb.is_some(), ls]));
            }
            if l.full {
                l.events.push(json!({"op": "end", "what": "flat", "tid": tid, "pts": v}));
            }
        }
    }
}

/// what is in a dump: message if it is not loaded, contents
fn dumped(dir: &std::path::Path, form: usize, keys: &Keys) -> (String, Value) {
    let key = |id: &usize| *keys.get(id).unwrap_or(&0);
    let mut r = rng(form as u64, 5);
    let h = match io::load::<u32, MatDist>(dir, "d", form % 4, form, MatDist, &mut r) {
        Ok(h) => h,
        Err(e) => return (e, Value::Null),
    };
    let cur = snap(&h);
    let (chg, add, _) = diff(&Snap::default(), &cur, keys);
    let gb = io::read(dir, "d", "graph");
    let e = &gb[gb.len() - 13..];
    let id = usize::from_ne_bytes(e[0..8].try_into().unwrap());
    let map = match guard(|| hnsw_rs::datamap::DataMap::from_hnswdump::<u32>(dir, "d")) {
        Ok(Ok(m)) => {
            let mut ids: Vec<usize> = m.get_dataid_iter().cloned().collect();
            ids.sort();
            json!(ids.iter().map(|i| json!([key(i), m.get_data::<u32>(i).map(hex).unwrap_or_default()])).collect::<Vec<_>>())
        }
        e => return (format!("mapping the data file: {:?}", e.map(|x| x.map(|_| ()))), Value::Null),
    };
    let nbd = std::fs::File::open(dir.join("d.hnsw.graph"))
        .ok()
        .and_then(|f| load_description(&mut std::io::BufReader::new(f)).ok())
        .map(|d| d.nb_point as i64)
        .unwrap_or(-1);
    let d = json!({"chg": chg, "add": add, "nbp": cur.nbp, "cnt": cur.cnt, "mlo": cur.mlo, "nbd": nbd,
        "e": [key(&id), e[8], i32::from_ne_bytes(e[9..13].try_into().unwrap())], "map": map});
    ("".to_string(), d)
}

pub fn build_prefilled(sc: &Scenario) -> Arc<Idx> {
    set_table(sc.table.clone());
    let h: Arc<Idx> = Arc::new(make_index(&sc.c, MatDist));
    for (k, seed) in &sc.prefill {
        sched::reseed_next(*seed);
        let row = vec![*k as u32 - 1];
        h.insert((&row, sc.ids[*k - 1]));
        sched::reseed_next(None);
    }
    h
}

pub fn execute(sc: &Scenario, strategy: sched::Strategy, full: bool) -> (Value, sched::RunResult) {
    let h = build_prefilled(sc);
    let keys: Keys = sc.ids.iter().enumerate().map(|(i, id)| (*id, i as i64 + 1)).collect();
    let log = Arc::new(Mutex::new(Log { events: vec![], prev: Snap::default(), keys, full }));
    log.lock().unwrap().observe(&h, json!({"op": "init"}));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (tid, ops) in sc.threads.iter().enumerate() {
        let (h, sc, log, ops) = (h.clone(), sc.clone(), log.clone(), ops.clone());
        bodies.push(Box::new(move || {
            for op in &ops {
                do_op(&h, op, tid, &sc, &log);
            }
        }));
    }
    let obs: Option<sched::Observer> = if full {
        let (h, log) = (h.clone(), log.clone());
        Some(Box::new(move |_e| {
            log.lock().unwrap_or_else(|e| e.into_inner()).observe(&h, Value::Null);
        }))
    } else {
        None
    };
    let res = sched::run(bodies, strategy, obs, 20000);
    let mut log = match log.lock() {
        Ok(l) => l,
        Err(e) => e.into_inner(),
    };
    let mut fail = vec![];
    if let Some(d) = &res.deadlock {
        fail.push(json!({"op": "fail", "kind": "deadlock", "msg": d}));
    }
    if res.overrun || res.stuck {
        fail.push(json!({"op": "fail", "kind": "nontermination", "msg": format!("steps {}", res.steps)}));
    }
    for (t, m) in &res.panics {
        fail.push(json!({"op": "fail", "kind": "panic", "msg": format!("thread {}: {}", t, m)}));
    }
    if fail.is_empty() {
        log.observe(&h, json!({"op": "final"}));
    } else {
        log.events.extend(fail);
        // locks may still be held by the threads given up
        std::mem::forget(h);
    }
    let rows = sc.nins + 3;
    let dm: Vec<Vec<i64>> = sc.table.iter().map(|v| v.iter().map(|x| bits(*x)).collect()).collect();
    let line = json!({"par": par_json(&sc.c), "D": dm, "n": sc.nins,
        "rows": (0..rows as u32).map(|i| hex(&[i])).collect::<Vec<_>>(),
        "ids": sc.ids.iter().map(|i| idtok(*i)).collect::<Vec<_>>(),
        "steps": log.events,
        "cfg": format!("{:?} prefill {:?} threads {:?}", sc.c, sc.prefill, sc.threads),
        "sched": res.schedule.iter().map(|x| x.1).collect::<Vec<_>>()});
    (line, res)
}

/// uniform choice / sticky choice / priorities with change points
pub fn random_strategy(seed: u64) -> sched::Strategy {
    let mut r = rng(seed, 77);
    let style = r.gen_range(0..4);
    let mut prio: Vec<u64> = (0..16).map(|_| r.gen()).collect();
    let d = r.gen_range(1..5);
    let horizon = r.gen_range(20..400);
    let mut points: Vec<usize> = (0..d).map(|_| r.gen_range(0..horizon)).collect();
    points.sort();
    let stick = *[0.5, 0.8, 0.95].choose(&mut r).unwrap();
    let mut step = 0usize;
    Box::new(move |ready, cur| {
        step += 1;
        match style {
            0 => *ready.choose(&mut r).unwrap(),
            1 => match cur {
                Some(c) if r.gen_bool(stick) => c,
                _ => *ready.choose(&mut r).unwrap(),
            },
            _ => {
                if points.contains(&step) {
                    if let Some(c) = cur {
                        prio[c] = (d + 1 - points.iter().position(|p| *p == step).unwrap()) as u64;
                    }
                }
                *ready.iter().max_by_key(|t| prio[**t]).unwrap()
            }
        }
    })
}

/// follows a list of preemptions (decision number, thread), otherwise runs without preemption
fn preempt_strategy(points: Vec<(usize, usize)>, order: Vec<usize>) -> sched::Strategy {
    let mut n = 0usize;
    Box::new(move |ready, cur| {
        let i = n;
        n += 1;
        if let Some((_, t)) = points.iter().find(|p| p.0 == i) {
            if ready.contains(t) {
                return *t;
            }
        }
        match cur {
            Some(c) => c,
            None => *order.iter().find(|t| ready.contains(t)).unwrap_or(&ready[0]),
        }
    })
}

/// thread a runs up to its i-th decision, then b up to its j-th one, then a to its end, then the others in order
fn two_switch(a: usize, b: usize, i: usize, j: usize) -> sched::Strategy {
    let (mut na, mut nb) = (0usize, 0usize);
    Box::new(move |ready, _cur| {
        let pick = if na < i && ready.contains(&a) {
            a
        } else if nb < j && ready.contains(&b) {
            b
        } else if ready.contains(&a) {
            a
        } else if ready.contains(&b) {
            b
        } else {
            ready[0]
        };
        if pick == a {
            na += 1;
        } else if pick == b {
            nb += 1;
        }
        pick
    })
}

/// all schedules with two preemptions between threads a and b (at most max of them, evenly chosen)
fn all_two_switch(sc: &Scenario, max: usize, r: &mut StdRng) -> Vec<(usize, usize, usize, usize)> {
    let n = sc.threads.len();
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a == b {
                continue;
            }
            let (_, res) = execute(sc, two_switch(a, b, usize::MAX, usize::MAX), false);
            let la = res.schedule.iter().filter(|x| x.1 == a).count();
            let (_, res) = execute(sc, two_switch(b, a, usize::MAX, usize::MAX), false);
            let lb = res.schedule.iter().filter(|x| x.1 == b).count();
            for i in 0..=la + 2 {
                for j in 1..=lb + 4 {
                    v.push((a, b, i, j));
                }
            }
        }
    }
    if v.len() > max {
        v.shuffle(r);
        v.truncate(max);
    }
    v
}

pub fn replay_strategy(s: Vec<usize>) -> sched::Strategy {
    let mut i = 0;
    Box::new(move |ready, cur| {
        let x = s.get(i).cloned();
        i += 1;
        match x {
            Some(t) if ready.contains(&t) => t,
            _ => cur.unwrap_or(ready[0]),
        }
    })
}

pub fn main(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 50);
    let first = a.u("first", 0);
    let per = a.u("per", 4); // schedules per scenario that are recorded
    let dry = a.u("dry", 20); // schedules per scenario only run for termination
    let dfs = a.u("dfs", 0) as usize; // systematic schedules per scenario
    let ctx = a.u("ctx", 0) as usize; // maximal number of schedules with two preemptions per scenario
    let stops = a.u("stops", 0) as usize; // maximal number of schedules where a thread stops once, all recorded
    let fin = a.u("fin", 0) == 1; // the final state of every execution is recorded
    let mode = a.s("mode", "ins");
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    let mut nd = 0u64;
    let (mut execs, mut steps, mut decisions) = (0u64, 0u64, 0u64);
    let mut distinct: HashSet<Vec<usize>> = HashSet::new();
    let mut fails = 0;
    for t in first..first + n {
        let mut r = rng(seed, t + 1000);
        let sc = gen_scenario(&mut r, &mut fo, &mode);
        if sc.threads.iter().all(|x| x.is_empty()) {
            continue;
        }
        let nthr = sc.threads.len();
        let mut jobs: Vec<(String, sched::Strategy, bool)> = vec![];
        for i in 0..per + dry {
            jobs.push((format!("r{}", i), random_strategy(seed.wrapping_mul(1000003) ^ (t * 1000 + i)), i < per));
        }
        // one or two preemptions at every place
        if dfs > 0 {
            let (_, res) = execute(&sc, preempt_strategy(vec![], (0..nthr).collect()), false);
            let len = res.schedule.len().max(1);
            for i in 0..dfs {
                let np = r.gen_range(1..=3);
                let mut pts: Vec<(usize, usize)> = (0..np).map(|_| (r.gen_range(0..len + 3), r.gen_range(0..nthr))).collect();
                pts.sort();
                let mut order: Vec<usize> = (0..nthr).collect();
                order.shuffle(&mut r);
                jobs.push((format!("p{}", i), preempt_strategy(pts, order), i < per as usize));
            }
        }
        if ctx > 0 {
            for (x, (ta, tb, i, j)) in all_two_switch(&sc, ctx, &mut r).into_iter().enumerate() {
                jobs.push((format!("c{}.{}.{}.{}", ta, tb, i, j), two_switch(ta, tb, i, j), x < per as usize));
            }
        }
        // a thread stops once, at any place, while another one does all it has to
        if stops > 0 {
            let mut v = vec![];
            for ta in 0..nthr {
                let (_, res) = execute(&sc, two_switch(ta, ta, usize::MAX, 0), false);
                let la = res.schedule.iter().filter(|x| x.1 == ta).count();
                for tb in (0..nthr).filter(|tb| *tb != ta) {
                    v.extend((0..=la).map(|i| (ta, tb, i)));
                }
            }
            v.shuffle(&mut r);
            v.truncate(stops);
            for (ta, tb, i) in v {
                jobs.push((format!("s{}.{}.{}", ta, tb, i), two_switch(ta, tb, i, usize::MAX), true));
            }
        }
        for (name, st, rec) in jobs {
            let (mut line, res) = execute(&sc, st, rec);
            execs += 1;
            steps += res.steps as u64;
            decisions += res.schedule.len() as u64;
            distinct.insert(res.schedule.iter().map(|x| x.1).chain(std::iter::once(t as usize + 100)).collect());
            let bad = res.deadlock.is_some() || res.overrun || res.stuck || !res.panics.is_empty();
            if bad {
                fails += 1;
            }
            if bad || ((rec || fin) && !res.external) {
                line["id"] = json!(format!("conc-{}-{}-{}", mode, t, name));
                out.line(&line);
            }
            if res.stuck {
                out.flush();
                println!("executions {} steps {} decisions {} distinct {} fails {} stuck", execs, steps, decisions, distinct.len(), fails);
                std::process::exit(0);
            }
            if bad {
                nd += 1;
                break;
            }
        }
        if nd >= 5 {
            break;
        }
    }
    out.flush();
    println!("executions {} steps {} decisions {} distinct {} fails {}", execs, steps, decisions, distinct.len(), fails);
}

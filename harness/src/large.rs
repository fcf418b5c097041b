//! Sessions on larger indexes (hundreds to tens of thousands of points, or long vectors): points with integer coordinates, so that the
//! specification computes the distances itself.
use crate::seq::*;
use crate::util::*;
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::filter::FilterT;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnsw::*;
use hnsw_rs::hnswio::*;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};

/// distances between integer coordinates are integers
fn int(d: f32) -> i64 {
    if d >= 0. && d < 16777216. && d.fract() == 0. {
        d as i64
    } else {
        -1
    }
}

fn row<T>(v: &[T]) -> String {
    if std::mem::size_of_val(v) <= 64 {
        return hex(v);
    }
    let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) };
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    format!("h{}-{:016x}", v.len(), h)
}

#[derive(Clone, PartialEq)]
struct Pt {
    l: usize,
    r: usize,
    own: (u8, i32),
    id: usize,
    row: String,
    nb: Vec<Vec<(i64, i64, i64)>>,
}

#[derive(Clone)]
struct Obs {
    pts: Vec<Option<Pt>>,
    /// points met twice or unknown
    odd: usize,
    km: HashMap<(u8, i32), i64>,
    nbp: usize,
    cnt: Vec<usize>,
    mlo: usize,
}

fn obs<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>, keys: &Keys, n: usize) -> Obs {
    let pi = h.get_point_indexation();
    let mut o = Obs { pts: vec![None; n], odd: 0, km: HashMap::new(), nbp: h.get_nb_point(), cnt: vec![], mlo: h.get_max_level_observed() as usize };
    let mut raw = vec![];
    for l in 0..h.get_max_level() {
        o.cnt.push(pi.get_layer_nb_point(l));
        for (r, p) in pi.get_layer_iterator(l).enumerate() {
            let k = *keys.get(&p.get_origin_id()).unwrap_or(&0);
            o.km.insert((l as u8, r as i32), k);
            raw.push((k, l, r, p));
        }
    }
    for (k, l, r, p) in raw {
        if k == 0 || o.pts[k as usize - 1].is_some() {
            o.odd += 1;
            continue;
        }
        let mut nb: Vec<Vec<(i64, i64, i64)>> = p
            .get_neighborhood_id()
            .iter()
            .map(|v| {
                v.iter()
                    .map(|x| (*o.km.get(&(x.p_id.0, x.p_id.1)).unwrap_or(&0), int(x.distance), *keys.get(&x.d_id).unwrap_or(&0)))
                    .collect()
            })
            .collect();
        while nb.last().map(|x| x.is_empty()).unwrap_or(false) {
            nb.pop();
        }
        let pid = p.get_point_id();
        o.pts[k as usize - 1] = Some(Pt { l, r, own: (pid.0, pid.1), id: p.get_origin_id(), row: row(p.get_v()), nb });
    }
    o
}

fn pj(p: &Option<Pt>) -> Value {
    match p {
        None => json!([-1, -1, "", "", -1, -1]),
        Some(p) => json!([p.l, p.r, idtok(p.id), p.row, p.own.0, p.own.1]),
    }
}
fn nj(p: &Option<Pt>) -> Value {
    match p {
        None => json!([]),
        Some(p) => json!(p.nb),
    }
}

fn ans(a: &[Neighbour], o: &Obs, keys: &Keys) -> Value {
    json!(a
        .iter()
        .map(|n| (*o.km.get(&(n.p_id.0, n.p_id.1)).unwrap_or(&0), int(n.distance), *keys.get(&n.d_id).unwrap_or(&0)))
        .collect::<Vec<_>>())
}

/// key of the entry point, read in a dump made for this
fn entry<T, D>(h: &Hnsw<T, D>, o: &Obs, dir: &std::path::Path) -> i64
where
    T: Clone + Send + Sync + Serialize + DeserializeOwned + std::fmt::Debug,
    D: Distance<T> + Send + Sync,
{
    if h.get_nb_point() == 0 {
        return 0;
    }
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let b = format!("ep{}", N.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    match guard(|| h.file_dump(dir, &b)) {
        Ok(Ok(b)) => {
            let g = std::fs::read(dir.join(format!("{}.hnsw.graph", b))).unwrap_or_default();
            let (id, l, r) = crate::fmt::tail_ep(&g);
            let k = *o.km.get(&(l, r)).unwrap_or(&-1);
            for e in ["graph", "data"] {
                let _ = std::fs::remove_file(dir.join(format!("{}.hnsw.{}", b, e)));
            }
            match o.pts.get((k - 1).max(0) as usize) {
                Some(Some(p)) if p.id as u64 == id => k,
                _ => -1,
            }
        }
        _ => -2,
    }
}

struct Plan {
    n: usize,
    /// points inserted one by one at the end
    last: usize,
    nq: usize,
    nsrch: usize,
    npar: usize,
    reloads: usize,
    efmax: usize,
    /// all at once, by this means
    batch: usize,
    /// dumps while threads insert
    cdumps: usize,
    /// reads and searches by two threads while others insert
    creads: usize,
}

fn look<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>, o: &Obs, r: &mut StdRng) -> Value {
    let pi = h.get_point_indexation();
    let mut pr: Vec<(u8, i32)> = (0..6).filter_map(|_| o.km.keys().choose(r)).cloned().collect();
    for l in 0..16 {
        if o.cnt[l] > 0 {
            pr.push((l as u8, o.cnt[l] as i32 - 1));
        }
        pr.push((l as u8, o.cnt[l] as i32));
        pr.push((l as u8, o.cnt[l] as i32 + 65536));
    }
    pr.push((0, -1));
    pr.push((0, -65536));
    Value::Array(
        pr.into_iter()
            .map(|(l, rk)| json!([l, rk, *o.km.get(&(l, rk)).unwrap_or(&0), pi.get_point_data(&PointId(l, rk)).map(|v| row(&v)).unwrap_or("none".into())]))
            .collect(),
    )
}

/// one operation made while other threads insert. Neighbours and points: key, distance, position
fn cread<T, D>(h: &Hnsw<'static, T, D>, ids: &[usize], keys: &Keys, rows: &[Vec<T>], p: &Plan, r: &mut StdRng) -> Value
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    let n = ids.len();
    let key = |i: &usize| *keys.get(i).unwrap_or(&0);
    let nb = |v: &[Neighbour]| -> Value { json!(v.iter().map(|x| (key(&x.d_id), int(x.distance), x.p_id.0, x.p_id.1)).collect::<Vec<_>>()) };
    let pi = h.get_point_indexation();
    match r.gen_range(0..14) {
        0 => json!({"what": "iter", "layer": -1, "it": pi.into_iter().take(n + 5).map(|x| (key(&x.get_origin_id()), x.get_point_id().0, x.get_point_id().1)).collect::<Vec<_>>()}),
        1 => {
            let l = r.gen_range(0..3);
            json!({"what": "iter", "layer": l, "it": pi.get_layer_iterator(l).take(n + 5).map(|x| (key(&x.get_origin_id()), x.get_point_id().0, x.get_point_id().1)).collect::<Vec<_>>()})
        }
        2 => json!({"what": "nbp", "v": h.get_nb_point()}),
        3 => {
            let l = r.gen_range(0..4);
            json!({"what": "layer", "layer": l, "v": pi.get_layer_nb_point(l)})
        }
        4 => json!({"what": "mlo", "v": h.get_max_level_observed()}),
        5 | 6 => {
            // at the end of a layer
            let l = *[0u8, 0, 1, 2].choose(r).unwrap();
            let k = pi.get_layer_nb_point(l as usize) as i32 + r.gen_range(-2..4);
            let v = pi.get_point_data(&PointId(l, k));
            json!({"what": "look", "l": l, "r": k, "got": v.is_some(), "v": v.map(|v| row(&v)).unwrap_or("none".into())})
        }
        7 => {
            let f = FlatNeighborhood::from(h);
            // some of the points
            let some: Vec<usize> = (0..n).filter(|i| n < 100 || (i * 7919) % n < 100).collect();
            json!({"what": "flat", "of": some.iter().map(|i| i + 1).collect::<Vec<_>>(), "nb": some.iter().map(|i| match f.get_neighbours(ids[*i]) {
                None => json!([[-1, -1, 0, 0]]),
                Some(v) => nb(&v),
            }).collect::<Vec<_>>()})
        }
        x => {
            let q = r.gen_range(0..rows.len());
            let k = *[1, 5, 20, p.efmax].choose(r).unwrap();
            let ef = *[1, 10, p.efmax].choose(r).unwrap();
            let pr = *[0.01, 0.1, 0.5, 0.9].choose(r).unwrap();
            let mut acc: Vec<usize> = if x < 11 { (0..n).filter(|_| r.gen_bool(pr)).map(|i| ids[i]).collect() } else { vec![] };
            acc.sort();
            let a = match x {
                8 | 9 => h.search_filter(&rows[q], k, ef, Some(&acc as &dyn FilterT)),
                10 => {
                    let set: HashSet<usize> = acc.iter().cloned().collect();
                    h.search_filter(&rows[q], k, ef, Some(&(move |i: &usize| set.contains(i)) as &dyn FilterT))
                }
                11 => h.parallel_search(&[rows[q].clone(), rows[0].clone()], k, ef).swap_remove(0),
                _ => h.search(&rows[q], k, ef),
            };
            json!({"what": "srch", "q": q + 1, "k": k, "ef": ef, "fon": x < 11, "acc": acc.iter().map(key).collect::<Vec<_>>(), "ans": nb(&a)})
        }
    }
}

fn session<T, D>(tid: usize, kind: &str, c: &Cfg, p: &Plan, xs: &[Vec<i64>], rows: &[Vec<T>], dist: D, r: &mut StdRng, out: &mut Out)
where
    T: Clone + Send + Sync + 'static + Serialize + DeserializeOwned + std::fmt::Debug,
    D: Distance<T> + Send + Sync + Clone + Default + 'static,
{
    let sc = Scratch::new("large");
    let n = p.n;
    let ids = gen_ids(r, n);
    let keys: Keys = ids.iter().enumerate().map(|(i, id)| (*id, i as i64 + 1)).collect();
    let mut h: Hnsw<'static, T, D> = make_index(c, dist.clone());
    let mut steps: Vec<Value> = vec![];
    let state = |op: &str, h: &Hnsw<'static, T, D>, r: &mut StdRng, upto: usize| -> (Value, Obs) {
        let o = obs(h, &keys, n);
        let it: Vec<i64> = h.get_point_indexation().into_iter().take(n + 5).map(|p| *keys.get(&p.get_origin_id()).unwrap_or(&0)).collect();
        let v = json!({"op": op, "upto": upto, "pos": o.pts[..upto].iter().map(pj).collect::<Vec<_>>(), "nb": o.pts[..upto].iter().map(nj).collect::<Vec<_>>(),
            "odd": o.odd + o.pts[upto..].iter().filter(|p| p.is_some()).count(), "nbp": o.nbp, "cnt": o.cnt, "mlo": o.mlo, "it": it,
            "ep": entry(h, &o, sc.path()), "look": look(h, &o, r)});
        (v, o)
    };
    // several insertions at once
    let bulk = n - p.last;
    let mut done = 0;
    let mut cur;
    let mut failed = false;
    let mut creads: Vec<Value> = vec![];
    let mut cdumps: Vec<(Vec<usize>, Result<String, String>)> = vec![];
    loop {
        let upto = if done == 0 && r.gen_bool(0.5) && p.batch == 0 && p.cdumps + p.creads == 0 { r.gen_range(1..=bulk) } else { bulk };
        let mode = if p.cdumps > 0 { 5 } else if p.creads > 0 { 6 } else if p.batch > 0 { p.batch } else { r.gen_range(0..5) };
        let e = guard(|| {
            let part: Vec<usize> = (done..upto).collect();
            match mode {
                0 => part.iter().for_each(|i| h.insert((rows[*i].as_slice(), ids[*i]))),
                1 | 4 => h.parallel_insert(&part.iter().map(|i| (&rows[*i], ids[*i])).collect::<Vec<_>>()),
                5 => {
                    // dumps while three threads insert
                    let over: Vec<AtomicBool> = part.iter().map(|_| AtomicBool::new(false)).collect();
                    let left = AtomicUsize::new(3);
                    let (h, part, rows, ids, over, left) = (&h, &part, &rows, &ids, &over, &left);
                    std::thread::scope(|s| {
                        for t in 0..3 {
                            s.spawn(move || {
                                for j in (t..part.len()).step_by(3) {
                                    h.insert_slice((rows[part[j]].as_slice(), ids[part[j]]));
                                    over[j].store(true, SeqCst);
                                }
                                left.fetch_sub(1, SeqCst);
                            });
                        }
                        while cdumps.len() < p.cdumps && left.load(SeqCst) > 0 {
                            // (spread over the insertions)
                            let want = part.len() * cdumps.len() / p.cdumps;
                            while over.iter().filter(|x| x.load(SeqCst)).count() < want {
                                std::thread::sleep(std::time::Duration::from_micros(200));
                            }
                            let before: Vec<usize> = (0..part.len()).filter(|j| over[*j].load(SeqCst)).map(|j| part[j] + 1).collect();
                            if before.is_empty() {
                                continue;
                            }
                            let b = format!("c{}", cdumps.len());
                            let b = guard(|| h.file_dump(sc.path(), &b).map_err(|e| e.to_string())).unwrap_or_else(|e| Err(format!("panic {}", e)));
                            cdumps.push((before, b));
                        }
                    })
                }
                6 => {
                    // reads and searches while three threads insert
                    let cnt: Vec<(AtomicUsize, AtomicUsize)> = (0..3).map(|_| (AtomicUsize::new(0), AtomicUsize::new(0))).collect();
                    let left = AtomicUsize::new(3);
                    let seeds: Vec<u64> = (0..2).map(|_| r.gen()).collect();
                    let all = std::sync::Mutex::new(&mut creads);
                    let (h, part, rows, ids, cnt, left, keys, all) = (&h, &part, &rows, &ids, &cnt, &left, &keys, &all);
                    std::thread::scope(|s| {
                        for t in 0..3 {
                            s.spawn(move || {
                                for j in (t..part.len()).step_by(3) {
                                    cnt[t].0.fetch_add(1, SeqCst);
                                    h.insert_slice((rows[part[j]].as_slice(), ids[part[j]]));
                                    cnt[t].1.fetch_add(1, SeqCst);
                                }
                                left.fetch_sub(1, SeqCst);
                            });
                        }
                        for seed in seeds {
                            s.spawn(move || {
                                let mut r = rng(seed, 1);
                                let over = |x: bool| -> Vec<usize> { cnt.iter().map(|c| if x { c.1.load(SeqCst) } else { c.0.load(SeqCst) }).collect() };
                                for i in 0..p.creads {
                                    // (spread over the insertions)
                                    let want = part.len() * i / p.creads;
                                    while over(true).iter().sum::<usize>() < want && left.load(SeqCst) > 0 {
                                        std::thread::yield_now();
                                    }
                                    let o = over(true);
                                    let v = guard(|| cread(h, ids, keys, rows, p, &mut r));
                                    let b = over(false);
                                    let v = match v {
                                        Ok(mut v) => {
                                            v["op"] = json!("cread");
                                            v["over"] = json!(o);
                                            v["begun"] = json!(b);
                                            v
                                        }
                                        Err(e) => json!({"op": "panic", "msg": format!("read during insertions: {}", e)}),
                                    };
                                    all.lock().unwrap().push(v);
                                }
                            });
                        }
                    })
                }
                2 => h.parallel_insert_slice(&part.iter().map(|i| (rows[*i].as_slice(), ids[*i])).collect()),
                _ => std::thread::scope(|s| {
                    for t in 0..4 {
                        let (h, part, rows, ids) = (&h, &part, &rows, &ids);
                        s.spawn(move || part.iter().skip(t).step_by(4).for_each(|i| h.insert_slice((rows[*i].as_slice(), ids[*i]))));
                    }
                }),
            }
        });
        if let Err(e) = e {
            steps.push(json!({"op": "panic", "msg": format!("insertions mode {}: {}", mode, e)}));
            failed = true;
            cur = obs(&h, &keys, n);
            break;
        }
        done = upto;
        let (mut v, o) = state("bulk", &h, r, done);
        v["mode"] = json!(mode);
        cur = o;
        steps.push(v);
        if done == bulk {
            break;
        }
    }
    steps.extend(creads);
    for (before, b) in cdumps {
        let form = r.gen_range(0..3);
        let b = match b {
            Ok(b) => b,
            Err(e) => {
                steps.push(json!({"op": "panic", "msg": format!("dump during insertions: {}", e)}));
                break;
            }
        };
        let mut o = ReloadOptions::default();
        if form == 1 {
            o.set_mmap(true);
        }
        if form == 2 {
            o.set_mmap_threshold(r.gen_range(0..n));
        }
        let io = Box::leak(Box::new(HnswIo::new_with_options(sc.path(), &b, o)));
        match guard(move || io.load_hnsw::<T, D>().map_err(|e| e.to_string())) {
            Ok(Ok(h2)) => {
                let (mut v, o) = state("cdump", &h2, r, n);
                v["before"] = json!(before);
                v["nb"] = Value::Array(o.pts.iter().map(nj).collect());
                v["form"] = json!(form);
                steps.push(v);
            }
            e => {
                steps.push(json!({"op": "panic", "msg": format!("load of a dump made during insertions: {:?}", e.map(|x| x.map(|_| ())))}));
                break;
            }
        }
    }
    let search = |h: &Hnsw<'static, T, D>, cur: &Obs, r: &mut StdRng, done: usize, filtered: bool| -> Value {
        let q = if r.gen_bool(0.1) { r.gen_range(0..done) } else { r.gen_range(n..rows.len()) };
        let k = *[1, 5, 10, 20, p.efmax].choose(r).unwrap();
        let ef = *[1, 10, 30, p.efmax].choose(r).unwrap();
        let mut acc: Vec<usize> = vec![];
        let pr = *[0.01, 0.1, 0.5, 0.9].choose(r).unwrap();
        if filtered {
            acc = (0..done).filter(|_| r.gen_bool(pr)).map(|i| ids[i]).collect();
            acc.sort();
        }
        let set: HashSet<usize> = acc.iter().cloned().collect();
        let clo = |id: &usize| set.contains(id);
        let form = r.gen_range(0..2);
        let go = || -> Vec<Neighbour> {
            if !filtered {
                h.search(&rows[q], k, ef)
            } else if form == 0 {
                h.search_filter(&rows[q], k, ef, Some(&acc as &dyn FilterT))
            } else {
                h.search_filter(&rows[q], k, ef, Some(&clo as &dyn FilterT))
            }
        };
        match guard(|| (go(), go())) {
            Ok((a, b)) => json!({"op": "srch", "q": q + 1, "k": k, "ef": ef, "fon": filtered, "acc": acc.iter().map(|i| keys[i]).collect::<Vec<_>>(),
                "ans": ans(&a, cur, &keys), "ans2": ans(&b, cur, &keys)}),
            Err(e) => json!({"op": "panic", "msg": format!("search {}", e)}),
        }
    };
    let flat = |h: &Hnsw<'static, T, D>| -> Value {
        match guard(|| {
            let f = FlatNeighborhood::from(h);
            let unknown = (0..50usize).map(|i| ids[i % n].wrapping_add(1 + i)).filter(|i| !keys.contains_key(i)).filter(|i| f.get_neighbours(*i).is_some()).count();
            (ids.iter().map(|i| f.get_neighbours(*i)).collect::<Vec<_>>(), unknown)
        }) {
            Ok((f, u)) => json!({"op": "flat", "unknown": u, "flat": f.into_iter().map(|x| match x {
                None => json!([[-1, -1]]),
                Some(v) => json!(v.iter().map(|b| (*keys.get(&b.d_id).unwrap_or(&0), int(b.distance))).collect::<Vec<_>>()),
            }).collect::<Vec<_>>()}),
            Err(e) => json!({"op": "panic", "msg": format!("flatten {}", e)}),
        }
    };
    if !failed {
        for rl in 0..=p.reloads {
            for _ in 0..p.nsrch {
                let f = r.gen_bool(0.4);
                steps.push(search(&h, &cur, r, done, f));
            }
            if p.npar > 0 {
                let qs: Vec<usize> = (0..p.npar).map(|_| r.gen_range(n..rows.len())).collect();
                let d: Vec<Vec<T>> = qs.iter().map(|q| rows[*q].clone()).collect();
                let (k, ef) = (r.gen_range(1..4), r.gen_range(1..12));
                let form = r.gen_bool(0.5);
                match guard(|| {
                    let s: Vec<_> = d.iter().map(|x| h.search(x, k, ef)).collect();
                    let q = if form { h.parallel_search(&d, k, ef) } else { h.parallel_search_neighbours(&d, k, ef) };
                    (s, q)
                }) {
                    Ok((s, q)) => steps.push(json!({"op": "psrch", "qs": qs.iter().map(|q| q + 1).collect::<Vec<_>>(), "k": k, "ef": ef,
                        "seq": s.iter().map(|a| ans(a, &cur, &keys)).collect::<Vec<_>>(), "par": q.iter().map(|a| ans(a, &cur, &keys)).collect::<Vec<_>>()})),
                    Err(e) => steps.push(json!({"op": "panic", "msg": format!("parallel search {}", e)})),
                }
            }
            if done == n {
                steps.push(flat(&h));
            }
            if rl == p.reloads {
                break;
            }
            let before = params(&h);
            let name = format!("l{}", r.gen_range(0..2));
            let form = r.gen_range(0..4);
            let thr = r.gen_range(0..n + 2);
            let io;
            match guard(|| h.file_dump(sc.path(), &name)) {
                Ok(Ok(b)) => {
                    let mut o = ReloadOptions::default();
                    if form == 2 {
                        o.set_mmap(true);
                    }
                    if form == 3 {
                        o.set_mmap_threshold(thr);
                    }
                    // the data file alone
                    steps.push(match guard(|| DataMap::from_hnswdump::<T>(sc.path(), &b)) {
                        Ok(Ok(m)) => {
                            let l: Vec<usize> = m.get_dataid_iter().cloned().collect();
                            let mut ab: Vec<usize> = ids.iter().cloned().filter(|i| !cur.pts[..done].iter().flatten().any(|p| p.id == *i)).collect();
                            ab.extend((0..20usize).map(|j| ids[j % n] ^ (1usize << (j * 3))).filter(|i| !keys.contains_key(i)));
                            json!({"op": "map", "nb": m.get_nb_data(), "chk": m.check_data_type::<T>(),
                                "ids": l.iter().map(|i| *keys.get(i).unwrap_or(&0)).collect::<Vec<_>>(),
                                "data": l.iter().map(|i| m.get_data::<T>(i).map(row).unwrap_or("none".into())).collect::<Vec<_>>(),
                                "absent": ab.iter().filter(|i| m.get_data::<T>(i).is_some()).count()})
                        }
                        e => json!({"op": "panic", "msg": format!("reading the data file: {:?}", e.map(|x| x.map(|_| ())))}),
                    });
                    io = Box::leak(Box::new(HnswIo::new_with_options(sc.path(), &b, o)));
                }
                e => {
                    steps.push(json!({"op": "panic", "msg": format!("file_dump: {:?}", e)}));
                    break;
                }
            }
            let d2 = dist.clone();
            match guard(move || if form == 1 { io.load_hnsw_with_dist::<T, D>(d2) } else { io.load_hnsw::<T, D>() }) {
                Ok(Ok(mut h2)) => {
                    h2.set_extend_candidates(c.ext);
                    h2.set_keeping_pruned(c.keep);
                    h = h2;
                    let (mut v, o) = state("reload", &h, r, done);
                    v["before"] = before;
                    v["after"] = params(&h);
                    v["form"] = json!(form);
                    cur = o;
                    steps.push(v);
                }
                Ok(Err(e)) => {
                    steps.push(json!({"op": "panic", "msg": format!("load form {}: {}", form, e)}));
                    break;
                }
                Err(e) => {
                    steps.push(json!({"op": "panic", "msg": format!("load form {}: {}", form, e)}));
                    break;
                }
            }
            // some insertions, one by one
            while done < n - p.last * (p.reloads - 1 - rl) / p.reloads {
                let e = guard(|| h.insert((rows[done].as_slice(), ids[done])));
                done += 1;
                let o = obs(&h, &keys, n);
                let chg: Vec<Value> = (0..n).filter(|i| *i != done - 1 && o.pts[*i] != cur.pts[*i]).map(|i| json!([i + 1, nj(&o.pts[i]), pj(&o.pts[i])])).collect();
                let v = match e {
                    Ok(_) => json!({"op": "ins", "k": done, "pos": pj(&o.pts[done - 1]), "nb": nj(&o.pts[done - 1]), "chg": chg, "odd": o.odd,
                        "nbp": o.nbp, "cnt": o.cnt, "mlo": o.mlo}),
                    Err(e) => json!({"op": "panic", "msg": format!("insert {}", e)}),
                };
                cur = o;
                steps.push(v);
            }
        }
    }
    out.line(&json!({"id": format!("large-{}-{}", tid, kind), "par": par_json(c), "n": n, "xs": xs, "rows": rows[..n].iter().map(|x| row(x)).collect::<Vec<_>>(),
        "ids": ids.iter().map(|x| idtok(*x)).collect::<Vec<_>>(), "cfg": format!("{:?}", c), "steps": steps}));
}

pub fn main(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 1) as usize;
    let pts = a.u("pts", 600) as usize;
    let huge = a.u("huge", 0) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    for t in 0..n {
        let mut r = rng(seed, 70000 + t as u64);
        let r = &mut r;
        let mut c = gen_cfg(r, 10);
        c.m = *[2usize, 4, 6, 12, 24, 48, 100].choose(r).unwrap();
        c.efc = *[3usize, 10, 20, 40].choose(r).unwrap();
        c.maxl = 16;
        // (width of the layer of integer coordinates, length of the vectors)
        let wide = r.gen_bool(a.s("wide", "0.2").parse().unwrap());
        let mut p = Plan {
            n: r.gen_range(pts / 3..=pts),
            last: r.gen_range(4..20),
            nq: 40,
            nsrch: a.u("srch", 5) as usize,
            npar: *[0, 50, 1100, 2500].choose(r).unwrap(),
            reloads: r.gen_range(1..3),
            efmax: 60,
            batch: 0,
            cdumps: a.u("cdumps", 0) as usize,
            creads: a.u("creads", 0) as usize,
        };
        let mut len = *[1usize, 2, 3, 20].choose(r).unwrap();
        if wide {
            len = *[255, 256, 300, 4096, 65535, 65536, 70000].choose(r).unwrap();
            p.n = r.gen_range(20..60);
            p.npar = 20;
        }
        let dense = huge == 0 && !wide && a.u("dense", 0) > 0;
        if dense {
            // lists with hundreds of neighbours
            c.m = *[100usize, 128, 200, 255, 256].choose(r).unwrap();
            c.efc = r.gen_range(257..400);
            c.keep = r.gen_bool(0.8);
            c.ext = r.gen_bool(0.2);
            c.factor = 1.;
            p.n = r.gen_range(285..370);
            p.last = 3;
            p.nsrch = p.nsrch.min(4);
            p.npar = 20;
            p.reloads = 1;
        }
        if huge > 0 {
            c.m = 2;
            c.factor = 0.2;
            c.efc = 2;
            c.ext = false;
            p = Plan { n: huge, last: 1, nq: 10, nsrch: 3, npar: 0, reloads: 1, efmax: 10, batch: 1 + t % 2, cdumps: 0, creads: 0 };
            len = 1;
        }
        let tot = p.n + p.nq;
        let two = len > 1 && r.gen_bool(0.5);
        let top: i64 = if two { 1 << 22 } else { 1 << 23 };
        let kind = if wide { r.gen_range(0..2) } else { r.gen_range(0..3) };
        let top = if kind == 2 { 65536 } else { top };
        let xs: Vec<Vec<i64>> = (0..tot).map(|_| (0..if two { 2 } else { 1 }).map(|_| r.gen_range(0..top)).collect()).collect();
        let at: Vec<usize> = if two { vec![len / 2, len - 1] } else { vec![len - 1] };
        macro_rules! rows {
            ($t:ty) => {
                xs.iter()
                    .map(|x| {
                        let mut v = vec![0 as $t; len];
                        for (a, x) in at.iter().zip(x) {
                            v[*a] += *x as $t;
                        }
                        v
                    })
                    .collect::<Vec<Vec<$t>>>()
            };
        }
        // with both coordinates at the same place the distance would be another
        let xs2 = xs.clone();
        if two && at[0] == at[1] {
            continue;
        }
        match kind {
            0 => session(t, "f32", &c, &p, &xs2, &rows!(f32), DistL1 {}, r, &mut out),
            1 => session(t, "i32", &c, &p, &xs2, &rows!(i32), DistL1 {}, r, &mut out),
            _ => session(t, "u16", &c, &p, &xs2, &rows!(u16), DistL1 {}, r, &mut out),
        }
    }
    out.flush();
    println!("sessions {}", out.n);
}

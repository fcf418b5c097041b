//! Sequential sessions: random insertions and searches on one index; every call is recorded with its effect on the whole index.
use crate::dist::*;
use crate::util::*;
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::filter::FilterT;
use hnsw_rs::hnsw::*;
use hnsw_rs::hnswio::*;
use serde::{de::DeserializeOwned, Serialize};
use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};
use std::collections::HashSet;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub m: usize,
    pub efc: usize,
    pub maxl: usize,
    pub ext: bool,
    pub keep: bool,
    pub factor: f64,
    pub nins: usize,
    pub nq: usize,
    /// 0 generator left alone, 1 geometric like forced levels, 2 uniform forced levels, 3 mostly 0
    pub levels: usize,
    pub srch: f64,
}

pub fn gen_cfg(r: &mut StdRng, maxn: usize) -> Cfg {
    let m = *[1usize, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 8, 256].choose(r).unwrap();
    let efc = *[1usize, 2, 3, 4, 6, 8, 12, 20].choose(r).unwrap();
    Cfg {
        m,
        efc,
        maxl: *[1usize, 2, 3, 4, 16, 16, 16, 40].choose(r).unwrap(),
        ext: r.gen_bool(0.4),
        keep: r.gen_bool(0.4),
        factor: if r.gen_bool(0.2) { 0.5 } else { 1. },
        nins: if r.gen_bool(0.3) {
            r.gen_range(0..5)
        } else {
            r.gen_range(4..=maxn.max(5))
        },
        nq: r.gen_range(2..6),
        levels: r.gen_range(0..4),
        srch: *[0.3, 0.6, 1.2].choose(r).unwrap(),
    }
}

pub fn gen_ids(r: &mut StdRng, n: usize) -> Vec<usize> {
    let style = r.gen_range(0..4);
    let mut ids: Vec<usize> = match style {
        0 => (0..n).collect(),
        1 => (0..n).rev().map(|i| i * 3 + 1).collect(),
        _ => {
            let mut s = HashSet::new();
            while s.len() < n {
                s.insert(match r.gen_range(0..4) {
                    0 => r.gen_range(0..2 * n + 4),
                    1 => r.gen::<u32>() as usize,
                    2 => r.gen::<u64>() as usize,
                    _ => usize::MAX - r.gen_range(0..n + 3),
                });
            }
            let mut v: Vec<usize> = s.into_iter().collect();
            v.sort();
            v.shuffle(r);
            v
        }
    };
    if style == 2 {
        ids.shuffle(r);
    }
    ids
}

pub struct Tracer<'a, 'b, T: Clone + Send + Sync, D: Distance<T>> {
    pub h: &'a Hnsw<'b, T, D>,
    pub keys: &'a Keys,
    pub prev: Snap,
}

/// JSON difference of two snapshots
pub fn diff(prev: &Snap, cur: &Snap, keys: &Keys) -> (Value, Value, Value) {
    let a = prev.lists(keys);
    let b = cur.lists(keys);
    let mut chg = vec![];
    let mut ks: Vec<_> = b.keys().cloned().collect();
    ks.sort();
    for k in ks {
        if a.get(&k) != Some(&b[&k]) {
            chg.push(json!([k, b[&k]]));
        }
    }
    let pa = prev.positions(keys);
    let pb = cur.positions(keys);
    let pa = pa.as_array().unwrap();
    let pb = pb.as_array().unwrap();
    let sa: HashSet<String> = pa.iter().map(|v| v.to_string()).collect();
    let sb: HashSet<String> = pb.iter().map(|v| v.to_string()).collect();
    let add: Vec<Value> = pb.iter().filter(|v| !sa.contains(&v.to_string())).cloned().collect();
    let del: Vec<Value> = pa.iter().filter(|v| !sb.contains(&v.to_string())).cloned().collect();
    (Value::Array(chg), Value::Array(add), Value::Array(del))
}

pub fn answer(a: &[Neighbour], s: &Snap, keys: &Keys) -> Value {
    let km = s.keymap(keys);
    Value::Array(
        a.iter()
            .map(|n| {
                json!([
                    *km.get(&(n.p_id.0, n.p_id.1)).unwrap_or(&0),
                    bits(n.get_distance()),
                    if n.get_origin_id() == n.d_id && n.get_distance().to_bits() == n.distance.to_bits() { *keys.get(&n.d_id).unwrap_or(&0) } else { 0 }
                ])
            })
            .collect(),
    )
}

pub fn dist_matrix<T: Clone + Send + Sync, D: Distance<T>>(rows: &[Vec<T>], d: &D) -> Vec<Vec<i64>> {
    rows.iter()
        .enumerate()
        .map(|(i, a)| {
            rows.iter()
                .enumerate()
                .map(|(j, b)| if i == j { 0 } else { bits(d.eval(a, b)) })
                .collect()
        })
        .collect()
}

pub fn plan_level(style: usize, maxl: usize, m: usize, r: &mut StdRng) -> Option<usize> {
    let top = maxl.min(16) - 1;
    match style {
        0 => None,
        1 => {
            let mut l = 0;
            while r.gen_bool(1. / (m.max(2) as f64)) && l < top {
                l += 1;
            }
            Some(l)
        }
        2 => Some(r.gen_range(0..=top.min(3))),
        _ => Some(if r.gen_bool(0.15) { r.gen_range(0..=top.min(4)) } else { 0 }),
    }
}

pub fn par_json(c: &Cfg) -> Value {
    json!({"M": c.m, "efc": c.efc, "maxl": c.maxl.min(16), "ext": c.ext, "keep": c.keep})
}

/// all one point queries of the index: counts, iterators, lookups
pub fn views<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(
    h: &Hnsw<T, D>,
    s: &Snap,
    keys: &Keys,
    maxl: usize,
    r: &mut StdRng,
) -> Value {
    let pi = h.get_point_indexation();
    let it: Vec<i64> = pi
        .into_iter()
        .take(s.pts.len() + 5)
        .map(|p| *keys.get(&p.get_origin_id()).unwrap_or(&0))
        .collect();
    // an exhausted iterator stays exhausted
    let mut iter = pi.into_iter();
    let mut n = 0;
    while iter.next().is_some() && n < s.pts.len() + 5 {
        n += 1;
    }
    let again = iter.next().is_some();
    drop(iter);
    let mut look = vec![];
    let mut probes: Vec<(u8, i32)> = s.pts.iter().map(|p| (p.l as u8, p.r as i32)).collect();
    if probes.len() > 8 {
        probes.shuffle(r);
        probes.truncate(8);
    }
    for l in 0..maxl.min(16) {
        probes.push((l as u8, s.cnt[l] as i32));
        probes.push((l as u8, s.cnt[l] as i32 + 1 + r.gen_range(0..1000)));
    }
    probes.push((0, -1));
    probes.push((0, i32::MIN));
    probes.push((0, i32::MAX));
    probes.push((maxl.min(16) as u8, 0));
    probes.push((255, 0));
    for (l, rk) in probes {
        let v = match pi.get_point_data(&PointId(l, rk)) {
            Some(v) => hex(&v),
            None => "none".to_string(),
        };
        look.push(json!([l, rk, v]));
    }
    let mut oob = vec![];
    for l in [maxl.min(16), 16, 17, 200, 255, 1000] {
        if l >= maxl.min(16) {
            oob.push(pi.get_layer_nb_point(l));
        }
    }
    json!({"it": it, "again": again, "look": look, "oob": oob, "nbp2": pi.get_nb_point(), "dim": pi.get_data_dimension()})
}

thread_local! {
    /// the last query of the session, asked again from time to time
    static LAST: std::cell::Cell<Option<(usize, usize, usize)>> = const { std::cell::Cell::new(None) };
}

#[allow(clippy::too_many_arguments)]
pub fn one_search<T, D>(
    h: &Hnsw<T, D>,
    rows: &[Vec<T>],
    ids: &[usize],
    nins: usize,
    ninserted: usize,
    s: &Snap,
    keys: &Keys,
    r: &mut StdRng,
    force_filter: Option<bool>,
) -> Value
where
    T: Clone + Send + Sync + 'static + Serialize + DeserializeOwned,
    D: Distance<T> + Send + Sync,
{
    let q = if r.gen_bool(0.15) && ninserted > 0 {
        r.gen_range(0..ninserted)
    } else {
        r.gen_range(nins..rows.len())
    };
    let k = match r.gen_range(0..21) {
        0..=3 => 1,
        20 => *[1000, 65536, usize::MAX].choose(r).unwrap(),
        4..=7 => r.gen_range(0..=ninserted + 2),
        _ => r.gen_range(1..=(ninserted / 2 + 2)),
    };
    let ef = match r.gen_range(0..21) {
        0..=3 => ninserted + r.gen_range(0..3),
        4..=7 => r.gen_range(0..3),
        20 => *[1000, 65536, usize::MAX].choose(r).unwrap(),
        _ => r.gen_range(1..=(ninserted / 2 + 2)),
    };
    let (q, k, ef) = if r.gen_bool(0.2) { LAST.with(|l| l.get()).unwrap_or((q, k, ef)) } else { (q, k, ef) };
    LAST.with(|l| l.set(Some((q, k, ef))));
    let filtered = force_filter.unwrap_or(r.gen_bool(0.35));
    let mut filt: Option<Vec<i64>> = None;
    let run: Box<dyn Fn() -> Vec<Neighbour>> = if filtered {
        let p = *[0., 0.1, 0.3, 0.6, 1.].choose(r).unwrap();
        let mut acc: Vec<usize> = (0..ninserted).filter(|_| r.gen_bool(p)).map(|i| ids[i]).collect();
        filt = Some(acc.iter().map(|i| keys[i]).collect());
        // ids that are not in the index may be accepted as well
        for _ in 0..r.gen_range(0..4) {
            let x = r.gen::<u64>() as usize;
            if !keys.contains_key(&x) {
                acc.push(x);
            }
        }
        acc.sort();
        let form = r.gen_range(0..3);
        let qv = rows[q].clone();
        Box::new(move || match form {
            0 => h.search_filter(&qv, k, ef, Some(&acc as &dyn FilterT)),
            1 => {
                let a2: HashSet<usize> = acc.iter().cloned().collect();
                let f = |id: &usize| a2.contains(id);
                h.search_filter(&qv, k, ef, Some(&f as &dyn FilterT))
            }
            _ => {
                let a2: HashSet<usize> = acc.iter().cloned().collect();
                let f = |id: &usize| a2.contains(id);
                h.search_possible_filter(&qv, k, ef, Some(&f as &dyn FilterT))
            }
        })
    } else {
        let form = r.gen_range(0..4);
        let qv = rows[q].clone();
        Box::new(move || match form {
            0 => h.search(&qv, k, ef),
            1 => h.search_neighbours(&qv, k, ef),
            2 => h.search_filter(&qv, k, ef, None),
            _ => h.search_possible_filter(&qv, k, ef, None),
        })
    };
    let mut v = json!({"op": "srch", "q": q + 1, "k": k.min(1000000000), "ef": ef.min(1000000000), "fon": filt.is_some(), "acc": filt.unwrap_or_default()});
    match guard(|| {
        let a = run();
        let b = run();
        (a, b)
    }) {
        Ok((a, b)) => {
            v["ans"] = answer(&a, s, keys);
            v["ans2"] = answer(&b, s, keys);
        }
        Err(e) => {
            v["op"] = json!("panic");
            v["msg"] = json!(format!("search: {}", e));
        }
    }
    v
}

pub fn make_index<'b, T, D>(c: &Cfg, dist: D) -> Hnsw<'b, T, D>
where
    T: Clone + Send + Sync + 'b,
    D: Distance<T> + Send + Sync,
{
    let mut h = Hnsw::<T, D>::new(c.m, 20, c.maxl, c.efc, dist);
    h.set_extend_candidates(c.ext);
    h.set_keeping_pruned(c.keep);
    if c.factor < 1. {
        h.modify_level_scale(c.factor);
    }
    h
}

pub fn insert_one<T, D>(h: &Hnsw<T, D>, row: &Vec<T>, id: usize, form: usize)
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    match form {
        0 | 1 => h.insert((row.as_slice(), id)),
        2 => h.insert_slice((row.as_slice(), id)),
        3 => h.parallel_insert(&[(row, id)]),
        _ => h.parallel_insert_slice(&vec![(row.as_slice(), id)]),
    }
}

pub fn params<T, D>(h: &Hnsw<T, D>) -> Value
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    let pi = h.get_point_indexation();
    json!({"M": h.get_max_nb_connection(), "efc": h.get_ef_construction(), "scale": format!("s{:016x}", pi.get_level_scale().to_bits()),
        "maxl": h.get_max_level(), "dist": h.get_distance_name(), "dim": pi.get_data_dimension()})
}

/// dump and reload of the index, in one of several ways; None: the dump was refused (the step then is `nodump`) or failed
pub fn one_reload<T, D>(h: &Hnsw<'static, T, D>, c: &Cfg, dist: D, dir: &std::path::Path, r: &mut StdRng) -> (Value, Option<Hnsw<'static, T, D>>)
where
    T: Clone + Send + Sync + 'static + Serialize + DeserializeOwned + std::fmt::Debug,
    D: Distance<T> + Send + Sync + Clone + Default + 'static,
{
    let before = params(h);
    let name = format!("r{}", r.gen_range(0..3));
    let dumped = match guard(|| h.file_dump(dir, &name)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return (json!({"op": "nodump", "msg": e.to_string()}), None),
        Err(e) => return (json!({"op": "panic", "msg": format!("file_dump: {}", e)}), None),
    };
    let form = r.gen_range(0..4);
    let thr = r.gen_range(0..h.get_nb_point() + 2);
    let mut o = ReloadOptions::default();
    if form == 2 {
        o.set_mmap(true);
    }
    if form == 3 {
        o.set_mmap_threshold(thr);
    }
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new_with_options(dir, &dumped, o)));
    let res = guard(move || if form == 1 { io.load_hnsw_with_dist::<T, D>(dist) } else { io.load_hnsw::<T, D>() });
    match res {
        Ok(Ok(mut h2)) => {
            h2.set_extend_candidates(c.ext);
            h2.set_keeping_pruned(c.keep);
            let after = params(&h2);
            (json!({"op": "reload", "form": form, "thr": thr, "before": before, "after": after}), Some(h2))
        }
        Ok(Err(e)) => (json!({"op": "noload", "msg": format!("form {} thr {}: {}", form, thr, e)}), None),
        Err(e) => (json!({"op": "panic", "msg": format!("load form {}: {}", form, e)}), None),
    }
}

#[allow(clippy::too_many_arguments)]
pub fn session<T, D>(
    tid: usize,
    kind: &str,
    c: &Cfg,
    rows: &[Vec<T>],
    dist: D,
    r: &mut StdRng,
    fo: &mut Forcer,
    out: &mut Out,
    full: bool,
    filt: Option<bool>,
    reload: f64,
) where
    T: Clone + Send + Sync + 'static + Serialize + DeserializeOwned + std::fmt::Debug,
    D: Distance<T> + Send + Sync + Clone + Default + 'static,
{
    let dm = dist_matrix(rows, &dist);
    for i in 0..dm.len() {
        for j in 0..dm.len() {
            if dm[i][j] < 0 || dm[i][j] != dm[j][i] {
                return; // not a symmetric distance on these rows
            }
        }
    }
    LAST.with(|l| l.set(None));
    // in some sessions the options of the insertions change from one insertion to another
    let mut c = c.clone();
    let flips = r.gen_bool(0.25);
    let par = par_json(&c);
    let ids = gen_ids(r, c.nins);
    let keys: Keys = ids.iter().enumerate().map(|(i, id)| (*id, i as i64 + 1)).collect();
    let mut h: Hnsw<'static, T, D> = make_index(&c, dist.clone());
    let mut twin: Option<(Hnsw<'static, T, D>, Snap)> = None;
    let mut reloaded = false;
    let scratch = if reload > 0. { Some(Scratch::new("seq")) } else { None };
    let mut steps: Vec<Value> = vec![];
    let mut prev = snap(&h);
    let push = |mut v: Value, prev: &mut Snap, h: &Hnsw<T, D>, r: &mut StdRng| -> Value {
        let cur = snap(h);
        let (chg, add, del) = diff(prev, &cur, &keys);
        v["chg"] = chg;
        v["add"] = add;
        v["del"] = del;
        v["nbp"] = json!(cur.nbp);
        v["cnt"] = json!(cur.cnt);
        v["mlo"] = json!(cur.mlo);
        v["full"] = json!(full);
        if full {
            match guard(|| views(h, &cur, &keys, c.maxl, r)) {
                Ok(x) => v["view"] = x,
                Err(e) => {
                    v = json!({"op": "panic", "msg": format!("views: {}", e)});
                }
            }
        }
        *prev = cur;
        v
    };
    let nsearch = |r: &mut StdRng| {
        let mut n = c.srch.floor() as usize;
        if r.gen_bool(c.srch.fract()) {
            n += 1;
        }
        n
    };
    let mut done = 0;
    let searching = r.gen_bool(0.2);
    if full {
        steps.push(push(json!({"op": "none"}), &mut prev, &h, r));
    }
    loop {
        for _ in 0..nsearch(r) {
            let mut r2 = r.clone();
            let mut v = one_search(&h, rows, &ids, c.nins, done, &prev, &keys, r, filt);
            v["re"] = json!(reloaded);
            v["tw"] = json!(twin.is_some());
            if let Some((tw, tp)) = &twin {
                let w = one_search(tw, rows, &ids, c.nins, done, tp, &keys, &mut r2, filt);
                v["twans"] = w["ans"].clone();
            }
            steps.push(push(v, &mut prev, &h, r));
        }
        if done == c.nins {
            break;
        }
        if reload > 0. && r.gen_bool(reload) {
            match one_reload(&h, &c, dist.clone(), scratch.as_ref().unwrap().path(), r) {
                (v, Some(h2)) => {
                    let old = std::mem::replace(&mut h, h2);
                    if !reloaded {
                        let s = snap(&old);
                        twin = Some((old, s));
                    }
                    reloaded = true;
                    steps.push(push(v, &mut prev, &h, r));
                }
                (v, None) => {
                    let stop = v["op"] != "nodump";
                    steps.push(push(v, &mut prev, &h, r));
                    if stop {
                        break;
                    }
                }
            }
        }
        let want = plan_level(c.levels, c.maxl, c.m, r);
        let mut seed = None;
        if let Some(l) = want {
            seed = fo.seed(c.m, c.maxl, c.factor, l, r);
            parking_lot::sched::reseed_next(seed);
        }
        let form = r.gen_range(0..7);
        let form = if want.is_some() && (form == 3 || form > 4) { 0 } else { form };
        if searching && r.gen_bool(0.7) {
            h.set_searching_mode(false);
        }
        if flips {
            c.ext = r.gen();
            c.keep = r.gen();
            h.set_extend_candidates(c.ext);
            h.set_keeping_pruned(c.keep);
            if let Some((tw, _)) = twin.as_mut() {
                tw.set_extend_candidates(c.ext);
                tw.set_keeping_pruned(c.keep);
            }
        }
        let e = guard(|| match form {
            4 => h.insert_data(rows[done].as_slice(), ids[done]),
            5 => h.parallel_insert_data(&[(&rows[done], ids[done])]),
            _ => insert_one(&h, &rows[done], ids[done], form),
        });
        if searching {
            h.set_searching_mode(true);
        }
        parking_lot::sched::reseed_next(None);
        let mut twchg = None;
        if let Some((tw, tp)) = twin.as_mut() {
            parking_lot::sched::reseed_next(seed);
            let e = guard(|| insert_one(tw, &rows[done], ids[done], 0));
            parking_lot::sched::reseed_next(None);
            let cur = snap(tw);
            if e.is_ok() && seed.is_some() {
                let (chg, add, _) = diff(tp, &cur, &keys);
                twchg = Some((chg, add));
                *tp = cur;
            } else {
                twin = None;
            }
        }
        let v = match e {
            Ok(_) => json!({"op": "ins", "k": done + 1, "ext": c.ext, "keep": c.keep}),
            Err(e) => json!({"op": "panic", "msg": format!("insert: {}", e)}),
        };
        done += 1;
        let panicked = v["op"] == "panic";
        let mut v = push(v, &mut prev, &h, r);
        if v["op"] == "ins" {
            let l = prev.pts.iter().find(|p| p.id == ids[done - 1]).map(|p| p.l as i64).unwrap_or(-1);
            v["lvl"] = json!(l);
            v["re"] = json!(reloaded);
            // the original index got the same point at the same level
            v["tw"] = json!(false);
            if let Some((chg, add)) = twchg {
                if add[0][1] == v["add"][0][1] {
                    v["tw"] = json!(true);
                    v["twchg"] = chg;
                    v["twadd"] = add;
                } else {
                    twin = None;
                }
            }
        }
        steps.push(v);
        if panicked {
            break;
        }
    }
    let line = json!({
        "id": format!("seq-{}-{}", tid, kind), "par": par, "D": dm, "n": c.nins,
        "rows": rows.iter().map(|x| hex(x)).collect::<Vec<_>>(),
        "dims": rows.iter().map(|x| x.len()).collect::<Vec<_>>(),
        "ids": ids.iter().map(|x| idtok(*x)).collect::<Vec<_>>(),
        "cfg": format!("{:?}", c), "steps": steps });
    out.line(&line);
}

pub fn rand_matrix(r: &mut StdRng, n: usize, ties: bool) -> Vec<Vec<f32>> {
    let mut d = vec![vec![0f32; n]; n];
    let style = r.gen_range(0..4);
    let mut used = HashSet::new();
    let (px, py): (Vec<f32>, Vec<f32>) = ((0..n).map(|_| r.gen()).collect(), (0..n).map(|_| r.gen()).collect());
    for i in 0..n {
        for j in i + 1..n {
            let x = loop {
                let x: f32 = if ties {
                    match style {
                        0 => r.gen_range(0..3) as f32,
                        1 => r.gen_range(1..6) as f32,
                        2 => ((px[i] - px[j]).abs() * 6.).floor() + ((py[i] - py[j]).abs() * 6.).floor(),
                        _ => 1.,
                    }
                } else {
                    match style {
                        0 => f32::from_bits(r.gen_range(1..0x7f7fffff)),
                        1 => r.gen_range(0.0001..1.),
                        2 => 1. + r.gen_range(1..60000) as f32 * f32::EPSILON, // nearly equal
                        _ => ((px[i] - px[j]).powi(2) + (py[i] - py[j]).powi(2)) as f32,
                    }
                };
                if ties || (x > 0. && used.insert(x.to_bits())) {
                    break x;
                }
                if !ties && style == 3 {
                    // coincident points: perturb
                    let y = r.gen_range(0.5..3f32);
                    used.insert(y.to_bits());
                    break y;
                }
            };
            d[i][j] = x;
            d[j][i] = x;
        }
    }
    d
}

/// each point is at distinct distances of the previous ones, but the same distance is found between many pairs: the
/// comparisons of distances between different pairs meet equality
fn cross_ties(r: &mut StdRng, n: usize) -> Vec<Vec<f32>> {
    let mut d = vec![vec![0f32; n]; n];
    let reuse = *[0.3, 0.7, 0.95].choose(r).unwrap();
    let mut pool: Vec<f32> = vec![];
    for x in 1..n {
        let mut row: Vec<f32> = vec![];
        for y in 0..x {
            let v = loop {
                // the distance of y to another point, if possible
                let v = if y > 0 && r.gen_bool(reuse) {
                    let z = r.gen_range(0..x);
                    if z == y { pool[r.gen_range(0..pool.len())] } else { d[y][z] }
                } else {
                    r.gen_range(0.5..2f32)
                };
                if v > 0. && !row.contains(&v) {
                    break v;
                }
                let w = r.gen_range(0.5..2f32);
                if r.gen_bool(0.3) && !row.contains(&w) {
                    break w;
                }
            };
            row.push(v);
            pool.push(v);
            d[x][y] = v;
            d[y][x] = v;
        }
    }
    d
}

pub fn main(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 20) as usize;
    let maxn = a.u("maxn", 16) as usize;
    let full = a.u("full", 0) == 1;
    let ties = a.u("ties", 1) == 1;
    let filt = match a.u("filter", 2) {
        0 => Some(false),
        1 => Some(true),
        _ => None,
    };
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    let first = a.u("first", 0) as usize;
    let reload: f64 = a.s("reload", "0").parse().unwrap();
    for t in first..first + n {
        let mut r = rng(seed, t as u64);
        let r = &mut r;
        let mut c = gen_cfg(r, maxn);
        if a.has("big") {
            c.nins = r.gen_range(maxn / 2..=maxn);
            c.efc = *[4usize, 8, 16, 30].choose(r).unwrap();
            c.nq = 4;
            if c.maxl < 4 && r.gen_bool(0.5) {
                c.maxl = 16;
            }
        }
        if reload > 0. {
            if c.maxl < 16 && r.gen_bool(0.85) {
                c.maxl = 16;
            }
            if c.levels == 0 && r.gen_bool(0.7) {
                c.levels = 1;
            }
        }
        if a.has("srch") {
            c.srch = a.s("srch", "1").parse().unwrap();
        }
        let tot = c.nins + c.nq;
        let kind = if ties { r.gen_range(0..10) } else { *[0usize, 1, 2, 3, 4, 8].choose(r).unwrap() };
        match kind {
            0..=2 => {
                set_table(rand_matrix(r, tot, false));
                let rows: Vec<Vec<u32>> = (0..tot as u32).map(|i| vec![i]).collect();
                session(t, "mat", &c, &rows, MatDist, r, &mut fo, &mut out, full, filt, reload);
            }
            3 => {
                let d = r.gen_range(1..5);
                let rows: Vec<Vec<f32>> = (0..tot).map(|_| (0..d).map(|_| r.gen::<f32>()).collect()).collect();
                session(t, "l2", &c, &rows, DistL2 {}, r, &mut fo, &mut out, full, filt, reload);
            }
            4 => {
                let d = r.gen_range(1..12);
                let rows: Vec<Vec<f32>> = (0..tot).map(|_| (0..d).map(|_| r.gen::<f32>() - 0.5).collect()).collect();
                session(t, "l1", &c, &rows, DistL1 {}, r, &mut fo, &mut out, full, filt, reload);
            }
            5 => {
                set_table(rand_matrix(r, tot, true));
                let rows: Vec<Vec<u32>> = (0..tot as u32).map(|i| vec![i]).collect();
                session(t, "tie", &c, &rows, MatDist, r, &mut fo, &mut out, full, filt, reload);
            }
            6 => {
                // variable lengths, possibly empty or equal vectors
                let rows: Vec<Vec<u16>> = (0..tot)
                    .map(|_| (0..r.gen_range(0..7)).map(|_| r.gen_range(97..101)).collect())
                    .collect();
                session(t, "lev", &c, &rows, DistLevenshtein {}, r, &mut fo, &mut out, full, filt, reload);
            }
            8 | 9 => {
                set_table(cross_ties(r, tot));
                let rows: Vec<Vec<u32>> = (0..tot as u32).map(|i| vec![i]).collect();
                session(t, "cross", &c, &rows, MatDist, r, &mut fo, &mut out, full, filt, reload);
            }
            _ => {
                let d = r.gen_range(1..9);
                let rows: Vec<Vec<u8>> = (0..tot).map(|_| (0..d).map(|_| r.gen_range(0..3)).collect()).collect();
                session(t, "ham", &c, &rows, DistHamming {}, r, &mut fo, &mut out, full, filt, reload);
            }
        }
    }
    out.flush();
    println!("sessions {} forced {}", out.n, fo.works);
    let _: Option<&dyn AnnT<Val = u32>> = None;
}

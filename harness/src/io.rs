//! Dump and reload: histories of operations on a directory of dumps (`files`), the format of the files (`fmt`), and
//! interrupted dumps (`crash`).
use crate::dist::*;
use crate::seq::{gen_ids, insert_one, params, plan_level};
use crate::util::*;
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnsw::*;
use hnsw_rs::hnswio::*;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::any::type_name;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};

pub trait El: Clone + Send + Sync + 'static + Serialize + DeserializeOwned + std::fmt::Debug {}
impl<T> El for T where T: Clone + Send + Sync + 'static + Serialize + DeserializeOwned + std::fmt::Debug {}
pub trait Di<T: Send + Sync>: Distance<T> + Send + Sync + Clone + Default + 'static {}
impl<T: Send + Sync, D> Di<T> for D where D: Distance<T> + Send + Sync + Clone + Default + 'static {}

pub fn dbits(d: f32) -> i64 {
    // sign apart: the specification only compares
    if d.is_sign_negative() && d != 0. {
        -((d.to_bits() & 0x7fffffff) as i64)
    } else {
        (d.to_bits() & 0x7fffffff) as i64
    }
}

/// lists of a point, equal distances in the order of positions
fn lists<T: Clone + Send + Sync>(p: &Point<T>) -> Value {
    let mut nb: Vec<Vec<Value>> = p
        .get_neighborhood_id()
        .iter()
        .map(|v| {
            let mut w: Vec<_> = v.iter().map(|n| (dbits(n.distance), n.p_id.0, n.p_id.1, n.d_id)).collect();
            let sorted = w.windows(2).all(|x| x[0].0 <= x[1].0);
            w.sort();
            let mut r: Vec<Value> = w.iter().map(|(d, l, r, id)| json!([l, r, idtok(*id), d])).collect();
            if !sorted {
                r.push(json!("unsorted"));
            }
            r
        })
        .collect();
    while nb.last().map(|x| x.is_empty()).unwrap_or(false) {
        nb.pop();
    }
    json!(nb)
}

/// the entry point of an index, as it writes it at the end of a dump
pub fn entry<T, D>(h: &Hnsw<T, D>, scratch: &Path) -> String
where
    T: Clone + Send + Sync + Serialize + DeserializeOwned,
    D: Distance<T> + Send + Sync,
{
    if h.get_nb_point() == 0 {
        return String::new();
    }
    match guard(|| h.file_dump(scratch, "e")) {
        Ok(Ok(b)) => {
            let gb = read(scratch, &b, "graph");
            for x in ["graph", "data"] {
                let _ = std::fs::remove_file(scratch.join(format!("{}.hnsw.{}", b, x)));
            }
            hex(&gb[gb.len().saturating_sub(13)..])
        }
        _ => String::new(),
    }
}

/// everything an index says about itself
pub fn content<T, D>(h: &Hnsw<T, D>, data: bool) -> Value
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    let pi = h.get_point_indexation();
    let mut pts = vec![];
    let mut cnt = vec![];
    for l in 0..h.get_max_level() {
        cnt.push(pi.get_layer_nb_point(l));
        for (r, p) in pi.get_layer_iterator(l).enumerate() {
            let pid = p.get_point_id();
            let d = if data { hex(p.get_v()) } else { "x".to_string() };
            // the point looked up by its position is that point
            let same = !data || pi.get_point_data(&pid).map(|v| hex(&v)) == Some(hex(p.get_v()));
            pts.push(json!([l, r, idtok(p.get_origin_id()), d, lists(&p), pid.0, pid.1, same]));
        }
    }
    let mut par = params(h);
    if !data {
        par["dist"] = json!("");
        par["dim"] = json!(0);
    }
    json!({"par": par, "pts": pts, "cnt": cnt, "nbp": h.get_nb_point(), "mlo": h.get_max_level_observed()})
}

pub fn fnv(b: &[u8]) -> String {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("h{:016x}", h)
}

/// content of the files of a crowd (no dump has that length)
const CROWD: &[u8] = b"crowd";

/// name of each file of the directory with its length and content
pub fn listing(dir: &Path) -> Value {
    let mut m = BTreeMap::new();
    let (mut crowd, mut h) = (0, 0u64);
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let me = e.metadata().unwrap();
        if me.len() == CROWD.len() as u64 {
            // a file of a crowd: they are listed together
            crowd += 1;
            h ^= u64::from_str_radix(&fnv(e.file_name().to_string_lossy().as_bytes())[1..], 16).unwrap();
            continue;
        }
        if me.is_file() {
            let b = std::fs::read(e.path()).unwrap();
            m.insert(e.file_name().to_string_lossy().to_string(), (b.len(), fnv(&b)));
        }
    }
    if crowd > 0 {
        m.insert("crowd".to_string(), (crowd, format!("{:016x}", h)));
    }
    json!(m.iter().map(|(k, v)| json!([k, v.0, v.1])).collect::<Vec<_>>())
}

pub fn read(dir: &Path, base: &str, ext: &str) -> Vec<u8> {
    std::fs::read(dir.join(format!("{}.hnsw.{}", base, ext))).unwrap_or_default()
}

pub fn ints(b: &[u8]) -> Value {
    json!(b)
}

fn leak(dir: &Path, base: &str, o: ReloadOptions, r: &mut StdRng) -> &'static mut HnswIo {
    let mut io = match r.gen_range(0..3) {
        0 => HnswIo::new_with_options(dir, base, o),
        1 => {
            let mut io = HnswIo::new(dir, base);
            io.set_options(o);
            io
        }
        _ => {
            let mut io = HnswIo::default();
            io.set_values(dir, base.to_string(), o).expect("set_values");
            io
        }
    };
    io.set_options(o);
    Box::leak(Box::new(io))
}

pub fn options(form: usize, thr: usize) -> ReloadOptions {
    let mut o = ReloadOptions::default();
    if form == 2 {
        o.set_mmap(true);
    }
    if form == 3 {
        o.set_mmap_threshold(thr);
    }
    o
}

/// forms: 0 load_hnsw, 1 load_hnsw_with_dist, 2 load_hnsw mmap, 3 load_hnsw mmap above a threshold,
/// 4 load_hnsw_with_dist with an HnswIo that has already mapped the file
pub fn load<T: El, D: Di<T>>(dir: &Path, base: &str, form: usize, thr: usize, d: D, r: &mut StdRng) -> Result<Hnsw<'static, T, D>, String> {
    let o = options(if form == 4 { 2 + (thr % 2) } else { form }, thr);
    let res = guard(|| {
        let io = leak(dir, base, o, r);
        match form {
            1 => io.load_hnsw_with_dist::<T, D>(d),
            4 => {
                let p = io as *mut HnswIo;
                {
                    // the first index is dropped before the second load
                    let a: Hnsw<T, D> = unsafe { (*p).load_hnsw::<T, D>()? };
                    drop(a);
                }
                unsafe { (*p).load_hnsw_with_dist::<T, D>(d) }
            }
            _ => io.load_hnsw::<T, D>(),
        }
    });
    match res {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(format!("err: {}", e)),
        Err(e) => Err(format!("panic: {}", e)),
    }
}

pub fn outcome<X>(r: &Result<X, String>) -> i64 {
    match r {
        Ok(_) => 1,
        Err(e) if e.starts_with("err") => 0,
        _ => 2,
    }
}

pub fn load_nodata(dir: &Path, base: &str, form: usize, thr: usize) -> Result<Hnsw<'static, NoData, NoDist>, String> {
    let o = options(form, thr);
    match guard(|| {
        let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new_with_options(dir, base, o)));
        if form == 1 {
            io.load_hnsw_with_dist::<NoData, NoDist>(NoDist {})
        } else {
            io.load_hnsw::<NoData, NoDist>()
        }
    }) {
        Ok(Ok(h)) => Ok(h),
        Ok(Err(e)) => Err(format!("err: {}", e)),
        Err(e) => Err(format!("panic: {}", e)),
    }
}

// ------------------------------------------------------------------------------------------------
// the pairs of types and distances used for refused loads

macro_rules! combos {
    ($($n:expr => $t:ty, $d:ty);* $(;)?) => {
        pub const NCOMBO: usize = [$($n),*].len();
        pub fn combo_name(i: usize) -> (String, String) {
            match i {
                $($n => (type_name::<$t>().to_string(), type_name::<$d>().to_string()),)*
                _ => unreachable!(),
            }
        }
        pub fn load_combo(i: usize, dir: &Path, base: &str, form: usize, thr: usize, r: &mut StdRng) -> Result<(), String> {
            match i {
                $($n => load::<$t, $d>(dir, base, form, thr, <$d>::default(), r).map(|_| ()),)*
                _ => unreachable!(),
            }
        }
        pub fn check_combos(m: &DataMap) -> Vec<(String, bool)> {
            vec![$((type_name::<$t>().to_string(), m.check_data_type::<$t>())),*]
        }
        pub fn map_combo(i: usize, dir: &Path, base: &str) -> Result<(), String> {
            match i {
                $($n => match guard(|| DataMap::from_hnswdump::<$t>(dir, base)) {
                    Ok(Ok(_)) => Ok(()),
                    Ok(Err(e)) => Err(format!("err: {}", e)),
                    Err(e) => Err(format!("panic: {}", e)),
                },)*
                _ => unreachable!(),
            }
        }
    };
}
combos! {
    0 => f32, DistL1;
    1 => f32, DistL2;
    2 => f32, DistCosine;
    3 => u8, DistL1;
    4 => u8, DistHamming;
    5 => u16, DistLevenshtein;
    6 => u16, DistHamming;
    7 => i32, DistL1;
    8 => u32, DistL1;
    9 => u32, DistJaccard;
    10 => u32, MatDist;
    11 => f32, DistDot;
    12 => u64, DistHamming;
    13 => i32, DistHamming;
    14 => f32, NoDist;
    15 => u8, NoDist;
    16 => u64, NoDist;
    17 => u32, NoDist;
    18 => f32, MyDistL1;
    19 => f32, DistL1Bis;
    20 => f32, Wrap1<DistL1>;
    21 => f32, Wrap2<DistL1>;
    22 => f32, LongDist;
    23 => PtA, DistPt;
    24 => PtB, DistPt;
    25 => LongEl, DistPt;
    26 => PtA, Wrap1<DistPt>;
    27 => u8, Wrap1<DistL1>;
    28 => f32, Wrap1<DistL2>;
    29 => f32, Wrap1<DistL1Bis>;
    30 => f32, Wrap1<Wrap1<DistL1>>;
    31 => Deep<PtA>, DistPt;
    32 => Deep<PtB>, DistPt;
    33 => Deep<Deep<PtA>>, DistPt;
    34 => f32, Wrap2<DistL2>;
}

// ------------------------------------------------------------------------------------------------

pub struct Gen<T> {
    pub rows: Vec<Vec<T>>,
    pub ids: Vec<usize>,
}

/// contents of the answers: up to the order of equal distances
fn answers<T: El, D: Di<T>>(h: &Hnsw<T, D>, qs: &[(Vec<T>, usize, usize)]) -> Value {
    json!(qs
        .iter()
        .map(|(q, k, ef)| h.search(q, *k, *ef).iter().map(|n| json!([n.p_id.0, n.p_id.1, idtok(n.d_id), dbits(n.distance)])).collect::<Vec<_>>())
        .collect::<Vec<_>>())
}

struct H<T: El, D: Di<T>> {
    h: Hnsw<'static, T, D>,
    n: usize,
    built: bool,
    /// base name of the dump it was loaded from with mmap
    maps: Option<(usize, String)>,
    last: Value,
}

fn flat<T, D>(h: &Hnsw<T, D>, ids: &[usize], r: &mut StdRng) -> Value
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    let f = FlatNeighborhood::from(h);
    let stored: HashSet<usize> = h.get_point_indexation().into_iter().map(|p| p.get_origin_id()).collect();
    let mut e = vec![];
    let mut absent = 0;
    let mut probe: Vec<usize> = ids.to_vec();
    for _ in 0..5 {
        probe.push(r.gen::<u64>() as usize);
        probe.push(r.gen_range(0..50));
    }
    probe.sort();
    probe.dedup();
    for id in probe {
        match f.get_neighbours(id) {
            None => {
                if !stored.contains(&id) {
                    absent += 1;
                } else {
                    e.push(json!([idtok(id), "none", []]));
                }
            }
            Some(v) => {
                let sorted = v.windows(2).all(|x| x[0].distance <= x[1].distance);
                let mut w: Vec<_> = v.iter().map(|n| (dbits(n.distance), n.p_id.0, n.p_id.1, n.d_id)).collect();
                w.sort();
                let l: Vec<Value> = w.iter().map(|(d, l, r, id)| json!([l, r, idtok(*id), d])).collect();
                e.push(json!([idtok(id), if sorted { "sorted" } else { "unsorted" }, l]));
            }
        }
    }
    json!({"entries": e, "absent": absent})
}

#[allow(clippy::too_many_arguments)]
fn files_session<T: El, D: Di<T>>(
    tid: usize,
    kind: &str,
    g: Gen<T>,
    qrows: Vec<Vec<T>>,
    d: D,
    ties: bool,
    nsteps: usize,
    r: &mut StdRng,
    fo: &mut Forcer,
    out: &mut Out,
) {
    let root = Scratch::new("files");
    std::env::set_current_dir(root.path()).unwrap();
    let dirs: Vec<PathBuf> = vec![root.path().join("d0"), root.path().join("d1")];
    let escr = root.path().join("e");
    for x in dirs.iter().chain([&escr]) {
        std::fs::create_dir_all(x).unwrap();
    }
    let rel = [PathBuf::from("d0"), PathBuf::from("./d1")];
    let bases = ["a", "b", "idx.v1", "a-1"];
    let mut hs: Vec<H<T, D>> = vec![];
    let mut steps: Vec<Value> = vec![];
    // names of the dumps that should exist: (directory, base, type of the combo) -> external ids
    let mut dumps: Vec<(usize, String)> = vec![];
    let qs: Vec<(Vec<T>, usize, usize)> = qrows.iter().map(|q| (q.clone(), r.gen_range(1..5), r.gen_range(1..12))).collect();
    let (tn, dn) = (type_name::<T>().to_string(), type_name::<D>().to_string());
    let mut dead = false;
    let mut burst = tid % 12 == 5;
    for _ in 0..nsteps {
        let mut v: Value;
        let op = if hs.is_empty() { 0 } else { r.gen_range(0..100) };
        if op < 8 && hs.len() < 4 {
            let m = *[1usize, 2, 3, 4, 8, 200, 256].choose(r).unwrap();
            let maxl = if r.gen_bool(0.95) { 16 } else { 5 };
            let mut h = Hnsw::<T, D>::new(m, 20, maxl, r.gen_range(1..20), d.clone());
            h.set_extend_candidates(r.gen_bool(0.5));
            h.set_keeping_pruned(r.gen_bool(0.5));
            let mut fac = 1.;
            if r.gen_bool(0.3) {
                fac = *[0.25, 0.5, 0.75].choose(r).unwrap();
                h.modify_level_scale(fac);
            }
            let n = r.gen_range(0..=g.rows.len());
            for i in 0..n {
                if let Some(l) = plan_level(1 + r.gen_range(0..3), maxl, m, r) {
                    parking_lot::sched::reseed_next(fo.seed(m, maxl, fac, l, r));
                }
                insert_one(&h, &g.rows[i], g.ids[i], 0);
                parking_lot::sched::reseed_next(None);
            }
            v = json!({"op": "build", "maxl": maxl, "ep": entry(&h, &escr)});
            hs.push(H { h, n, built: true, maps: None, last: Value::Null });
        } else if op < 16 {
            let k = r.gen_range(0..hs.len());
            let x = &mut hs[k];
            if x.n < g.rows.len() {
                insert_one(&x.h, &g.rows[x.n], g.ids[x.n], r.gen_range(0..3));
                v = json!({"op": "ins", "id": idtok(g.ids[x.n]), "data": hex(&g.rows[x.n])});
                v["ep"] = json!(entry(&x.h, &escr));
                x.n += 1;
            } else {
                continue;
            }
            v["k"] = json!(k);
        } else if op < 40 {
            let k = r.gen_range(0..hs.len());
            let di = r.gen_range(0..2);
            let base = bases.choose(r).unwrap().to_string();
            if hs[k].built && hs.iter().any(|x| x.maps == Some((di, base.clone()))) {
                // an index built in memory replaces the dump: not under the feet of a mapping
                continue;
            }
            let p = if r.gen_bool(0.3) { rel[di].clone() } else { dirs[di].clone() };
            let res = guard(|| hs[k].h.file_dump(&p, &base));
            v = json!({"op": "dump", "k": k, "dir": di, "base": base});
            match res {
                Ok(Ok(b)) => {
                    let gb = read(&dirs[di], &b, "graph");
                    v["ok"] = json!(true);
                    v["ret"] = json!(b);
                    v["ep"] = json!(hex(&gb[gb.len().saturating_sub(13)..]));
                    let gp = dirs[di].join(format!("{}.hnsw.graph", b));
                    v["descr"] = match std::fs::File::open(gp).map_err(|e| e.to_string()).and_then(|f| {
                        load_description(&mut std::io::BufReader::new(f)).map_err(|e| e.to_string())
                    }) {
                        Ok(de) => json!({"ver": de.format_version, "mode": de.dumpmode, "M": de.max_nb_connection,
                            "scale": format!("s{:016x}", de.level_scale.to_bits()), "nbl": de.nb_layer, "efc": de.ef, "nbp": de.nb_point,
                            "dim": de.dimension, "dist": de.distname.clone(), "tname": de.t_name.clone(),
                            "tname2": de.get_typename(), "dim2": de.get_dimension()}),
                        Err(e) => json!({"err": e}),
                    };
                    dumps.retain(|x| *x != (di, b.clone()));
                    dumps.push((di, b));
                }
                Ok(Err(e)) => {
                    v["ok"] = json!(false);
                    v["ret"] = json!(e.to_string());
                    dumps.retain(|x| *x != (di, base.clone()));
                }
                Err(e) => {
                    v["ok"] = json!(false);
                    v["ret"] = json!(format!("panic {}", e));
                    dead = true;
                }
            }
        } else if op < 44 {
            // a dump whose entry point is another point of the highest layer (as simultaneous insertions produce them)
            if dumps.is_empty() {
                continue;
            }
            let (di, b) = dumps.choose(r).unwrap().clone();
            let gp = dirs[di].join(format!("{}.hnsw.graph", b));
            let mut gb = std::fs::read(&gp).unwrap();
            let n = gb.len();
            let top = gb[n - 5];
            let pts = match guard(|| load_nodata(&dirs[di], &b, 0, 0)) {
                Ok(Ok(h)) => h.get_point_indexation().get_layer_iterator(top as usize).map(|p| (p.get_origin_id(), p.get_point_id())).collect::<Vec<_>>(),
                _ => vec![],
            };
            if pts.is_empty() {
                continue;
            }
            let (id, pid) = *pts.choose(r).unwrap();
            gb[n - 13..n - 5].copy_from_slice(&id.to_ne_bytes());
            gb[n - 5] = pid.0;
            gb[n - 4..].copy_from_slice(&pid.1.to_ne_bytes());
            std::fs::write(&gp, &gb).unwrap();
            let len = g.ids.iter().position(|x| *x == id).map(|j| g.rows[j].len()).unwrap_or(0);
            v = json!({"op": "setep", "dir": di, "base": b, "ep": hex(&gb[n - 13..]), "dim": len});
        } else if op < 48 && op >= 46 || (burst && !steps.is_empty() && r.gen_bool(0.05)) {
            // several dumps of reloaded indexes, one after the other at once, under a name that is taken; sometimes most of the
            // names that may be drawn for them are taken too
            let ks: Vec<usize> = (0..hs.len()).filter(|k| !hs[*k].built && hs[*k].h.get_nb_point() > 0).collect();
            if ks.is_empty() || dumps.is_empty() {
                continue;
            }
            let (di, base) = dumps.choose(r).unwrap().clone();
            if burst && base.len() < 6 {
                burst = false;
                for i in 0..10000 {
                    let f = dirs[di].join(format!("{}-{}.hnsw.data", base, i));
                    // (a-1 is among the names asked for)
                    if i != 1 && r.gen_bool(0.997) && !f.exists() {
                        std::fs::write(f, CROWD).unwrap();
                    }
                }
                // files there before the dumps
                steps.push(json!({"op": "crowd", "chg": [], "files": [listing(&dirs[0]), listing(&dirs[1])]}));
            }
            let mut ds = vec![];
            let todo: Vec<usize> = (0..r.gen_range(2..5)).map(|_| *ks.choose(r).unwrap()).collect();
            let rets = guard(|| todo.iter().map(|k| hs[*k].h.file_dump(&dirs[di], &base).map_err(|e| e.to_string())).collect::<Vec<_>>());
            let mut bad = None;
            match rets {
                Ok(rets) => {
                    for (k, ret) in todo.iter().zip(rets) {
                        match ret {
                            Ok(b) => {
                                let gb = read(&dirs[di], &b, "graph");
                                ds.push(json!([k + 1, b, hex(&gb[gb.len().saturating_sub(13)..])]));
                                dumps.retain(|x| *x != (di, b.clone()));
                                dumps.push((di, b));
                            }
                            Err(e) => bad = Some(e),
                        }
                    }
                }
                Err(e) => bad = Some(e),
            }
            v = match bad {
                None => json!({"op": "burst", "dir": di, "base": base, "ds": ds}),
                Some(e) => json!({"op": "panic", "msg": format!("dumps of reloaded indexes: {}", e)}),
            };
        } else if op < 46 {
            // a directory with a data file alone
            if dumps.is_empty() {
                continue;
            }
            let j = r.gen_range(0..dumps.len());
            let (di, b) = dumps.remove(j);
            std::fs::remove_file(dirs[di].join(format!("{}.hnsw.graph", b))).unwrap();
            v = json!({"op": "rmgraph", "dir": di, "base": b});
        } else if op < 75 {
            if dumps.is_empty() {
                continue;
            }
            let (di, b) = dumps.choose(r).unwrap().clone();
            let p = if r.gen_bool(0.3) { rel[di].clone() } else { dirs[di].clone() };
            let form = r.gen_range(0..5);
            let thr = r.gen_range(0..g.rows.len() + 2);
            match r.gen_range(0..10) {
                0 | 1 => {
                    let f2 = r.gen_range(0..4);
                    v = json!({"op": "nodata", "dir": di, "base": b, "form": f2, "thr": thr});
                    match load_nodata(&p, &b, f2, thr) {
                        Ok(h) => {
                            v["ok"] = json!(true);
                            v["c"] = content(&h, false);
                            v["flat"] = flat(&h, &g.ids, r);
                            // the graph alone dumped in its turn, and reloaded
                            let re = guard(|| h.file_dump(&escr, "g"));
                            let mut w = json!({"ok": false, "outs": []});
                            match re {
                                Ok(Ok(b2)) => {
                                    w["outs"] = json!((0..4).map(|_| {
                                        let i = if r.gen_bool(0.5) { r.gen_range(14..18) } else { r.gen_range(0..NCOMBO) };
                                        let (t2, d2) = combo_name(i);
                                        let res = load_combo(i, &escr, &b2, r.gen_range(0..5), thr, r);
                                        json!([t2, d2, outcome(&res)])
                                    }).collect::<Vec<_>>());
                                    match load_nodata(&escr, &b2, r.gen_range(0..4), thr) {
                                        Ok(h2) => {
                                            w["ok"] = json!(true);
                                            w["c"] = content(&h2, false);
                                            w["flat"] = flat(&h2, &g.ids, r);
                                        }
                                        Err(e) => w["msg"] = json!(e),
                                    }
                                    for x in ["graph", "data"] {
                                        let _ = std::fs::remove_file(escr.join(format!("{}.hnsw.{}", b2, x)));
                                    }
                                }
                                e => w["msg"] = json!(format!("dump of the graph alone: {:?}", e.map(|x| x.map_err(|y| y.to_string())))),
                            }
                            v["re"] = w;
                        }
                        Err(e) => {
                            v["ok"] = json!(false);
                            v["msg"] = json!(e);
                        }
                    }
                }
                2 | 3 => {
                    let mut i = r.gen_range(0..NCOMBO);
                    if r.gen_bool(0.5) {
                        // only one of the two differs
                        let near: Vec<usize> =
                            (0..NCOMBO).filter(|i| (combo_name(*i).0 == tn) != (combo_name(*i).1 == dn)).collect();
                        if !near.is_empty() {
                            i = *near.choose(r).unwrap();
                        }
                        // and the two names have the same beginning or the same end
                        let head = |s: &str| s.split('<').next().unwrap().to_string();
                        let tail = |s: &str| s.rsplit("::").next().unwrap().trim_end_matches('>').to_string();
                        let close: Vec<usize> = near
                            .iter()
                            .copied()
                            .filter(|i| {
                                let (t2, d2) = combo_name(*i);
                                let (x, y) = if t2 == tn { (d2, dn.to_string()) } else { (t2, tn.to_string()) };
                                head(&x) == head(&y) || tail(&x) == tail(&y)
                            })
                            .collect();
                        if !close.is_empty() && r.gen_bool(0.6) {
                            i = *close.choose(r).unwrap();
                        }
                    }
                    let (t2, d2) = combo_name(i);
                    let res = load_combo(i, &p, &b, form, thr, r);
                    v = json!({"op": "other", "dir": di, "base": b, "form": form, "tname": t2, "dname": d2, "out": outcome(&res), "msg": format!("{:?}", res)});
                }
                4 => {
                    let i = r.gen_range(0..NCOMBO);
                    let (t2, _) = combo_name(i);
                    let res = map_combo(i, &p, &b);
                    v = json!({"op": "othermap", "dir": di, "base": b, "tname": t2, "out": outcome(&res), "msg": format!("{:?}", res)});
                }
                _ => {
                    if hs.len() >= 5 {
                        let k = r.gen_range(0..hs.len());
                        hs.remove(k);
                        v = json!({"op": "drop", "k": k});
                    } else {
                        v = json!({"op": "load", "dir": di, "base": b, "form": form, "thr": thr});
                        match load::<T, D>(&p, &b, form, thr, d.clone(), r) {
                            Ok(h) => {
                                let n = h.get_nb_point();
                                v["ok"] = json!(true);
                                v["ep"] = json!(entry(&h, &escr));
                                let maps = if form >= 2 { Some((di, b.clone())) } else { None };
                                hs.push(H { h, n, built: form == 1, maps, last: Value::Null });
                            }
                            Err(e) => {
                                v["ok"] = json!(false);
                                v["msg"] = json!(e);
                            }
                        }
                    }
                }
            }
        } else if op < 83 {
            if dumps.is_empty() {
                continue;
            }
            let (di, b) = dumps.choose(r).unwrap().clone();
            let isrel = r.gen_bool(0.4);
            let p = if isrel { rel[di].clone() } else { dirs[di].clone() };
            v = json!({"op": "map", "dir": di, "base": b, "rel": isrel});
            match guard(|| DataMap::from_hnswdump::<T>(&p, &b)) {
                Ok(Ok(m)) => {
                    v["ok"] = json!(true);
                    v["nb"] = json!(m.get_nb_data());
                    v["tname"] = json!(m.get_data_typename());
                    v["dname"] = json!(m.get_distname());
                    let ids: Vec<usize> = m.get_dataid_iter().cloned().collect();
                    v["ids"] = json!(ids.iter().map(|i| idtok(*i)).collect::<Vec<_>>());
                    v["data"] =
                        json!(ids.iter().map(|i| m.get_data::<T>(i).map(|x| hex(x)).unwrap_or("none".to_string())).collect::<Vec<_>>());
                    v["chk"] = json!([m.check_data_type::<T>()]);
                    v["chks"] = json!(check_combos(&m));
                    let mut absent = vec![];
                    let set: HashSet<usize> = ids.iter().cloned().collect();
                    for i in g.ids.iter().cloned().chain((0..6).map(|_| r.gen::<u64>() as usize)) {
                        if !set.contains(&i) {
                            absent.push(json!([idtok(i), m.get_data::<T>(&i).is_none()]));
                        }
                    }
                    v["absent"] = json!(absent);
                }
                Ok(Err(e)) => {
                    v["ok"] = json!(false);
                    v["msg"] = json!(e);
                }
                Err(e) => {
                    v["ok"] = json!(false);
                    v["msg"] = json!(format!("panic {}", e));
                }
            }
        } else if op < 90 {
            let k = r.gen_range(0..hs.len());
            v = match guard(|| flat(&hs[k].h, &g.ids, r)) {
                Ok(f) => json!({"op": "flat", "k": k, "flat": f}),
                Err(e) => json!({"op": "panic", "msg": format!("flatten: {}", e)}),
            };
        } else if op < 96 {
            let k = r.gen_range(0..hs.len());
            v = match guard(|| answers(&hs[k].h, &qs)) {
                Ok(a) => json!({"op": "srch", "k": k, "ans": a}),
                Err(e) => json!({"op": "panic", "msg": format!("search: {}", e)}),
            };
        } else {
            let k = r.gen_range(0..hs.len());
            hs.remove(k);
            v = json!({"op": "drop", "k": k});
        }
        // what changed: contents of the indexes, in order, and files
        let mut chg = vec![];
        let mut ok = true;
        for (k, x) in hs.iter_mut().enumerate() {
            match guard(|| content(&x.h, true)) {
                Ok(c) => {
                    if c != x.last {
                        x.last = c.clone();
                        chg.push(json!([k + 1, c]));
                    }
                }
                Err(e) => {
                    v = json!({"op": "panic", "msg": format!("reading the index: {}", e)});
                    ok = false;
                }
            }
        }
        if let Some(k) = v.get("k").and_then(|k| k.as_u64()) {
            v["k"] = json!(k + 1);
        }
        v["chg"] = json!(chg);
        v["files"] = json!([listing(&dirs[0]), listing(&dirs[1])]);
        if let Some(di) = v.get("dir").and_then(|k| k.as_u64()) {
            v["dir"] = json!(di + 1);
        }
        steps.push(v);
        if !ok || dead {
            break;
        }
    }
    std::env::set_current_dir("/").unwrap();
    drop(hs);
    out.line(&json!({"id": format!("files-{}-{}", tid, kind), "tname": tn, "dname": dn, "ties": ties, "steps": steps}));
}

pub fn main_files(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 20) as usize;
    let maxn = a.u("maxn", 10) as usize;
    let steps = a.u("steps", 25) as usize;
    let first = a.u("first", 0) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    for t in first..first + n {
        let mut r = rng(seed, t as u64);
        let r = &mut r;
        let nr = r.gen_range(1..=maxn);
        let ids = gen_ids(r, nr);
        let nq = 3;
        macro_rules! go {
            ($k:expr, $d:expr, $ties:expr, $row:expr) => {{
                let rows: Vec<Vec<_>> = (0..nr + nq).map(|_| $row).collect();
                let q = rows[nr..].to_vec();
                let ns = r.gen_range(steps / 2..=steps);
                let dm = crate::seq::dist_matrix(&rows, &$d);
                let ties = $ties
                    || dm.iter().any(|x| {
                        let mut y = x.clone();
                        y.sort();
                        y.windows(2).any(|w| w[0] == w[1])
                    });
                if dm.iter().enumerate().all(|(i, x)| x.iter().enumerate().all(|(j, y)| *y >= 0 && *y == dm[j][i])) {
                    files_session(t, $k, Gen { rows: rows[..nr].to_vec(), ids }, q, $d, ties, ns, r, &mut fo, &mut out)
                }
            }};
        }
        let dim = r.gen_range(1..6);
        match r.gen_range(0..11) {
            7 => match r.gen_range(0..4) {
                3 => go!("deep-pt", DistPt, false, (0..dim).map(|_| Deep(PtA(r.gen::<f32>()))).collect()),
                0 => go!("pta-pt", DistPt, false, (0..dim).map(|_| PtA(r.gen::<f32>())).collect()),
                1 => go!("long-pt", DistPt, false, (0..dim).map(|_| long_el(r.gen::<f32>())).collect()),
                _ => go!("f32-long", LongDist::default(), false, (0..dim).map(|_| r.gen::<f32>()).collect()),
            },
            8 => match r.gen_range(0..4) {
                3 => go!("f32-wrapwrap", Wrap1::<Wrap1<DistL1>>::default(), false, (0..dim).map(|_| r.gen::<f32>()).collect()),
                0 => go!("f32-my", MyDistL1, false, (0..dim).map(|_| r.gen::<f32>()).collect()),
                1 => go!("f32-wrap", Wrap1::<DistL1>::default(), false, (0..dim).map(|_| r.gen::<f32>()).collect()),
                _ => go!("f32-bis", DistL1Bis, false, (0..dim).map(|_| r.gen::<f32>()).collect()),
            },
            0 => go!("f32-l1", DistL1 {}, false, (0..dim).map(|_| r.gen::<f32>()).collect()),
            1 => go!("f32-l2", DistL2 {}, false, (0..dim).map(|_| r.gen::<f32>() * 100.).collect()),
            2 => go!("f32-cos", DistCosine {}, true, (0..dim + 1).map(|_| r.gen::<f32>() + 0.01).collect()),
            3 => go!("u8-l1", DistL1 {}, true, (0..dim).map(|_| r.gen::<u8>()).collect()),
            4 | 5 => go!("u16-lev", DistLevenshtein {}, true, (0..r.gen_range(0..9)).map(|_| r.gen_range(97..103u16)).collect()),
            6 => go!("i32-l1", DistL1 {}, true, (0..dim).map(|_| r.gen_range(-1000..1000i32)).collect()),
            _ => {
                set_table(crate::seq::rand_matrix(r, nr + nq, false));
                let mut i = 0u32;
                go!("u32-mat", MatDist, false, {
                    i += 1;
                    vec![i - 1]
                })
            }
        }
    }
    out.flush();
    println!("histories {}", out.n);
}

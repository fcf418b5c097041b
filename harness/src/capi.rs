//! The C interface (`capi`): each session does the same thing through the C functions and through Rust.
use crate::fmt::fsys;
use crate::io::*;
use crate::seq::{gen_ids, insert_one, plan_level};
use crate::util::*;
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::hnsw::*;
use hnsw_rs::hnswio::*;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};
use std::ffi::c_void;
use std::path::Path;

// the C declarations, as a C program would write them
#[repr(C)]
#[derive(Clone, Copy)]
struct CNb {
    id: usize,
    d: f32,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CNbh {
    n: i64,
    p: *const CNb,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CVec {
    len: i64,
    p: *const CNbh,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CDescr {
    dumpmode: u8,
    m: u8,
    nb_layer: u8,
    ef: usize,
    nb_point: usize,
    dim: usize,
    dlen: usize,
    dname: *const u8,
    tlen: usize,
    tname: *const u8,
}

type Init = unsafe extern "C" fn(usize, usize, usize, *const u8) -> *mut c_void;
type NewH = unsafe extern "C" fn(usize, usize, usize, *const u8, usize, usize) -> *mut c_void;
type CDist<T> = extern "C" fn(*const T, *const T, u64) -> f32;
type InitPtr<T> = unsafe extern "C" fn(usize, usize, CDist<T>) -> *mut c_void;
type Ins<T> = unsafe extern "C" fn(*mut c_void, usize, *const T, usize);
type PIns<T> = unsafe extern "C" fn(*mut c_void, usize, usize, *mut *const T, *const usize);
type Srch<T> = unsafe extern "C" fn(*const c_void, usize, *const T, usize, usize) -> *const CNbh;
type PSrch<T> = unsafe extern "C" fn(*const c_void, usize, i64, *mut *const T, usize, usize) -> *const CVec;
type Dump = unsafe extern "C" fn(*const c_void, usize, *const u8) -> i64;
type Load = unsafe extern "C" fn(*mut c_void) -> *mut c_void;
type DropF = unsafe extern "C" fn(*mut c_void);

#[allow(clashing_extern_declarations)]
mod c {
    use super::*;
    extern "C" {
        pub fn get_hnswio(n: u64, name: *const u8) -> *mut c_void;
        pub fn load_hnsw_description(n: usize, name: *const u8) -> *const CDescr;
    }
    macro_rules! decl {
        ($t:ty, $init:ident, $ptr:ident, $ins:ident, $pins:ident, $s:ident, $ps:ident, $du:ident) => {
            extern "C" {
                pub fn $init(m: usize, ef: usize, n: usize, name: *const u8) -> *mut c_void;
                pub fn $ptr(m: usize, ef: usize, f: CDist<$t>) -> *mut c_void;
                pub fn $ins(h: *mut c_void, len: usize, d: *const $t, id: usize);
                pub fn $pins(h: *mut c_void, nb: usize, len: usize, d: *mut *const $t, ids: *const usize);
                pub fn $s(h: *const c_void, len: usize, d: *const $t, k: usize, ef: usize) -> *const CNbh;
                pub fn $ps(h: *const c_void, nb: usize, len: i64, d: *mut *const $t, k: usize, ef: usize) -> *const CVec;
                pub fn $du(h: *const c_void, n: usize, name: *const u8) -> i64;
            }
        };
    }
    decl!(f32, init_hnsw_f32, init_hnsw_ptrdist_f32, insert_f32, parallel_insert_f32, search_neighbours_f32, parallel_search_neighbours_f32, file_dump_f32);
    decl!(i32, init_hnsw_i32, init_hnsw_ptrdist_i32, insert_i32, parallel_insert_i32, search_neighbours_i32, parallel_search_neighbours_i32, file_dump_i32);
    decl!(u32, init_hnsw_u32, init_hnsw_ptrdist_u32, insert_u32, parallel_insert_u32, search_neighbours_u32, parallel_search_neighbours_u32, file_dump_u32);
    decl!(u16, init_hnsw_u16, init_hnsw_ptrdist_u16, insert_u16, parallel_insert_u16, search_neighbours_u16, parallel_search_neighbours_u16, file_dump_u16);
    decl!(u8, init_hnsw_u8, init_hnsw_ptrdist_u8, insert_u8, parallel_insert_u8, search_neighbours_u8, parallel_search_neighbours_u8, file_dump_u8);
    extern "C" {
        pub fn new_hnsw_f32(m: usize, ef: usize, n: usize, name: *const u8, me: usize, ml: usize) -> *mut c_void;
        pub fn new_hnsw_u16(m: usize, ef: usize, n: usize, name: *const u8, me: usize, ml: usize) -> *mut c_void;
        pub fn drop_hnsw_f32(h: *mut c_void);
        pub fn drop_hnsw_u16(h: *mut c_void);
    }
    macro_rules! loads { ($($f:ident)*) => { extern "C" { $(pub fn $f(io: *mut c_void) -> *mut c_void;)* } } }
    loads!(load_hnswdump_f32_DistL1 load_hnswdump_f32_DistL2 load_hnswdump_f32_DistCosine load_hnswdump_f32_DistDot
        load_hnswdump_f32_DistJensenShannon load_hnswdump_f32_DistJeffreys load_hnswdump_i32_DistL1 load_hnswdump_i32_DistL2
        load_hnswdump_i32_DistHamming load_hnswdump_u32_DistL1 load_hnswdump_u32_DistL2 load_hnswdump_u32_DistHamming
        load_hnswdump_u32_DistJaccard load_hnswdump_u16_DistL1 load_hnswdump_u16_DistL2 load_hnswdump_u16_DistHamming
        load_hnswdump_u16_DistLevenshtein load_hnswdump_u8_DistL1 load_hnswdump_u8_DistL2 load_hnswdump_u8_DistHamming
        load_hnswdump_u8_DistJaccard load_hnswdump_NoData_DistNoDist);
}

pub struct Fns<T> {
    init: Init,
    newh: Option<NewH>,
    ptr: InitPtr<T>,
    ins: Ins<T>,
    pins: PIns<T>,
    srch: Srch<T>,
    psrch: PSrch<T>,
    dump: Dump,
    drop: Option<DropF>,
}

fn nbh(x: &CNbh) -> Value {
    if x.n < 0 || x.n > 1_000_000 {
        return json!([["bad count", 0]]);
    }
    let v: &[CNb] = if x.n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(x.p, x.n as usize) } };
    json!(v.iter().map(|n| json!([idtok(n.id), dbits(n.d)])).collect::<Vec<_>>())
}
fn rnb(v: &[Neighbour]) -> Value {
    json!(v.iter().map(|n| json!([idtok(n.d_id), dbits(n.distance)])).collect::<Vec<_>>())
}

fn csrch<T>(f: &Fns<T>, h: *mut c_void, q: &[T], k: usize, ef: usize) -> Value {
    unsafe {
        let a = (f.srch)(h, q.len(), q.as_ptr(), k, ef);
        if a.is_null() {
            json!([["null", 0]])
        } else {
            nbh(&*a)
        }
    }
}
fn cpsrch<T>(f: &Fns<T>, h: *mut c_void, qs: &[Vec<T>], k: usize, ef: usize) -> Value {
    unsafe {
        let mut p: Vec<*const T> = qs.iter().map(|q| q.as_ptr()).collect();
        let a = (f.psrch)(h, qs.len(), qs.first().map(|q| q.len()).unwrap_or(0) as i64, p.as_mut_ptr(), k, ef);
        if a.is_null() {
            return json!([[["null", 0]]]);
        }
        let a = &*a;
        if a.len < 0 || a.len > 100_000 {
            return json!([[["bad count", 0]]]);
        }
        let v: &[CNbh] = if a.len == 0 { &[] } else { std::slice::from_raw_parts(a.p, a.len as usize) };
        json!(v.iter().map(nbh).collect::<Vec<_>>())
    }
}
fn cdescr(name: &str) -> Value {
    unsafe {
        let d = c::load_hnsw_description(name.len(), name.as_ptr());
        if d.is_null() {
            return json!({"null": true, "mode": 0});
        }
        let d = &*d;
        let s = |p: *const u8, n: usize| {
            if n > 1000 {
                "bad".to_string()
            } else {
                String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string()
            }
        };
        json!({"null": false, "mode": d.dumpmode, "M": d.m, "nbl": d.nb_layer, "efc": d.ef, "nbp": d.nb_point, "dim": d.dim,
            "dist": s(d.dname, d.dlen), "tname": s(d.tname, d.tlen)})
    }
}

fn scribble<T: Copy>(b: &mut [T]) {
    if let Some(x) = b.last().copied() {
        b.fill(x)
    }
}

thread_local! { static BIGRNG: std::cell::RefCell<StdRng> = std::cell::RefCell::new(rng(1, 1)); }

/// nr vectors and nq queries, with no equal distances from a vector or a query to the vectors as far as possible
fn apart<T: El + Copy, D: Distance<T>>(nr: usize, nq: usize, d: &D, mut g: impl FnMut() -> Vec<T>) -> (Vec<Vec<T>>, Vec<Vec<T>>) {
    let mut rows: Vec<Vec<T>> = vec![];
    let mut seen: Vec<std::collections::HashSet<i64>> = vec![];
    let mut tries = 0;
    while rows.len() < nr {
        let x = g();
        let ds: Vec<i64> = rows.iter().map(|y| dbits(d.eval(&x, y))).collect();
        let own: std::collections::HashSet<i64> = ds.iter().cloned().collect();
        tries += 1;
        if tries > 20 * nr || (own.len() == ds.len() && ds.iter().zip(&seen).all(|(d, s)| !s.contains(d))) {
            ds.iter().zip(seen.iter_mut()).for_each(|(d, s)| {
                s.insert(*d);
            });
            seen.push(own);
            rows.push(x);
        }
    }
    let mut qs = vec![];
    while qs.len() < nq {
        let x = g();
        tries += 1;
        let own: std::collections::HashSet<i64> = rows.iter().map(|y| dbits(d.eval(&x, y))).collect();
        if tries > 20 * (nr + nq) || own.len() == rows.len() {
            qs.push(x);
        }
    }
    (rows, qs)
}

/// one session with a type and a distance. ptr: the distance is given by a C function
#[allow(clippy::too_many_arguments)]
fn session<T: El + Copy + PartialEq, D: Distance<T> + Send + Sync + 'static>(
    t: usize,
    kind: &str,
    f: &Fns<T>,
    dname: &str,
    cptr: Option<CDist<T>>,
    loader: Option<Load>,
    mkd: &dyn Fn() -> D,
    rows: Vec<Vec<T>>,
    qs: Vec<Vec<T>>,
    r: &mut StdRng,
    fo: &mut Forcer,
    out: &mut Out,
) {
    // some distances of anndists are NaN for nearly equal distributions: not a distance
    let all: Vec<&Vec<T>> = rows.iter().chain(&qs).collect();
    let dd = mkd();
    if all.iter().any(|a| all.iter().any(|b| !(dd.eval(a, b) >= 0.))) {
        return;
    }
    let sc = Scratch::new("capi");
    std::env::set_current_dir(sc.path()).unwrap();
    let ids = gen_ids(r, rows.len());
    let m = *[1usize, 2, 3, 4, 8, 16, 200].choose(r).unwrap();
    let efc = r.gen_range(1..30);
    let mut steps = vec![];
    let mut maxl = 16;
    let mut maxe = 10000;
    let h: *mut c_void = unsafe {
        match cptr {
            Some(p) => (f.ptr)(m, efc, p),
            None => {
                if r.gen_bool(0.2) {
                    let n = ["DistNone", "distL1", "DistL", ""].choose(r).unwrap();
                    let x = (f.init)(m, efc, n.len(), n.as_ptr());
                    steps.push(json!({"op": "badname", "null": x.is_null()}));
                }
                match f.newh {
                    Some(nh) if r.gen_bool(0.5) => {
                        maxe = r.gen_range(1..50);
                        maxl = if r.gen_bool(0.8) { 16 } else { r.gen_range(2..20) };
                        nh(m, efc, dname.len(), dname.as_ptr(), maxe, maxl)
                    }
                    _ => (f.init)(m, efc, dname.len(), dname.as_ptr()),
                }
            }
        }
    };
    let done = |steps: Vec<Value>, out: &mut Out| {
        out.line(&json!({"id": format!("capi-{}-{}", t, kind), "steps": steps}));
        std::env::set_current_dir("/").unwrap();
    };
    if h.is_null() {
        steps.push(json!({"op": "fail", "msg": format!("no index for {} {}", kind, dname)}));
        return done(steps, out);
    }
    let mut twin: Hnsw<'static, T, D> = Hnsw::new(m, maxe, maxl, efc, mkd());
    let eqlen = rows.iter().all(|x| x.len() == rows[0].len());
    let qlen = qs.iter().all(|x| x.len() == qs[0].len());
    // in the first form the index and its twin are built by the same insertions; in the second one the twin is read from a dump
    let mut rows = rows;
    let big = rows.len() > 100;
    let same = eqlen && !big && r.gen_bool(0.4);
    if same {
        // some vectors several times
        for j in 1..rows.len() {
            if r.gen_bool(0.3) {
                rows[j] = rows[if r.gen_bool(0.7) { j - 1 } else { r.gen_range(0..j) }].clone();
            }
        }
    }
    let par = eqlen && (big || !fo.can(m, maxl, 1., 0, r) || r.gen_bool(0.3));
    let search = |h: *mut c_void, twin: &Hnsw<'static, T, D>, r: &mut StdRng, what: &str| -> Value {
        let (mut k, mut ef) = (r.gen_range(0..8), r.gen_range(1..20));
        if big && r.gen_bool(0.5) {
            (k, ef) = (*[200, 256, 300, 70000].choose(r).unwrap(), *[1, 256, 300].choose(r).unwrap());
        }
        if qlen && r.gen_bool(0.4) {
            let mut n = r.gen_range(0..=qs.len());
            if big && k < 10 {
                n = qs.len();
            } else if big {
                n = 5;
            }
            json!({"op": "psrch", "what": what, "n": n, "k": k, "c": cpsrch(f, h, &qs[..n], k, ef),
                "r": twin.parallel_search(&qs[..n], k, ef).iter().map(|v| rnb(v)).collect::<Vec<_>>()})
        } else {
            let q = qs.choose(r).unwrap();
            json!({"op": "srch", "what": what, "k": k, "c": csrch(f, h, q, k, ef), "r": rnb(&twin.search(q, k, ef))})
        }
    };
    let what = if !par {
        "built"
    } else {
        let all: Vec<&Vec<T>> = rows.iter().chain(&qs).collect();
        let ties = all.iter().enumerate().any(|(i, a)| {
            let mut x: Vec<i64> = rows.iter().enumerate().filter(|(j, _)| i != *j).map(|(_, b)| dbits(dd.eval(a, b))).collect();
            x.sort();
            x.windows(2).any(|w| w[0] == w[1])
        });
        if ties { "filled in parallel, equal distances" } else { "filled in parallel" }
    };
    if !par {
        for (row, id) in rows.iter().zip(&ids) {
            let s = plan_level(1 + r.gen_range(0..3), maxl, m, r).and_then(|l| fo.seed(m, maxl, 1., l, r));
            parking_lot::sched::reseed_next(s);
            let one = eqlen && r.gen_bool(0.2);
            // the caller may do as it likes with its buffer afterwards
            let mut buf = row.clone();
            unsafe {
                if one {
                    let mut p = vec![buf.as_ptr()];
                    (f.pins)(h, 1, buf.len(), p.as_mut_ptr(), id)
                } else {
                    (f.ins)(h, buf.len(), buf.as_ptr(), *id)
                }
            }
            scribble(&mut buf);
            parking_lot::sched::reseed_next(s);
            insert_one(&twin, row, *id, 0);
            parking_lot::sched::reseed_next(None);
            steps.push(json!({"op": "ins", "pts": [[idtok(*id), hex(row)]]}));
            if r.gen_bool(0.3) {
                steps.push(search(h, &twin, r, "built"));
            }
        }
    } else {
        let mut k = 0;
        while k < rows.len() {
            let n = if big { rows.len() - k } else { r.gen_range(0..=rows.len() - k) };
            let mut bufs = rows[k..k + n].to_vec();
            // equal vectors may be given by the same address
            let first: Vec<usize> = (0..n).map(|j| if same { (0..j).find(|i| rows[k + i] == rows[k + j]).unwrap_or(j) } else { j }).collect();
            let mut p: Vec<*const T> = first.iter().map(|j| bufs[*j].as_ptr()).collect();
            let mut i: Vec<usize> = ids[k..k + n].to_vec();
            unsafe { (f.pins)(h, n, rows[0].len(), p.as_mut_ptr(), i.as_ptr()) };
            bufs.iter_mut().for_each(|b| scribble(b));
            i.fill(12345);
            steps.push(json!({"op": "ins", "pts": (k..k + n).map(|j| json!([idtok(ids[j]), hex(&rows[j])])).collect::<Vec<_>>()}));
            k += n;
        }
    }
    // dump through C
    let name = ["dumpfile", "x", "a.b"].choose(r).unwrap().to_string();
    let rc = unsafe { (f.dump)(h, name.len(), name.as_ptr()) };
    let here = Path::new(".");
    let rload = |base: &str| -> Result<Hnsw<'static, T, D>, String> {
        let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(here, base)));
        match guard(|| io.load_hnsw_with_dist::<T, D>(mkd())) {
            Ok(Ok(h)) => Ok(h),
            Ok(Err(e)) => Err(e.to_string()),
            Err(e) => Err(e),
        }
    };
    let mut v = json!({"op": "dump", "rc": rc, "refuse": maxl.min(16) != 16, "files": fsys::state(here).keys().collect::<Vec<_>>(), "base": name,
        "same": !par, "c": {}, "r": {}});
    if rc == 1 {
        match rload(&name) {
            Ok(x) => {
                let mut cx = content(&x, true);
                if par {
                    twin = x;
                } else if let Ok(tc) = guard(|| content(&twin, true)) {
                    v["r"] = tc;
                }
                if cx["pts"].is_null() {
                    cx = json!({});
                }
                v["c"] = cx;
            }
            Err(e) => v["c"] = json!({"err": e}),
        }
        steps.push(v);
        let gname = format!("{}.hnsw.graph", name);
        steps.push(json!({"op": "descr", "d": cdescr(&gname), "M": m, "efc": efc, "nbp": rows.len(), "dim": twin.get_point_indexation().get_data_dimension(),
            "dist": twin.get_distance_name(), "tname": std::any::type_name::<T>()}));
        if r.gen_bool(0.2) {
            steps.push(json!({"op": "nodescr", "d": cdescr("nothing.hnsw.graph")}));
        }
        for _ in 0..if big { 8 } else { 3 } {
            steps.push(search(h, &twin, r, what));
        }
        // a dump made by Rust is the same for the loader
        let mut base = name.clone();
        if !par && r.gen_bool(0.5) {
            if let Ok(Ok(b)) = guard(|| twin.file_dump(here, "byrust")) {
                base = b;
                steps.push(json!({"op": "rdump", "base": base}));
            }
        }
        unsafe {
            let io = c::get_hnswio(base.len() as u64, base.as_ptr());
            let nd = c::load_hnswdump_NoData_DistNoDist(io);
            steps.push(json!({"op": "cload", "what": "graph only", "base": base, "ok": !nd.is_null()}));
            if let Some(ld) = loader {
                // another name first
                if r.gen_bool(0.2) {
                    let n = "absent";
                    let io = c::get_hnswio(n.len() as u64, n.as_ptr());
                    steps.push(json!({"op": "noload", "null": ld(io).is_null()}));
                }
                let io = c::get_hnswio(base.len() as u64, base.as_ptr());
                let g = ld(io);
                steps.push(json!({"op": "cload", "what": "index", "base": base, "ok": !g.is_null()}));
                if !g.is_null() {
                    let tw = rload(&base);
                    if let Ok(mut tw) = tw {
                        for _ in 0..3 {
                            steps.push(search(g, &tw, r, "reloaded"));
                        }
                        // further insertions, as in an index reloaded by Rust with the same settings
                        if fo.can(m, 16, 1., 0, r) {
                            tw.set_extend_candidates(true);
                            for (j, q) in qs.iter().enumerate() {
                                let id = 1_000_000 + j;
                                let s = fo.seed(m, 16, 1., r.gen_range(0..3), r);
                                parking_lot::sched::reseed_next(s);
                                (f.ins)(g, q.len(), q.as_ptr(), id);
                                parking_lot::sched::reseed_next(s);
                                insert_one(&tw, q, id, 0);
                                parking_lot::sched::reseed_next(None);
                                steps.push(json!({"op": "ins", "pts": [[idtok(id), hex(q)]]}));
                                steps.push(search(g, &tw, r, "continued"));
                            }
                        }
                        let n2 = "again";
                        let rc = (f.dump)(g, n2.len(), n2.as_ptr());
                        let c2 = if rc == 1 { rload(n2).map(|x| content(&x, true)).unwrap_or_else(|e| json!({"err": e})) } else { json!({"err": "rc"}) };
                        steps.push(json!({"op": "dump", "rc": rc, "refuse": false, "files": fsys::state(here).keys().collect::<Vec<_>>(), "base": n2, "same": true, "c": c2,
                            "r": content(&tw, true)}));
                    }
                    if let Some(d) = f.drop {
                        d(g);
                    }
                }
            }
            if let Some(d) = f.drop {
                d(h);
            }
        }
    } else {
        steps.push(v);
    }
    done(steps, out)
}

macro_rules! euclid {
    ($n:ident, $t:ty) => {
        extern "C" fn $n(a: *const $t, b: *const $t, n: u64) -> f32 {
            let (a, b) = unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
            let mut s = 0f32;
            for i in 0..n as usize {
                let d = a[i] as f32 - b[i] as f32;
                s += d * d;
            }
            s.sqrt()
        }
    };
}
euclid!(e_f32, f32);
euclid!(e_i32, i32);
euclid!(e_u32, u32);
euclid!(e_u16, u16);
euclid!(e_u8, u8);

pub fn main(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 30) as usize;
    let maxn = a.u("maxn", 14) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    let ff = Fns::<f32> { init: c::init_hnsw_f32, newh: Some(c::new_hnsw_f32), ptr: c::init_hnsw_ptrdist_f32, ins: c::insert_f32, pins: c::parallel_insert_f32, srch: c::search_neighbours_f32, psrch: c::parallel_search_neighbours_f32, dump: c::file_dump_f32, drop: Some(c::drop_hnsw_f32) };
    let fi = Fns::<i32> { init: c::init_hnsw_i32, newh: None, ptr: c::init_hnsw_ptrdist_i32, ins: c::insert_i32, pins: c::parallel_insert_i32, srch: c::search_neighbours_i32, psrch: c::parallel_search_neighbours_i32, dump: c::file_dump_i32, drop: None };
    let fu = Fns::<u32> { init: c::init_hnsw_u32, newh: None, ptr: c::init_hnsw_ptrdist_u32, ins: c::insert_u32, pins: c::parallel_insert_u32, srch: c::search_neighbours_u32, psrch: c::parallel_search_neighbours_u32, dump: c::file_dump_u32, drop: None };
    let fh = Fns::<u16> { init: c::init_hnsw_u16, newh: Some(c::new_hnsw_u16), ptr: c::init_hnsw_ptrdist_u16, ins: c::insert_u16, pins: c::parallel_insert_u16, srch: c::search_neighbours_u16, psrch: c::parallel_search_neighbours_u16, dump: c::file_dump_u16, drop: Some(c::drop_hnsw_u16) };
    let fb = Fns::<u8> { init: c::init_hnsw_u8, newh: None, ptr: c::init_hnsw_ptrdist_u8, ins: c::insert_u8, pins: c::parallel_insert_u8, srch: c::search_neighbours_u8, psrch: c::parallel_search_neighbours_u8, dump: c::file_dump_u8, drop: None };
    const NK: usize = 31;
    let big = a.u("big", 0) > 0;
    for t in 0..n {
        let mut r = rng(seed, 11000 + t as u64);
        let r = &mut r;
        let nr = if big { r.gen_range(257..420) } else { r.gen_range(1..=maxn) };
        let nq = if big { 1030 + r.gen_range(0..100) } else { r.gen_range(1..6) };
        let dim = r.gen_range(1..7);
        if big {
            macro_rules! many {
                ($k:expr, $f:expr, $name:expr, $d:ty, $mk:expr, $ptr:expr, $row:expr) => {{
                    BIGRNG.with(|g| *g.borrow_mut() = rng(seed, 15000 + t as u64));
                    let mk = || $mk;
                    let (v, q) = apart(nr, nq, &mk(), || $row);
                    session::<_, $d>(t, $k, &$f, $name, $ptr, None, &mk, v, q, r, &mut fo, &mut out)
                }};
            }
            match (t + seed as usize) % 6 {
                0 => many!("f32", ff, "DistL1", DistL1, DistL1 {}, None, (0..dim).map(|_| BIGRNG.with(|g| g.borrow_mut().gen::<f32>())).collect()),
                1 => many!("f32p", ff, "", DistCFFI<f32>, DistCFFI::new(e_f32), Some(e_f32 as CDist<f32>), (0..dim).map(|_| BIGRNG.with(|g| g.borrow_mut().gen::<f32>())).collect()),
                2 => many!("i32", fi, "DistL1", DistL1, DistL1 {}, None, (0..2).map(|_| BIGRNG.with(|g| g.borrow_mut().gen_range(-1000000..1000000))).collect()),
                3 => many!("u32", fu, "DistL1", DistL1, DistL1 {}, None, (0..2).map(|_| BIGRNG.with(|g| g.borrow_mut().gen_range(0..4000000))).collect()),
                4 => many!("u16", fh, "DistL1", DistL1, DistL1 {}, None, (0..60).map(|_| BIGRNG.with(|g| g.borrow_mut().gen::<u16>())).collect()),
                _ => many!("u8", fb, "DistL1", DistL1, DistL1 {}, None, (0..dim).map(|_| BIGRNG.with(|g| g.borrow_mut().gen::<u8>())).collect()),
            }
            continue;
        }
        macro_rules! go {
            ($k:expr, $f:expr, $name:expr, $d:ty, $mk:expr, $ptr:expr, $ld:expr, $row:expr) => {{
                let mut v: Vec<Vec<_>> = (0..nr + nq).map(|_| $row).collect();
                let q = v.split_off(nr);
                session::<_, $d>(t, $k, &$f, $name, $ptr, $ld, &|| $mk, v, q, r, &mut fo, &mut out)
            }};
        }
        macro_rules! unit {
            ($p:expr) => {{
                let v: Vec<f32> = (0..dim + 1).map(|_| r.gen::<f32>() + 0.01).collect();
                let s: f32 = if $p == 1 { v.iter().sum() } else { v.iter().map(|x| x * x).sum::<f32>().sqrt() * 1.1 };
                v.iter().map(|x| x / s).collect::<Vec<f32>>()
            }};
        }
        let seli = (t + seed as usize) % NK;
        match seli {
            0 => go!("f32", ff, "DistL1", DistL1, DistL1 {}, None, Some(c::load_hnswdump_f32_DistL1 as Load), (0..dim).map(|_| r.gen::<f32>()).collect()),
            1 => go!("f32", ff, "DistL2", DistL2, DistL2 {}, None, Some(c::load_hnswdump_f32_DistL2 as Load), (0..dim).map(|_| r.gen::<f32>()).collect()),
            2 => go!("f32", ff, "DistDot", DistDot, DistDot {}, None, Some(c::load_hnswdump_f32_DistDot as Load), unit!(2)),
            3 => go!("f32", ff, "DistHellinger", DistHellinger, DistHellinger {}, None, None, unit!(1)),
            4 => go!("f32", ff, "DistJeffreys", DistJeffreys, DistJeffreys {}, None, Some(c::load_hnswdump_f32_DistJeffreys as Load), unit!(1)),
            5 => go!("f32", ff, "DistJensenShannon", DistJensenShannon, DistJensenShannon {}, None, Some(c::load_hnswdump_f32_DistJensenShannon as Load), unit!(1)),
            6 => go!("f32p", ff, "", DistCFFI<f32>, DistCFFI::new(e_f32), Some(e_f32 as CDist<f32>), None, (0..dim).map(|_| r.gen::<f32>()).collect()),
            7 => go!("i32", fi, "DistL1", DistL1, DistL1 {}, None, Some(c::load_hnswdump_i32_DistL1 as Load), (0..dim).map(|_| r.gen_range(-1000..1000)).collect()),
            8 => go!("i32", fi, "DistL2", DistL2, DistL2 {}, None, Some(c::load_hnswdump_i32_DistL2 as Load), (0..dim).map(|_| r.gen_range(-1000..1000)).collect()),
            9 => go!("i32", fi, "DistHamming", DistHamming, DistHamming {}, None, Some(c::load_hnswdump_i32_DistHamming as Load), (0..dim).map(|_| r.gen_range(-3..3)).collect()),
            10 => go!("i32p", fi, "", DistCFFI<i32>, DistCFFI::new(e_i32), Some(e_i32 as CDist<i32>), None, (0..dim).map(|_| r.gen_range(-1000..1000)).collect()),
            11 => go!("u32", fu, "DistL1", DistL1, DistL1 {}, None, Some(c::load_hnswdump_u32_DistL1 as Load), (0..dim).map(|_| r.gen_range(0..1000)).collect()),
            12 => go!("u32", fu, "DistL2", DistL2, DistL2 {}, None, Some(c::load_hnswdump_u32_DistL2 as Load), (0..dim).map(|_| r.gen_range(0..1000)).collect()),
            13 => go!("u32", fu, "DistJaccard", DistJaccard, DistJaccard {}, None, Some(c::load_hnswdump_u32_DistJaccard as Load), (0..dim).map(|_| r.gen_range(1..30)).collect()),
            14 => go!("u32", fu, "DistHamming", DistHamming, DistHamming {}, None, Some(c::load_hnswdump_u32_DistHamming as Load), (0..dim).map(|_| r.gen_range(0..4)).collect()),
            15 => go!("u32p", fu, "", DistCFFI<u32>, DistCFFI::new(e_u32), Some(e_u32 as CDist<u32>), None, (0..dim).map(|_| r.gen_range(0..1000)).collect()),
            16 => go!("u16", fh, "DistL1", DistL1, DistL1 {}, None, Some(c::load_hnswdump_u16_DistL1 as Load), (0..dim).map(|_| r.gen_range(0..1000)).collect()),
            17 => go!("u16", fh, "DistL2", DistL2, DistL2 {}, None, Some(c::load_hnswdump_u16_DistL2 as Load), (0..dim).map(|_| r.gen_range(0..1000)).collect()),
            18 => go!("u16", fh, "DistHamming", DistHamming, DistHamming {}, None, Some(c::load_hnswdump_u16_DistHamming as Load), (0..dim).map(|_| r.gen_range(0..4)).collect()),
            19 => go!("u16", fh, "DistJaccard", DistJaccard, DistJaccard {}, None, None, (0..dim).map(|_| r.gen_range(1..30)).collect()),
            20 => go!("u16", fh, "DistLevenshtein", DistLevenshtein, DistLevenshtein {}, None, Some(c::load_hnswdump_u16_DistLevenshtein as Load), (0..r.gen_range(0..7)).map(|_| r.gen_range(97..102)).collect()),
            21 => go!("u16", fh, "DistLevenshtein", DistLevenshtein, DistLevenshtein {}, None, Some(c::load_hnswdump_u16_DistLevenshtein as Load), (0..dim).map(|_| r.gen_range(97..102)).collect()),
            22 => go!("u16p", fh, "", DistCFFI<u16>, DistCFFI::new(e_u16), Some(e_u16 as CDist<u16>), None, (0..dim).map(|_| r.gen_range(0..1000)).collect()),
            23 => go!("u8", fb, "DistL1", DistL1, DistL1 {}, None, Some(c::load_hnswdump_u8_DistL1 as Load), (0..dim).map(|_| r.gen()).collect()),
            24 => go!("u8", fb, "DistL2", DistL2, DistL2 {}, None, Some(c::load_hnswdump_u8_DistL2 as Load), (0..dim).map(|_| r.gen()).collect()),
            25 => go!("u8", fb, "DistHamming", DistHamming, DistHamming {}, None, Some(c::load_hnswdump_u8_DistHamming as Load), (0..dim).map(|_| r.gen_range(0..4)).collect()),
            26 => go!("u8", fb, "DistJaccard", DistJaccard, DistJaccard {}, None, Some(c::load_hnswdump_u8_DistJaccard as Load), (0..dim).map(|_| r.gen_range(1..30)).collect()),
            27 => go!("u8p", fb, "", DistCFFI<u8>, DistCFFI::new(e_u8), Some(e_u8 as CDist<u8>), None, (0..dim).map(|_| r.gen()).collect()),
            28 => go!("f32", ff, "DistL1", DistL1, DistL1 {}, None, Some(c::load_hnswdump_f32_DistL1 as Load), (0..dim).map(|_| r.gen::<f32>()).collect()),
            29 => go!("f32", ff, "DistL2", DistL2, DistL2 {}, None, Some(c::load_hnswdump_f32_DistL2 as Load), (0..dim).map(|_| r.gen::<f32>()).collect()),
            _ => cosine(t, c::load_hnswdump_f32_DistCosine, nr, dim, &ff, r, &mut fo, &mut out),
        }
    }
    out.flush();
    println!("sessions {}", out.n);
}

/// DistCosine cannot be created through C, but its dumps are loaded
#[allow(clippy::too_many_arguments)]
fn cosine(t: usize, ld: Load, nr: usize, dim: usize, f: &Fns<f32>, r: &mut StdRng, _fo: &mut Forcer, out: &mut Out) {
    let sc = Scratch::new("capi");
    std::env::set_current_dir(sc.path()).unwrap();
    let h = Hnsw::<f32, DistCosine>::new(4, 100, 16, 20, DistCosine {});
    let mut steps = vec![];
    for i in 0..nr {
        let row: Vec<f32> = (0..dim + 1).map(|_| r.gen::<f32>() + 0.01).collect();
        h.insert((&row, i));
        steps.push(json!({"op": "ins", "pts": [[idtok(i), hex(&row)]]}));
    }
    h.file_dump(Path::new("."), "cos").expect("dump");
    steps.push(json!({"op": "rdump", "base": "cos"}));
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(Path::new("."), "cos")));
    let tw = io.load_hnsw::<f32, DistCosine>().expect("load");
    unsafe {
        let b = "cos";
        let io = c::get_hnswio(b.len() as u64, b.as_ptr());
        let g = ld(io);
        steps.push(json!({"op": "cload", "what": "index", "base": "cos", "ok": !g.is_null()}));
        if !g.is_null() {
            for _ in 0..4 {
                let q: Vec<f32> = (0..dim + 1).map(|_| r.gen::<f32>() + 0.01).collect();
                let (k, ef) = (r.gen_range(1..6), r.gen_range(1..20));
                steps.push(json!({"op": "srch", "what": "reloaded", "k": k, "c": csrch(f, g, &q, k, ef), "r": rnb(&tw.search(&q, k, ef))}));
            }
            (f.drop.unwrap())(g);
        }
    }
    out.line(&json!({"id": format!("capi-{}-cosine", t), "steps": steps}));
    std::env::set_current_dir("/").unwrap();
}

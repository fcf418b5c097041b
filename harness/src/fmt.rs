//! The format of the dump files (`fmt`) and interrupted dumps (`crash`).
use crate::dist::*;
use crate::io::*;
use crate::seq::{gen_ids, insert_one, plan_level};
use crate::util::*;
use hnsw_rs::anndists::dist::distances::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::hnsw::*;
use hnsw_rs::hnswio::*;
use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};
use std::any::type_name;
use std::path::Path;

// ------------------------------------------------------------------------------------------------
// an index as the format sees it

#[derive(Clone, Debug)]
pub struct Nb {
    pub id: u64,
    pub l: u8,
    pub r: i32,
    pub d: f32,
}
#[derive(Clone, Debug)]
pub struct Pt {
    pub id: u64,
    pub data: Vec<u8>,
    pub nb: Vec<Vec<Nb>>,
}
#[derive(Clone, Debug)]
pub struct Ix {
    pub m: u8,
    pub scale: f64,
    pub efc: u64,
    pub dim: u64,
    pub dist: String,
    pub tname: String,
    pub layers: Vec<Vec<Pt>>,
    pub ep: (u64, u8, i32),
    pub esize: usize,
}

const NL: usize = 16;

impl Ix {
    pub fn nbp(&self) -> u64 {
        self.layers.iter().map(|l| l.len() as u64).sum()
    }
    pub fn json(&self) -> Value {
        let ly: Vec<Value> = self
            .layers
            .iter()
            .map(|l| {
                json!(l
                    .iter()
                    .map(|p| {
                        let mut nb: Vec<Value> = p
                            .nb
                            .iter()
                            .map(|v| {
                                json!(v
                                    .iter()
                                    .map(|n| json!({"id": n.id.to_le_bytes(), "l": n.l, "r": n.r, "d": n.d.to_bits().to_le_bytes()}))
                                    .collect::<Vec<_>>())
                            })
                            .collect();
                        while nb.last().map(|x| x.as_array().unwrap().is_empty()).unwrap_or(false) {
                            nb.pop();
                        }
                        json!({"id": p.id.to_le_bytes(), "data": p.data, "nb": nb})
                    })
                    .collect::<Vec<_>>())
            })
            .collect();
        json!({"M": self.m, "scale": self.scale.to_bits().to_le_bytes(), "efc": self.efc.to_le_bytes(), "nbp": self.nbp(), "dim": self.dim,
               "dist": self.dist.as_bytes(), "tname": self.tname.as_bytes(), "layers": ly, "esize": self.esize,
               "ep": {"id": self.ep.0.to_le_bytes(), "l": self.ep.1, "r": self.ep.2}})
    }
    /// the files; the specification checks that they are what the format says
    pub fn files(&self, ver: usize) -> (Vec<u8>, Vec<u8>, Vec<usize>, Vec<usize>) {
        let (mut g, mut d) = (vec![], vec![]);
        let (mut mg, mut md) = (vec![0], vec![0]);
        let magic: u32 = match ver {
            2 => 0x002a677f,
            3 => 0x002a6771,
            _ => 0x002a6779,
        };
        g.extend(magic.to_le_bytes());
        g.push(1);
        g.push(self.m);
        if ver >= 4 {
            g.extend(self.scale.to_bits().to_le_bytes());
        }
        g.push(NL as u8);
        g.extend(self.efc.to_le_bytes());
        g.extend(self.nbp().to_le_bytes());
        g.extend(self.dim.to_le_bytes());
        for s in [&self.dist, &self.tname] {
            g.extend((s.len() as u64).to_le_bytes());
            g.extend(s.as_bytes());
        }
        d.extend(0xa67f0000u32.to_le_bytes());
        d.extend(self.dim.to_le_bytes());
        g.push(self.layers.len() as u8);
        for (l, pts) in self.layers.iter().enumerate() {
            mg.push(g.len());
            g.extend(0x000a676fu32.to_le_bytes());
            g.extend((pts.len() as u64).to_le_bytes());
            for (r, p) in pts.iter().enumerate() {
                mg.push(g.len());
                g.extend(0x000a678fu32.to_le_bytes());
                g.extend(p.id.to_le_bytes());
                g.push(l as u8);
                g.extend((r as i32).to_le_bytes());
                for k in 0..NL {
                    let e = vec![];
                    let v = p.nb.get(k).unwrap_or(&e);
                    g.extend((v.len() as u64).to_le_bytes());
                    for n in v {
                        g.extend(n.id.to_le_bytes());
                        g.push(n.l);
                        g.extend(n.r.to_le_bytes());
                        g.extend(n.d.to_le_bytes());
                    }
                }
                md.push(d.len());
                d.extend(0xa67f0000u32.to_le_bytes());
                d.extend(p.id.to_le_bytes());
                if ver == 2 {
                    d.extend((8 + p.data.len() as u64).to_le_bytes());
                    d.extend(((p.data.len() / self.esize) as u64).to_le_bytes());
                } else {
                    d.extend((p.data.len() as u64).to_le_bytes());
                }
                d.extend(&p.data);
            }
        }
        g.extend(self.ep.0.to_le_bytes());
        g.push(self.ep.1);
        g.extend(self.ep.2.to_le_bytes());
        (g, d, mg, md)
    }
}

fn raw<T>(v: &[T]) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)).to_vec() }
}

/// what an index is, through its public API; the entry point comes from elsewhere
pub fn abs<T: El, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>, ep: (u64, u8, i32), data: bool) -> Ix {
    let pi = h.get_point_indexation();
    let mut layers = vec![];
    for l in 0..h.get_max_level() {
        layers.push(
            pi.get_layer_iterator(l)
                .map(|p| Pt {
                    id: p.get_origin_id() as u64,
                    data: if data { raw(p.get_v()) } else { vec![] },
                    nb: p
                        .get_neighborhood_id()
                        .iter()
                        .map(|v| v.iter().map(|n| Nb { id: n.d_id as u64, l: n.p_id.0, r: n.p_id.1, d: n.distance }).collect())
                        .collect(),
                })
                .collect::<Vec<_>>(),
        );
    }
    Ix {
        m: h.get_max_nb_connection(),
        scale: pi.get_level_scale(),
        efc: h.get_ef_construction() as u64,
        dim: pi.get_data_dimension() as u64,
        dist: h.get_distance_name(),
        tname: type_name::<T>().to_string(),
        layers,
        ep,
        esize: std::mem::size_of::<T>(),
    }
}

pub fn tail_ep(g: &[u8]) -> (u64, u8, i32) {
    if g.len() < 13 {
        return (0, 255, -1);
    }
    let t = &g[g.len() - 13..];
    (u64::from_le_bytes(t[..8].try_into().unwrap()), t[8], i32::from_le_bytes(t[9..].try_into().unwrap()))
}

fn write_files(dir: &Path, base: &str, g: &[u8], d: &[u8]) {
    std::fs::write(dir.join(format!("{}.hnsw.graph", base)), g).unwrap();
    std::fs::write(dir.join(format!("{}.hnsw.data", base)), d).unwrap();
}

/// an arbitrary index: nothing but its being representable is assumed
fn synth<T: El, D: Di<T>>(rows: &[Vec<T>], ids: &[usize], r: &mut StdRng) -> Ix {
    let top = r.gen_range(0..4usize);
    let mut layers: Vec<Vec<Pt>> = vec![vec![]; NL];
    for (i, v) in rows.iter().enumerate() {
        let l = if r.gen_bool(0.1) { r.gen_range(0..NL) } else { r.gen_range(0..=top) };
        layers[l].push(Pt { id: ids[i] as u64, data: raw(v), nb: vec![vec![]; NL] });
    }
    let all: Vec<(u64, u8, i32)> =
        layers.iter().enumerate().flat_map(|(l, v)| v.iter().enumerate().map(move |(r, p)| (p.id, l as u8, r as i32))).collect();
    for l in 0..NL {
        for k in 0..layers[l].len() {
            let id = layers[l][k].id;
            for nl in 0..NL {
                if nl > l || r.gen_bool(0.3) {
                    continue;
                }
                let mut others = all.clone();
                others.retain(|x| x.0 != id);
                others.shuffle(r);
                others.truncate(r.gen_range(0..4));
                let mut d = r.gen::<f32>();
                for o in others {
                    layers[l][k].nb[nl].push(Nb { id: o.0, l: o.1, r: o.2, d });
                    d += 0.001 + r.gen::<f32>();
                }
            }
        }
    }
    let lmax = all.iter().map(|x| x.1).max().unwrap();
    let ep = **all.iter().filter(|x| x.1 == lmax).collect::<Vec<_>>().choose(r).unwrap();
    // the description gives the dimension of the entry point
    let dim = layers[ep.1 as usize][ep.2 as usize].data.len() / std::mem::size_of::<T>();
    Ix {
        m: *[1u8, 2, 3, 8, 16, 255].choose(r).unwrap(),
        scale: r.gen_range(0.05..3.0),
        efc: if r.gen_bool(0.2) { r.gen::<u64>() >> 1 } else { r.gen_range(1..500) },
        dim: dim as u64,
        dist: type_name::<D>().to_string(),
        tname: type_name::<T>().to_string(),
        layers,
        ep,
        esize: std::mem::size_of::<T>(),
    }
}

fn res_of<T: El, D: Distance<T> + Send + Sync>(x: Result<Hnsw<'static, T, D>, String>, data: bool, dir: &Path) -> Value {
    match x {
        Ok(h) => {
            let mut v = json!({"out": 1});
            match guard(|| {
                let ix = abs(&h, (0, 0, 0), data);
                let mut o = ix.json();
                o["mlo"] = json!(h.get_max_level_observed());
                o["count"] = json!(h.get_nb_point());
                o["maxl"] = json!(h.get_max_level());
                o
            }) {
                Ok(o) => v["ix"] = o,
                Err(e) => return json!({"out": 2, "msg": e}),
            }
            if data {
                // dumped again, in the current version
                match guard(|| h.file_dump(dir, "again").map_err(|e| e.to_string())) {
                    Ok(Ok(b)) => v["again"] = json!([read(dir, &b, "graph"), read(dir, &b, "data")]),
                    Ok(Err(e)) | Err(e) => v["again"] = json!([e]),
                }
                let _ = std::fs::remove_file(dir.join("again.hnsw.graph"));
                let _ = std::fs::remove_file(dir.join("again.hnsw.data"));
            }
            v
        }
        Err(e) => json!({"out": if e.starts_with("err") {0} else {2}, "msg": e}),
    }
}

fn fmt_one<T: El, D: Di<T>>(t: usize, kind: &str, rows: Vec<Vec<T>>, ids: Vec<usize>, d: D, r: &mut StdRng, fo: &mut crate::util::Forcer, out: &mut Out) {
    let sc = Scratch::new("fmt");
    let dir = sc.path();
    let mut steps = vec![];
    // a dump of the code
    {
        let m = *[1usize, 2, 3, 4, 8, 64, 255, 256].choose(r).unwrap();
        let mut h = Hnsw::<T, D>::new(m, 20, 16, if r.gen_bool(0.1) { 100_000 } else { r.gen_range(1..20) }, d.clone());
        h.set_extend_candidates(r.gen_bool(0.5));
        h.set_keeping_pruned(r.gen_bool(0.5));
        let mut fac = 1.;
        if r.gen_bool(0.4) {
            fac = *[0.25, 0.5, 0.75].choose(r).unwrap();
            h.modify_level_scale(fac);
        }
        for i in 0..rows.len() {
            if let Some(l) = plan_level(1 + r.gen_range(0..3), 16, m, r) {
                parking_lot::sched::reseed_next(fo.seed(m, 16, fac, l, r));
            }
            insert_one(&h, &rows[i], ids[i], 0);
            parking_lot::sched::reseed_next(None);
        }
        let v = match guard(|| h.file_dump(dir, "cur").map_err(|e| e.to_string())) {
            Ok(Ok(b)) => {
                let g = read(dir, &b, "graph");
                let ix = abs(&h, tail_ep(&g), true);
                json!({"op": "dump", "ix": ix.json(), "graph": g, "data": read(dir, &b, "data")})
            }
            Ok(Err(e)) | Err(e) => json!({"op": "fail", "msg": e}),
        };
        steps.push(v);
    }
    // files of the three versions
    for ver in [2usize, 3, 4] {
        let ix = synth::<T, D>(&rows, &ids, r);
        let (g, da, mg, md) = ix.files(ver);
        write_files(dir, "s", &g, &da);
        let form = r.gen_range(0..4);
        let thr = r.gen_range(0..rows.len() + 2);
        let res = res_of(load::<T, D>(dir, "s", form, thr, d.clone(), r), true, dir);
        let nod = res_of(load_nodata(dir, "s", r.gen_range(0..2), 0), false, dir);
        let descr = match load_description(&mut std::io::Cursor::new(&g)) {
            Ok(de) => json!({"ver": de.format_version, "mode": de.dumpmode, "M": de.max_nb_connection, "scale": de.level_scale.to_bits().to_le_bytes(),
                "nbl": de.nb_layer, "efc": (de.ef as u64).to_le_bytes(), "nbp": de.nb_point, "dim": de.dimension,
                "dist": de.distname.as_bytes(), "tname": de.t_name.as_bytes()}),
            Err(_) => json!({"ver": 0}),
        };
        steps.push(json!({"op": "load", "ver": ver, "ix": ix.json(), "graph": g, "data": da, "form": form, "res": res, "nod": nod, "descr": descr}));
        // marks
        let mut marks = vec![];
        for (f, offs) in [("g", &mg), ("d", &md)] {
            for o in offs {
                let (mut g2, mut d2) = (g.clone(), da.clone());
                let b = if f == "g" { &mut g2 } else { &mut d2 };
                let k = r.gen_range(0..4);
                let old = b[o + k];
                // never the mark of another version
                loop {
                    b[o + k] = if r.gen_bool(0.5) { old ^ (1 << r.gen_range(0..8)) } else { r.gen() };
                    let m = u32::from_le_bytes(b[*o..*o + 4].try_into().unwrap());
                    if b[o + k] != old && ![0x002a677f, 0x002a6771, 0x002a6779].contains(&m) {
                        break;
                    }
                }
                let nv = b[o + k];
                write_files(dir, "m", &g2, &d2);
                let fm = r.gen_range(0..5);
                // an index may come out of the reader of data only if the mark is not one it reads
                let o1 = outcome(&load::<T, D>(dir, "m", fm, thr, d.clone(), r));
                let o2 = outcome(&load_nodata(dir, "m", r.gen_range(0..2), 0));
                let o3 = match guard(|| DataMap::from_hnswdump::<T>(dir, "m").map(|_| ())) {
                    Ok(Ok(_)) => 1,
                    Ok(Err(_)) => 0,
                    Err(_) => 2,
                };
                marks.push(json!([f, o, k, nv, fm, o1, o2, o3]));
            }
        }
        steps.push(json!({"op": "marks", "ver": ver, "ix": ix.json(), "marks": marks}));
    }
    out.line(&json!({"id": format!("fmt-{}-{}", t, kind), "steps": steps}));
}

macro_rules! kinds {
    ($sel:expr, $r:expr, $n:expr, $go:ident) => {{
        let dim = $r.gen_range(1..6);
        match $sel {
            0 => $go!("f32-l2", DistL2 {}, (0..dim).map(|_| $r.gen::<f32>()).collect()),
            1 => $go!("u8-l1", DistL1 {}, (0..dim).map(|_| $r.gen::<u8>()).collect()),
            2 => $go!("u16-lev", DistLevenshtein {}, (0..$r.gen_range(0..6)).map(|_| $r.gen_range(97..103u16)).collect()),
            3 => $go!("i32-l1", DistL1 {}, (0..dim).map(|_| $r.gen_range(-1000..1000i32)).collect()),
            4 => $go!("u32-jac", DistJaccard {}, (0..dim).map(|_| $r.gen_range(1..30u32)).collect()),
            _ => {
                set_table(crate::seq::rand_matrix($r, $n, false));
                let mut i = 0u32;
                $go!("u32-mat", MatDist, {
                    i += 1;
                    vec![i - 1]
                })
            }
        }
    }};
}

pub fn main_fmt(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 20) as usize;
    let maxn = a.u("maxn", 6) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    for t in 0..n {
        let mut r = rng(seed, 7000 + t as u64);
        let r = &mut r;
        let nr = r.gen_range(1..=maxn);
        let ids = gen_ids(r, nr);
        macro_rules! go {
            ($k:expr, $d:expr, $row:expr) => {{
                let rows: Vec<Vec<_>> = (0..nr).map(|_| $row).collect();
                fmt_one(t, $k, rows, ids, $d, r, &mut fo, &mut out)
            }};
        }
        let k = r.gen_range(0..6);
        kinds!(k, r, nr, go)
    }
    out.flush();
    println!("files {}", out.n);
}

// ------------------------------------------------------------------------------------------------
// interrupted dumps

/// system calls that change files: a copy of the directory is taken before each of them while a dump is observed, and
/// writes can be made to fail after a number of bytes
pub mod fsys {
    use std::cell::{Cell, RefCell};
    use std::collections::BTreeMap;
    use std::path::PathBuf;
    pub type State = BTreeMap<String, Vec<u8>>;
    thread_local! {
        static ON: Cell<bool> = const { Cell::new(false) };
        static DIR: RefCell<PathBuf> = const { RefCell::new(PathBuf::new()) };
        static LOG: RefCell<Vec<State>> = const { RefCell::new(vec![]) };
        /// bytes that can still be written to files; -1: no limit
        static LEFT: Cell<i64> = const { Cell::new(-1) };
    }
    pub fn state(d: &std::path::Path) -> State {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            if e.path().is_file() {
                m.insert(e.file_name().to_string_lossy().to_string(), std::fs::read(e.path()).unwrap());
            }
        }
        m
    }
    fn snap() {
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        if !on {
            return;
        }
        ON.with(|o| o.set(false));
        let s = DIR.with(|d| state(&d.borrow()));
        LOG.with(|l| {
            let mut l = l.borrow_mut();
            if l.last() != Some(&s) {
                l.push(s);
            }
        });
        ON.with(|o| o.set(true));
    }
    pub fn observe<R>(d: &std::path::Path, f: impl FnOnce() -> R) -> (R, Vec<State>) {
        LOG.with(|l| l.borrow_mut().clear());
        DIR.with(|x| *x.borrow_mut() = d.to_path_buf());
        ON.with(|o| o.set(true));
        let r = f();
        snap();
        ON.with(|o| o.set(false));
        (r, LOG.with(|l| l.take()))
    }
    pub fn limited<R>(n: i64, f: impl FnOnce() -> R) -> R {
        LEFT.with(|l| l.set(n));
        let r = f();
        LEFT.with(|l| l.set(-1));
        r
    }
    unsafe fn regular(fd: i32) -> bool {
        let mut st: libc::stat = std::mem::zeroed();
        fd > 2 && libc::fstat(fd, &mut st) == 0 && (st.st_mode & libc::S_IFMT) == libc::S_IFREG
    }
    /// how many of n bytes may be written, None: no space
    unsafe fn allow(fd: i32, n: usize) -> Option<usize> {
        let left = LEFT.try_with(|l| l.get()).unwrap_or(-1);
        if left < 0 || n == 0 || !regular(fd) {
            return Some(n);
        }
        if left == 0 {
            *libc::__errno_location() = libc::ENOSPC;
            return None;
        }
        let k = (left as usize).min(n);
        LEFT.with(|l| l.set(left - k as i64));
        Some(k)
    }
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize {
        snap();
        match allow(fd, n) {
            None => -1,
            Some(n) => libc::syscall(libc::SYS_write, fd, b, n) as isize,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
        snap();
        // one buffer at a time, as a writev may do
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.iov_len > 0 {
                return match allow(fd, x.iov_len) {
                    None => -1,
                    Some(k) => libc::syscall(libc::SYS_write, fd, x.iov_base, k) as isize,
                };
            }
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: i32, b: *const libc::c_void, n: usize, off: i64) -> isize {
        snap();
        match allow(fd, n) {
            None => -1,
            Some(n) => libc::syscall(libc::SYS_pwrite64, fd, b, n, off) as isize,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn open64(p: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
        if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
            snap();
        }
        libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
        snap();
        libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
        snap();
        libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, a, 0) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
        snap();
        libc::syscall(libc::SYS_ftruncate, fd, n) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        snap();
        libc::syscall(libc::SYS_close, fd) as i32
    }
}

struct Loader<'a, T: El, D: Di<T>> {
    dir: &'a Path,
    d: D,
    n: usize,
    maxlen: usize,
    _t: std::marker::PhantomData<T>,
}

/// codes of the ways to load: 0..4 those of `load`, 5 graph only, 6 the reader of the data file
const FORMS: [usize; 7] = [0, 1, 2, 3, 4, 5, 6];

impl<T: El, D: Di<T>> Loader<'_, T, D> {
    /// outcome, and for a success a digest of what was loaded
    fn go(&self, form: usize, r: &mut StdRng) -> (i64, String, Value) {
        match form {
            5 => {
                let x = load_nodata(self.dir, "c", r.gen_range(0..4), r.gen_range(0..self.n + 1));
                match &x {
                    Ok(h) => (1, guard(|| content(h, false).to_string()).map(|s| fnv(s.as_bytes())).unwrap_or("panic".into()), json!([])),
                    Err(_) => (outcome(&x), String::new(), json!([])),
                }
            }
            6 => match guard(|| DataMap::from_hnswdump::<T>(self.dir, "c")) {
                Ok(Ok(m)) => {
                    let recs: Vec<Value> = m
                        .get_dataid_iter()
                        .map(|i| {
                            let x = m.get_data::<T>(i).unwrap_or(&[]);
                            // a length that is not the one written must not be followed
                            json!([idtok(*i), if x.len() > self.maxlen { "long".to_string() } else { hex(x) }])
                        })
                        .collect();
                    (1, String::new(), json!(recs))
                }
                Ok(Err(_)) => (0, String::new(), json!([])),
                Err(_) => (2, String::new(), json!([])),
            },
            f => {
                let x = load::<T, D>(self.dir, "c", f, r.gen_range(0..self.n + 1), self.d.clone(), r);
                match &x {
                    Ok(h) => (1, guard(|| content(h, true).to_string()).map(|s| fnv(s.as_bytes())).unwrap_or("panic".into()), json!([])),
                    Err(_) => (outcome(&x), String::new(), json!([])),
                }
            }
        }
    }
}

/// lengths of the description and of the records
fn bounds(ix: &Ix, ver: usize) -> (usize, Vec<usize>) {
    let (_, d, _, mut md) = ix.files(ver);
    md.push(d.len());
    md.remove(0);
    let descr = 6 + if ver >= 4 { 8 } else { 0 } + 1 + 8 * 3 + 16 + ix.dist.len() + ix.tname.len();
    (descr, md)
}

#[allow(clippy::too_many_arguments)]
fn crash_one<T: El, D: Di<T>>(t: usize, kind: &str, rows: Vec<Vec<T>>, ids: Vec<usize>, d: D, big: bool, r: &mut StdRng, fo: &mut Forcer, out: &mut Out) {
    let sc = Scratch::new("crash");
    let dir = sc.path();
    let build = |n: usize, r: &mut StdRng, fo: &mut Forcer| {
        let h = Hnsw::<T, D>::new(3, 20, 16, 10, d.clone());
        for i in 0..n {
            if let Some(l) = plan_level(2, 16, 3, r) {
                parking_lot::sched::reseed_next(fo.seed(3, 16, 1., l, r));
            }
            insert_one(&h, &rows[i], ids[i], 0);
            parking_lot::sched::reseed_next(None);
        }
        h
    };
    let n = rows.len();
    let h = build(n, r, fo);
    // how the dump goes, over nothing or over an older dump
    let older = r.gen_bool(0.5);
    let mut olds = (0usize, 0usize);
    if older {
        let k = r.gen_range(1..=n);
        let g = build(k, r, fo);
        g.file_dump(dir, "c").expect("dump");
        olds = (read(dir, "c", "graph").len(), read(dir, "c", "data").len());
    }
    let old = fsys::state(dir);
    let (res, log) = fsys::observe(dir, || guard(|| h.file_dump(dir, "c").map_err(|e| e.to_string())));
    if !matches!(res, Ok(Ok(_))) {
        out.line(&json!({"id": format!("crash-{}-{}", t, kind), "steps": [{"op": "fail", "msg": format!("{:?}", res)}]}));
        return;
    }
    let (g, da) = (read(dir, "c", "graph"), read(dir, "c", "data"));
    let ix = abs(&h, tail_ep(&g), true);
    let (desc, recs) = bounds(&ix, 4);
    let ld = Loader { dir, d: d.clone(), n, maxlen: rows.iter().map(|x| x.len()).max().unwrap_or(0), _t: std::marker::PhantomData::<T> };
    let mut steps = vec![];
    let full: Vec<Value> = FORMS.iter().map(|f| ld.go(*f, r)).map(|x| json!([x.0, x.1])).collect();
    steps.push(json!({"op": "full", "g": g.len(), "d": da.len(), "descr": desc, "recs": recs, "full": full,
        "ids": ix.layers.iter().flatten().map(|p| idtok(p.id as usize)).collect::<Vec<_>>(),
        "data": ix.layers.iter().flatten().map(|p| hex(&p.data)).collect::<Vec<_>>()}));
    let mut nld = 0;
    // one state of the files: every way to load it
    let mut probe = |gb: Option<&[u8]>, db: Option<&[u8]>, forms: &[usize], r: &mut StdRng| -> Vec<Value> {
        let gp = dir.join("c.hnsw.graph");
        let dp = dir.join("c.hnsw.data");
        for (p, b) in [(&gp, gb), (&dp, db)] {
            match b {
                Some(b) => std::fs::write(p, b).unwrap(),
                None => {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
        let mut v = vec![];
        for f in forms {
            let (o, dig, recs) = ld.go(*f, r);
            nld += 1;
            let same = std::fs::read(&gp).ok().as_deref() == gb && std::fs::read(&dp).ok().as_deref() == db && std::fs::read_dir(dir).unwrap().count() == gb.is_some() as usize + db.is_some() as usize;
            v.push(json!([f, o, dig, recs, same]));
        }
        v
    };
    if !big {
        let mut cuts: Vec<Value> = vec![];
        for a in 0..g.len() {
            let forms: Vec<usize> = if a % 16 == 0 || a > g.len() - 20 { FORMS.to_vec() } else { vec![0, 1, *[2, 3, 4].choose(r).unwrap(), 5, 6] };
            cuts.push(json!([a, da.len(), probe(Some(&g[..a]), Some(&da), &forms, r)]));
        }
        for b in 0..da.len() {
            cuts.push(json!([g.len(), b, probe(Some(&g), Some(&da[..b]), &FORMS, r)]));
        }
        for _ in 0..200 {
            let (a, b) = (r.gen_range(0..=g.len()), r.gen_range(0..=da.len()));
            cuts.push(json!([a, b, probe(Some(&g[..a]), Some(&da[..b]), &[r.gen_range(0..5), 5, 6], r)]));
        }
        // a file is missing: length -1
        cuts.push(json!([-1, da.len(), probe(None, Some(&da), &FORMS, r)]));
        cuts.push(json!([g.len(), -1, probe(Some(&g), None, &FORMS, r)]));
        cuts.push(json!([-1, -1, probe(None, None, &FORMS, r)]));
        for c in cuts.chunks(300) {
            steps.push(json!({"op": "cuts", "cuts": c}));
        }
    }
    // crash points of the dump as it ran: between two system calls, and inside of a write
    let mut states: Vec<(Value, Option<Vec<u8>>, Option<Vec<u8>>)> = vec![];
    let class = |s: &fsys::State| -> Value {
        let one = |ext: &str, full: &[u8]| -> Vec<&str> {
            let mut v = vec![];
            match s.get(&format!("c.hnsw.{}", ext)) {
                None => v.push("missing"),
                Some(b) => {
                    if b == full {
                        v.push("new")
                    } else if full.starts_with(b) {
                        v.push("prefix")
                    }
                    if older && Some(b) == old.get(&format!("c.hnsw.{}", ext)) {
                        v.push("old")
                    }
                }
            }
            v
        };
        json!([one("graph", &g), one("data", &da)])
    };
    let push = |s: &fsys::State, states: &mut Vec<(Value, Option<Vec<u8>>, Option<Vec<u8>>)>| {
        states.push((class(s), s.get("c.hnsw.graph").cloned(), s.get("c.hnsw.data").cloned()));
    };
    for (k, s) in log.iter().enumerate() {
        push(s, &mut states);
        if k + 1 < log.len() {
            for name in ["c.hnsw.graph", "c.hnsw.data"] {
                if let (Some(x), Some(y)) = (s.get(name), log[k + 1].get(name)) {
                    if y.len() > x.len() + 1 && y.starts_with(x) {
                        for _ in 0..6 {
                            let mut z = s.clone();
                            z.insert(name.to_string(), y[..r.gen_range(x.len() + 1..y.len())].to_vec());
                            push(&z, &mut states);
                        }
                    }
                }
            }
        }
    }
    let mut rows_s = vec![];
    for (c, gb, db) in &states {
        rows_s.push(json!([c, probe(gb.as_deref(), db.as_deref(), &[0, 1, 2, 5, 6], r)]));
    }
    // the loads of the old dump
    let mut oldl = vec![];
    if older {
        oldl = probe(old.get("c.hnsw.graph").map(|x| &x[..]), old.get("c.hnsw.data").map(|x| &x[..]), &FORMS, r);
    }
    steps.push(json!({"op": "crash", "older": older, "oldl": oldl, "states": rows_s}));
    // no space left: after some bytes, the writes fail
    let tot = (g.len() + da.len()) as i64;
    let mut faults = vec![];
    let _ = olds;
    let mut budgets: Vec<i64> = vec![0, 1, da.len() as i64, da.len() as i64 - 1, da.len() as i64 + 1, g.len() as i64, tot - 1, tot - 13, tot, tot + 1];
    for _ in 0..12 {
        budgets.push(r.gen_range(0..tot + 2));
    }
    for b in budgets {
        for e in std::fs::read_dir(dir).unwrap() {
            let _ = std::fs::remove_file(e.unwrap().path());
        }
        if older {
            for (k, v) in &old {
                std::fs::write(dir.join(k), v).unwrap();
            }
        }
        let res = fsys::limited(b, || guard(|| h.file_dump(dir, "c").map_err(|e| e.to_string())));
        let s = fsys::state(dir);
        let o = match &res {
            Ok(Ok(_)) => 1,
            Ok(Err(_)) => 0,
            Err(_) => 2,
        };
        let pr = probe(s.get("c.hnsw.graph").map(|x| &x[..]), s.get("c.hnsw.data").map(|x| &x[..]), &[0, 1, 2, 5, 6], r);
        faults.push(json!([b, o, class(&s), pr]));
    }
    steps.push(json!({"op": "faults", "total": tot, "faults": faults}));
    out.line(&json!({"id": format!("crash-{}-{}", t, kind), "steps": steps}));
    println!("loads {}", nld);
}

pub fn main_crash(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 3) as usize;
    let maxn = a.u("maxn", 5) as usize;
    let big = a.u("big", 0) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    for t in 0..n {
        let mut r = rng(seed, 9000 + t as u64);
        let r = &mut r;
        let nr = if big > 0 { r.gen_range(big / 2..=big) } else { r.gen_range(1..=maxn) };
        let ids = gen_ids(r, nr);
        macro_rules! go {
            ($k:expr, $d:expr, $row:expr) => {{
                let rows: Vec<Vec<_>> = (0..nr).map(|_| $row).collect();
                crash_one(t, $k, rows, ids, $d, big > 0, r, &mut fo, &mut out)
            }};
        }
        let k = if big > 0 { r.gen_range(0..5) } else { r.gen_range(0..6) };
        kinds!(k, r, nr, go)
    }
    out.flush();
}

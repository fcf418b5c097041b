use rand::prelude::*;
use rand::rngs::StdRng;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::path::PathBuf;

use hnsw_rs::anndists::dist::distances::Distance;
use hnsw_rs::hnsw::*;

pub struct Args(pub HashMap<String, String>);

impl Args {
    pub fn parse(a: &[String]) -> Args {
        let mut m = HashMap::new();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                let v = a.get(i + 1).cloned().unwrap_or_default();
                m.insert(k.to_string(), v);
                i += 2;
            } else {
                i += 1;
            }
        }
        Args(m)
    }
    pub fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or(d.to_string())
    }
    pub fn u(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
}

pub fn rng(seed: u64, stream: u64) -> StdRng {
    StdRng::seed_from_u64(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03))
}

/// order preserving projection of a distance to a non negative 31 bits integer, -1 for what is not a distance
pub fn bits(d: f32) -> i64 {
    if d.is_nan() || d < 0. || d.is_infinite() {
        -1
    } else if d == 0. {
        0
    } else {
        d.to_bits() as i64
    }
}

pub fn hex<T>(v: &[T]) -> String {
    let b = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(v)) };
    let mut s = String::with_capacity(2 * b.len() + 1);
    s.push('x');
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

pub fn idtok(id: usize) -> String {
    format!("i{}", id)
}

pub fn le8(x: u64) -> Vec<u8> {
    x.to_le_bytes().to_vec()
}

/// a scratch directory, removed when dropped
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::var("VH_SCRATCH").unwrap_or("/tmp".to_string());
        let p = PathBuf::from(base).join(format!(
            "vh-{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Out {
    f: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(p: &str) -> Out {
        Out {
            f: std::io::BufWriter::new(std::fs::File::create(p).expect("cannot create output")),
            n: 0,
        }
    }
    pub fn line(&mut self, v: &Value) {
        writeln!(self.f, "{}", v).unwrap();
        self.n += 1;
    }
    pub fn flush(&mut self) {
        self.f.flush().unwrap();
    }
}

/// runs f, turning a panic of the code under test into an Err(message)
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }),
    }
}

// ------------------------------------------------------------------------------------------------
// snapshot of an index through its public API

#[derive(Clone, Debug, PartialEq)]
pub struct PtSnap {
    pub l: usize,
    pub r: usize,
    /// position the point itself reports
    pub pid: (u8, i32),
    pub id: usize,
    pub data: String,
    pub nb: Vec<Vec<(usize, i64, (u8, i32))>>,
    /// a paused thread was changing the lists
    pub dirty: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub pts: Vec<PtSnap>,
    pub nbp: usize,
    pub cnt: Vec<usize>,
    pub mlo: usize,
    /// an entry point exists (data have at least dimension 1)
    pub ep: bool,
    /// a paused thread was changing the table of points
    pub dirty: bool,
    /// a paused thread was changing the number of points, the entry point
    pub dirty_n: bool,
    pub dirty_e: bool,
}

pub fn snap<T, D>(h: &Hnsw<T, D>) -> Snap
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    let pi = h.get_point_indexation();
    let maxl = h.get_max_level();
    parking_lot::sched::take_dirty();
    let mut s = Snap { nbp: h.get_nb_point(), ..Default::default() };
    s.dirty_n = parking_lot::sched::take_dirty();
    s.mlo = h.get_max_level_observed() as usize;
    s.ep = pi.get_data_dimension() > 0;
    s.dirty_e = parking_lot::sched::take_dirty();
    for l in 0..maxl {
        s.cnt.push(pi.get_layer_nb_point(l));
        let it = pi.get_layer_iterator(l);
        s.dirty = s.dirty || parking_lot::sched::take_dirty();
        for (r, p) in it.enumerate() {
            let mut nb: Vec<Vec<(usize, i64, (u8, i32))>> = p
                .get_neighborhood_id()
                .iter()
                .map(|v| {
                    v.iter()
                        .map(|n| (n.d_id, bits(n.distance), (n.p_id.0, n.p_id.1)))
                        .collect()
                })
                .collect();
            while nb.last().map(|x| x.is_empty()).unwrap_or(false) {
                nb.pop();
            }
            let pid = p.get_point_id();
            s.pts.push(PtSnap {
                l,
                r,
                pid: (pid.0, pid.1),
                id: p.get_origin_id(),
                data: hex(p.get_v()),
                nb,
                dirty: parking_lot::sched::take_dirty(),
            });
        }
    }
    s
}

/// external id -> key of the specification (row number, from 1)
pub type Keys = HashMap<usize, i64>;

impl Snap {
    pub fn pos(&self) -> HashMap<(u8, i32), i64> {
        HashMap::new()
    }
    /// key of the point at each position; 0 if its external id is unknown
    pub fn keymap(&self, keys: &Keys) -> HashMap<(u8, i32), i64> {
        self.pts
            .iter()
            .map(|p| ((p.l as u8, p.r as i32), *keys.get(&p.id).unwrap_or(&0)))
            .collect()
    }
    /// [key, [layer lists of [key by position, distance, key by external id]]] of each point
    pub fn lists(&self, keys: &Keys) -> HashMap<i64, Value> {
        let km = self.keymap(keys);
        self.pts
            .iter()
            .map(|p| {
                let k = *keys.get(&p.id).unwrap_or(&0);
                (k, json_nb(&p.nb, &km, keys))
            })
            .collect()
    }
    pub fn positions(&self, keys: &Keys) -> Value {
        Value::Array(
            self.pts
                .iter()
                .map(|p| {
                    json!([
                        *keys.get(&p.id).unwrap_or(&0),
                        p.l,
                        p.r,
                        idtok(p.id),
                        p.data,
                        p.pid.0,
                        p.pid.1
                    ])
                })
                .collect(),
        )
    }
}

pub fn json_nb(nb: &[Vec<(usize, i64, (u8, i32))>], km: &HashMap<(u8, i32), i64>, keys: &Keys) -> Value {
    Value::Array(
        nb.iter()
            .map(|l| {
                Value::Array(
                    l.iter()
                        .map(|(id, d, pid)| {
                            json!([
                                *km.get(pid).unwrap_or(&0),
                                d,
                                *keys.get(id).unwrap_or(&0)
                            ])
                        })
                        .collect(),
                )
            })
            .collect(),
    )
}

// ------------------------------------------------------------------------------------------------
// forcing the level of the next inserted point: the generator is reseeded (by the stand-in of parking_lot) when it is locked.
// Which seed gives which level is observed on the code itself, on throwaway indexes.

pub struct Forcer {
    maps: HashMap<(usize, usize, u64), Vec<Vec<u64>>>,
    pub works: bool,
}

impl Forcer {
    pub fn new() -> Forcer {
        Forcer {
            maps: HashMap::new(),
            works: true,
        }
    }
    fn observe(m: usize, maxl: usize, factor: f64, seed: u64) -> usize {
        let mut h = Hnsw::<u8, hnsw_rs::anndists::dist::distances::DistL1>::new(
            m,
            1,
            maxl,
            1,
            hnsw_rs::anndists::dist::distances::DistL1 {},
        );
        if factor < 1. {
            h.modify_level_scale(factor);
        }
        parking_lot::sched::reseed_next(Some(seed));
        h.insert((&[1u8], 0));
        parking_lot::sched::reseed_next(None);
        h.get_max_level_observed() as usize
    }
    fn build(&mut self, m: usize, maxl: usize, factor: f64) -> Vec<Vec<u64>> {
        let mut v = vec![vec![]; 16];
        let n = if m <= 4 { 150 } else { 400 };
        for s in 0..n {
            let l = Self::observe(m, maxl, factor, s);
            if l < 16 {
                v[l].push(s);
            }
        }
        for s in 0..5 {
            let l = Self::observe(m, maxl, factor, s);
            if l >= 16 || !v[l].contains(&s) {
                self.works = false;
            }
        }
        v
    }
    /// a seed which should give the level (or the nearest lower one that is reachable)
    pub fn seed(&mut self, m: usize, maxl: usize, factor: f64, level: usize, r: &mut StdRng) -> Option<u64> {
        let key = (m, maxl, (factor * 1000.) as u64);
        if !self.maps.contains_key(&key) {
            let v = self.build(m, maxl, factor);
            self.maps.insert(key, v);
        }
        if !self.works {
            return None;
        }
        let v = &self.maps[&key];
        (0..=level.min(15)).rev().find(|l| !v[*l].is_empty()).map(|l| *v[l].choose(r).unwrap())
    }
    /// is this exact level reachable by forcing
    pub fn can(&mut self, m: usize, maxl: usize, factor: f64, level: usize, r: &mut StdRng) -> bool {
        let _ = self.seed(m, maxl, factor, 0, r);
        self.works
            && level < 16
            && !self.maps[&(m, maxl, (factor * 1000.) as u64)][level].is_empty()
    }
}

// ------------------------------------------------------------------------------------------- bytes allocated

/// the system allocator; the bytes allocated and freed are counted while asked
struct Counting;
static COUNT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static BYTES: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if COUNT.load(std::sync::atomic::Ordering::Relaxed) {
            BYTES.fetch_add(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        if COUNT.load(std::sync::atomic::Ordering::Relaxed) {
            BYTES.fetch_sub(l.size() as i64, std::sync::atomic::Ordering::Relaxed);
        }
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
pub fn count_bytes(on: bool) {
    COUNT.store(on, std::sync::atomic::Ordering::SeqCst);
}
pub fn bytes() -> i64 {
    BYTES.load(std::sync::atomic::Ordering::SeqCst)
}

//! Distances given by an explicit table, so that the specification and the code see exactly the same numbers.
use hnsw_rs::anndists::dist::distances::Distance;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

pub struct Table {
    pub n: usize,
    pub d: Vec<f32>,
}

static TABLE: AtomicPtr<Table> = AtomicPtr::new(std::ptr::null_mut());
pub static EVALS: AtomicU64 = AtomicU64::new(0);

/// installs the table of distances used by all MatDist (the old one is leaked: some index may still use it)
pub fn set_table(d: Vec<Vec<f32>>) {
    let n = d.len();
    let t = Box::new(Table {
        n,
        d: d.into_iter().flatten().collect(),
    });
    TABLE.store(Box::into_raw(t), Ordering::SeqCst);
}

#[derive(Default, Clone, Copy, Debug)]
pub struct MatDist;

impl Distance<u32> for MatDist {
    fn eval(&self, a: &[u32], b: &[u32]) -> f32 {
        EVALS.fetch_add(1, Ordering::Relaxed);
        let t = unsafe { &*TABLE.load(Ordering::SeqCst) };
        t.d[a[0] as usize * t.n + b[0] as usize]
    }
}

// ------------------------------------------------------------------------------------------------
// types and distances whose names are close to one another, or long
use hnsw_rs::anndists::dist::distances::DistL1;
use serde::{Deserialize, Serialize};
use std::marker::PhantomData;

#[derive(Default, Clone, Copy, Debug)]
pub struct MyDistL1;
impl Distance<f32> for MyDistL1 {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        DistL1 {}.eval(a, b)
    }
}
#[derive(Default, Clone, Copy, Debug)]
pub struct DistL1Bis;
impl Distance<f32> for DistL1Bis {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        2. * DistL1 {}.eval(a, b)
    }
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Wrap1<D>(PhantomData<D>);
impl<T: Send + Sync, D: Distance<T> + Default> Distance<T> for Wrap1<D> {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        D::default().eval(a, b)
    }
}
#[derive(Default, Clone, Copy, Debug)]
pub struct Wrap2<D>(PhantomData<D>);
impl<T: Send + Sync, D: Distance<T> + Default> Distance<T> for Wrap2<D> {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        3. * D::default().eval(a, b)
    }
}
type W3<D> = Wrap1<Wrap1<Wrap1<D>>>;
/// its name has more than 256 characters
pub type LongDist = W3<W3<W3<W3<W3<W3<DistL1>>>>>>;

pub trait Coord: Clone + Send + Sync {
    fn c(&self) -> f32;
}
#[repr(transparent)]
#[derive(Default, Clone, Copy, Debug, Serialize, Deserialize)]
pub struct PtA(pub f32);
#[repr(transparent)]
#[derive(Default, Clone, Copy, Debug, Serialize, Deserialize)]
pub struct PtB(pub f32);
#[repr(transparent)]
#[derive(Default, Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Deep<T>(pub T);
impl Coord for PtA {
    fn c(&self) -> f32 {
        self.0
    }
}
impl Coord for PtB {
    fn c(&self) -> f32 {
        self.0
    }
}
impl<T: Coord> Coord for Deep<T> {
    fn c(&self) -> f32 {
        self.0.c()
    }
}
type D4<T> = Deep<Deep<Deep<Deep<T>>>>;
/// its name has more than 256 characters
pub type LongEl = D4<D4<D4<D4<D4<PtA>>>>>;
pub fn long_el(x: f32) -> LongEl {
    macro_rules! d4 {
        ($e:expr) => {
            Deep(Deep(Deep(Deep($e))))
        };
    }
    d4!(d4!(d4!(d4!(d4!(PtA(x))))))
}
#[derive(Default, Clone, Copy, Debug)]
pub struct DistPt;
impl<T: Coord> Distance<T> for DistPt {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.c() - y.c()).abs()).sum()
    }
}

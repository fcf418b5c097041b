//! The controlled scheduler: managed threads run one at a time and switch only at lock acquisitions.
use crate::Kind;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Off,
    Bypass,
    Managed(usize),
}

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Off) };
    static RESEED: Cell<Option<u64>> = const { Cell::new(None) };
    static NOISE_STATE: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    static DIRTY: Cell<bool> = const { Cell::new(false) };
}
pub(crate) fn set_dirty() {
    DIRTY.with(|d| d.set(true));
}
/// has a lock held exclusively by a paused thread been passed in bypass mode since the last call
pub fn take_dirty() -> bool {
    DIRTY.with(|d| d.replace(false))
}

static NOISE: AtomicU32 = AtomicU32::new(0);
static NOISE_SEED: AtomicUsize = AtomicUsize::new(1);
static DEAD: AtomicBool = AtomicBool::new(false);

pub fn mode() -> Mode {
    MODE.with(|m| m.get())
}
pub fn dead() -> bool {
    DEAD.load(Ordering::SeqCst)
}

/// runs f with locks that never block (only when all other threads using the same locks are paused)
pub fn bypass<R>(f: impl FnOnce() -> R) -> R {
    let old = MODE.with(|m| m.replace(Mode::Bypass));
    let r = catch_unwind(AssertUnwindSafe(f));
    MODE.with(|m| m.set(old));
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// the next lock of a mutex around a StdRng in this thread reseeds it
pub fn reseed_next(seed: Option<u64>) {
    RESEED.with(|r| r.set(seed));
}
pub(crate) fn take_reseed() -> Option<u64> {
    RESEED.with(|r| r.take())
}

/// per mille probability of a delay before each lock acquisition of unmanaged threads
pub fn set_noise(permille: u32) {
    NOISE.store(permille, Ordering::SeqCst);
}
pub(crate) fn noise() {
    let p = NOISE.load(Ordering::Relaxed);
    if p == 0 {
        return;
    }
    let x = NOISE_STATE.with(|s| {
        let mut x = s.get();
        if x == 0 {
            x = (NOISE_SEED.fetch_add(1, Ordering::SeqCst) as u64)
                .wrapping_mul(0x9E3779B97F4A7C15)
                | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        s.set(x);
        x
    });
    if (x >> 20) % 1000 < p as u64 {
        match x % 8 {
            0..=5 => std::thread::yield_now(),
            6 => std::thread::sleep(Duration::from_micros((x >> 40) % 60)),
            _ => std::thread::sleep(Duration::from_micros((x >> 40) % 400)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Absent,
    Ready,
    Blocked(usize, Kind),
    /// the thread does not come back although it was given the turn: it waits for something that is not a scheduled lock
    External,
    Done,
}

/// what an observer is told
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Event {
    /// thread released an exclusive lock: a state change may have become visible
    WriteUnlock(usize),
}

pub type Strategy = Box<dyn FnMut(&[usize], Option<usize>) -> usize + Send>;
pub type Observer = Box<dyn FnMut(Event) + Send>;

struct Sched {
    status: Vec<Status>,
    current: Option<usize>,
    strategy: Option<Strategy>,
    schedule: Vec<(Vec<usize>, usize)>,
    steps: usize,
    max_steps: usize,
    deadlock: Option<String>,
    overrun: bool,
    started: bool,
    external: bool,
    last_progress: Instant,
}

static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
static OBS: Mutex<Option<Observer>> = Mutex::new(None);

fn lock() -> MutexGuard<'static, Option<Sched>> {
    match SCHED.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

pub const ABANDON: &str = "SHIM_ABANDON";

impl Sched {
    fn ready(&self) -> Vec<usize> {
        (0..self.status.len())
            .filter(|t| self.status[*t] == Status::Ready)
            .collect()
    }
    /// choose the next thread to run; sets the deadlock flag if there is none although some are not done
    fn pick(&mut self, cur: Option<usize>) {
        let ready = self.ready();
        self.last_progress = Instant::now();
        if ready.is_empty() {
            self.current = None;
            if self
                .status
                .iter()
                .any(|s| matches!(s, Status::Blocked(_, _)))
                && !self.status.iter().any(|s| *s == Status::External)
            {
                self.deadlock = Some(format!("{:?}", self.status));
                DEAD.store(true, Ordering::SeqCst);
            }
            return;
        }
        self.steps += 1;
        if self.steps > self.max_steps {
            self.overrun = true;
            DEAD.store(true, Ordering::SeqCst);
            return;
        }
        let cur = cur.filter(|c| ready.contains(c));
        let next = if ready.len() == 1 {
            ready[0]
        } else {
            let mut st = self.strategy.take().unwrap();
            let n = st(&ready, cur);
            self.strategy = Some(st);
            let n = if ready.contains(&n) { n } else { ready[0] };
            self.schedule.push((ready, n));
            n
        };
        self.current = Some(next);
    }
}

fn abandon() -> ! {
    std::panic::panic_any(ABANDON.to_string())
}

fn wait_turn(mut g: MutexGuard<'static, Option<Sched>>, tid: usize) {
    CV.notify_all();
    loop {
        if dead() {
            drop(g);
            if !std::thread::panicking() {
                abandon();
            }
            return;
        }
        match g.as_ref() {
            None => return,
            Some(s) => {
                if s.current == Some(tid) {
                    return;
                }
            }
        }
        g = match CV.wait_timeout(g, Duration::from_millis(200)) {
            Ok((g, _)) => g,
            Err(e) => e.into_inner().0,
        };
    }
}

/// a managed thread is about to acquire a lock
pub(crate) fn decision(tid: usize) {
    if dead() {
        if !std::thread::panicking() {
            abandon();
        }
        return;
    }
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if s.status[tid] == Status::External {
            s.status[tid] = Status::Ready;
            if s.current.is_none() {
                s.pick(Some(tid));
            }
        } else {
            s.pick(Some(tid));
        }
        if s.current == Some(tid) && !dead() {
            return;
        }
    } else {
        return;
    }
    wait_turn(g, tid);
}

/// a managed thread could not get a lock it only tried: another thread runs, if there is one
pub(crate) fn yield_other(tid: usize) {
    if dead() {
        return;
    }
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        if s.status[tid] != Status::Ready || s.current != Some(tid) {
            return;
        }
        let others: Vec<usize> = s.ready().into_iter().filter(|t| *t != tid).collect();
        if others.is_empty() {
            return;
        }
        s.steps += 1;
        if s.steps > s.max_steps {
            s.overrun = true;
            DEAD.store(true, Ordering::SeqCst);
        } else {
            let n = others[s.steps % others.len()];
            s.current = Some(n);
            s.last_progress = Instant::now();
            s.schedule.push((others, n));
        }
    } else {
        return;
    }
    wait_turn(g, tid);
}

pub(crate) fn block(tid: usize, addr: usize, k: Kind) {
    if dead() {
        if !std::thread::panicking() {
            abandon();
        }
        return;
    }
    let mut g = lock();
    if let Some(s) = g.as_mut() {
        let ext = s.status[tid] == Status::External;
        s.status[tid] = Status::Blocked(addr, k);
        if !ext || s.current.is_none() {
            s.pick(None);
        }
    } else {
        return;
    }
    wait_turn(g, tid);
}

static TRIED: AtomicBool = AtomicBool::new(false);
/// the code tries locks without waiting: whether a lock is held then is visible, so releases become scheduling points too
pub(crate) fn tried() {
    TRIED.store(true, Ordering::SeqCst);
}
pub(crate) fn before_release(tid: usize) {
    if TRIED.load(Ordering::SeqCst) && !dead() && !std::thread::panicking() {
        decision(tid);
    }
}

pub(crate) fn acquired(_tid: usize, _addr: usize, _k: Kind) {}

pub(crate) fn released(tid: usize, addr: usize, k: Kind) {
    {
        let mut g = lock();
        if let Some(s) = g.as_mut() {
            for st in s.status.iter_mut() {
                if let Status::Blocked(a, _) = st {
                    if *a == addr {
                        *st = Status::Ready;
                    }
                }
            }
        }
    }
    let external = lock().as_ref().map(|s| s.external).unwrap_or(false);
    if k == Kind::Write && !dead() && !external && !std::thread::panicking() {
        observe(Event::WriteUnlock(tid));
    }
}

fn observe(e: Event) {
    let o = OBS.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(mut f) = o {
        bypass(|| f(e));
        *OBS.lock().unwrap_or_else(|e| e.into_inner()) = Some(f);
    }
}

#[derive(Debug, Default, Clone)]
pub struct RunResult {
    pub deadlock: Option<String>,
    pub overrun: bool,
    /// a thread did not come back within the time limit although it was not waiting for a scheduled lock
    pub stuck: bool,
    /// some thread waited for something else than a scheduled lock: more than one thread may have run at a time
    pub external: bool,
    /// (thread, message)
    pub panics: Vec<(usize, String)>,
    /// decisions: threads that could run, thread chosen
    pub schedule: Vec<(Vec<usize>, usize)>,
    pub steps: usize,
}

/// decision point that is not a lock (used by the driver between two operations)
pub fn yield_point() {
    if let Mode::Managed(tid) = mode() {
        decision(tid);
    }
}

/// Runs the closures, each in a managed thread, under the given strategy.
/// If the result says `stuck`, some threads may still be running.
pub fn run(
    bodies: Vec<Box<dyn FnOnce() + Send>>,
    strategy: Strategy,
    observer: Option<Observer>,
    max_steps: usize,
) -> RunResult {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    let n = bodies.len();
    DEAD.store(false, Ordering::SeqCst);
    *OBS.lock().unwrap_or_else(|e| e.into_inner()) = observer;
    *lock() = Some(Sched {
        status: vec![Status::Absent; n],
        current: None,
        strategy: Some(strategy),
        schedule: vec![],
        steps: 0,
        max_steps,
        deadlock: None,
        overrun: false,
        started: false,
        external: false,
        last_progress: Instant::now(),
    });
    let panics = Arc::new(Mutex::new(Vec::new()));
    let done = Arc::new(AtomicUsize::new(0));
    let mut handles = vec![];
    for (tid, body) in bodies.into_iter().enumerate() {
        let panics = panics.clone();
        let done = done.clone();
        handles.push(std::thread::spawn(move || {
            MODE.with(|m| m.set(Mode::Managed(tid)));
            let r = catch_unwind(AssertUnwindSafe(|| {
                {
                    let mut g = lock();
                    if let Some(s) = g.as_mut() {
                        s.status[tid] = Status::Ready;
                    }
                    wait_turn(g, tid);
                }
                body();
            }));
            MODE.with(|m| m.set(Mode::Off));
            if let Err(e) = r {
                let msg = if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else {
                    "panic".to_string()
                };
                if msg != ABANDON {
                    panics.lock().unwrap().push((tid, msg));
                }
            }
            let mut g = lock();
            if let Some(s) = g.as_mut() {
                s.status[tid] = Status::Done;
                if s.current == Some(tid) || s.current.is_none() {
                    s.pick(None);
                }
            }
            done.fetch_add(1, Ordering::SeqCst);
            CV.notify_all();
        }));
    }
    // start when all are registered
    let mut stuck = false;
    loop {
        let mut g = lock();
        let s = g.as_mut().unwrap();
        if !s.started && s.status.iter().all(|x| *x == Status::Ready) {
            s.started = true;
            s.pick(None);
            CV.notify_all();
        }
        if done.load(Ordering::SeqCst) == n {
            break;
        }
        if s.started && s.last_progress.elapsed() > Duration::from_millis(1500) {
            // the running thread is inside something else than a scheduled lock: let another one run
            if let Some(c) = s.current {
                if s.ready().iter().any(|t| *t != c) && s.status[c] == Status::Ready {
                    s.status[c] = Status::External;
                    s.external = true;
                    s.pick(None);
                    CV.notify_all();
                }
            }
        }
        if s.started && s.last_progress.elapsed() > Duration::from_secs(25) {
            stuck = true;
            DEAD.store(true, Ordering::SeqCst);
            CV.notify_all();
            break;
        }
        let r = CV.wait_timeout(g, Duration::from_millis(50));
        drop(r);
    }
    *OBS.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let s = lock().take().unwrap();
    if !stuck {
        for h in handles {
            let _ = h.join();
        }
        DEAD.store(false, Ordering::SeqCst);
    }
    let panics = panics.lock().unwrap().clone();
    RunResult {
        deadlock: s.deadlock,
        overrun: s.overrun,
        stuck,
        external: s.external,
        panics,
        schedule: s.schedule,
        steps: s.steps,
    }
}

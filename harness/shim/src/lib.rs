//! A stand-in for the crate `parking_lot`, used only by the verification harness (through `[patch.crates-io]`), so that the
//! locks taken by the crate under test become scheduling points of a controlled scheduler, without any hook in that crate.
//!
//! Semantics kept from parking_lot: writer preference (a reader that is not recursive waits behind a waiting writer), no
//! fairness guarantee, no poisoning.  A thread is in one of three modes:
//!   Off      : plain blocking lock, with optional noise (yield/sleep) before each acquisition
//!   Managed  : registered in `sched`, exactly one managed thread runs at a time, and the next one is chosen by a strategy
//!   Bypass   : used by the observer to read the state while all managed threads are paused; never blocks
#![allow(clippy::all)]

pub mod sched;

pub use lock_api;
use std::fmt;
use std::sync::{Condvar as StdCondvar, Mutex as StdMutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Read,
    RecRead,
    Write,
    Upgradable,
}

struct St {
    readers: i64,
    writer: bool,
    waiting_writers: u32,
    upgradable: bool,
}

pub struct RawRwLock {
    st: StdMutex<St>,
    cv: StdCondvar,
}

impl RawRwLock {
    const fn new_raw() -> Self {
        RawRwLock {
            st: StdMutex::new(St {
                readers: 0,
                writer: false,
                waiting_writers: 0,
                upgradable: false,
            }),
            cv: StdCondvar::new(),
        }
    }

    fn addr(&self) -> usize {
        self as *const _ as *const u8 as usize
    }

    fn st(&self) -> std::sync::MutexGuard<'_, St> {
        match self.st.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }

    fn grab(s: &mut St, k: Kind) -> bool {
        match k {
            Kind::Read => {
                if !s.writer && s.waiting_writers == 0 {
                    s.readers += 1;
                    return true;
                }
            }
            Kind::RecRead => {
                if !s.writer {
                    s.readers += 1;
                    return true;
                }
            }
            Kind::Write => {
                if !s.writer && s.readers == 0 && !s.upgradable {
                    s.writer = true;
                    return true;
                }
            }
            Kind::Upgradable => {
                if !s.writer && !s.upgradable && s.waiting_writers == 0 {
                    s.upgradable = true;
                    return true;
                }
            }
        }
        false
    }

    fn acquire(&self, k: Kind) {
        match sched::mode() {
            sched::Mode::Bypass => {
                let mut s = self.st();
                if s.writer {
                    // a paused thread is in the middle of a change of what this lock protects
                    sched::set_dirty();
                }
                match k {
                    Kind::Read | Kind::RecRead => s.readers += 1,
                    Kind::Write => s.writer = true,
                    Kind::Upgradable => s.upgradable = true,
                }
            }
            sched::Mode::Off => {
                sched::noise();
                let mut s = self.st();
                let mut registered = false;
                while !Self::grab(&mut s, k) {
                    if k == Kind::Write && !registered {
                        registered = true;
                        s.waiting_writers += 1;
                    }
                    s = match self.cv.wait(s) {
                        Ok(g) => g,
                        Err(e) => e.into_inner(),
                    };
                    if registered {
                        // a writer that is woken up competes with the others
                        registered = false;
                        s.waiting_writers -= 1;
                        if s.waiting_writers == 0 {
                            self.cv.notify_all();
                        }
                    }
                }
            }
            sched::Mode::Managed(tid) => {
                sched::decision(tid);
                loop {
                    if sched::dead() {
                        // the execution is being abandoned: never block any more
                        let mut s = self.st();
                        match k {
                            Kind::Read | Kind::RecRead => s.readers += 1,
                            Kind::Write => s.writer = true,
                            Kind::Upgradable => s.upgradable = true,
                        }
                        return;
                    }
                    {
                        let mut s = self.st();
                        if Self::grab(&mut s, k) {
                            break;
                        }
                        if k == Kind::Write {
                            s.waiting_writers += 1;
                        }
                    }
                    sched::block(tid, self.addr(), k);
                    if k == Kind::Write {
                        self.st().waiting_writers -= 1;
                    }
                }
                sched::acquired(tid, self.addr(), k);
            }
        }
    }

    fn try_acquire(&self, k: Kind) -> bool {
        match sched::mode() {
            sched::Mode::Bypass => {
                self.acquire(k);
                true
            }
            sched::Mode::Off => {
                sched::noise();
                Self::grab(&mut self.st(), k)
            }
            sched::Mode::Managed(tid) => {
                sched::tried();
                sched::decision(tid);
                let ok = Self::grab(&mut self.st(), k);
                if ok {
                    sched::acquired(tid, self.addr(), k);
                } else {
                    sched::yield_other(tid);
                }
                ok
            }
        }
    }

    fn release(&self, k: Kind) {
        if let sched::Mode::Managed(tid) = sched::mode() {
            sched::before_release(tid);
        }
        {
            let mut s = self.st();
            match k {
                Kind::Read | Kind::RecRead => s.readers -= 1,
                Kind::Write => s.writer = false,
                Kind::Upgradable => s.upgradable = false,
            }
            self.cv.notify_all();
        }
        if let sched::Mode::Managed(tid) = sched::mode() {
            sched::released(tid, self.addr(), k);
        }
    }
}

unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock::new_raw();
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) {
        self.acquire(Kind::Read)
    }
    fn try_lock_shared(&self) -> bool {
        self.try_acquire(Kind::Read)
    }
    unsafe fn unlock_shared(&self) {
        self.release(Kind::Read)
    }
    fn lock_exclusive(&self) {
        self.acquire(Kind::Write)
    }
    fn try_lock_exclusive(&self) -> bool {
        self.try_acquire(Kind::Write)
    }
    unsafe fn unlock_exclusive(&self) {
        self.release(Kind::Write)
    }
    fn is_locked(&self) -> bool {
        let s = self.st();
        s.writer || s.readers > 0 || s.upgradable
    }
    fn is_locked_exclusive(&self) -> bool {
        self.st().writer
    }
}

unsafe impl lock_api::RawRwLockFair for RawRwLock {
    unsafe fn unlock_shared_fair(&self) {
        self.release(Kind::Read)
    }
    unsafe fn unlock_exclusive_fair(&self) {
        self.release(Kind::Write)
    }
}

unsafe impl lock_api::RawRwLockRecursive for RawRwLock {
    fn lock_shared_recursive(&self) {
        self.acquire(Kind::RecRead)
    }
    fn try_lock_shared_recursive(&self) -> bool {
        self.try_acquire(Kind::RecRead)
    }
}

unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        {
            let mut s = self.st();
            s.writer = false;
            s.readers += 1;
            self.cv.notify_all();
        }
        if let sched::Mode::Managed(tid) = sched::mode() {
            sched::released(tid, self.addr(), Kind::Write);
        }
    }
}

unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        self.acquire(Kind::Upgradable)
    }
    fn try_lock_upgradable(&self) -> bool {
        self.try_acquire(Kind::Upgradable)
    }
    unsafe fn unlock_upgradable(&self) {
        self.release(Kind::Upgradable)
    }
    unsafe fn upgrade(&self) {
        // upgradable lock is exclusive with writers and other upgradables: wait for the readers only
        loop {
            {
                let mut s = self.st();
                if s.readers == 0 || sched::dead() {
                    s.upgradable = false;
                    s.writer = true;
                    return;
                }
                s.waiting_writers += 1;
                if !matches!(sched::mode(), sched::Mode::Managed(_)) {
                    s = match self.cv.wait(s) {
                        Ok(g) => g,
                        Err(e) => e.into_inner(),
                    };
                    s.waiting_writers -= 1;
                    continue;
                }
            }
            if let sched::Mode::Managed(tid) = sched::mode() {
                sched::block(tid, self.addr(), Kind::Write);
            }
            self.st().waiting_writers -= 1;
        }
    }
    unsafe fn try_upgrade(&self) -> bool {
        let mut s = self.st();
        if s.readers == 0 {
            s.upgradable = false;
            s.writer = true;
            return true;
        }
        false
    }
}

unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        let mut s = self.st();
        s.upgradable = false;
        s.readers += 1;
        self.cv.notify_all();
    }
    unsafe fn downgrade_to_upgradable(&self) {
        let mut s = self.st();
        s.writer = false;
        s.upgradable = true;
        self.cv.notify_all();
    }
}

// a bounded wait is taken as long enough
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_shared_for(&self, _t: Self::Duration) -> bool {
        self.acquire(Kind::Read);
        true
    }
    fn try_lock_shared_until(&self, _t: Self::Instant) -> bool {
        self.acquire(Kind::Read);
        true
    }
    fn try_lock_exclusive_for(&self, _t: Self::Duration) -> bool {
        self.acquire(Kind::Write);
        true
    }
    fn try_lock_exclusive_until(&self, _t: Self::Instant) -> bool {
        self.acquire(Kind::Write);
        true
    }
}

pub struct RawMutex(RawRwLock);

unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex(RawRwLock::new_raw());
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        self.0.acquire(Kind::Write)
    }
    fn try_lock(&self) -> bool {
        self.0.try_acquire(Kind::Write)
    }
    unsafe fn unlock(&self) {
        self.0.release(Kind::Write)
    }
    fn is_locked(&self) -> bool {
        self.0.st().writer
    }
}

unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        self.0.release(Kind::Write)
    }
}

pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;

pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

/// As parking_lot::Mutex, but a mutex protecting a `StdRng` can be reseeded at the moment it is locked (see `sched::reseed_next`).
pub struct Mutex<T: ?Sized> {
    inner: lock_api::Mutex<RawMutex, T>,
}

impl<T> Mutex<T> {
    pub const fn new(val: T) -> Self {
        Mutex {
            inner: lock_api::Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val),
        }
    }
    pub fn into_inner(self) -> T {
        self.inner.into_inner()
    }
}

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::new(val)
}

impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        let mut g = self.inner.lock();
        Self::seeded(&mut g);
        g
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        let mut g = self.inner.try_lock();
        if let Some(g) = g.as_mut() {
            Self::seeded(g);
        }
        g
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.inner.get_mut()
    }
    pub fn try_lock_for(&self, _t: std::time::Duration) -> Option<MutexGuard<'_, T>> {
        Some(self.lock())
    }
    pub fn is_locked(&self) -> bool {
        self.inner.is_locked()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.inner.data_ptr()
    }
    fn seeded(g: &mut MutexGuard<'_, T>) {
        if std::any::type_name::<T>() == std::any::type_name::<rand::rngs::StdRng>() {
            if let Some(seed) = sched::take_reseed() {
                use rand::SeedableRng;
                let p = (&mut **g) as *mut T as *mut rand::rngs::StdRng;
                unsafe { *p = rand::rngs::StdRng::seed_from_u64(seed) };
            }
        }
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

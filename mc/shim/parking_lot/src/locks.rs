//! Scheduler-aware locks with the interface of `parking_lot`.

use crate::mc::*;
use crate::mc_trace;
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicIsize, Ordering::*};

/// Lock word: 0 free, n > 0 readers, -1 writer; plus the clock released by the last holder.
struct Raw {
    word: AtomicIsize,
    vc: UnsafeCell<(u32, Vc)>,
}
unsafe impl Sync for Raw {}
unsafe impl Send for Raw {}

impl Raw {
    const fn new() -> Raw {
        Raw { word: AtomicIsize::new(0), vc: UnsafeCell::new((0, [0; MAXT])) }
    }
    fn name(&self) -> String {
        let a = &self.word as *const _ as usize;
        match slot_of(a) {
            Some((i, _)) => format!("#{i}+{}", a - slots()[i].addr),
            None => format!("@{:x}", a & 0xff_ffff),
        }
    }
    fn take(&self, m: Mode) -> bool {
        let mut w = self.word.load(Relaxed);
        loop {
            if !lock_admits(w, m)
                || m == Mode::Read && w > 0 && is_model() && rt().writer_waits(&self.word as *const _ as usize)
            {
                return false;
            }
            let n = match m {
                Mode::Read | Mode::Again => w + 1,
                Mode::Write | Mode::Upgrade => -1,
            };
            match self.word.compare_exchange(w, n, AcqRel, Relaxed) {
                Ok(_) => return true,
                Err(x) => w = x,
            }
        }
    }
    fn on_acquire(&self) {
        if is_model() {
            touch_addr(&self.word as *const _ as usize);
            let t = tick();
            let r = rt();
            let (e, v) = unsafe { *self.vc.get() };
            if e == r.epoch {
                vc_join(&mut r.th[t].vc, &v);
            }
        }
    }
    fn lock(&self, m: Mode) {
        if is_model() {
            point();
            touch_addr(&self.word as *const _ as usize);
            while !self.take(m) {
                mc_trace!("waits for lock {} {m:?}", self.name());
                block(State::Lock(&self.word as *const _ as usize, m));
            }
            mc_trace!("locks {} {m:?}", self.name());
            self.on_acquire();
        } else {
            while !self.take(m) {
                std::thread::yield_now();
            }
        }
    }
    fn try_lock(&self, m: Mode) -> bool {
        point();
        if is_model() {
            touch_addr(&self.word as *const _ as usize);
        }
        if self.take(m) {
            mc_trace!("try-locks {} {m:?}", self.name());
            self.on_acquire();
            true
        } else {
            mc_trace!("try-lock {} {m:?} fails", self.name());
            false
        }
    }
    fn unlock(&self, m: Mode) {
        if is_model() {
            point();
            touch_addr(&self.word as *const _ as usize);
            let t = tick();
            let r = rt();
            let p = unsafe { &mut *self.vc.get() };
            if p.0 != r.epoch {
                *p = (r.epoch, [0; MAXT]);
            }
            vc_join(&mut p.1, &r.th[t].vc);
            mc_trace!("unlocks {}", self.name());
        }
        match m {
            Mode::Read | Mode::Again => {
                self.word.fetch_sub(1, AcqRel);
            }
            Mode::Write | Mode::Upgrade => self.word.store(0, Release),
        }
    }
    fn locked(&self) -> bool {
        self.word.load(Relaxed) != 0
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.lock(Mode::Write);
        MutexGuard(self)
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.raw.try_lock(Mode::Write).then(|| MutexGuard(self))
    }
    pub fn try_lock_for(&self, _: std::time::Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.locked()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    /// Unlock while `f` runs.
    pub fn unlocked<U>(s: &mut Self, f: impl FnOnce() -> U) -> U {
        s.0.raw.unlock(Mode::Write);
        let r = f();
        s.0.raw.lock(Mode::Write);
        r
    }
    pub fn bump(s: &mut Self) {
        Self::unlocked(s, || ());
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock(Mode::Write);
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.lock(Mode::Read);
        RwLockReadGuard(self)
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.raw.lock(Mode::Again);
        RwLockReadGuard(self)
    }
    pub fn try_read_recursive(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw.try_lock(Mode::Again).then(|| RwLockReadGuard(self))
    }
    pub fn try_read_for(&self, _: std::time::Duration) -> Option<RwLockReadGuard<'_, T>> {
        self.try_read()
    }
    pub fn try_write_for(&self, _: std::time::Duration) -> Option<RwLockWriteGuard<'_, T>> {
        self.try_write()
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.raw.word.load(Relaxed) < 0
    }
    pub fn data_ptr(&self) -> *mut T {
        self.data.get()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.lock(Mode::Write);
        RwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        self.raw.try_lock(Mode::Read).then(|| RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        self.raw.try_lock(Mode::Write).then(|| RwLockWriteGuard(self))
    }
    pub fn is_locked(&self) -> bool {
        self.raw.locked()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    /// Atomically turn the write lock into a read lock.
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.raw.unlock(Mode::Write);
        l.raw.word.store(1, Release);
        RwLockReadGuard(l)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock(Mode::Read);
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock(Mode::Write);
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

#[derive(Default)]
pub struct Condvar(#[allow(dead_code)] u8);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(0)
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        let key = self as *const _ as usize;
        g.0.raw.unlock(Mode::Write);
        if is_model() {
            block(State::Wait(key));
        } else {
            std::thread::yield_now();
        }
        g.0.raw.lock(Mode::Write);
    }
    pub fn notify_one(&self) -> bool {
        point();
        if is_model() {
            wake(self as *const _ as usize, false);
        }
        true
    }
    pub fn notify_all(&self) -> usize {
        point();
        if is_model() {
            wake(self as *const _ as usize, true);
        }
        1
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar")
    }
}

pub type ReentrantMutexGuard<'a, T> = MutexGuard<'a, T>;

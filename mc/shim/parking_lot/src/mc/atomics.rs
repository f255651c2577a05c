//! Atomics whose every access is a scheduling point, with C11 happens-before clocks and
//! (optionally) stale reads.

use super::alloc::touch_addr;
use super::rt::*;
use std::cell::Cell;
use std::fmt;
use std::sync::atomic::{AtomicUsize as Std, Ordering as O};

pub use std::sync::atomic::Ordering;

struct Store {
    val: usize,
    by: usize,
    clock: u32,
    rel: Vc,
}

struct Read {
    by: usize,
    clock: u32,
    idx: usize,
}

/// Side state of one location in the current execution.
struct Loc {
    rel: Vc,
    hist: Vec<Store>,
    reads: Vec<Read>,
}

static mut LOCS: Vec<Loc> = Vec::new();
static mut NLOCS: usize = 0;

#[allow(static_mut_refs)]
fn locs() -> &'static mut Vec<Loc> {
    unsafe { &mut *std::ptr::addr_of_mut!(LOCS) }
}

/// Words in static storage that an execution used, with the value every execution starts from.
static mut STATICS: Vec<(usize, usize)> = Vec::new();

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn is_static(a: usize) -> bool {
    unsafe { (std::ptr::addr_of!(__data_start) as usize..std::ptr::addr_of!(_end) as usize).contains(&a) }
}

/// Start an execution: forget all side state and give static words their initial values again.
#[allow(static_mut_refs)]
pub fn reset_locs() {
    unsafe {
        NLOCS = 0;
        for &(a, v) in &STATICS {
            (*(a as *const Std)).store(v, O::Relaxed);
        }
    }
}

/// One word of shared memory.
pub struct Core {
    v: Std,
    id: Cell<u64>,
}

unsafe impl Sync for Core {}
unsafe impl Send for Core {}

fn acq(o: O) -> bool {
    matches!(o, O::Acquire | O::AcqRel | O::SeqCst)
}
fn rel(o: O) -> bool {
    matches!(o, O::Release | O::AcqRel | O::SeqCst)
}

impl Core {
    pub const fn new(v: usize) -> Core {
        Core { v: Std::new(v), id: Cell::new(0) }
    }

    fn loc(&self) -> &'static mut Loc {
        let r = rt();
        let id = self.id.get();
        let ls = locs();
        let i = if (id >> 32) as u32 == r.epoch {
            id as u32 as usize
        } else {
            let i = unsafe { NLOCS };
            unsafe { NLOCS += 1 };
            self.note_static();
            if i == ls.len() {
                ls.push(Loc { rel: [0; MAXT], hist: Vec::new(), reads: Vec::new() });
            }
            let l = &mut ls[i];
            l.rel = [0; MAXT];
            l.hist.clear();
            l.reads.clear();
            if r.bounds.stale > 0 {
                // the value at first access is visible to everybody
                l.hist.push(Store { val: self.v.load(O::Relaxed), by: 0, clock: 0, rel: [0; MAXT] });
            }
            self.id.set((u64::from(r.epoch) << 32) | i as u64);
            i
        };
        &mut ls[i]
    }

    #[allow(static_mut_refs)]
    fn note_static(&self) {
        let a = &self.v as *const _ as usize;
        unsafe {
            if is_static(a) && !STATICS.iter().any(|s| s.0 == a) {
                STATICS.push((a, self.v.load(O::Relaxed)));
            }
        }
    }

    fn name(&self) -> String {
        let a = &self.v as *const _ as usize;
        match super::alloc::slot_of(a) {
            Some((i, _)) => format!("#{i}+{}", a - super::alloc::slots()[i].addr),
            None => format!("@{:x}", a & 0xff_ffff),
        }
    }

    fn enter(&self) -> usize {
        point();
        touch_addr(&self.v as *const _ as usize);
        tick()
    }

    pub fn load(&self, o: O) -> usize {
        if !is_model() {
            return self.v.load(o);
        }
        let t = self.enter();
        let r = rt();
        let l = self.loc();
        let mut v = self.v.load(O::Relaxed);
        let mut rl = l.rel;
        if r.bounds.stale > 0 {
            let last = l.hist.len() - 1;
            let mut min = 0;
            for (i, s) in l.hist.iter().enumerate() {
                if s.clock <= r.th[t].vc[s.by] {
                    min = i;
                }
            }
            for x in &l.reads {
                if x.clock <= r.th[t].vc[x.by] && x.idx > min {
                    min = x.idx;
                }
            }
            let mut k = 0;
            if o != O::SeqCst && r.used_s < r.bounds.stale && min < last {
                k = choose(K_STALE, last - min + 1);
                if k > 0 {
                    r.used_s += 1;
                }
            }
            let s = &l.hist[last - k];
            v = s.val;
            rl = s.rel;
            let c = r.th[t].vc[t];
            l.reads.push(Read { by: t, clock: c, idx: last - k });
            if k > 0 {
                crate::mc_trace!("stale read ({k} behind)");
            }
        }
        let th = &mut r.th[t];
        if acq(o) {
            vc_join(&mut th.vc, &rl);
        } else {
            vc_join(&mut th.acq_pending, &rl);
        }
        crate::mc_trace!("load {} -> {v} {o:?}", self.name());
        v
    }

    pub fn store(&self, v: usize, o: O) {
        if !is_model() {
            return self.v.store(v, o);
        }
        let t = self.enter();
        let r = rt();
        let l = self.loc();
        let th = &r.th[t];
        l.rel = if rel(o) { th.vc } else { th.rel_fence };
        self.v.store(v, O::Relaxed);
        if r.bounds.stale > 0 {
            l.hist.push(Store { val: v, by: t, clock: th.vc[t], rel: l.rel });
        }
        crate::mc_trace!("store {} <- {v} {o:?}", self.name());
    }

    /// Read-modify-write; `f` returns the new value or None to fail.
    pub fn rmw(&self, o: O, fail: O, f: impl FnOnce(usize) -> Option<usize>) -> (usize, bool) {
        if !is_model() {
            // not under the explorer: a plain compare-exchange loop on the real word
            let cur = self.v.load(O::SeqCst);
            return match f(cur) {
                Some(n) => {
                    self.v.store(n, O::SeqCst);
                    (cur, true)
                }
                None => (cur, false),
            };
        }
        let t = self.enter();
        let r = rt();
        let l = self.loc();
        let old = self.v.load(O::Relaxed);
        let new = f(old);
        let th = &mut r.th[t];
        let o2 = if new.is_some() { o } else { fail };
        if acq(o2) {
            vc_join(&mut th.vc, &l.rel);
        } else {
            vc_join(&mut th.acq_pending, &l.rel);
        }
        if let Some(n) = new {
            // an RMW continues the release sequence it reads from
            if rel(o) {
                vc_join(&mut l.rel, &th.vc);
            } else {
                vc_join(&mut l.rel, &th.rel_fence);
            }
            self.v.store(n, O::Relaxed);
            if r.bounds.stale > 0 {
                l.hist.push(Store { val: n, by: t, clock: th.vc[t], rel: l.rel });
            }
            crate::mc_trace!("rmw {} {old} -> {n} {o:?}", self.name());
        } else {
            crate::mc_trace!("rmw {} {old} failed", self.name());
        }
        (old, new.is_some())
    }

    pub fn get_mut(&mut self) -> &mut usize {
        self.id.set(0);
        self.v.get_mut()
    }
    pub fn into_inner(self) -> usize {
        self.v.into_inner()
    }
    pub fn peek(&self) -> usize {
        self.v.load(O::SeqCst)
    }
}

pub fn fence(o: O) {
    if !is_model() {
        return std::sync::atomic::fence(o);
    }
    point();
    let t = tick();
    let th = &mut rt().th[t];
    if acq(o) {
        let p = th.acq_pending;
        vc_join(&mut th.vc, &p);
    }
    if rel(o) {
        th.rel_fence = th.vc;
    }
    crate::mc_trace!("fence {o:?}");
}

macro_rules! int_atomic {
    ($n:ident, $t:ty) => {
        pub struct $n(Core);
        #[allow(clippy::missing_errors_doc)]
        impl $n {
            pub const fn new(v: $t) -> $n {
                $n(Core::new(v as usize))
            }
            pub fn load(&self, o: O) -> $t {
                self.0.load(o) as $t
            }
            pub fn store(&self, v: $t, o: O) {
                self.0.store(v as usize, o)
            }
            pub fn swap(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |_| Some(v as usize)).0 as $t
            }
            pub fn fetch_add(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some((x as $t).wrapping_add(v) as usize)).0 as $t
            }
            pub fn fetch_sub(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some((x as $t).wrapping_sub(v) as usize)).0 as $t
            }
            pub fn fetch_and(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some(((x as $t) & v) as usize)).0 as $t
            }
            pub fn fetch_or(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some(((x as $t) | v) as usize)).0 as $t
            }
            pub fn fetch_xor(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some(((x as $t) ^ v) as usize)).0 as $t
            }
            pub fn fetch_max(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some((x as $t).max(v) as usize)).0 as $t
            }
            pub fn fetch_min(&self, v: $t, o: O) -> $t {
                self.0.rmw(o, o, |x| Some((x as $t).min(v) as usize)).0 as $t
            }
            pub fn compare_exchange(&self, c: $t, n: $t, s: O, f: O) -> Result<$t, $t> {
                let (v, ok) = self.0.rmw(s, f, |x| (x as $t == c).then_some(n as usize));
                if ok {
                    Ok(v as $t)
                } else {
                    Err(v as $t)
                }
            }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: O, f: O) -> Result<$t, $t> {
                self.compare_exchange(c, n, s, f)
            }
            pub fn fetch_update(
                &self,
                s: O,
                fo: O,
                mut f: impl FnMut($t) -> Option<$t>,
            ) -> Result<$t, $t> {
                let mut cur = self.load(fo);
                while let Some(n) = f(cur) {
                    match self.compare_exchange(cur, n, s, fo) {
                        Ok(v) => return Ok(v),
                        Err(v) => cur = v,
                    }
                }
                Err(cur)
            }
            pub fn get_mut(&mut self) -> &mut $t {
                unsafe { &mut *(self.0.get_mut() as *mut usize).cast::<$t>() }
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner() as $t
            }
        }
        impl Default for $n {
            fn default() -> Self {
                $n::new(0 as $t)
            }
        }
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (self.0.peek() as $t).fmt(f)
            }
        }
        impl From<$t> for $n {
            fn from(v: $t) -> Self {
                $n::new(v)
            }
        }
    };
}
int_atomic!(AtomicUsize, usize);
int_atomic!(AtomicIsize, isize);
int_atomic!(AtomicU64, u64);
int_atomic!(AtomicI64, i64);
int_atomic!(AtomicU32, u32);
int_atomic!(AtomicI32, i32);
int_atomic!(AtomicU16, u16);
int_atomic!(AtomicU8, u8);
int_atomic!(AtomicI16, i16);
int_atomic!(AtomicI8, i8);

pub struct AtomicBool(Core);
impl AtomicBool {
    pub const fn new(v: bool) -> Self {
        AtomicBool(Core::new(v as usize))
    }
    pub fn load(&self, o: O) -> bool {
        self.0.load(o) != 0
    }
    pub fn store(&self, v: bool, o: O) {
        self.0.store(v as usize, o)
    }
    pub fn swap(&self, v: bool, o: O) -> bool {
        self.0.rmw(o, o, |_| Some(v as usize)).0 != 0
    }
    pub fn fetch_or(&self, v: bool, o: O) -> bool {
        self.0.rmw(o, o, |x| Some(x | v as usize)).0 != 0
    }
    pub fn fetch_and(&self, v: bool, o: O) -> bool {
        self.0.rmw(o, o, |x| Some(x & v as usize)).0 != 0
    }
    pub fn compare_exchange(&self, c: bool, n: bool, s: O, f: O) -> Result<bool, bool> {
        let (v, ok) = self.0.rmw(s, f, |x| ((x != 0) == c).then_some(n as usize));
        if ok {
            Ok(v != 0)
        } else {
            Err(v != 0)
        }
    }
    pub fn compare_exchange_weak(&self, c: bool, n: bool, s: O, f: O) -> Result<bool, bool> {
        self.compare_exchange(c, n, s, f)
    }
    pub fn into_inner(self) -> bool {
        self.0.into_inner() != 0
    }
    pub fn fetch_xor(&self, v: bool, o: O) -> bool {
        self.0.rmw(o, o, |x| Some(x ^ v as usize)).0 != 0
    }
    pub fn fetch_not(&self, o: O) -> bool {
        self.fetch_xor(true, o)
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}
impl fmt::Debug for AtomicBool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0.peek() != 0).fmt(f)
    }
}

/// Pointer atomics keep the pointer itself (provenance) next to the ordering metadata.
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>, Core);
impl<T> AtomicPtr<T> {
    pub const fn new(p: *mut T) -> Self {
        AtomicPtr(std::sync::atomic::AtomicPtr::new(p), Core::new(0))
    }
    pub fn load(&self, o: O) -> *mut T {
        // stale values of pointers are not modelled; the metadata word carries the clocks
        let _ = self.1.load(if o == O::SeqCst { o } else { O::SeqCst });
        self.0.load(O::SeqCst)
    }
    pub fn store(&self, p: *mut T, o: O) {
        self.1.store(0, o);
        self.0.store(p, O::SeqCst);
    }
    pub fn swap(&self, p: *mut T, o: O) -> *mut T {
        self.1.rmw(o, o, |_| Some(0));
        self.0.swap(p, O::SeqCst)
    }
    pub fn compare_exchange(&self, c: *mut T, n: *mut T, s: O, f: O) -> Result<*mut T, *mut T> {
        self.1.rmw(s, f, |_| Some(0));
        self.0.compare_exchange(c, n, O::SeqCst, O::SeqCst)
    }
    pub fn compare_exchange_weak(&self, c: *mut T, n: *mut T, s: O, f: O) -> Result<*mut T, *mut T> {
        self.compare_exchange(c, n, s, f)
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
impl<T> fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

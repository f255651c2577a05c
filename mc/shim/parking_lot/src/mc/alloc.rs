//! Guard-page arena for the allocations under test.
//!
//! Each allocation made inside [`tracked`] gets pages of its own that are never reused within an
//! execution and become inaccessible when freed, so that any later access faults.

use super::rt::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::*};

pub const PAGE: usize = 4096;
pub const NSLOTS: usize = 8192;
const BASE: usize = 0x5000_0000_0000;

#[derive(Clone, Copy)]
pub struct Slot {
    pub size: usize,
    pub align: usize,
    pub addr: usize,
    pub live: bool,
    pub freed: bool,
    /// value destructor ran (set by the harness)
    pub dropped: bool,
    /// harness asked for the destructor to be seen before the memory is returned
    pub wants_drop: bool,
    pub touch: Vc,
    pub user: u32,
}

const S0: Slot = Slot {
    size: 0,
    align: 0,
    addr: 0,
    live: false,
    freed: false,
    dropped: false,
    wants_drop: false,
    touch: [0; MAXT],
    user: u32::MAX,
};

static mut SLOTS: [Slot; NSLOTS] = [S0; NSLOTS];
static USED: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static MAPPED: AtomicUsize = AtomicUsize::new(0);
static HB: AtomicUsize = AtomicUsize::new(0);

static mut TRACK: [(usize, usize); MAXT] = [(0, 0); MAXT];
static mut LAST: [usize; MAXT] = [usize::MAX; MAXT];

pub struct McAlloc;

fn map_arena() {
    if MAPPED.load(Relaxed) == 0 {
        let p = unsafe {
            libc::mmap(
                BASE as *mut _,
                NSLOTS * PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            )
        };
        if p as usize != BASE {
            violation("harness-error", "cannot map the arena");
        }
        MAPPED.store(1, Relaxed);
    }
}

#[inline]
pub fn in_arena(a: usize) -> bool {
    a.wrapping_sub(BASE) < NSLOTS * PAGE
}

#[allow(static_mut_refs)]
pub fn slots() -> &'static mut [Slot; NSLOTS] {
    unsafe { &mut *std::ptr::addr_of_mut!(SLOTS) }
}

/// Arena slot an address belongs to, and whether it is freed.
pub fn slot_of(a: usize) -> Option<(usize, bool)> {
    in_arena(a).then(|| {
        let i = (a - BASE) / PAGE;
        (i, slots()[i].freed)
    })
}

/// Enable happens-before checking of destruction and deallocation.
pub fn set_hb(on: bool) {
    HB.store(on as usize, Relaxed);
}
pub fn hb_on() -> bool {
    HB.load(Relaxed) != 0
}

unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (lo, hi) = TRACK[rt().cur];
        if hi != 0 && l.size() >= lo && l.size() <= hi {
            TRACK[rt().cur] = (0, 0);
            map_arena();
            let i = USED.fetch_add(1, Relaxed);
            if i >= NSLOTS || l.size() > PAGE {
                violation("harness-error", "arena exhausted");
            }
            // place the object at the end of its page, so that overruns fault too
            let mut a = BASE + (i + 1) * PAGE - l.size();
            a &= !(l.align() - 1);
            let mut s = S0;
            s.size = l.size();
            s.align = l.align();
            s.addr = a;
            s.live = true;
            slots()[i] = s;
            LIVE.fetch_add(1, Relaxed);
            LAST[rt().cur] = i;
            return a as *mut u8;
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !in_arena(a) {
            return System.dealloc(p, l);
        }
        arena_free(a, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !in_arena(p as usize) {
            return System.realloc(p, l, n);
        }
        violation("harness-error", "realloc of a managed allocation");
    }
}

fn arena_free(a: usize, l: Layout) {
    let i = (a - BASE) / PAGE;
    let s = &mut slots()[i];
    crate::mc_trace!("frees allocation #{i}");
    if s.freed {
        violation("double-free", &format!("allocation #{i} freed twice"));
    }
    if !s.live || s.addr != a {
        violation("bad-free", &format!("free of {a:#x}, which is not an allocation (slot #{i})"));
    }
    if s.size != l.size() || s.align != l.align() {
        violation(
            "bad-layout",
            &format!(
                "allocation #{i} made with size {} align {} is freed with size {} align {}",
                s.size,
                s.align,
                l.size(),
                l.align()
            ),
        );
    }
    if s.wants_drop && !s.dropped {
        violation("freed-undropped", &format!("memory of allocation #{i} freed without its destructor having run"));
    }
    hb_check(i, "deallocation");
    s.freed = true;
    s.live = false;
    LIVE.fetch_sub(1, Relaxed);
    unsafe { libc::mprotect((BASE + i * PAGE) as *mut _, PAGE, libc::PROT_NONE) };
}

/// Note an access of the current thread to the allocation containing `a`.
#[inline]
pub fn touch_addr(a: usize) {
    if in_arena(a) {
        touch_slot((a - BASE) / PAGE);
    }
}

pub fn touch_slot(i: usize) {
    if is_model() {
        let r = rt();
        let t = r.cur;
        let s = &mut slots()[i];
        if s.freed {
            violation("use-after-free", &format!("access to freed allocation #{i}"));
        }
        s.touch[t] = r.th[t].vc[t];
    }
}

/// Check that all noted accesses of other threads to allocation `i` happen before now.
pub fn hb_check(i: usize, what: &str) {
    if !is_model() || !hb_on() {
        return;
    }
    let r = rt();
    let t = r.cur;
    super::shared::me().hb_checked.fetch_add(1, Relaxed);
    for u in 0..MAXT {
        if u != t && slots()[i].touch[u] > r.th[t].vc[u] {
            violation(
                "unordered",
                &format!("{what} of allocation #{i} by T{t} is not ordered after its last use by T{u}"),
            );
        }
    }
}

/// Run `f`; the first allocation of a size within `[lo, hi]` goes to the arena.
/// Returns the slot used.
pub fn tracked<R>(lo: usize, hi: usize, f: impl FnOnce() -> R) -> (R, usize) {
    let t = rt().cur;
    unsafe {
        LAST[t] = usize::MAX;
        TRACK[t] = (lo.max(1), hi.max(1));
        let r = f();
        TRACK[t] = (0, 0);
        (r, LAST[t])
    }
}

/// Make all pages usable again and forget all slots.
pub fn arena_reset() {
    let n = USED.load(Relaxed).min(NSLOTS);
    if n > 0 {
        unsafe { libc::mprotect(BASE as *mut _, n * PAGE, libc::PROT_READ | libc::PROT_WRITE) };
        for s in &mut slots()[..n] {
            *s = S0;
        }
    }
    USED.store(0, Relaxed);
    LIVE.store(0, Relaxed);
}

pub fn arena_live() -> usize {
    LIVE.load(Relaxed)
}
pub fn arena_used() -> usize {
    USED.load(Relaxed)
}

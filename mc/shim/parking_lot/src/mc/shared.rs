//! Memory shared between a worker process and its parent: the choices made so far (so that the
//! parent knows the schedule even if the worker dies), statistics and the violation record.

use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::*};

pub const MAX_CHOICES: usize = 1 << 15;
pub const MSG: usize = 1 << 15;
pub const MAX_WORKERS: usize = 16;

#[repr(C)]
pub struct Worker {
    pub item: AtomicU64,
    pub busy: AtomicBool,
    pub execs: AtomicU64,
    pub points: AtomicU64,
    pub ops: AtomicU64,
    pub states: AtomicU64,
    pub choices_total: AtomicU64,
    pub max_choices: AtomicU64,
    pub items_done: AtomicU64,
    pub items_truncated: AtomicU64,
    pub counters: [AtomicU64; 16],
    pub hb_checked: AtomicU64,
    /// number of choices in the current execution
    pub n_choices: AtomicU32,
    pub taken: [u16; MAX_CHOICES],
    pub arity: [u16; MAX_CHOICES],
    pub kind: [u8; MAX_CHOICES],
    pub has_violation: AtomicBool,
    pub msg_len: AtomicU32,
    pub msg: [u8; MSG],
    /// start of the current item in ms since the run began
    pub item_started: AtomicU64,
}

#[repr(C)]
pub struct Shared {
    pub next: AtomicU64,
    pub total: AtomicU64,
    pub stop: AtomicBool,
    pub skipped_after_violation: AtomicU64,
    pub workers: [Worker; MAX_WORKERS],
}

static mut SHARED: *mut Shared = std::ptr::null_mut();
static mut ME: usize = 0;

/// Map the shared region (once, before forking).
pub fn shared_init() -> &'static Shared {
    unsafe {
        if SHARED.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap of shared region failed");
            SHARED = p.cast();
        }
        &*SHARED
    }
}

pub fn shared() -> &'static Shared {
    shared_init()
}

pub fn set_worker(i: usize) {
    unsafe { ME = i }
}

#[allow(static_mut_refs)]
pub fn me() -> &'static mut Worker {
    shared_init();
    unsafe { &mut (*SHARED).workers[ME] }
}

/// Store a violation record; async-signal-safe (no allocation).
pub fn record_violation(bytes: &[u8]) {
    let w = me();
    if w.has_violation.swap(true, SeqCst) {
        return;
    }
    let n = bytes.len().min(MSG);
    w.msg[..n].copy_from_slice(&bytes[..n]);
    w.msg_len.store(n as u32, SeqCst);
}

/// Count an event of the given class in this worker's statistics.
pub fn count(i: usize) {
    me().counters[i].fetch_add(1, Relaxed);
}

/// Record of another worker.
#[allow(static_mut_refs)]
pub fn worker_mut(i: usize) -> &'static mut Worker {
    shared_init();
    unsafe { &mut (*SHARED).workers[i] }
}

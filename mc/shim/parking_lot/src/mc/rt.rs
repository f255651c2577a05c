//! Model threads and choices.

use super::shared::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::*};

pub const MAXT: usize = 6;
pub type Vc = [u32; MAXT];

pub fn vc_join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

/// Exit status of a worker that recorded a violation.
pub const EXIT_VIOLATION: i32 = 77;
/// Exit status of a worker whose replayed choices did not fit.
pub const EXIT_NONDET: i32 = 78;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Unused,
    Ready,
    /// waiting for the lock word at this address to admit the mode
    Lock(usize, Mode),
    /// waiting on a condition (a wake-up makes it ready)
    Wait(usize),
    Join(usize),
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Read,
    /// read even if a writer waits
    Again,
    Write,
    Upgrade,
}

pub struct Th {
    pub state: State,
    pub vc: Vc,
    pub rel_fence: Vc,
    pub acq_pending: Vc,
    /// clock of the memory-order view for stale reads: per-location lower bounds live in atomics
    pub run_len: u32,
    /// while set, the thread is only switched away from if it blocks
    pub atomic: bool,
}

/// Bounds of an exploration.
#[derive(Clone, Copy, Debug)]
pub struct Bounds {
    /// preemptions (switches away from a thread that could continue)
    pub preempt: u32,
    /// loads that return something else than the newest value
    pub stale: u32,
    /// whether map iteration order is a choice at every iteration
    pub perms: bool,
    /// scheduling points before one execution counts as not making progress
    pub max_steps: u64,
}

pub struct Rt {
    pub th: [Th; MAXT],
    pub n: usize,
    pub cur: usize,
    pos: usize,
    pub bounds: Bounds,
    pub used_p: u32,
    pub used_s: u32,
    pub steps: u64,
    pub epoch: u32,
    pub order_desc: bool,
    pub live: usize,
}

const TH0: Th = Th {
    state: State::Unused,
    vc: [0; MAXT],
    rel_fence: [0; MAXT],
    acq_pending: [0; MAXT],
    run_len: 0,
    atomic: false,
};

static mut RT: Rt = Rt {
    th: [TH0; MAXT],
    n: 0,
    cur: 0,
    pos: 0,
    bounds: Bounds { preempt: 0, stale: 0, perms: false, max_steps: 200_000 },
    used_p: 0,
    used_s: 0,
    steps: 0,
    epoch: 1,
    order_desc: false,
    live: 0,
};
static ACTIVE: AtomicBool = AtomicBool::new(false);
static TRACE: AtomicBool = AtomicBool::new(false);
static mut EXPECT_PANIC: [bool; MAXT] = [false; MAXT];

#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *std::ptr::addr_of_mut!(RT) }
}

/// Whether the calling thread is a model thread of a running execution.
#[inline]
pub fn is_model() -> bool {
    ACTIVE.load(Relaxed)
}

pub fn tid() -> usize {
    rt().cur
}

pub fn trace_on() -> bool {
    TRACE.load(Relaxed)
}
pub fn set_trace(on: bool) {
    TRACE.store(on, Relaxed)
}
pub fn expect_panic(on: bool) -> bool {
    unsafe { std::mem::replace(&mut EXPECT_PANIC[rt().cur], on) }
}

/// Print an event of the execution if tracing.
#[macro_export]
macro_rules! mc_trace {
    ($($a:tt)*) => { if $crate::mc::trace_on() { $crate::mc::trace_line(format!($($a)*)) } };
}

pub fn trace_line(s: String) {
    let t = tid();
    let line = if is_model() { format!("  T{t} {s}\n") } else { format!("  -  {s}\n") };
    unsafe { libc::write(1, line.as_ptr().cast(), line.len()) };
}

/// Report that the execution violates a property; ends the worker process.
pub fn violation(kind: &str, msg: &str) -> ! {
    let s = format!("{kind}\n{msg}");
    if trace_on() {
        trace_line(format!("!! {kind}: {msg}"));
    }
    record_violation(s.as_bytes());
    unsafe { libc::_exit(EXIT_VIOLATION) }
}

fn nondet(msg: &str) -> ! {
    let s = format!("nondeterminism\n{msg}");
    record_violation(s.as_bytes());
    unsafe { libc::_exit(EXIT_NONDET) }
}

// ---------------------------------------------------------------- choices

/// Kinds of choices.
pub const K_SCHED: u8 = 0;
pub const K_FREE: u8 = 1;
pub const K_STALE: u8 = 2;

/// Make a choice among `n` alternatives (0 is the default).
pub fn choose(kind: u8, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let r = rt();
    let w = me();
    let len = w.n_choices.load(Relaxed) as usize;
    let p = r.pos;
    if p < len {
        if REPLAY.load(Relaxed) {
            if w.taken[p] as usize >= n {
                nondet(&format!("replayed choice {p} is {} of {n}", w.taken[p]));
            }
        } else if w.arity[p] as usize != n || w.kind[p] != kind {
            nondet(&format!(
                "choice {p}: recorded arity {} kind {}, now arity {n} kind {kind}",
                w.arity[p], w.kind[p]
            ));
        }
    } else {
        if p >= MAX_CHOICES {
            violation("no-progress", "an execution made more than 32768 choices");
        }
        w.taken[p] = 0;
        w.arity[p] = n as u16;
        w.kind[p] = kind;
        w.n_choices.store(p as u32 + 1, Relaxed);
    }
    r.pos += 1;
    w.taken[p] as usize
}

/// A choice that is free of cost (harness-level nondeterminism).
pub fn choose_free(n: usize) -> usize {
    choose(K_FREE, n)
}

/// Advance to the next unexplored choice sequence; false if there is none.
pub fn next_path() -> bool {
    let w = me();
    let mut len = w.n_choices.load(Relaxed) as usize;
    while len > 0 {
        let i = len - 1;
        if w.taken[i] + 1 < w.arity[i] {
            w.taken[i] += 1;
            w.n_choices.store(len as u32, Relaxed);
            return true;
        }
        len -= 1;
    }
    w.n_choices.store(0, Relaxed);
    false
}

// ---------------------------------------------------------------- scheduling

pub fn lock_admits(word: isize, m: Mode) -> bool {
    match m {
        Mode::Read | Mode::Again => word >= 0,
        Mode::Write => word == 0,
        Mode::Upgrade => word == 1,
    }
}

impl Rt {
    fn enabled(&self, t: usize) -> bool {
        match self.th[t].state {
            State::Ready => true,
            State::Lock(a, m) => {
                let w = unsafe { &*(a as *const std::sync::atomic::AtomicIsize) }.load(Relaxed);
                lock_admits(w, m) && !(m == Mode::Read && w > 0 && self.writer_waits(a))
            }
            State::Join(u) => self.th[u].state == State::Done,
            State::Unused | State::Done | State::Wait(_) => false,
        }
    }

    /// Whether a thread waits to write, which keeps further readers out.
    pub fn writer_waits(&self, a: usize) -> bool {
        (0..self.n).any(|t| matches!(self.th[t].state, State::Lock(b, Mode::Write | Mode::Upgrade) if a == b))
    }

    fn others(&self, me: usize, out: &mut [usize; MAXT]) -> usize {
        let mut k = 0;
        for t in 0..self.n {
            if t != me && self.enabled(t) {
                out[k] = t;
                k += 1;
            }
        }
        k
    }
}

fn switch_to(u: usize) {
    let r = rt();
    let t = r.cur;
    r.th[u].state = State::Ready;
    r.cur = u;
    r.th[u].run_len = 0;
    if u != t {
        super::fiber::switch(t, u);
    }
}

/// A scheduling point before a shared-memory step of the current thread.
#[inline]
pub fn point() {
    if is_model() {
        point_slow();
    }
}

fn point_slow() {
    let r = rt();
    r.steps += 1;
    if r.live <= 1 {
        if r.steps > r.bounds.max_steps {
            violation("no-progress", "step bound exceeded with a single runnable thread");
        }
        return;
    }
    if r.steps > r.bounds.max_steps {
        violation("no-progress", "step bound exceeded");
    }
    let t = r.cur;
    let mut o = [0; MAXT];
    let k = r.others(t, &mut o);
    if k == 0 || std::thread::panicking() {
        return;
    }
    r.th[t].run_len += 1;
    if r.th[t].run_len > 5_000 {
        // fairness: a thread that spins lets another one run (not counted as a preemption)
        let c = choose(K_FREE, k);
        switch_to(o[c]);
        return;
    }
    if r.used_p >= r.bounds.preempt || r.th[t].atomic {
        return;
    }
    let c = choose(K_SCHED, 1 + k);
    if c != 0 {
        r.used_p += 1;
        mc_trace!("-- preempted in favour of T{}", o[c - 1]);
        switch_to(o[c - 1]);
    }
}

/// From now on (not) to be switched away from except when blocked.
pub fn set_atomic(on: bool) {
    let r = rt();
    r.th[r.cur].atomic = on;
}

/// Block the current thread in `s` until the scheduler resumes it (then `s` holds no more).
pub fn block(s: State) {
    let r = rt();
    let t = r.cur;
    r.steps += 1;
    r.th[t].state = s;
    let mut o = [0; MAXT];
    let mut k = r.others(t, &mut o);
    if r.enabled(t) {
        o[k] = t;
        k += 1;
    }
    if k == 0 {
        deadlock();
    }
    let c = choose(K_FREE, k);
    switch_to(o[c]);
}

fn deadlock() -> ! {
    let r = rt();
    let mut s = String::from("no thread can continue:");
    for t in 0..r.n {
        s.push_str(&format!(" T{t}={:?}", r.th[t].state));
    }
    violation("deadlock", &s)
}

/// Make threads waiting on `key` ready (all or one).
pub fn wake(key: usize, all: bool) {
    let r = rt();
    for t in 0..r.n {
        if r.th[t].state == State::Wait(key) {
            r.th[t].state = State::Ready;
            if !all {
                return;
            }
        }
    }
}

pub fn tick() -> usize {
    let r = rt();
    let t = r.cur;
    r.th[t].vc[t] += 1;
    t
}

/// The current model thread ends; never returns to it.
pub(super) fn finish_thread() {
    mc_trace!("exits");
    let r = rt();
    let t = r.cur;
    r.th[t].state = State::Done;
    r.live -= 1;
    let mut o = [0; MAXT];
    let k = r.others(t, &mut o);
    if k == 0 {
        deadlock();
    }
    let c = choose(K_FREE, k);
    switch_to(o[c]);
}

pub struct JoinHandle {
    t: usize,
}

/// Spawn a model thread. Its thread-local destructors are part of the model.
pub fn spawn<F: FnOnce() + 'static>(f: F) -> JoinHandle {
    let r = rt();
    let p = tick();
    let t = r.n;
    assert!(t < MAXT, "too many model threads");
    r.n += 1;
    r.live += 1;
    let pvc = r.th[p].vc;
    let th = &mut r.th[t];
    th.state = State::Ready;
    th.vc = pvc;
    th.vc[t] += 1;
    th.rel_fence = [0; MAXT];
    th.acq_pending = [0; MAXT];
    th.run_len = 0;
    th.atomic = false;
    super::tls::new_thread(t);
    super::fiber::prepare(t, Box::new(f));
    JoinHandle { t }
}

impl JoinHandle {
    pub fn tid(&self) -> usize {
        self.t
    }
    pub fn join(self) {
        let r = rt();
        if r.th[self.t].state != State::Done {
            block(State::Join(self.t));
        }
        let other = r.th[self.t].vc;
        let t = tick();
        vc_join(&mut r.th[t].vc, &other);
    }
}

/// Run `f` once as an execution with the choices currently recorded for this worker.
/// The calling thread is model thread 0.
pub fn run_once<R>(b: Bounds, f: impl FnOnce() -> R) -> R {
    let r = rt();
    r.bounds = b;
    r.n = 1;
    r.live = 1;
    r.cur = 0;
    r.pos = 0;
    r.used_p = 0;
    r.used_s = 0;
    r.steps = 0;
    r.epoch = r.epoch.wrapping_add(1).max(1);
    for t in 0..MAXT {
        r.th[t].state = State::Unused;
        r.th[t].vc = [0; MAXT];
        r.th[t].rel_fence = [0; MAXT];
        r.th[t].acq_pending = [0; MAXT];
        r.th[t].run_len = 0;
    }
    r.th[0].state = State::Ready;
    r.th[0].vc[0] = 1;
    super::atomics::reset_locs();
    super::alloc::arena_reset();
    super::tls::new_thread(0);
    unsafe { EXPECT_PANIC = [false; MAXT] };
    ACTIVE.store(true, SeqCst);
    let out = match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => violation("panic", "unexpected panic reached the harness"),
    };
    super::tls::exit_thread(0);
    ACTIVE.store(false, SeqCst);
    let w = me();
    w.execs.fetch_add(1, Relaxed);
    w.points.fetch_add(r.steps, Relaxed);
    w.choices_total.fetch_add(r.pos as u64, Relaxed);
    w.max_choices.fetch_max(r.pos as u64, Relaxed);
    if r.pos < w.n_choices.load(Relaxed) as usize && !REPLAY.load(Relaxed) {
        nondet(&format!(
            "execution used {} of {} recorded choices",
            r.pos,
            w.n_choices.load(Relaxed)
        ));
    }
    out
}

/// Explore all choice sequences of `f` within the bounds. Returns false if stopped early.
pub fn explore(b: Bounds, f: impl FnMut()) -> bool {
    me().n_choices.store(0, Relaxed);
    explore_from(b, f)
}

/// As [`explore`], continuing after the choices recorded for this worker.
pub fn explore_on(b: Bounds, f: impl FnMut()) -> bool {
    if !next_path() {
        return true;
    }
    explore_from(b, f)
}

/// As [`explore`], starting with the choices recorded for this worker.
pub fn explore_from(b: Bounds, mut f: impl FnMut()) -> bool {
    loop {
        run_once(b, &mut f);
        if shared().stop.load(Relaxed) {
            return false;
        }
        if !next_path() {
            return true;
        }
    }
}

// ---------------------------------------------------------------- crashes

extern "C" fn on_signal(sig: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let mut buf = [0u8; 256];
    let mut n = 0;
    let mut put = |s: &[u8], n: &mut usize| {
        for &b in s {
            if *n < 256 {
                buf[*n] = b;
                *n += 1;
            }
        }
    };
    if sig == libc::SIGABRT {
        put(b"abort\nthe process aborted (panic that cannot unwind)", &mut n);
    } else {
        let a = unsafe { (*info).si_addr() } as usize;
        if let Some((slot, freed)) = super::alloc::slot_of(a) {
            put(b"use-after-free\nfault in allocation #", &mut n);
            let mut d = [0u8; 20];
            let mut i = 20;
            let mut v = slot;
            loop {
                i -= 1;
                d[i] = b'0' + (v % 10) as u8;
                v /= 10;
                if v == 0 {
                    break;
                }
            }
            put(&d[i..], &mut n);
            put(if freed { b" (freed)" } else { b" (not freed)" }, &mut n);
        } else if a.abs_diff(unsafe { (*ctx.cast::<libc::ucontext_t>()).uc_mcontext.gregs[libc::REG_RSP as usize] } as usize) < 16384 {
            put(b"stack-overflow\nthe stack is used up", &mut n);
        } else {
            put(b"crash\nfault outside any managed allocation", &mut n);
        }
    }
    record_violation(&buf[..n]);
    unsafe { libc::_exit(EXIT_VIOLATION) }
}

/// Install signal handlers and the panic hook of a worker process.
pub fn install_handlers() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if trace_on() {
            trace_line(format!("panic: {msg} at {:?}", info.location()));
        }
        if is_model() && unsafe { EXPECT_PANIC[rt().cur] } {
            return;
        }
        if !is_model() && !ACTIVE.load(Relaxed) {
            eprintln!("harness panic: {msg} at {:?}", info.location());
            unsafe { libc::_exit(3) }
        }
        violation(
            "panic",
            &format!("{msg} ({})", info.location().map(|l| l.to_string()).unwrap_or_default()),
        );
    }));
}

/// Replay: the next execution takes exactly these choices (then the default).
pub fn set_replay(ch: &[u16]) {
    let w = me();
    for (i, &c) in ch.iter().enumerate() {
        w.taken[i] = c;
        w.arity[i] = 0;
        w.kind[i] = 0;
    }
    w.n_choices.store(ch.len() as u32, Relaxed);
    REPLAY.store(true, Relaxed);
}
static REPLAY: AtomicBool = AtomicBool::new(false);

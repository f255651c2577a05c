//! Runs suites of enumerated items in a pool of worker processes and turns what they find into a
//! verdict, replay files and evidence.

use parking_lot::mc::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

/// A finite, indexed family of explorations.
pub struct Suite {
    pub name: &'static str,
    /// bounds and alphabet in words, for the evidence file
    pub bounds: String,
    pub total: u64,
    pub run: Box<dyn Fn(u64)>,
    pub describe: Box<dyn Fn(u64) -> String>,
}

/// What a property check consists of.
pub struct Check {
    pub property: &'static str,
    pub suites: Vec<Suite>,
    /// violation kinds that concern this property; executions with others are set aside
    pub report: Vec<&'static str>,
    pub assumptions: Vec<String>,
    pub wall_cap: Duration,
}

pub struct Found {
    pub suite: &'static str,
    pub item: u64,
    pub explore_no: u64,
    pub choices: Vec<u16>,
    pub kind: String,
    pub msg: String,
}

const BITS: usize = 1 << 27;
static mut BITMAP: *mut u8 = std::ptr::null_mut();

/// Mark an abstract state as visited (bit-state hashing shared by all workers).
pub fn note_state(h: u64) {
    unsafe {
        if BITMAP.is_null() {
            return;
        }
        let i = (h ^ (h >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) as usize % BITS;
        let b = BITMAP.add(i / 8);
        let m = 1u8 << (i % 8);
        if *b & m == 0 {
            (*(b as *const std::sync::atomic::AtomicU8)).fetch_or(m, Relaxed);
        }
    }
}

fn bitmap_init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            BITS / 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        BITMAP = p.cast();
    }
}

fn bitmap_count() -> u64 {
    unsafe {
        let s = std::slice::from_raw_parts(BITMAP.cast::<u64>(), BITS / 64);
        s.iter().map(|x| u64::from(x.count_ones())).sum()
    }
}

// ---------------------------------------------------------------- exploration inside an item

static EXPLORE_NO: AtomicU64 = AtomicU64::new(0);
static REPLAY_NO: AtomicU64 = AtomicU64::new(u64::MAX);
static RESUME_NO: AtomicU64 = AtomicU64::new(u64::MAX);
/// resume with the recorded choices themselves, not with what follows them
static RESUME_SAME: AtomicBool = AtomicBool::new(false);

/// How a worker starts.
#[derive(Clone, Copy, PartialEq, Eq)]
enum Start {
    /// with the next item
    Fresh,
    /// after the execution its predecessor stopped at
    After,
    /// at the execution its predecessor stopped at
    Same,
}

/// Explore all executions of `f`; numbered within the item so that a replay finds it again.
pub fn explore_all(b: Bounds, f: impl FnMut()) {
    explore_split(b, None, f);
}

/// As [`explore_all`], restricted to one part of the space fixed by `f` itself.
pub fn explore_split(b: Bounds, _part: Option<u64>, mut f: impl FnMut()) {
    let no = EXPLORE_NO.fetch_add(1, Relaxed);
    me().counters[15].store(no, Relaxed);
    let want = REPLAY_NO.load(Relaxed);
    if want != u64::MAX {
        if want == no {
            run_once(b, &mut f);
        }
        return;
    }
    let resume = RESUME_NO.load(Relaxed);
    let done = if resume == u64::MAX {
        explore(b, f)
    } else if no < resume {
        return;
    } else {
        // this worker replaces one that stopped at an execution that does not matter here
        RESUME_NO.store(u64::MAX, Relaxed);
        if RESUME_SAME.load(Relaxed) {
            explore_from(b, f)
        } else {
            explore_on(b, f)
        }
    };
    if !done {
        me().items_truncated.fetch_add(1, Relaxed);
    }
}

fn pin(i: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let c = cpus[i % cpus.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}

fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) != 0 {
            return 4;
        }
        (libc::CPU_COUNT(&set) as usize).clamp(1, MAX_WORKERS)
    }
}

fn now_ms(t0: Instant) -> u64 {
    t0.elapsed().as_millis() as u64
}

fn worker_main(i: usize, s: &Suite, t0: Instant, start: Start) -> ! {
    set_worker(i);
    pin(i);
    install_handlers();
    limit_memory();
    crate::warm_up();
    let sh = shared();
    let w = me();
    let mut resume = start != Start::Fresh;
    RESUME_SAME.store(start == Start::Same, Relaxed);
    loop {
        if sh.stop.load(Relaxed) {
            break;
        }
        let item = if resume {
            RESUME_NO.store(w.counters[15].load(Relaxed), Relaxed);
            w.item.load(Relaxed)
        } else {
            sh.next.fetch_add(1, Relaxed)
        };
        resume = false;
        if item >= s.total {
            break;
        }
        w.item.store(item, Relaxed);
        w.item_started.store(now_ms(t0), Relaxed);
        w.busy.store(true, Relaxed);
        EXPLORE_NO.store(0, Relaxed);
        (s.run)(item);
        w.busy.store(false, Relaxed);
        w.items_done.fetch_add(1, Relaxed);
    }
    unsafe { libc::_exit(0) }
}

/// Keep a runaway execution from exhausting the machine.
fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn take_found(wi: usize, suite: &'static str, fallback: &str) -> Found {
    let w = &shared().workers[wi];
    let (kind, msg) = if w.has_violation.load(SeqCst) {
        let n = w.msg_len.load(SeqCst) as usize;
        let s = String::from_utf8_lossy(&w.msg[..n]).into_owned();
        match s.split_once('\n') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (s, String::new()),
        }
    } else {
        ("crash".to_string(), fallback.to_string())
    };
    let n = w.n_choices.load(Relaxed) as usize;
    Found {
        suite,
        item: w.item.load(Relaxed),
        explore_no: w.counters[15].load(Relaxed),
        choices: w.taken[..n].to_vec(),
        kind,
        msg,
    }
}

/// Re-run one execution in a fresh process; returns what it reported.
fn replay_child(s: &Suite, f: &Found, trace: bool) -> Option<(String, String)> {
    child(s, f, trace, true)
}

/// Explore the whole item again in a fresh process (for findings that depend on what earlier
/// executions of the item left behind in the collector).
fn rerun_item(s: &Suite, f: &Found) -> Option<(String, String)> {
    child(s, f, false, false)
}

fn child(s: &Suite, f: &Found, trace: bool, replay: bool) -> Option<(String, String)> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let wi = MAX_WORKERS - 1;
    let w = worker_mut(wi);
    w.has_violation.store(false, SeqCst);
    w.msg_len.store(0, SeqCst);
    w.n_choices.store(f.choices.len() as u32, Relaxed);
    // arities are learnt again: mark as unknown by running with recorded ones
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        set_worker(wi);
        pin(0);
        install_handlers();
        limit_memory();
        crate::warm_up();
        w.item.store(f.item, Relaxed);
        EXPLORE_NO.store(0, Relaxed);
        if replay {
            set_replay(&f.choices);
            REPLAY_NO.store(f.explore_no, Relaxed);
        } else {
            shared().stop.store(false, SeqCst);
        }
        set_trace(trace);
        (s.run)(f.item);
        unsafe { libc::_exit(0) }
    }
    let t0 = Instant::now();
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            break;
        }
        if t0.elapsed() > Duration::from_secs(40) {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
            }
            return Some(("hang".into(), "an execution did not finish within 40 s".into()));
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
        return None;
    }
    let g = take_found(wi, s.name, "worker died");
    Some((g.kind, g.msg))
}

#[derive(Default)]
struct Totals {
    execs: u64,
    points: u64,
    choices: u64,
    max_choices: u64,
    items: u64,
    truncated: u64,
    hb: u64,
    ops: u64,
    counters: [u64; 16],
}

fn reset_worker(w: &Worker) {
    w.has_violation.store(false, SeqCst);
    w.msg_len.store(0, SeqCst);
    w.n_choices.store(0, Relaxed);
    w.busy.store(false, Relaxed);
}

fn zero_stats(w: &Worker) {
    for a in [
        &w.execs, &w.points, &w.choices_total, &w.max_choices, &w.items_done, &w.items_truncated,
        &w.hb_checked, &w.ops, &w.states,
    ] {
        a.store(0, Relaxed);
    }
    for c in &w.counters {
        c.store(0, Relaxed);
    }
}

struct SuiteResult {
    name: &'static str,
    bounds: String,
    total: u64,
    t: Totals,
    complete: bool,
    wall: f64,
    found: Vec<Found>,
    sample: String,
}

fn run_suite(s: &Suite, report: &[&str], deadline: Instant, t0: Instant) -> SuiteResult {
    let sh = shared_init();
    sh.next.store(0, SeqCst);
    sh.total.store(s.total, SeqCst);
    sh.stop.store(false, SeqCst);
    let n = ncpu();
    let start = Instant::now();
    let mut pids: BTreeMap<i32, usize> = BTreeMap::new();
    for w in &sh.workers {
        reset_worker(w);
        zero_stats(w);
    }
    let spawn = |i: usize, start: Start| -> i32 {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            worker_main(i, s, t0, start);
        }
        pid
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    for i in 0..n {
        pids.insert(spawn(i, Start::Fresh), i);
    }
    let mut found: Vec<Found> = Vec::new();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); n];
    let mut started = vec![0u64; n];
    let mut stopped = false;
    let mut ignored = 0u64;
    let mut ignored_kinds: BTreeMap<String, u64> = BTreeMap::new();
    while !pids.is_empty() {
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if pid > 0 {
            let Some(i) = pids.remove(&pid) else { continue };
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                continue;
            }
            let f = take_found(
                i,
                s.name,
                &format!("worker process died (wait status {st:#x})"),
            );
            let w = &sh.workers[i];
            w.has_violation.store(false, SeqCst);
            w.msg_len.store(0, SeqCst);
            w.busy.store(false, Relaxed);
            if !report.contains(&f.kind.as_str()) {
                ignored += 1;
                *ignored_kinds.entry(f.kind.clone()).or_default() += 1;
                if !stopped && Instant::now() < deadline {
                    last[i] = (sh.workers[i].execs.load(Relaxed), Instant::now());
                    started[i] = last[i].0;
                    pids.insert(spawn(i, Start::After), i);
                }
                continue;
            } else if f.kind == "nondeterminism" && w.execs.load(Relaxed) != started[i] {
                // earlier executions may have left something behind: again in a fresh process,
                // which must make progress
                *ignored_kinds.entry("restarted".into()).or_default() += 1;
                if !stopped && Instant::now() < deadline {
                    last[i] = (w.execs.load(Relaxed), Instant::now());
                    started[i] = last[i].0;
                    pids.insert(spawn(i, Start::Same), i);
                }
                continue;
            } else {
                found.push(f);
                // one violation decides; let the others finish quickly
                sh.stop.store(true, SeqCst);
                stopped = true;
            }
            if !stopped && sh.next.load(SeqCst) < s.total {
                last[i] = (sh.workers[i].execs.load(Relaxed), Instant::now());
                pids.insert(spawn(i, Start::Fresh), i);
            }
            continue;
        }
        if !stopped && Instant::now() > deadline {
            sh.stop.store(true, SeqCst);
            stopped = true;
        }
        for (&pid, &i) in &pids {
            let w = &sh.workers[i];
            let e = w.execs.load(Relaxed);
            if e != last[i].0 || !w.busy.load(Relaxed) {
                last[i] = (e, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(30) {
                record_hang(i);
                unsafe { libc::kill(pid, libc::SIGKILL) };
                last[i].1 = Instant::now();
            }
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let mut t = Totals::default();
    for w in &sh.workers[..n] {
        t.execs += w.execs.load(Relaxed);
        t.points += w.points.load(Relaxed);
        t.choices += w.choices_total.load(Relaxed);
        t.max_choices = t.max_choices.max(w.max_choices.load(Relaxed));
        t.items += w.items_done.load(Relaxed);
        t.truncated += w.items_truncated.load(Relaxed);
        t.hb += w.hb_checked.load(Relaxed);
        t.ops += w.ops.load(Relaxed);
        for k in 0..15 {
            t.counters[k] += w.counters[k].load(Relaxed);
        }
    }
    if !ignored_kinds.is_empty() {
        println!("{}: executions set aside because they break another property: {ignored_kinds:?}", s.name);
    }
    let complete = !stopped && t.truncated == 0 && ignored == 0 && found.is_empty();
    SuiteResult {
        name: s.name,
        bounds: s.bounds.clone(),
        total: s.total,
        t,
        complete,
        wall: start.elapsed().as_secs_f64(),
        found,
        sample: (s.describe)(s.total / 2),
    }
}

fn record_hang(i: usize) {
    let w = worker_mut(i);
    let m = b"hang\nan execution made no progress for 30 s";
    w.msg[..m.len()].copy_from_slice(m);
    w.msg_len.store(m.len() as u32, SeqCst);
    w.has_violation.store(true, SeqCst);
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}

/// Run a check; returns the exit status.
pub fn run_check(c: Check, root: &str) -> i32 {
    let t0 = Instant::now();
    bitmap_init();
    shared_init();
    let deadline = t0 + c.wall_cap;
    let mut results = Vec::new();
    let mut exit = 0;
    let mut nviol = 0;
    for s in &c.suites {
        let r = run_suite(s, &c.report, deadline, t0);
        println!(
            "{}: {}/{} items, {} executions, {} points, max depth {}, {}{:.1}s",
            r.name,
            r.t.items,
            r.total,
            r.t.execs,
            r.t.points,
            r.t.max_choices,
            if r.complete { "complete, " } else { "NOT complete, " },
            r.wall
        );
        for f in &r.found {
            if f.kind == "harness-error" || f.kind == "nondeterminism" {
                println!("CHECK ERROR ({}): {} [{} item {}]", f.kind, f.msg, f.suite, f.item);
                exit = exit.max(2);
            }
        }
        if let Some(f) = r
            .found
            .iter()
            .find(|f| f.kind != "harness-error" && f.kind != "nondeterminism")
        {
            // the same schedule must fail again, twice, in fresh processes
            let again: Vec<_> = (0..2).map(|_| replay_child(s, f, false)).collect();
            let same = again.iter().all(|a| a.as_ref().is_some_and(|a| a.0 == f.kind));
            println!("found: {} — {}", f.kind, f.msg);
            println!("  in {} item {}: {}", f.suite, f.item, (s.describe)(f.item));
            if !same {
                println!("  replay gave {again:?}");
            }
            if !same && again.iter().all(Option::is_none) && rerun_item(s, f).is_none() {
                println!("CHECK ERROR: this finding does not reproduce, so nothing is concluded from it");
                exit = exit.max(2);
            } else {
                let path = write_replay(root, c.property, f, same, &(s.describe)(f.item));
                println!("VIOLATION property={} replay={}", c.property, path);
                exit = 1;
                nviol += 1;
            }
        }
        results.push(r);
        if exit != 0 {
            break;
        }
    }
    write_evidence(&c, &results, root, t0.elapsed().as_secs_f64(), nviol);
    exit
}

fn write_replay(root: &str, prop: &str, f: &Found, same: bool, what: &str) -> String {
    let dir = format!("{root}/evidence/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{}-{}.replay", f.suite, f.item);
    let ch: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
    let mut s = String::new();
    let _ = writeln!(s, "property: {prop}");
    let _ = writeln!(s, "tier: {}", tier());
    let _ = writeln!(s, "suite: {}", f.suite);
    let _ = writeln!(s, "item: {}", f.item);
    let _ = writeln!(s, "explore: {}", f.explore_no);
    let _ = writeln!(s, "choices: {}", ch.join(" "));
    let _ = writeln!(s, "kind: {}", f.kind);
    let _ = writeln!(s, "message: {}", f.msg.replace('\n', " "));
    let _ = writeln!(s, "scenario: {}", what.replace('\n', " "));
    let _ = writeln!(s, "reproduced-in-fresh-process: {same}");
    let _ = writeln!(s, "run: /verif/check.sh replay {path}");
    let _ = std::fs::write(&path, s);
    path
}

/// Re-run a replay file with a printed trace.
pub fn replay_file(path: &str, mk: impl Fn(&str) -> Option<Check>) -> i32 {
    let txt = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let mut m: BTreeMap<&str, &str> = BTreeMap::new();
    for l in txt.lines() {
        if let Some((k, v)) = l.split_once(": ") {
            m.insert(k, v);
        }
    }
    std::env::set_var("VERIF_TIER", m.get("tier").copied().unwrap_or("quick"));
    let prop = m.get("property").copied().unwrap_or("");
    let Some(c) = mk(prop) else {
        eprintln!("unknown property {prop}");
        return 2;
    };
    shared_init();
    let suite = m.get("suite").copied().unwrap_or("");
    let Some(s) = c.suites.iter().find(|s| s.name == suite) else {
        eprintln!("unknown suite {suite}");
        return 2;
    };
    let f = Found {
        suite: s.name,
        item: m.get("item").and_then(|x| x.parse().ok()).unwrap_or(0),
        explore_no: m.get("explore").and_then(|x| x.parse().ok()).unwrap_or(0),
        choices: m
            .get("choices")
            .map(|x| x.split_whitespace().filter_map(|y| y.parse().ok()).collect())
            .unwrap_or_default(),
        kind: String::new(),
        msg: String::new(),
    };
    println!("scenario: {}", (s.describe)(f.item));
    match replay_child(s, &f, true) {
        None => {
            println!("replay: no violation");
            0
        }
        Some((k, msg)) => {
            println!("replay: {k}: {msg}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}

fn write_evidence(c: &Check, rs: &[SuiteResult], root: &str, wall: f64, nviol: usize) {
    let mut execs = 0;
    let mut points = 0;
    let mut ops = 0;
    let mut hb = 0;
    let mut complete = true;
    let mut suites = String::new();
    let mut samples = String::new();
    for r in rs {
        execs += r.t.execs;
        points += r.t.points;
        ops += r.t.ops;
        hb += r.t.hb;
        complete &= r.complete;
        if !suites.is_empty() {
            suites.push_str(",\n   ");
            samples.push_str(",\n   ");
        }
        let _ = write!(
            suites,
            "{{\"suite\": \"{}\", \"bounds\": \"{}\", \"items\": {}, \"items_explored\": {}, \"executions\": {}, \"scheduling_points\": {}, \"operations\": {}, \"choices\": {}, \"max_choices_in_one_execution\": {}, \"complete\": {}, \"wall_s\": {:.2}}}",
            r.name, esc(&r.bounds), r.total, r.t.items, r.t.execs, r.t.points, r.t.ops, r.t.choices, r.t.max_choices, r.complete, r.wall
        );
        let _ = write!(samples, "\"{}: {}\"", r.name, esc(&r.sample));
    }
    let asm: Vec<String> = c.assumptions.iter().map(|a| format!("\"{}\"", esc(a))).collect();
    let s = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"scheduling_points\": {},\n  \"ordering_checks\": {},\n  \"exhaustive\": {},\n  \"explanation\": \"states: distinct abstract states (ownership graph, destruction status and engine-specific extras) seen, counted by bit-state hashing; transitions: pointer operations executed; traces: complete executions of the real code, each compared with the reference model after every operation\",\n  \"suites\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        c.property, tier(), seed(), bitmap_count(), ops, execs, points, hb, complete, suites, samples, asm.join(", "), wall, nviol
    );
    let dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{}.json", c.property), s);
}

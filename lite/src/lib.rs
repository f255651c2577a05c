//! Exhaustive enumeration of choices for checks that need no scheduler: every case is run once
//! for every combination of the choices it makes, in a child process, and the parent turns what
//! the child did into a verdict, a replay file and evidence.

use std::collections::HashSet;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

/// The choices of one execution.
#[derive(Default)]
pub struct Chooser {
    path: Vec<(u16, u16)>,
    pos: usize,
    /// deviations from the default (choice 0) still allowed in `dev`
    pub budget: usize,
}

impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        if self.pos == self.path.len() {
            self.path.push((0, n as u16));
        }
        let (c, a) = self.path[self.pos];
        assert_eq!(a as usize, n, "executions must be deterministic");
        self.pos += 1;
        c as usize
    }

    /// As `choose`, with at most `budget` choices other than 0 in one execution.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }

    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }

    /// Move on to the next combination.
    fn next(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((c, a)) = self.path.pop() {
            if c + 1 < a {
                self.path.push((c + 1, a));
                return true;
            }
        }
        false
    }
}

/// What parent and child share.
#[repr(C)]
struct Shared {
    n_suite: u32,
    n_case: u32,
    n_path: u32,
    n_msg: u32,
    suite: [u8; 256],
    case: [u8; 1024],
    path: [u16; 4096],
    msg: [u8; 4096],
    traces: u64,
    transitions: u64,
    states: u64,
    cases: u64,
    suites: u64,
    n_report: u64,
    report: [u8; 1 << 18],
    n_sample: u64,
    sample: [u8; 1 << 14],
}

fn shared() -> *mut Shared {
    static mut P: *mut Shared = std::ptr::null_mut();
    unsafe {
        if P.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            P = p.cast();
        }
        P
    }
}

fn put(dst: &mut [u8], s: &str) -> u32 {
    let n = s.len().min(dst.len());
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    n as u32
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").as_deref() == Ok("thorough")
}

/// The enumeration inside the child.
pub struct Run {
    suite: String,
    seen: HashSet<u64>,
    replay: Option<(String, String, Vec<u16>)>,
    suite_start: (u64, u64, u64),
    bounds: String,
}

/// What one execution amounted to: a fingerprint of the state it looked at and the number of
/// operations of the library it performed.
pub struct Info {
    pub state: u64,
    pub ops: u64,
}

pub fn hash(parts: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for p in parts {
        h = (h ^ p).wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    hash(&s.bytes().map(u64::from).collect::<Vec<_>>())
}

impl Run {
    pub fn suite(&mut self, name: &str, bounds: &str) {
        self.end_suite();
        self.suite = name.into();
        self.bounds = bounds.into();
        let sh = unsafe { &mut *shared() };
        sh.n_suite = put(&mut sh.suite, name);
        self.suite_start = (sh.cases, sh.traces, sh.transitions);
    }

    fn end_suite(&mut self) {
        let sh = unsafe { &mut *shared() };
        if !self.suite.is_empty() && self.replay.is_none() {
            let (c, t, o) = self.suite_start;
            let line = format!(
                "{{\"suite\": \"{}\", \"bounds\": \"{}\", \"cases\": {}, \"executions\": {}, \"operations\": {}}}\n",
                esc(&self.suite), esc(&self.bounds), sh.cases - c, sh.traces - t, sh.transitions - o
            );
            println!("{}: {} cases, {} executions", self.suite, sh.cases - c, sh.traces - t);
            let at = sh.n_report as usize;
            sh.n_report += u64::from(put(&mut sh.report[at..], &line));
        }
        self.suite.clear();
    }

    /// Run one case for every combination of its choices.
    pub fn case(&mut self, name: &str, mut f: impl FnMut(&mut Chooser) -> Result<Info, String>) {
        self.case_dyn(name, &mut f);
    }

    pub fn case_dyn(&mut self, name: &str, mut f: &mut dyn FnMut(&mut Chooser) -> Result<Info, String>) {
        let sh = unsafe { &mut *shared() };
        let mut ch = Chooser::default();
        if let Some((s, c, path)) = &self.replay {
            if *s != self.suite || c != name {
                return;
            }
            // arities are learnt again while running
            ch.path = path.iter().map(|c| (*c, u16::MAX)).collect();
            println!("replaying {s} / {c}, choices {path:?}");
        }
        sh.cases += 1;
        sh.n_case = put(&mut sh.case, name);
        loop {
            for (i, (c, _)) in ch.path.iter().take(4096).enumerate() {
                sh.path[i] = *c;
            }
            sh.n_path = ch.path.len().min(4096) as u32;
            if self.replay.is_some() {
                let fixed: Vec<u16> = ch.path.iter().map(|c| c.0).collect();
                ch = Chooser::default();
                // re-learn the arities by running with the recorded choices
                ch.path = Vec::new();
                let mut r = Replayer { fixed };
                match r.run(&mut f) {
                    Ok(()) => println!("replay: no violation"),
                    Err(m) => fail(&m),
                }
                return;
            }
            ch.budget = 0;
            ch.pos = 0;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ch)));
            // (new choices default to 0, so the recorded path stays valid as a prefix)
            match res {
                Ok(Ok(info)) => {
                    sh.traces += 1;
                    sh.transitions += info.ops;
                    if self.seen.insert(info.state) {
                        sh.states += 1;
                    }
                }
                Ok(Err(m)) => fail(&m),
                Err(e) => {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    fail(&format!("panicked: {m}"));
                }
            }
            if !ch.next() {
                break;
            }
        }
    }

    pub fn sample(&mut self, s: &str) {
        let sh = unsafe { &mut *shared() };
        let at = sh.n_sample as usize;
        if at + s.len() + 1 < sh.sample.len() {
            put(&mut sh.sample[at..], &format!("{s}\n"));
            sh.n_sample += s.len() as u64 + 1;
        }
    }
}

struct Replayer {
    fixed: Vec<u16>,
}
impl Replayer {
    fn run(&mut self, f: &mut dyn FnMut(&mut Chooser) -> Result<Info, String>) -> Result<(), String> {
        // learn one arity at a time
        let mut known: Vec<(u16, u16)> = Vec::new();
        loop {
            let mut ch = Chooser { path: known.clone(), pos: 0, budget: 0 };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut ch)));
            let n = known.len();
            if n >= self.fixed.len() || ch.path.len() <= n {
                return match r {
                    Ok(Ok(_)) => Ok(()),
                    Ok(Err(m)) => Err(m),
                    Err(_) => Err("panicked".into()),
                };
            }
            let a = ch.path[n].1;
            known.push((self.fixed[n], a));
        }
    }
}

fn fail(m: &str) -> ! {
    let sh = unsafe { &mut *shared() };
    sh.n_msg = put(&mut sh.msg, m);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(77) }
}

/// Something is wrong with the check itself.
pub fn harness_error(m: &str) -> ! {
    println!("CHECK ERROR: {m}");
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(2) }
}

fn text(b: &[u8], n: usize) -> String {
    String::from_utf8_lossy(&b[..n]).into_owned()
}

/// Runs `body` in a child process; returns the exit status of the check.
pub fn main(property: &str, what: &str, body: impl Fn(&mut Run)) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| ".".into());
    let replay = args.get(1).filter(|a| *a == "replay").map(|_| {
        let t = std::fs::read_to_string(&args[2]).expect("replay file");
        let get = |k: &str| {
            t.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string()
        };
        std::env::set_var("VERIF_TIER", get("tier"));
        let path = get("choices").split_whitespace().filter_map(|x| x.parse().ok()).collect();
        (get("suite"), get("case"), path)
    });
    let t0 = Instant::now();
    let sh = unsafe { &mut *shared() };
    std::panic::set_hook(Box::new(|_| {}));
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0);
    if pid == 0 {
        let mut r = Run {
            suite: String::new(),
            seen: HashSet::new(),
            replay: replay.clone(),
            suite_start: (0, 0, 0),
            bounds: String::new(),
        };
        body(&mut r);
        r.end_suite();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(0) }
    }
    let mut st = 0;
    let mut last = (0, Instant::now());
    let mut hang = false;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid {
            break;
        }
        let tr = unsafe { std::ptr::read_volatile(&sh.traces) };
        if tr != last.0 {
            last = (tr, Instant::now());
        } else if last.1.elapsed() > Duration::from_secs(60) {
            hang = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let exited = libc::WIFEXITED(st);
    let mut exit = 0;
    let mut nviol = 0;
    let code = libc::WEXITSTATUS(st);
    if !exited || code != 0 {
        if exited && code != 77 && code != 101 {
            exit = 2;
            println!("CHECK ERROR: exit status {code}");
        } else {
            exit = 1;
            nviol = 1;
            let suite = text(&sh.suite, sh.n_suite as usize);
            let case = text(&sh.case, sh.n_case as usize);
            let msg = if hang {
                "no progress for 60 s".to_string()
            } else if exited && code == 77 {
                text(&sh.msg, sh.n_msg as usize)
            } else {
                format!("the process died (wait status {st:#x})")
            };
            println!("found: {msg}");
            println!("  in {suite} / {case}, choices {:?}", &sh.path[..sh.n_path as usize]);
            if replay.is_some() {
                println!("VIOLATION property={property} replay={}", args[2]);
            } else {
                let dir = format!("{root}/evidence/replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{property}-{suite}.replay");
                let ch: Vec<String> = sh.path[..sh.n_path as usize].iter().map(|c| c.to_string()).collect();
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property: {property}\ntier: {}\nsuite: {suite}\ncase: {case}\nchoices: {}\nmessage: {msg}\nrun: /verif/check.sh replay {path}\n",
                        if thorough() { "thorough" } else { "quick" },
                        ch.join(" ")
                    ),
                );
                println!("VIOLATION property={property} replay={path}");
            }
        }
    }
    if replay.is_none() {
        let reports = text(&sh.report, sh.n_report as usize);
        let suites: Vec<&str> = reports.lines().collect();
        let sample_txt = text(&sh.sample, sh.n_sample as usize);
        let samples: Vec<String> = sample_txt.lines().map(|s| format!("\"{}\"", esc(s))).collect();
        let mut s = String::new();
        let _ = write!(
            s,
            "{{\n \"property\": \"{property}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"cases\": {},\n  \"exhaustive\": {},\n  \"explanation\": \"{}\",\n  \"suites\": [\n   {}\n  ],\n  \"samples\": [\n   {}\n  ]\n }},\n \"wall_s\": {:.2},\n \"violations\": {nviol}\n}}\n",
            if thorough() { "thorough" } else { "quick" },
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            sh.states,
            sh.transitions,
            sh.traces,
            sh.cases,
            exit == 0,
            esc(what),
            suites.join(",\n   "),
            samples.join(",\n   "),
            t0.elapsed().as_secs_f64()
        );
        let _ = std::fs::create_dir_all(format!("{root}/evidence"));
        let _ = std::fs::write(format!("{root}/evidence/{property}.json"), s);
    }
    exit
}

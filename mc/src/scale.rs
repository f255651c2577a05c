//! Engine for sizes: families of graphs whose number of nodes, edges or pointers goes through every
//! small number and the neighbourhood of round ones.

use crate::driver::*;
use crate::flavor::Cond;
use crate::seq::Order;
use dumpster::{sync, unsync, Collectable, Visitor};
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

const CANARY: u64 = 0x5ca1_ab1e_0000_0000;

/// A collector with nodes that own any number of pointers.
pub trait Big: Sized + 'static {
    const SYNC: bool;
    const NAME: &'static str;
    type G: 'static;
    /// Make a node, in the arena or not.
    fn new(id: u32, arena: bool) -> Self::G;
    fn clone(g: &Self::G) -> Self::G;
    fn look(g: &Self::G) -> (u32, u64);
    fn push(g: &Self::G, p: Self::G);
    fn each(g: &Self::G, f: &mut dyn FnMut(&Self::G));
    fn collect();
    fn set_cond(c: Cond);
    fn probe();
}

/// What the program has, independent of the collector.
#[derive(Default)]
struct Ref {
    edges: Vec<Vec<u32>>,
    held: Vec<u32>,
    count: Vec<u32>,
    gone: Vec<bool>,
    /// destructor calls
    dropped: Vec<u32>,
}
static mut REF: usize = 0;
fn rf() -> &'static mut Ref {
    unsafe {
        if REF == 0 {
            REF = Box::into_raw(Box::<Ref>::default()) as usize;
        }
        &mut *(REF as *mut Ref)
    }
}
static EXISTING: AtomicUsize = AtomicUsize::new(0);

fn destroyed(id: u32, canary: u64) {
    let r = rf();
    if canary != CANARY ^ u64::from(id) || id as usize >= r.dropped.len() {
        violation("use-after-drop", &format!("the destructor of a node (id {id}) runs on corrupt contents"));
    }
    r.dropped[id as usize] += 1;
    if r.dropped[id as usize] > 1 {
        violation("double-drop", &format!("n{id} is destroyed twice"));
    }
}

macro_rules! big {
    ($b:ident, $n:ident, $m:ident, $sync:expr, $name:expr, $cell:ident, $($get:tt)*) => {
        pub struct $b;
        pub struct $n {
            id: u32,
            canary: u64,
            out: $cell<Vec<$m::Gc<$n>>>,
            _pad: [u64; 20],
        }
        unsafe impl Collectable for $n {
            fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                if self.canary != CANARY ^ u64::from(self.id) {
                    violation("use-after-drop", "a node was traced after its destruction or with corrupt contents");
                }
                self.out.accept(v)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                destroyed(self.id, self.canary);
                self.canary = 0;
            }
        }
        impl Big for $b {
            const SYNC: bool = $sync;
            const NAME: &'static str = $name;
            type G = $m::Gc<$n>;
            fn new(id: u32, arena: bool) -> Self::G {
                let sz = std::mem::size_of::<$n>();
                let n = $n { id, canary: CANARY ^ u64::from(id), out: $cell::new(Vec::new()), _pad: [0; 20] };
                if arena {
                    tracked(sz, sz + 128, || $m::Gc::new(n)).0
                } else {
                    $m::Gc::new(n)
                }
            }
            fn clone(g: &Self::G) -> Self::G {
                g.clone()
            }
            fn look(g: &Self::G) -> (u32, u64) {
                (g.id, g.canary)
            }
            fn push(g: &Self::G, p: Self::G) {
                g.out $($get)* .push(p)
            }
            fn each(g: &Self::G, f: &mut dyn FnMut(&Self::G)) {
                for p in g.out $($get)* .iter() {
                    f(p);
                }
            }
            fn collect() {
                $m::collect()
            }
            fn set_cond(c: Cond) {
                $m::set_collect_condition(match c {
                    Cond::Always => |i| {
                        EXISTING.store(i.n_gcs_existing(), Relaxed);
                        true
                    },
                    Cond::Default => |i| {
                        EXISTING.store(i.n_gcs_existing(), Relaxed);
                        $m::default_collect_condition(i)
                    },
                    _ => |i| {
                        EXISTING.store(i.n_gcs_existing(), Relaxed);
                        false
                    },
                });
            }
            fn probe() {
                drop($m::Gc::new(0u8));
            }
        }
    };
}
big!(BigUs, NodeUs, unsync, false, "unsync", RefCell, .borrow_mut());
big!(BigSy, NodeSy, sync, true, "sync", Mutex, .lock().unwrap());

const FAMILIES: [&str; 9] = [
    "ring of n nodes",
    "chain of n nodes with a loop at its end",
    "hub with n nodes that point back to it",
    "n nodes that point to themselves",
    "two nodes that point to each other, n times in one direction",
    "n pointers held to a node that points to itself",
    "complete graph of n nodes (at most 24)",
    "binary tree of n nodes with pointers to the parents",
    "list of n nodes with pointers in both directions",
];

/// Number of nodes and edges of a member of a family, and the number of pointers held to node 0.
fn family(f: usize, n: u32) -> (u32, Vec<(u32, u32)>, u32) {
    match f {
        0 => (n, (0..n).map(|i| (i, (i + 1) % n)).collect(), 1),
        1 => (n, (0..n).map(|i| (i, (i + 1).min(n - 1))).collect(), 1),
        2 => (n + 1, (1..=n).flat_map(|i| [(0, i), (i, 0)]).collect(), 1),
        3 => (n, (0..n).map(|i| (i, i)).collect(), 1),
        4 => (2, (0..n).map(|_| (0, 1)).chain([(1, 0)]).collect(), 1),
        5 => (1, vec![(0, 0)], n),
        6 => (n, (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect(), 1),
        7 => (n, (1..n).flat_map(|i| [((i - 1) / 2, i), (i, (i - 1) / 2)]).collect(), 1),
        _ => (n, (1..n).flat_map(|i| [(i - 1, i), (i, i - 1)]).collect(), 1),
    }
}

/// Larger graphs are not in the arena.
const MAX_ARENA: u32 = 5000;

const KEEP: [&str; 5] = ["nothing", "the first pointer", "a pointer in the middle", "the last pointer", "every second pointer"];
const DROPS: [&str; 3] = ["first to last", "last to first", "even ones first"];

#[derive(Clone, Copy)]
struct Case {
    f: usize,
    n: u32,
    keep: usize,
    drops: usize,
    cond: Cond,
    /// the pointers are dropped by a thread that exits
    thread: bool,
}

fn cases(sync: bool, small: u32, round: &[u32]) -> Vec<Case> {
    let mut v = Vec::new();
    let sizes: Vec<u32> = (1..=small).chain(round.iter().copied()).collect();
    for f in 0..FAMILIES.len() {
        for &n in &sizes {
            // (a long chain of last pointers needs as much stack as with `Rc`)
            if f == 6 && n > 24 || f == 1 && n > 2000 {
                continue;
            }
            for keep in 0..KEEP.len() {
                for drops in 0..DROPS.len() {
                    for cond in [Cond::Never, Cond::Always, Cond::Default] {
                        if n > 300 && cond == Cond::Always {
                            continue;
                        }
                        if n > MAX_ARENA && (keep % 2 == 1 || drops > 0) {
                            continue;
                        }
                        if n > small && (drops == 2 || keep > 2 || cond == Cond::Always && (drops > 0 || keep == 1)) {
                            continue;
                        }
                        for thread in [false, true] {
                            if thread && (!sync || cond == Cond::Always) {
                                continue;
                            }
                            v.push(Case { f, n, keep, drops, cond, thread });
                        }
                    }
                }
            }
        }
    }
    v
}

impl Ref {
    fn reset(&mut self, n: usize) {
        self.edges = vec![Vec::new(); n];
        self.held = vec![0; n];
        self.count = vec![0; n];
        self.gone = vec![false; n];
        self.dropped = vec![0; n];
    }
    /// The program gives a pointer up; what has no pointers left goes at once.
    fn release(&mut self, x: u32) {
        self.held[x as usize] -= 1;
        let mut todo = vec![x];
        while let Some(x) = todo.pop() {
            let x = x as usize;
            self.count[x] -= 1;
            if self.count[x] == 0 {
                self.gone[x] = true;
                todo.extend_from_slice(&self.edges[x]);
            }
        }
    }
    fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.held.len()];
        let mut todo: Vec<u32> = (0..r.len() as u32).filter(|x| self.held[*x as usize] > 0).collect();
        while let Some(x) = todo.pop() {
            if !std::mem::replace(&mut r[x as usize], true) {
                todo.extend_from_slice(&self.edges[x as usize]);
            }
        }
        r
    }
    /// Everything unreachable goes.
    fn collect(&mut self) {
        let r = self.reachable();
        for x in 0..r.len() {
            if !r[x] && !self.gone[x] {
                self.gone[x] = true;
                for e in &self.edges[x] {
                    self.count[*e as usize] -= 1;
                }
            }
        }
    }
    /// Pointers that exist.
    fn pointers(&self) -> usize {
        self.held.iter().sum::<u32>() as usize + (0..self.gone.len()).filter(|x| !self.gone[*x]).map(|x| self.edges[x].len()).sum::<usize>()
    }
}

/// Compare the collector with the reference; `kind` is what a node that should be gone amounts to.
fn compare(kind: &str, when: &str) {
    let r = rf();
    let reach = r.reachable();
    for x in 0..reach.len() {
        if reach[x] && r.dropped[x] > 0 {
            violation("reachable-destroyed", &format!("{when}: n{x} is destroyed while the program can reach it"));
        }
        if !kind.is_empty() && r.gone[x] && r.dropped[x] == 0 {
            violation(kind, &format!("{when}: n{x} is not destroyed"));
        }
    }
    me().ops.fetch_add(1, Relaxed);
}

/// Follow every pointer.
fn walk<B: Big>(ps: &[(B::G, u32)]) {
    fn rec<B: Big>(p: *const B::G, x: u32, seen: &mut [bool], todo: &mut Vec<(*const B::G, u32)>) {
        let (id, canary) = B::look(unsafe { &*p });
        if id != x || canary != CANARY ^ u64::from(x) {
            violation("wrong-value", &format!("a pointer to n{x} yields node {id}"));
        }
        if std::mem::replace(&mut seen[x as usize], true) {
            return;
        }
        let es = &rf().edges[x as usize];
        let mut i = 0;
        B::each(unsafe { &*p }, &mut |q| {
            todo.push((q as *const _, es[i]));
            i += 1;
        });
    }
    let mut seen = vec![false; rf().held.len()];
    let mut todo: Vec<_> = ps.iter().map(|(p, x)| (p as *const B::G, *x)).collect();
    while let Some((p, x)) = todo.pop() {
        rec::<B>(p, x, &mut seen, &mut todo);
    }
}

fn count<B: Big>(c: &Case, when: &str) {
    if c.cond == Cond::Always && B::SYNC {
        return;
    }
    B::probe();
    let (is, want) = (EXISTING.load(Relaxed), rf().pointers());
    if is != want {
        violation("counter", &format!("{when}: the condition is told that {is} pointers exist, there are {want}"));
    }
}

fn release<B: Big>(ps: Vec<(B::G, u32)>, c: &Case) {
    let exact = c.cond == Cond::Always && !B::SYNC;
    for (p, x) in ps {
        rf().release(x);
        if exact {
            rf().collect();
        }
        drop(p);
        if c.n <= 16 {
            compare(if c.cond == Cond::Never || exact { "late" } else { "" }, "after a drop");
        }
    }
    compare(if c.cond == Cond::Never || exact { "late" } else { "" }, "after the drops");
}

fn first_half<B: Big>(c: &Case) -> Vec<(B::G, u32)> {
    let (n, edges, held) = family(c.f, c.n);
    rf().reset(n as usize);
    let mut ps: Vec<(B::G, u32)> = (0..n).map(|i| (B::new(i, n <= MAX_ARENA), i)).collect();
    for i in 0..n as usize {
        rf().held[i] = 1;
        rf().count[i] = 1;
    }
    for _ in 1..held {
        ps.push((B::clone(&ps[0].0), 0));
        rf().held[0] += 1;
        rf().count[0] += 1;
    }
    for (a, b) in edges {
        let p = B::clone(&ps[b as usize].0);
        B::push(&ps[a as usize].0, p);
        rf().edges[a as usize].push(b);
        rf().count[b as usize] += 1;
    }
    B::set_cond(c.cond);
    let m = ps.len();
    let mut kept = Vec::new();
    let mut go = Vec::new();
    for (i, p) in ps.into_iter().enumerate() {
        let k = match c.keep {
            0 => false,
            1 => i == 0,
            2 => i == m / 2,
            3 => i == m - 1,
            _ => i % 2 == 1,
        };
        if k {
            kept.push(p);
        } else {
            go.push(p);
        }
    }
    match c.drops {
        1 => go.reverse(),
        2 => {
            let (a, b): (Vec<_>, Vec<_>) = go.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
            go = a.into_iter().chain(b).map(|x| x.1).collect();
        }
        _ => (),
    }
    mc_trace!("built; dropping {} pointers, keeping {}", go.len(), kept.len());
    release::<B>(go, c);
    kept
}

pub fn sizes<B: Big>(name: &'static str, small: u32, round: &'static [u32], counters: bool) -> Suite {
    let cs = std::rc::Rc::new(cases(B::SYNC, small, round));
    let c2 = cs.clone();
    Suite {
        name,
        bounds: format!(
            "{}: {FAMILIES:?}, for every n up to {small} and in {round:?}; the pointers are dropped in the orders {DROPS:?}{}, keeping {KEEP:?}; then collect(), then the others are dropped, then collect(); collect conditions never, always and default; {} cases (the larger ones with fewer variations); map orders: ascending and descending",
            B::NAME,
            if B::SYNC { ", by the collecting thread or one that exits" } else { "" },
            cs.len()
        ),
        total: cs.len() as u64,
        run: Box::new(move |item| {
            let c = cs[item as usize];
            explore_all(Bounds { preempt: 0, stale: 0, perms: false, max_steps: 2_000_000_000 }, || {
                Order::Both.pick();
                B::set_cond(Cond::Never);
                let kept = if c.thread {
                    let out = std::rc::Rc::new(std::cell::Cell::new(None));
                    let o2 = out.clone();
                    spawn(move || o2.set(Some(first_half::<B>(&c)))).join();
                    out.take().unwrap()
                } else {
                    first_half::<B>(&c)
                };
                B::collect();
                rf().collect();
                compare("leak", "after collect()");
                if counters {
                    count::<B>(&c, "after collect()");
                }
                walk::<B>(&kept);
                release::<B>(kept, &c);
                B::collect();
                rf().collect();
                compare("leak", "after the last collect()");
                if counters {
                    count::<B>(&c, "after the last collect()");
                }
                if arena_live() != 0 {
                    violation("leak", "the memory of a destroyed node is not given back");
                }
                B::set_cond(Cond::Never);
            });
        }),
        describe: Box::new(move |i| {
            let c = c2[i as usize];
            format!("{}, n = {}; dropped {}, keeping {}; collect condition {:?}{}", FAMILIES[c.f], c.n, DROPS[c.drops], KEEP[c.keep], c.cond, if c.thread { "; dropped by a thread that exits" } else { "" })
        }),
    }
}

const ROUNDS: [&str; 4] = [
    "nothing",
    "a node that points to itself being made and dropped",
    "a pointer to each node being cloned and dropped",
    "a thread that clones and drops a pointer to each node and exits (at most 4 collections)",
];

/// Values that outlive many collections.
pub fn ages<B: Big>(name: &'static str, small: u32, round: &'static [u32]) -> Suite {
    let mut cs = Vec::new();
    for k in (0..=small).chain(round.iter().copied()) {
        for f in [0, 3, 8] {
            for keep in 0..3 {
                for kind in 0..if B::SYNC { ROUNDS.len() } else { ROUNDS.len() - 1 } {
                    // (there is a limit on the number of model threads)
                    if k > small && (keep == 1 || f == 3) || kind == 3 && k > 4 {
                        continue;
                    }
                    cs.push((k, kind, Case { f, n: 3, keep, drops: 0, cond: Cond::Never, thread: false }));
                }
            }
        }
    }
    let cs = std::rc::Rc::new(cs);
    let c2 = cs.clone();
    Suite {
        name,
        bounds: format!(
            "{}: ring, loops and list of 3 nodes that are held during k collections, for every k up to {small} and in {round:?}, before each of which there is {ROUNDS:?}; then pointers are dropped, keeping none or one; collect(), the other one is dropped, collect(); {} cases",
            B::NAME, cs.len()
        ),
        total: cs.len() as u64,
        run: Box::new(move |item| {
            let (k, kind, c) = cs[item as usize];
            explore_all(Bounds { preempt: 0, stale: 0, perms: false, max_steps: 2_000_000_000 }, || {
                B::set_cond(Cond::Never);
                let n = 3;
                rf().reset((n + k) as usize);
                let (_, edges, _) = family(c.f, n);
                let mut ps: Vec<(B::G, u32)> = (0..n).map(|i| (B::new(i, true), i)).collect();
                for i in 0..n as usize {
                    rf().held[i] = 1;
                    rf().count[i] = 1;
                }
                for (a, b) in edges {
                    let p = B::clone(&ps[b as usize].0);
                    B::push(&ps[a as usize].0, p);
                    rf().edges[a as usize].push(b);
                    rf().count[b as usize] += 1;
                }
                for i in n..n + k {
                    match kind {
                        1 => {
                            let p = B::new(i, false);
                            B::push(&p, B::clone(&p));
                            drop(p);
                        }
                        2 => {
                            for (p, _) in &ps {
                                drop(B::clone(p));
                            }
                        }
                        3 => {
                            let cl: Vec<B::G> = ps.iter().map(|(p, _)| B::clone(p)).collect();
                            spawn(move || drop(cl)).join();
                        }
                        _ => (),
                    }
                    B::collect();
                    if kind == 1 && rf().dropped[i as usize] != 1 {
                        violation("leak", &format!("collection {} has left garbage", i - n + 1));
                    }
                    for x in 0..n as usize {
                        if rf().dropped[x] > 0 {
                            violation("reachable-destroyed", &format!("collection {} has destroyed n{x}, to which there is a pointer", i - n + 1));
                        }
                    }
                }
                rf().held.truncate(n as usize);
                walk::<B>(&ps);
                let kept = if c.keep > 0 { vec![ps.remove(c.keep - 1)] } else { Vec::new() };
                release::<B>(ps, &c);
                B::collect();
                rf().collect();
                compare("leak", "after collect()");
                walk::<B>(&kept);
                release::<B>(kept, &c);
                B::collect();
                rf().collect();
                compare("leak", "after the last collect()");
                if arena_live() != 0 {
                    violation("leak", "the memory of a destroyed node is not given back");
                }
            });
        }),
        describe: Box::new(move |i| {
            let (k, kind, c) = c2[i as usize];
            format!("{} (n = 3), {k} collections, before each {}; then dropped, keeping {}", FAMILIES[c.f], ROUNDS[kind], c.keep)
        }),
    }
}

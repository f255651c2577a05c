//! Sequential engine: all histories of pointer operations.

use crate::driver::*;
use crate::flavor::*;
use crate::ghost::{g, NONE};
use crate::world::*;
use parking_lot::mc::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    New,
    /// new node that owns a pointer from the start
    Wrap(usize, bool),
    Clone(usize),
    Drop(usize),
    StoreMove(usize, usize, usize),
    StoreClone(usize, usize, usize),
    Take(usize, usize),
    Clear(usize, usize),
    Wipe(usize, usize),
    Load(usize, usize),
    Collect,
    NewShared,
    CollectShared,
    Hold(usize, usize, bool),
    Release(usize),
    Poison(usize, usize),
}

/// Values of the nodes in the order of their creation: some equal, one not even equal to itself.
fn value_of(i: usize) -> u8 {
    [ODD, 0, 0, 1][i % 4]
}

/// Which operations follow a graph.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tail {
    All,
    /// drops and collections
    Drops,
    /// drops, collections and guards
    Guards,
}

impl Tail {
    fn show(self) -> &'static str {
        match self {
            Tail::All => "operations",
            Tail::Drops => "drops of program-held pointers and collections",
            Tail::Guards => "drops of program-held pointers, collections, and guards on (or poisonings of) slots taken and released",
        }
    }
    fn has(self, o: &Op) -> bool {
        match self {
            Tail::All => true,
            Tail::Drops => matches!(o, Op::Drop(_) | Op::Collect | Op::CollectShared),
            Tail::Guards => matches!(o, Op::Drop(_) | Op::Collect | Op::Hold(..) | Op::Release(_) | Op::Poison(..)),
        }
    }
}

/// Limits of the alphabet.
#[derive(Clone, Copy)]
pub struct Alpha {
    pub nodes: usize,
    pub handles: usize,
    pub slots: usize,
    pub guards: usize,
    /// guards that only read are different ones
    pub readers: bool,
    pub news: bool,
    pub poison: bool,
    pub overwrite: bool,
}

/// Operations applicable in the current state (handles to the same node are interchangeable).
pub fn applicable<F: Flavor>(w: &World<F>, a: &Alpha, out: &mut Vec<Op>) {
    out.clear();
    let gh = g();
    let hs = &w.handles;
    let room = hs.len() < a.handles;
    out.push(Op::Collect);
    if F::MIXED {
        out.push(Op::CollectShared);
    }
    if a.news && gh.n < a.nodes && room {
        out.push(Op::New);
        if F::MIXED {
            out.push(Op::NewShared);
        }
    }
    let first = |i: usize| !hs[..i].iter().any(|x| x.1 == hs[i].1);
    for i in 0..hs.len() {
        if !first(i) {
            continue;
        }
        let x = hs[i].1 as usize;
        let cnt = hs.iter().filter(|h| h.1 as usize == x).count();
        out.push(Op::Drop(i));
        if a.news && gh.n < a.nodes {
            if gh.nodes[x].kind == 0 || F::MIXED {
                out.push(Op::Wrap(i, false));
            }
            if gh.nodes[x].kind == 1 {
                out.push(Op::Wrap(i, true));
            }
        }
        if cnt < 2 && room {
            out.push(Op::Clone(i));
        }
        let held = |s: usize| w.guards.iter().any(|gd| gd.1 as usize == x && gd.2 as usize == s);
        let mut first_empty = true;
        for s in 0..a.slots {
            if held(s) {
                continue;
            }
            let e = gh.nodes[x].edges[s];
            if e == NONE {
                if !first_empty {
                    continue;
                }
                first_empty = false;
            }
            if e == NONE || a.overwrite {
                for j in 0..hs.len() {
                    if !first(j) || gh.nodes[x].kind > gh.nodes[hs[j].1 as usize].kind {
                        // (shared values cannot own thread-local ones)
                        continue;
                    }
                    out.push(Op::StoreClone(i, s, j));
                    if j != i {
                        out.push(Op::StoreMove(i, s, j));
                    } else if cnt >= 2 {
                        let k = (i + 1..hs.len()).find(|k| hs[*k].1 as usize == x).unwrap();
                        out.push(Op::StoreMove(i, s, k));
                    }
                }
            }
            if e != NONE {
                out.push(Op::Clear(i, s));
                out.push(Op::Wipe(i, s));
                if room {
                    out.push(Op::Take(i, s));
                    if hs.iter().filter(|h| h.1 == e).count() < 2 {
                        out.push(Op::Load(i, s));
                    }
                }
            }
            if w.guards.len() < a.guards {
                out.push(Op::Hold(i, s, true));
                if a.readers {
                    out.push(Op::Hold(i, s, false));
                }
            }
            if a.poison {
                out.push(Op::Poison(i, s));
            }
        }
    }
    for k in 0..w.guards.len() {
        out.push(Op::Release(k));
    }
}

pub fn apply<F: Flavor>(w: &mut World<F>, o: Op) {
    match o {
        Op::New => {
            let v = value_of(g().n);
            w.create(v, 0);
        }
        Op::Wrap(i, shared) => {
            w.wrap(value_of(g().n), i, u8::from(shared));
        }
        Op::Clone(i) => {
            w.clone_handle(i);
        }
        Op::Drop(i) => w.drop_handle(i),
        Op::StoreMove(i, s, j) => w.store_move(i, s, j),
        Op::StoreClone(i, s, j) => w.store_clone(i, s, j),
        Op::Take(i, s) => {
            w.take(i, s);
        }
        Op::Clear(i, s) => w.clear(i, s),
        Op::Wipe(i, s) => w.wipe(i, s),
        Op::Load(i, s) => {
            w.load(i, s);
        }
        Op::NewShared => {
            w.create_of(value_of(g().n), 0, 1);
        }
        Op::CollectShared => w.collect_shared(),
        Op::Collect => w.collect(),
        Op::Hold(i, s, wr) => w.hold(i, s, wr),
        Op::Release(k) => w.release(k),
        Op::Poison(i, s) => {
            F::slot_poison(&F::deref(&w.handles[i].0).slots[s]);
        }
    }
}

/// Orders in which the collector's maps are iterated.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    /// ascending by age
    Fixed,
    /// ascending in one execution, descending in another
    Both,
    /// every permutation at every iteration
    All,
}

impl Order {
    pub fn show(self) -> &'static str {
        match self {
            Order::Fixed => "ascending",
            Order::Both => "ascending and descending",
            Order::All => "all permutations",
        }
    }
    /// To be called at the start of an execution.
    pub fn pick(self) {
        rt().order_desc = self == Order::Both && choose_free(2) == 1;
    }
}

pub fn bounds(o: Order) -> Bounds {
    Bounds { preempt: 0, stale: 0, perms: o == Order::All, max_steps: 1_000_000 }
}

/// All histories of `depth` operations from the empty heap; the item fixes the first operations.
pub fn histories<F: Flavor>(
    name: &'static str,
    depth: usize,
    a: Alpha,
    cond: Cond,
    checks: Checks,
    order: Order,
) -> Suite {
    const RADIX: u64 = 24;
    let split = if depth >= 5 { 3 } else { 1 };
    Suite {
        name,
        bounds: format!(
            "{}: all histories of up to {depth} operations from the empty heap, at most {} nodes x {} slots, {} program-held pointers, {} guards; map orders: {}; collect condition {cond:?}",
            F::NAME, a.nodes, a.slots, a.handles, a.guards,
            order.show()
        ),
        total: RADIX.pow(split as u32),
        run: Box::new(move |item| {
            let mut ops = Vec::new();
            // the first operation is always New (Collect on an empty heap changes nothing)
            let digits: Vec<usize> =
                (0..split).map(|k| (item / RADIX.pow(k as u32) % RADIX) as usize).collect();
            explore_all(bounds(order), || {
                order.pick();
                let mut w = World::<F>::new(cond, checks);
                apply(&mut w, Op::New);
                for d in 0..depth - 1 {
                    applicable(&w, &a, &mut ops);
                    if d < split && ops.len() as u64 > RADIX {
                        violation("harness-error", "more operations than the split of histories allows for");
                    }
                    let k = if d < split {
                        if digits[d] >= ops.len() {
                            // no such history
                            w.cond = Cond::Never;
                            F::set_cond(Cond::Never);
                            break;
                        }
                        digits[d]
                    } else {
                        choose_free(ops.len())
                    };
                    let o = ops[k];
                    parking_lot::mc_trace!("op {o:?}");
                    apply(&mut w, o);
                    w.full_check();
                }
                w.finish(if a.guards > 0 { 2 } else { 1 });
            });
        }),
        describe: Box::new(move |item| {
            format!("histories New, then operations number {:?} of those applicable, then all continuations",
                (0..split).map(|k| item / RADIX.pow(k as u32) % RADIX).collect::<Vec<_>>())
        }),
    }
}

/// All multisets of at most `k` targets among `n` nodes, as slot contents.
pub fn rows(n: usize, k: usize) -> Vec<[u8; 2]> {
    let mut v = Vec::new();
    for x in 0..=n {
        for y in x..=n {
            let e = |z: usize| if z == n { NONE } else { z as u8 };
            if k == 1 && y != n {
                continue;
            }
            v.push([e(x), e(y)]);
        }
    }
    v
}

pub fn graph_count(n: usize, k: usize) -> u64 {
    (rows(n, k).len() as u64).pow(n as u32)
}

pub fn graph(n: usize, k: usize, mut i: u64) -> Vec<[u8; 2]> {
    let r = rows(n, k);
    (0..n)
        .map(|_| {
            let x = r[(i % r.len() as u64) as usize];
            i /= r.len() as u64;
            x
        })
        .collect()
}

pub fn show_graph(gr: &[[u8; 2]]) -> String {
    gr.iter()
        .enumerate()
        .map(|(i, r)| {
            format!(
                "n{i}->{{{}}}",
                r.iter().filter(|e| **e != NONE).map(|e| format!("n{e}")).collect::<Vec<_>>().join(",")
            )
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// Build a graph; every node has one handle (handle i points to node i).
pub fn build<F: Flavor>(w: &mut World<F>, gr: &[[u8; 2]]) {
    build_of(w, gr, 0);
}

/// As `build`; the nodes in `shared` are managed by the shared collector.
pub fn build_of<F: Flavor>(w: &mut World<F>, gr: &[[u8; 2]], shared: usize) {
    for i in 0..gr.len() {
        w.create_of(value_of(i), 0, (shared >> i & 1) as u8);
    }
    for (i, r) in gr.iter().enumerate() {
        for (s, &e) in r.iter().enumerate() {
            if e != NONE {
                w.store_clone(i, s, e as usize);
            }
        }
    }
}

/// Every graph; every sequence of `tail` operations after it (all alphabets), with every order of
/// map iteration, then teardown.
pub fn graphs<F: Flavor>(
    name: &'static str,
    n: usize,
    k: usize,
    tail: usize,
    a: Alpha,
    cond: Cond,
    checks: Checks,
    order: Order,
    what: Tail,
) -> Suite {
    let total = graph_count(n, k);
    Suite {
        name,
        bounds: format!(
            "{}: all {total} graphs of {n} nodes x {k} slots, then all sequences of up to {tail} {}; map orders: {}; collect condition {cond:?}",
            F::NAME,
            what.show(),
            order.show()
        ),
        total,
        run: Box::new(move |item| {
            let gr = graph(n, k, item);
            let mut ops = Vec::new();
            explore_all(bounds(order), || {
                order.pick();
                let mut w = World::<F>::new(cond, checks);
                let mut shared = 0;
                if F::MIXED {
                    // nodes of either kind, shared ones leading to shared ones only
                    let ok = |m: usize| (0..n).all(|i| m >> i & 1 == 0 || gr[i].iter().all(|e| *e == NONE || m >> *e & 1 == 1));
                    let all: Vec<usize> = (0..1 << n).filter(|m| ok(*m)).collect();
                    shared = all[choose_free(all.len())];
                }
                build_of(&mut w, &gr, shared);
                let mut last_collect = false;
                for _ in 0..tail {
                    applicable(&w, &a, &mut ops);
                    if what != Tail::All {
                        ops.retain(|o| what.has(o) && (*o != Op::Collect || !last_collect));
                        if ops.is_empty() {
                            break;
                        }
                    }
                    let o = ops[choose_free(ops.len())];
                    last_collect = o == Op::Collect;
                    parking_lot::mc_trace!("op {o:?}");
                    apply(&mut w, o);
                    w.full_check();
                }
                w.finish(if a.guards > 0 { 2 } else { 1 });
            });
        }),
        describe: Box::new(move |item| format!("graph {}", show_graph(&graph(n, k, item)))),
    }
}

//! Destructor behaviours of nodes, and the engine that enumerates them.

use crate::driver::*;
use crate::flavor::*;
use crate::ghost::{self, g, DEAD, NONE};
use crate::seq::{bounds, build, graph, graph_count, show_graph, Order};
use crate::world::{Checks, World};
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const INSPECT: u8 = 1;
pub const STASH: u8 = 2;
pub const STASH_CLONE: u8 = 3;
pub const DROP_STASHED: u8 = 4;
pub const NEW_LEAF: u8 = 5;
pub const NEW_CYCLE: u8 = 6;
pub const NEW_OWNER: u8 = 7;
pub const COLLECT: u8 = 8;
pub const PANIC: u8 = 9;
pub const STORE_IN_LIVE: u8 = 10;
pub const TAKE_DROP: u8 = 11;
pub const CLEAR_LIVE: u8 = 12;
pub const CYCLE_OWNER: u8 = 13;

/// What destructors may do with the pointers they see.
pub const POINTERS: &[u8] = &[INSPECT, STASH, STASH_CLONE, STORE_IN_LIVE, TAKE_DROP];
/// What destructors may do at all.
pub const ALL: &[u8] = &[
    INSPECT, STASH, STASH_CLONE, DROP_STASHED, NEW_LEAF, NEW_CYCLE, NEW_OWNER, COLLECT, PANIC,
    STORE_IN_LIVE, TAKE_DROP, CLEAR_LIVE, CYCLE_OWNER,
];

/// What destructors may do while other threads run (nothing that other threads see halfway).
pub const CONCURRENT: &[u8] =
    &[INSPECT, STASH, STASH_CLONE, DROP_STASHED, NEW_LEAF, NEW_CYCLE, NEW_OWNER, COLLECT, PANIC, TAKE_DROP, CYCLE_OWNER];
/// Those of them that are about pointers only.
pub const CONCURRENT_POINTERS: &[u8] = &[INSPECT, STASH, STASH_CLONE, TAKE_DROP];

/// Run the behaviour of a node whose destructor runs.
pub fn run<F: Flavor>(n: &mut Node<F>) {
    let b = n.dtor.replace(0);
    if b != 0 {
        mc_trace!("destructor of n{}: behaviour {b}", n.id);
        me().counters[0].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        act::<F>(n, b);
    }
}

fn panics(f: impl FnOnce()) -> bool {
    let old = expect_panic(true);
    let r = catch_unwind(AssertUnwindSafe(f)).is_err();
    expect_panic(old);
    r
}

/// Inspect a pointer; returns whether it is dead.
pub fn look<F: Flavor>(p: &F::G, t: u8) -> bool {
    let gh = g();
    let gone = gh.nodes[t as usize].dropped > 0;
    let dead = F::try_deref(p).is_none();
    if dead && gh.reachable() >> t & 1 == 1 {
        violation("dead-pointer", &format!("a pointer to live node n{t} is dead: {}", gh.describe()));
    }
    if !dead && gone {
        violation("dead-pointer", &format!("a pointer to destroyed node n{t} is not dead: {}", gh.describe()));
    }
    if gh.strong_dead {
        let want = gh.g0 >> t & 1 == 1;
        if want != dead {
            violation(
                "dead-pointer",
                &format!(
                    "a pointer to n{t}, which {} being destroyed by this collection, is {}: {}",
                    if want { "is" } else { "is not" },
                    if dead { "dead" } else { "not dead" },
                    gh.describe()
                ),
            );
        }
    }
    if dead {
        if F::try_clone(p).is_some() {
            violation("dead-pointer", &format!("try_clone of a dead pointer to n{t} succeeds"));
        }
        if !panics(|| {
            let _ = F::deref(p);
        }) {
            violation("dead-pointer", &format!("dereferencing a dead pointer to n{t} does not panic"));
        }
        if !panics(|| std::mem::forget(F::clone(p))) {
            violation("dead-pointer", &format!("cloning a dead pointer to n{t} does not panic"));
        }
        if !F::ptr_eq(p, p) {
            violation("dead-pointer", "a dead pointer is not ptr_eq to itself");
        }
    } else {
        let n = F::deref(p);
        if !n.ok() || n.id != t {
            violation("wrong-value", &format!("pointer to n{t} yields node {} (contents intact: {})", n.id, n.ok()));
        }
    }
    dead
}

/// Take the pointer out of slot 0 of a node that is being destroyed.
fn take0<F: Flavor>(n: &Node<F>) -> Option<Held<F>> {
    let p = F::slot_replace(&n.slots[0], None)?;
    let e = std::mem::replace(&mut g().nodes[n.id as usize].edges[0], NONE);
    if e == DEAD {
        return Some(Held { g: p, id: 0, dead: true });
    }
    let dead = look::<F>(&p, e);
    if !dead {
        g().nodes[e as usize].held += 1;
    }
    Some(Held { g: p, id: e, dead })
}

pub fn drop_held<F: Flavor>(h: Held<F>) {
    if !h.dead {
        g().nodes[h.id as usize].held -= 1;
    } else if F::try_deref(&h.g).is_some() {
        violation("dead-pointer", "a dead pointer came back to life");
    }
    drop(h.g);
}

/// Put a pointer into a slot of a live node; returns what was there.
fn store<F: Flavor>(n: &Node<F>, s: usize, h: Held<F>) -> Option<Held<F>> {
    let old = F::slot_replace(&n.slots[s], Some(h.g));
    let e = std::mem::replace(&mut g().nodes[n.id as usize].edges[s], if h.dead { DEAD } else { h.id });
    if !h.dead {
        g().nodes[h.id as usize].held -= 1;
    }
    old.map(|p| {
        if e == DEAD {
            Held { g: p, id: 0, dead: true }
        } else {
            g().nodes[e as usize].held += 1;
            Held { g: p, id: e, dead: false }
        }
    })
}

fn top_live<F: Flavor>() -> Option<&'static Node<F>> {
    let h = F::stash().iter().rev().find(|h| !h.dead)?;
    let p: *const Node<F> = F::deref(&h.g);
    Some(unsafe { &*p })
}

fn act<F: Flavor>(n: &Node<F>, b: u8) {
    match b {
        INSPECT => {
            for s in 0..K {
                let e = g().nodes[n.id as usize].edges[s];
                let p = F::slot_with(&n.slots[s], |o| o.as_ref().map(|x| x as *const F::G));
                if let Some(p) = p {
                    if e != DEAD && !look::<F>(unsafe { &*p }, e) {
                        // a live pointer can be cloned, and the clone dropped
                        g().nodes[e as usize].held += 1;
                        let c = F::clone(unsafe { &*p });
                        drop_held::<F>(Held { g: c, id: e, dead: false });
                    }
                }
            }
        }
        STASH => {
            if let Some(h) = take0::<F>(n) {
                F::stash().push(h);
            }
        }
        STASH_CLONE => {
            let e = g().nodes[n.id as usize].edges[0];
            let p = F::slot_with(&n.slots[0], |o| o.as_ref().map(|x| x as *const F::G));
            if let (Some(p), false) = (p, e == DEAD) {
                let p = unsafe { &*p };
                let dead = look::<F>(p, e);
                if let Some(c) = F::try_clone(p) {
                    g().nodes[e as usize].held += 1;
                    F::stash().push(Held { g: c, id: e, dead: false });
                } else if !dead {
                    violation("dead-pointer", &format!("try_clone of a live pointer to n{e} fails"));
                }
            }
        }
        DROP_STASHED => {
            if let Some(h) = F::stash().pop() {
                drop_held::<F>(h);
            }
        }
        NEW_LEAF => {
            let (h, id) = new_node::<F>(0, 0);
            drop_held::<F>(Held { g: h, id, dead: false });
        }
        NEW_CYCLE | CYCLE_OWNER => {
            let (h, id) = new_node::<F>(0, 0);
            let nd: *const Node<F> = F::deref(&h);
            g().nodes[id as usize].held += 1;
            let c = F::clone(&h);
            store::<F>(unsafe { &*nd }, 1, Held { g: c, id, dead: false });
            if b == CYCLE_OWNER {
                if let Some(x) = take0::<F>(n) {
                    store::<F>(unsafe { &*nd }, 0, x);
                }
            }
            drop_held::<F>(Held { g: h, id, dead: false });
        }
        NEW_OWNER => {
            let (h, id) = new_node::<F>(0, 0);
            if let Some(x) = take0::<F>(n) {
                store::<F>(F::deref(&h), 0, x);
            }
            F::stash().push(Held { g: h, id, dead: false });
        }
        COLLECT => {
            g().g0 |= g().garbage();
            F::collect();
        }
        PANIC => {
            g().panics += 1;
            g().panics_by[tid()] += 1;
            expect_panic(true);
            std::panic::panic_any("destructor");
        }
        STORE_IN_LIVE => {
            if let Some(l) = top_live::<F>() {
                if let Some(x) = take0::<F>(n) {
                    if let Some(old) = store::<F>(l, 0, x) {
                        drop_held::<F>(old);
                    }
                }
            }
        }
        TAKE_DROP => {
            if let Some(x) = take0::<F>(n) {
                drop_held::<F>(x);
            }
        }
        CLEAR_LIVE => {
            if let Some(l) = top_live::<F>() {
                if let Some(p) = F::slot_replace(&l.slots[0], None) {
                    let e = std::mem::replace(&mut g().nodes[l.id as usize].edges[0], NONE);
                    if e == DEAD {
                        drop_held::<F>(Held { g: p, id: 0, dead: true });
                    } else {
                        g().nodes[e as usize].held += 1;
                        drop_held::<F>(Held { g: p, id: e, dead: false });
                    }
                }
            }
        }
        _ => unreachable!(),
    }
}

/// Run an operation of the program; a panic of a destructor must reach it.
pub fn guarded(f: impl FnOnce()) {
    let before = g().panics_by[tid()];
    let r = catch_unwind(AssertUnwindSafe(f));
    expect_panic(false);
    match r {
        Ok(()) if g().panics_by[tid()] > before => {
            violation("panic", "a panic of a destructor did not reach the caller");
        }
        Err(_) if g().panics_by[tid()] == before => violation("panic", "an operation panicked"),
        _ => {}
    }
}

/// Every graph, with every assignment of up to `active` destructor behaviours.
pub fn dtors<F: Flavor>(
    name: &'static str,
    n: usize,
    k: usize,
    acts: &'static [u8],
    active: usize,
    cond: Cond,
    order: Order,
) -> Suite {
    let total = graph_count(n, k);
    Suite {
        name,
        bounds: format!(
            "{}: all {total} graphs of {n} nodes x {k} slots; all assignments of the {} destructor behaviours {acts:?} to up to {active} nodes; destructors have no or one program-held pointer to use; pointers dropped in every order, then collections; map orders: {}; collect condition {cond:?}",
            F::NAME, acts.len(), order.show()
        ),
        total,
        run: Box::new(move |item| {
            let gr = graph(n, k, item);
            explore_all(bounds(order), || {
                order.pick();
                let mut w = World::<F>::new(cond, Checks::default());
                // the outcome is known exactly unless shared candidates may still wait on the thread
                g().strong_dead = !F::SYNC || cond == Cond::Never;
                F::set_cond(Cond::Never);
                build(&mut w, &gr);
                let mut left = active;
                let mut panicker = false;
                let mut desc = [0u8; 4];
                for i in 0..n {
                    if left > 0 {
                        let b = choose_free(acts.len() + 1);
                        if b > 0 {
                            let b = acts[b - 1];
                            // two panics at once abort any Rust program
                            if b != PANIC || !panicker {
                                panicker |= b == PANIC;
                                left -= 1;
                                desc[i] = b;
                                F::deref(&w.handles[i].0).dtor.set(b);
                            }
                        }
                    }
                }
                let st = choose_free(n + 1);
                if st > 0 {
                    let c = F::clone(&w.handles[st - 1].0);
                    let id = w.handles[st - 1].1;
                    g().nodes[id as usize].held += 1;
                    F::stash().push(Held { g: c, id, dead: false });
                }
                mc_trace!("behaviours {desc:?}, destructors can use {:?}", st.checked_sub(1));
                F::set_cond(cond);
                while !w.handles.is_empty() {
                    let i = choose_free(w.handles.len());
                    let (h, id) = w.handles.remove(i);
                    w.op();
                    mc_trace!("drop handle to n{id}");
                    guarded(|| drop_held::<F>(Held { g: h, id, dead: false }));
                    w.step_check();
                }
                settle(&mut w, n);
                for h in F::stash().iter() {
                    if h.dead != F::try_deref(&h.g).is_none() {
                        violation("dead-pointer", &format!("a pointer to n{} that was {} is not any more", h.id, if h.dead { "dead" } else { "alive" }));
                    }
                }
                w.walk();
                // (destructors may leave pointers behind again)
                while let Some(h) = F::stash().pop() {
                    w.op();
                    mc_trace!("drop stashed pointer");
                    guarded(|| drop_held::<F>(h));
                    w.step_check();
                    if F::stash().is_empty() {
                        settle(&mut w, n);
                    }
                }
                let excused = g().panics > 0;
                for i in 0..arena_used() {
                    let s = &slots()[i];
                    if s.live && !(excused && s.dropped) {
                        violation("leak", &format!("allocation #{i} is never freed: {}", g().describe()));
                    }
                }
            });
        }),
        describe: Box::new(move |item| format!("graph {}, all destructor behaviours", show_graph(&graph(n, k, item)))),
    }
}

/// Collect until destructors have nothing left to do; each collection must reclaim what was
/// unreachable when it began.
fn settle<F: Flavor>(w: &mut World<F>, n: usize) {
    for k in 0..n + 3 {
        w.op();
        let before = g().garbage();
        g().g0 = before;
        mc_trace!("collect()");
        guarded(F::collect);
        g().g0 = 0;
        let left = before & g().alive_mask();
        if left != 0 {
            violation("leak", &format!("collect() returned, but node n{}, unreachable before, is not destroyed: {}", left.trailing_zeros(), g().describe()));
        }
        w.step_check();
        if k > 0 && g().garbage() == 0 && before == 0 {
            break;
        }
    }
    let left = g().garbage();
    if left != 0 {
        violation("leak", &format!("node n{} stays unreachable after {} collections: {}", left.trailing_zeros(), n + 3, g().describe()));
    }
    ghost::note_state(0x99);
}

//! Engine for ending threads: what a thread leaves behind in every place that outlives its code.

use crate::driver::*;
use crate::dtor::{self, drop_held};
use crate::flavor::*;
use crate::ghost::{self, g, NONE};
use crate::seq::{build, graph, graph_count, show_graph, Order};
use crate::world::{Checks, World};
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

/// A thread-local variable of the program; what is in it happens when it is destroyed.
struct Keeper(&'static str, RefCell<Vec<Box<dyn FnOnce()>>>);
impl Drop for Keeper {
    fn drop(&mut self) {
        mc_trace!("the thread-local {} is destroyed", self.0);
        for f in std::mem::take(&mut *self.1.borrow_mut()) {
            f();
        }
    }
}
parking_lot::thread_local! {
    static EARLY: Keeper = Keeper("initialised first", RefCell::new(Vec::new()));
    static LATE: Keeper = Keeper("initialised last", RefCell::new(Vec::new()));
}

/// What destroying a thread-local variable does besides dropping the pointers in it.
const ACTS: [&str; 6] = ["nothing", "make a value", "make a cycle", "collect", "clone and dereference", "make an owner of a clone that is a cycle"];

/// Destructor behaviours that make sense on a thread that ends.
const DTORS: &[u8] = &[dtor::INSPECT, dtor::NEW_LEAF, dtor::NEW_CYCLE, dtor::COLLECT, dtor::TAKE_DROP, dtor::CYCLE_OWNER];

fn cycle<F: Flavor>(extra: Option<(F::G, u8)>) {
    let (h, id) = new_node::<F>(0, 0);
    let c = F::clone(&h);
    let n = F::deref(&h);
    F::slot_replace(&n.slots[0], Some(c));
    g().nodes[id as usize].edges[0] = id;
    if let Some((p, x)) = extra {
        F::slot_replace(&n.slots[1], Some(p));
        g().nodes[id as usize].edges[1] = x;
        g().nodes[x as usize].held -= 1;
    }
    drop_held::<F>(Held { g: h, id, dead: false });
}

fn act<F: Flavor>(a: usize, p: Option<&(F::G, u8)>) {
    me().ops.fetch_add(1, Relaxed);
    mc_trace!("  {}", ACTS[a]);
    let copy = |(h, id): &(F::G, u8)| {
        let n = F::deref(h);
        if !n.ok() || n.id != *id {
            violation("wrong-value", &format!("pointer to n{id} yields node {} (contents intact: {})", n.id, n.ok()));
        }
        let c = F::clone(h);
        g().nodes[*id as usize].held += 1;
        (c, *id)
    };
    match a {
        1 => {
            let (h, id) = new_node::<F>(0, 0);
            drop_held::<F>(Held { g: h, id, dead: false });
        }
        2 => cycle::<F>(None),
        3 => F::collect(),
        4 => {
            if let Some(p) = p {
                let (c, id) = copy(p);
                drop_held::<F>(Held { g: c, id, dead: false });
            }
        }
        5 => {
            if let Some(p) = p {
                let c = copy(p);
                cycle::<F>(Some(c));
            }
        }
        _ => {}
    }
}

fn fill<F: Flavor>(k: &'static LocalKey<Keeper>, mut ps: Vec<(F::G, u8)>, a: usize, at_end: bool) {
    k.with(|k| {
        k.1.borrow_mut().push(Box::new(move || {
            if !at_end {
                act::<F>(a, ps.first());
            }
            while !ps.is_empty() {
                if at_end && ps.len() == 1 {
                    act::<F>(a, ps.first());
                }
                let (h, id) = ps.remove(0);
                mc_trace!("  drop pointer to n{id}");
                drop_held::<F>(Held { g: h, id, dead: false });
            }
        }));
    });
}

/// The pointers in local variables of a thread.
struct Own<F: Flavor>(Vec<(F::G, u8)>);

impl<F: Flavor> Drop for Own<F> {
    fn drop(&mut self) {
        while !self.0.is_empty() {
            let (h, id) = self.0.remove(0);
            mc_trace!("drop pointer to n{id}");
            drop_held::<F>(Held { g: h, id, dead: false });
        }
    }
}

/// A thread that builds every graph and ends.
pub fn exits<F: Flavor>(name: &'static str, n: usize, k: usize, acts: usize, dtors: bool, conds: &'static [Cond], order: Order) -> Suite {
    let total = graph_count(n, k);
    Suite {
        name,
        bounds: format!(
            "{}: a thread builds each of the {total} graphs of {n} nodes x {k} slots and ends; each pointer it holds is dropped before that, normally or by the panic that ends the thread, or held by a thread-local variable initialised before or after the collector's{}; destroying these variables does one of {:?} first or last{}; collect conditions {conds:?}; map orders: {}",
            F::NAME,
            if F::SYNC { ", or handed to the main thread" } else { "" },
            &ACTS[..acts],
            if dtors { "; one node has one of the destructor behaviours 1, 5, 6, 8, 11, 13" } else { "" },
            order.show()
        ),
        total,
        run: Box::new(move |item| {
            let gr = graph(n, k, item);
            explore_all(Bounds { preempt: 0, stale: 0, perms: order == Order::All, max_steps: 200_000 }, || {
                order.pick();
                let cond = conds[choose_free(conds.len())];
                let mut main = World::<F>::new(Cond::Never, Checks::default());
                let mp = &mut main as *mut World<F> as usize;
                let gp = &gr as *const Vec<[u8; 2]> as usize;
                spawn(move || {
                    let main = unsafe { &mut *(mp as *mut World<F>) };
                    EARLY.with(|_| ());
                    let mut w = World::<F>::new(Cond::Never, Checks::default());
                    build(&mut w, unsafe { &*(gp as *const Vec<[u8; 2]>) });
                    if dtors {
                        let i = choose_free(n);
                        let b = DTORS[choose_free(DTORS.len())];
                        F::deref(&w.handles[i].0).dtor.set(b);
                        mc_trace!("destructor of n{i} has behaviour {b}");
                    }
                    LATE.with(|_| ());
                    F::set_cond(cond);
                    let mut kept = [Vec::new(), Vec::new()];
                    let mut own = Own::<F>(Vec::new());
                    for (h, id) in std::mem::take(&mut w.handles) {
                        match choose_free(if F::SYNC { 4 } else { 3 }) {
                            0 => own.0.push((h, id)),
                            3 => main.handles.push((h, id)),
                            d => kept[d - 1].push((h, id)),
                        }
                    }
                    for (key, ps) in [&EARLY, &LATE].into_iter().zip(kept) {
                        let a = choose_free(if ps.is_empty() { acts.min(4) } else { acts });
                        let end = !ps.is_empty() && a > 0 && choose_free(2) == 1;
                        if a > 0 || !ps.is_empty() {
                            fill::<F>(key, ps, a, end);
                        }
                    }
                    if !own.0.is_empty() && choose_free(2) == 1 {
                        mc_trace!("the thread ends by a panic");
                        let old = expect_panic(true);
                        let r = catch_unwind(AssertUnwindSafe(move || {
                            let _own = own;
                            panic!("the thread ends");
                        }));
                        expect_panic(old);
                        drop(r);
                    } else {
                        drop(own);
                        mc_trace!("the thread ends");
                    }
                    ghost::note_state(item);
                })
                .join();
                mc_trace!("the thread has ended");
                if F::SYNC {
                    F::set_cond(Cond::Never);
                    while !main.handles.is_empty() {
                        main.walk();
                        main.drop_handle(0);
                        main.step_check();
                    }
                    for _ in 0..if dtors { 3 } else { 1 } {
                        F::collect();
                    }
                }
                let left = g().garbage();
                if left != 0 || g().reachable() != 0 {
                    violation("leak", &format!("the thread has ended{}, but n{} is not destroyed: {}", if F::SYNC { " and collect() was called" } else { "" }, left.trailing_zeros(), g().describe()));
                }
                if arena_live() != 0 {
                    let i = (0..arena_used()).find(|i| slots()[*i].live).unwrap();
                    violation("leak", &format!("allocation #{i} is never freed: {}", g().describe()));
                }
                let _ = NONE;
            });
        }),
        describe: Box::new(move |i| format!("graph {}", show_graph(&graph(n, k, i)))),
    }
}

//! Engines for automatic collections: whose condition counts, and when garbage is handed over.

use crate::driver::*;
use crate::flavor::*;
use crate::ghost::{self, g, NONE};
use crate::seq::{build, graph, graph_count, show_graph};
use crate::world::{Checks, World};
use dumpster::{sync, unsync};
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::sync::atomic::Ordering::Relaxed;

/// Actions of the threads that set conditions.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum A {
    /// set a condition that answers true
    SetYes,
    /// set a condition that answers false
    SetNo,
    /// make a node that points to itself and drop it
    Drop,
}

const UNSET: u8 = 1;
const YES: u8 = 2;
const NO: u8 = 4;

struct Scope {
    /// condition in force, for each thread or (at 0) for all
    now: [u8; MAXT],
    /// conditions being set
    pending: [u8; MAXT],
    /// conditions that may have been in force since the drop on the thread began
    allowed: [u8; MAXT],
    /// conditions consulted since then
    called: [u8; MAXT],
}
static mut SCOPE: Scope = Scope { now: [UNSET; MAXT], pending: [0; MAXT], allowed: [0; MAXT], called: [0; MAXT] };

#[allow(static_mut_refs)]
fn sc() -> &'static mut Scope {
    unsafe { &mut *std::ptr::addr_of_mut!(SCOPE) }
}

fn consulted(which: u8) -> bool {
    sc().called[tid()] |= which;
    mc_trace!("condition {} is consulted", if which == YES { "yes" } else { "no" });
    g().cond_calls += 1;
    which == YES
}

fn set_scoped<F: Flavor>(which: u8) {
    if F::SYNC {
        sync::set_collect_condition(if which == YES { |_| consulted(YES) } else { |_| consulted(NO) });
    } else {
        unsync::set_collect_condition(if which == YES { |_| consulted(YES) } else { |_| consulted(NO) });
    }
}

fn scoped<F: Flavor>(a: A) {
    me().ops.fetch_add(1, Relaxed);
    let t = tid();
    let place = if F::SYNC { 0 } else { t };
    let s = sc();
    mc_trace!("op {a:?}");
    match a {
        A::SetYes | A::SetNo => {
            let w = if a == A::SetYes { YES } else { NO };
            s.pending[t] = w;
            for u in 0..MAXT {
                if F::SYNC || u == t {
                    s.allowed[u] |= w;
                }
            }
            set_scoped::<F>(w);
            s.pending[t] = 0;
            s.now[place] = w;
        }
        A::Drop => {
            let (h, id) = new_node::<F>(0, 0);
            let c = F::clone(&h);
            F::slot_replace(&F::deref(&h).slots[0], Some(c));
            let gh = g();
            gh.nodes[id as usize].edges[0] = id;
            s.called[t] = 0;
            s.allowed[t] = s.now[place];
            if F::SYNC {
                s.allowed[t] |= s.pending.iter().fold(0, |x, y| x | y);
            }
            gh.nodes[id as usize].held -= 1;
            drop(h);
            let (may, did) = (s.allowed[t], s.called[t]);
            if did & !may != 0 || did == 0 && may & UNSET == 0 {
                violation(
                    "scope",
                    &format!(
                        "a drop on T{t} consulted condition(s) {did:#b} while {may:#b} may have been in force (1: none set, 10: the one that says yes, 100: the one that says no)"
                    ),
                );
            }
            let gone = gh.nodes[id as usize].dropped > 0;
            if !F::SYNC && may & UNSET == 0 && gone != (may == YES) {
                violation(if gone { "unasked" } else { "late" }, &format!("with the condition of this thread answering {}, n{id} is {}destroyed", may == YES, if gone { "" } else { "not " }));
            }
            s.allowed[t] = 0;
            ghost::note_state(u64::from(may) << 8 | u64::from(did));
        }
    }
    point();
}

/// Two threads that set conditions and drop pointers.
pub fn scope<F: Flavor>(name: &'static str, len: usize, preempt: u32) -> Suite {
    fn progs(len: usize) -> Vec<Vec<A>> {
        let mut v: Vec<Vec<A>> = vec![vec![]];
        let mut last = v.clone();
        for _ in 0..len {
            last = last
                .iter()
                .flat_map(|p| {
                    [A::SetYes, A::SetNo, A::Drop].map(|a| {
                        let mut q = p.clone();
                        q.push(a);
                        q
                    })
                })
                .collect();
            v.extend(last.clone());
        }
        v.retain(|p| p.last() == Some(&A::Drop) || p.len() == 1);
        v
    }
    let ps = std::rc::Rc::new(progs(len));
    let p2 = ps.clone();
    let n = ps.len() as u64;
    Suite {
        name,
        bounds: format!(
            "{}: two threads, each running every program of up to {len} actions (set a condition that says yes, set one that says no, drop the last pointer to a cycle); all schedules with at most {preempt} preemptions",
            F::NAME
        ),
        total: n * n,
        run: Box::new(move |item| {
            let (a, b) = (ps[(item / n) as usize].clone(), ps[(item % n) as usize].clone());
            explore_all(Bounds { preempt, stale: 0, perms: false, max_steps: 20_000 }, || {
                g().reset();
                *sc() = Scope { now: [UNSET; MAXT], pending: [0; MAXT], allowed: [0; MAXT], called: [0; MAXT] };
                if F::SYNC {
                    F::set_cond(Cond::Unset);
                }
                let hs: Vec<_> = [a.clone(), b.clone()]
                    .into_iter()
                    .map(|p| {
                        spawn(move || {
                            for a in p {
                                scoped::<F>(a);
                            }
                        })
                    })
                    .collect();
                for h in hs {
                    h.join();
                }
                F::set_cond(Cond::Never);
                F::collect();
                if arena_live() != 0 {
                    violation("leak", &format!("after both threads ended and a collection, memory is still allocated: {}", g().describe()));
                }
            });
        }),
        describe: Box::new(move |i| format!("programs {:?} and {:?}", p2[(i / n) as usize], p2[(i % n) as usize])),
    }
}

/// Garbage that was handed over by a thread that ended: destroyed by a drop if and only if the
/// condition says so.
pub fn delivered(name: &'static str, n: usize, k: usize) -> Suite {
    type F = Cy;
    let total = graph_count(n, k);
    Suite {
        name,
        bounds: format!(
            "{}: all {total} graphs of {n} nodes x {k} slots built by a thread that ends; all subsets of nodes kept by the main thread, which drops these pointers under a condition with every sequence of answers; both map orders",
            F::NAME
        ),
        total,
        run: Box::new(move |item| {
            let gr = graph(n, k, item);
            explore_all(Bounds { preempt: 0, stale: 0, perms: false, max_steps: 100_000 }, || {
                rt().order_desc = choose_free(2) == 1;
                let keep = choose_free(1 << n);
                let mut w = World::<F>::new(Cond::Never, Checks { asked: true, ..Checks::default() });
                let wp = &mut w as *mut World<F> as usize;
                let gp = &gr as *const Vec<[u8; 2]> as usize;
                spawn(move || {
                    let w = unsafe { &mut *(wp as *mut World<F>) };
                    build(w, unsafe { &*(gp as *const Vec<[u8; 2]>) });
                    for i in (0..n).rev() {
                        if keep >> i & 1 == 0 {
                            w.drop_handle(i);
                            w.step_check();
                        }
                    }
                })
                .join();
                // pointers to nodes that also another one leads to are candidates only if dropped
                w.cond = Cond::Script;
                g().script_left = 2;
                F::set_cond(Cond::Script);
                let ready = g().garbage();
                let mut yes = false;
                while !w.handles.is_empty() {
                    w.drop_handle(0);
                    w.step_check();
                    yes |= g().cond_true > 0;
                    let left = ready & g().alive_mask();
                    if yes && left != 0 {
                        violation(
                            "late",
                            &format!("a drop collected, but n{}, which a thread that ended had left behind, is not destroyed: {}", left.trailing_zeros(), g().describe()),
                        );
                    }
                }
                w.cond = Cond::Never;
                F::set_cond(Cond::Never);
                w.finish(1);
            });
        }),
        describe: Box::new(move |i| format!("graph {}", show_graph(&graph(n, k, i)))),
    }
}

/// Garbage of a thread that lives on: the shared collector gets it after 100001 further drops.
pub fn threshold(name: &'static str) -> Suite {
    type F = Cy;
    const KINDS: [&str; 3] = ["final drops (of pointers to new values)", "other drops (of clones)", "drops of both kinds in turn"];
    Suite {
        name,
        bounds: format!("{}: a thread drops a cycle of 1, 2 or 3 nodes and makes 100001 further drops of one of 3 kinds; then a second thread collects", F::NAME),
        total: 9,
        run: Box::new(move |item| {
            let (kind, n) = (item as usize % 3, item as usize / 3 + 1);
            explore_all(Bounds { preempt: 0, stale: 0, perms: false, max_steps: 50_000_000 }, || {
                let mut w = World::<F>::new(Cond::Never, Checks::default());
                let ring: Vec<[u8; 2]> = (0..n).map(|i| [((i + 1) % n) as u8, NONE]).collect();
                build(&mut w, &ring);
                for _ in 0..n {
                    w.drop_handle(0);
                }
                let keep = sync::Gc::new(7u64);
                for i in 0..100_001 {
                    if kind == 0 || kind == 2 && i % 2 == 0 {
                        drop(sync::Gc::new(1u64));
                    } else {
                        drop(keep.clone());
                    }
                }
                spawn(F::collect).join();
                let left = g().garbage();
                if left != 0 {
                    violation(
                        "late",
                        &format!("100001 drops after n{} became garbage it is not destroyed by a collection on another thread", left.trailing_zeros()),
                    );
                }
                drop(keep);
                w.finish(1);
            });
        }),
        describe: Box::new(|item| format!("cycle of {} nodes, then {}", item / 3 + 1, KINDS[item as usize % 3])),
    }
}

/// Drops under the condition that is in force from the start, on a thread that never sets one.
pub fn initial<F: Flavor>(name: &'static str, len: usize) -> Suite {
    Suite {
        name,
        bounds: format!(
            "{}: all sequences of {len} drops, each of the last pointer to a value or to a cycle, on a new thread in a program that sets no condition",
            F::NAME
        ),
        total: 1 << len,
        run: Box::new(move |item| {
            explore_all(Bounds { preempt: 0, stale: 0, perms: false, max_steps: 100_000 }, || {
                g().reset();
                // garbage that the shared collector already has
                let mut existing = 0;
                if F::SYNC {
                    spawn(|| {
                        drop_cycle::<F>();
                        drop_cycle::<F>();
                    })
                    .join();
                    existing = 2;
                }
                let ready = g().garbage();
                spawn(move || {
                    let mut dropped = existing;
                    for k in 0..len {
                        me().ops.fetch_add(1, Relaxed);
                        if item >> k & 1 == 1 {
                            drop_cycle::<F>();
                            existing += 1;
                        } else {
                            let (h, id) = new_node::<F>(0, 0);
                            g().nodes[id as usize].held -= 1;
                            drop(h);
                        }
                        dropped += 1;
                        mc_trace!("{dropped} drops, {existing} pointers exist");
                        if dropped > existing {
                            let left = if F::SYNC { ready } else { u32::MAX } & g().garbage();
                            if left != 0 {
                                violation(
                                    "condition",
                                    &format!(
                                        "a drop returned with {dropped} drops since the last collection while {existing} pointers exist, but n{} is not destroyed",
                                        left.trailing_zeros()
                                    ),
                                );
                            }
                            break;
                        }
                        ghost::note_state(item);
                    }
                })
                .join();
                F::collect();
                if arena_live() != 0 {
                    violation("leak", &format!("memory is still allocated: {}", g().describe()));
                }
            });
        }),
        describe: Box::new(move |i| {
            format!("drops {:?}", (0..len).map(|k| if i >> k & 1 == 1 { "cycle" } else { "value" }).collect::<Vec<_>>())
        }),
    }
}

fn drop_cycle<F: Flavor>() {
    let (h, id) = new_node::<F>(0, 0);
    let c = F::clone(&h);
    F::slot_replace(&F::deref(&h).slots[0], Some(c));
    g().nodes[id as usize].edges[0] = id;
    g().nodes[id as usize].held -= 1;
    drop(h);
}

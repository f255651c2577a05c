//! Collect conditions that use the collector themselves, and the engine that enumerates them.

use crate::driver::*;
use crate::dtor::{drop_held, guarded};
use crate::flavor::*;
use crate::ghost::{self, g};
use crate::seq::{bounds, build, graph, graph_count, show_graph, Order};
use crate::world::{Checks, World};
use parking_lot::mc::*;
use parking_lot::mc_trace;

const ACTS: [&str; 8] = [
    "answers true",
    "calls collect() of both collectors",
    "makes and drops a value",
    "makes and drops a cycle",
    "clones and drops a pointer of the program",
    "drops a pointer of the program",
    "installs a condition that always answers false",
    "panics",
];

/// What a busy condition does; every sequence of actions is explored.
pub fn consulted<F: Flavor>(existing: usize, dropped: usize) -> bool {
    let gh = g();
    let t = tid();
    gh.busy_calls += 1;
    if gh.busy[t] || gh.script_left == 0 {
        return ghost::on_cond(existing, dropped, false);
    }
    // (two panics at once abort any Rust program)
    let k = choose_free(if gh.may_panic && gh.panics == 0 { ACTS.len() + 1 } else { ACTS.len() });
    if k == 0 {
        return ghost::on_cond(existing, dropped, false);
    }
    gh.script_left -= 1;
    me().counters[0].fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    mc_trace!("the collect condition {}", ACTS[k - 1]);
    if k == 1 {
        return ghost::on_cond(existing, dropped, true);
    }
    gh.busy[t] = true;
    match k {
        2 => {
            gh.g0 |= gh.garbage();
            dumpster::unsync::collect();
            dumpster::sync::collect();
        }
        3 | 4 => {
            let (h, id) = new_node::<F>(0, 0);
            if k == 4 {
                let c = F::clone(&h);
                F::slot_replace(&F::deref(&h).slots[0], Some(c));
                gh.nodes[id as usize].edges[0] = id;
            }
            watched::<F>(Held { g: h, id, dead: false });
        }
        5 => {
            if let Some(p) = F::stash().last() {
                let id = p.id;
                let c = F::clone(&p.g);
                gh.nodes[id as usize].held += 1;
                watched::<F>(Held { g: c, id, dead: false });
            }
        }
        6 => {
            if let Some(h) = F::stash().pop() {
                watched::<F>(h);
            }
        }
        7 => {
            F::set_cond(Cond::Never);
            gh.replaced = true;
        }
        _ => {
            gh.busy[t] = false;
            gh.panics += 1;
            gh.panics_by[t] += 1;
            expect_panic(true);
            std::panic::panic_any("condition");
        }
    }
    gh.busy[t] = false;
    ghost::on_cond(existing, dropped, false)
}

/// Drop a pointer outside of collections: the condition in force must be consulted.
fn watched<F: Flavor>(h: Held<F>) {
    /// Looks at what was consulted, even if the condition panics.
    struct Watch(usize, u64, bool);
    impl Drop for Watch {
        fn drop(&mut self) {
            let gh = g();
            // (conditions of threads are only told apart if there is one)
            if !gh.may_panic {
                return;
            }
            let busy = gh.busy_calls - self.0;
            if !self.2 && busy == 0 {
                violation("not-consulted", "a pointer was dropped without consulting the collect condition");
            }
            if self.2 && busy > 0 {
                violation("not-consulted", "a condition was consulted that had been replaced");
            }
            if self.2 && gh.cond_calls == self.1 {
                violation("not-consulted", "a condition installed by a condition is not consulted");
            }
        }
    }
    let gh = g();
    let _w = Watch(gh.busy_calls, gh.cond_calls, gh.replaced);
    drop_held::<F>(h);
}

/// Every graph, with pointers dropped in every order under a condition that does every sequence of
/// `acts` things.
pub fn busy<F: Flavor>(name: &'static str, n: usize, k: usize, acts: u32, order: Order) -> Suite {
    let total = graph_count(n, k);
    Suite {
        name,
        bounds: format!(
            "{}: all {total} graphs of {n} nodes x {k} slots; the pointers are dropped in every order, then collections; during any {acts} drops the collect condition does any of {ACTS:?}; it has no or one program-held pointer to use; map orders: {}",
            F::NAME, order.show()
        ),
        total,
        run: Box::new(move |item| {
            let gr = graph(n, k, item);
            explore_all(bounds(order), || {
                order.pick();
                let mut w = World::<F>::new(Cond::Never, Checks::default());
                build(&mut w, &gr);
                let st = choose_free(n + 1);
                if st > 0 {
                    let c = F::clone(&w.handles[st - 1].0);
                    let id = w.handles[st - 1].1;
                    g().nodes[id as usize].held += 1;
                    F::stash().push(Held { g: c, id, dead: false });
                }
                g().script_left = acts;
                g().may_panic = true;
                F::set_cond(Cond::Busy);
                while !w.handles.is_empty() {
                    let i = choose_free(w.handles.len());
                    let (h, id) = w.handles.remove(i);
                    w.op();
                    mc_trace!("drop handle to n{id}");
                    guarded(|| watched::<F>(Held { g: h, id, dead: false }));
                    w.step_check();
                }
                w.walk();
                F::set_cond(Cond::Never);
                while let Some(h) = F::stash().pop() {
                    w.op();
                    drop_held::<F>(h);
                    w.step_check();
                }
                w.op();
                mc_trace!("collect()");
                F::collect();
                w.step_check();
                let left = g().garbage();
                if left != 0 {
                    violation("leak", &format!("collect() returned, but node n{} is not destroyed: {}", left.trailing_zeros(), g().describe()));
                }
                for i in 0..arena_used() {
                    let s = &slots()[i];
                    if s.live && !(g().panics > 0 && s.dropped) {
                        violation("leak", &format!("allocation #{i} is never freed: {}", g().describe()));
                    }
                }
            });
        }),
        describe: Box::new(move |item| format!("graph {}, all actions of the condition", show_graph(&graph(n, k, item)))),
    }
}

//! Pointer operations on the real collector, mirrored in the ghost state.

use crate::flavor::*;
use crate::ghost::{self, g, DEAD, NONE};
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::sync::atomic::Ordering::Relaxed;

/// What to check after each operation.
#[derive(Clone, Copy, Default)]
pub struct Checks {
    /// pointer identity between all pairs of pointers
    pub identity: bool,
    /// statistics passed to the collect condition
    pub counters: bool,
    /// values of unreferenced nodes are destroyed at once
    pub prompt: bool,
    /// a collection leaves no garbage
    pub complete: bool,
    /// the collect condition is consulted and obeyed
    pub asked: bool,
}

pub struct World<F: Flavor> {
    pub handles: Vec<(F::G, u8)>,
    pub guards: Vec<(Box<dyn std::any::Any>, u8, u8)>,
    pub checks: Checks,
    pub cond: Cond,
    /// whether the operation in progress is a call of collect()
    collected: bool,
}

impl<F: Flavor> World<F> {
    pub fn new(cond: Cond, checks: Checks) -> Self {
        g().reset();
        F::stash().clear();
        F::set_cond(cond);
        g().asked_only = checks.asked && cond != Cond::Unset;
        if matches!(cond, Cond::Script | Cond::Busy) {
            g().script_left = 2;
        }
        World { handles: Vec::with_capacity(8), guards: Vec::new(), checks, cond, collected: false }
    }

    pub fn op(&mut self) {
        me().ops.fetch_add(1, Relaxed);
        let gh = g();
        gh.due = 0;
        gh.op_calls = gh.cond_calls;
        gh.op_true = gh.cond_true;
        gh.op_drops = gh.drops;
        self.collected = false;
    }

    /// Make a node; returns its handle index.
    pub fn create(&mut self, val: u8, dtor: u8) -> usize {
        self.create_of(val, dtor, 0)
    }

    pub fn create_of(&mut self, val: u8, dtor: u8, kind: u8) -> usize {
        self.op();
        let (h, id) = new_node_of::<F>(val, dtor, kind);
        self.handles.push((h, id));
        self.handles.len() - 1
    }

    /// Make a node that owns handle j from the start.
    pub fn wrap(&mut self, val: u8, j: usize, kind: u8) -> usize {
        self.op();
        let (h, b) = self.handles.remove(j);
        let (h, id) = new_node_with::<F>(val, 0, kind, Some(h));
        mc_trace!("n{id}.0 := handle to n{b} (at its creation)");
        g().nodes[id as usize].edges[0] = b;
        g().nodes[b as usize].held -= 1;
        self.handles.push((h, id));
        self.handles.len() - 1
    }

    pub fn clone_handle(&mut self, i: usize) -> usize {
        self.op();
        let (h, id) = (F::clone(&self.handles[i].0), self.handles[i].1);
        mc_trace!("clone handle to n{id}");
        g().nodes[id as usize].held += 1;
        self.handles.push((h, id));
        self.handles.len() - 1
    }

    pub fn drop_handle(&mut self, i: usize) {
        self.op();
        let (h, id) = self.handles.remove(i);
        mc_trace!("drop handle to n{id}");
        self.dropping(h, id);
    }

    /// Drop a pointer that the ghost state counts as held.
    pub fn dropping(&mut self, h: F::G, id: u8) {
        g().nodes[id as usize].held -= 1;
        self.drops();
        drop(h);
    }

    /// A pointer is about to be dropped.
    fn drops(&self) {
        g().due += 1;
        g().m_drops.0 += 1;
        g().m_drops.1 += 1;
    }

    /// Slot s of node a := handle j (moved). The old content, if any, is dropped afterwards.
    pub fn store_move(&mut self, i: usize, s: usize, j: usize) {
        self.op();
        let a = self.handles[i].1;
        // keep the borrow of handle i valid while moving handle j out of the vector
        let (h, b) = self.handles.remove(j);
        let i = if j < i { i - 1 } else { i };
        mc_trace!("n{a}.{s} := handle to n{b} (moved)");
        let old = F::slot_replace(&F::deref(&self.handles[i].0).slots[s], Some(h));
        self.moved_in(a, s, b, old);
    }

    fn moved_in(&mut self, a: u8, s: usize, b: u8, old: Option<F::G>) {
        let gh = g();
        let oldb = gh.nodes[a as usize].edges[s];
        gh.nodes[a as usize].edges[s] = b;
        gh.nodes[b as usize].held -= 1;
        if let Some(o) = old {
            gh.nodes[oldb as usize].held += 1;
            self.dropping(o, oldb);
        }
    }

    /// Slot s of node a := clone of handle j.
    pub fn store_clone(&mut self, i: usize, s: usize, j: usize) {
        self.op();
        let a = self.handles[i].1;
        let b = self.handles[j].1;
        mc_trace!("n{a}.{s} := clone of handle to n{b}");
        let c = F::clone(&self.handles[j].0);
        // the old content, if any, is dropped where it is
        F::slot_update(&F::deref(&self.handles[i].0).slots[s], |o| {
            if o.is_some() {
                self.drops();
            }
            g().nodes[a as usize].edges[s] = b;
            *o = Some(c);
        });
    }

    /// Take the pointer out of a slot; it becomes a handle.
    pub fn take(&mut self, i: usize, s: usize) -> Option<usize> {
        self.op();
        let a = self.handles[i].1;
        let p = F::slot_replace(&F::deref(&self.handles[i].0).slots[s], None);
        let b = std::mem::replace(&mut g().nodes[a as usize].edges[s], NONE);
        mc_trace!("take n{a}.{s}");
        let p = p?;
        g().nodes[b as usize].held += 1;
        self.handles.push((p, b));
        Some(self.handles.len() - 1)
    }

    pub fn clear(&mut self, i: usize, s: usize) {
        self.op();
        let a = self.handles[i].1;
        let p = F::slot_replace(&F::deref(&self.handles[i].0).slots[s], None);
        let b = std::mem::replace(&mut g().nodes[a as usize].edges[s], NONE);
        mc_trace!("clear n{a}.{s}");
        if let Some(p) = p {
            g().nodes[b as usize].held += 1;
            self.dropping(p, b);
        }
    }

    /// Clear a slot, dropping the pointer in it while the slot is borrowed.
    pub fn wipe(&mut self, i: usize, s: usize) {
        self.op();
        let a = self.handles[i].1;
        mc_trace!("n{a}.{s} = None");
        F::slot_update(&F::deref(&self.handles[i].0).slots[s], |o| {
            if o.is_some() {
                self.drops();
            }
            g().nodes[a as usize].edges[s] = NONE;
            *o = None;
        });
    }

    /// Clone the pointer in a slot.
    pub fn load(&mut self, i: usize, s: usize) -> Option<usize> {
        self.op();
        let a = self.handles[i].1;
        let b = g().nodes[a as usize].edges[s];
        mc_trace!("load n{a}.{s}");
        let c = F::slot_with(&F::deref(&self.handles[i].0).slots[s], |o| o.as_ref().map(F::clone));
        let c = c?;
        g().nodes[b as usize].held += 1;
        self.handles.push((c, b));
        Some(self.handles.len() - 1)
    }

    pub fn collect(&mut self) {
        self.op();
        mc_trace!("collect()");
        let gh = g();
        let n_unreach = gh.garbage();
        gh.g0 = n_unreach;
        gh.collecting += 1;
        gh.m_drops = (0, 0);
        self.collected = true;
        F::collect();
        gh.collecting -= 1;
        gh.g0 = 0;
        if self.checks.complete && self.guards.is_empty() {
            self.no_garbage("collect() returned", gh.of_kind(0));
        }
    }

    /// Run the shared collector, where the other nodes are not managed by it.
    pub fn collect_shared(&mut self) {
        self.op();
        mc_trace!("collect() of the shared collector");
        let gh = g();
        // what thread-local values own is in use, whether they are garbage or not
        let owned = gh.closure(gh.alive_mask() & gh.of_kind(0));
        gh.collecting += 1;
        self.collected = true;
        F::collect_shared();
        gh.collecting -= 1;
        if self.checks.complete {
            self.no_garbage("collect() of the shared collector returned", gh.of_kind(1) & !owned);
        }
    }

    pub fn no_garbage(&self, when: &str, among: u32) {
        let gh = g();
        let left = gh.garbage() & among;
        if left != 0 {
            let i = left.trailing_zeros();
            violation("leak", &format!("{when}, but unreachable node n{i} is not destroyed: {}", gh.describe()));
        }
        for i in 0..gh.n {
            let x = &gh.nodes[i];
            if x.dropped > 0 && slots()[x.slot as usize].live {
                violation("leak", &format!("{when}: node n{i} destroyed but its memory was not returned"));
            }
        }
    }

    pub fn hold(&mut self, i: usize, s: usize, write: bool) {
        self.op();
        let a = self.handles[i].1;
        mc_trace!("hold a {} guard on n{a}.{s}", if write { "write" } else { "read" });
        let gd = F::slot_hold(&F::deref(&self.handles[i].0).slots[s], write);
        // a guard borrows from a handle: keep one for as long as it exists
        let h = F::clone(&self.handles[i].0);
        g().nodes[a as usize].held += 1;
        F::stash().push(Held { g: h, id: a, dead: false });
        self.guards.push((gd, a, s as u8));
    }

    pub fn release(&mut self, k: usize) {
        self.op();
        let (gd, a, s) = self.guards.remove(k);
        mc_trace!("release the guard on n{a}.{s}");
        drop(gd);
        let p = F::stash().iter().position(|x| x.id == a).unwrap();
        let Held { g: h, id, .. } = F::stash().remove(p);
        self.dropping(h, id);
    }

    /// Checks after an operation that need no access through the pointers.
    pub fn step_check(&mut self) {
        let gh = g();
        let reach = gh.reachable();
        for i in 0..gh.n {
            let x = &gh.nodes[i];
            if reach >> i & 1 == 1 {
                if x.dropped > 0 {
                    violation("reachable-destroyed", &format!("reachable node n{i} was destroyed: {}", gh.describe()));
                }
                if !slots()[x.slot as usize].live {
                    violation("reachable-freed", &format!("memory of reachable node n{i} was freed: {}", gh.describe()));
                }
            } else if self.checks.prompt && x.kind == 0 && x.dropped == 0 && gh.refs(i) == 0 {
                violation("late", &format!("no pointer to node n{i} is left but it was not destroyed at once: {}", gh.describe()));
            }
            if (self.checks.prompt || self.checks.complete) && x.dropped > 0 && slots()[x.slot as usize].live {
                violation("leak", &format!("node n{i} destroyed but its memory was not returned"));
            }
        }
        let must = std::mem::take(&mut gh.must) & gh.alive_mask();
        if self.checks.complete && !F::SYNC && !F::MIXED && self.guards.is_empty() && must != 0 {
            violation(
                "late",
                &format!("node n{} was unreachable when a collection was triggered, but it is not destroyed: {}", must.trailing_zeros(), gh.describe()),
            );
        }
        if self.checks.asked {
            self.asked();
        }
        if self.checks.counters {
            self.probe();
        }
        ghost::note_state(self.guards.len() as u64);
    }

    /// The condition was consulted for every drop of the operation, unless it asked for a collection.
    fn asked(&self) {
        let gh = g();
        let calls = gh.cond_calls - gh.op_calls;
        if gh.cond_true == gh.op_true && !self.collected && calls < gh.due && self.cond != Cond::Unset {
            violation("not-consulted", &format!("{} pointers were dropped, but the collect condition was consulted {calls} times", gh.due));
        }
        if matches!(self.cond, Cond::Default | Cond::Unset) && !self.collected && gh.cond_true == gh.op_true && (self.cond == Cond::Default || gh.drops == gh.op_drops) && gh.due > 0 {
            // look at the statistics; this counts as one more drop
            let (existing, dropped) = self.look();
            if dropped > existing + 1 {
                violation(
                    "condition",
                    &format!("a drop returned with {} drops since the last collection while {existing} pointers exist, and did not collect", dropped - 1),
                );
            }
        }
    }

    /// What a collect condition would be told, by way of dropping one more pointer.
    fn look(&self) -> (usize, usize) {
        let gh = g();
        let (calls, trues) = (gh.cond_calls, gh.cond_true);
        F::set_cond(Cond::Never);
        gh.m_drops.0 += 1;
        gh.m_drops.1 += 1;
        drop(F::new(Node::probe()));
        F::set_cond(self.cond);
        if gh.cond_calls != calls + 1 {
            violation("not-consulted", "a pointer was dropped, but the collect condition was not consulted once");
        }
        gh.cond_calls = calls;
        gh.cond_true = trues;
        (gh.last_existing, gh.last_dropped)
    }

    /// The statistics are those of the reference state.
    fn probe(&mut self) {
        let gh = g();
        // (a collection triggered by the operation is over)
        gh.g0 = 0;
        let (existing, dropped) = self.look();
        let real = gh.pointers();
        if existing != real {
            violation("counter", &format!("condition is told {existing} existing pointers, {real} exist: {}", gh.describe()));
        }
        if dropped < gh.m_drops.0 || dropped > gh.m_drops.1 {
            violation(
                "counter",
                &format!("condition is told {dropped} drops since the last collection, there were {:?}: {}", gh.m_drops, gh.describe()),
            );
        }
        gh.m_drops = (dropped, dropped);
    }

    /// Walk everything reachable through the real pointers and compare with the ghost state.
    pub fn walk(&self) {
        let gh = g();
        let mut seen: u32 = 0;
        fn visit<F: Flavor>(p: &F::G, id: u8, seen: &mut u32) {
            let n = F::deref(p);
            if !n.ok() || n.id != id {
                violation("wrong-value", &format!("pointer to n{id} yields node {} (contents intact: {})", n.id, n.ok()));
            }
            if *seen >> id & 1 == 1 {
                return;
            }
            *seen |= 1 << id;
            for s in 0..K {
                let e = g().nodes[id as usize].edges[s];
                F::slot_with(&n.slots[s], |o| match o {
                    None => {
                        if e != NONE {
                            violation("wrong-value", &format!("n{id}.{s} should hold a pointer to n{e} but is empty"));
                        }
                    }
                    Some(q) => {
                        if e == NONE {
                            violation("wrong-value", &format!("n{id}.{s} should be empty"));
                        }
                        if e == DEAD {
                            if F::try_deref(q).is_some() {
                                violation("dead-pointer", &format!("the dead pointer in n{id}.{s} came back to life"));
                            }
                            return;
                        }
                        if F::try_deref(q).is_none() {
                            violation("wrong-value", &format!("live pointer n{id}.{s} to n{e} is dead"));
                        }
                        visit::<F>(q, e, seen);
                    }
                });
            }
        }
        if !self.guards.is_empty() {
            return;
        }
        for (h, id) in &self.handles {
            visit::<F>(h, *id, &mut seen);
        }
        for h in F::stash().iter().filter(|h| !h.dead) {
            visit::<F>(&h.g, h.id, &mut seen);
        }
        let want = gh.reachable();
        if seen != want {
            violation("harness-error", "walk and ghost disagree");
        }
    }

    /// Compare all pairs of pointers that the program can see.
    pub fn identity(&self) {
        if !self.guards.is_empty() {
            return;
        }
        let mut ps: Vec<(*const F::G, u8)> = Vec::new();
        for (h, id) in &self.handles {
            ps.push((h, *id));
        }
        // pointers stored in reachable nodes
        let mut seen: u32 = 0;
        let mut todo: Vec<(*const F::G, u8)> = ps.clone();
        while let Some((p, id)) = todo.pop() {
            if seen >> id & 1 == 1 {
                continue;
            }
            seen |= 1 << id;
            let n = F::deref(unsafe { &*p });
            for s in 0..K {
                let e = g().nodes[id as usize].edges[s];
                if e < DEAD {
                    let q = F::slot_with(&n.slots[s], |o| o.as_ref().map(|x| x as *const F::G));
                    if let Some(q) = q {
                        ps.push((q, e));
                        todo.push((q, e));
                    }
                }
            }
        }
        for &(a, x) in &ps {
            let a = unsafe { &*a };
            let pa = F::as_ptr(a);
            let nd = F::deref(a) as *const Node<F>;
            if pa != nd || F::as_ref(a) as *const _ != nd || F::borrow(a) as *const _ != nd {
                violation("identity", &format!("as_ptr/as_ref/borrow/deref of a pointer to n{x} disagree"));
            }
            if F::fmt_p(a) != format!("{nd:p}") {
                violation("identity", &format!("{{:p}} of a pointer to n{x} is {} not {nd:p}", F::fmt_p(a)));
            }
            let rec = &mut g().nodes[x as usize].addr;
            if *rec == 0 {
                *rec = pa as usize;
            } else if *rec != pa as usize {
                violation("identity", &format!("address of n{x} changed"));
            }
            match F::try_deref(a) {
                Some(r) if std::ptr::eq(r, nd) => {}
                _ => violation("identity", &format!("try_deref of a live pointer to n{x} fails")),
            }
            for &(b, y) in &ps {
                let b = unsafe { &*b };
                if F::ptr_eq(a, b) != (x == y) {
                    violation("identity", &format!("ptr_eq between pointers to n{x} and n{y} is {}", x != y));
                }
                if (F::as_ptr(a) == F::as_ptr(b)) != (x == y) {
                    violation("identity", &format!("as_ptr equality between pointers to n{x} and n{y} is wrong"));
                }
                let (vx, vy) = (F::deref(a).val, F::deref(b).val);
                let same = vx == vy && vx != ODD;
                if F::eq(a, b) != same || F::ne(a, b) == same {
                    violation("identity", &format!("== between pointers to n{x} (value {vx}) and n{y} (value {vy}) is not {same}"));
                }
            }
        }
    }

    pub fn full_check(&mut self) {
        self.step_check();
        if self.checks.identity {
            self.identity();
        }
    }

    /// End of a history: verify contents, give everything up and verify that nothing is left.
    pub fn finish(mut self, collects: usize) {
        self.walk();
        if self.checks.identity {
            self.identity();
        }
        while !self.guards.is_empty() {
            self.release(0);
            self.step_check();
        }
        while !self.handles.is_empty() {
            self.drop_handle(0);
            self.step_check();
        }
        while let Some(h) = F::stash().pop() {
            crate::dtor::drop_held::<F>(h);
            self.step_check();
        }
        let complete = std::mem::replace(&mut self.checks.complete, false);
        for k in 0..collects {
            self.checks.complete = complete && k + 1 == collects;
            self.collect();
            self.step_check();
            if F::MIXED {
                self.collect_shared();
                self.step_check();
            }
        }
        if arena_live() != 0 {
            // (checked for every property: what is left would disturb the next execution)
            let i = (0..arena_used()).find(|i| slots()[*i].live).unwrap();
            violation("leak", &format!("allocation #{i} is never freed: {}", g().describe()));
        }
    }
}

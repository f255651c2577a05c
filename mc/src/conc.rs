//! Concurrent engine: small programs of several threads under all schedules within a bound.

use crate::driver::*;
use crate::flavor::*;
use crate::ghost::{self, g, MAXN, NONE};
use crate::seq::show_graph;
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::sync::atomic::Ordering::Relaxed;

/// Operations of a thread on its variables (pointers it holds).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    /// drop variable
    D(u8),
    /// clone variable into a fresh one
    C(u8),
    /// dereference and read
    R(u8),
    /// take the pointer out of slot s of the node
    Tk(u8, u8),
    /// clone the pointer in slot s
    L(u8, u8),
    /// clear slot s
    X(u8, u8),
    /// clear slot s, dropping the pointer while the slot is locked
    W(u8, u8),
    /// move variable w into slot s of the node of variable v
    P(u8, u8, u8),
    /// move the content of slot s to the other slot
    M(u8, u8),
    /// clone variable w into slot s of v
    Pc(u8, u8, u8),
    /// collect()
    G,
    /// new node
    N,
    /// new node that owns variable v from the start, and takes its place
    Nw(u8),
    /// new node pointing to itself, dropped
    Ng,
    /// hold the lock of slot s of v while dropping variable w
    Hd(u8, u8, u8),
    /// hold the lock of slot s of v while collecting
    Hg(u8, u8),
    /// dereference and keep the reference: what follows uses it for as long as the pointer stays
    K(u8),
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub graph: Vec<[u8; 2]>,
    /// initial variables of each thread (node numbers)
    pub roots: Vec<Vec<u8>>,
    pub progs: Vec<Vec<T>>,
    /// whether the graph is built by a thread that has exited, so that every node of it that owns
    /// pointers is already a candidate of the global collector
    pub candidates: bool,
    pub cond: Cond,
    /// destructor behaviours of the nodes (none if left out)
    pub dtors: Vec<u8>,
    /// node that destructors have a pointer to
    pub stash: Option<u8>,
}

impl Scen {
    pub fn show(&self) -> String {
        format!(
            "graph {}; initial pointers of the threads {:?}; programs {:?}; {}; collect condition {:?}{}",
            show_graph(&self.graph),
            self.roots,
            self.progs,
            if self.candidates { "built by an exited thread" } else { "built by the main thread" },
            self.cond,
            if self.dtors.is_empty() {
                String::new()
            } else {
                format!("; destructor behaviours {:?}, destructors can use {:?}", self.dtors, self.stash)
            }
        )
    }
}

const NV: usize = 4;

struct Me<F: Flavor> {
    t: usize,
    vars: [Option<(F::G, u8)>; NV],
    /// references to the nodes of the variables, to be used instead of dereferencing them
    kept: [Option<*const Node<F>>; NV],
}

static mut HAND: [usize; MAXT] = [0; MAXT];

fn hand<F: Flavor>(t: usize) -> &'static mut Vec<(F::G, u8)> {
    unsafe {
        if HAND[t] == 0 {
            HAND[t] = Box::into_raw(Box::new(Vec::<(F::G, u8)>::new())) as usize;
        }
        &mut *(HAND[t] as *mut Vec<(F::G, u8)>)
    }
}

/// Options of the concurrent oracles.
#[derive(Clone, Copy, Default)]
pub struct COpts {
    /// collect() must have destroyed what only the caller could touch
    pub awaits: bool,
    /// check that nothing is left in the end
    pub complete: bool,
    /// the statistics are exact at the end
    pub counters: bool,
    /// operations other than collect() are not interrupted
    pub coarse: bool,
}

impl<F: Flavor> Me<F> {
    fn put(&mut self, v: Option<(F::G, u8)>) {
        if let Some(x) = v {
            let i = self.vars.iter().position(Option::is_none).expect("free variable");
            self.vars[i] = Some(x);
        }
    }

    /// Move the pointer out of a variable, which ends the life of references obtained through it.
    fn take(&mut self, v: u8) -> Option<(F::G, u8)> {
        self.kept[v as usize] = None;
        self.vars[v as usize].take()
    }

    fn node(&self, v: u8) -> Option<(&Node<F>, u8)> {
        let (h, id) = self.vars[v as usize].as_ref()?;
        let n = match self.kept[v as usize] {
            Some(n) => unsafe { &*n },
            None => F::deref(h),
        };
        touch_addr(n as *const _ as usize);
        if !n.ok() || n.id != *id {
            violation("wrong-value", &format!("pointer to n{id} yields node {} (contents intact: {})", n.id, n.ok()));
        }
        Some((n, *id))
    }

    fn drop_ptr(&self, h: F::G, id: u8) {
        mc_trace!("drops a pointer to n{id}");
        g().hold(self.t, id, -1);
        ghost::note_state(0x78);
        drop(h);
    }

    fn op(&mut self, o: T, opts: &COpts) {
        me().ops.fetch_add(1, Relaxed);
        let t = self.t;
        mc_trace!("op {o:?}");
        match o {
            T::D(v) => {
                if let Some((h, id)) = self.take(v) {
                    self.drop_ptr(h, id);
                }
            }
            T::C(v) => {
                if let Some((h, id)) = self.vars[v as usize].as_ref() {
                    let id = *id;
                    let c = F::clone(h);
                    g().hold(t, id, 1);
                    self.put(Some((c, id)));
                }
            }
            T::R(v) => {
                self.node(v);
            }
            T::Tk(v, s) => {
                let Some((n, id)) = self.node(v) else { return };
                let got = F::slot_update(&n.slots[s as usize], |o| {
                    o.take().map(|p| {
                        let e = std::mem::replace(&mut g().nodes[id as usize].edges[s as usize], NONE);
                        g().hold(t, e, 1);
                        (p, e)
                    })
                });
                self.put(got);
            }
            T::L(v, s) => {
                let Some((n, id)) = self.node(v) else { return };
                let got = F::slot_with(&n.slots[s as usize], |o| {
                    o.as_ref().map(|p| {
                        let c = F::clone(p);
                        let e = g().nodes[id as usize].edges[s as usize];
                        g().hold(t, e, 1);
                        (c, e)
                    })
                });
                self.put(got);
            }
            T::X(v, s) => {
                let Some((n, id)) = self.node(v) else { return };
                let got = F::slot_update(&n.slots[s as usize], |o| {
                    o.take().map(|p| {
                        let e = std::mem::replace(&mut g().nodes[id as usize].edges[s as usize], NONE);
                        g().hold(t, e, 1);
                        (p, e)
                    })
                });
                if let Some((p, e)) = got {
                    self.drop_ptr(p, e);
                }
            }
            T::W(v, s) => {
                let Some((n, id)) = self.node(v) else { return };
                F::slot_update(&n.slots[s as usize], |o| {
                    g().nodes[id as usize].edges[s as usize] = NONE;
                    g().retouch();
                    ghost::note_state(0x78);
                    *o = None;
                });
            }
            T::P(v, s, w) | T::Pc(v, s, w) => {
                let new = if let T::P(..) = o {
                    self.take(w)
                } else {
                    self.vars[w as usize].as_ref().map(|(h, id)| {
                        let c = F::clone(h);
                        g().hold(t, *id, 1);
                        (c, *id)
                    })
                };
                let Some((p, b)) = new else { return };
                let Some((n, id)) = self.node(v) else {
                    self.put(Some((p, b)));
                    return;
                };
                F::slot_update(&n.slots[s as usize], |o| {
                    g().nodes[id as usize].edges[s as usize] = b;
                    g().hold(t, b, -1);
                    g().retouch();
                    ghost::note_state(0x78);
                    // the old content, if any, is dropped where it is
                    *o = Some(p);
                });
            }
            T::M(v, s) => {
                let Some((n, id)) = self.node(v) else { return };
                let (s, d) = (s as usize, 1 - s as usize);
                let got = F::slot_update(&n.slots[s], |o| {
                    o.take().map(|p| {
                        let e = std::mem::replace(&mut g().nodes[id as usize].edges[s], NONE);
                        g().hold(t, e, 1);
                        (p, e)
                    })
                });
                let Some((p, b)) = got else { return };
                let old = F::slot_update(&n.slots[d], |o| {
                    let old = o.replace(p);
                    let e = std::mem::replace(&mut g().nodes[id as usize].edges[d], b);
                    let old = old.map(|x| {
                        g().hold(t, e, 1);
                        (x, e)
                    });
                    g().hold(t, b, -1);
                    old
                });
                if let Some((p, e)) = old {
                    self.drop_ptr(p, e);
                }
            }
            T::G => self.collect(opts),
            T::N => {
                let (h, id) = new_node::<F>(0, 0);
                g().nodes[id as usize].held_by[t] = 1;
                g().retouch();
                self.put(Some((h, id)));
            }
            T::Nw(v) => {
                let Some((p, b)) = self.take(v) else { return };
                let (h, id) = new_node_with::<F>(0, 0, 0, Some(p));
                g().nodes[id as usize].held_by[t] = 1;
                g().nodes[id as usize].edges[0] = b;
                g().hold(t, b, -1);
                g().retouch();
                self.vars[v as usize] = Some((h, id));
            }
            T::Ng => {
                let (h, id) = new_node::<F>(0, 0);
                g().nodes[id as usize].held_by[t] = 1;
                g().retouch();
                let c = F::clone(&h);
                g().hold(t, id, 1);
                let n = F::deref(&h);
                F::slot_update(&n.slots[0], |o| {
                    *o = Some(c);
                    g().nodes[id as usize].edges[0] = id;
                    g().hold(t, id, -1);
                });
                self.drop_ptr(h, id);
            }
            T::Hd(v, s, w) => {
                let Some((h, id)) = self.take(w) else { return };
                let Some((n, _)) = self.node(v) else {
                    self.put(Some((h, id)));
                    return;
                };
                let n: *const Node<F> = n;
                let gd = F::slot_hold(unsafe { &(&(*n).slots)[s as usize] }, true);
                self.drop_ptr(h, id);
                drop(gd);
            }
            T::K(v) => {
                let n = self.node(v).map(|(n, _)| n as *const Node<F>);
                self.kept[v as usize] = n;
            }
            T::Hg(v, s) => {
                let Some((n, _)) = self.node(v) else { return };
                let n: *const Node<F> = n;
                let gd = F::slot_hold(unsafe { &(&(*n).slots)[s as usize] }, true);
                self.collect(&COpts { awaits: false, ..*opts });
                drop(gd);
            }
        }
    }

    fn collect(&mut self, opts: &COpts) {
        let gh = g();
        let mut mine = 0u32;
        if opts.awaits {
            let garbage = gh.garbage();
            for i in 0..gh.n {
                if garbage >> i & 1 == 1 {
                    let comp = gh.component(i);
                    if (0..gh.n).all(|j| {
                        comp >> j & 1 == 0 || gh.nodes[j].touched & !(1 << self.t) & !SETUP == 0
                    }) && gh.nodes[i].touched >> self.t & 1 == 1
                    {
                        mine |= 1 << i;
                    }
                }
            }
        }
        mc_trace!("collect()");
        F::collect();
        mc_trace!("collect() returns");
        let left = mine & g().alive_mask();
        if left != 0 {
            violation(
                "not-awaited",
                &format!(
                    "collect() returned but n{}, which only the calling thread could touch and which was unreachable, is not destroyed: {}",
                    left.trailing_zeros(),
                    g().describe()
                ),
            );
        }
    }
}

/// Model threads that only set up the scenario.
const SETUP: u8 = 1;

fn build<F: Flavor>(sc: &Scen, t: usize) {
    let n = sc.graph.len();
    let mut hs: Vec<(F::G, u8)> = Vec::with_capacity(8);
    for i in 0..n {
        let (h, id) = new_node::<F>(i as u8 % 2, sc.dtors.get(i).copied().unwrap_or(0));
        g().nodes[id as usize].held_by[t] = 1;
        hs.push((h, id));
    }
    for (i, r) in sc.graph.iter().enumerate() {
        for (s, &e) in r.iter().enumerate() {
            if e != NONE {
                let c = F::clone(&hs[e as usize].0);
                let nd = F::deref(&hs[i].0);
                F::slot_replace(&nd.slots[s], Some(c));
                g().nodes[i].edges[s] = e;
            }
        }
    }
    let nt = sc.roots.len();
    let mut last = vec![None; n];
    for (k, r) in sc.roots.iter().enumerate() {
        for (j, &x) in r.iter().enumerate() {
            last[x as usize] = Some((k, j));
        }
    }
    if let Some(x) = sc.stash {
        let (h, id) = &hs[x as usize];
        let c = F::clone(h);
        g().nodes[*id as usize].held += 1;
        F::stash().push(Held { g: c, id: *id, dead: false });
    }
    let mut hs: Vec<Option<(F::G, u8)>> = hs.into_iter().map(Some).collect();
    for k in 0..nt {
        for (j, &x) in sc.roots[k].iter().enumerate() {
            let p = if !sc.candidates && last[x as usize] == Some((k, j)) {
                // nothing is dropped: the last user gets the original pointer
                hs[x as usize].take().unwrap()
            } else {
                let (h, id) = hs[x as usize].as_ref().unwrap();
                let c = F::clone(h);
                g().nodes[*id as usize].held += 1;
                g().nodes[*id as usize].held_by[t] += 1;
                (c, *id)
            };
            hand::<F>(k).push(p);
        }
    }
    for h in hs.into_iter().flatten() {
        g().hold(t, h.1, -1);
        if sc.dtors.is_empty() {
            drop(h.0);
        } else {
            crate::dtor::guarded(|| drop(h.0));
        }
    }
}

/// Run a scenario once (all choices come from the explorer).
pub fn run<F: Flavor>(sc: &Scen, opts: &COpts) {
    g().reset();
    if sc.graph.len() > 1 {
        rt().order_desc = choose_free(2) == 1;
    }
    F::set_cond(Cond::Never);
    F::stash().clear();
    for k in 0..sc.roots.len() {
        hand::<F>(k).clear();
    }
    let base = if sc.candidates {
        let scp: usize = sc as *const Scen as usize;
        let h = spawn(move || {
            build::<F>(unsafe { &*(scp as *const Scen) }, tid());
        });
        h.join();
        2
    } else {
        build::<F>(sc, 0);
        1
    };
    // who touched what during the setup does not matter
    for i in 0..g().n {
        g().nodes[i].touched = 0;
    }
    if sc.cond == Cond::Busy {
        g().script_left = 1;
    }
    F::set_cond(sc.cond);
    // hand the pointers over
    for k in 0..sc.roots.len() {
        for (_, id) in hand::<F>(k).iter() {
            let x = &mut g().nodes[*id as usize];
            x.held_by[base - 1] -= 1;
            x.held_by[base + k] += 1;
        }
    }
    g().retouch();
    let mut hs = Vec::new();
    for k in 0..sc.roots.len() {
        let scp: usize = sc as *const Scen as usize;
        let op: usize = opts as *const COpts as usize;
        hs.push(spawn(move || {
            let sc = unsafe { &*(scp as *const Scen) };
            let opts = unsafe { &*(op as *const COpts) };
            let mut m = Me::<F> { t: tid(), vars: [None, None, None, None], kept: [None; NV] };
            for (i, h) in hand::<F>(k).drain(..).enumerate() {
                m.vars[i] = Some(h);
            }
            for &o in &sc.progs[k] {
                if opts.coarse {
                    set_atomic(false);
                    point();
                    set_atomic(o != T::G);
                }
                if sc.dtors.is_empty() {
                    m.op(o, opts);
                } else {
                    crate::dtor::guarded(|| m.op(o, opts));
                }
                g().pc[m.t] += 1;
                ghost::note_state(0x77);
            }
            for i in 0..NV {
                if let Some((h, id)) = m.take(i as u8) {
                    if opts.coarse {
                        set_atomic(false);
                        point();
                        set_atomic(true);
                    }
                    if sc.dtors.is_empty() {
                        m.drop_ptr(h, id);
                    } else {
                        crate::dtor::guarded(|| m.drop_ptr(h, id));
                    }
                }
            }
        }));
    }
    for h in hs {
        h.join();
    }
    // quiescence
    let gh = g();
    if !sc.dtors.is_empty() {
        F::set_cond(Cond::Never);
        settle::<F>();
        return;
    }
    if gh.reachable() != 0 {
        violation("harness-error", "pointers left at the end of a scenario");
    }
    F::set_cond(Cond::Never);
    mc_trace!("main: collect()");
    F::collect();
    if opts.complete {
        let left = gh.garbage();
        if left != 0 {
            violation(
                "leak",
                &format!("all threads have exited and collect() was called, but n{} is not destroyed: {}", left.trailing_zeros(), gh.describe()),
            );
        }
    }
    if arena_live() != 0 {
        // (checked for every property: what is left would disturb the next execution)
        let i = (0..arena_used()).find(|i| slots()[*i].live).unwrap();
        violation("leak", &format!("all threads have exited and collect() was called, but allocation #{i} is never freed: {}", gh.describe()));
    }
    if opts.counters {
        let (h, id) = new_node::<F>(0, 0);
        gh.nodes[id as usize].held = 0;
        drop(h);
        let real = gh.pointers();
        if gh.last_existing != real {
            violation("counter", &format!("{} pointers exist at the end, the condition is told {}", real, gh.last_existing));
        }
    }
}

/// Give up what destructors left behind; in the end nothing must be left.
fn settle<F: Flavor>() {
    let gh = g();
    for _ in 0..MAXN {
        while let Some(h) = F::stash().pop() {
            mc_trace!("main: drops a pointer that destructors had");
            crate::dtor::guarded(|| crate::dtor::drop_held::<F>(h));
        }
        mc_trace!("main: collect()");
        crate::dtor::guarded(F::collect);
        if F::stash().is_empty() && gh.garbage() == 0 {
            break;
        }
    }
    if gh.reachable() != 0 {
        violation("harness-error", "pointers left at the end of a scenario");
    }
    let left = gh.garbage();
    if left != 0 {
        violation("leak", &format!("all threads have exited and collect() was called, but n{} is not destroyed: {}", left.trailing_zeros(), gh.describe()));
    }
    // (the memory of a value whose destructor panics is not returned)
    if let Some(i) = (0..arena_used()).find(|i| slots()[*i].live && !(gh.panics > 0 && slots()[*i].dropped)) {
        violation("leak", &format!("all threads have exited and collect() was called, but allocation #{i} is never freed: {}", gh.describe()));
    }
}

/// The scenarios with every assignment of behaviours to up to `active` destructors.
pub fn with_dtors(scens: &[Scen], acts: &[u8], active: usize) -> Vec<Scen> {
    let mut out = Vec::new();
    for s in scens {
        let n = s.graph.len();
        let base = acts.len() + 1;
        for k in 1..base.pow(n as u32) {
            let ds: Vec<u8> = (0..n)
                .map(|i| match k / base.pow(i as u32) % base {
                    0 => 0,
                    a => acts[a - 1],
                })
                .collect();
            if ds.iter().filter(|d| **d != 0).count() > active || ds.iter().filter(|d| **d == crate::dtor::PANIC).count() > 1 {
                continue;
            }
            for st in 0..=n {
                let stash = st.checked_sub(1).map(|x| x as u8);
                if stash.is_some() && !ds.contains(&crate::dtor::DROP_STASHED) {
                    continue;
                }
                out.push(Scen { dtors: ds.clone(), stash, ..s.clone() });
            }
        }
    }
    out
}

/// The scenarios with the first thread keeping references to what it has pointers to.
pub fn with_kept(mut scens: Vec<Scen>) -> Vec<Scen> {
    scens.retain(|s| {
        let n = s.roots[0].len() as u8;
        s.progs[0].iter().any(|o| match *o {
            T::R(v) | T::Tk(v, _) | T::L(v, _) | T::X(v, _) | T::W(v, _) | T::P(v, ..) | T::M(v, _) | T::Pc(v, ..) | T::Hd(v, ..) | T::Hg(v, _) => v < n,
            _ => false,
        })
    });
    for s in &mut scens {
        let keep: Vec<T> = (0..s.roots[0].len() as u8).map(T::K).collect();
        s.progs[0].splice(0..0, keep);
    }
    scens
}

/// All programs of exactly `len` operations for a thread with `nroots` initial variables.
pub fn programs(len: usize, nroots: usize, a: &Alphabet) -> Vec<Vec<T>> {
    fn rec(len: usize, occ: u8, cur: &mut Vec<T>, a: &Alphabet, out: &mut Vec<Vec<T>>) {
        if len == 0 {
            // a trailing drop of the variable that is dropped first anyway adds nothing
            if let Some(T::D(v)) = cur.last() {
                if (0..*v).all(|w| occ >> w & 1 == 0) {
                    return;
                }
            }
            out.push(cur.clone());
            return;
        }
        let mut ops: Vec<(T, u8)> = Vec::new();
        let free = (0..NV as u8).find(|v| occ >> v & 1 == 0);
        for v in 0..NV as u8 {
            if occ >> v & 1 == 0 {
                continue;
            }
            ops.push((T::D(v), occ & !(1 << v)));
            if a.wrap {
                ops.push((T::Nw(v), occ));
            }
            if a.read {
                ops.push((T::R(v), occ));
            }
            if let Some(f) = free {
                let o2 = occ | 1 << f;
                if a.clone {
                    ops.push((T::C(v), o2));
                }
                for s in 0..a.slots {
                    if a.take {
                        ops.push((T::Tk(v, s), o2));
                    }
                    if a.load {
                        ops.push((T::L(v, s), o2));
                    }
                }
            }
            for s in 0..a.slots {
                if a.clear {
                    ops.push((T::X(v, s), occ));
                    ops.push((T::W(v, s), occ));
                }
                if a.shift {
                    ops.push((T::M(v, s), occ));
                }
                for w in 0..NV as u8 {
                    if occ >> w & 1 == 1 {
                        if w != v && a.put {
                            ops.push((T::P(v, s, w), occ & !(1 << w)));
                        }
                        if w != v && a.hold {
                            ops.push((T::Hd(v, s, w), occ & !(1 << w)));
                        }
                        if a.putc {
                            ops.push((T::Pc(v, s, w), occ));
                        }
                    }
                }
                if a.hold && a.collect {
                    ops.push((T::Hg(v, s), occ));
                }
            }
        }
        if a.collect {
            ops.push((T::G, occ));
        }
        if a.new {
            if let Some(f) = free {
                ops.push((T::N, occ | 1 << f));
            }
            ops.push((T::Ng, occ));
        }
        for (o, n) in ops {
            // skip pairs that change nothing
            if o == T::G && cur.last() == Some(&T::G) && !a.gg {
                continue;
            }
            cur.push(o);
            rec(len - 1, n, cur, a, out);
            cur.pop();
        }
    }
    let mut out = Vec::new();
    rec(len, (1u8 << nroots) - 1, &mut Vec::new(), a, &mut out);
    out
}

#[derive(Clone, Copy, Default)]
pub struct Alphabet {
    pub slots: u8,
    pub read: bool,
    pub clone: bool,
    pub take: bool,
    pub load: bool,
    pub clear: bool,
    pub shift: bool,
    pub put: bool,
    pub putc: bool,
    pub collect: bool,
    pub new: bool,
    pub wrap: bool,
    pub hold: bool,
    pub gg: bool,
    /// also overwrite slots, and use a slot when the other would do
    pub over: bool,
}

pub fn alpha_full() -> Alphabet {
    Alphabet {
        slots: 1,
        read: true,
        clone: true,
        take: true,
        load: true,
        clear: true,
        shift: true,
        put: true,
        putc: false,
        collect: true,
        new: false,
        wrap: false,
        hold: false,
        gg: false,
        over: true,
    }
}

/// A suite over an explicit list of scenarios.
pub fn suite<F: Flavor>(name: &'static str, what: &str, scens: Vec<Scen>, b: Bounds, opts: COpts) -> Suite {
    let scens = std::rc::Rc::new(scens);
    let s2 = scens.clone();
    Suite {
        name,
        bounds: format!(
            "{}: {what}; {} scenarios; all schedules with at most {} preemptions{}, both map orders",
            F::NAME,
            scens.len(),
            b.preempt,
            if b.stale > 0 { format!(" and {} stale reads", b.stale) } else { String::new() }
        ),
        total: scens.len() as u64,
        run: Box::new(move |i| {
            let sc = &scens[i as usize];
            set_hb(true);
            explore_all(b, || run::<F>(sc, &opts));
        }),
        describe: Box::new(move |i| s2[i as usize].show()),
    }
}

/// All graphs with at most `edges` edges in `slots` slots per node, up to the order of the slots.
pub fn sparse_graphs(n: usize, slots: usize, edges: usize) -> Vec<Vec<[u8; 2]>> {
    (0..crate::seq::graph_count(n, slots))
        .map(|i| crate::seq::graph(n, slots, i))
        .filter(|g| {
            g.iter().all(|r| r[0] <= r[1]) && g.iter().flatten().filter(|e| **e != NONE).count() <= edges
        })
        .collect()
}

/// Programs of exactly `len` operations on this graph, each of which does something.
/// (The other threads must not store or take pointers.)
pub fn effective(len: usize, graph: &[[u8; 2]], roots: &[u8], a: &Alphabet) -> Vec<Vec<T>> {
    let mut out = programs(len, roots.len(), a);
    out.retain(|p| {
        let mut e = graph.to_vec();
        let mut vars: [Option<u8>; NV] = [None; NV];
        for (i, r) in roots.iter().enumerate() {
            vars[i] = Some(*r);
        }
        for o in p {
            let slot = |v: u8, s: u8| (vars[v as usize].unwrap() as usize, s as usize);
            match *o {
                T::D(v) => vars[v as usize] = None,
                T::C(v) => {
                    let i = vars.iter().position(Option::is_none).unwrap();
                    vars[i] = vars[v as usize];
                }
                T::Tk(v, s) | T::L(v, s) => {
                    let (n, s) = slot(v, s);
                    if e[n][s] == NONE || !a.over && s == 1 && e[n][0] == e[n][1] {
                        return false;
                    }
                    let i = vars.iter().position(Option::is_none).unwrap();
                    vars[i] = Some(e[n][s]);
                    if let T::Tk(..) = o {
                        e[n][s] = NONE;
                    }
                }
                T::X(v, s) | T::W(v, s) => {
                    let (n, s) = slot(v, s);
                    if e[n][s] == NONE {
                        return false;
                    }
                    e[n][s] = NONE;
                }
                T::M(v, s) => {
                    let (n, s) = slot(v, s);
                    if e[n][s] == NONE {
                        return false;
                    }
                    e[n][1 - s] = e[n][s];
                    e[n][s] = NONE;
                }
                T::P(v, s, w) | T::Pc(v, s, w) => {
                    let (n, s) = slot(v, s);
                    if !a.over && (e[n][s] != NONE || s == 1 && e[n][0] == NONE) {
                        return false;
                    }
                    e[n][s] = vars[w as usize].unwrap();
                    if let T::P(..) = o {
                        vars[w as usize] = None;
                    }
                }
                T::Nw(v) => {
                    e.push([vars[v as usize].unwrap(), NONE]);
                    vars[v as usize] = Some(e.len() as u8 - 1);
                }
                _ => (),
            }
        }
        true
    });
    out
}

/// Programs of every length up to `max`.
pub fn programs_upto(max: usize, nroots: usize, a: &Alphabet) -> Vec<Vec<T>> {
    (0..=max).flat_map(|l| programs(l, nroots, a)).collect()
}

/// The product of graphs, root placements and programs.
pub fn product(
    graphs: &[Vec<[u8; 2]>],
    roots: &[(Vec<u8>, Vec<u8>)],
    a: &dyn Fn(usize) -> Vec<Vec<T>>,
    b: &dyn Fn(usize) -> Vec<Vec<T>>,
    candidates: &[bool],
    conds: &[Cond],
) -> Vec<Scen> {
    let mut out = Vec::new();
    for gr in graphs {
        for (ra, rb) in roots {
            if ra.iter().chain(rb).any(|x| *x as usize >= gr.len()) {
                continue;
            }
            let pas = a(ra.len());
            let pbs = b(rb.len());
            for pa in &pas {
                for pb in &pbs {
                    for &c in candidates {
                        for &cond in conds {
                            out.push(Scen {
                                graph: gr.clone(),
                                roots: vec![ra.clone(), rb.clone()],
                                progs: vec![pa.clone(), pb.clone()],
                                candidates: c,
                                cond,
                                dtors: vec![],
                                stash: None,
                            });
                        }
                    }
                }
            }
        }
    }
    out
}

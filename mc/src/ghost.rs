//! Reference state: who points to whom, maintained by the engines next to every real operation.

use parking_lot::mc::*;
use parking_lot::mc_trace;

pub const CANARY: u64 = 0x5afe_c0de_1234_8765;
pub const MAXN: usize = 24;
pub const NONE: u8 = u8::MAX;
/// a dead pointer, which leads nowhere
pub const DEAD: u8 = u8::MAX - 1;
/// the node by which the engine looks at the statistics
pub const PROBE: u8 = u8::MAX - 2;
pub const MAXT_G: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct GNode {
    pub created: bool,
    /// 1: managed by the shared collector while others are not
    pub kind: u8,
    pub dropped: u8,
    pub slot: u16,
    pub edges: [u8; 2],
    /// number of pointers held by the program (threads, stash)
    pub held: u8,
    /// model threads that ever operated on it
    pub touched: u8,
    /// pointers held by each model thread (concurrent engine)
    pub held_by: [u8; MAXT_G],
    /// address of the value, once seen
    pub addr: usize,
}

pub struct Ghost {
    pub n: usize,
    pub nodes: [GNode; MAXN],
    /// nodes unreachable at the start of the collection in progress on this thread
    pub g0: u32,
    pub collecting: u32,
    /// nodes unreachable when the collect condition last asked for a collection
    pub must: u32,
    /// whether `g0` says exactly which pointers are dead
    pub strong_dead: bool,
    /// a destructor saw something wrong but reporting is left to the engine
    pub cond_calls: u64,
    pub last_existing: usize,
    pub last_dropped: usize,
    pub cond_true: u64,
    /// answers `true` that a scripted condition may still give
    pub script_left: u32,
    /// whether a condition that acts may panic, and which threads are in one
    pub may_panic: bool,
    /// How often a busy condition was consulted.
    pub busy_calls: usize,
    /// A condition was installed in the place of the busy one.
    pub replaced: bool,
    pub busy: [bool; MAXT_G],
    /// drops of pointers since the last collection began: lower and upper bound
    pub m_drops: (usize, usize),
    /// drops of pointers outside explicit collections in the operation in progress
    pub due: u64,
    /// `cond_calls`, `cond_true` and `drops` when the operation in progress began
    pub op_calls: u64,
    pub op_true: u64,
    pub op_drops: u64,
    /// only a collection that was asked for may destroy what pointers still lead to
    pub asked_only: bool,
    /// calls of `accept` on nodes (collector activity)
    pub accepts: u64,
    /// destructor calls so far
    pub drops: u64,
    pub panics: u32,
    /// panics of destructors that ran on each thread
    pub panics_by: [u32; MAXT_G],
    /// operations completed by each thread
    pub pc: [u8; MAXT_G],
}

const N0: GNode = GNode {
    created: false,
    kind: 0,
    dropped: 0,
    slot: u16::MAX,
    edges: [NONE; 2],
    held: 0,
    touched: 0,
    held_by: [0; MAXT_G],
    addr: 0,
};

static mut G: Ghost = Ghost {
    n: 0,
    nodes: [N0; MAXN],
    g0: 0,
    collecting: 0,
    must: 0,
    strong_dead: false,
    cond_calls: 0,
    last_existing: 0,
    last_dropped: 0,
    cond_true: 0,
    script_left: 0,
    may_panic: false,
    busy_calls: 0,
    replaced: false,
    busy: [false; MAXT_G],
    m_drops: (0, 0),
    due: 0,
    op_calls: 0,
    op_true: 0,
    op_drops: 0,
    asked_only: false,
    accepts: 0,
    drops: 0,
    panics: 0,
    panics_by: [0; MAXT_G],
    pc: [0; MAXT_G],
};

#[allow(static_mut_refs)]
pub fn g() -> &'static mut Ghost {
    unsafe { &mut *std::ptr::addr_of_mut!(G) }
}

impl Ghost {
    pub fn reset(&mut self) {
        for x in &mut self.nodes[..self.n] {
            *x = N0;
        }
        self.n = 0;
        self.g0 = 0;
        self.collecting = 0;
        self.must = 0;
        self.strong_dead = false;
        self.cond_calls = 0;
        self.cond_true = 0;
        self.script_left = 0;
        self.may_panic = false;
        self.busy_calls = 0;
        self.replaced = false;
        self.busy = [false; MAXT_G];
        self.m_drops = (0, 0);
        self.due = 0;
        self.op_calls = 0;
        self.op_true = 0;
        self.op_drops = 0;
        self.asked_only = false;
        self.accepts = 0;
        self.drops = 0;
        self.panics = 0;
        self.panics_by = [0; MAXT_G];
        self.pc = [0; MAXT_G];
        self.last_dropped = 0;
        self.last_existing = 0;
    }

    pub fn fresh(&mut self) -> u8 {
        assert!(self.n < MAXN);
        self.n += 1;
        self.nodes[self.n - 1] = N0;
        (self.n - 1) as u8
    }

    pub fn created(&mut self, id: u8, slot: usize) {
        if slot == usize::MAX {
            violation("harness-error", "Gc::new did not allocate as expected");
        }
        let x = &mut self.nodes[id as usize];
        x.created = true;
        x.slot = slot as u16;
        x.held = 1;
        slots()[slot].wants_drop = true;
        slots()[slot].user = u32::from(id);
        mc_trace!("new node n{id} (allocation #{slot})");
    }

    /// Set of nodes reachable from what the program holds.
    pub fn reachable(&self) -> u32 {
        let mut seen: u32 = 0;
        let mut todo: u32 = 0;
        for i in 0..self.n {
            let x = &self.nodes[i];
            if x.held > 0 {
                todo |= 1 << i;
            }
            if self.strong_dead && (x.dropped > 0 || self.g0 >> i & 1 == 1) {
                // what a value being destroyed still owns can be used by its destructor
                for e in x.edges {
                    if e < DEAD && self.g0 >> e & 1 == 0 {
                        todo |= 1 << e;
                    }
                }
            }
        }
        while todo != 0 {
            let i = todo.trailing_zeros() as usize;
            todo &= todo - 1;
            if seen >> i & 1 == 1 {
                continue;
            }
            seen |= 1 << i;
            for e in self.nodes[i].edges {
                if e < DEAD && seen >> e & 1 == 0 {
                    todo |= 1 << e;
                }
            }
        }
        seen
    }

    /// Set of nodes reachable from a set of nodes.
    pub fn closure(&self, mut todo: u32) -> u32 {
        let mut seen: u32 = 0;
        while todo != 0 {
            let i = todo.trailing_zeros() as usize;
            todo &= todo - 1;
            if seen >> i & 1 == 1 {
                continue;
            }
            seen |= 1 << i;
            for e in self.nodes[i].edges {
                if e < DEAD && seen >> e & 1 == 0 {
                    todo |= 1 << e;
                }
            }
        }
        seen
    }

    /// Nodes connected with a node by edges in either direction, destroyed ones left out.
    pub fn component(&self, i: usize) -> u32 {
        let mut c = self.closure(1 << i);
        loop {
            let mut n = c;
            for j in 0..self.n {
                if self.nodes[j].created && self.closure(1 << j) & c != 0 {
                    n |= self.closure(1 << j);
                }
            }
            if n == c {
                return c;
            }
            c = n;
        }
    }

    /// Thread `t` now holds one more (or one less) pointer to node `i`.
    pub fn hold(&mut self, t: usize, i: u8, d: i8) {
        let x = &mut self.nodes[i as usize];
        x.held = x.held.checked_add_signed(d).expect("ghost count");
        x.held_by[t] = x.held_by[t].checked_add_signed(d).expect("ghost count of a thread");
        self.retouch();
    }

    /// Update which threads ever could reach which nodes.
    pub fn retouch(&mut self) {
        for t in 0..MAXT_G {
            let mut m = 0u32;
            for i in 0..self.n {
                if self.nodes[i].held_by[t] > 0 {
                    m |= 1 << i;
                }
            }
            if m == 0 {
                continue;
            }
            let c = self.closure(m);
            for i in 0..self.n {
                if c >> i & 1 == 1 {
                    self.nodes[i].touched |= 1 << t;
                }
            }
        }
    }

    pub fn alive_mask(&self) -> u32 {
        let mut m = 0;
        for i in 0..self.n {
            if self.nodes[i].created && self.nodes[i].dropped == 0 {
                m |= 1 << i;
            }
        }
        m
    }

    /// Nodes that exist but cannot be reached by the program.
    pub fn garbage(&self) -> u32 {
        self.alive_mask() & !self.reachable()
    }

    /// Nodes of one kind.
    pub fn of_kind(&self, k: u8) -> u32 {
        (0..self.n).filter(|i| self.nodes[*i].kind == k).fold(0, |m, i| m | 1 << i)
    }

    /// Number of pointers that really exist (held, or stored in nodes not destroyed).
    pub fn pointers(&self) -> usize {
        let mut k = 0;
        for x in &self.nodes[..self.n] {
            k += x.held as usize;
            if x.dropped == 0 {
                k += x.edges.iter().filter(|e| **e < DEAD).count();
            }
        }
        k
    }

    /// Number of pointers to node `i`.
    pub fn refs(&self, i: usize) -> usize {
        let mut k = self.nodes[i].held as usize;
        for x in &self.nodes[..self.n] {
            if x.dropped == 0 {
                k += x.edges.iter().filter(|e| **e as usize == i).count();
            }
        }
        k
    }

    pub fn hash(&self) -> u64 {
        let mut h: u64 = 0xcbf2_9ce4_8422_2325;
        let mut put = |v: u64| h = (h ^ v).wrapping_mul(0x100_0000_01b3);
        for x in &self.nodes[..self.n] {
            put(u64::from(x.held));
            put(u64::from(x.edges[0]));
            put(u64::from(x.edges[1]));
            put(u64::from(x.dropped));
            put(u64::from(x.kind));
            for c in x.held_by {
                put(u64::from(c));
            }
        }
        for c in self.pc {
            put(u64::from(c));
        }
        h
    }

    pub fn describe(&self) -> String {
        let mut s = String::new();
        for i in 0..self.n {
            let x = &self.nodes[i];
            s.push_str(&format!(
                "n{i}[held {} -> {:?}{}] ",
                x.held,
                x.edges.iter().filter(|e| **e != NONE).map(|e| if *e == DEAD { "dead".into() } else { format!("n{e}") }).collect::<Vec<_>>(),
                if x.dropped > 0 { " destroyed" } else { "" }
            ));
        }
        s
    }
}

/// The collector (or a count check) traces a node.
pub fn on_accept(id: u8, canary: u64) {
    let gh = g();
    gh.accepts += 1;
    if canary != CANARY ^ u64::from(id) {
        violation("use-after-drop", &format!("a node was traced after its destruction or with corrupt contents (id {id})"));
    }
}

/// A destructor runs.
pub fn on_drop(id: u8, canary: u64) {
    let gh = g();
    if id == PROBE && canary == CANARY ^ u64::from(PROBE) {
        return;
    }
    if canary != CANARY ^ u64::from(id) || id as usize >= gh.n {
        violation("double-drop", &format!("destructor runs on a destroyed or corrupt node (id {id})"));
    }
    mc_trace!("destroys node n{id}");
    if gh.nodes[id as usize].dropped > 0 {
        violation("double-drop", &format!("node n{id} destroyed twice"));
    }
    if gh.nodes[id as usize].created && gh.reachable() >> id & 1 == 1 {
        violation(
            "reachable-destroyed",
            &format!("node n{id} is destroyed while the program can reach it: {}", gh.describe()),
        );
    }
    if gh.asked_only && gh.collecting == 0 && gh.cond_true == gh.op_true && gh.refs(id as usize) > 0 {
        violation(
            "unasked",
            &format!("the collect condition did not ask for a collection, but n{id} is destroyed although pointers to it exist: {}", gh.describe()),
        );
    }
    gh.nodes[id as usize].dropped += 1;
    gh.drops += 1;
    let slot = gh.nodes[id as usize].slot as usize;
    if slot < NSLOTS {
        slots()[slot].dropped = true;
        hb_check(slot, "destruction");
    }
}

/// The content of a slot of a destroyed node is about to be dropped.
pub fn on_slot_drop(id: u8, s: u8) {
    let gh = g();
    if (id as usize) < gh.n && gh.nodes[id as usize].dropped > 0 {
        let e = std::mem::replace(&mut gh.nodes[id as usize].edges[s as usize], NONE);
        if e < DEAD {
            if gh.collecting == 0 {
                gh.due += 1;
            }
            // a pointer from one value destroyed by a collection to another is dead
            if gh.g0 >> e & 1 == 0 {
                gh.m_drops.0 += 1;
                gh.m_drops.1 += 1;
            } else if gh.collecting == 0 {
                gh.m_drops.1 += 1;
            }
        }
    }
}

pub fn on_cond(existing: usize, dropped: usize, answer: bool) -> bool {
    let gh = g();
    gh.cond_calls += 1;
    gh.last_existing = existing;
    gh.last_dropped = dropped;
    if answer {
        gh.cond_true += 1;
        // (drops that are in progress may be counted before or after)
        let busy = gh.nodes[..gh.n].iter().filter(|x| x.dropped > 0 && x.slot < NSLOTS as u16 && slots()[x.slot as usize].live).count();
        gh.m_drops = (0, busy + 1);
        gh.g0 |= gh.garbage();
        // what a value being destroyed still owns is not garbage yet
        let mut owned = 0;
        for x in &gh.nodes[..gh.n] {
            if x.dropped > 0 {
                for e in x.edges {
                    if e < DEAD {
                        owned |= 1 << e;
                    }
                }
            }
        }
        gh.must |= gh.garbage() & !gh.closure(owned);
    }
    mc_trace!("collect condition: existing {existing} dropped {dropped} -> {answer}");
    answer
}

/// Answer of a scripted condition: every sequence of answers is explored.
pub fn script_answer() -> bool {
    let gh = g();
    if gh.script_left == 0 || choose_free(2) == 0 {
        return false;
    }
    gh.script_left -= 1;
    true
}

/// Record the abstract state for the distinct-state statistics.
pub fn note_state(extra: u64) {
    crate::driver::note_state(g().hash() ^ extra.wrapping_mul(0x9E37_79B9_7F4A_7C15));
}

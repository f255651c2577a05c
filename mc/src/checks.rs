//! The suites that decide each property.

use crate::auto;
use crate::conc::{self, alpha_full, product, programs_upto, Alphabet, COpts, Scen, T};
use crate::driver::*;
use crate::dtor;
use crate::exit;
use crate::flavor::*;
use crate::layout;
use crate::scale::{self, BigSy, BigUs};
use crate::seq::*;
use crate::world::*;
use parking_lot::mc::Bounds;
use std::time::Duration;

fn thorough() -> bool {
    tier() == "thorough"
}

/// `q` in the quick tier, `t` in the thorough one.
fn by_tier<X>(q: X, t: X) -> X {
    if thorough() {
        t
    } else {
        q
    }
}

fn full() -> Alpha {
    Alpha { nodes: 3, handles: 4, slots: 2, guards: 0, readers: false, news: true, poison: false, overwrite: false }
}

/// Kinds of violations, by what they are about.
const LEAK: &[&str] = &["leak", "late"];
const ONCE: &[&str] = &["double-drop", "double-free", "bad-free", "bad-layout", "freed-undropped"];
const REACH: &[&str] = &["reachable-destroyed", "reachable-freed", "wrong-value"];
const FREED: &[&str] = &["use-after-free", "use-after-drop", "unordered", "crash"];
const LIVE: &[&str] = &["panic", "abort", "deadlock", "no-progress", "hang", "stack-overflow"];
const AWAIT: &[&str] = &["not-awaited"];
const COUNT: &[&str] = &["counter"];
const IDENT: &[&str] = &["identity"];
const ASKED: &[&str] = &["unasked", "not-consulted", "condition", "scope"];
const DEADP: &[&str] = &["dead-pointer"];
const ALWAYS: &[&str] = &["harness-error", "nondeterminism"];

fn kinds(l: &[&[&'static str]]) -> Vec<&'static str> {
    l.iter().chain(&[ALWAYS]).flat_map(|x| x.iter().copied()).collect()
}

/// Sequential histories and graphs for one collector.
fn sequential<F: Flavor>(checks: Checks) -> Vec<Suite> {
    use Order::*;
    let mut v = vec![
        histories::<F>("histories", by_tier(7, 8), full(), Cond::Never, checks, Both),
        histories::<F>("histories-auto", by_tier(7, 8), full(), Cond::Always, checks, Both),
        histories::<F>("histories-default", by_tier(7, 8), full(), Cond::Default, checks, Both),
        graphs::<F>("graphs3-drops", 3, 2, 6, full(), Cond::Never, checks, by_tier(if F::SYNC { Both } else { All }, All), Tail::Drops),
        graphs::<F>("graphs2-ops", 2, 2, by_tier(3, 4), full(), Cond::Never, checks, Both, Tail::All),
        graphs::<F>("graphs3-ops", 3, 1, by_tier(3, 4), full(), Cond::Never, checks, Both, Tail::All),
    ];
    v.push(graphs::<F>("graphs4-drops", 4, 1, 8, full(), Cond::Never, checks, Both, Tail::Drops));
    v.push(graphs::<F>("graphs3-2slots-ops", 3, 2, 2, full(), Cond::Never, checks, Both, Tail::All));
    if thorough() {
        v.push(graphs::<F>("graphs4-2slots-drops", 4, 2, 8, full(), Cond::Never, checks, Both, Tail::Drops));
    }
    v
}

/// A name for a suite of one collector.
fn nm<F: Flavor>(s: &str) -> &'static str {
    Box::leak(format!("{s}-{}", F::NAME.replace('/', "-").replace(' ', "-").to_lowercase()).into_boxed_str())
}

/// Shorter sequential suites, for properties that look at more after each operation.
fn sequential_short<F: Flavor>(checks: Checks) -> Vec<Suite> {
    use Order::*;
    vec![
        histories::<F>(nm::<F>("histories"), by_tier(6, 7), full(), Cond::Never, checks, Both),
        histories::<F>(nm::<F>("histories-auto"), by_tier(6, 7), full(), Cond::Always, checks, Both),
        histories::<F>(nm::<F>("histories-default"), by_tier(6, 7), full(), Cond::Default, checks, Both),
        graphs::<F>(nm::<F>("graphs3-drops"), 3, 2, 6, full(), Cond::Never, checks, by_tier(Fixed, Both), Tail::Drops),
        graphs::<F>(nm::<F>("graphs3-drops-auto"), 3, 1, 6, full(), Cond::Always, checks, Both, Tail::Drops),
        graphs::<F>(nm::<F>("graphs2-ops"), 2, 2, by_tier(2, 3), full(), Cond::Never, checks, Both, Tail::All),
        graphs::<F>(nm::<F>("graphs3-ops"), 3, 1, by_tier(2, 3), full(), Cond::Never, checks, Both, Tail::All),
    ]
}

/// Conditions that use the collector.
fn acting<F: Flavor>() -> Vec<Suite> {
    use Order::*;
    let checks = Checks { complete: !F::SYNC, ..Checks::default() };
    vec![
        histories::<F>(nm::<F>("histories-busy"), by_tier(5, 6), full(), Cond::Busy, checks, Fixed),
        graphs::<F>(nm::<F>("graphs2-busy-ops"), 2, 2, by_tier(1, 2), full(), Cond::Busy, checks, Fixed, Tail::All),
        crate::cond::busy::<F>(nm::<F>("graphs3-busy"), 3, 1, 2, Both),
        crate::cond::busy::<F>(nm::<F>("graphs2-busy"), 2, 2, by_tier(2, 3), Both),
        crate::cond::busy::<F>(nm::<F>("graphs3-2slots-busy"), 3, 2, by_tier(1, 2), Both),
    ]
}

/// Histories under a condition with every sequence of answers.
fn scripted<F: Flavor>(checks: Checks) -> Vec<Suite> {
    use Order::*;
    vec![
        histories::<F>(nm::<F>("histories-script"), by_tier(6, 7), full(), Cond::Script, checks, Fixed),
        graphs::<F>(nm::<F>("graphs3-script"), 3, 2, 3, full(), Cond::Script, checks, by_tier(Fixed, Both), Tail::Drops),
        graphs::<F>(nm::<F>("graphs3-script-ops"), 3, 1, 2, full(), Cond::Script, checks, Both, Tail::All),
        histories::<F>(nm::<F>("histories-unset"), by_tier(6, 7), full(), Cond::Unset, checks, Fixed),
        graphs::<F>(nm::<F>("graphs3-unset"), 3, 1, 6, full(), Cond::Unset, checks, Fixed, Tail::Drops),
        histories::<F>(nm::<F>("histories-default"), by_tier(6, 7), full(), Cond::Default, checks, Fixed),
        histories::<F>(nm::<F>("histories-auto"), by_tier(6, 7), full(), Cond::Always, checks, Fixed),
        histories::<F>(nm::<F>("histories-never"), by_tier(6, 7), full(), Cond::Never, checks, Fixed),
    ]
}

/// Histories in which contents are borrowed, locked or poisoned.
fn guarded<F: Flavor>(checks: Checks) -> Vec<Suite> {
    use Order::*;
    let poison = F::NAME != Us::NAME;
    let readers = !F::NAME.contains("Mutex");
    let a = Alpha { nodes: 2, guards: 1, readers, poison, ..full() };
    let a2 = Alpha { guards: 2, readers, poison, ..full() };
    let len = if poison { by_tier(3, 4) } else { by_tier(4, 5) };
    vec![
        histories::<F>(nm::<F>("histories-guards"), by_tier(6, 7), a, Cond::Never, checks, Fixed),
        histories::<F>(nm::<F>("histories-guards-auto"), by_tier(6, 7), a, Cond::Always, checks, Fixed),
        graphs::<F>(nm::<F>("graphs3-guards"), 3, 1, len, a2, Cond::Never, checks, Both, Tail::Guards),
        graphs::<F>(nm::<F>("graphs3-guards-auto"), 3, 1, len, a2, Cond::Always, checks, Both, Tail::Guards),
        graphs::<F>(nm::<F>("graphs3-2slots-guards"), 3, 2, by_tier(2, 3), a2, Cond::Never, checks, Fixed, Tail::Guards),
        graphs::<F>(nm::<F>("graphs2-guards-ops"), 2, 2, by_tier(2, 3), a2, Cond::Never, checks, Both, Tail::All),
    ]
}

/// Suites for pointers to unsized values.
#[cfg(feature = "unsized")]
fn unsized_sequential<F: Flavor>(checks: Checks) -> Vec<Suite> {
    use Order::*;
    vec![
        histories::<F>(nm::<F>("histories"), by_tier(6, 7), full(), Cond::Never, checks, Both),
        histories::<F>(nm::<F>("histories-auto"), by_tier(5, 7), full(), Cond::Always, checks, Both),
        graphs::<F>(nm::<F>("graphs3-drops"), 3, 2, by_tier(4, 6), full(), Cond::Never, checks, by_tier(Fixed, Both), Tail::Drops),
        graphs::<F>(nm::<F>("graphs2-ops"), 2, 2, by_tier(2, 3), full(), Cond::Never, checks, Both, Tail::All),
        dtor::dtors::<F>(nm::<F>("dtors3"), 3, 1, dtor::POINTERS, by_tier(1, 2), Cond::Never, Fixed),
        dtor::dtors::<F>(nm::<F>("dtors2-auto"), 2, 2, dtor::ALL, by_tier(1, 2), Cond::Always, Fixed),
    ]
}

fn small_graphs() -> Vec<Vec<[u8; 2]>> {
    let mut gs: Vec<Vec<[u8; 2]>> = (0..graph_count(1, 1)).map(|i| graph(1, 1, i)).collect();
    gs.extend((0..graph_count(2, 1)).map(|i| graph(2, 1, i)));
    gs
}

fn bounds(preempt: u32, stale: u32) -> Bounds {
    Bounds { preempt, stale, perms: false, max_steps: 20_000 }
}

/// A mutator with every short program against a collecting thread.
fn mutator_collector(len: usize) -> Vec<Scen> {
    product(
        &small_graphs(),
        &[(vec![0], vec![]), (vec![0], vec![0]), (vec![0], vec![1]), (vec![0, 1], vec![]), (vec![0, 1], vec![0])],
        &|r| programs_upto(len, r, &alpha_full()),
        &|_| vec![vec![T::G]],
        &[true],
        &[Cond::Never],
    )
}

/// Two mutators.
fn mutator_mutator(conds: &[Cond], cand: &[bool]) -> Vec<Scen> {
    product(
        &small_graphs(),
        &[(vec![0], vec![0]), (vec![0], vec![1])],
        &|r| programs_upto(1, r, &alpha_full()),
        &|r| programs_upto(1, r, &alpha_full()),
        cand,
        conds,
    )
}

/// As `mutator_collector` with one operation, on all graphs of two nodes with two slots.
fn mutator_collector2() -> Vec<Scen> {
    let gs: Vec<Vec<[u8; 2]>> = (0..graph_count(2, 2)).map(|i| graph(2, 2, i)).collect();
    product(
        &gs,
        &[(vec![0], vec![]), (vec![0], vec![0]), (vec![0], vec![1]), (vec![0, 1], vec![])],
        &|r| programs_upto(1, r, &alpha_full()),
        &|_| vec![vec![T::G]],
        &[true],
        &[Cond::Never],
    )
}

/// A mutator with longer programs on graphs of three nodes against a collecting thread.
fn deep(len: usize, edges: usize, roots: &[(&[u8], &[u8])], a: Alphabet) -> Vec<Scen> {
    let mut out = Vec::new();
    for g in conc::sparse_graphs(3, 2, edges) {
        for (ra, rb) in roots {
            // a node that neither a thread nor another node knows is either gone or on its own
            if (0..3u8).any(|n| !ra.contains(&n) && !rb.contains(&n) && !g.iter().enumerate().any(|(i, r)| r.contains(&n) && (i as u8 != n || g[i].iter().any(|e| *e != n && *e < 3)))) {
                continue;
            }
            for p in conc::effective(len, &g, ra, &a) {
                out.push(Scen {
                    graph: g.clone(),
                    roots: vec![ra.to_vec(), rb.to_vec()],
                    progs: vec![p, vec![T::G]],
                    candidates: true,
                    cond: Cond::Never,
                    dtors: vec![],
                    stash: None,
                });
            }
        }
    }
    out
}

/// The operations that make a difference when they are not interrupted.
fn moves() -> Alphabet {
    Alphabet { slots: 2, take: true, load: true, put: true, ..Alphabet::default() }
}

/// Programs that move pointers into nodes made for them.
fn deep_wrap(roots: &[(&[u8], &[u8])]) -> Vec<Scen> {
    let mut v = Vec::new();
    for len in 1..=3 {
        v.extend(deep(len, 2, roots, Alphabet { slots: 2, take: true, load: len < 3, put: true, wrap: true, ..Alphabet::default() }));
    }
    v.retain(|s| s.progs[0].iter().any(|o| matches!(o, T::Nw(_))));
    v
}

/// Two mutators and a collecting thread.
fn three(len: usize, graphs: &[Vec<[u8; 2]>], roots: &[(&[u8], &[u8])], a: Alphabet) -> Vec<Scen> {
    let mut out = Vec::new();
    for g in graphs {
        for (ra, rb) in roots {
            if ra.iter().chain(*rb).any(|x| *x as usize >= g.len()) {
                continue;
            }
            for p in programs_upto(len, ra.len(), &a) {
                for q in programs_upto(len, rb.len(), &a) {
                    out.push(Scen {
                        graph: g.clone(),
                        roots: vec![ra.to_vec(), rb.to_vec(), vec![]],
                        progs: vec![p.clone(), q, vec![T::G]],
                        candidates: true,
                        cond: Cond::Never,
                        dtors: vec![],
                        stash: None,
                    });
                }
            }
        }
    }
    out
}

/// A thread that holds a lock while it drops a pointer or collects, against another thread.
fn holder_other(collector: bool) -> Vec<Scen> {
    let holds = |r: usize| {
        let mut ps = programs_upto(2, r, &Alphabet { slots: 1, hold: true, collect: true, ..Alphabet::default() });
        ps.retain(|p| p.iter().any(|o| matches!(o, T::Hd(..) | T::Hg(..))));
        ps
    };
    product(
        &small_graphs(),
        &[(vec![0], vec![]), (vec![0, 1], vec![]), (vec![0, 0], vec![]), (vec![0], vec![0]), (vec![0], vec![1]), (vec![0, 1], vec![0])],
        &holds,
        &|r| if collector { vec![vec![T::G]] } else { programs_upto(1, r, &alpha_full()) },
        &[true],
        if collector { &[Cond::Never] } else { &[Cond::Never, Cond::Always] },
    )
}

/// The concurrent suites shared by the properties of the shared collector.
fn concurrent(o: COpts, stale: bool) -> Vec<Suite> {
    let two = &[true, false];
    let mut v = vec![
        conc::suite::<Cy>("mutator-collector", "one thread runs every program of up to 2 operations, the other collects", mutator_collector(2), bounds(1, 0), o),
        conc::suite::<Cy>("mutator-collector-2slots", "one thread runs every operation, the other collects, on all graphs of 2 nodes x 2 slots", mutator_collector2(), bounds(1, 0), o),
        conc::suite::<Cy>("mutator-mutator", "both threads run every single operation", mutator_mutator(&[Cond::Never], two), bounds(2, 0), o),
        conc::suite::<Cy>("mutator-mutator-auto", "both threads run every single operation, every drop collects", mutator_mutator(&[Cond::Always], two), bounds(1, 0), o),
        conc::suite::<Cy>("mutator-mutator-default", "both threads run every single operation, default collect condition", mutator_mutator(&[Cond::Default], two), bounds(1, 0), o),
    ];
    v.push(conc::suite::<CyRw>("mutator-collector-rwlock", "as mutator-collector", mutator_collector(2), bounds(1, 0), o));
    v.push(conc::suite::<CyRw>("mutator-collector-rwlock-p2", "as mutator-collector with one operation", mutator_collector(1), bounds(2, 0), o));
    let rs: &[(&[u8], &[u8])] = &[(&[0, 1], &[]), (&[0, 2], &[])];
    let coarse = COpts { coarse: true, ..o };
    let moving = "one thread moves pointers about on graphs of 3 nodes x 2 slots, its operations not being interrupted, the other collects; programs of";
    v.push(conc::suite::<Cy>("deep2", &format!("{moving} up to 2 operations, up to 3 edges"), deep(2, 3, rs, moves()), bounds(1, 0), coarse));
    v.push(conc::suite::<Cy>("deep3", &format!("{moving} up to 3 operations, up to 2 edges"), deep(3, 2, rs, moves()), bounds(1, 0), coarse));
    v.push(conc::suite::<Cy>("deep-wrap", &format!("{moving} up to 3 operations including the creation of nodes that own pointers from the start, up to 2 edges"), deep_wrap(rs), bounds(1, 0), coarse));
    let kept = "the first thread uses references it obtained in the beginning";
    v.push(conc::suite::<Cy>("kept-collector", &format!("as mutator-collector, but {kept}"), conc::with_kept(mutator_collector(2)), bounds(1, 0), o));
    let t = three(1, &small_graphs(), &[(&[0], &[0]), (&[0], &[1])], Alphabet { collect: false, ..alpha_full() });
    v.push(conc::suite::<Cy>("three-threads", "two threads run every single operation, the third collects", t.clone(), bounds(1, 0), o));
    if stale {
        v.push(conc::suite::<Cy>("mutator-collector-stale", "as mutator-collector", mutator_collector(2), bounds(1, 1), o));
        v.push(conc::suite::<Cy>("mutator-mutator-stale", "as mutator-mutator", mutator_mutator(&[Cond::Never], two), bounds(1, 1), o));
    }
    if thorough() {
        v.push(conc::suite::<Cy>("kept-deep2", &format!("as deep2, but {kept}"), conc::with_kept(deep(2, 3, rs, moves())), bounds(1, 0), coarse));
        v.push(conc::suite::<Cy>("kept-deep3", &format!("as deep3, but {kept}"), conc::with_kept(deep(3, 2, rs, moves())), bounds(1, 0), coarse));
        v.push(conc::suite::<Cy>("mutator-collector-2slots-p2", "as mutator-collector-2slots", mutator_collector2(), bounds(2, 0), o));
        v.push(conc::suite::<Cy>("mutator-mutator-auto-p2", "as mutator-mutator-auto", mutator_mutator(&[Cond::Always], two), bounds(2, 0), o));
        v.push(conc::suite::<Cy>("mutator-collector-p2", "as mutator-collector", mutator_collector(2), bounds(2, 0), o));
        v.push(conc::suite::<Cy>("deep3-3edges", &format!("{moving} up to 3 operations, up to 3 edges"), deep(3, 3, rs, moves()), bounds(1, 0), coarse));
        v.push(conc::suite::<Cy>("deep2-p2", &format!("{moving} up to 2 operations, up to 2 edges"), deep(2, 2, rs, moves()), bounds(2, 0), coarse));
        v.push(conc::suite::<Cy>("three-threads-coarse", "as three-threads, operations not being interrupted", t, bounds(2, 0), coarse));
    }
    v
}

/// A thread that makes garbage and collects it, against one that collects.
fn awaiting(len: usize) -> Vec<Scen> {
    let mine = |r: usize| {
        let mut ps: Vec<Vec<T>> = programs_upto(len, r, &Alphabet { new: true, ..alpha_full() });
        ps.retain(|p| p.last() != Some(&T::G));
        // (a program may also drop everything it has before collecting)
        let all: Vec<T> = (0..r as u8).map(T::D).collect();
        ps.push(all);
        for p in &mut ps {
            p.push(T::G);
        }
        ps
    };
    let mut v = product(
        &small_graphs(),
        &[(vec![], vec![]), (vec![0], vec![]), (vec![0, 1], vec![]), (vec![0], vec![1])],
        &mine,
        &|_| vec![vec![T::G]],
        &[true, false],
        &[Cond::Never],
    );
    // if the main thread drops a pointer, it has had access to the value
    v.retain(|s| s.candidates || (0..s.graph.len()).all(|n| s.roots.iter().flatten().any(|r| *r as usize == n)));
    v
}

/// All destructor behaviours for one collector.
fn destructors<F: Flavor>(acts: &'static [u8]) -> Vec<Suite> {
    use Order::*;
    let nm = |u: &'static str, s: &'static str| if F::SYNC { s } else { u };
    let two = by_tier(2, 3);
    let mut v = vec![
        dtor::dtors::<F>(nm("unsync-dtors3", "sync-dtors3"), 3, 1, acts, two, Cond::Never, Both),
        dtor::dtors::<F>(nm("unsync-dtors3-auto", "sync-dtors3-auto"), 3, 1, acts, 2, Cond::Always, Both),
        dtor::dtors::<F>(nm("unsync-dtors3-default", "sync-dtors3-default"), 3, 1, acts, 2, Cond::Default, Both),
        dtor::dtors::<F>(nm("unsync-dtors2-2slots", "sync-dtors2-2slots"), 2, 2, acts, 2, Cond::Never, All),
        dtor::dtors::<F>(nm("unsync-dtors2-2slots-auto", "sync-dtors2-2slots-auto"), 2, 2, acts, 2, Cond::Always, All),
        dtor::dtors::<F>(nm("unsync-dtors3-2slots", "sync-dtors3-2slots"), 3, 2, acts, by_tier(1, 2), Cond::Never, Both),
    ];
    if thorough() {
        v.push(dtor::dtors::<F>(nm("unsync-dtors4", "sync-dtors4"), 4, 1, acts, 2, Cond::Never, Both));
    }
    v
}

/// Destructors with behaviours while two threads run.
fn destructors_concurrent(acts: &'static [u8]) -> Vec<Suite> {
    let o = COpts::default();
    let rs: &[(Vec<u8>, Vec<u8>)] = &[(vec![0], vec![]), (vec![0], vec![0]), (vec![0], vec![1]), (vec![0, 1], vec![])];
    let one = |_: usize| vec![vec![T::G]];
    let few = |r: usize| programs_upto(1, r, &Alphabet { slots: 1, take: true, load: true, clear: true, collect: true, ..Alphabet::default() });
    let against = |rs, conds: &[Cond], b: &dyn Fn(usize) -> Vec<Vec<T>>| product(&small_graphs(), rs, &few, b, &[true], conds);
    let active = by_tier(1, 2);
    let what = format!("all assignments of the destructor behaviours {acts:?} to up to {active} nodes; one thread runs every single operation, the other");
    vec![
        conc::suite::<Cy>("concurrent-dtors", &format!("{what} collects"), conc::with_dtors(&against(rs, &[Cond::Never], &one), acts, active), bounds(by_tier(1, 2), 0), o),
        conc::suite::<Cy>("concurrent-dtors-2", &format!("{what} too"), conc::with_dtors(&against(&rs[1..3], &[Cond::Never, Cond::Always], &few), acts, active), bounds(1, 0), o),
    ]
}

/// Sizes for which everything is tried, and others.
const AGES: &[u32] = &[127, 128, 129, 255, 256, 257, 1000, 32_768, 65_535, 65_536, 65_537];
const SMALL: u32 = 40;
const ROUND: &[u32] = &[
    63, 64, 65, 66, 100, 101, 127, 128, 129, 130, 200, 201, 255, 256, 257, 258, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 4096, 4097, 10_001, 65_535, 65_536, 65_537, 100_001, 150_000,
];

pub fn check(p: &str) -> Option<Check> {
    let cap = Duration::from_secs(by_tier(360, 840));
    let mut suites = Vec::new();
    let safe = Checks::default();
    let strict = Checks { prompt: true, complete: true, ..Checks::default() };
    let (property, report) = match p {
        "C01" => {
            suites.extend(sequential::<Us>(safe));
            suites.push(scale::sizes::<BigUs>("sizes", SMALL, ROUND, false));
            suites.push(scale::ages::<BigUs>("ages", by_tier(60, 300), AGES));
            suites.push(layout::layouts::<layout::LayUs>("values"));
            ("C01", kinds(&[REACH, FREED, ONCE, LIVE]))
        }
        "C02" => {
            suites.extend(sequential::<Us>(strict));
            suites.push(scale::sizes::<BigUs>("sizes", SMALL, ROUND, false));
            suites.push(scale::ages::<BigUs>("ages", by_tier(60, 300), AGES));
            suites.push(layout::layouts::<layout::LayUs>("values"));
            ("C02", kinds(&[LEAK, ONCE, FREED, LIVE]))
        }
        "C03" => {
            suites.extend(concurrent(COpts::default(), true));
            suites.extend(sequential::<Sy>(safe));
            suites.push(scale::sizes::<BigSy>("sizes", SMALL, ROUND, false));
            suites.push(scale::ages::<BigSy>("ages", by_tier(60, 300), AGES));
            suites.push(layout::layouts::<layout::LaySy>("values"));
            ("C03", kinds(&[REACH, FREED, &["double-drop", "double-free", "bad-free"]]))
        }
        "C04" => {
            suites.extend(concurrent(COpts { complete: true, ..COpts::default() }, false));
            suites.extend(sequential::<Sy>(Checks { prompt: false, ..strict }));
            suites.push(scale::sizes::<BigSy>("sizes", SMALL, ROUND, false));
            suites.push(scale::ages::<BigSy>("ages", by_tier(60, 300), AGES));
            suites.push(layout::layouts::<layout::LaySy>("values"));
            ("C04", kinds(&[LEAK, ONCE, FREED, &["stack-overflow"]]))
        }
        "C05" => {
            suites.extend(concurrent(COpts::default(), false));
            let (c, o) = (Checks { prompt: false, ..strict }, COpts::default());
            suites.extend(guarded::<Sy>(c));
            suites.extend(guarded::<SyRw>(c));
            suites.push(conc::suite::<Cy>("holder-collector", "one thread drops or collects while holding a lock, the other collects", holder_other(true), bounds(by_tier(1, 2), 0), o));
            suites.push(conc::suite::<CyRw>("holder-collector-rwlock", "one thread drops or collects while holding a lock, the other collects", holder_other(true), bounds(by_tier(1, 2), 0), o));
            suites.push(conc::suite::<Cy>("holder-mutator", "one thread drops or collects while holding a lock, the other runs every single operation", holder_other(false), bounds(1, 0), o));
            suites.push(scale::sizes::<BigSy>("sizes", SMALL, ROUND, false));
            suites.push(scale::ages::<BigSy>("ages", by_tier(60, 300), AGES));
            ("C05", kinds(&[LIVE]))
        }
        "C06" => {
            suites.extend(destructors::<Us>(dtor::POINTERS));
            suites.extend(destructors::<Sy>(dtor::POINTERS));
            suites.extend(destructors_concurrent(dtor::CONCURRENT_POINTERS));
            ("C06", kinds(&[DEADP, LEAK, ONCE, REACH, FREED, LIVE]))
        }
        "C17" => {
            suites.extend(destructors::<Us>(dtor::ALL));
            suites.extend(destructors::<Sy>(dtor::ALL));
            suites.extend(destructors_concurrent(dtor::CONCURRENT));
            ("C17", kinds(&[DEADP, LEAK, ONCE, REACH, FREED, LIVE]))
        }
        "C14" => {
            let o = COpts { awaits: true, ..COpts::default() };
            suites.push(conc::suite::<Cy>("await", "one thread runs every program of up to 1 operation and collects, the other collects", awaiting(1), bounds(2, 0), o));
            suites.push(conc::suite::<Cy>("await-longer", "one thread runs every program of up to 2 operations and collects, the other collects", awaiting(2), bounds(by_tier(1, 2), 0), o));
            suites.extend(concurrent(o, false).into_iter().filter(|s| thorough() || !["mutator-mutator", "mutator-collector-rwlock", "mutator-collector-rwlock-p2", "deep2", "deep3"].contains(&s.name)));
            ("C14", kinds(&[AWAIT]))
        }
        "C07" => {
            let c = Checks { counters: true, ..Checks::default() };
            suites.extend(sequential_short::<Us>(c));
            suites.extend(sequential_short::<Sy>(c));
            let o = COpts { counters: true, ..COpts::default() };
            let two = &[true, false];
            suites.push(conc::suite::<Cy>("mutator-collector", "one thread runs every program of up to 2 operations, the other collects", mutator_collector(by_tier(1, 2)), bounds(1, 0), o));
            suites.push(conc::suite::<Cy>("mutator-mutator", "both threads run every single operation", mutator_mutator(&[Cond::Never], two), bounds(by_tier(1, 2), 0), o));
            suites.push(conc::suite::<Cy>("mutator-mutator-auto", "both threads run every single operation, every drop collects", mutator_mutator(&[Cond::Always], two), bounds(1, 0), o));
            suites.push(scale::sizes::<BigUs>("sizes-unsync", SMALL, ROUND, true));
            suites.push(scale::sizes::<BigSy>("sizes-sync", SMALL, ROUND, true));
            ("C07", kinds(&[COUNT]))
        }
        "C08" => {
            let c = Checks { asked: true, complete: true, ..Checks::default() };
            suites.extend(scripted::<Us>(c));
            suites.extend(scripted::<Sy>(Checks { complete: false, ..c }));
            suites.push(auto::delivered("delivered-3x1", 3, 1));
            suites.push(auto::delivered("delivered-2x2", 2, 2));
            suites.push(auto::scope::<Us>("scope-unsync", 3, 3));
            suites.push(auto::scope::<Cy>("scope-sync", by_tier(2, 3), by_tier(2, 2)));
            suites.push(auto::initial::<Us>("initial-unsync", 8));
            suites.push(auto::initial::<Cy>("initial-sync", 8));
            suites.push(auto::threshold("threshold"));
            ("C08", kinds(&[ASKED, &["late"]]))
        }
        "C11" => {
            suites.extend(guarded::<Us>(strict));
            suites.extend(guarded::<UsMutex>(strict));
            suites.extend(guarded::<UsRw>(strict));
            suites.extend(guarded::<Sy>(Checks { prompt: false, ..strict }));
            suites.extend(guarded::<SyRw>(Checks { prompt: false, ..strict }));
            let o = COpts { complete: true, ..COpts::default() };
            suites.push(conc::suite::<Cy>("holder-collector", "one thread drops or collects while holding a lock, the other collects", holder_other(true), bounds(by_tier(1, 2), 0), o));
            suites.push(conc::suite::<CyRw>("holder-collector-rwlock", "one thread drops or collects while holding a lock, the other collects", holder_other(true), bounds(by_tier(1, 2), 0), o));
            suites.push(conc::suite::<Cy>("holder-mutator", "one thread drops or collects while holding a lock, the other runs every single operation", holder_other(false), bounds(1, 0), o));
            ("C11", kinds(&[REACH, FREED, ONCE, LIVE, LEAK]))
        }
        "C16" => {
            use Order::*;
            let a = full();
            suites.push(histories::<Mix>("histories", by_tier(6, 7), a, Cond::Never, strict, Both));
            suites.push(histories::<Mix>("histories-auto", by_tier(6, 7), a, Cond::Always, strict, Fixed));
            suites.push(histories::<Mix>("histories-default", by_tier(6, 7), a, Cond::Default, strict, Fixed));
            suites.push(graphs::<Mix>("graphs3-drops", 3, 2, by_tier(4, 6), a, Cond::Never, strict, Both, Tail::Drops));
            suites.push(graphs::<Mix>("graphs3-drops-auto", 3, 2, 3, a, Cond::Always, strict, Both, Tail::Drops));
            suites.push(graphs::<Mix>("graphs4-drops", 4, 1, by_tier(4, 6), a, Cond::Never, strict, Fixed, Tail::Drops));
            suites.push(graphs::<Mix>("graphs2-ops", 2, 2, by_tier(3, 4), a, Cond::Never, strict, Fixed, Tail::All));
            suites.push(graphs::<Mix>("graphs3-ops", 3, 1, by_tier(2, 3), a, Cond::Never, strict, Fixed, Tail::All));
            ("C16", kinds(&[REACH, FREED, ONCE, LIVE, LEAK]))
        }
        #[cfg(feature = "unsized")]
        "C15" => {
            use crate::fat::*;
            let c = Checks { identity: true, ..strict };
            let cs = Checks { prompt: false, ..c };
            suites.push(lengths("lengths"));
            suites.extend(unsized_sequential::<UsDyn>(c));
            suites.extend(unsized_sequential::<UsBoth>(c));
            suites.extend(unsized_sequential::<UsSlice>(c));
            suites.extend(unsized_sequential::<Us>(c));
            suites.extend(unsized_sequential::<SyDyn>(cs));
            suites.extend(unsized_sequential::<SyBoth>(cs));
            suites.extend(unsized_sequential::<SySlice>(cs));
            suites.extend(unsized_sequential::<Sy>(cs));
            let o = COpts { complete: true, ..COpts::default() };
            suites.push(conc::suite::<CyDyn>("mutator-collector-dyn", "one thread runs every program of up to 1 operation, the other collects", mutator_collector(1), bounds(by_tier(1, 2), 0), o));
            suites.push(conc::suite::<CyBoth>("mutator-collector-both", "one thread runs every program of up to 2 operations, the other collects", mutator_collector(by_tier(1, 2)), bounds(1, 0), o));
            ("C15", kinds(&[REACH, FREED, ONCE, LIVE, LEAK, DEADP, IDENT]))
        }
        "C13" => {
            use Order::*;
            const CS: &[Cond] = &[Cond::Never, Cond::Always, Cond::Default];
            suites.push(exit::exits::<Us>("exit2-unsync", 2, 2, 6, false, CS, Both));
            suites.push(exit::exits::<Us>("exit3-unsync", 3, 1, 6, false, by_tier(&CS[..1], CS), Fixed));
            suites.push(exit::exits::<Us>("exit2-dtors-unsync", 2, 2, 6, true, &CS[..2], Fixed));
            suites.push(exit::exits::<Us>("exit3-2slots-unsync", 3, 2, 1, false, &CS[..2], Fixed));
            suites.push(exit::exits::<Sy>("exit2-sync", 2, 2, 6, false, CS, Both));
            suites.push(exit::exits::<Sy>("exit3-sync", 3, 1, 6, false, by_tier(&CS[..1], CS), Fixed));
            suites.push(exit::exits::<Sy>("exit2-dtors-sync", 2, 2, 6, true, &CS[..2], Fixed));
            suites.push(exit::exits::<Sy>("exit3-2slots-sync", 3, 2, 1, false, &CS[..2], Fixed));
            ("C13", kinds(&[LEAK, ONCE, REACH, FREED, LIVE]))
        }
        "C12" => {
            let c = Checks { identity: true, ..Checks::default() };
            suites.extend(sequential_short::<Us>(c));
            suites.extend(sequential_short::<Sy>(c));
            suites.push(layout::layouts::<layout::LayUs>("values-unsync"));
            suites.push(layout::layouts::<layout::LaySy>("values-sync"));
            ("C12", kinds(&[IDENT, &["wrong-value"]]))
        }
        "C18" => {
            suites.extend(acting::<Us>());
            suites.extend(acting::<Sy>());
            suites.push(conc::suite::<Cy>("mutator-mutator-busy", "both threads run every single operation, the collect condition does any one thing", mutator_mutator(&[Cond::Busy], by_tier(&[true], &[true, false])), bounds(1, 0), COpts::default()));
            ("C18", kinds(&[LEAK, ONCE, REACH, FREED, LIVE, &["not-consulted"]]))
        }
        _ => return None,
    };
    Some(Check { property, suites, report, assumptions: vec![], wall_cap: cap })
}

//! Cycles through containers are collected, and what is reachable only through one is kept.

use lite::{hash, hash_str, Info, Run};
use std::borrow::Cow;
use std::cell::{OnceCell, RefCell};
use std::collections::*;
use std::hash::{Hash, Hasher};
use std::sync::{Mutex, RwLock};

macro_rules! collector {
    ($m:ident) => {
        mod $m {
            use super::*;
            use dumpster::{$m::{collect, set_collect_condition, Gc}, Collectable, Visitor};
            use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

            pub struct Ks<T>(pub u32, pub T);
            impl<T> PartialEq for Ks<T> {
                fn eq(&self, o: &Self) -> bool {
                    self.0 == o.0
                }
            }
            impl<T> Eq for Ks<T> {}
            impl<T> PartialOrd for Ks<T> {
                fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                    Some(self.cmp(o))
                }
            }
            impl<T> Ord for Ks<T> {
                fn cmp(&self, o: &Self) -> std::cmp::Ordering {
                    self.0.cmp(&o.0)
                }
            }
            impl<T> Hash for Ks<T> {
                fn hash<H: Hasher>(&self, h: &mut H) {
                    self.0.hash(h);
                }
            }
            impl<T: Clone> Clone for Ks<T> {
                fn clone(&self) -> Self {
                    Ks(self.0, self.1.clone())
                }
            }
            unsafe impl<T: Collectable> Collectable for Ks<T> {
                fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                    self.1.accept(v)
                }
            }

            macro_rules! cycle {
                ($r:expr, $name:literal, $n:literal, $ty:ty, |$it:ident| $mk:expr) => {{
                    struct H {
                        id: usize,
                        c: Mutex<Option<$ty>>,
                    }
                    #[allow(dead_code)]
                    type P = Gc<H>;
                    static DROPS: [AtomicU32; 3] = [const { AtomicU32::new(0) }; 3];
                    unsafe impl Collectable for H {
                        fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                            self.c.accept(v)
                        }
                    }
                    impl Drop for H {
                        fn drop(&mut self) {
                            DROPS[self.id].fetch_add(1, SeqCst);
                        }
                    }
                    let name = concat!(stringify!($m), " cycle through ", $name);
                    $r.case(name, |ch| {
                        for d in &DROPS {
                            d.store(0, SeqCst);
                        }
                        let drops = || [0, 1, 2].map(|i| DROPS[i].load(SeqCst));
                        set_collect_condition(|_| false);
                        let nodes: usize = 1 + ch.choose(3);
                        let hs: Vec<P> = (0..nodes).map(|id| Gc::new(H { id, c: Mutex::new(None) })).collect();
                        // node 0 is stored where; each container holds pointers picked round robin
                        let rot = ch.choose(nodes);
                        for (i, h) in hs.iter().enumerate() {
                            // which nodes have a container at all: the last may be a leaf
                            if i > 0 && ch.flag() {
                                continue;
                            }
                            let mut k = i + rot;
                            let ptrs: Vec<P> = (0..$n)
                                .map(|_| {
                                    k += 1;
                                    hs[k % nodes].clone()
                                })
                                .collect();
                            let $it = &mut ptrs.into_iter();
                            let x: $ty = $mk;
                            *h.c.lock().unwrap() = Some(x);
                        }
                        // keep one pointer; which nodes can be reached from it?
                        let keep = ch.choose(nodes);
                        let mut edges = vec![Vec::new(); nodes];
                        for (i, h) in hs.iter().enumerate() {
                            if h.c.lock().unwrap().is_some() {
                                edges[i] = (0..$n).map(|k| (i + rot + 1 + k) % nodes).collect::<Vec<usize>>();
                            }
                        }
                        let mut reach = vec![false; nodes];
                        let mut todo = vec![keep];
                        while let Some(x) = todo.pop() {
                            if !reach[x] {
                                reach[x] = true;
                                todo.extend(&edges[x]);
                            }
                        }
                        let mut hs: Vec<Option<P>> = hs.into_iter().map(Some).collect();
                        let kept = hs[keep].take().unwrap();
                        drop(hs);
                        collect();
                        let d = drops();
                        for i in 0..nodes {
                            if reach[i] && d[i] != 0 {
                                return Err(format!("{name}: node {i} of {nodes} is reachable but was destroyed by collect()"));
                            }
                            if !reach[i] && d[i] != 1 {
                                return Err(format!("{name}: unreachable node {i} of {nodes} was destroyed {} times by collect()", d[i]));
                            }
                        }
                        drop(kept);
                        collect();
                        let d = drops();
                        for i in 0..nodes {
                            if d[i] != 1 {
                                return Err(format!("{name}: node {i} of {nodes} was destroyed {} times in the end", d[i]));
                            }
                        }
                        Ok(Info { state: hash(&[hash_str(name), nodes as u64, rot as u64, keep as u64, edges.iter().map(|e| u64::from(!e.is_empty())).fold(0, |a, b| a * 2 + b)]), ops: 2 * nodes as u64 + 3 })
                    });
                }};
            }

            pub fn run(r: &mut Run) {
                cycle!(r, "Box", 1, Box<P>, |i| Box::new(i.next().unwrap()));
                cycle!(r, "Option", 1, Option<P>, |i| i.next());
                cycle!(r, "Ok", 1, Result<P, u8>, |i| Ok(i.next().unwrap()));
                cycle!(r, "Err", 1, Result<u8, P>, |i| Err(i.next().unwrap()));
                cycle!(r, "Vec", 3, Vec<P>, |i| i.collect());
                cycle!(r, "VecDeque", 3, VecDeque<P>, |i| i.collect());
                cycle!(r, "wrapped VecDeque", 3, VecDeque<P>, |i| {
                    let mut d = VecDeque::with_capacity(3);
                    d.extend(i);
                    d.rotate_left(1);
                    d
                });
                cycle!(r, "LinkedList", 3, LinkedList<P>, |i| i.collect());
                cycle!(r, "slice", 3, Box<[P]>, |i| i.collect());
                cycle!(r, "array", 3, [P; 3], |i| [i.next().unwrap(), i.next().unwrap(), i.next().unwrap()]);
                cycle!(r, "HashSet", 2, HashSet<Ks<P>>, |i| i.enumerate().map(|(k, p)| Ks(k as u32, p)).collect());
                cycle!(r, "BTreeSet", 2, BTreeSet<Ks<P>>, |i| i.enumerate().map(|(k, p)| Ks(k as u32, p)).collect());
                cycle!(r, "BinaryHeap", 2, BinaryHeap<Ks<P>>, |i| i.enumerate().map(|(k, p)| Ks(k as u32, p)).collect());
                cycle!(r, "HashMap keys", 2, HashMap<Ks<P>, u8>, |i| i.enumerate().map(|(k, p)| (Ks(k as u32, p), 0)).collect());
                cycle!(r, "HashMap values", 2, HashMap<u32, P>, |i| i.enumerate().map(|(k, p)| (k as u32, p)).collect());
                cycle!(r, "BTreeMap keys", 2, BTreeMap<Ks<P>, u8>, |i| i.enumerate().map(|(k, p)| (Ks(k as u32, p), 0)).collect());
                cycle!(r, "BTreeMap values", 2, BTreeMap<u32, P>, |i| i.enumerate().map(|(k, p)| (k as u32, p)).collect());
                cycle!(r, "both sides of a BTreeMap", 2, BTreeMap<Ks<P>, P>, |i| {
                    let a = i.next().unwrap();
                    let b = i.next().unwrap();
                    BTreeMap::from([(Ks(0, a), b)])
                });
                cycle!(r, "both sides of a HashMap", 2, HashMap<Ks<P>, P>, |i| {
                    let a = i.next().unwrap();
                    let b = i.next().unwrap();
                    HashMap::from([(Ks(0, a), b)])
                });
                cycle!(r, "RwLock", 1, RwLock<P>, |i| RwLock::new(i.next().unwrap()));
                cycle!(r, "Mutex", 1, Mutex<P>, |i| Mutex::new(i.next().unwrap()));
                cycle!(r, "tuple of 1", 1, (P,), |i| (i.next().unwrap(),));
                cycle!(r, "tuple of 2", 2, (P, P), |i| (i.next().unwrap(), i.next().unwrap()));
                cycle!(r, "tuple of 3", 3, (P, P, P), |i| (i.next().unwrap(), i.next().unwrap(), i.next().unwrap()));
                cycle!(r, "tuple of 10", 10, (P, P, P, P, P, P, P, P, P, P), |i| {
                    let mut n = || i.next().unwrap();
                    (n(), n(), n(), n(), n(), n(), n(), n(), n(), n())
                });
            }

        }
    };
}

collector!(unsync);
collector!(sync);

mod cells {
    //! (`RefCell` and `OnceCell` are not `Sync`, so only the thread-local collector can own them)
    use super::*;
    use dumpster::{unsync::{collect, set_collect_condition, Gc}, Collectable, Visitor};
    use std::cell::Cell;
    thread_local! { static DROPS: Cell<u32> = const { Cell::new(0) }; }

    macro_rules! own {
        ($r:expr, $name:literal, $ty:ty, |$p:ident| $mk:expr) => {{
            struct H(OnceCell<$ty>);
            #[allow(dead_code)]
            type P = Gc<H>;
            unsafe impl Collectable for H {
                fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                    self.0.accept(v)
                }
            }
            impl Drop for H {
                fn drop(&mut self) {
                    DROPS.with(|d| d.set(d.get() + 1));
                }
            }
            $r.case(concat!("unsync cycle through ", $name), |ch| {
                DROPS.with(|d| d.set(0));
                set_collect_condition(|_| false);
                let n: usize = 1 + ch.choose(3);
                let hs: Vec<P> = (0..n).map(|_| Gc::new(H(OnceCell::new()))).collect();
                for i in 0..n {
                    let $p = hs[(i + 1) % n].clone();
                    let _ = hs[i].0.set($mk);
                }
                let kept = hs[ch.choose(n)].clone();
                drop(hs);
                collect();
                if DROPS.with(Cell::get) != 0 {
                    return Err(format!("a value reachable only through {} was destroyed", $name));
                }
                drop(kept);
                collect();
                if DROPS.with(Cell::get) != n as u32 {
                    return Err(format!("a cycle of {n} values through {} was not collected ({} destroyed)", $name, DROPS.with(Cell::get)));
                }
                Ok(Info { state: hash(&[hash_str($name), n as u64]), ops: 3 * n as u64 })
            });
        }};
    }

    pub fn run(r: &mut Run) {
        own!(r, "RefCell", RefCell<P>, |p| RefCell::new(p));
        own!(r, "Cow", Cow<'static, super::unsync::Ks<P>>, |p| Cow::Owned(super::unsync::Ks(0, p)));
        own!(r, "OnceCell", OnceCell<P>, |p| OnceCell::from(p));
        own!(r, "RefCell<Option>", RefCell<Option<P>>, |p| RefCell::new(Some(p)));
        own!(r, "RefCell<Vec>", RefCell<Vec<P>>, |p| RefCell::new(vec![p]));
        own!(r, "RefCell<HashMap>", RefCell<HashMap<u8, P>>, |p| RefCell::new(HashMap::from([(0, p)])));
        own!(r, "Box<RefCell<Box>>", Box<RefCell<Box<P>>>, |p| Box::new(RefCell::new(Box::new(p))));
        own!(r, "Option<OnceCell<(u8, P)>>", Option<OnceCell<(u8, P)>>, |p| Some(OnceCell::from((1, p))));
    }
}

pub fn run(r: &mut Run) {
    r.suite("cycles", "for every container and both collectors: rings of 1 to 3 values through it, every rotation of the pointers, every subset of values without one, every kept pointer; then everything dropped");
    unsync::run(r);
    sync::run(r);
    cells::run(r);
    r.sample("cycles: sync, 3 values whose BTreeMaps have pointers as keys, one kept: all kept; dropped: all destroyed");
}

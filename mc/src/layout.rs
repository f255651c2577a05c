//! Engine for kinds of values: sizes, alignments, with and without destructors, alone and in cycles.

use crate::driver::*;
use crate::flavor::Cond;
use crate::seq::Order;
use dumpster::{sync, unsync, Collectable, Visitor};
use parking_lot::mc::*;
use parking_lot::mc_trace;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

/// Destructors that ran.
static DROPPED: AtomicUsize = AtomicUsize::new(0);

/// A kind of value; values are told apart by a number as far as they have room for it.
pub trait Kind: Send + Sync + Sized + 'static {
    const NAME: &'static str;
    /// whether destructors are counted
    const COUNTED: bool;
    fn make(i: u8) -> Self;
    fn is(&self, i: u8) -> bool;
}

macro_rules! plain {
    ($t:ident, $name:expr, $align:expr, $len:expr) => {
        #[repr(align($align))]
        pub struct $t([u8; $len]);
        impl Kind for $t {
            const NAME: &'static str = $name;
            const COUNTED: bool = false;
            fn make(i: u8) -> Self {
                $t([i; $len])
            }
            fn is(&self, i: u8) -> bool {
                self.0.iter().all(|x| *x == i)
            }
        }
    };
}
plain!(Empty, "no bytes", 1, 0);
plain!(Byte, "1 byte", 1, 1);
plain!(Odd, "13 bytes", 1, 13);
plain!(Pair, "6 bytes aligned to 2", 2, 6);
plain!(Hundred, "100 bytes", 4, 100);
plain!(Wide, "16 bytes aligned to 16", 16, 16);
plain!(EmptyWide, "no bytes aligned to 32", 32, 0);
plain!(Line, "64 bytes aligned to 64", 64, 64);
plain!(Lines, "1 byte aligned to 256", 256, 1);
plain!(Block, "1024 bytes aligned to 1024", 1024, 1024);

/// A kind of value with a destructor.
pub struct Dtor<A: Kind>(A);
impl<A: Kind> Drop for Dtor<A> {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Relaxed);
    }
}
impl<A: Kind> Kind for Dtor<A> {
    const NAME: &'static str = A::NAME;
    const COUNTED: bool = true;
    fn make(i: u8) -> Self {
        Dtor(A::make(i))
    }
    fn is(&self, i: u8) -> bool {
        self.0.is(i)
    }
}
/// A kind of value with memory of its own.
pub struct Boxed<A: Kind>(Box<A>);
impl<A: Kind> Kind for Boxed<A> {
    const NAME: &'static str = A::NAME;
    const COUNTED: bool = false;
    fn make(i: u8) -> Self {
        Boxed(Box::new(A::make(i)))
    }
    fn is(&self, i: u8) -> bool {
        self.0.is(i)
    }
}

/// A value that owns no pointers.
pub struct Leaf<A: Kind>(A);
unsafe impl<A: Kind> Collectable for Leaf<A> {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

/// A collector.
pub trait Coll: 'static {
    const SYNC: bool;
    const NAME: &'static str;
    type G<T: Collectable + Send + Sync + 'static>: 'static;
    type N<A: Kind>: Collectable + Send + Sync + 'static;
    fn new<T: Collectable + Send + Sync + 'static>(x: T) -> Self::G<T>;
    fn clone<T: Collectable + Send + Sync + 'static>(g: &Self::G<T>) -> Self::G<T>;
    fn get<T: Collectable + Send + Sync + 'static>(g: &Self::G<T>) -> &T;
    fn ptr<T: Collectable + Send + Sync + 'static>(g: &Self::G<T>) -> *const T;
    fn node<A: Kind>(a: A) -> Self::N<A>;
    fn value<A: Kind>(n: &Self::N<A>) -> &A;
    fn set<A: Kind>(n: &Self::N<A>, p: Option<Self::G<Self::N<A>>>);
    fn collect();
    fn cond(c: Cond);
}

macro_rules! coll {
    ($c:ident, $n:ident, $m:ident, $sync:expr, $name:expr, $cell:ident, $($get:tt)*) => {
        pub struct $c;
        /// A value that owns a pointer to one of its kind.
        pub struct $n<A: Kind> {
            next: $cell<Option<$m::Gc<$n<A>>>>,
            a: A,
        }
        unsafe impl<A: Kind> Collectable for $n<A> {
            fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                self.next.accept(v)
            }
        }
        impl Coll for $c {
            const SYNC: bool = $sync;
            const NAME: &'static str = $name;
            type G<T: Collectable + Send + Sync + 'static> = $m::Gc<T>;
            type N<A: Kind> = $n<A>;
            fn new<T: Collectable + Send + Sync + 'static>(x: T) -> Self::G<T> {
                let sz = std::mem::size_of::<T>();
                tracked(sz, sz + 128 + std::mem::align_of::<T>(), || $m::Gc::new(x)).0
            }
            fn clone<T: Collectable + Send + Sync + 'static>(g: &Self::G<T>) -> Self::G<T> {
                g.clone()
            }
            fn get<T: Collectable + Send + Sync + 'static>(g: &Self::G<T>) -> &T {
                g
            }
            fn ptr<T: Collectable + Send + Sync + 'static>(g: &Self::G<T>) -> *const T {
                $m::Gc::as_ptr(g)
            }
            fn node<A: Kind>(a: A) -> Self::N<A> {
                $n { next: $cell::new(None), a }
            }
            fn value<A: Kind>(n: &Self::N<A>) -> &A {
                &n.a
            }
            fn set<A: Kind>(n: &Self::N<A>, p: Option<Self::G<Self::N<A>>>) {
                let old = std::mem::replace(&mut *n.next $($get)*, p);
                drop(old);
            }
            fn collect() {
                $m::collect()
            }
            fn cond(c: Cond) {
                $m::set_collect_condition(match c {
                    Cond::Always => |_| true,
                    _ => |_| false,
                });
            }
        }
    };
}

/// Only moved between threads that exist in the model.
pub struct Local<T>(RefCell<T>);
unsafe impl<T> Send for Local<T> {}
unsafe impl<T> Sync for Local<T> {}
impl<T> Local<T> {
    fn new(x: T) -> Self {
        Local(RefCell::new(x))
    }
    fn borrow_mut(&self) -> std::cell::RefMut<'_, T> {
        self.0.borrow_mut()
    }
}
unsafe impl<T: Collectable> Collectable for Local<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}
coll!(LayUs, NodeUs, unsync, false, "unsync", Local, .borrow_mut());
coll!(LaySy, NodeSy, sync, true, "sync", Mutex, .lock().unwrap());

fn dropped(is: usize, counted: bool, want: usize, when: &str) {
    if counted && is != want {
        violation(if is < want { "leak" } else { "double-drop" }, &format!("{when}: {is} destructors ran, not {want}"));
    }
}

fn read<C: Coll, T: Collectable + Send + Sync + 'static>(p: &C::G<T>, ok: impl Fn(&T) -> bool, i: u8) {
    let v = C::get(p);
    let a = v as *const T as usize;
    if !ok(v) {
        violation("wrong-value", &format!("the contents of value {i} are not what was stored"));
    }
    if a % std::mem::align_of::<T>() != 0 || C::ptr(p) != v {
        violation("identity", &format!("the address {a:#x} of value {i} is not aligned to {} or not that of as_ptr", std::mem::align_of::<T>()));
    }
}

fn gone(when: &str) {
    if arena_live() != 0 {
        violation("leak", &format!("{when}: the memory of a value is not returned"));
    }
}

/// One value with up to three pointers.
fn alone<C: Coll, A: Kind>() {
    let cond = [Cond::Never, Cond::Always][choose_free(2)];
    let k = 1 + choose_free(3);
    let i = 0xa0;
    mc_trace!("{k} pointers, collect condition {cond:?}");
    C::cond(cond);
    let mut ps = vec![C::new(Leaf(A::make(i)))];
    for _ in 1..k {
        ps.push(C::clone(&ps[0]));
    }
    while !ps.is_empty() {
        for p in &ps {
            read::<C, Leaf<A>>(p, |v| v.0.is(i), i);
        }
        dropped(DROPPED.load(Relaxed), A::COUNTED, 0, "with pointers left");
        if choose_free(2) == 1 {
            C::collect();
        }
        drop(ps.remove(choose_free(ps.len())));
    }
    dropped(DROPPED.load(Relaxed), A::COUNTED, 1, "without pointers");
    C::collect();
    gone("without pointers");
}

/// A ring of up to three values.
fn ring<C: Coll, A: Kind>() {
    let cond = [Cond::Never, Cond::Always][choose_free(2)];
    let n = 1 + choose_free(3);
    mc_trace!("ring of {n}, collect condition {cond:?}");
    C::cond(Cond::Never);
    let mut ps: Vec<(C::G<C::N<A>>, u8)> = (0..n as u8).map(|i| (C::new(C::node(A::make(i + 1))), i + 1)).collect();
    for i in 0..n {
        let p = C::clone(&ps[(i + 1) % n].0);
        C::set(C::get(&ps[i].0), Some(p));
    }
    C::cond(cond);
    while !ps.is_empty() {
        for (p, i) in &ps {
            read::<C, C::N<A>>(p, |v| C::value(v).is(*i), *i);
        }
        dropped(DROPPED.load(Relaxed), A::COUNTED, 0, "with a pointer left");
        if choose_free(2) == 1 {
            C::collect();
        }
        drop(ps.remove(choose_free(ps.len())));
    }
    C::collect();
    dropped(DROPPED.load(Relaxed), A::COUNTED, n, "after collect()");
    gone("after collect()");
}

type Case = (&'static str, &'static str, &'static str, fn());

fn cases<C: Coll>() -> Vec<Case> {
    let mut v: Vec<Case> = Vec::new();
    macro_rules! kind {
        ($($t:ident)*) => { $(
            v.push(($t::NAME, "", "alone", alone::<C, $t>));
            v.push(($t::NAME, "", "in a ring", ring::<C, $t>));
            v.push(($t::NAME, ", with a destructor", "alone", alone::<C, Dtor<$t>>));
            v.push(($t::NAME, ", with a destructor", "in a ring", ring::<C, Dtor<$t>>));
            v.push(($t::NAME, ", in a box", "alone", alone::<C, Boxed<Dtor<$t>>>));
            v.push(($t::NAME, ", in a box", "in a ring", ring::<C, Boxed<Dtor<$t>>>));
        )* };
    }
    kind!(Empty Byte Odd Pair Hundred Wide EmptyWide Line Lines Block);
    v
}

pub fn layouts<C: Coll>(name: &'static str) -> Suite {
    let cs = cases::<C>();
    let c2 = cs.clone();
    Suite {
        name,
        bounds: format!(
            "{}: values of 10 sizes and alignments (from none to 1024 bytes), with and without a destructor and behind a box, alone with 1 to 3 pointers and in rings of 1 to 3; pointers dropped in every order with and without collections in between; collect conditions never and always",
            C::NAME
        ),
        total: cs.len() as u64,
        run: Box::new(move |item| {
            let c = cs[item as usize];
            explore_all(Bounds { preempt: 0, stale: 0, perms: false, max_steps: 1_000_000 }, || {
                Order::Both.pick();
                DROPPED.store(0, Relaxed);
                (c.3)();
                C::cond(Cond::Never);
            });
        }),
        describe: Box::new(move |i| {
            let c = c2[i as usize];
            format!("{}{}, {}", c.0, c.1, c.2)
        }),
    }
}

//! The two collectors behind one interface, and the node type all engines store in them.

use crate::ghost::{self, CANARY, PROBE};
use dumpster::{sync, unsync, Collectable, Visitor};
use parking_lot::mc::{expect_panic, tracked};
use std::cell::{Cell, RefCell};
use std::sync::{Mutex, RwLock};

pub const K: usize = 2;
/// a value that, like a floating-point NaN, is not equal to itself
pub const ODD: u8 = 2;

/// A collector together with a slot (interior-mutable cell for an optional pointer) type.
pub trait Flavor: Sized + 'static {
    const SYNC: bool;
    const NAME: &'static str;
    type G: Collectable + 'static;
    type Slot: 'static;
    fn new(n: Node<Self>) -> Self::G;
    fn clone(g: &Self::G) -> Self::G;
    fn try_clone(g: &Self::G) -> Option<Self::G>;
    fn try_deref(g: &Self::G) -> Option<&Node<Self>>;
    fn deref(g: &Self::G) -> &Node<Self>;
    fn ptr_eq(a: &Self::G, b: &Self::G) -> bool;
    fn as_ptr(a: &Self::G) -> *const Node<Self>;
    fn eq(a: &Self::G, b: &Self::G) -> bool;
    fn ne(a: &Self::G, b: &Self::G) -> bool;
    fn as_ref(a: &Self::G) -> &Node<Self>;
    fn borrow(a: &Self::G) -> &Node<Self>;
    fn fmt_p(a: &Self::G) -> String;
    fn slot_new(v: Option<Self::G>) -> Self::Slot;
    fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G>;
    fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R;
    /// Access the slot exclusively; `f` runs while it is locked.
    fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R;
    fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()>;
    /// Make the slot inaccessible until the returned value is dropped.
    fn slot_hold(s: &Self::Slot, write: bool) -> Box<dyn std::any::Any>;
    /// Poison the slot, if its lock type can be poisoned.
    fn slot_poison(s: &Self::Slot) -> bool;
    fn collect();
    fn set_cond(c: Cond);
    fn stash() -> &'static mut Vec<Held<Self>>;
    /// Whether there are two kinds of nodes, the second one managed by the shared collector.
    const MIXED: bool = false;
    /// How much larger than a node an allocation may be.
    const EXTRA: usize = 0;
    fn collect_shared() {}
}

/// A pointer held by the program where destructors can use it.
pub struct Held<F: Flavor> {
    pub g: F::G,
    pub id: u8,
    pub dead: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cond {
    Never,
    Always,
    Default,
    /// every sequence of answers
    Script,
    /// does everything a program may do, for some time
    Busy,
    /// the condition in force when the program starts
    Unset,
}

/// Extends the lifetime of a guard; the engines keep a pointer to the node while it exists.
unsafe fn forever<'a, T: ?Sized>(x: &'a T) -> &'static T {
    std::mem::transmute::<&'a T, &'static T>(x)
}

pub struct Node<F: Flavor> {
    pub id: u8,
    pub val: u8,
    pub dtor: Cell<u8>,
    pub canary: u64,
    pub slots: [Cellar<F>; K],
    pad: [u64; 20],
}
/// A slot that tells the reference state when its content is about to be dropped with its node.
pub struct Cellar<F: Flavor> {
    mark: Mark,
    slot: F::Slot,
}
struct Mark(u8, u8);
impl Drop for Mark {
    fn drop(&mut self) {
        ghost::on_slot_drop(self.0, self.1);
    }
}
impl<F: Flavor> std::ops::Deref for Cellar<F> {
    type Target = F::Slot;
    fn deref(&self) -> &F::Slot {
        &self.slot
    }
}

unsafe impl<F: Flavor> Sync for Node<F> {}
unsafe impl<F: Flavor> Send for Node<F> {}

unsafe impl<F: Flavor> Collectable for Node<F> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        ghost::on_accept(self.id, self.canary);
        for s in &self.slots {
            F::slot_accept(s, v)?;
        }
        Ok(())
    }
}

impl<F: Flavor> PartialEq for Node<F> {
    fn eq(&self, o: &Self) -> bool {
        self.val == o.val && self.val != ODD
    }
}

impl<F: Flavor> Drop for Node<F> {
    fn drop(&mut self) {
        ghost::on_drop(self.id, self.canary);
        crate::dtor::run::<F>(self);
        self.canary = 0xdead_dead_dead_dead;
    }
}

impl<F: Flavor> Node<F> {
    /// A node that is not part of the reference state.
    pub fn probe() -> Self {
        Node {
            id: PROBE,
            val: 0,
            dtor: Cell::new(0),
            canary: CANARY ^ u64::from(PROBE),
            slots: std::array::from_fn(|i| Cellar { mark: Mark(PROBE, i as u8), slot: F::slot_new(None) }),
            pad: [0; 20],
        }
    }

    /// The content of a live node is what was stored.
    pub fn ok(&self) -> bool {
        self.canary == CANARY ^ u64::from(self.id)
    }
}

/// Create node `val` through `Gc::new`; registers it with the ghost state.
pub fn new_node<F: Flavor>(val: u8, dtor: u8) -> (F::G, u8) {
    new_node_of::<F>(val, dtor, 0)
}

/// As `new_node`, for a node of the given kind.
pub fn new_node_of<F: Flavor>(val: u8, dtor: u8, kind: u8) -> (F::G, u8) {
    new_node_with::<F>(val, dtor, kind, None)
}

/// As `new_node_of`, for a node that is created with a pointer in its first slot.
/// (The caller updates what the ghost state knows about that pointer.)
pub fn new_node_with<F: Flavor>(val: u8, dtor: u8, kind: u8, first: Option<F::G>) -> (F::G, u8) {
    let id = ghost::g().fresh();
    let mut first = Some(first);
    let n = Node::<F> {
        id,
        val,
        dtor: Cell::new(dtor),
        canary: CANARY ^ u64::from(id),
        slots: std::array::from_fn(|i| Cellar { mark: Mark(id, i as u8), slot: F::slot_new(first.take().flatten()) }),
        pad: [0; 20],
    };
    ghost::g().nodes[id as usize].kind = kind;
    let sz = std::mem::size_of::<Node<F>>();
    let (g, slot) = tracked(sz, sz + 128 + F::EXTRA, || F::new(n));
    ghost::g().created(id, slot);
    (g, id)
}

macro_rules! common {
    ($m:ident) => {
        fn new(n: Node<Self>) -> Self::G {
            $m::Gc::new(n)
        }
        fn clone(g: &Self::G) -> Self::G {
            Clone::clone(g)
        }
        fn try_clone(g: &Self::G) -> Option<Self::G> {
            $m::Gc::try_clone(g)
        }
        fn try_deref(g: &Self::G) -> Option<&Node<Self>> {
            $m::Gc::try_deref(g)
        }
        fn deref(g: &Self::G) -> &Node<Self> {
            &**g
        }
        fn ptr_eq(a: &Self::G, b: &Self::G) -> bool {
            $m::Gc::ptr_eq(a, b)
        }
        fn as_ptr(a: &Self::G) -> *const Node<Self> {
            $m::Gc::as_ptr(a)
        }
        fn eq(a: &Self::G, b: &Self::G) -> bool {
            a == b
        }
        fn ne(a: &Self::G, b: &Self::G) -> bool {
            a != b
        }
        fn as_ref(a: &Self::G) -> &Node<Self> {
            AsRef::as_ref(a)
        }
        fn borrow(a: &Self::G) -> &Node<Self> {
            std::borrow::Borrow::borrow(a)
        }
        fn fmt_p(a: &Self::G) -> String {
            format!("{:p}", *a)
        }
        fn collect() {
            $m::collect()
        }
        fn set_cond(c: Cond) {
            match c {
                Cond::Never => $m::set_collect_condition(|i| {
                    ghost::on_cond(i.n_gcs_existing(), i.n_gcs_dropped_since_last_collect(), false)
                }),
                Cond::Always => $m::set_collect_condition(|i| {
                    ghost::on_cond(i.n_gcs_existing(), i.n_gcs_dropped_since_last_collect(), true)
                }),
                Cond::Default => $m::set_collect_condition(|i| {
                    let a = $m::default_collect_condition(i);
                    ghost::on_cond(i.n_gcs_existing(), i.n_gcs_dropped_since_last_collect(), a)
                }),
                Cond::Busy => $m::set_collect_condition(|i| {
                    crate::cond::consulted::<Self>(i.n_gcs_existing(), i.n_gcs_dropped_since_last_collect())
                }),
                Cond::Unset => $m::set_collect_condition($m::default_collect_condition),
                Cond::Script => $m::set_collect_condition(|i| {
                    let a = ghost::script_answer();
                    ghost::on_cond(i.n_gcs_existing(), i.n_gcs_dropped_since_last_collect(), a)
                }),
            }
        }
        fn stash() -> &'static mut Vec<Held<Self>> {
            static mut S: usize = 0;
            unsafe {
                if S == 0 {
                    S = Box::into_raw(Box::new(Vec::<Held<Self>>::new())) as usize;
                }
                &mut *(S as *mut Vec<Held<Self>>)
            }
        }
    };
}

/// unsync with `RefCell` slots
pub struct Us;
impl Flavor for Us {
    const SYNC: bool = false;
    const NAME: &'static str = "unsync/RefCell";
    type G = unsync::Gc<Node<Us>>;
    type Slot = RefCell<Option<unsync::Gc<Node<Us>>>>;
    common!(unsync);
    fn slot_new(v: Option<Self::G>) -> Self::Slot {
        RefCell::new(v)
    }
    fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
        s.replace(v)
    }
    fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
        f(&s.borrow())
    }
    fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
        f(&mut s.borrow_mut())
    }
    fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
        s.accept(v)
    }
    fn slot_hold(s: &Self::Slot, write: bool) -> Box<dyn std::any::Any> {
        let s = unsafe { forever(s) };
        if write {
            Box::new(s.borrow_mut())
        } else {
            Box::new(s.borrow())
        }
    }
    fn slot_poison(_: &Self::Slot) -> bool {
        false
    }
}

fn poison(f: impl FnOnce()) {
    let old = expect_panic(true);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    expect_panic(old);
}

macro_rules! mutex_slot {
    () => {
        fn slot_new(v: Option<Self::G>) -> Self::Slot {
            Mutex::new(v)
        }
        fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
            std::mem::replace(&mut *s.lock().unwrap_or_else(|e| e.into_inner()), v)
        }
        fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
            f(&s.lock().unwrap_or_else(|e| e.into_inner()))
        }
        fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
            f(&mut s.lock().unwrap_or_else(|e| e.into_inner()))
        }
        fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
            s.accept(v)
        }
        fn slot_hold(s: &Self::Slot, _: bool) -> Box<dyn std::any::Any> {
            Box::new(unsafe { forever(s) }.lock().unwrap_or_else(|e| e.into_inner()))
        }
        fn slot_poison(s: &Self::Slot) -> bool {
            poison(|| {
                let _g = s.lock();
                std::panic::panic_any("poison");
            });
            true
        }
    };
}
macro_rules! rwlock_slot {
    () => {
        fn slot_new(v: Option<Self::G>) -> Self::Slot {
            RwLock::new(v)
        }
        fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
            std::mem::replace(&mut *s.write().unwrap_or_else(|e| e.into_inner()), v)
        }
        fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
            f(&s.read().unwrap_or_else(|e| e.into_inner()))
        }
        fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
            f(&mut s.write().unwrap_or_else(|e| e.into_inner()))
        }
        fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
            s.accept(v)
        }
        fn slot_hold(s: &Self::Slot, write: bool) -> Box<dyn std::any::Any> {
            let s = unsafe { forever(s) };
            if write {
                Box::new(s.write().unwrap_or_else(|e| e.into_inner()))
            } else {
                Box::new(s.read().unwrap_or_else(|e| e.into_inner()))
            }
        }
        fn slot_poison(s: &Self::Slot) -> bool {
            poison(|| {
                let _g = s.write();
                std::panic::panic_any("poison");
            });
            true
        }
    };
}

/// unsync with `Mutex` slots
pub struct UsMutex;
impl Flavor for UsMutex {
    const SYNC: bool = false;
    const NAME: &'static str = "unsync/Mutex";
    type G = unsync::Gc<Node<UsMutex>>;
    type Slot = Mutex<Option<unsync::Gc<Node<UsMutex>>>>;
    common!(unsync);
    mutex_slot!();
}

/// unsync with `RwLock` slots
pub struct UsRw;
impl Flavor for UsRw {
    const SYNC: bool = false;
    const NAME: &'static str = "unsync/RwLock";
    type G = unsync::Gc<Node<UsRw>>;
    type Slot = RwLock<Option<unsync::Gc<Node<UsRw>>>>;
    common!(unsync);
    rwlock_slot!();
}

/// sync with `Mutex` slots
pub struct Sy;
impl Flavor for Sy {
    const SYNC: bool = true;
    const NAME: &'static str = "sync/Mutex";
    type G = sync::Gc<Node<Sy>>;
    type Slot = Mutex<Option<sync::Gc<Node<Sy>>>>;
    common!(sync);
    mutex_slot!();
}

/// sync with `RwLock` slots
pub struct SyRw;
impl Flavor for SyRw {
    const SYNC: bool = true;
    const NAME: &'static str = "sync/RwLock";
    type G = sync::Gc<Node<SyRw>>;
    type Slot = RwLock<Option<sync::Gc<Node<SyRw>>>>;
    common!(sync);
    rwlock_slot!();
}

/// sync with scheduler-aware slots (concurrent engine)
pub struct Cy;
impl Flavor for Cy {
    const SYNC: bool = true;
    const NAME: &'static str = "sync/scheduled mutex";
    type G = sync::Gc<Node<Cy>>;
    type Slot = parking_lot::Mutex<Option<sync::Gc<Node<Cy>>>>;
    common!(sync);
    fn slot_new(v: Option<Self::G>) -> Self::Slot {
        parking_lot::Mutex::new(v)
    }
    fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
        std::mem::replace(&mut *s.lock(), v)
    }
    fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
        f(&s.lock())
    }
    fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
        f(&mut s.lock())
    }
    fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
        match s.try_lock() {
            Some(g) => g.accept(v),
            None => Err(()),
        }
    }
    fn slot_hold(s: &Self::Slot, _: bool) -> Box<dyn std::any::Any> {
        Box::new(unsafe { forever(s) }.lock())
    }
    fn slot_poison(_: &Self::Slot) -> bool {
        false
    }
}

/// sync with scheduler-aware reader-writer slots (concurrent engine)
pub struct CyRw;
impl Flavor for CyRw {
    const SYNC: bool = true;
    const NAME: &'static str = "sync/scheduled rwlock";
    type G = sync::Gc<Node<CyRw>>;
    type Slot = parking_lot::RwLock<Option<sync::Gc<Node<CyRw>>>>;
    common!(sync);
    fn slot_new(v: Option<Self::G>) -> Self::Slot {
        parking_lot::RwLock::new(v)
    }
    fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
        std::mem::replace(&mut *s.write(), v)
    }
    fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
        f(&s.read())
    }
    fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
        f(&mut s.write())
    }
    fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
        match s.try_read() {
            Some(g) => g.accept(v),
            None => Err(()),
        }
    }
    fn slot_hold(s: &Self::Slot, write: bool) -> Box<dyn std::any::Any> {
        let s = unsafe { forever(s) };
        if write {
            Box::new(s.write())
        } else {
            Box::new(s.read())
        }
    }
    fn slot_poison(_: &Self::Slot) -> bool {
        false
    }
}

/// A pointer of either collector.
pub enum Either {
    U(unsync::Gc<Node<Mix>>),
    S(sync::Gc<Node<Mix>>),
}

unsafe impl Collectable for Either {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            Either::U(g) => g.accept(v),
            Either::S(g) => g.accept(v),
        }
    }
}

macro_rules! either {
    ($x:expr, $g:ident => $e:expr) => {
        match $x {
            Either::U($g) => $e,
            Either::S($g) => $e,
        }
    };
}

/// unsync nodes that may own sync ones
pub struct Mix;
impl Flavor for Mix {
    const SYNC: bool = false;
    const MIXED: bool = true;
    const NAME: &'static str = "unsync over sync";
    type G = Either;
    type Slot = RefCell<Option<Either>>;
    fn new(n: Node<Self>) -> Either {
        if n.id != PROBE && ghost::g().nodes[n.id as usize].kind == 1 {
            Either::S(sync::Gc::new(n))
        } else {
            Either::U(unsync::Gc::new(n))
        }
    }
    fn clone(g: &Either) -> Either {
        match g {
            Either::U(g) => Either::U(g.clone()),
            Either::S(g) => Either::S(g.clone()),
        }
    }
    fn try_clone(g: &Either) -> Option<Either> {
        match g {
            Either::U(g) => unsync::Gc::try_clone(g).map(Either::U),
            Either::S(g) => sync::Gc::try_clone(g).map(Either::S),
        }
    }
    fn try_deref(g: &Either) -> Option<&Node<Self>> {
        match g {
            Either::U(g) => unsync::Gc::try_deref(g),
            Either::S(g) => sync::Gc::try_deref(g),
        }
    }
    fn deref(g: &Either) -> &Node<Self> {
        either!(g, g => g)
    }
    fn ptr_eq(a: &Either, b: &Either) -> bool {
        match (a, b) {
            (Either::U(a), Either::U(b)) => unsync::Gc::ptr_eq(a, b),
            (Either::S(a), Either::S(b)) => sync::Gc::ptr_eq(a, b),
            _ => false,
        }
    }
    fn as_ptr(a: &Either) -> *const Node<Self> {
        match a {
            Either::U(a) => unsync::Gc::as_ptr(a),
            Either::S(a) => sync::Gc::as_ptr(a),
        }
    }
    fn eq(a: &Either, b: &Either) -> bool {
        Self::deref(a) == Self::deref(b)
    }
    fn ne(a: &Either, b: &Either) -> bool {
        Self::deref(a) != Self::deref(b)
    }
    fn as_ref(a: &Either) -> &Node<Self> {
        either!(a, a => AsRef::as_ref(a))
    }
    fn borrow(a: &Either) -> &Node<Self> {
        either!(a, a => std::borrow::Borrow::borrow(a))
    }
    fn fmt_p(a: &Either) -> String {
        either!(a, a => format!("{:p}", *a))
    }
    fn collect() {
        unsync::collect()
    }
    fn collect_shared() {
        sync::collect()
    }
    fn set_cond(c: Cond) {
        Us::set_cond(c);
        Sy::set_cond(c);
    }
    fn stash() -> &'static mut Vec<Held<Self>> {
        static mut S: usize = 0;
        unsafe {
            if S == 0 {
                S = Box::into_raw(Box::new(Vec::<Held<Self>>::new())) as usize;
            }
            &mut *(S as *mut Vec<Held<Self>>)
        }
    }
    fn slot_new(v: Option<Self::G>) -> Self::Slot {
        RefCell::new(v)
    }
    fn slot_replace(s: &Self::Slot, v: Option<Either>) -> Option<Either> {
        s.replace(v)
    }
    fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Either>) -> R) -> R {
        f(&s.borrow())
    }
    fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Either>) -> R) -> R {
        f(&mut s.borrow_mut())
    }
    fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
        s.accept(v)
    }
    fn slot_hold(s: &Self::Slot, _: bool) -> Box<dyn std::any::Any> {
        Box::new(unsafe { forever(s) }.borrow_mut())
    }
    fn slot_poison(_: &Self::Slot) -> bool {
        false
    }
}

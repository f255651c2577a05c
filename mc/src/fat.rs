//! Flavors whose pointers are (partly) of unsized types.

use crate::driver::*;
use crate::flavor::*;
use crate::ghost::{self, PROBE};
use dumpster::{sync, unsync, Collectable, Visitor};
use parking_lot::mc::*;
use std::cell::RefCell;
use std::sync::Mutex;

/// What a trait object of a node can do.
pub trait Dn<F: Flavor> {
    fn node(&self) -> &Node<F>;
}
impl<F: Flavor> Dn<F> for Node<F> {
    fn node(&self) -> &Node<F> {
        self
    }
}
unsafe impl<F: Flavor> Collectable for dyn Dn<F> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.node().accept(v)
    }
}
unsafe impl<F: Flavor> Collectable for dyn Dn<F> + Send + Sync {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.node().accept(v)
    }
}
type Du<F> = dyn Dn<F>;
type Ds<F> = dyn Dn<F> + Send + Sync;

/// An element of an array or slice: the last one is the node.
pub enum Elem<F: Flavor> {
    Fill(u64),
    Last(Node<F>),
}
unsafe impl<F: Flavor> Collectable for Elem<F> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            Elem::Fill(_) => Ok(()),
            Elem::Last(n) => n.accept(v),
        }
    }
}
const FILL: u64 = 0x0f1e_2d3c_4b5a_6978;

/// Number of elements of the slice that a node is in.
fn len_of(id: u8) -> usize {
    if id == PROBE {
        1
    } else {
        1 + id as usize % 3
    }
}

/// The node in a slice; its length and all elements must be right.
fn last<F: Flavor>(s: &[Elem<F>]) -> &Node<F> {
    let bad = |what: &str| -> ! { violation("wrong-value", &format!("a slice of {} elements {what}", s.len())) };
    if s.is_empty() || s.len() > 3 {
        bad("was never created");
    }
    for e in &s[..s.len() - 1] {
        match e {
            Elem::Fill(x) if *x == FILL => {}
            _ => bad("has a wrong element"),
        }
    }
    match &s[s.len() - 1] {
        Elem::Last(n) => {
            if n.ok() && len_of(n.id) != s.len() {
                bad("has the wrong length");
            }
            n
        }
        Elem::Fill(_) => bad("does not end with its node"),
    }
}

macro_rules! fat_rest {
    ($m:ident, $base:ty) => {
        fn collect() {
            $m::collect()
        }
        fn set_cond(c: Cond) {
            <$base>::set_cond(c)
        }
        fn stash() -> &'static mut Vec<Held<Self>> {
            static mut S: usize = 0;
            unsafe {
                if S == 0 {
                    S = Box::into_raw(Box::new(Vec::<Held<Self>>::new())) as usize;
                }
                &mut *(S as *mut Vec<Held<Self>>)
            }
        }
        fn slot_poison(_: &Self::Slot) -> bool {
            false
        }
    };
}
macro_rules! refcell_slot {
    () => {
        fn slot_new(v: Option<Self::G>) -> Self::Slot {
            RefCell::new(v)
        }
        fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
            s.replace(v)
        }
        fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
            f(&s.borrow())
        }
        fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
            f(&mut s.borrow_mut())
        }
        fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
            s.accept(v)
        }
        fn slot_hold(_: &Self::Slot, _: bool) -> Box<dyn std::any::Any> {
            unreachable!()
        }
    };
}
macro_rules! std_mutex_slot {
    () => {
        fn slot_new(v: Option<Self::G>) -> Self::Slot {
            Mutex::new(v)
        }
        fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
            std::mem::replace(&mut *s.lock().unwrap(), v)
        }
        fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
            f(&s.lock().unwrap())
        }
        fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
            f(&mut s.lock().unwrap())
        }
        fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
            s.accept(v)
        }
        fn slot_hold(_: &Self::Slot, _: bool) -> Box<dyn std::any::Any> {
            unreachable!()
        }
    };
}
macro_rules! model_mutex_slot {
    () => {
        fn slot_new(v: Option<Self::G>) -> Self::Slot {
            parking_lot::Mutex::new(v)
        }
        fn slot_replace(s: &Self::Slot, v: Option<Self::G>) -> Option<Self::G> {
            std::mem::replace(&mut *s.lock(), v)
        }
        fn slot_with<R>(s: &Self::Slot, f: impl FnOnce(&Option<Self::G>) -> R) -> R {
            f(&s.lock())
        }
        fn slot_update<R>(s: &Self::Slot, f: impl FnOnce(&mut Option<Self::G>) -> R) -> R {
            f(&mut s.lock())
        }
        fn slot_accept<V: Visitor>(s: &Self::Slot, v: &mut V) -> Result<(), ()> {
            match s.try_lock() {
                Some(g) => g.accept(v),
                None => Err(()),
            }
        }
        fn slot_hold(_: &Self::Slot, _: bool) -> Box<dyn std::any::Any> {
            unreachable!()
        }
    };
}

/// All pointers are trait objects.
macro_rules! dyn_flavor {
    ($f:ident, $m:ident, $base:ty, $d:ident, $slot:ident, $cell:ty, $sync:expr, $name:expr) => {
        pub struct $f;
        impl Flavor for $f {
            const SYNC: bool = $sync;
            const NAME: &'static str = $name;
            type G = $m::Gc<$d<$f>>;
            type Slot = $cell;
            fn new(n: Node<Self>) -> Self::G {
                $m::Gc::new(n)
            }
            fn clone(g: &Self::G) -> Self::G {
                Clone::clone(g)
            }
            fn try_clone(g: &Self::G) -> Option<Self::G> {
                $m::Gc::try_clone(g)
            }
            fn try_deref(g: &Self::G) -> Option<&Node<Self>> {
                $m::Gc::try_deref(g).map(|d| d.node())
            }
            fn deref(g: &Self::G) -> &Node<Self> {
                (**g).node()
            }
            fn ptr_eq(a: &Self::G, b: &Self::G) -> bool {
                $m::Gc::ptr_eq(a, b)
            }
            fn as_ptr(a: &Self::G) -> *const Node<Self> {
                $m::Gc::as_ptr(a) as *const Node<Self>
            }
            fn eq(a: &Self::G, b: &Self::G) -> bool {
                Self::deref(a) == Self::deref(b)
            }
            fn ne(a: &Self::G, b: &Self::G) -> bool {
                Self::deref(a) != Self::deref(b)
            }
            fn as_ref(a: &Self::G) -> &Node<Self> {
                AsRef::<$d<$f>>::as_ref(a).node()
            }
            fn borrow(a: &Self::G) -> &Node<Self> {
                std::borrow::Borrow::<$d<$f>>::borrow(a).node()
            }
            fn fmt_p(a: &Self::G) -> String {
                let s = format!("{:p}", *a);
                // (with metadata, depending on the compiler)
                if s.starts_with("0x") { s } else { format!("{:p}", Self::deref(a)) }
            }
            fat_rest!($m, $base);
            $slot!();
        }
    };
}

/// New pointers are sized, clones are trait objects of the same value.
macro_rules! both_flavor {
    ($f:ident, $e:ident, $m:ident, $base:ty, $d:ident, $slot:ident, $cell:ty, $sync:expr, $name:expr) => {
        pub enum $e {
            Sized($m::Gc<Node<$f>>),
            Unsized($m::Gc<$d<$f>>),
        }
        unsafe impl Collectable for $e {
            fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
                match self {
                    $e::Sized(g) => g.accept(v),
                    $e::Unsized(g) => g.accept(v),
                }
            }
        }
        pub struct $f;
        impl Flavor for $f {
            const SYNC: bool = $sync;
            const NAME: &'static str = $name;
            type G = $e;
            type Slot = $cell;
            fn new(n: Node<Self>) -> Self::G {
                $e::Sized($m::Gc::new(n))
            }
            fn clone(g: &Self::G) -> Self::G {
                match g {
                    $e::Sized(g) => {
                        let c: $m::Gc<Node<$f>> = Clone::clone(g);
                        $e::Unsized(c)
                    }
                    $e::Unsized(g) => $e::Unsized(Clone::clone(g)),
                }
            }
            fn try_clone(g: &Self::G) -> Option<Self::G> {
                match g {
                    $e::Sized(g) => $m::Gc::try_clone(g).map(|g| $e::Unsized(g)),
                    $e::Unsized(g) => $m::Gc::try_clone(g).map($e::Unsized),
                }
            }
            fn try_deref(g: &Self::G) -> Option<&Node<Self>> {
                match g {
                    $e::Sized(g) => $m::Gc::try_deref(g),
                    $e::Unsized(g) => $m::Gc::try_deref(g).map(|d| d.node()),
                }
            }
            fn deref(g: &Self::G) -> &Node<Self> {
                match g {
                    $e::Sized(g) => g,
                    $e::Unsized(g) => (**g).node(),
                }
            }
            fn ptr_eq(a: &Self::G, b: &Self::G) -> bool {
                match (a, b) {
                    ($e::Sized(a), $e::Sized(b)) => $m::Gc::ptr_eq(a, b),
                    ($e::Unsized(a), $e::Unsized(b)) => $m::Gc::ptr_eq(a, b),
                    ($e::Sized(a), $e::Unsized(b)) | ($e::Unsized(b), $e::Sized(a)) => {
                        std::ptr::addr_eq($m::Gc::as_ptr(a), $m::Gc::as_ptr(b))
                    }
                }
            }
            fn as_ptr(a: &Self::G) -> *const Node<Self> {
                match a {
                    $e::Sized(a) => $m::Gc::as_ptr(a),
                    $e::Unsized(a) => $m::Gc::as_ptr(a) as *const Node<Self>,
                }
            }
            fn eq(a: &Self::G, b: &Self::G) -> bool {
                Self::deref(a) == Self::deref(b)
            }
            fn ne(a: &Self::G, b: &Self::G) -> bool {
                Self::deref(a) != Self::deref(b)
            }
            fn as_ref(a: &Self::G) -> &Node<Self> {
                Self::deref(a)
            }
            fn borrow(a: &Self::G) -> &Node<Self> {
                Self::deref(a)
            }
            fn fmt_p(a: &Self::G) -> String {
                format!("{:p}", Self::deref(a))
            }
            fat_rest!($m, $base);
            $slot!();
        }
    };
}

/// All pointers are slices of one to three elements, made from arrays.
macro_rules! slice_flavor {
    ($f:ident, $m:ident, $base:ty, $slot:ident, $cell:ty, $sync:expr, $name:expr) => {
        pub struct $f;
        impl Flavor for $f {
            const SYNC: bool = $sync;
            const NAME: &'static str = $name;
            const EXTRA: usize = 2 * std::mem::size_of::<Elem<$f>>() + 16;
            type G = $m::Gc<[Elem<$f>]>;
            type Slot = $cell;
            fn new(n: Node<Self>) -> Self::G {
                match len_of(n.id) {
                    1 => $m::Gc::new([Elem::Last(n)]),
                    2 => $m::Gc::new([Elem::Fill(FILL), Elem::Last(n)]),
                    _ => $m::Gc::new([Elem::Fill(FILL), Elem::Fill(FILL), Elem::Last(n)]),
                }
            }
            fn clone(g: &Self::G) -> Self::G {
                Clone::clone(g)
            }
            fn try_clone(g: &Self::G) -> Option<Self::G> {
                $m::Gc::try_clone(g)
            }
            fn try_deref(g: &Self::G) -> Option<&Node<Self>> {
                $m::Gc::try_deref(g).map(|d| last(d))
            }
            fn deref(g: &Self::G) -> &Node<Self> {
                last(&**g)
            }
            fn ptr_eq(a: &Self::G, b: &Self::G) -> bool {
                $m::Gc::ptr_eq(a, b)
            }
            fn as_ptr(a: &Self::G) -> *const Node<Self> {
                last(unsafe { &*$m::Gc::as_ptr(a) })
            }
            fn eq(a: &Self::G, b: &Self::G) -> bool {
                Self::deref(a) == Self::deref(b)
            }
            fn ne(a: &Self::G, b: &Self::G) -> bool {
                Self::deref(a) != Self::deref(b)
            }
            fn as_ref(a: &Self::G) -> &Node<Self> {
                last(AsRef::<[Elem<$f>]>::as_ref(a))
            }
            fn borrow(a: &Self::G) -> &Node<Self> {
                last(std::borrow::Borrow::<[Elem<$f>]>::borrow(a))
            }
            fn fmt_p(a: &Self::G) -> String {
                format!("{:p}", Self::deref(a))
            }
            fat_rest!($m, $base);
            $slot!();
        }
    };
}

dyn_flavor!(UsDyn, unsync, Us, Du, refcell_slot, RefCell<Option<unsync::Gc<Du<UsDyn>>>>, false, "unsync/trait objects");
dyn_flavor!(SyDyn, sync, Sy, Ds, std_mutex_slot, Mutex<Option<sync::Gc<Ds<SyDyn>>>>, true, "sync/trait objects");
dyn_flavor!(CyDyn, sync, Sy, Ds, model_mutex_slot, parking_lot::Mutex<Option<sync::Gc<Ds<CyDyn>>>>, true, "sync/trait objects, scheduled mutex");
both_flavor!(UsBoth, UsB, unsync, Us, Du, refcell_slot, RefCell<Option<UsB>>, false, "unsync/sized and trait objects");
both_flavor!(SyBoth, SyB, sync, Sy, Ds, std_mutex_slot, Mutex<Option<SyB>>, true, "sync/sized and trait objects");
both_flavor!(CyBoth, CyB, sync, Sy, Ds, model_mutex_slot, parking_lot::Mutex<Option<CyB>>, true, "sync/sized and trait objects, scheduled mutex");
slice_flavor!(UsSlice, unsync, Us, refcell_slot, RefCell<Option<unsync::Gc<[Elem<UsSlice>]>>>, false, "unsync/slices");
slice_flavor!(SySlice, sync, Sy, std_mutex_slot, Mutex<Option<sync::Gc<[Elem<SySlice>]>>>, true, "sync/slices");

/// Slices without elements, and slices of several values that are nodes each or plain data.
pub fn lengths(name: &'static str) -> Suite {
    Suite {
        name,
        bounds: "both collectors: arrays of 0 to 4 integers or strings coerced to slices; clones of either type dropped in every order, with and without a collection in between".into(),
        total: 2 * 5,
        run: Box::new(move |item| {
            let (sy, n) = (item % 2 == 1, item as usize / 2);
            explore_all(crate::seq::bounds(crate::seq::Order::Fixed), || {
                ghost::g().reset();
                macro_rules! one {
                    ($m:ident, $k:expr) => {{
                        let a: [String; $k] = std::array::from_fn(|i| format!("element {i} of {n}"));
                        let b: [u16; $k] = std::array::from_fn(|i| i as u16 * 257);
                        let (a, b) = ($m::Gc::new(a), $m::Gc::new(b));
                        let a2: $m::Gc<[String]> = a.clone();
                        let b2: $m::Gc<[u16]> = b.clone();
                        let ok = || {
                            a2.len() == n
                                && b2.len() == n
                                && a2.iter().enumerate().all(|(i, s)| *s == format!("element {i} of {n}"))
                                && b2.iter().enumerate().all(|(i, x)| *x == i as u16 * 257)
                        };
                        if !ok() || !std::ptr::addr_eq($m::Gc::as_ptr(&a), $m::Gc::as_ptr(&a2)) {
                            violation("wrong-value", "a slice differs from the array it was made from");
                        }
                        let flip = choose_free(2) == 1;
                        if choose_free(2) == 1 {
                            $m::collect();
                        }
                        if flip {
                            drop((a, b));
                            if choose_free(2) == 1 {
                                $m::collect();
                            }
                            if !ok() {
                                violation("wrong-value", "a slice changed when the array pointer was dropped");
                            }
                        } else {
                            drop((a2, b2));
                            if choose_free(2) == 1 {
                                $m::collect();
                            }
                            if a.iter().enumerate().any(|(i, s)| *s != format!("element {i} of {n}")) {
                                violation("wrong-value", "an array changed when the slice pointer was dropped");
                            }
                        }
                        me().ops.fetch_add(8, std::sync::atomic::Ordering::Relaxed);
                    }};
                }
                macro_rules! both {
                    ($k:expr) => {
                        if sy {
                            one!(sync, $k)
                        } else {
                            one!(unsync, $k)
                        }
                    };
                }
                match n {
                    0 => both!(0),
                    1 => both!(1),
                    2 => both!(2),
                    3 => both!(3),
                    _ => both!(4),
                }
                unsync::collect();
                sync::collect();
                ghost::note_state(item);
            });
        }),
        describe: Box::new(|i| format!("{} slices of {} elements", if i % 2 == 1 { "shared" } else { "thread-local" }, i / 2)),
    }
}

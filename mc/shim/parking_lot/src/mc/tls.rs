//! Thread locals of model threads, with the life cycle of the standard library's: initialised on
//! first use, destroyed in reverse order of initialisation, inaccessible from then on.

use super::rt::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

const NKEYS: usize = 64;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Fresh,
    Alive,
    Destroyed,
}
#[derive(Clone, Copy)]
struct Entry {
    mem: *mut u8,
    st: St,
    drop: Option<unsafe fn(*mut u8)>,
}
struct Tls {
    e: [Entry; NKEYS],
    order: [u8; NKEYS],
    n: usize,
    /// keys initialised, to be forgotten when the thread number is used again
    used: [u8; NKEYS],
    nused: usize,
}
const E0: Entry = Entry { mem: std::ptr::null_mut(), st: St::Fresh, drop: None };
const T0: Tls = Tls { e: [E0; NKEYS], order: [0; NKEYS], n: 0, used: [0; NKEYS], nused: 0 };
static mut TABLE: [Tls; MAXT] = [T0; MAXT];
static NEXT: AtomicUsize = AtomicUsize::new(0);

#[allow(static_mut_refs)]
fn table(t: usize) -> &'static mut Tls {
    unsafe { &mut (*std::ptr::addr_of_mut!(TABLE))[t] }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct AccessError;
impl std::fmt::Display for AccessError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("already destroyed")
    }
}
impl std::error::Error for AccessError {}

pub struct LocalKey<T: 'static> {
    init: fn() -> T,
    /// key number plus one, once assigned
    id: AtomicUsize,
}

impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self {
        LocalKey { init, id: AtomicUsize::new(0) }
    }

    fn id(&self) -> usize {
        let i = self.id.load(Relaxed);
        if i != 0 {
            return i - 1;
        }
        let i = NEXT.fetch_add(1, Relaxed);
        assert!(i < NKEYS, "too many thread locals");
        self.id.store(i + 1, Relaxed);
        i
    }

    fn access(&'static self, first: Option<T>) -> Result<(&'static T, Option<T>), AccessError> {
        let i = self.id();
        let t = rt().cur;
        match table(t).e[i].st {
            St::Alive => Ok((unsafe { &*table(t).e[i].mem.cast::<T>() }, first)),
            St::Destroyed => Err(AccessError),
            St::Fresh => {
                let v = first.unwrap_or_else(self.init);
                let tb = table(t);
                let e = &mut tb.e[i];
                unsafe {
                    if e.mem.is_null() {
                        let l = std::alloc::Layout::new::<T>();
                        e.mem = if l.size() == 0 {
                            std::ptr::NonNull::<T>::dangling().as_ptr().cast()
                        } else {
                            std::alloc::GlobalAlloc::alloc(&std::alloc::System, l)
                        };
                    }
                    e.mem.cast::<T>().write(v);
                }
                e.st = St::Alive;
                tb.used[tb.nused] = i as u8;
                tb.nused += 1;
                if std::mem::needs_drop::<T>() {
                    unsafe fn d<T>(p: *mut u8) {
                        std::ptr::drop_in_place(p.cast::<T>())
                    }
                    e.drop = Some(d::<T>);
                    tb.order[tb.n] = i as u8;
                    tb.n += 1;
                }
                Ok((unsafe { &*tb.e[i].mem.cast::<T>() }, None))
            }
        }
    }

    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> Result<R, AccessError> {
        self.access(None).map(|(x, _)| f(x))
    }

    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        match self.access(None) {
            Ok((x, _)) => f(x),
            Err(_) => panic!("cannot access a Thread Local Storage value during or after destruction: AccessError"),
        }
    }
}

impl<T: 'static> LocalKey<Cell<T>> {
    pub fn set(&'static self, v: T) {
        match self.access(Some(Cell::new(v))) {
            Ok((c, Some(v))) => c.set(v.into_inner()),
            Ok((_, None)) => {}
            Err(e) => panic!("{e}"),
        }
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(Cell::get)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(Cell::take)
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}

impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v);
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(RefCell::take)
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}

/// Run the destructors of thread `t`'s thread locals.
pub fn exit_thread(t: usize) {
    loop {
        let tb = table(t);
        if tb.n == 0 {
            break;
        }
        tb.n -= 1;
        let i = tb.order[tb.n] as usize;
        let e = &mut tb.e[i];
        e.st = St::Destroyed;
        let (d, m) = (e.drop.unwrap(), e.mem);
        if catch_unwind(AssertUnwindSafe(|| unsafe { d(m) })).is_err() {
            violation("abort", "a thread-local destructor panicked, which aborts the process");
        }
    }
}

/// Make the number `t` denote a new thread.
pub fn new_thread(t: usize) {
    let tb = table(t);
    if tb.n != 0 {
        violation("harness-error", "thread locals of a thread that was not ended");
    }
    for k in 0..tb.nused {
        tb.e[tb.used[k] as usize].st = St::Fresh;
    }
    tb.nused = 0;
}

/// Takes the place of the standard library's macro in the code under test.
#[macro_export]
macro_rules! thread_local {
    () => {};
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = const $init:block; $($rest:tt)*) => {
        $(#[$a])* $vis static $n: $crate::mc::LocalKey<$t> = $crate::mc::LocalKey::new(|| $init);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = const $init:block) => {
        $(#[$a])* $vis static $n: $crate::mc::LocalKey<$t> = $crate::mc::LocalKey::new(|| $init);
    };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = $init:expr; $($rest:tt)*) => {
        $(#[$a])* $vis static $n: $crate::mc::LocalKey<$t> = $crate::mc::LocalKey::new(|| $init);
        $crate::thread_local!($($rest)*);
    };
    ($(#[$a:meta])* $vis:vis static $n:ident : $t:ty = $init:expr) => {
        $(#[$a])* $vis static $n: $crate::mc::LocalKey<$t> = $crate::mc::LocalKey::new(|| $init);
    };
}

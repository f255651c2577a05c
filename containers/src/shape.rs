//! Types, their values, and what `accept` must do on them.

use dumpster::{sync, unsync, Collectable, Visitor};
use lite::{hash, hash_str, Chooser, Info, Run};
use std::any::Any;
use std::borrow::Cow;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{hash_map::RandomState, *};
use std::hash::{BuildHasher, BuildHasherDefault, DefaultHasher, Hash, Hasher};
use std::sync::{Mutex, RwLock};

/// What `accept` is expected to do on a value.
#[derive(Default)]
pub struct Plan {
    /// pointers that can be reached
    pub ptrs: Vec<(bool, usize)>,
    /// some part is inaccessible
    pub blocked: bool,
    pub guards: Vec<Box<dyn Any>>,
    /// how many cells may still be put in another state
    pub cells: usize,
    pub trace: Vec<u64>,
}

/// A type whose values can be enumerated and walked.
pub trait Shape: Collectable + 'static {
    fn name() -> String;
    fn build(c: &mut Chooser) -> Self;
    /// Walk the value, putting its cells in some state.
    fn plan(&self, c: &mut Chooser, p: &mut Plan);
}

fn forever<T: ?Sized>(x: &T) -> &'static T {
    unsafe { &*(x as *const T) }
}

/// numbers of elements of a collection, the usual one first
static mut LENGTHS: &[usize] = &[2, 0, 1, 3];

fn len(c: &mut Chooser) -> usize {
    let l = unsafe { LENGTHS };
    l[c.dev(l.len())]
}

fn many<T: Shape>(c: &mut Chooser) -> Vec<T> {
    (0..len(c)).map(|_| T::build(c)).collect()
}

// ---------------------------------------------------------------- leaves

#[derive(Clone)]
pub struct Target(#[allow(dead_code)] u64);
unsafe impl Collectable for Target {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

pub type U = unsync::Gc<Target>;
pub type S = sync::Gc<Target>;

impl Shape for U {
    fn name() -> String {
        "unsync::Gc".into()
    }
    fn build(_: &mut Chooser) -> Self {
        unsync::Gc::new(Target(0))
    }
    fn plan(&self, _: &mut Chooser, p: &mut Plan) {
        p.ptrs.push((false, unsync::Gc::as_ptr(self) as usize));
    }
}
impl Shape for S {
    fn name() -> String {
        "sync::Gc".into()
    }
    fn build(_: &mut Chooser) -> Self {
        sync::Gc::new(Target(0))
    }
    fn plan(&self, _: &mut Chooser, p: &mut Plan) {
        p.ptrs.push((true, sync::Gc::as_ptr(self) as usize));
    }
}

/// A pointer to a value that owns pointers, which must not be visited through it.
pub struct Deep<T: Shape>(unsync::Gc<T>);
unsafe impl<T: Shape> Collectable for Deep<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}
impl<T: Shape> Shape for Deep<T> {
    fn name() -> String {
        format!("unsync::Gc<{}>", T::name())
    }
    fn build(c: &mut Chooser) -> Self {
        Deep(unsync::Gc::new(T::build(c)))
    }
    fn plan(&self, _: &mut Chooser, p: &mut Plan) {
        p.ptrs.push((false, unsync::Gc::as_ptr(&self.0) as usize));
    }
}

/// Something that can be a key whatever it contains.
#[derive(Clone)]
pub struct Key<T> {
    id: u32,
    val: T,
}
impl<T> PartialEq for Key<T> {
    fn eq(&self, o: &Self) -> bool {
        self.id == o.id
    }
}
impl<T> Eq for Key<T> {}
impl<T> PartialOrd for Key<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for Key<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.id.cmp(&o.id)
    }
}
impl<T> Hash for Key<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id.hash(h);
    }
}
unsafe impl<T: Collectable> Collectable for Key<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.val.accept(v)
    }
}
impl<T: Shape> Shape for Key<T> {
    fn name() -> String {
        format!("Key<{}>", T::name())
    }
    fn build(c: &mut Chooser) -> Self {
        Key { id: 0, val: T::build(c) }
    }
    fn plan(&self, c: &mut Chooser, p: &mut Plan) {
        self.val.plan(c, p);
    }
}
fn keys<T: Shape>(c: &mut Chooser) -> Vec<Key<T>> {
    many::<T>(c).into_iter().enumerate().map(|(i, val)| Key { id: i as u32, val }).collect()
}

/// A hasher state that owns a pointer.
pub struct Hx<T>(T);
impl<T> BuildHasher for Hx<T> {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher::new()
    }
}
unsafe impl<T: Collectable> Collectable for Hx<T> {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}

type Ufn = unsafe fn(u8, u8);
type Fn10 = fn(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);

/// Types that own no pointer.
macro_rules! plain {
    ($($t:ty => $e:expr),* $(,)?) => {
        $(impl Shape for $t {
            fn name() -> String {
                stringify!($t).into()
            }
            fn build(_: &mut Chooser) -> Self {
                $e
            }
            fn plan(&self, _: &mut Chooser, _: &mut Plan) {}
        })*
        fn plains(r: &mut Run) {
            $(check::<$t>(r);)*
        }
    };
}
use std::num::*;
use std::sync::atomic::*;
plain! {
    () => (), u8 => 1, u16 => 1, u32 => 1, u64 => 1, u128 => 1, usize => 1,
    i8 => 1, i16 => 1, i32 => 1, i64 => 1, i128 => 1, isize => 1,
    bool => true, char => 'x', f32 => 1.0, f64 => 1.0,
    AtomicU8 => AtomicU8::new(1), AtomicU16 => AtomicU16::new(1), AtomicU32 => AtomicU32::new(1),
    AtomicU64 => AtomicU64::new(1), AtomicUsize => AtomicUsize::new(1),
    AtomicI8 => AtomicI8::new(1), AtomicI16 => AtomicI16::new(1), AtomicI32 => AtomicI32::new(1),
    AtomicI64 => AtomicI64::new(1), AtomicIsize => AtomicIsize::new(1),
    NonZeroU8 => NonZeroU8::MIN, NonZeroU16 => NonZeroU16::MIN, NonZeroU32 => NonZeroU32::MIN,
    NonZeroU64 => NonZeroU64::MIN, NonZeroU128 => NonZeroU128::MIN, NonZeroUsize => NonZeroUsize::MIN,
    NonZeroI8 => NonZeroI8::MIN, NonZeroI16 => NonZeroI16::MIN, NonZeroI32 => NonZeroI32::MIN,
    NonZeroI64 => NonZeroI64::MIN, NonZeroI128 => NonZeroI128::MIN, NonZeroIsize => NonZeroIsize::MIN,
    String => "x".into(), std::path::PathBuf => "x".into(), std::ffi::OsString => "x".into(),
    DefaultHasher => DefaultHasher::new(), RandomState => RandomState::new(),
    std::rc::Rc<str> => "x".into(), std::any::TypeId => std::any::TypeId::of::<u8>(),
    Box<str> => "x".into(), Box<std::path::Path> => std::path::Path::new("x").into(),
    Box<std::ffi::OsStr> => std::ffi::OsStr::new("x").into(),
    &'static str => "x", std::marker::PhantomData<U> => std::marker::PhantomData,
    BuildHasherDefault<DefaultHasher> => BuildHasherDefault::default(),
    Cell<u8> => Cell::new(1), Cell<Option<&'static str>> => Cell::new(Some("x")),
    std::sync::MutexGuard<'static, u8> => Box::leak(Box::new(Mutex::new(1))).lock().unwrap(),
    std::sync::RwLockReadGuard<'static, u8> => Box::leak(Box::new(RwLock::new(1))).read().unwrap(),
    fn() -> U => || unreachable!(), fn(U) -> u8 => |_| 1, extern "C" fn() -> u8 => { extern "C" fn f() -> u8 { 1 } f },
    Ufn => { unsafe fn f(_: u8, _: u8) {} f },
    Fn10 => |_, _, _, _, _, _, _, _, _, _| (),
}

// ---------------------------------------------------------------- containers

macro_rules! container {
    ($t:ty, [$($g:tt)*], $name:expr, |$c:ident| $build:expr, |$s:ident, $cc:ident, $p:ident| $plan:expr) => {
        impl<$($g)*> Shape for $t {
            fn name() -> String {
                $name
            }
            fn build($c: &mut Chooser) -> Self {
                $build
            }
            #[allow(unused_variables)]
            fn plan(&self, $cc: &mut Chooser, $p: &mut Plan) {
                let $s = self;
                $p.trace.push(1);
                $plan
            }
        }
    };
}

macro_rules! sequence {
    ($t:ty, $name:literal, |$v:ident| $mk:expr) => {
        container!($t, [T: Shape], format!(concat!($name, "<{}>"), T::name()), |c| {
            let $v = many::<T>(c);
            $mk
        }, |s, c, p| {
            p.trace.push(s.len() as u64);
            for x in s.iter() {
                x.plan(c, p);
            }
        });
    };
}
sequence!(Vec<T>, "Vec", |v| v);
sequence!(LinkedList<T>, "LinkedList", |v| v.into_iter().collect());
sequence!(Box<[T]>, "Box<[]>", |v| v.into());
container!(VecDeque<T>, [T: Shape], format!("VecDeque<{}>", T::name()), |c| {
    // contents may wrap around the end of the buffer
    let mut d = VecDeque::with_capacity(4);
    let front = c.dev(2) == 1;
    for x in many::<T>(c) {
        if front {
            d.push_front(x);
        } else {
            d.push_back(x);
        }
    }
    if front && d.len() > 1 {
        let x = d.pop_front().unwrap();
        d.push_back(x);
    }
    d
}, |s, c, p| for x in s { x.plan(c, p) });

macro_rules! keyed {
    ($t:ty, $name:literal) => {
        container!($t, [T: Shape], format!(concat!($name, "<{}>"), T::name()), |c| keys::<T>(c).into_iter().collect(), |s, c, p| {
            p.trace.push(s.len() as u64);
            let mut v: Vec<&Key<T>> = s.iter().collect();
            v.sort();
            for x in v {
                x.plan(c, p);
            }
        });
    };
}
keyed!(HashSet<Key<T>>, "HashSet");
keyed!(BTreeSet<Key<T>>, "BTreeSet");
keyed!(BinaryHeap<Key<T>>, "BinaryHeap");

macro_rules! map {
    ($t:ty, $name:literal, |$v:ident, $c2:ident| $mk:expr, |$s:ident, $cc:ident, $p:ident| $more:expr) => {
        container!($t, [T: Shape], format!(concat!($name, "<{}>"), T::name()), |$c2| {
            let $v: Vec<(Key<T>, T)> = keys::<T>($c2).into_iter().map(|k| (k, T::build($c2))).collect();
            $mk
        }, |$s, $cc, $p| {
            $p.trace.push($s.len() as u64);
            let mut v: Vec<_> = $s.iter().collect();
            v.sort_by_key(|x| x.0.id);
            for (k, x) in v {
                k.plan($cc, $p);
                x.plan($cc, $p);
            }
            $more
        });
    };
}
map!(BTreeMap<Key<T>, T>, "BTreeMap", |v, c| v.into_iter().collect(), |s, c, p| ());
map!(HashMap<Key<T>, T>, "HashMap", |v, c| v.into_iter().collect(), |s, c, p| ());
map!(HashMap<Key<T>, T, BuildHasherDefault<DefaultHasher>>, "HashMap(default hasher)", |v, c| v.into_iter().collect(), |s, c, p| ());
map!(HashMap<Key<T>, T, Hx<T>>, "HashMap(owning hasher)", |v, c| {
    let mut m = HashMap::with_hasher(Hx(T::build(c)));
    m.extend(v);
    m
}, |s, c, p| s.hasher().0.plan(c, p));

container!(Box<T>, [T: Shape], format!("Box<{}>", T::name()), |c| Box::new(T::build(c)), |s, c, p| (**s).plan(c, p));
container!(Option<T>, [T: Shape], format!("Option<{}>", T::name()), |c| if c.dev(2) == 0 { Some(T::build(c)) } else { None }, |s, c, p| {
    p.trace.push(u64::from(s.is_some()));
    if let Some(x) = s {
        x.plan(c, p);
    }
});
container!(Result<T, Box<T>>, [T: Shape], format!("Result<{}>", T::name()), |c| if c.dev(2) == 0 { Ok(T::build(c)) } else { Err(Box::new(T::build(c))) }, |s, c, p| {
    p.trace.push(u64::from(s.is_ok()));
    match s {
        Ok(x) => x.plan(c, p),
        Err(x) => x.plan(c, p),
    }
});
container!(OnceCell<T>, [T: Shape], format!("OnceCell<{}>", T::name()), |c| if c.dev(2) == 0 { OnceCell::from(T::build(c)) } else { OnceCell::new() }, |s, c, p| {
    p.trace.push(u64::from(s.get().is_some()));
    if let Some(x) = s.get() {
        x.plan(c, p);
    }
});
container!(Cow<'static, Key<T>>, [T: Shape + Clone], format!("Cow<{}>", T::name()), |c| Cow::Owned(Key::build(c)), |s, c, p| {
    if let Cow::Owned(x) = s {
        x.plan(c, p);
    }
});

container!(Box<RefCell<[T]>>, [T: Shape], format!("Box<RefCell<[{}]>>", T::name()), |c| Box::new(RefCell::new([T::build(c), T::build(c)])), |s, c, p| {
    if cell_state(c, p, 2) == 1 {
        p.blocked = true;
        p.guards.push(Box::new(forever(&**s).borrow_mut()));
        return;
    }
    for x in forever(&*forever(&**s).borrow()) {
        x.plan(c, p);
    }
});

fn cell_state(c: &mut Chooser, p: &mut Plan, n: usize) -> usize {
    let k = if p.cells == 0 { 0 } else { c.choose(n) };
    p.trace.push(k as u64);
    if k != 0 {
        p.cells -= 1;
    }
    k
}

container!(RefCell<T>, [T: Shape], format!("RefCell<{}>", T::name()), |c| RefCell::new(T::build(c)), |s, c, p| {
    match cell_state(c, p, 4) {
        1 => {
            p.blocked = true;
            p.guards.push(Box::new(forever(s).borrow_mut()));
            return;
        }
        2 => p.guards.push(Box::new(forever(s).borrow())),
        3 => drop(s.borrow_mut()),
        _ => {}
    }
    forever(s).borrow().plan(c, p);
});
container!(Mutex<T>, [T: Shape], format!("Mutex<{}>", T::name()), |c| Mutex::new(T::build(c)), |s, c, p| {
    let k = cell_state(c, p, 4);
    if k == 2 || k == 3 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = s.lock();
            std::panic::panic_any(());
        }));
    }
    if k == 1 || k == 3 {
        p.blocked = true;
        p.guards.push(Box::new(forever(s).lock().unwrap_or_else(|e| e.into_inner())));
        return;
    }
    let g = s.lock().unwrap_or_else(|e| e.into_inner());
    let inner: &T = forever(&*g);
    drop(g);
    inner.plan(c, p);
});
container!(RwLock<T>, [T: Shape], format!("RwLock<{}>", T::name()), |c| RwLock::new(T::build(c)), |s, c, p| {
    let k = cell_state(c, p, 6);
    if k >= 3 {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let _g = s.write();
            std::panic::panic_any(());
        }));
    }
    if k == 1 || k == 4 {
        p.blocked = true;
        p.guards.push(Box::new(forever(s).write().unwrap_or_else(|e| e.into_inner())));
        return;
    }
    if k == 2 || k == 5 {
        p.guards.push(Box::new(forever(s).read().unwrap_or_else(|e| e.into_inner())));
    }
    let g = s.read().unwrap_or_else(|e| e.into_inner());
    let inner: &T = forever(&*g);
    drop(g);
    inner.plan(c, p);
});

macro_rules! array {
    ($($n:literal),*) => {
        $(container!([T; $n], [T: Shape], format!("[{}; {}]", T::name(), $n), |c| std::array::from_fn(|_| T::build(c)), |s, c, p| for x in s { x.plan(c, p) });)*
    };
}
array!(0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 128, 257, 1025);

macro_rules! tuple {
    ($($t:ty, $n:literal, [$($i:tt)*];)*) => {
        $(container!($t, [T: Shape], format!("({} x {})", T::name(), $n), |c| ($({ let _ = $i; T::build(c) },)*), |s, c, p| { $(s.$i.plan(c, p);)* });)*
    };
}
tuple! {
    (T,), 1, [0];
    (T, T), 2, [0 1];
    (T, T, T), 3, [0 1 2];
    (T, T, T, T), 4, [0 1 2 3];
    (T, T, T, T, T), 5, [0 1 2 3 4];
    (T, T, T, T, T, T), 6, [0 1 2 3 4 5];
    (T, T, T, T, T, T, T), 7, [0 1 2 3 4 5 6];
    (T, T, T, T, T, T, T, T), 8, [0 1 2 3 4 5 6 7];
    (T, T, T, T, T, T, T, T, T), 9, [0 1 2 3 4 5 6 7 8];
    (T, T, T, T, T, T, T, T, T, T), 10, [0 1 2 3 4 5 6 7 8 9];
}

// ---------------------------------------------------------------- the check

#[derive(Default)]
struct Count(Vec<(bool, usize)>);
impl Visitor for Count {
    fn visit_sync<T: Collectable + Send + Sync + ?Sized>(&mut self, gc: &sync::Gc<T>) {
        self.0.push((true, sync::Gc::as_ptr(gc).cast::<()>() as usize));
    }
    fn visit_unsync<T: Collectable + ?Sized>(&mut self, gc: &unsync::Gc<T>) {
        self.0.push((false, unsync::Gc::as_ptr(gc).cast::<()>() as usize));
    }
}

/// deviations from the default contents, and cells in another state
static mut LIMITS: (usize, usize) = (0, 0);

fn check<T: Shape>(r: &mut Run) {
    decide(r, &T::name(), &mut |c| {
        c.budget = unsafe { LIMITS.0 };
        let x = T::build(c);
        let mut p = Plan { cells: unsafe { LIMITS.1 }, ..Plan::default() };
        x.plan(c, &mut p);
        let mut seen = Count::default();
        let res = x.accept(&mut seen);
        p.guards.clear();
        (p, seen, res)
    });
}

fn decide(r: &mut Run, name: &str, f: &mut dyn FnMut(&mut Chooser) -> (Plan, Count, Result<(), ()>)) {
    let h = hash_str(name);
    r.case_dyn(name, &mut |c| {
        let (p, mut seen, res) = f(c);
        let n = seen.0.len() as u64;
        seen.0.sort();
        let mut want = p.ptrs.clone();
        want.sort();
        let once = seen.0.windows(2).all(|w| w[0] != w[1]);
        if p.blocked != res.is_err() {
            return Err(format!("accept on {name} gives {res:?} although {} part of it is inaccessible", if p.blocked { "some" } else { "no" }));
        }
        if !p.blocked && seen.0 != want {
            return Err(format!("accept on {name} visits {} pointers of the {} stored there (each at most once: {once})", seen.0.len(), want.len()));
        }
        if !once || seen.0.iter().any(|x| !want.contains(x)) {
            return Err(format!("accept on {name}, part of which is inaccessible, visits a pointer twice or one behind a lock that is held"));
        }
        let mut t = p.trace;
        t.push(h);
        t.push(want.len() as u64);
        Ok(Info { state: hash(&t), ops: n + 1 })
    });
}

fn level1<T: Shape>(r: &mut Run) {
    check::<Box<T>>(r);
    check::<Option<T>>(r);
    check::<Result<T, Box<T>>>(r);
    check::<OnceCell<T>>(r);
    check::<Vec<T>>(r);
    check::<VecDeque<T>>(r);
    check::<LinkedList<T>>(r);
    check::<Box<[T]>>(r);
    check::<HashSet<Key<T>>>(r);
    check::<BTreeSet<Key<T>>>(r);
    check::<BinaryHeap<Key<T>>>(r);
    check::<BTreeMap<Key<T>, T>>(r);
    check::<HashMap<Key<T>, T>>(r);
    check::<HashMap<Key<T>, T, Hx<T>>>(r);
    check::<RefCell<T>>(r);
    check::<Mutex<T>>(r);
    check::<RwLock<T>>(r);
    check::<Deep<T>>(r);
    check::<Box<RefCell<[T]>>>(r);
    check::<[T; 2]>(r);
    check::<(T, T, T)>(r);
}

fn arrays<T: Shape>(r: &mut Run) {
    check::<HashMap<Key<T>, T, BuildHasherDefault<DefaultHasher>>>(r);
    check::<[T; 0]>(r);
    check::<[T; 1]>(r);
    check::<[T; 5]>(r);
    check::<(T,)>(r);
    check::<(T, T)>(r);
    check::<(T, T, T, T)>(r);
    check::<(T, T, T, T, T)>(r);
    check::<(T, T, T, T, T, T)>(r);
    check::<(T, T, T, T, T, T, T)>(r);
    check::<(T, T, T, T, T, T, T, T)>(r);
    check::<(T, T, T, T, T, T, T, T, T)>(r);
    check::<(T, T, T, T, T, T, T, T, T, T)>(r);
}

fn long_arrays<T: Shape>(r: &mut Run) {
    check::<[T; 3]>(r);
    check::<[T; 4]>(r);
    check::<[T; 8]>(r);
    check::<[T; 9]>(r);
    check::<[T; 16]>(r);
    check::<[T; 17]>(r);
    check::<[T; 31]>(r);
    check::<[T; 32]>(r);
    check::<[T; 33]>(r);
    check::<[T; 64]>(r);
    check::<[T; 65]>(r);
    check::<[T; 128]>(r);
    check::<[T; 257]>(r);
    check::<[T; 1025]>(r);
}

fn level2<T: Shape>(r: &mut Run) {
    level1::<Box<T>>(r);
    level1::<Option<T>>(r);
    level1::<Result<T, Box<T>>>(r);
    level1::<OnceCell<T>>(r);
    level1::<Vec<T>>(r);
    level1::<VecDeque<T>>(r);
    level1::<LinkedList<T>>(r);
    level1::<Box<[T]>>(r);
    level1::<HashSet<Key<T>>>(r);
    level1::<BTreeSet<Key<T>>>(r);
    level1::<BinaryHeap<Key<T>>>(r);
    level1::<BTreeMap<Key<T>, T>>(r);
    level1::<HashMap<Key<T>, T>>(r);
    level1::<HashMap<Key<T>, T, Hx<T>>>(r);
    level1::<RefCell<T>>(r);
    level1::<Mutex<T>>(r);
    level1::<RwLock<T>>(r);
    level1::<Deep<T>>(r);
    level1::<[T; 2]>(r);
    level1::<(T, T)>(r);
    level1::<(T, T, T)>(r);
}

/// A chain of three containers, each of which can be inaccessible.
fn level3<T: Shape>(r: &mut Run) {
    check::<Vec<RefCell<Option<T>>>>(r);
    check::<RefCell<Vec<Mutex<T>>>>(r);
    check::<Option<Box<RefCell<BTreeMap<Key<T>, T>>>>>(r);
    check::<RwLock<HashMap<Key<T>, T>>>(r);
    check::<Mutex<Vec<RefCell<T>>>>(r);
    check::<(RefCell<T>, RefCell<T>)>(r);
    check::<RefCell<(RefCell<T>, RefCell<T>)>>(r);
    check::<Mutex<Mutex<Mutex<T>>>>(r);
    check::<RwLock<RwLock<RwLock<T>>>>(r);
    check::<RefCell<RefCell<RefCell<T>>>>(r);
    check::<Vec<Vec<Vec<T>>>>(r);
    check::<Result<RefCell<T>, Box<RefCell<T>>>>(r);
    check::<HashMap<Key<RefCell<T>>, RefCell<T>, Hx<RefCell<T>>>>(r);
    check::<BTreeMap<Key<RefCell<T>>, RefCell<T>>>(r);
    check::<VecDeque<RefCell<Vec<T>>>>(r);
    check::<LinkedList<RwLock<Vec<T>>>>(r);
}

impl<A: Shape, B: Shape> Shape for (A, B, Box<A>) {
    fn name() -> String {
        format!("({}, {}, Box)", A::name(), B::name())
    }
    fn build(c: &mut Chooser) -> Self {
        (A::build(c), B::build(c), Box::new(A::build(c)))
    }
    fn plan(&self, c: &mut Chooser, p: &mut Plan) {
        self.0.plan(c, p);
        self.1.plan(c, p);
        self.2.plan(c, p);
    }
}

pub fn run(r: &mut Run) {
    let t = lite::thorough();
    let lim = |d, c| unsafe { LIMITS = (d, c) };
    lim(0, 0);
    r.suite("plain", "every type without pointers");
    plains(r);
    lim(99, 99);
    r.suite("depth1", "every container over a pointer of either collector, all contents of up to 3 elements, every combination of cell states");
    check::<U>(r);
    check::<S>(r);
    level1::<U>(r);
    level1::<S>(r);
    arrays::<U>(r);
    arrays::<S>(r);
    check::<Cow<'static, Key<U>>>(r);
    check::<Cow<'static, Key<S>>>(r);
    r.case("Cow::Borrowed", |_| {
        let k: &'static Key<S> = Box::leak(Box::new(Key { id: 0, val: sync::Gc::new(Target(0)) }));
        let x: Cow<'static, Key<S>> = Cow::Borrowed(k);
        let mut seen = Count::default();
        let ok = x.accept(&mut seen).is_ok();
        if ok && seen.0.is_empty() { Ok(Info { state: 1, ops: 1 }) } else { Err("accept on a borrowed Cow visits what it does not own".into()) }
    });
    check::<(U, S, Box<U>)>(r);
    check::<(RefCell<U>, Mutex<S>, Box<RefCell<U>>)>(r);
    r.sample("depth1: HashMap(owning hasher)<unsync::Gc> with 2 entries: 5 pointers, each visited once");
    unsafe { LENGTHS = &[2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000] };
    r.suite("long", "every collection and arrays over a pointer of either collector, with numbers of elements around those at which collections change their layout, up to 5000");
    level1::<U>(r);
    level1::<S>(r);
    long_arrays::<U>(r);
    long_arrays::<S>(r);
    unsafe { LENGTHS = &[2, 0, 1, 3] };
    lim(99, if t { 3 } else { 2 });
    r.suite("cells", "arrays, tuples and maps of cells, all contents, up to 2 (thorough: 3) cells in another state");
    arrays::<RefCell<U>>(r);
    arrays::<Mutex<S>>(r);
    arrays::<RwLock<U>>(r);
    lim(if t { 3 } else { 2 }, if t { 2 } else { 1 });
    r.suite("depth2", &format!("every container of every container of a pointer, contents differing from the default in up to {} places, up to {} cells in another state", if t { 3 } else { 2 }, if t { 2 } else { 1 }));
    level2::<U>(r);
    level2::<(U, S, Box<U>)>(r);
    r.sample("depth2: (RefCell<unsync::Gc> x 10) with the 7th cell mutably borrowed: accept reports an error");
    lim(if t { 4 } else { 3 }, 3);
    r.suite("depth3", "chosen chains of three containers, up to 3 cells in another state");
    level3::<U>(r);
    level3::<S>(r);
    r.sample("depth3: Mutex<Mutex<Mutex<sync::Gc>>> with the middle lock held");
}

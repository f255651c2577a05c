//! What `#[derive(Collectable)]` produces, for every shape of declaration up to a size.

use dumpster::{sync, unsync, Collectable, Visitor};
use lite::{hash, Chooser, Info, Run};
use std::cell::{RefCell, RefMut};

pub struct Target;
unsafe impl Collectable for Target {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}
impl std::fmt::Debug for Target {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

/// a field that owns a pointer
pub type U = unsync::Gc<Target>;
/// a field that owns a pointer, and can be inaccessible
pub type Cs = RefCell<sync::Gc<Target>>;

pub trait Make {
    fn make() -> Self;
    fn probe(&self, to: &mut Vec<Probe>);
}
pub struct Probe {
    ptr: (bool, usize),
    cell: Option<*const Cs>,
}
impl Make for U {
    fn make() -> Self {
        unsync::Gc::new(Target)
    }
    fn probe(&self, to: &mut Vec<Probe>) {
        to.push(Probe { ptr: (false, unsync::Gc::as_ptr(self) as usize), cell: None });
    }
}
impl Make for Cs {
    fn make() -> Self {
        RefCell::new(sync::Gc::new(Target))
    }
    fn probe(&self, to: &mut Vec<Probe>) {
        to.push(Probe { ptr: (true, sync::Gc::as_ptr(&self.borrow()) as usize), cell: Some(self) });
    }
}
impl Make for u8 {
    fn make() -> Self {
        0
    }
    fn probe(&self, _: &mut Vec<Probe>) {}
}
macro_rules! wrap {
    ($([$($g:tt)*] $t:ty, $mk:expr, |$s:ident, $to:ident| $probe:expr;)*) => {
        $(impl<$($g)*> Make for $t {
            fn make() -> Self {
                $mk
            }
            #[allow(unused_variables)]
            fn probe(&self, $to: &mut Vec<Probe>) {
                let $s = self;
                $probe
            }
        })*
    };
}
wrap! {
    [T: Make] Option<T>, Some(T::make()), |s, to| s.as_ref().unwrap().probe(to);
    [T: Make] Box<T>, Box::new(T::make()), |s, to| (**s).probe(to);
    [T: Make] Vec<T>, vec![T::make(), T::make()], |s, to| for x in s { x.probe(to) };
    [T: Make] Box<[T]>, Box::new([T::make(), T::make()]), |s, to| for x in &**s { x.probe(to) };
    [T: Make] [T; 2], [T::make(), T::make()], |s, to| for x in s { x.probe(to) };
    [T: Make] (T,), (T::make(),), |s, to| s.0.probe(to);
    [T: Make, S: Make] (T, S), (T::make(), S::make()), |s, to| { s.0.probe(to); s.1.probe(to) };
    [T: Make, S: Make] Result<T, S>, Err(S::make()), |s, to| match s { Ok(x) => x.probe(to), Err(x) => x.probe(to) };
    [] fn() -> U, || unreachable!(), |s, to| ();
    [] &'static str, "", |s, to| ();
    [T] std::marker::PhantomData<T>, std::marker::PhantomData, |s, to| ();
}

pub fn mk<T: Make>() -> T {
    T::make()
}
pub fn probe<T: Make>(x: &T, to: &mut Vec<Probe>) {
    x.probe(to);
}

#[derive(Default)]
pub struct Count(Vec<(bool, usize)>);
impl Visitor for Count {
    fn visit_sync<T: Collectable + Send + Sync + ?Sized>(&mut self, gc: &sync::Gc<T>) {
        self.0.push((true, sync::Gc::as_ptr(gc).cast::<()>() as usize));
    }
    fn visit_unsync<T: Collectable + ?Sized>(&mut self, gc: &unsync::Gc<T>) {
        self.0.push((false, unsync::Gc::as_ptr(gc).cast::<()>() as usize));
    }
}

/// `Collectable::accept` under a name no generated type interferes with.
pub struct Accept;
impl Accept {
    pub fn accept<T: Collectable>(x: &T, c: &mut Count) -> Result<(), ()> {
        Collectable::accept(x, c)
    }
}

/// Compare `accept` with what the fields hold, with up to two of them inaccessible.
pub fn decide(
    variant: usize,
    fs: &[Probe],
    ch: &mut Chooser,
    accept: &mut dyn FnMut(&mut Count) -> Result<(), ()>,
) -> Result<Info, String> {
    let mut open = Count::default();
    if accept(&mut open).is_err() {
        return Err("accept fails although every field is accessible".into());
    }
    let mut seen = open.0.clone();
    seen.sort_unstable();
    let mut want: Vec<_> = fs.iter().map(|f| f.ptr).collect();
    want.sort_unstable();
    if seen != want {
        return Err(format!("accept on variant {variant} visits {} pointers, the fields own {}", seen.len(), want.len()));
    }
    let cells: Vec<&Probe> = fs.iter().filter(|f| f.cell.is_some()).collect();
    let a = ch.choose(cells.len() + 1);
    let b = if a == 0 { 0 } else { ch.choose(a) };
    let mut guards: Vec<RefMut<'_, sync::Gc<Target>>> = Vec::new();
    let mut first = usize::MAX;
    for k in [a, b] {
        if k > 0 {
            let c = cells[k - 1];
            guards.push(unsafe { &*c.cell.unwrap() }.borrow_mut());
            first = first.min(open.0.iter().position(|p| *p == c.ptr).unwrap());
        }
    }
    let mut ops = open.0.len() as u64 + 1;
    if a > 0 {
        let mut seen = Count::default();
        if accept(&mut seen).is_ok() {
            return Err(format!("accept on variant {variant} succeeds although field {a} with a cell is mutably borrowed"));
        }
        if seen.0 != open.0[..first] {
            return Err(format!("accept on variant {variant} visits {} pointers instead of the {first} before the inaccessible field", seen.0.len()));
        }
        ops += seen.0.len() as u64 + 1;
    }
    let kinds = fs.iter().fold(1, |h, f| h * 3 + 1 + u64::from(f.cell.is_some()));
    Ok(Info { state: hash(&[kinds, a as u64, b as u64]), ops })
}

#[allow(unused, non_camel_case_types, non_snake_case, clippy::all)]
mod gen {
    use super::*;
    include!("gen.rs");
}

fn main() {
    let code = lite::main(
        "C10",
        "states: distinct (kinds of fields of the active variant, set of inaccessible fields); transitions: pointers visited by derived accept and calls of it; traces: values for which derived accept was compared with the fields of the value",
        |r| {
            gen::run(r);
            r.sample("enum X { Err(U, Cs), Ok { field1: Cs, field0: u8, visitor: U } }, variant Ok, field1 borrowed: error, nothing visited");
            r.sample("struct X<T, const N: usize>([T; N], U) at X<RefCell<sync::Gc>, 3>: 4 pointers, each once");
        },
    );
    std::process::exit(code);
}

"""Writes out every type declaration up to a size, with code that builds its values.

usage: gen.py > src/gen.rs
"""
import itertools

FIELD = ["U", "Cs", "u8"]
# names that could collide with those used by generated code
ODD = ["field1", "field0", "visitor", "r#type", "self_", "field2", "__V", "std", "dumpster", "name", "r#match", "V"]
ODD_VARIANTS = ["Ok", "Err", "Some", "None", "Result", "Collectable", "Visitor", "V", "Gc", "T"]
out = []
calls = []


def fields(kind, types, names):
    """declaration, constructor and pattern of a list of fields"""
    if kind == "unit":
        return "", "", "", []
    binds = [f"x{i}" for i in range(len(types))]
    if kind == "tuple":
        return (
            "(" + ", ".join(types) + ")",
            "(" + ", ".join("mk()" for _ in types) + ")",
            "(" + ", ".join(binds) + ")",
            binds,
        )
    return (
        " { " + ", ".join(f"{n}: {t}" for n, t in zip(names, types)) + " }",
        " { " + ", ".join(f"{n}: mk()" for n in names[: len(types)]) + " }",
        " { " + ", ".join(f"{n}: {b}" for n, b in zip(names, binds)) + " }",
        binds,
    )


def emit(decl, arms, inst=None, pre=""):
    """arms: (constructor, pattern, bound names); inst: type to build"""
    n = len(calls)
    name = decl.replace("#[derive(Collectable)]", "").strip().replace('"', '\\"').replace("\n", " ")
    ctor = "".join(f"            {i} => {c},\n" for i, (c, _, _) in enumerate(arms[:-1]))
    ctor += f"            _ => {arms[-1][0]},\n"
    pats = ""
    for c, p, b in arms:
        pats += f"            {p} => {{ " + " ".join(f"probe({x}, &mut fs);" for x in b) + " }\n"
    ty = inst or "X"
    out.append(
        f"""mod t{n} {{
    #[allow(unused_imports)]
    use super::*;
    {pre}
    {decl}
    pub fn go(r: &mut Run) {{
        r.case_dyn("{n}: {name}", &mut |ch| {{
            #[allow(unused_mut)]
            let mut fs: Vec<Probe> = Vec::new();
            let v = ch.choose({len(arms)});
            let x: {ty} = match v {{
{ctor}            }};
            match &x {{
{pats}            }}
            decide(v, &fs, ch, &mut |c| Accept::accept(&x, c))
        }});
    }}
}}
"""
    )
    calls.append(n)


def struct(kind, types, names):
    d, c, p, b = fields(kind, types, names)
    semi = ";" if kind in ("unit", "tuple") else ""
    emit(f"#[derive(Collectable)] pub struct X{d}{semi}", [("X" + c, "X" + p, b)])


def enum(variants, vnames, attr=""):
    """variants: (kind, types, names)"""
    decl, arms = [], []
    for (kind, types, names), v in zip(variants, vnames):
        d, c, p, b = fields(kind, types, names)
        decl.append(v + d)
        arms.append((f"X::{v}{c}", f"X::{v}{p}", b))
    emit(f"#[derive(Collectable)] {attr} pub enum X {{ " + ", ".join(decl) + " }", arms)


ABC = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"]

# structs: every assignment of field types
struct("unit", [], ABC)
for kind in ("tuple", "named"):
    for n in range(0, 5):
        for types in itertools.product(FIELD, repeat=n):
            struct(kind, list(types), ABC)
            if kind == "named" and n:
                struct(kind, list(types), ODD)
    struct(kind, ["U", "Cs"] * 6, ABC)
    struct(kind, ["U", "Cs"] * 6, ODD)
    # more fields than bindings with one digit
    struct(kind, ["U"] * 11 + ["Cs"], ABC)


def vshape(k, v, odd=False):
    kind, n = k
    return (kind, [FIELD[(i + v) % 3] for i in range(n)], ODD if odd else ABC)


# enums: every combination of variant shapes
SHAPES = [("unit", 0), ("tuple", 0), ("named", 0), ("tuple", 1), ("named", 1), ("tuple", 2), ("named", 2), ("tuple", 3), ("named", 3)]
for k in SHAPES + [("tuple", 5), ("named", 5), ("tuple", 12), ("named", 12)]:
    for v in range(3):
        enum([vshape(k, v)], ["A"])
        enum([vshape(k, v, True)], ["Ok"])
for k in itertools.product(SHAPES, repeat=2):
    for v in range(3):
        enum([vshape(x, i + v) for i, x in enumerate(k)], ["A", "B"])
    enum([vshape(x, i, True) for i, x in enumerate(k)], ["Err", "Ok"])
for k in itertools.product(SHAPES, repeat=3):
    enum([vshape(x, i) for i, x in enumerate(k)], ["A", "B", "C"])
enum([vshape(SHAPES[i % len(SHAPES)], i, True) for i in range(len(ODD_VARIANTS))], ODD_VARIANTS)
enum([("unit", [], ABC)] * 3, ["A = 3", "B = 7", "C"][:0] or ["A", "B", "C"], "#[repr(u8)]")
enum([vshape(("tuple", 2), i) for i in range(20)], [f"V{i}" for i in range(20)], "#[non_exhaustive]")

# named fields in every order of the names used for bindings
for names in itertools.permutations(["field0", "field1", "field2"]):
    enum([("named", ["U", "Cs", "U"], list(names)), ("tuple", ["Cs", "U"], ABC)], ["A", "B"])
    struct("named", ["U", "Cs", "U"], list(names))


# every way to write a type
TYPES = ["Option<U>", "Box<U>", "Vec<U>", "(U, Cs)", "(U,)", "[U; 2]", "Box<[U]>", "std::boxed::Box<Cs>", "::std::vec::Vec<Cs>", "(U)", "<u8 as Sel>::P", "self::U", "alias!()", "fn() -> U", "&'static str", "std::marker::PhantomData<U>", "Option<Option<Box<Vec<U>>>>", "Result<U, Cs>", "crate::Cs"]
TPRE = "#[allow(unused)] pub trait Sel { type P; } impl Sel for u8 { type P = Cs; } #[allow(unused)] macro_rules! alias { () => { U } }"
for t in TYPES:
    for names in (ABC, ODD, ["_", "_x", "__"][1:]):
        emit(f"#[derive(Collectable)] pub struct X {{ {names[0]}: {t}, {names[1]}: U }}", [(f"X {{ {names[0]}: mk(), {names[1]}: mk() }}", f"X {{ {names[0]}: x, {names[1]}: y }}", ["x", "y"])], None, TPRE)
        emit(f"#[derive(Collectable)] pub enum X {{ A {{ {names[0]}: U, {names[1]}: {t} }} }}", [(f"X::A {{ {names[0]}: mk(), {names[1]}: mk() }}", f"X::A {{ {names[0]}: x, {names[1]}: y }}", ["x", "y"])], None, TPRE)
    emit(f"#[derive(Collectable)] pub struct X({t}, U);", [("X(mk(), mk())", "X(x, y)", ["x", "y"])], None, TPRE)
    emit(f"#[derive(Collectable)] pub struct X(pub {t});", [("X(mk())", "X(x)", ["x"])], None, TPRE)
    emit(f"#[derive(Collectable)] pub enum X {{ A({t}, {t}), B }}", [("X::A(mk(), mk())", "X::A(x, y)", ["x", "y"]), ("X::B", "X::B", [])], None, TPRE)


def special(decl, ctor, pat, binds, inst="X", pre=""):
    emit("#[derive(Collectable)] " + decl, [(ctor, pat, binds)], inst, pre)


# generics
for p in ["T", "V", "Z", "E", "__W"]:
    special(f"pub struct X<{p}> {{ a: {p}, b: U, c: {p} }}", "X { a: mk(), b: mk(), c: mk() }", "X { a, b, c }", ["a", "b", "c"], "X<Cs>")
    special(f"pub struct X<{p}>({p}, {p});", "X(mk(), mk())", "X(a, b)", ["a", "b"], "X<U>")
    special(f"pub enum X<{p}> {{ A({p}), B {{ x: {p} }} }}", "X::A(mk())", "X::A(a) | X::B { x: a }", ["a"], "X<Cs>")
    special(f"pub enum X<{p}> {{ A({p}), B {{ x: {p}, y: Cs }} }}", "X::B { x: mk(), y: mk() }", "X::A(_) => {} X::B { x: a, y: b }", ["a", "b"], "X<U>")
special("pub struct X<A, B>(A, B, A);", "X(mk(), mk(), mk())", "X(a, b, c)", ["a", "b", "c"], "X<U, Cs>")
special("pub struct X<A = U>(A, A);", "X(mk(), mk())", "X(a, b)", ["a", "b"], "X")
special("pub struct X<A: Clone, B>(A, B) where B: Sized;", "X(mk(), mk())", "X(a, b)", ["a", "b"], "X<U, Cs>")
special("pub struct X<A>(A, U) where A: std::fmt::Debug, Option<A>: Clone;", "X(1u8, mk())", "X(_, b)", ["b"], "X<u8>")
special("pub struct X<const N: usize> { a: [U; N], b: Cs }", "X { a: [mk(), mk()], b: mk() }", "X { a: [p, q], b }", ["p", "q", "b"], "X<2>")
special("pub struct X<T, const N: usize>([T; N], U);", "X([mk(), mk(), mk()], mk())", "X([p, q, s], b)", ["p", "q", "s", "b"], "X<Cs, 3>")
special("pub struct X<const N: usize = 1> { a: [U; N] }", "X { a: [mk()] }", "X { a: [p] }", ["p"], "X")
special("pub struct X<'a, T>(std::borrow::Cow<'a, u8>, T);", "X(std::borrow::Cow::Owned(1), mk())", "X(_, b)", ["b"], "X<'static, Cs>")
special("pub struct X<'a>(std::borrow::Cow<'a, u8>, U, Cs);", "X(std::borrow::Cow::Owned(1), mk(), mk())", "X(_, b, c)", ["b", "c"], "X<'static>")
special("pub struct X<'a, 'b: 'a, T: 'static, const N: usize>(std::borrow::Cow<'a, u8>, std::borrow::Cow<'b, u8>, [T; N]);", "X(std::borrow::Cow::Owned(1), std::borrow::Cow::Owned(1), [mk(), mk()])", "X(_, _, [a, b])", ["a", "b"], "X<'static, 'static, Cs, 2>")
special("pub struct X<T>(std::marker::PhantomData<T>, U);", "X(std::marker::PhantomData, mk())", "X(_, b)", ["b"], "X<Cs>")
special("pub struct X<T: ?Sized> { a: U, b: T }", "X { a: mk(), b: mk() }", "X { a, b }", ["a", "b"], "X<Cs>")
special("pub struct X<T: Tr>(T::A, U) where T::A: Collectable;", "X(mk(), mk())", "X(a, b)", ["a", "b"], "X<u8>", "pub trait Tr { type A; } impl Tr for u8 { type A = Cs; }")
special("pub struct X(pub U, pub(crate) Cs, pub(super) U);", "X(mk(), mk(), mk())", "X(a, b, c)", ["a", "b", "c"])
special("#[allow(dead_code)] pub struct X { /** documented */ a: U, #[allow(unused)] b: Cs, #[cfg(any())] c: NoSuchType }", "X { a: mk(), b: mk() }", "X { a, b }", ["a", "b"])
special("pub enum X { /** documented */ #[allow(unused)] A(#[allow(unused)] U, Cs), #[cfg(any())] B(NoSuchType) }", "X::A(mk(), mk())", "X::A(a, b)", ["a", "b"])
special("#[repr(C)] pub struct X { a: u8, b: U, c: Cs }", "X { a: mk(), b: mk(), c: mk() }", "X { a: _, b, c }", ["b", "c"])
special("#[repr(align(64))] pub struct X(u8, U, Cs);", "X(mk(), mk(), mk())", "X(_, b, c)", ["b", "c"])
special("#[repr(transparent)] pub struct X(Cs);", "X(mk())", "X(b)", ["b"])
# the type is its own field type
special("pub struct X { a: U, next: Option<Box<X>>, b: Cs }", "X { a: mk(), next: Some(Box::new(X { a: mk(), next: None, b: mk() })), b: mk() }", "x", ["&x.a", "&x.next.as_ref().unwrap().a", "&x.next.as_ref().unwrap().b", "&x.b"])
special("pub enum X { Nil, Cons(U, Box<X>) }", "X::Cons(mk(), Box::new(X::Cons(mk(), Box::new(X::Nil))))", "X::Nil => {} X::Cons(a, rest)", ["a", "match &**rest { X::Cons(b, _) => b, X::Nil => unreachable!() }"])
special("pub struct X<T: Collectable + 'static> { a: T, b: Option<dumpster::unsync::Gc<X<T>>>, c: Cs }", "X { a: mk(), b: None, c: mk() }", "X { a, b: _, c }", ["a", "c"], "X<U>")
# derived types inside one another
special("pub struct X { a: Y<U>, b: Y<Cs> }", "X { a: Y::L(mk(), mk()), b: Y::R { y: mk() } }", "X { a: Y::L(p, q), b: Y::R { y } } => { probe(p, &mut fs); probe(q, &mut fs); probe(y, &mut fs); } _", [], "X", "#[derive(Collectable)] pub enum Y<T> { L(T, Cs), R { y: T }, #[allow(dead_code)] N }")
# names of the prelude and of the crate that mean something else here
special("pub struct X { a: U, b: Cs }", "X { a: mk(), b: mk() }", "X { a, b }", ["a", "b"], "X", "#[allow(dead_code)] pub struct Result; #[allow(dead_code)] pub struct Option; #[allow(dead_code, non_snake_case)] pub fn Ok() {} #[allow(dead_code, non_snake_case)] pub fn Err() {}")
special("pub enum X { Result(U), Ok { r: Cs } }", "X::Ok { r: mk() }", "X::Result(_) => {} X::Ok { r }", ["r"], "X", "#[allow(dead_code)] pub enum Result { Ok, Err } #[allow(unused_imports)] use self::Result::*;")
special("pub enum X { A(U), B { r: Cs } }", "X::B { r: mk() }", "X::A(_) => {} X::B { r }", ["r"], "X", "#[allow(dead_code)] pub trait Visitor {} #[allow(dead_code)] pub trait accept {}")
special("pub struct Result { a: U, b: Cs }", "Result { a: mk(), b: mk() }", "Result { a, b }", ["a", "b"], "self::Result")
special("pub enum Option { Some(U, Cs) }", "self::Option::Some(mk(), mk())", "self::Option::Some(a, b)", ["a", "b"], "self::Option")
special("pub struct V { a: U, b: Cs }", "V { a: mk(), b: mk() }", "V { a, b }", ["a", "b"], "V")
special("pub enum Visitor { A(U, Cs) }", "self::Visitor::A(mk(), mk())", "self::Visitor::A(a, b)", ["a", "b"], "self::Visitor")
# an inherent or trait method called accept on a field type must not be taken instead
special("pub struct X { a: W, b: U }", "X { a: W(mk()), b: mk() }", "X { a: W(p), b }", ["p", "b"], "X", "#[derive(Collectable)] pub struct W(pub Cs); #[allow(dead_code)] impl W { pub fn accept<T>(&self, _: &mut T) -> std::result::Result<(), ()> { std::result::Result::Ok(()) } }")
special("pub enum X { A(W, U) }", "X::A(W(mk()), mk())", "X::A(W(p), b)", ["p", "b"], "X", "#[derive(Collectable)] pub struct W(pub Cs); #[allow(dead_code)] impl W { pub fn accept<T>(&self, _: &mut T) -> std::result::Result<(), ()> { std::result::Result::Ok(()) } }")
# made by a macro
special("pub struct Y;", "X { a: mk(), b: mk() }", "X { a, b }", ["a", "b"], "X", "macro_rules! make { ($n:ident, $t:ty, $f:ident) => { #[derive(Collectable)] pub struct $n { a: $t, $f: Cs } } } make!(X, U, b);")
special("pub struct Y;", "X(mk(), mk())", "X(a, b)", ["a", "b"], "X", "macro_rules! make { ($n:ident, $t:ty) => { #[derive(Collectable)] pub struct $n($t, Cs); } } make!(X, U);")
special("pub struct Y;", "X(mk(), mk())", "X(a, b)", ["a", "b"], "X", "macro_rules! make { ($n:ident, $($t:tt)*) => { #[derive(Collectable)] pub struct $n(pub $($t)*, Cs); } } make!(X, U);")
special("pub struct Y;", "X::A { a: mk(), b: mk() }", "X::A { a, b }", ["a", "b"], "X", "macro_rules! make { ($n:ident, $v:ident, $f:ident) => { #[derive(Collectable)] pub enum $n { $v { a: U, $f: Cs } } } } make!(X, A, b);")
special("pub struct Y;", "X { a: mk(), b: mk() }", "X { a, b }", ["a", "b"], "X", "macro_rules! make { ($($x:tt)*) => { #[derive(Collectable)] $($x)* } } make!(pub struct X { a: U, b: Cs });")
special("pub struct Y;", "X::A(mk(), mk())", "X::A(a, b)", ["a", "b"], "X", "macro_rules! make { ($n:ident, $t:ty) => { #[derive(Collectable)] pub enum $n { A($t, Cs) } } } make!(X, U);")

print("// generated by gen.py\n")
print("\n".join(out))
print("// no value exists, so there is nothing to run, but it has to compile")
print("mod empty { use super::*; #[derive(Collectable)] #[allow(dead_code)] pub enum X {} #[derive(Collectable)] #[allow(dead_code)] pub enum Y<T> where T: Clone { A(T, X) } }")
print("pub fn run(r: &mut Run) {")
print('    r.suite("declarations", "every struct and enum declaration of the grammar in gen.py, every variant, every set of up to two inaccessible fields");')
for n in calls:
    print(f"    t{n}::go(r);")
print("}")

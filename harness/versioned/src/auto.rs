//! `#[derive(AutoFrom)]`: conversions move every field and variant to its namesake, unchanged
use mina_serialization_types_macros::AutoFrom;
use versioned::Versioned;

/// wrapper with an observable conversion
#[derive(Debug, Clone, PartialEq, Default)]
pub struct W(pub i64);
impl From<i64> for W {
    fn from(v: i64) -> Self {
        W(v)
    }
}
impl From<W> for i64 {
    fn from(v: W) -> Self {
        v.0
    }
}
fn vec() -> Vec<i64> {
    let n = sym::choose(4);
    (0..n).map(|_| sym::i64()).collect()
}
fn opt() -> Option<i64> {
    if sym::bool() {
        Some(sym::i64())
    } else {
        None
    }
}
fn wv(v: &[i64], w: &[W]) -> bool {
    v.len() == w.len() && v.iter().zip(w).all(|(a, b)| *a == b.0)
}
fn wo(v: &Option<i64>, w: &Option<W>) -> bool {
    match (v, w) {
        (Some(a), Some(b)) => *a == b.0,
        (None, None) => true,
        _ => false,
    }
}

#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(Bar)]
#[auto_from(Bar2)]
#[auto_from(BarRev)]
pub struct Foo {
    pub a: i64,
    pub b: i64,
    pub v: Vec<i64>,
    pub o: Option<i64>,
    pub x: Box<i64>,
    pub v2: Vec<i64>,
    pub o2: Option<i64>,
    pub x2: Box<i64>,
    pub c: i64,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Bar {
    pub a: W,
    pub b: W,
    pub v: Vec<W>,
    pub o: Option<W>,
    pub x: Box<W>,
    pub v2: Vec<W>,
    pub o2: Option<W>,
    pub x2: Box<W>,
    pub c: W,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Bar2 {
    pub a: i64,
    pub b: W,
    pub v: Vec<i64>,
    pub o: Option<i64>,
    pub x: Box<W>,
    pub v2: Vec<W>,
    pub o2: Option<W>,
    pub x2: Box<i64>,
    pub c: i64,
}
/// same names, other order
#[derive(Debug, Clone, PartialEq)]
pub struct BarRev {
    pub c: W,
    pub x2: Box<W>,
    pub o2: Option<W>,
    pub v2: Vec<W>,
    pub x: Box<W>,
    pub o: Option<W>,
    pub v: Vec<W>,
    pub b: W,
    pub a: W,
}
fn foo() -> Foo {
    Foo { a: sym::i64(), b: sym::i64(), v: vec(), o: opt(), x: Box::new(sym::i64()), v2: vec(), o2: opt(), x2: Box::new(sym::i64()), c: sym::i64() }
}
fn same_bar(f: &Foo, b: &Bar) -> bool {
    (f.a == b.a.0) & (f.b == b.b.0) & (f.c == b.c.0) & (*f.x == b.x.0) & (*f.x2 == b.x2.0) & wv(&f.v, &b.v) & wv(&f.v2, &b.v2) & wo(&f.o, &b.o) & wo(&f.o2, &b.o2)
}
pub fn h_auto_named() {
    let f = foo();
    let b: Bar = f.clone().into();
    sym::check(same_bar(&f, &b), 1);
    let g: Foo = b.into();
    sym::check(g == f, 2);
    sym::cover(1);
}
pub fn h_auto_named2() {
    let f = foo();
    let b: Bar2 = f.clone().into();
    sym::check((f.a == b.a) & (f.b == b.b.0) & (f.c == b.c) & (*f.x == b.x.0) & (*f.x2 == *b.x2), 1);
    sym::check((f.v == b.v) & wv(&f.v2, &b.v2) & (f.o == b.o) & wo(&f.o2, &b.o2), 2);
    let g: Foo = b.into();
    sym::check(g == f, 3);
    sym::cover(1);
}
pub fn h_auto_reordered() {
    let f = foo();
    let b: BarRev = f.clone().into();
    sym::check((f.a == b.a.0) & (f.b == b.b.0) & (f.c == b.c.0) & (*f.x == b.x.0) & (*f.x2 == b.x2.0), 1);
    sym::check(wv(&f.v, &b.v) & wv(&f.v2, &b.v2) & wo(&f.o, &b.o) & wo(&f.o2, &b.o2), 2);
    let g: Foo = b.into();
    sym::check(g == f, 3);
    sym::cover(1);
}

#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(BarT)]
pub struct FooT(pub i64, pub Vec<i64>, pub Option<i64>, pub Box<i64>, pub i64, pub Option<i64>, pub Vec<i64>);
#[derive(Debug, Clone, PartialEq)]
pub struct BarT(pub W, pub Vec<W>, pub Option<W>, pub Box<W>, pub W, pub Option<W>, pub Vec<W>);
fn foot() -> FooT {
    FooT(sym::i64(), vec(), opt(), Box::new(sym::i64()), sym::i64(), opt(), vec())
}
fn same_bart(f: &FooT, b: &BarT) -> bool {
    (f.0 == b.0 .0) & wv(&f.1, &b.1) & wo(&f.2, &b.2) & (*f.3 == b.3 .0) & (f.4 == b.4 .0) & wo(&f.5, &b.5) & wv(&f.6, &b.6)
}
pub fn h_auto_unnamed() {
    let f = foot();
    let b: BarT = f.clone().into();
    sym::check(same_bart(&f, &b), 1);
    let g: FooT = b.into();
    sym::check(g == f, 2);
    sym::cover(1);
}
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(One)]
pub struct Single(pub i64);
#[derive(Debug, Clone, PartialEq)]
pub struct One(pub W);
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(Two)]
pub struct Pair(pub Box<i64>, pub Single);
#[derive(Debug, Clone, PartialEq)]
pub struct Two(pub Box<W>, pub One);
pub fn h_auto_unnamed_mix() {
    let p = Pair(Box::new(sym::i64()), Single(sym::i64()));
    let t: Two = p.clone().into();
    sym::check(t.0 .0 == *p.0 && t.1 .0 .0 == p.1 .0, 1);
    let q: Pair = t.into();
    sym::check(q == p, 2);
    sym::cover(1);
}

#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(BarE)]
pub enum FooE {
    A,
    B(i64),
    C(i64, Option<i64>, Vec<i64>, Box<i64>, i64),
    D { f: i64, g: i64 },
    E { f: i64, o: Option<i64>, v: Vec<i64>, x: Box<i64>, g: Option<i64> },
    F,
    G(Vec<i64>),
    H(Option<i64>),
    I(Box<i64>),
    J { v: Vec<i64> },
}
/// the same variants, declared in another order
#[derive(Debug, Clone, PartialEq)]
pub enum BarE {
    J { v: Vec<W> },
    I(Box<W>),
    F,
    H(Option<W>),
    A,
    E { g: Option<W>, x: Box<W>, f: W, v: Vec<W>, o: Option<W> },
    D { g: W, f: W },
    G(Vec<W>),
    C(W, Option<W>, Vec<W>, Box<W>, W),
    B(W),
}
fn fooe() -> FooE {
    match sym::choose(10) {
        0 => FooE::A,
        1 => FooE::B(sym::i64()),
        2 => FooE::C(sym::i64(), opt(), vec(), Box::new(sym::i64()), sym::i64()),
        3 => FooE::D { f: sym::i64(), g: sym::i64() },
        4 => FooE::E { f: sym::i64(), o: opt(), v: vec(), x: Box::new(sym::i64()), g: opt() },
        5 => FooE::F,
        6 => FooE::G(vec()),
        7 => FooE::H(opt()),
        8 => FooE::I(Box::new(sym::i64())),
        _ => FooE::J { v: vec() },
    }
}
fn same_e(f: &FooE, b: &BarE) -> bool {
    match (f, b) {
        (FooE::A, BarE::A) | (FooE::F, BarE::F) => true,
        (FooE::B(x), BarE::B(y)) => *x == y.0,
        (FooE::C(a, b, c, d, e), BarE::C(p, q, r, s, t)) => (*a == p.0) & wo(b, q) & wv(c, r) & (**d == s.0) & (*e == t.0),
        (FooE::D { f, g }, BarE::D { f: x, g: y }) => (*f == x.0) & (*g == y.0),
        (FooE::E { f, o, v, x, g }, BarE::E { f: f2, o: o2, v: v2, x: x2, g: g2 }) => (*f == f2.0) & wo(o, o2) & wv(v, v2) & (**x == x2.0) & wo(g, g2),
        (FooE::G(x), BarE::G(y)) => wv(x, y),
        (FooE::H(x), BarE::H(y)) => wo(x, y),
        (FooE::I(x), BarE::I(y)) => **x == y.0,
        (FooE::J { v }, BarE::J { v: w }) => wv(v, w),
        _ => false,
    }
}
pub fn h_auto_enum() {
    let f = fooe();
    let b: BarE = f.clone().into();
    sym::check(same_e(&f, &b), 1);
    let g: FooE = b.into();
    sym::check(g == f, 2);
    sym::cover(1);
}
pub fn h_auto_enum_back() {
    let b = match sym::choose(4) {
        0 => BarE::D { g: W(sym::i64()), f: W(sym::i64()) },
        1 => BarE::F,
        2 => BarE::H(opt().map(W)),
        _ => BarE::G(vec().into_iter().map(W).collect()),
    };
    let f: FooE = b.clone().into();
    sym::check(same_e(&f, &b), 1);
    let c: BarE = f.into();
    sym::check(c == b, 2);
    sym::cover(1);
}

type L1<T> = Versioned<T, 1>;
type L2<T> = Versioned<L1<T>, 200>;
type L3<T> = Versioned<L2<T>, 3000>;
type L4<T> = Versioned<L3<T>, 40000>;
macro_rules! lifted {
    ($f:expr, $ft:ty, $bt:ty, $same:expr) => {{
        let f: $ft = $f;
        let v1: L1<$bt> = f.clone().into();
        sym::check(v1.version == 1 && $same(&f, &v1.t), 1);
        let g: $ft = v1.into();
        sym::check(g == f, 2);
        let v2: L2<$bt> = f.clone().into();
        sym::check(v2.version == 200 && v2.t.version == 1 && $same(&f, &v2.t.t), 3);
        let g: $ft = v2.into();
        sym::check(g == f, 4);
        let v3: L3<$bt> = f.clone().into();
        sym::check(v3.version == 3000 && v3.t.version == 200 && v3.t.t.version == 1 && $same(&f, &v3.t.t.t), 5);
        let g: $ft = v3.into();
        sym::check(g == f, 6);
        let v4: L4<$bt> = f.clone().into();
        sym::check(v4.version == 40000 && v4.t.version == 3000 && v4.t.t.version == 200 && v4.t.t.t.version == 1 && $same(&f, &v4.t.t.t.t), 7);
        let g: $ft = v4.into();
        sym::check(g == f, 8);
        sym::cover(1);
    }};
}
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(SmallB)]
pub struct Small {
    pub a: i64,
    pub v: Vec<i64>,
    pub o: Option<i64>,
    pub b: i64,
}
#[derive(Debug, Clone, PartialEq)]
pub struct SmallB {
    pub a: W,
    pub v: Vec<W>,
    pub o: Option<W>,
    pub b: W,
}
pub fn h_auto_versioned() {
    lifted!(Small { a: sym::i64(), v: vec(), o: opt(), b: sym::i64() }, Small, SmallB, |f: &Small, b: &SmallB| (f.a == b.a.0) & (f.b == b.b.0) & wv(&f.v, &b.v) & wo(&f.o, &b.o))
}
pub fn h_auto_versioned_enum() {
    lifted!(fooe(), FooE, BarE, same_e)
}
pub fn h_auto_versioned_unnamed() {
    lifted!(foot(), FooT, BarT, same_bart)
}
/// container types written with a path, and fields that are themselves converted
#[derive(Debug, Clone, PartialEq, AutoFrom)]
#[auto_from(PathsB)]
pub struct Paths {
    pub v: std::vec::Vec<Single>,
    pub o: std::option::Option<Single>,
    pub x: std::boxed::Box<Single>,
    pub s: Single,
    pub e: FooE,
}
#[derive(Debug, Clone, PartialEq)]
pub struct PathsB {
    pub v: Vec<One>,
    pub o: Option<One>,
    pub x: Box<One>,
    pub s: One,
    pub e: BarE,
}
pub fn h_auto_paths() {
    let n = sym::choose(3);
    let p = Paths {
        v: (0..n).map(|_| Single(sym::i64())).collect(),
        o: opt().map(Single),
        x: Box::new(Single(sym::i64())),
        s: Single(sym::i64()),
        e: fooe(),
    };
    let q: PathsB = p.clone().into();
    sym::check(p.v.len() == q.v.len() && p.v.iter().zip(&q.v).all(|(a, b)| a.0 == b.0 .0), 1);
    sym::check(p.x.0 == q.x.0 .0 && p.s.0 == q.s.0 .0 && p.o.is_some() == q.o.is_some(), 2);
    sym::check(same_e(&p.e, &q.e), 3);
    let r: Paths = q.into();
    sym::check(r == p, 4);
    sym::cover(1);
}

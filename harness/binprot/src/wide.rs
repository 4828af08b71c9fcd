//! Shapes beyond the basic ones: many fields, many variants, one-letter and look-alike names, deep nesting.
use crate::rec_ref;
use crate::refm::*;
use crate::types::{put_tag, E3, P};
use serde::{Deserialize, Serialize};

/// a sum: `index => Variant { field : binding : type, .. }` (tuple variants have fields 0, 1, ..)
macro_rules! sum_ref {
    ($n:ident, $count:literal, $($ix:literal => $v:ident { $($f:tt : $b:ident : $t:ty),* })*) => {
        impl Ref for $n {
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $( $n::$v { $($f: $b),* } => { o.push($ix); $( $b.enc(o); )* } )* }
            }
            fn dec(c: &mut Cur) -> Option<Self> {
                match c.u8()? { $( $ix => Some($n::$v { $($f: <$t as Ref>::dec(c)?),* }), )* _ => None }
            }
            fn arb() -> Self {
                match sym::choose($count) { $( $ix => $n::$v { $($f: <$t as Ref>::arb()),* }, )* _ => unreachable!() }
            }
        }
    };
}
/// a polymorphic variant: `number, "name" => Variant { .. }`
macro_rules! poly_ref {
    ($n:ident, $count:literal, $($ix:literal, $name:literal => $v:ident { $($f:tt : $b:ident : $t:ty),* })*) => {
        impl Ref for $n {
            fn enc(&self, o: &mut Vec<u8>) {
                match self { $( $n::$v { $($f: $b),* } => { put_tag($name, o); $( $b.enc(o); )* } )* }
            }
            fn dec(c: &mut Cur) -> Option<Self> {
                let t = c.le(4)?;
                if t & 1 == 0 { return None; }
                let t = (t >> 1) as u32;
                $( if t == polyvar_hash($name) { return Some($n::$v { $($f: <$t as Ref>::dec(c)?),* }); } )*
                None
            }
            fn arb() -> Self {
                match sym::choose($count) { $( $ix => $n::$v { $($f: <$t as Ref>::arb()),* }, )* _ => unreachable!() }
            }
        }
    };
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum W {
    A(u8, u8, u8),
    B(u8, bool, u8, u8, u8, i16),
    C { a: u8, b: i16, c: u8 },
    D { a: u8, b: u8, c: bool, d: u8, e: i8 },
    E { a: u8 },
    F(),
    G {},
    H(Vec<u8>, u8),
    I { v: Vec<bool>, w: Option<u8>, z: u8 },
    J(u8, u8, u8, u8),
    K { a: E3, b: E3, c: Option<E3>, d: u8 },
}
sum_ref!(W, 11,
    0 => A { 0: a: u8, 1: b: u8, 2: c: u8 }
    1 => B { 0: a: u8, 1: b: bool, 2: c: u8, 3: d: u8, 4: e: u8, 5: f: i16 }
    2 => C { a: a: u8, b: b: i16, c: c: u8 }
    3 => D { a: a: u8, b: b: u8, c: c: bool, d: d: u8, e: e: i8 }
    4 => E { a: a: u8 }
    5 => F { }
    6 => G { }
    7 => H { 0: a: Vec<u8>, 1: b: u8 }
    8 => I { v: v: Vec<bool>, w: w: Option<u8>, z: z: u8 }
    9 => J { 0: a: u8, 1: b: u8, 2: c: u8, 3: d: u8 }
    10 => K { a: a: E3, b: b: E3, c: c: Option<E3>, d: d: u8 });

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct WR {
    pub a: u8,
    pub b: u8,
    pub c: bool,
    pub d: i16,
    pub e: u8,
    pub f: (),
    pub g: u8,
    pub h: char,
    pub i: u8,
    pub j: Option<u8>,
    pub k: u8,
    pub l: u8,
}
rec_ref!(WR { a: u8, b: u8, c: bool, d: i16, e: u8, f: (), g: u8, h: char, i: u8, j: Option<u8>, k: u8, l: u8 });

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct WT(pub u8, pub bool, pub u8, pub u8, pub i8, pub u8, pub u8, pub u8, pub u8);
impl Ref for WT {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o);
        self.3.enc(o);
        self.4.enc(o);
        self.5.enc(o);
        self.6.enc(o);
        self.7.enc(o);
        self.8.enc(o);
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(WT(Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?))
    }
    fn arb() -> Self {
        WT(Ref::arb(), Ref::arb(), Ref::arb(), Ref::arb(), Ref::arb(), Ref::arb(), Ref::arb(), Ref::arb(), Ref::arb())
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct One {
    pub a: i16,
}
rec_ref!(One { a: i16 });

/// look-alike, short, long, unsorted names; every payload shape
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename = "Polyvar")]
pub enum Q {
    B(u8),
    A,
    Ab(u8, u8, u8),
    Ba { x: u8, y: bool, z: u8 },
    Zzzz,
    #[serde(rename = "a")]
    Small(Option<u8>),
    #[serde(rename = "aB")]
    SmallB(Box<R>),
    #[serde(rename = "_0'")]
    Odd { a: i16 },
    #[serde(rename = "aaaa")]
    Aaaa(u8, u8, u8, u8),
    Ok(Vec<u8>),
    Err { a: u8, b: u8, c: u8, d: u8 },
    #[serde(rename = "")]
    Nameless(u8),
}
poly_ref!(Q, 12,
    0, b"B" => B { 0: a: u8 }
    1, b"A" => A { }
    2, b"Ab" => Ab { 0: a: u8, 1: b: u8, 2: c: u8 }
    3, b"Ba" => Ba { x: x: u8, y: y: bool, z: z: u8 }
    4, b"Zzzz" => Zzzz { }
    5, b"a" => Small { 0: a: Option<u8> }
    6, b"aB" => SmallB { 0: a: Box<R> }
    7, b"_0'" => Odd { a: a: i16 }
    8, b"aaaa" => Aaaa { 0: a: u8, 1: b: u8, 2: c: u8, 3: d: u8 }
    9, b"Ok" => Ok { 0: a: Vec<u8> }
    10, b"Err" => Err { a: a: u8, b: b: u8, c: c: u8, d: d: u8 }
    11, b"" => Nameless { 0: a: u8 });

/// sums and polymorphic variants inside one another
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum R {
    X(E3, u8),
    Y { e: E3, o: Option<E3> },
    Z(P),
}
sum_ref!(R, 3,
    0 => X { 0: a: E3, 1: b: u8 }
    1 => Y { e: e: E3, o: o: Option<E3> }
    2 => Z { 0: a: P });

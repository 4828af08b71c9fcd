//! The types the harnesses instantiate the (de)serializer with: one for every serde construct the
//! crate supports, alone and nested.
use crate::rec_ref;
use crate::refm::*;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum E3 {
    A,
    B,
    C,
}
impl Ref for E3 {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(match self {
            E3::A => 0,
            E3::B => 1,
            E3::C => 2,
        })
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        match c.u8()? {
            0 => Some(E3::A),
            1 => Some(E3::B),
            2 => Some(E3::C),
            _ => None,
        }
    }
    fn arb() -> Self {
        match sym::choose(3) {
            0 => E3::A,
            1 => E3::B,
            _ => E3::C,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub a: i32,
    pub b: bool,
    pub c: E3,
    pub d: u8,
}
rec_ref!(Rec { a: i32, b: bool, c: E3, d: u8 });

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tup(pub i16, pub char, pub Option<u8>);
impl Ref for Tup {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o);
        self.1.enc(o);
        self.2.enc(o);
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(Tup(Ref::dec(c)?, Ref::dec(c)?, Ref::dec(c)?))
    }
    fn arb() -> Self {
        Tup(Ref::arb(), Ref::arb(), Ref::arb())
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct New(pub i64);
impl Ref for New {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(New(Ref::dec(c)?))
    }
    fn arb() -> Self {
        New(Ref::arb())
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Unit;
impl Ref for Unit {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(0)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        <()>::dec(c).map(|_| Unit)
    }
    fn arb() -> Self {
        Unit
    }
}

/// every variant shape, and recursion
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum V {
    A,
    B(i16),
    C(bool, u8),
    D { x: u16, y: Option<bool> },
    E(Box<V>),
    F(()),
    G((u8, char)),
}
impl V {
    fn arb_d(depth: u8) -> V {
        match sym::choose(if depth == 0 { 6 } else { 7 }) {
            0 => V::A,
            1 => V::B(Ref::arb()),
            2 => V::C(Ref::arb(), Ref::arb()),
            3 => V::D { x: Ref::arb(), y: Ref::arb() },
            4 => V::F(()),
            5 => V::G(Ref::arb()),
            _ => V::E(Box::new(V::arb_d(depth - 1))),
        }
    }
}
impl Ref for V {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            V::A => o.push(0),
            V::B(a) => {
                o.push(1);
                a.enc(o)
            }
            V::C(a, b) => {
                o.push(2);
                a.enc(o);
                b.enc(o)
            }
            V::D { x, y } => {
                o.push(3);
                x.enc(o);
                y.enc(o)
            }
            V::E(v) => {
                o.push(4);
                v.enc(o)
            }
            V::F(u) => {
                o.push(5);
                u.enc(o)
            }
            V::G(t) => {
                o.push(6);
                t.enc(o)
            }
        }
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(match c.u8()? {
            0 => V::A,
            1 => V::B(Ref::dec(c)?),
            2 => V::C(Ref::dec(c)?, Ref::dec(c)?),
            3 => V::D { x: Ref::dec(c)?, y: Ref::dec(c)? },
            4 => V::E(Box::new(V::dec(c)?)),
            5 => V::F(Ref::dec(c)?),
            6 => V::G(Ref::dec(c)?),
            _ => return None,
        })
    }
    fn arb() -> Self {
        V::arb_d(2)
    }
}

/// polymorphic variant: 4 byte tag from the hash of the name, low bit set
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(rename = "Polyvar")]
pub enum P {
    One,
    Two(i16),
    A(u8, bool),
    Quad { x: Option<u8> },
    B,
}
pub fn put_tag(name: &[u8], o: &mut Vec<u8>) {
    put_le(o, (polyvar_hash(name) as u64) << 1 | 1, 4)
}
impl Ref for P {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            P::One => put_tag(b"One", o),
            P::Two(v) => {
                put_tag(b"Two", o);
                v.enc(o)
            }
            P::A(a, b) => {
                put_tag(b"A", o);
                a.enc(o);
                b.enc(o)
            }
            P::Quad { x } => {
                put_tag(b"Quad", o);
                x.enc(o)
            }
            P::B => put_tag(b"B", o),
        }
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        let t = c.le(4)?;
        // the low bit marks an OCaml immediate
        if t & 1 == 0 {
            return None;
        }
        let t = (t >> 1) as u32;
        if t == polyvar_hash(b"One") {
            Some(P::One)
        } else if t == polyvar_hash(b"Two") {
            Some(P::Two(Ref::dec(c)?))
        } else if t == polyvar_hash(b"A") {
            Some(P::A(Ref::dec(c)?, Ref::dec(c)?))
        } else if t == polyvar_hash(b"Quad") {
            Some(P::Quad { x: Ref::dec(c)? })
        } else if t == polyvar_hash(b"B") {
            Some(P::B)
        } else {
            None
        }
    }
    fn arb() -> Self {
        match sym::choose(5) {
            0 => P::One,
            1 => P::Two(Ref::arb()),
            2 => P::A(Ref::arb(), Ref::arb()),
            3 => P::Quad { x: Ref::arb() },
            _ => P::B,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Inner {
    pub k: Option<Tag>,
    pub l: Vec<E3>,
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Tag(pub u8, pub bool);
impl Ref for Tag {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o);
        self.1.enc(o);
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(Tag(Ref::dec(c)?, Ref::dec(c)?))
    }
    fn arb() -> Self {
        Tag(Ref::arb(), Ref::arb())
    }
}
rec_ref!(Inner { k: Option<Tag>, l: Vec<E3> });
/// records inside records inside lists inside options
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Outer {
    pub id: New8,
    pub inner: Inner,
    pub arr: [Option<()>; 2],
    pub tail: (bool, Unit),
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct New8(pub i8);
impl Ref for New8 {
    fn enc(&self, o: &mut Vec<u8>) {
        self.0.enc(o)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(New8(Ref::dec(c)?))
    }
    fn arb() -> Self {
        New8(Ref::arb())
    }
}
rec_ref!(Outer { id: New8, inner: Inner, arr: [Option<()>; 2], tail: (bool, Unit) });

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Empty {}
rec_ref!(Empty {});

/// a record of strings, floats and chars
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Text {
    pub c: char,
    pub s: String,
    pub f: F32,
}
rec_ref!(Text { c: char, s: String, f: F32 });

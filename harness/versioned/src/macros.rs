//! the `macro_rules` conversions of the `versioned` crate
use crate::auto::W;
use versioned::*;

#[derive(Debug, Clone, PartialEq)]
pub struct Plain {
    a: i64,
    b: u8,
}
impl_from_versioned!(Plain);
pub fn h_mac_versioned() {
    let p = Plain { a: sym::i64(), b: sym::u8() };
    let v: Versioned<Plain, 3> = p.clone().into();
    sym::check(v.version == 3, 1);
    let q: Plain = v.into();
    sym::check(q == p, 2);
    let v: Versioned<Versioned<Plain, 3>, 9> = p.clone().into();
    sym::check(v.version == 9 && v.t.version == 3, 3);
    let q: Plain = v.into();
    sym::check(q == p, 4);
    sym::cover(1);
}

#[derive(Debug, Clone, PartialEq)]
pub struct Nt(i64);
type NtV = Versioned<i64, 5>;
impl_from_for_newtype!(Nt, NtV);
#[derive(Debug, Clone, PartialEq)]
pub struct Nt2(i64);
type NtV2 = Versioned<Versioned<i64, 6>, 7>;
impl_from_for_newtype!(Nt2, NtV2);
pub fn h_mac_newtype() {
    let n = Nt(sym::i64());
    let v: NtV = n.clone().into();
    sym::check(v.version == 5 && v.t == n.0, 1);
    let m: Nt = v.into();
    sym::check(m == n, 2);
    let n = Nt2(sym::i64());
    let v: NtV2 = n.clone().into();
    sym::check(v.version == 7 && v.t.version == 6 && v.t.t == n.0, 3);
    let m: Nt2 = v.into();
    sym::check(m == n, 4);
    sym::cover(1);
}

#[derive(Debug, Clone, PartialEq)]
pub struct Orig(i64);
#[derive(Debug, Clone, PartialEq)]
pub struct Json(i64);
type OrigV = Versioned<W, 4>;
impl From<Orig> for OrigV {
    fn from(o: Orig) -> Self {
        W(o.0).into()
    }
}
impl From<OrigV> for Orig {
    fn from(o: OrigV) -> Self {
        Orig(o.t.0)
    }
}
impl From<Json> for OrigV {
    fn from(o: Json) -> Self {
        W(o.0 ^ 1).into()
    }
}
impl From<OrigV> for Json {
    fn from(o: OrigV) -> Self {
        Json(o.t.0 ^ 1)
    }
}
impl_from_with_proxy!(Orig, OrigV, Json);
pub fn h_mac_proxy() {
    let o = Orig(sym::i64());
    let j: Json = o.clone().into();
    sym::check(j.0 == o.0 ^ 1, 1);
    let p: Orig = j.into();
    sym::check(p == o, 2);
    sym::cover(1);
}

#[derive(Debug, Clone, PartialEq)]
pub struct Far(i64);
impl From<Far> for W {
    fn from(f: Far) -> W {
        W(f.0 ^ 2)
    }
}
impl From<W> for Far {
    fn from(w: W) -> Far {
        Far(w.0 ^ 2)
    }
}
type FarV = Versioned<Versioned<W, 8>, 11>;
impl_from_for_versioned_with_proxy!(Far, W, FarV);
pub fn h_mac_versioned_proxy() {
    let f = Far(sym::i64());
    let v: FarV = f.clone().into();
    sym::check(v.version == 11 && v.t.version == 8 && v.t.t.0 == f.0 ^ 2, 1);
    let g: Far = v.into();
    sym::check(g == f, 2);
    sym::cover(1);
}
#[derive(Debug, Clone, PartialEq)]
pub struct Gen(i64);
impl From<Gen> for W {
    fn from(f: Gen) -> W {
        W(f.0 ^ 4)
    }
}
impl From<W> for Gen {
    fn from(w: W) -> Gen {
        Gen(w.0 ^ 4)
    }
}
type GenV = Versioned<W, 21>;
impl_from_for_generic_with_proxy!(Gen, W, GenV);
pub fn h_mac_generic_proxy() {
    let f = Gen(sym::i64());
    let v: GenV = f.clone().into();
    sym::check(v.version == 21 && v.t.0 == f.0 ^ 4, 1);
    let g: Gen = v.into();
    sym::check(g == f, 2);
    sym::cover(1);
}

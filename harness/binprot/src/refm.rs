//! Reference model of the bin_prot wire format, written from the format's specification and
//! independent of the crate under test: a canonical encoder, the language a decoder accepts, and a
//! symbolic generator for every type used by the harnesses.

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0 }
    }
    pub fn u8(&mut self) -> Option<u8> {
        if self.p < self.b.len() {
            self.p += 1;
            Some(self.b[self.p - 1])
        } else {
            None
        }
    }
    /// little endian, n bytes
    pub fn le(&mut self, n: usize) -> Option<u64> {
        if n > self.b.len() - self.p {
            return None;
        }
        let mut v = 0u64;
        let mut i = 0;
        while i < n {
            v |= (self.b[self.p + i] as u64) << (8 * i);
            i += 1;
        }
        self.p += n;
        Some(v)
    }
    pub fn take(&mut self, n: u64) -> Option<&'a [u8]> {
        if n > (self.b.len() - self.p) as u64 {
            return None;
        }
        // one path per length
        let n = sym::concretize(n) as usize;
        self.p += n;
        Some(&self.b[self.p - n..self.p])
    }
    pub fn done(&self) -> bool {
        self.p == self.b.len()
    }
}

pub fn put_le(o: &mut Vec<u8>, v: u64, n: usize) {
    let mut i = 0;
    while i < n {
        o.push((v >> (8 * i)) as u8);
        i += 1;
    }
}

/// bin_prot "int": shortest of the five signed forms
pub fn enc_int(v: i64, o: &mut Vec<u8>) {
    if v >= 0 && v < 128 {
        o.push(v as u8)
    } else if v < 0 && v >= -128 {
        o.push(0xff);
        o.push(v as u8)
    } else if v >= i16::MIN as i64 && v <= i16::MAX as i64 {
        o.push(0xfe);
        put_le(o, v as u64, 2)
    } else if v >= i32::MIN as i64 && v <= i32::MAX as i64 {
        o.push(0xfd);
        put_le(o, v as u64, 4)
    } else {
        o.push(0xfc);
        put_le(o, v as u64, 8)
    }
}
/// any of the five forms, minimal or not
pub fn dec_int(c: &mut Cur) -> Option<i64> {
    match c.u8()? {
        b if b < 0x80 => Some(b as i64),
        0xff => Some(c.le(1)? as i8 as i64),
        0xfe => Some(c.le(2)? as i16 as i64),
        0xfd => Some(c.le(4)? as i32 as i64),
        0xfc => Some(c.le(8)? as i64),
        _ => None,
    }
}
/// bin_prot "nat0": shortest of the four unsigned forms
pub fn enc_nat0(v: u64, o: &mut Vec<u8>) {
    if v < 0x80 {
        o.push(v as u8)
    } else if v < 0x1_0000 {
        o.push(0xfe);
        put_le(o, v, 2)
    } else if v < 0x1_0000_0000 {
        o.push(0xfd);
        put_le(o, v, 4)
    } else {
        o.push(0xfc);
        put_le(o, v, 8)
    }
}
pub fn dec_nat0(c: &mut Cur) -> Option<u64> {
    match c.u8()? {
        b if b < 0x80 => Some(b as u64),
        0xfe => c.le(2),
        0xfd => c.le(4),
        0xfc => c.le(8),
        _ => None,
    }
}
/// hash of a polymorphic variant's name: base 223, 31 bits
pub fn polyvar_hash(s: &[u8]) -> u32 {
    let mut h = 0u32;
    for b in s {
        h = h.wrapping_mul(223).wrapping_add(*b as u32);
    }
    h & 0x7fff_ffff
}

pub trait Ref: Sized + PartialEq {
    fn enc(&self, o: &mut Vec<u8>);
    fn dec(c: &mut Cur) -> Option<Self>;
    fn arb() -> Self;
}

macro_rules! int_ref {
    ($($t:ident),*) => {$(
        impl Ref for $t {
            fn enc(&self, o: &mut Vec<u8>) { enc_int(*self as i64, o) }
            fn dec(c: &mut Cur) -> Option<Self> {
                let v = dec_int(c)?;
                if v >= $t::MIN as i64 && v <= $t::MAX as i64 { Some(v as $t) } else { None }
            }
            fn arb() -> Self { sym::$t() }
        }
    )*}
}
int_ref!(i8, i16, i32, i64, u16, u32);
impl Ref for u64 {
    fn enc(&self, o: &mut Vec<u8>) {
        enc_int(*self as i64, o)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(dec_int(c)? as u64)
    }
    fn arb() -> Self {
        sym::u64()
    }
}
impl Ref for u8 {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        c.u8()
    }
    fn arb() -> Self {
        sym::u8()
    }
}
impl Ref for bool {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        match c.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
    fn arb() -> Self {
        sym::bool()
    }
}
impl Ref for () {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(0)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        if c.u8()? == 0 {
            Some(())
        } else {
            None
        }
    }
    fn arb() -> Self {}
}
impl Ref for char {
    fn enc(&self, o: &mut Vec<u8>) {
        o.push(*self as u32 as u8)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(c.u8()? as char)
    }
    fn arb() -> Self {
        sym::u8() as char
    }
}
impl<T: Ref> Ref for Option<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                v.enc(o)
            }
        }
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        match c.u8()? {
            0 => Some(None),
            1 => Some(Some(T::dec(c)?)),
            _ => None,
        }
    }
    fn arb() -> Self {
        if sym::bool() {
            Some(T::arb())
        } else {
            None
        }
    }
}
impl<T: Ref> Ref for Box<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        (**self).enc(o)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(Box::new(T::dec(c)?))
    }
    fn arb() -> Self {
        Box::new(T::arb())
    }
}
/// longest list made by `arb`
pub const LIST: u8 = 3;
impl<T: Ref> Ref for Vec<T> {
    fn enc(&self, o: &mut Vec<u8>) {
        enc_nat0(self.len() as u64, o);
        for v in self {
            v.enc(o)
        }
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        let n = dec_nat0(c)?;
        // every element type used here takes at least one byte
        if n > (c.b.len() - c.p) as u64 {
            return None;
        }
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
            v.push(T::dec(c)?);
            i += 1;
        }
        Some(v)
    }
    fn arb() -> Self {
        let n = sym::choose(LIST + 1);
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::arb());
        }
        v
    }
}
impl Ref for String {
    fn enc(&self, o: &mut Vec<u8>) {
        enc_nat0(self.len() as u64, o);
        for b in self.as_bytes() {
            o.push(*b)
        }
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        let n = dec_nat0(c)?;
        let b = c.take(n)?;
        match std::str::from_utf8(b) {
            Ok(s) => Some(s.to_string()),
            Err(_) => None,
        }
    }
    fn arb() -> Self {
        let n = sym::choose(5) as usize;
        let mut v = vec![0u8; n];
        sym::fill(&mut v);
        match String::from_utf8(v) {
            Ok(s) => s,
            Err(_) => {
                sym::assume(false);
                String::new()
            }
        }
    }
}
impl<T: Ref, const N: usize> Ref for [T; N] {
    fn enc(&self, o: &mut Vec<u8>) {
        for v in self {
            v.enc(o)
        }
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        let mut v = Vec::new();
        for _ in 0..N {
            v.push(T::dec(c)?);
        }
        v.try_into().ok()
    }
    fn arb() -> Self {
        std::array::from_fn(|_| T::arb())
    }
}
macro_rules! tup_ref {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Ref),*> Ref for ($($n,)*) {
            fn enc(&self, o: &mut Vec<u8>) { $(self.$i.enc(o);)* }
            fn dec(c: &mut Cur) -> Option<Self> { Some(($($n::dec(c)?,)*)) }
            fn arb() -> Self { ($($n::arb(),)*) }
        }
    }
}
tup_ref!(A 0);
tup_ref!(A 0, B 1);
tup_ref!(A 0, B 1, C 2);
tup_ref!(A 0, B 1, C 2, D 3);
tup_ref!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);

/// floats compared by their bits, NaNs included
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct F32(pub f32);
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub struct F64(pub f64);
impl PartialEq for F32 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl PartialEq for F64 {
    fn eq(&self, o: &Self) -> bool {
        self.0.to_bits() == o.0.to_bits()
    }
}
impl Ref for F32 {
    fn enc(&self, o: &mut Vec<u8>) {
        put_le(o, self.0.to_bits() as u64, 4)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(F32(f32::from_bits(c.le(4)? as u32)))
    }
    fn arb() -> Self {
        F32(f32::from_bits(sym::u32()))
    }
}
impl Ref for F64 {
    fn enc(&self, o: &mut Vec<u8>) {
        put_le(o, self.0.to_bits(), 8)
    }
    fn dec(c: &mut Cur) -> Option<Self> {
        Some(F64(f64::from_bits(c.le(8)?)))
    }
    fn arb() -> Self {
        F64(f64::from_bits(sym::u64()))
    }
}

/// reference for records: fields in declaration order, nothing else
#[macro_export]
macro_rules! rec_ref {
    ($n:ident { $($f:ident : $t:ty),* }) => {
        impl $crate::refm::Ref for $n {
            fn enc(&self, _o: &mut Vec<u8>) { $($crate::refm::Ref::enc(&self.$f, _o);)* }
            fn dec(_c: &mut $crate::refm::Cur) -> Option<Self> { Some($n { $($f: <$t as $crate::refm::Ref>::dec(_c)?),* }) }
            fn arb() -> Self { $n { $($f: <$t as $crate::refm::Ref>::arb()),* } }
        }
    }
}

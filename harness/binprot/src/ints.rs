//! integers and nat0 through the extension traits: every value, every width, every reader outcome
use crate::refm::*;
use bin_prot::{integers, ReadBinProtExt, WriteBinProtExt};
use serde::{Deserialize, Serialize};

fn int_w<X: Into<i64> + Copy>(x: X) {
    let mut out = Vec::new();
    let n = out.bin_write_integer(x);
    let mut want = Vec::new();
    enc_int(x.into(), &mut want);
    sym::check(matches!(n, Ok(k) if k == want.len()), 1);
    sym::check(out == want, 2);
    let mut r = &out[..];
    match r.bin_read_integer::<i64>() {
        Ok(y) => sym::check(y == x.into(), 3),
        Err(_) => sym::check(false, 4),
    }
    sym::check(r.is_empty(), 5);
    sym::cover(1);
}
pub fn h_int_write() {
    match sym::choose(7) {
        0 => int_w(sym::i8()),
        1 => int_w(sym::i16()),
        2 => int_w(sym::i32()),
        3 => int_w(sym::i64()),
        4 => int_w(sym::u8()),
        5 => int_w(sym::u16()),
        _ => int_w(sym::u32()),
    }
}

macro_rules! int_r {
    ($t:ty, $b:expr) => {{
        let mut c = Cur::new(&$b);
        let want = match dec_int(&mut c) {
            Some(v) => {
                if v as i128 >= <$t>::MIN as i128 && v as i128 <= <$t>::MAX as i128 {
                    Some(v as $t)
                } else {
                    None
                }
            }
            None => None,
        };
        let mut r = &$b[..];
        match (r.bin_read_integer::<$t>(), want) {
            (Ok(v), Some(w)) => {
                sym::check(v == w, 11);
                sym::check(r.len() == $b.len() - c.p, 12);
                sym::cover(1)
            }
            (Err(_), None) => sym::cover(2),
            (Ok(_), None) => sym::check(false, 13),
            (Err(_), Some(_)) => sym::check(false, 14),
        }
    }};
}
/// every input of up to 10 bytes, every destination width
pub fn h_int_read() {
    let b = crate::props::input(10);
    match sym::choose(10) {
        0 => int_r!(i8, b),
        1 => int_r!(i16, b),
        2 => int_r!(i32, b),
        3 => int_r!(i64, b),
        4 => int_r!(u8, b),
        5 => int_r!(u16, b),
        6 => int_r!(u32, b),
        7 => int_r!(u64, b),
        8 => int_r!(usize, b),
        _ => int_r!(isize, b),
    }
}

fn nat_w<X: Into<u64> + Copy>(x: X) {
    let mut out = Vec::new();
    let n = out.bin_write_nat0(x);
    let mut want = Vec::new();
    enc_nat0(x.into(), &mut want);
    sym::check(matches!(n, Ok(k) if k == want.len()), 1);
    sym::check(out == want, 2);
    let mut r = &out[..];
    match r.bin_read_nat0::<u64>() {
        Ok(y) => sym::check(y == x.into(), 3),
        Err(_) => sym::check(false, 4),
    }
    sym::check(r.is_empty(), 5);
    sym::cover(1);
}
pub fn h_nat_write() {
    match sym::choose(4) {
        0 => nat_w(sym::u8()),
        1 => nat_w(sym::u16()),
        2 => nat_w(sym::u32()),
        _ => nat_w(sym::u64()),
    }
}
/// a list that says how long it is
struct Claim(usize);
impl serde::Serialize for Claim {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde::ser::SerializeSeq::end(s.serialize_seq(Some(self.0))?)
    }
}
/// the length of a list of any length
pub fn h_list_len() {
    let n = sym::u64();
    let mut got = Vec::new();
    sym::check(bin_prot::to_writer(&mut got, &Claim(n as usize)).is_ok(), 1);
    let mut want = Vec::new();
    enc_nat0(n, &mut want);
    sym::check(got == want, 2);
    sym::cover(1);
}
macro_rules! nat_r {
    ($t:ty, $b:expr) => {{
        let mut c = Cur::new(&$b);
        let want = match dec_nat0(&mut c) {
            Some(v) if v <= <$t>::MAX as u64 => Some(v as $t),
            _ => None,
        };
        let mut r = &$b[..];
        match (r.bin_read_nat0::<$t>(), want) {
            (Ok(v), Some(w)) => {
                sym::check(v == w, 11);
                sym::check(r.len() == $b.len() - c.p, 12);
                sym::cover(1)
            }
            (Err(_), None) => sym::cover(2),
            (Ok(_), None) => sym::check(false, 13),
            (Err(_), Some(_)) => sym::check(false, 14),
        }
    }};
}
pub fn h_nat_read() {
    let b = crate::props::input(10);
    match sym::choose(5) {
        0 => nat_r!(u8, b),
        1 => nat_r!(u16, b),
        2 => nat_r!(u32, b),
        3 => nat_r!(u64, b),
        _ => nat_r!(usize, b),
    }
}

#[derive(Serialize, Deserialize)]
struct WithNat {
    #[serde(with = "integers::nat0")]
    a: u32,
    b: u8,
    #[serde(with = "integers::nat0")]
    c: u64,
}
#[derive(Serialize, Deserialize)]
struct WithInt {
    #[serde(with = "integers::integer")]
    a: i32,
    b: u8,
    #[serde(with = "integers::integer")]
    c: i64,
}
/// fields annotated with the nat0 / integer modules are written in that form
pub fn h_with_nat_write() {
    let v = WithNat { a: sym::u32(), b: sym::u8(), c: sym::u64() };
    let mut out = Vec::new();
    sym::check(bin_prot::to_writer(&mut out, &v).is_ok(), 1);
    let mut want = Vec::new();
    enc_nat0(v.a as u64, &mut want);
    want.push(v.b);
    enc_nat0(v.c, &mut want);
    sym::check(out == want, 2);
    sym::cover(1);
}
pub fn h_with_int_write() {
    let v = WithInt { a: sym::i32(), b: sym::u8(), c: sym::i64() };
    let mut out = Vec::new();
    sym::check(bin_prot::to_writer(&mut out, &v).is_ok(), 1);
    let mut want = Vec::new();
    enc_int(v.a as i64, &mut want);
    want.push(v.b);
    enc_int(v.c, &mut want);
    sym::check(out == want, 2);
    sym::cover(1);
}
/// and can be read back (known finding: they cannot)
pub fn h_with_nat_read() {
    let v = WithNat { a: 5, b: sym::u8(), c: 6 };
    let mut out = Vec::new();
    bin_prot::to_writer(&mut out, &v).ok();
    match bin_prot::from_reader_strict::<_, WithNat>(&out[..]) {
        Ok(w) => sym::check(w.a == v.a && w.b == v.b && w.c == v.c, 2),
        Err(_) => sym::check(false, 1),
    }
}
pub fn h_with_int_read() {
    let v = WithInt { a: 5, b: sym::u8(), c: 6 };
    let mut out = Vec::new();
    bin_prot::to_writer(&mut out, &v).ok();
    match bin_prot::from_reader_strict::<_, WithInt>(&out[..]) {
        Ok(w) => sym::check(w.a == v.a && w.b == v.b && w.c == v.c, 2),
        Err(_) => sym::check(false, 1),
    }
}

/// primitive extension methods other than integers
pub fn h_prim_ext() {
    let mut o = Vec::new();
    let b = sym::u8();
    let (x, y, t) = (sym::u32(), sym::u64(), sym::u32() & 0x7fff_ffff);
    sym::check(o.bin_write_unit().is_ok(), 1);
    sym::check(o.bin_write_bool(b & 1 == 1).is_ok(), 2);
    sym::check(matches!(o.bin_write_char(b as char), Ok(1)), 3);
    sym::check(matches!(o.bin_write_float32(&f32::from_bits(x)), Ok(4)), 4);
    sym::check(matches!(o.bin_write_float64(&f64::from_bits(y)), Ok(8)), 5);
    sym::check(matches!(o.bin_write_variant_index(b), Ok(1)), 6);
    sym::check(matches!(o.bin_write_polyvar_tag(t), Ok(4)), 7);
    let mut want = vec![0, b & 1, b];
    put_le(&mut want, x as u64, 4);
    put_le(&mut want, y, 8);
    want.push(b);
    put_le(&mut want, (t as u64) << 1 | 1, 4);
    sym::check(o == want, 8);
    let mut r = &o[..];
    sym::check(r.bin_read_unit().is_ok(), 9);
    sym::check(matches!(r.bin_read_bool(), Ok(v) if v == (b & 1 == 1)), 10);
    sym::check(matches!(r.bin_read_char(), Ok(v) if v == b as char), 11);
    let mut r = &o[15..];
    sym::check(matches!(r.bin_read_variant_index(), Ok(v) if v == b), 12);
    sym::check(matches!(r.bin_read_polyvar_tag(), Ok(v) if v == t), 13);
    sym::cover(1);
}
/// chars that do not fit a byte are refused, the others are one byte
pub fn h_char_any() {
    let n = sym::u32();
    let c = match char::from_u32(n) {
        Some(c) => c,
        None => {
            sym::assume(false);
            'x'
        }
    };
    let mut o = Vec::new();
    let r = bin_prot::to_writer(&mut o, &c);
    if n < 256 {
        sym::check(r.is_ok(), 1);
        sym::check(o.len() == 1 && o[0] as u32 == n, 2);
        sym::cover(1);
    } else {
        sym::check(r.is_err(), 3);
        sym::check(o.is_empty(), 4);
        sym::cover(2);
    }
}

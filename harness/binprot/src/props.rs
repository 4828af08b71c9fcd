//! The properties, generic in the type.  Check ids are stable: they name the assertion in reports.
use crate::refm::*;
use bin_prot::error::Error;
use bin_prot::{from_reader, from_reader_strict, to_writer, Deserializer};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

pub trait T: Ref + Serialize + DeserializeOwned {}
impl<X: Ref + Serialize + DeserializeOwned> T for X {}

pub fn ser<X: T>(v: &X) -> Vec<u8> {
    let mut out = Vec::new();
    let r = to_writer(&mut out, v);
    sym::check(r.is_ok(), 1);
    out
}

/// serialization emits exactly the bytes of the format
pub fn wire<X: T>() {
    let v = X::arb();
    let mut want = Vec::new();
    v.enc(&mut want);
    let out = ser(&v);
    sym::check(out.len() == want.len(), 2);
    sym::check(out == want, 3);
    sym::cover(1);
}

/// decode . encode = id, for the strict and the plain reader and for values in a row
pub fn round<X: T>() {
    let v = X::arb();
    let out = ser(&v);
    match from_reader_strict::<_, X>(&out[..]) {
        Ok(w) => sym::check(w == v, 11),
        Err(_) => sym::check(false, 10),
    }
    match from_reader::<_, X>(&out[..]) {
        Ok(w) => sym::check(w == v, 13),
        Err(_) => sym::check(false, 12),
    }
    // followed by another value through one deserializer: each reads its own bytes and no more
    let mut two = out.clone();
    to_writer(&mut two, &0x5a5au16).ok();
    two.extend_from_slice(&out);
    let mut de = Deserializer::from_reader(&two[..]);
    let a = X::deserialize(&mut de);
    let m = u16::deserialize(&mut de);
    let b = X::deserialize(&mut de);
    match (a, m, b) {
        (Ok(a), Ok(m), Ok(b)) => {
            sym::check(a == v, 14);
            sym::check(m == 0x5a5a, 15);
            sym::check(b == v, 16);
        }
        _ => sym::check(false, 17),
    }
    sym::check(u8::deserialize(&mut de).is_err(), 18);
    sym::cover(1);
}

/// symbolic input of every length up to n
pub fn input(n: u8) -> Vec<u8> {
    let n = sym::choose(n + 1) as usize;
    let mut b = vec![0u8; n];
    sym::fill(&mut b);
    b
}

/// the decoder accepts exactly the language of the format and returns the value it denotes
pub fn accept<X: T>(n: u8) {
    let b = input(n);
    let mut c = Cur::new(&b);
    let want = X::dec(&mut c);
    match (from_reader::<_, X>(&b[..]), &want) {
        (Ok(v), Some(w)) => {
            sym::check(v == *w, 21);
            sym::cover(1)
        }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 22),
        (Err(_), Some(_)) => sym::check(false, 23),
    }
}

/// strict: a value is returned only if all input was used, and then it is the value
pub fn strict<X: T>(n: u8) {
    let b = input(n);
    let mut c = Cur::new(&b);
    let want = X::dec(&mut c);
    let rest = b.len() - c.p;
    match (from_reader_strict::<_, X>(&b[..]), want) {
        (Ok(v), Some(w)) => {
            sym::check(rest == 0, 31);
            sym::check(v == w, 32);
            sym::cover(1)
        }
        (Err(e), Some(_)) => {
            sym::check(rest > 0, 33);
            sym::check(matches!(e, Error::StreamNotFullyConsumed(k) if k == rest), 34);
            sym::cover(2)
        }
        (Err(e), None) => {
            sym::check(!matches!(e, Error::StreamNotFullyConsumed(_)), 35);
            sym::cover(3)
        }
        (Ok(_), None) => sym::check(false, 36),
    }
}

/// every proper prefix of an encoding is an error; bytes after it do not change the value
pub fn prefix<X: T>() {
    let v = X::arb();
    let out = ser(&v);
    let n = out.len();
    if n > 0 {
        let k = sym::choose(n as u8) as usize;
        sym::check(from_reader::<_, X>(&out[..k]).is_err(), 41);
        sym::check(from_reader_strict::<_, X>(&out[..k]).is_err(), 42);
        sym::cover(1);
    }
    let mut ext = out;
    let tail: [u8; 2] = sym::bytes();
    let t = 1 + sym::choose(2) as usize;
    ext.extend_from_slice(&tail[..t]);
    match from_reader::<_, X>(&ext[..]) {
        Ok(w) => sym::check(w == v, 43),
        Err(_) => sym::check(false, 44),
    }
    match from_reader_strict::<_, X>(&ext[..]) {
        Ok(_) => sym::check(false, 45),
        Err(e) => sym::check(matches!(e, Error::StreamNotFullyConsumed(k) if k == t), 46),
    }
    sym::cover(2);
}

/// whatever the bytes: an answer, no panic, no allocation the input does not pay for.
/// (panics and allocations above the limit are violations wherever they happen)
pub fn total<X: T>(n: u8) {
    let b = input(n);
    match from_reader::<_, X>(&b[..]) {
        Ok(_) => sym::cover(1),
        Err(_) => sym::cover(2),
    }
    match from_reader_strict::<_, X>(&b[..]) {
        Ok(_) => sym::cover(3),
        Err(_) => sym::cover(4),
    }
}

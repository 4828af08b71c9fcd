//! sequences around the sizes where the length prefix or the reader's buffer changes form
use crate::refm::*;
use bin_prot::{from_reader_strict, to_writer};
use serde::{Deserialize, Serialize};

fn vec_of(n: usize) {
    let mut v = vec![0u8; n];
    sym::fill(&mut v);
    let mut out = Vec::new();
    sym::check(to_writer(&mut out, &v).is_ok(), 1);
    let mut want = Vec::new();
    enc_nat0(n as u64, &mut want);
    want.extend_from_slice(&v);
    sym::check(out == want, 2);
    match from_reader_strict::<_, Vec<u8>>(&out[..]) {
        Ok(w) => sym::check(w == v, 3),
        Err(_) => sym::check(false, 4),
    }
    sym::cover(1);
}
fn str_of(n: usize) {
    // ascii content, so that the whole string is one path
    let mut v = vec![0u8; n];
    sym::fill(&mut v);
    for b in v.iter_mut() {
        *b &= 0x7f;
    }
    let s = match String::from_utf8(v) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut out = Vec::new();
    sym::check(to_writer(&mut out, &s).is_ok(), 1);
    let mut want = Vec::new();
    enc_nat0(n as u64, &mut want);
    want.extend_from_slice(s.as_bytes());
    sym::check(out == want, 2);
    match from_reader_strict::<_, String>(&out[..]) {
        Ok(w) => sym::check(w == s, 3),
        Err(_) => sym::check(false, 4),
    }
    sym::cover(1);
}
fn unit_of(n: usize) {
    let v = vec![(); n];
    let mut out = Vec::new();
    sym::check(to_writer(&mut out, &v).is_ok(), 1);
    let mut want = Vec::new();
    enc_nat0(n as u64, &mut want);
    sym::check(out.len() == want.len() + n, 2);
    sym::check(out[..want.len()] == want[..], 3);
    match from_reader_strict::<_, Vec<()>>(&out[..]) {
        Ok(w) => sym::check(w.len() == n, 4),
        Err(_) => sym::check(false, 5),
    }
    sym::cover(1);
}
const SMALL: [usize; 14] = [0, 1, 15, 16, 17, 31, 63, 64, 126, 127, 128, 129, 255, 256];
const LARGE: [usize; 8] = [257, 1023, 4096, 8190, 8191, 8192, 65535, 65536];
pub fn h_vec_small() {
    vec_of(SMALL[sym::choose(14) as usize])
}
pub fn h_vec_large() {
    vec_of(LARGE[sym::choose(8) as usize])
}
pub fn h_str_small() {
    str_of(SMALL[sym::choose(14) as usize])
}
pub fn h_str_large() {
    str_of(LARGE[sym::choose(4) as usize])
}
pub fn h_unit_small() {
    unit_of(SMALL[sym::choose(14) as usize])
}
pub fn h_unit_large() {
    unit_of(LARGE[sym::choose(8) as usize])
}

#[derive(Serialize, Deserialize)]
struct Straddle {
    pad: Vec<u8>,
    n: i64,
    f: F64,
    b: bool,
}
/// a value lying across the reader's 8 KiB buffer boundary at every offset
pub fn h_straddle() {
    let k = sym::choose(20) as usize;
    let v = Straddle { pad: vec![7u8; 8192 - 3 - 18 + k], n: sym::i64(), f: F64::arb(), b: sym::bool() };
    let mut out = Vec::new();
    sym::check(to_writer(&mut out, &v).is_ok(), 1);
    match from_reader_strict::<_, Straddle>(&out[..]) {
        Ok(w) => {
            sym::check(w.pad.len() == v.pad.len(), 2);
            sym::check(w.n == v.n && w.f == v.f && w.b == v.b, 3)
        }
        Err(_) => sym::check(false, 4),
    }
    sym::cover(1);
}
/// strictness when the rest of the input lies beyond the buffer
pub fn h_strict_boundary() {
    let k = sym::choose(4) as usize; // value ends 2 before .. 1 after the buffer boundary
    let extra = sym::choose(3) as usize;
    let v = vec![7u8; 8192 - 3 - 2 + k];
    let mut out = Vec::new();
    sym::check(to_writer(&mut out, &v).is_ok(), 1);
    let tail: [u8; 2] = sym::bytes();
    out.extend_from_slice(&tail[..extra]);
    let r = from_reader_strict::<_, Vec<u8>>(&out[..]);
    sym::check(r.is_ok() == (extra == 0), 2);
    sym::cover(if extra == 0 { 1 } else { 2 });
}

/// a length prefix larger than the input, in each of its forms: an error, at no cost
pub fn bomb() -> [u8; 12] {
    let b: [u8; 12] = sym::bytes();
    let mut c = Cur::new(&b);
    match sym::choose(3) {
        0 => sym::assume(b[0] == 0xfe),
        1 => sym::assume(b[0] == 0xfd),
        _ => sym::assume(b[0] == 0xfc),
    }
    match dec_nat0(&mut c) {
        Some(n) => sym::assume(n > 12),
        None => sym::assume(false),
    }
    b
}
pub fn h_bomb_string() {
    use bin_prot::ReadBinProtExt;
    let b = bomb();
    let mut r = &b[..];
    sym::check(r.bin_read_string().is_err(), 1);
    sym::cover(1);
}
pub fn h_bomb_bytes() {
    use bin_prot::ReadBinProtExt;
    let b = bomb();
    let mut r = &b[..];
    sym::check(r.bin_read_bytes().is_err(), 1);
    sym::cover(1);
}
pub fn h_bomb_vec() {
    let b = bomb();
    match sym::choose(4) {
        0 => sym::check(bin_prot::from_reader::<_, Vec<F64>>(&b[..]).is_err(), 1),
        1 => sym::check(bin_prot::from_reader::<_, Vec<[u8; 32]>>(&b[..]).is_err(), 2),
        2 => sym::check(bin_prot::from_reader::<_, Vec<u8>>(&b[..]).is_err(), 3),
        _ => sym::check(bin_prot::from_reader::<_, Vec<(char, F32)>>(&b[..]).is_err(), 4),
    }
    sym::cover(1);
}
/// bytes written by a length prefixed read are the bytes that were there
pub fn h_read_bytes() {
    use bin_prot::ReadBinProtExt;
    let b = crate::props::input(9);
    let mut c = Cur::new(&b);
    let want = match dec_nat0(&mut c) {
        Some(n) => c.take(n),
        None => None,
    };
    let mut r = &b[..];
    match (r.bin_read_bytes(), want) {
        (Ok(v), Some(w)) => {
            sym::check(v == w, 1);
            sym::check(r.len() == b.len() - c.p, 2);
            sym::cover(1)
        }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 3),
        (Err(_), Some(_)) => sym::check(false, 4),
    }
}
/// maps (known finding: a length prefix allocates without bound)
pub fn h_map_total() {
    let b: [u8; 9] = sym::bytes();
    sym::assume(b[0] == 0xfd && b[4] != 0);
    sym::cover(if bin_prot::from_reader::<_, std::collections::BTreeMap<String, u8>>(&b[..]).is_ok() { 1 } else { 2 });
}

//! Text forms: amounts, memos, hexadecimal and decimal field elements.
use crate::pack::fp;
use ark_ff::{BigInteger256, PrimeField};
use mina_crypto::hex::{skip_0x_prefix_when_needed, HexEncodable};
use mina_rs_base::blockchain_state::BodyReference;
use mina_rs_base::numbers::*;
use mina_rs_base::protocol_state_proof::field_and_curve_elements::FieldElementVec;
use mina_rs_base::types::SignedCommandMemo;
use mina_serialization_types::json::{CharJson, FieldElementJson};
use mina_serialization_types::common::{DecimalJson, U32Json, U64Json};
use proof_systems::{fp_from_radix_10, mina_hasher::Fp, FpJson};
use std::str::FromStr;

/// ASCII characters, none of which needs escaping in JSON; which of them are digits is decided first
pub fn ascii<const N: usize>(used: usize) -> [u8; N] {
    let mut b = [0; N];
    let kinds = sym::u8();
    for i in 0..used {
        let x = sym::u8();
        b[i] = if sym::concretize((kinds >> i & 1) as u64) == 1 {
            digit(x)
        } else {
            sym::assume(x < 0x7f && x >= 0x20 && x != b'"' && x != b'\\' && x.wrapping_sub(b'0') > 9);
            x
        };
    }
    b
}
fn digit(x: u8) -> u8 {
    let d = x & 15;
    sym::assume(d < 10);
    b'0' + d
}
pub fn digits<const N: usize>() -> [u8; N] {
    sym::bytes::<N>().map(digit)
}
pub fn txt(b: &[u8]) -> &str {
    unsafe { std::str::from_utf8_unchecked(b) }
}
/// unsigned number: optional plus sign, at least one digit
fn number(b: &[u8]) -> Option<u128> {
    let b = if b.len() > 0 && b[0] == b'+' { &b[1..] } else { b };
    if b.is_empty() {
        return None;
    }
    let mut v = 0u128;
    for x in b {
        if !x.is_ascii_digit() {
            return None;
        }
        let d = x - b'0';
        v = v.wrapping_mul(10).wrapping_add(d as u128);
    }
    Some(v)
}
/// what an amount text means: whole part, optionally a dot and up to nine further digits
fn meaning(b: &[u8]) -> Option<u64> {
    let (w, f) = match b.iter().position(|x| *x == b'.') {
        None => (b, &b[..0]),
        Some(i) => (&b[..i], &b[i + 1..]),
    };
    if f.len() > 9 {
        return None;
    }
    let mut d = [b'0'; 9];
    d[..f.len()].copy_from_slice(f);
    let mut r = 0u64;
    for x in d {
        if !x.is_ascii_digit() {
            return None;
        }
        let d = x - b'0';
        r = r * 10 + d as u64;
    }
    if w.len() < 9 {
        // fits
        return Some(small(w)? * 1_000_000_000 + r);
    }
    (number(w)?.wrapping_mul(1_000_000_000) + r as u128).try_into().ok()
}
fn small(b: &[u8]) -> Option<u64> {
    let b = if b.len() > 0 && b[0] == b'+' { &b[1..] } else { b };
    if b.is_empty() {
        return None;
    }
    let mut v = 0u64;
    for x in b {
        if !x.is_ascii_digit() {
            return None;
        }
        let d = x - b'0';
        v = v * 10 + d as u64;
    }
    Some(v)
}
fn parse(b: &[u8]) {
    sym::stub_fmt(false);
    let got = Amount::from_str(txt(b));
    let want = meaning(b);
    match (got, want) {
        (Ok(a), Some(w)) => {
            sym::check(a.0 == w, 1);
            sym::cover(1);
        }
        (Err(_), None) => sym::cover(2),
        _ => sym::check(false, 2),
    }
}
fn h_amount_parse() {
    let n = sym::choose(7) as usize;
    parse(&ascii::<6>(n)[..n]);
}
/// long fractions
fn h_amount_fraction() {
    let mut b = [b'0'; 14];
    b[0] = b'7';
    b[1] = b'.';
    let n = sym::choose(13) as usize + 1;
    b[n] = ascii::<1>(1)[0];
    let d = digits::<3>();
    for i in 0..3 {
        let k = n + 1 + i;
        if k < 14 {
            b[k] = d[i];
        }
    }
    parse(&b[..14.min(n + 1 + sym::choose(4) as usize)]);
}
/// around the largest amount
fn h_amount_large() {
    let mut b = *b"18446744073.709551615";
    let d = digits::<3>();
    match sym::choose(3) {
        0 => b[18..21].copy_from_slice(&d),
        1 => b[8..11].copy_from_slice(&d),
        _ => {
            // a 21 digit whole part
            b[11] = b'0';
            b[..3].copy_from_slice(&d);
        }
    }
    parse(&b);
}
/// a few values around each of these, each number of digits occurs
pub fn spread(half: usize) -> u64 {
    const AT: [u64; 14] = [
        0, 95, 992, 9_990, 99_990, 999_999_992, 1_000_000_000, 9_999_999_990, 1_230_000_000_000, 99_999_999_999_992, 4_294_967_290, 1 << 40, 9_223_372_036_854_775_800, u64::MAX - 15,
    ];
    let i = sym::choose(7) as usize + 7 * half;
    AT[i] + (sym::u8() & 15) as u64
}
fn h_amount_print() {
    amount_print(0)
}
fn h_amount_print_large() {
    amount_print(1)
}
fn amount_print(half: usize) {
    sym::stub_fmt(false);
    let v = spread(half);
    let s = Amount(v).to_string();
    let b = s.as_bytes();
    sym::check(b.len() >= 11 && b[b.len() - 10] == b'.', 1);
    sym::check(b[0] != b'+' && (b[0] != b'0' || b[1] == b'.'), 2);
    sym::check(meaning(b) == Some(v), 3);
    sym::check(Amount::from_str(&s) == Ok(Amount(v)), 4);
    sym::cover(1);
}
fn quoted(b: &[u8]) -> Vec<u8> {
    let mut j = vec![b'"'];
    j.extend_from_slice(b);
    j.push(b'"');
    j
}
fn unquoted(j: &[u8]) -> &[u8] {
    sym::check(j.len() >= 2 && j[0] == b'"' && j[j.len() - 1] == b'"', 90);
    &j[1..j.len() - 1]
}
fn decimal(b: &[u8]) {
    sym::stub_fmt(false);
    let got: Result<DecimalJson, _> = serde_json::from_slice(&quoted(b));
    match (got, meaning(b)) {
        (Ok(a), Some(w)) => {
            sym::check(a.0 == w, 1);
            sym::cover(1);
        }
        (Err(_), None) => sym::cover(2),
        _ => sym::check(false, 2),
    }
}
fn h_decimal_parse() {
    let n = sym::choose(6) as usize;
    decimal(&ascii::<5>(n)[..n]);
}
fn h_decimal_fraction() {
    let mut b = [b'0'; 14];
    b[0] = b'7';
    b[1] = b'.';
    let n = sym::choose(13) as usize + 1;
    b[n] = ascii::<1>(1)[0];
    let d = digits::<1>();
    if n + 1 < 14 {
        b[n + 1] = d[0];
    }
    decimal(&b[..14.min(n + 1 + sym::choose(2) as usize)]);
}
fn h_decimal_large() {
    let mut b = *b"18446744073.709551615";
    let d = digits::<3>();
    match sym::choose(3) {
        0 => b[18..21].copy_from_slice(&d),
        1 => b[8..11].copy_from_slice(&d),
        _ => {
            b[11] = b'0';
            b[..3].copy_from_slice(&d);
        }
    }
    decimal(&b);
}
fn h_decimal_print() {
    decimal_print(0)
}
fn h_decimal_print_large() {
    decimal_print(1)
}
fn decimal_print(half: usize) {
    sym::stub_fmt(false);
    let v = spread(half);
    let j = serde_json::to_vec(&DecimalJson(v)).unwrap();
    let b = unquoted(&j);
    sym::check(b.len() >= 1 && b[b.len() - 1] != b'.' && b[0] != b'+', 1);
    sym::check(b.contains(&b'.') == (v % 1_000_000_000 != 0), 2);
    sym::check(!b.contains(&b'.') || b[b.len() - 1] != b'0', 3);
    sym::check(meaning(b) == Some(v), 4);
    sym::cover(1);
}
/// numbers as texts
fn h_numbers_print() {
    numbers_print(0)
}
fn h_numbers_print_large() {
    numbers_print(1)
}
fn numbers_print(half: usize) {
    sym::stub_fmt(false);
    let v = spread(half);
    let j = serde_json::to_vec(&U64Json(v)).unwrap();
    sym::check(number(unquoted(&j)) == Some(v as u128), 1);
    if half == 0 {
        sym::check(serde_json::from_slice::<U64Json>(&j).unwrap().0 == v, 2);
    }
    if half == 1 {
        return sym::cover(1);
    }
    let v = v as u32;
    let j = serde_json::to_vec(&U32Json(v)).unwrap();
    sym::check(number(unquoted(&j)) == Some(v as u128), 3);
    sym::check(serde_json::from_slice::<U32Json>(&j).unwrap().0 == v, 4);
    sym::cover(1);
}
fn h_numbers_parse() {
    let n = sym::choose(5) as usize;
    let b = ascii::<4>(n);
    let want = number(&b[..n]);
    let a = serde_json::from_slice::<U64Json>(&quoted(&b[..n])).ok().map(|x| x.0 as u128);
    let c = serde_json::from_slice::<U32Json>(&quoted(&b[..n])).ok().map(|x| x.0 as u128);
    sym::check(a == want, 1);
    sym::check(c == want, 2);
    if want.is_some() {
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
fn h_numbers_large() {
    let mut b = *b"4294967295";
    b[7..].copy_from_slice(&digits::<3>());
    let want = number(&b).filter(|x| *x <= u32::MAX as u128);
    sym::check(serde_json::from_slice::<U32Json>(&quoted(&b)).ok().map(|x| x.0 as u128) == want, 1);
    let mut b = *b"18446744073709551615";
    b[17..].copy_from_slice(&digits::<3>());
    let want = number(&b).filter(|x| *x <= u64::MAX as u128);
    sym::check(serde_json::from_slice::<U64Json>(&quoted(&b)).ok().map(|x| x.0 as u128) == want, 2);
    sym::cover(1);
}
/// a memo of a text holds that text
fn h_memo_text() {
    let mut b = [0; 40];
    for i in 0..40 {
        b[i] = sym::u8() & 127;
    }
    let n = sym::choose(41) as usize;
    match SignedCommandMemo::try_from_text(&b[..n]) {
        Ok(m) => {
            sym::check(n <= 32, 1);
            sym::check(m.0.len() == 34 && m.0[0] == 1 && m.0[1] as usize == n, 2);
            for i in 0..32 {
                sym::check(m.0[i + 2] == if i < n { b[i] } else { 0 }, 3);
            }
            let t = m.to_text();
            sym::check(t.as_bytes() == &b[..n], 4);
            sym::cover(1);
        }
        Err(_) => {
            sym::check(n > 32, 5);
            sym::cover(2);
        }
    }
}
/// any bytes are a text of some kind
fn memo_any(b: &[u8]) {
    let n = b.len();
    let m = SignedCommandMemo(b.to_vec());
    let t = m.to_text();
    if n < 2 || b[1] == 0 {
        sym::check(t.is_empty(), 1);
        sym::cover(1);
    } else {
        let k = (b[1] as usize).min(n - 2);
        let mut plain = true;
        for i in 0..k {
            plain &= b[i + 2] < 128;
        }
        if plain {
            sym::check(t.as_bytes() == &b[2..2 + k], 2);
            sym::cover(2);
        }
        // no prefix of non-text bytes vanishes
        sym::check(k == 0 || !t.is_empty(), 3);
    }
}
fn h_memo_any() {
    let b: [u8; 5] = sym::bytes();
    let n = sym::choose(6) as usize;
    sym::assume(n < 2 || b[1] < 5);
    memo_any(&b[..n]);
}
/// a stated length need not be one of the bytes present
fn h_memo_len() {
    let mut b = [b'x'; 40];
    b[0] = sym::u8();
    b[1] = [0, 1, 2, 31, 32, 33, 34, 38, 39, 127, 128, 255][sym::choose(12) as usize];
    b[33] = b'y';
    let n = [2, 3, 4, 33, 34, 35, 36, 40][sym::choose(8) as usize];
    memo_any(&b[..n]);
}
fn nibble(x: u8) -> Option<u8> {
    match x {
        b'0'..=b'9' => Some(x - b'0'),
        b'a'..=b'f' => Some(x - b'a' + 10),
        b'A'..=b'F' => Some(x - b'A' + 10),
        _ => None,
    }
}
/// the 32 bytes a hexadecimal text stands for
fn hex32(s: &[u8]) -> Option<[u8; 32]> {
    if s.len() != 64 {
        return None;
    }
    let mut o = [0; 32];
    for i in 0..32 {
        o[i] = nibble(s[2 * i])? << 4 | nibble(s[2 * i + 1])?;
    }
    Some(o)
}
fn unprefixed(s: &[u8]) -> &[u8] {
    if s.len() >= 2 && (s[0] == b'0' || s[0] == b'\\') && s[1] == b'x' {
        &s[2..]
    } else {
        s
    }
}
fn h_prefix0x() {
    let b: [u8; 4] = sym::bytes();
    let n = sym::choose(5) as usize;
    let got = skip_0x_prefix_when_needed(&b[..n]);
    let want = unprefixed(&b[..n]);
    sym::check(got == want, 1);
    sym::cover(if want.len() == n { 2 } else { 1 });
}
/// every text of 0..70 characters of which four around one place are any bytes
fn hexish() -> ([u8; 70], usize) {
    let mut b = *b"0123456789abcdefABCDEF0123456789abcdefABCDEF0123456789abcdefABCDEF0123";
    let p = [0, 1, 30, 60, 62, 64, 66][sym::choose(7) as usize];
    let s: [u8; 2] = sym::bytes();
    b[p..p + 2].copy_from_slice(&s);
    if p == 0 {
        b[2] = sym::u8();
    }
    let n = [0, 1, 2, 3, 4, 31, 32, 33, 62, 63, 64, 65, 66, 67, 68, 70][sym::choose(16) as usize];
    (b, n)
}
fn h_hex_element() {
    let (b, n) = hexish();
    let want = hex32(unprefixed(&b[..n]));
    let got = FieldElementJson::try_from_hex_str(&b[..n]).ok().map(|x| x.0);
    sym::check(got == want, 1);
    let got = BigInt256::try_from_hex(&b[..n]).ok().map(|x| x.0);
    sym::check(got == want, 2);
    let got = BodyReference::from_hex(&b[..n]).ok().map(|x| x.0);
    sym::check(got == hex32(&b[..n]), 3);
    sym::cover(if want.is_some() { 1 } else { 2 });
}
/// 32 bytes of which two at one place are any bytes
fn some32() -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..32 {
        b[i] = (i * 37 + 5) as u8;
    }
    let p = [0, 1, 15, 30][sym::choose(4) as usize];
    b[p..p + 2].copy_from_slice(&sym::bytes::<2>());
    b
}
fn h_hex_print() {
    sym::stub_fmt(false);
    let b = some32();
    let s = BigInt256(b).to_hex_string();
    sym::check(hex32(s.as_bytes()) == Some(b), 1);
    sym::check(s.as_bytes().iter().all(|x| !(b'A'..=b'F').contains(x)), 2);
    sym::check(BigInt256::try_from_hex(&s).ok() == Some(BigInt256(b)), 3);
    let j = serde_json::to_vec(&FieldElementJson(b)).unwrap();
    let t = unquoted(&j);
    sym::check(t.len() == 66 && t[0] == b'0' && t[1] == b'x' && &t[2..] == s.as_bytes(), 4);
    sym::check(serde_json::from_slice::<FieldElementJson>(&j).unwrap().0 == b, 5);
    sym::cover(1);
}
fn h_hex_vec() {
    let n = sym::choose(4) as usize;
    let v = FieldElementVec((0..n).map(|i| {
        let mut b = [i as u8 * 3; 32];
        b[7 * i] = sym::u8();
        BigInt256(b)
    }).collect());
    let s = v.to_hex_string();
    sym::check(s.len() == 64 * n, 1);
    for i in 0..n {
        sym::check(hex32(&s.as_bytes()[64 * i..64 * i + 64]) == Some(v.0[i].0), 2);
    }
    sym::check(FieldElementVec::try_from_hex(&s).ok() == Some(v.clone()), 3);
    let mut t = String::from("0x");
    t.push_str(&s);
    sym::check(FieldElementVec::try_from_hex(&t).ok() == Some(v), 4);
    sym::cover(1);
}
/// whole elements or an error
fn h_hex_vec_any() {
    let mut b = Vec::new();
    for i in 0..140u8 {
        b.push(b'0' + i % 10);
    }
    let p = [2, 63, 64, 66, 126, 128][sym::choose(6) as usize];
    b[p] = sym::u8();
    b[p + 1] = sym::u8();
    let n = [0, 1, 2, 63, 64, 65, 66, 100, 127, 128, 129, 130, 131, 140][sym::choose(14) as usize];
    let s = &b[..n];
    let mut want = Some(Vec::new());
    for i in 0..(s.len() + 63) / 64 {
        let c = &s[64 * i..s.len().min(64 * i + 64)];
        want = match (want, hex32(c)) {
            (Some(mut w), Some(x)) => {
                w.push(BigInt256(x));
                Some(w)
            }
            _ => None,
        };
    }
    let got = FieldElementVec::try_from_hex(s).ok().map(|v| v.0);
    sym::check(got == want, 1);
    sym::cover(if want.is_some() { 1 } else { 2 });
}
/// decimal field elements
fn h_fp_parse() {
    let n = sym::choose(4) as usize;
    let b = ascii::<3>(n);
    let s = txt(&b[..n]);
    let plain = n > 0 && b[..n].iter().all(|x| x.is_ascii_digit());
    let got = fp_from_radix_10(s).ok();
    let json = serde_json::from_slice::<FpJson>(&quoted(&b[..n])).ok().map(|x| x.0);
    if plain {
        let want: Fp = (number(&b[..n]).unwrap() as u64).into();
        sym::check(got == Some(want), 1);
        sym::check(json == Some(want), 2);
        sym::cover(1);
    } else if n == 0 || !b[..n].iter().all(|x| x.is_ascii_digit() || *x == b'_' || *x == b'+') {
        sym::check(got.is_none(), 3);
        sym::check(json.is_none(), 4);
        sym::cover(2);
    }
}
/// around the modulus and the largest number of 256 bits
fn h_fp_large() {
    const MODULUS: &[u8] = b"28948022309329048855892746252171976963363056481941560715954676764349967630337";
    const MAX: &[u8] = b"115792089237316195423570985008687907853269984665640564039457584007913129639935";
    let mut s = match sym::choose(3) {
        0 => MODULUS.to_vec(),
        1 => MAX.to_vec(),
        _ => [MAX, MAX].concat(),
    };
    let m = s == MODULUS;
    let n = s.len();
    let d = digits::<1>();
    s[n - 1] = d[0];
    let below = m && d[0] < b'7';
    let got = fp_from_radix_10(txt(&s));
    let json = serde_json::from_slice::<FpJson>(&quoted(&s));
    sym::check(got.is_ok() == below, 1);
    sym::check(json.is_ok() == below, 2);
    if let (Ok(a), Ok(b)) = (got, json) {
        sym::check(a == b.0, 3);
        let big: BigInteger256 = Fp::into_repr(&a);
        let last = BigInteger256([0x992d30ed00000000, 0x224698fc094cf91b, 0, 0x4000000000000000]);
        sym::check(last.0[0] - big.0[0] == (b'6' - d[0]) as u64 && last.0[1..] == big.0[1..], 4);
        sym::cover(1);
    } else {
        sym::cover(2);
    }
}
fn h_fp_print() {
    fp_print(0)
}
fn h_fp_print_large() {
    fp_print(1)
}
fn fp_print(half: usize) {
    sym::stub_fmt(false);
    let v = spread(half);
    let j = serde_json::to_vec(&FpJson(v.into())).unwrap();
    sym::check(number(unquoted(&j)) == Some(v as u128), 1);
    sym::check(serde_json::from_slice::<FpJson>(&j).unwrap().0 == Fp::from(v), 2);
    sym::cover(1);
}
/// characters
fn h_char_print() {
    let v = sym::u8();
    let j = serde_json::to_string(&CharJson(v)).unwrap();
    sym::check(std::str::from_utf8(j.as_bytes()).is_ok(), 1);
    let back: CharJson = serde_json::from_str(&j).unwrap();
    sym::check(back.0 == v, 2);
    sym::cover(1);
}
fn h_char_parse() {
    let n = sym::choose(4) as usize;
    let b = ascii::<3>(n);
    let got = serde_json::from_slice::<CharJson>(&quoted(&b[..n]));
    let text = Char::from_str(txt(&b[..n]));
    sym::check(got.is_ok() == text.is_ok(), 1);
    if n == 1 {
        sym::check(got.ok() == Some(CharJson(b[0])), 2);
        sym::check(text.ok() == Some(Char(b[0])), 3);
        sym::cover(1);
    } else if n == 0 {
        sym::check(got.is_err(), 4);
        sym::cover(2);
    }
}
pub fn run(n: &str) -> bool {
    let _ = fp;
    sym::dispatch!(
        n, h_amount_parse, h_amount_fraction, h_amount_large, h_amount_print, h_amount_print_large, h_decimal_parse, h_decimal_fraction, h_decimal_large, h_decimal_print, h_decimal_print_large,
        h_numbers_print, h_numbers_print_large, h_numbers_parse, h_numbers_large, h_memo_text, h_memo_any, h_memo_len, h_prefix0x, h_hex_element, h_hex_print, h_hex_vec, h_hex_vec_any,
        h_fp_parse, h_fp_large, h_fp_print, h_fp_print_large, h_char_print, h_char_parse
    )
}

//! polymorphic variants
use crate::refm::*;
use bin_prot::{caml_hash_variant, from_reader_strict, to_writer};
use serde::{Deserialize, Serialize};

fn label(n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::fill(&mut v);
    for b in v.iter_mut() {
        *b &= 0x7f;
    }
    // ascii
    unsafe { String::from_utf8_unchecked(v) }
}
/// every ASCII label of up to four characters
pub fn h_hash_short() {
    let n = sym::choose(5) as usize;
    let l = label(n);
    sym::check(caml_hash_variant(&l) == polyvar_hash(l.as_bytes()), 1);
    sym::cover(1);
}
/// longer labels (known finding: arithmetic overflow)
pub fn h_hash_long() {
    let l = label(5);
    sym::check(caml_hash_variant(&l) == polyvar_hash(l.as_bytes()), 1);
    sym::cover(1);
}
/// longer labels as a release build computes them: right in the 31 bits that go on the wire
pub fn h_hash_long_wire() {
    let n = 5 + sym::choose(8) as usize;
    let l = label(n);
    sym::check(caml_hash_variant(&l) & 0x7fff_ffff == polyvar_hash(l.as_bytes()), 1);
    let mut out = Vec::new();
    use bin_prot::WriteBinProtExt;
    sym::check(out.bin_write_polyvar_tag(caml_hash_variant(&l)).is_ok(), 2);
    let mut want = Vec::new();
    put_le(&mut want, (polyvar_hash(l.as_bytes()) as u64) << 1 | 1, 4);
    sym::check(out == want, 3);
    sym::cover(1);
}

/// names that are not ASCII have no hash and never shift their neighbours
#[derive(Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename = "Polyvar")]
enum Mixed {
    #[serde(rename = "é")]
    Acute,
    One,
    #[serde(rename = "ü")]
    Umlaut(u8),
    Two(u8),
    C { x: bool },
}
pub fn h_mixed_names() {
    let v = match sym::choose(3) {
        0 => Mixed::One,
        1 => Mixed::Two(sym::u8()),
        _ => Mixed::C { x: sym::bool() },
    };
    let mut out = Vec::new();
    sym::check(to_writer(&mut out, &v).is_ok(), 1);
    match from_reader_strict::<_, Mixed>(&out[..]) {
        Ok(w) => sym::check(w == v, 2),
        Err(_) => sym::check(false, 3),
    }
    sym::cover(1);
}
/// a tag that belongs to no variant is an error
pub fn h_unknown_tag() {
    let t: [u8; 4] = sym::bytes();
    let tail: [u8; 2] = sym::bytes();
    let mut b = t.to_vec();
    b.extend_from_slice(&tail);
    let t = u32::from_le_bytes(t);
    let known = t & 1 == 1
        && (t >> 1 == polyvar_hash(b"One") || t >> 1 == polyvar_hash(b"Two") || t >> 1 == polyvar_hash(b"C"));
    match bin_prot::from_reader::<_, Mixed>(&b[..]) {
        Ok(v) => {
            sym::check(known, 1);
            let i = match v {
                Mixed::One => polyvar_hash(b"One"),
                Mixed::Two(_) => polyvar_hash(b"Two"),
                Mixed::C { .. } => polyvar_hash(b"C"),
                _ => 0,
            };
            sym::check(i == t >> 1, 2);
            sym::cover(1)
        }
        Err(e) => {
            // only a bad payload can fail under a known tag
            sym::check(!known || (t >> 1 == polyvar_hash(b"C") && tail[0] > 1), 3);
            if !known && t & 1 == 1 {
                sym::check(matches!(e, bin_prot::error::Error::UnknownPolyvarTag(k) if k == t >> 1), 4);
            }
            sym::cover(2)
        }
    }
}
/// the number on the wire is (hash << 1 | 1), both ways, for all 31 bit hashes
pub fn h_tag_bits() {
    use bin_prot::{ReadBinProtExt, WriteBinProtExt};
    let h = sym::u32();
    sym::assume(h < 0x8000_0000);
    let mut out = Vec::new();
    sym::check(matches!(out.bin_write_polyvar_tag(h), Ok(4)), 1);
    let mut want = Vec::new();
    put_le(&mut want, (h as u64) * 2 + 1, 4);
    sym::check(out == want, 2);
    let mut r = &out[..];
    sym::check(matches!(r.bin_read_polyvar_tag(), Ok(x) if x == h), 3);
    let any: [u8; 4] = sym::bytes();
    let mut r = &any[..];
    match r.bin_read_polyvar_tag() {
        Ok(x) => sym::check(x as u64 * 2 + 1 == u32::from_le_bytes(any) as u64, 4),
        Err(_) => sym::check(any[0] & 1 == 0, 5),
    }
    sym::cover(1);
}

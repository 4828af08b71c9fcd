//! ChunkedROInput: what was appended, and the field elements it is packed into
use ark_ff::{BigInteger256, PrimeField};
use proof_systems::mina_hasher::{Fp, ROInput};
use proof_systems::{bitvec::prelude::BitVec, ChunkedROInput};

/// a field element below 2^254 (so below the modulus)
pub fn fp() -> Fp {
    let w = [sym::u64(), sym::u64(), sym::u64(), sym::u64() & 0x3fff_ffff_ffff_ffff];
    Fp::from(BigInteger256::new(w))
}
pub fn word(x: u64) -> Fp {
    Fp::from(BigInteger256::new([x, 0, 0, 0]))
}
/// a << n | b for b of n bits
fn join(a: [u64; 4], n: u32, b: [u64; 4]) -> [u64; 4] {
    let (q, r) = ((n / 64) as usize, n % 64);
    let mut o = [0u64; 4];
    for i in (q..4).rev() {
        o[i] = a[i - q] << r;
        if r > 0 && i > q {
            o[i] |= a[i - q - 1] >> (64 - r);
        }
    }
    for i in 0..4 {
        o[i] |= b[i];
    }
    o
}
/// greedy packing, first appended is most significant, at most 254 bits in one element
pub fn expect(fields: &[Fp], packed: &[([u64; 4], u32)]) -> Vec<[u64; 4]> {
    let mut out: Vec<[u64; 4]> = fields.iter().map(|f| f.into_repr().0).collect();
    let (mut acc, mut bits) = ([0u64; 4], 0u32);
    for (v, n) in packed {
        if bits + n <= 254 {
            acc = join(acc, *n, *v);
            bits += n;
        } else {
            out.push(acc);
            acc = *v;
            bits = *n;
        }
    }
    if bits > 0 {
        out.push(acc);
    }
    out
}
struct Both {
    roi: ChunkedROInput,
    fields: Vec<Fp>,
    packed: Vec<([u64; 4], u32)>,
}
impl Both {
    fn new() -> Self {
        Both { roi: ChunkedROInput::new(), fields: vec![], packed: vec![] }
    }
    fn add(&mut self, kind: u8) {
        let r = std::mem::take(&mut self.roi);
        self.roi = match kind {
            0 => {
                let b = sym::bool();
                self.packed.push(([b as u64, 0, 0, 0], 1));
                r.append_bool(b)
            }
            1 => {
                let x = sym::u32();
                self.packed.push(([x as u64, 0, 0, 0], 32));
                r.append_u32(x)
            }
            2 => {
                let x = sym::u64();
                self.packed.push(([x, 0, 0, 0], 64));
                r.append_u64(x)
            }
            3 => {
                let f = fp();
                self.fields.push(f);
                r.append_field(f)
            }
            4 => {
                let x: [u8; 2] = sym::bytes();
                for b in x {
                    for i in 0..8 {
                        self.packed.push(([(b >> i & 1) as u64, 0, 0, 0], 1));
                    }
                }
                r.append_bytes(&x)
            }
            5 | 8..=63 => {
                let n = if kind == 5 { 48 } else { kind as u32 };
                let x = sym::u64() & ((1 << n) - 1);
                self.packed.push(([x, 0, 0, 0], n));
                r.append_packed(word(x), n)
            }
            _ => {
                let f = fp();
                self.packed.push((f.into_repr().0, 254));
                r.append_packed(f, 254)
            }
        };
    }
    fn verify(self) {
        let e = expect(&self.fields, &self.packed);
        let v = self.roi.clone().into_fields();
        sym::check(v.len() == e.len(), 1);
        let mut same = true;
        for (a, b) in v.iter().zip(&e) {
            let a = a.into_repr().0;
            same &= (a[0] == b[0]) & (a[1] == b[1]) & (a[2] == b[2]) & (a[3] == b[3]);
        }
        sym::check(same, 2);
        let roi: ROInput = self.roi.into();
        let mut want = ROInput::new();
        for f in v {
            want = want.append_field(f);
        }
        sym::check(roi == want, 3);
        sym::cover(1);
    }
}
/// up to four items of every kind
fn h_pack() {
    let n = sym::choose(5);
    let mut b = Both::new();
    for _ in 0..n {
        b.add(sym::choose(7));
    }
    b.verify();
}
/// around a full element: 192 or 224 bits, then single bits, then another item
fn h_pack_edge() {
    let mut b = Both::new();
    let first = sym::choose(2);
    for _ in 0..3 {
        b.add(2);
    }
    if first == 1 {
        b.add(1);
    }
    b.add(if first == 1 { 25 } else { 57 });
    for _ in 0..(2 + sym::choose(6)) {
        b.add(0);
    }
    b.add(sym::choose(6));
    b.add(1);
    b.verify();
}
fn h_pack_long() {
    let mut b = Both::new();
    for _ in 0..(4 + sym::choose(2)) {
        b.add([1, 2, 5][sym::choose(3) as usize]);
    }
    for _ in 0..3 {
        b.add([0, 2, 6][sym::choose(3) as usize]);
    }
    b.verify();
}
/// appending an input is appending its items
fn h_append() {
    let mut a = Both::new();
    let mut b = Both::new();
    let mut ab = Both::new();
    for k in 0..4 {
        let kind = sym::choose(4);
        let t = if k < 2 { &mut a } else { &mut b };
        t.add(kind);
    }
    ab.roi = a.roi.append(b.roi);
    ab.fields = [a.fields, b.fields].concat();
    ab.packed = [a.packed, b.packed].concat();
    ab.verify();
}
/// bits to a field element, least significant first; more than fit are an error
fn h_bits() {
    let n = [0usize, 1, 2, 7, 8, 9, 31, 64, 65, 254, 255, 256, 300][sym::choose(13) as usize];
    let mut bits: BitVec<u8> = BitVec::with_capacity(n);
    let mut w = [0u64; 8];
    for i in 0..n {
        // a few of the bits are free
        let b = if i < 9 || i > n - 2 { sym::bool() } else { i % 3 == 0 };
        bits.push(b);
        w[i / 64] |= (b as u64) << (i % 64);
    }
    let r = ChunkedROInput::bits_to_fp(bits);
    if n > 255 {
        sym::check(r.is_err(), 1);
        sym::cover(2);
    } else if n < 255 || w[3] >> 62 == 0 {
        sym::check(r.is_ok(), 2);
        let v = r.unwrap().into_repr().0;
        sym::check((v[0] == w[0]) & (v[1] == w[1]) & (v[2] == w[2]) & (v[3] == w[3]), 3);
        sym::cover(1);
    } else if let Ok(v) = r {
        // 2^254 is below the modulus, but only just
        sym::check(v.into_repr().0[3] >> 62 == 1 && w[2] == 0, 4);
    }
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_pack, h_pack_edge, h_pack_long, h_append, h_bits)
}

//! Stand-in for mina-hasher: the random oracle input is kept as written, and the Poseidon
//! permutation is replaced by a cheap mixing function of (flavour, domain string, input).
pub use mina_curves::pasta::Fp;
use mina_curves::pasta::Fq;
use ark_ff::{BigInteger256, PrimeField};
use o1_utils::FieldHelpers;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ROInput {
    pub fields: Vec<Fp>,
    pub bits: Vec<bool>,
}
impl ROInput {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn append_hashable(self, i: &impl Hashable) -> Self {
        self.append_roinput(i.to_roinput())
    }
    pub fn append_roinput(mut self, o: ROInput) -> Self {
        self.fields.extend(o.fields);
        self.bits.extend(o.bits);
        self
    }
    pub fn append_field(mut self, f: Fp) -> Self {
        self.fields.push(f);
        self
    }
    pub fn append_scalar(mut self, s: Fq) -> Self {
        self.bits.extend(s.to_bits());
        self
    }
    pub fn append_bool(mut self, b: bool) -> Self {
        self.bits.push(b);
        self
    }
    pub fn append_bytes(mut self, bytes: &[u8]) -> Self {
        for b in bytes {
            for i in 0..8 {
                self.bits.push(b >> i & 1 == 1);
            }
        }
        self
    }
    pub fn append_u32(self, x: u32) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn append_u64(self, x: u64) -> Self {
        self.append_bytes(&x.to_le_bytes())
    }
    pub fn to_fields(&self) -> Vec<Fp> {
        let mut v = self.fields.clone();
        for c in self.bits.chunks(254) {
            let mut b = [0u8; 32];
            for (i, x) in c.iter().enumerate() {
                b[i / 8] |= (*x as u8) << (i % 8);
            }
            v.push(Fp::from_bytes(&b).unwrap());
        }
        v
    }
    pub fn serialize(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for f in &self.fields {
            v.extend(f.to_bytes());
        }
        v
    }
}
pub trait Hashable: Clone {
    type D;
    fn to_roinput(&self) -> ROInput;
    fn domain_string(domain_param: Self::D) -> Option<String>;
}
pub trait Hasher<H: Hashable> {
    fn init(&mut self, domain_param: H::D) -> &mut dyn Hasher<H>;
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H>;
    fn digest(&mut self) -> Fp;
    fn hash(&mut self, input: &H) -> Fp {
        self.update(input);
        self.digest()
    }
    fn init_and_hash(&mut self, domain_param: H::D, input: &H) -> Fp {
        self.init(domain_param);
        self.update(input);
        self.digest()
    }
}
pub struct Mix<H: Hashable> {
    _h: std::marker::PhantomData<H>,
    kind: u64,
    start: [u64; 4],
    s: [u64; 4],
}
impl<H: Hashable> Mix<H> {
    fn absorb(&mut self, w: [u64; 4]) {
        for i in 0..4 {
            self.s[i] = (self.s[i].rotate_left(7) ^ w[i]).wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(self.s[(i + 1) % 4] ^ 0x1234_5678_9abc_def1);
        }
    }
    fn domain(&mut self, d: Option<String>) {
        self.s = [self.kind, 0, 0, 0];
        if let Some(d) = d {
            let b = d.as_bytes();
            for c in b.chunks(8) {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                self.absorb([u64::from_le_bytes(w), 1, 2, 3]);
            }
        }
        self.start = self.s;
    }
}
fn create<H: Hashable>(kind: u64, d: H::D) -> Mix<H> {
    let mut m = Mix { _h: Default::default(), kind, start: [0; 4], s: [0; 4] };
    m.domain(H::domain_string(d));
    m
}
pub fn create_legacy<H: Hashable>(domain_param: H::D) -> Mix<H> {
    create::<H>(1, domain_param)
}
pub fn create_kimchi<H: Hashable>(domain_param: H::D) -> Mix<H> {
    create::<H>(2, domain_param)
}
impl<H: Hashable> Hasher<H> for Mix<H> {
    fn init(&mut self, domain_param: H::D) -> &mut dyn Hasher<H> {
        self.domain(H::domain_string(domain_param));
        self
    }
    fn update(&mut self, input: &H) -> &mut dyn Hasher<H> {
        for f in input.to_roinput().to_fields() {
            self.absorb(f.into_repr().0);
        }
        self
    }
    fn digest(&mut self) -> Fp {
        let mut w = self.s;
        self.s = self.start;
        w[3] &= 0x3fff_ffff_ffff_ffff;
        Fp::from(BigInteger256(w))
    }
}

//! Stand-in for ark-ff 0.3: the 256 bit integer and the field traits the mina-rs crates use.
//! Same observable arithmetic, kept in canonical (not Montgomery) form.
use num_bigint::BigUint;
use std::io::{self, Read, Write};

#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct BigInteger256(pub [u64; 4]);

impl BigInteger256 {
    pub const fn new(v: [u64; 4]) -> Self {
        Self(v)
    }
    /// self + other, carry out
    pub fn adc(&self, o: &Self) -> (Self, bool) {
        let mut r = [0u64; 4];
        let mut c = 0u64;
        for i in 0..4 {
            let (a, x) = self.0[i].overflowing_add(o.0[i]);
            let (b, y) = a.overflowing_add(c);
            r[i] = b;
            c = x as u64 | y as u64;
        }
        (Self(r), c != 0)
    }
    /// self - other, borrow out
    pub fn sbb(&self, o: &Self) -> (Self, bool) {
        let mut r = [0u64; 4];
        let mut c = 0u64;
        for i in 0..4 {
            let (a, x) = self.0[i].overflowing_sub(o.0[i]);
            let (b, y) = a.overflowing_sub(c);
            r[i] = b;
            c = x as u64 | y as u64;
        }
        (Self(r), c != 0)
    }
    pub fn to_le(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        b
    }
    pub fn from_le(b: &[u8; 32]) -> Self {
        let mut r = [0u64; 4];
        for i in 0..4 {
            let mut w = [0u8; 8];
            w.copy_from_slice(&b[i * 8..i * 8 + 8]);
            r[i] = u64::from_le_bytes(w);
        }
        Self(r)
    }
}
impl Ord for BigInteger256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        for i in (0..4).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        std::cmp::Ordering::Equal
    }
}
impl PartialOrd for BigInteger256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl From<u64> for BigInteger256 {
    fn from(v: u64) -> Self {
        Self([v, 0, 0, 0])
    }
}
impl TryFrom<BigUint> for BigInteger256 {
    type Error = String;
    fn try_from(v: BigUint) -> Result<Self, String> {
        let d = v.to_bytes_le();
        if d.len() > 32 {
            return Err("out of range".to_string());
        }
        let mut b = [0u8; 32];
        b[..d.len()].copy_from_slice(&d);
        Ok(Self::from_le(&b))
    }
}
impl From<BigInteger256> for BigUint {
    fn from(v: BigInteger256) -> BigUint {
        BigUint::from_bytes_le(&v.to_le())
    }
}
pub trait BigInteger: Copy + Default + Ord {
    fn muln(&mut self, n: u32);
    fn divn(&mut self, n: u32);
    fn is_zero(&self) -> bool;
    fn is_odd(&self) -> bool;
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn get_bit(&self, i: usize) -> bool;
    fn to_bytes_le(&self) -> Vec<u8>;
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
    fn num_bits(&self) -> u32;
}
impl BigInteger for BigInteger256 {
    fn muln(&mut self, n: u32) {
        if n >= 256 {
            self.0 = [0; 4];
            return;
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let s = self.0;
        for i in (0..4).rev() {
            let lo = if i >= w { s[i - w] } else { 0 };
            let below = if b > 0 && i >= w + 1 { s[i - w - 1] >> (64 - b) } else { 0 };
            self.0[i] = (lo << b) | below;
        }
    }
    fn divn(&mut self, n: u32) {
        if n >= 256 {
            self.0 = [0; 4];
            return;
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let s = self.0;
        for i in 0..4 {
            let hi = if i + w < 4 { s[i + w] } else { 0 };
            let above = if b > 0 && i + w + 1 < 4 { s[i + w + 1] << (64 - b) } else { 0 };
            self.0[i] = (hi >> b) | above;
        }
    }
    fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn is_odd(&self) -> bool {
        self.0[0] & 1 == 1
    }
    fn get_bit(&self, i: usize) -> bool {
        i < 256 && self.0[i / 64] >> (i % 64) & 1 == 1
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.to_le().to_vec()
    }
    fn num_bits(&self) -> u32 {
        for i in (0..4).rev() {
            if self.0[i] != 0 {
                return i as u32 * 64 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
}
pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> io::Result<Self>;
}
pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> io::Result<()>;
}
impl FromBytes for BigInteger256 {
    fn read<R: Read>(mut r: R) -> io::Result<Self> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        Ok(Self::from_le(&b))
    }
}
impl ToBytes for BigInteger256 {
    fn write<W: Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&self.to_le())
    }
}
pub trait Zero: Sized {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
}
pub trait One: Sized {
    fn one() -> Self;
}
pub trait Field: Copy + Default + Zero + One + PartialEq {}
pub trait PrimeField: Field + FromBytes + From<BigInteger256> {
    type BigInt;
    fn size_in_bits() -> usize;
    fn from_repr(r: BigInteger256) -> Option<Self>;
    fn into_repr(&self) -> BigInteger256;
}
pub mod fields {
    pub use crate::{Field, PrimeField};
}
pub mod bytes {
    pub use crate::{FromBytes, ToBytes};
}
pub mod biginteger {
    pub use crate::{BigInteger, BigInteger256};
}
#[doc(hidden)]
pub use num_bigint;

/// a prime field in canonical form
#[macro_export]
macro_rules! field {
    ($t:ident, $m:expr) => {
        #[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $t($crate::BigInteger256);
        impl $t {
            pub const MODULUS: $crate::BigInteger256 = $crate::BigInteger256::new($m);
        }
        impl From<$crate::BigInteger256> for $t {
            fn from(v: $crate::BigInteger256) -> Self {
                <Self as $crate::PrimeField>::from_repr(v).unwrap()
            }
        }
        impl From<$t> for $crate::BigInteger256 {
            fn from(v: $t) -> Self {
                v.0
            }
        }
        impl From<u64> for $t {
            fn from(v: u64) -> Self {
                Self($crate::BigInteger256([v, 0, 0, 0]))
            }
        }
        impl From<u32> for $t {
            fn from(v: u32) -> Self {
                Self::from(v as u64)
            }
        }
        impl From<bool> for $t {
            fn from(v: bool) -> Self {
                Self::from(v as u64)
            }
        }
        impl $crate::Zero for $t {
            fn zero() -> Self {
                Self::default()
            }
            fn is_zero(&self) -> bool {
                self.0 .0 == [0; 4]
            }
        }
        impl $crate::One for $t {
            fn one() -> Self {
                Self::from(1u64)
            }
        }
        impl std::ops::Add for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                // the modulus has 255 bits: no carry out of 256 bits
                let (s, _) = self.0.adc(&o.0);
                if s >= Self::MODULUS {
                    Self(s.sbb(&Self::MODULUS).0)
                } else {
                    Self(s)
                }
            }
        }
        impl std::ops::AddAssign for $t {
            fn add_assign(&mut self, o: Self) {
                *self = *self + o
            }
        }
        impl std::ops::Sub for $t {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                let (s, b) = self.0.sbb(&o.0);
                if b {
                    Self(s.adc(&Self::MODULUS).0)
                } else {
                    Self(s)
                }
            }
        }
        impl std::ops::Mul for $t {
            type Output = Self;
            fn mul(self, o: Self) -> Self {
                use $crate::BigInteger;
                let mut acc = Self::default();
                for i in (0..256).rev() {
                    acc = acc + acc;
                    if o.0.get_bit(i) {
                        acc = acc + self;
                    }
                }
                acc
            }
        }
        impl $crate::Field for $t {}
        impl $crate::PrimeField for $t {
            type BigInt = $crate::BigInteger256;
            fn size_in_bits() -> usize {
                255
            }
            fn from_repr(r: $crate::BigInteger256) -> Option<Self> {
                if r < Self::MODULUS {
                    Some(Self(r))
                } else {
                    None
                }
            }
            fn into_repr(&self) -> $crate::BigInteger256 {
                self.0
            }
        }
        impl $crate::FromBytes for $t {
            fn read<R: std::io::Read>(r: R) -> std::io::Result<Self> {
                let b = <$crate::BigInteger256 as $crate::FromBytes>::read(r)?;
                <Self as $crate::PrimeField>::from_repr(b)
                    .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "FromBytes::read failed"))
            }
        }
        impl $crate::ToBytes for $t {
            fn write<W: std::io::Write>(&self, w: W) -> std::io::Result<()> {
                $crate::ToBytes::write(&self.0, w)
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "Fp256({:?})", self.0)
            }
        }
    };
}

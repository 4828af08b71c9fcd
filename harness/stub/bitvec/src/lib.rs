//! Stand-in for bitvec 1: a vector of bits, least significant first.
use std::marker::PhantomData;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Lsb0;
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Msb0;
pub trait BitOrder {
    fn shift(i: usize) -> usize;
}
impl BitOrder for Lsb0 {
    fn shift(i: usize) -> usize {
        i
    }
}
impl BitOrder for Msb0 {
    fn shift(i: usize) -> usize {
        7 - i
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BitVec<T = usize, O = Lsb0>(Vec<bool>, PhantomData<(T, O)>);
impl<T, O: BitOrder> Default for BitVec<T, O> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T, O: BitOrder> BitVec<T, O> {
    pub fn new() -> Self {
        Self(Vec::new(), PhantomData)
    }
    pub fn with_capacity(n: usize) -> Self {
        Self(Vec::with_capacity(n), PhantomData)
    }
    pub fn push(&mut self, b: bool) {
        self.0.push(b)
    }
    pub fn resize(&mut self, n: usize, b: bool) {
        self.0.resize(n, b)
    }
    pub fn truncate(&mut self, n: usize) {
        self.0.truncate(n)
    }
    pub fn reverse(&mut self) {
        self.0.reverse()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, bool> {
        self.0.iter()
    }
    pub fn extend_from_bitslice(&mut self, o: &Self) {
        self.0.extend_from_slice(&o.0)
    }
}
impl<O: BitOrder> BitVec<u8, O> {
    pub fn into_vec(self) -> Vec<u8> {
        let mut v = vec![0u8; (self.0.len() + 7) / 8];
        for (i, b) in self.0.iter().enumerate() {
            v[i / 8] |= (*b as u8) << O::shift(i % 8);
        }
        v
    }
    pub fn from_slice(s: &[u8]) -> Self {
        let mut v = Self::with_capacity(s.len() * 8);
        for b in s {
            for i in 0..8 {
                v.push(b >> O::shift(i) & 1 == 1);
            }
        }
        v
    }
    pub fn from_vec(s: Vec<u8>) -> Self {
        Self::from_slice(&s)
    }
}
impl<T, O> IntoIterator for BitVec<T, O> {
    type Item = bool;
    type IntoIter = std::vec::IntoIter<bool>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<T, O> Extend<bool> for BitVec<T, O> {
    fn extend<I: IntoIterator<Item = bool>>(&mut self, i: I) {
        self.0.extend(i)
    }
}
impl<T, O> FromIterator<bool> for BitVec<T, O> {
    fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self {
        Self(i.into_iter().collect(), PhantomData)
    }
}
pub struct BitSlice<'a, O>(&'a [u8], PhantomData<O>);
impl<'a, O: BitOrder> BitSlice<'a, O> {
    pub fn to_bitvec(&self) -> BitVec<u8, O> {
        BitVec::from_slice(self.0)
    }
    pub fn iter(&self) -> std::vec::IntoIter<bool> {
        self.to_bitvec().into_iter()
    }
    pub fn len(&self) -> usize {
        self.0.len() * 8
    }
}
pub trait AsBits {
    fn as_bits<O: BitOrder>(&self) -> BitSlice<'_, O>;
    fn view_bits<O: BitOrder>(&self) -> BitSlice<'_, O> {
        self.as_bits::<O>()
    }
}
impl AsBits for [u8] {
    fn as_bits<O: BitOrder>(&self) -> BitSlice<'_, O> {
        BitSlice(self, PhantomData)
    }
}
impl<const N: usize> AsBits for [u8; N] {
    fn as_bits<O: BitOrder>(&self) -> BitSlice<'_, O> {
        BitSlice(&self[..], PhantomData)
    }
}
pub mod prelude {
    pub use crate::{AsBits, BitOrder, BitVec, Lsb0, Msb0};
}
pub mod vec {
    pub use crate::BitVec;
}
pub mod order {
    pub use crate::{BitOrder, Lsb0, Msb0};
}

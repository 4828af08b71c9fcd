//! Base58check (Bitcoin alphabet).  `transparent(true)` replaces the radix conversion and the
//! checksum, which no solver reasons about, by an injective text form with the same interface:
//! "z" followed by two letters per byte, one check byte (the xor of all bytes) at the end.
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
static TRANSPARENT: AtomicBool = AtomicBool::new(false);
pub fn transparent(v: bool) {
    TRANSPARENT.store(v, Relaxed)
}
const ALPHA: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn enc(b: &[u8]) -> String {
    if TRANSPARENT.load(Relaxed) {
        let mut s = Vec::with_capacity(1 + 2 * b.len());
        s.push(b'z');
        for x in b {
            s.push(b'a' + (x >> 4));
            s.push(b'a' + (x & 15));
        }
        return unsafe { String::from_utf8_unchecked(s) };
    }
    let mut d: Vec<u8> = Vec::new();
    for &x in b {
        let mut c = x as u32;
        for y in d.iter_mut() {
            c += (*y as u32) << 8;
            *y = (c % 58) as u8;
            c /= 58;
        }
        while c > 0 {
            d.push((c % 58) as u8);
            c /= 58;
        }
    }
    for _ in b.iter().take_while(|x| **x == 0) {
        d.push(0);
    }
    d.iter().rev().map(|x| ALPHA[*x as usize] as char).collect()
}
fn dec(s: &[u8]) -> Result<Vec<u8>, decode::Error> {
    if TRANSPARENT.load(Relaxed) {
        if s.is_empty() || s[0] != b'z' || s.len() % 2 != 1 {
            return Err(decode::Error::InvalidCharacter { character: '?', index: 0 });
        }
        let mut o = Vec::with_capacity(s.len() / 2);
        let mut bad = false;
        for c in s[1..].chunks(2) {
            let (h, l) = (c[0].wrapping_sub(b'a'), c[1].wrapping_sub(b'a'));
            bad |= (h > 15) | (l > 15);
            o.push(h << 4 | l & 15);
        }
        if bad {
            return Err(decode::Error::InvalidCharacter { character: '?', index: 0 });
        }
        return Ok(o);
    }
    let mut d: Vec<u8> = Vec::new();
    for (i, &x) in s.iter().enumerate() {
        if x >= 128 {
            return Err(decode::Error::NonAsciiCharacter { index: i });
        }
        let mut c = match ALPHA.iter().position(|a| *a == x) {
            Some(p) => p as u32,
            None => return Err(decode::Error::InvalidCharacter { character: x as char, index: i }),
        };
        for y in d.iter_mut() {
            c += *y as u32 * 58;
            *y = c as u8;
            c >>= 8;
        }
        while c > 0 {
            d.push(c as u8);
            c >>= 8;
        }
    }
    for _ in s.iter().take_while(|x| **x == b'1') {
        d.push(0);
    }
    d.reverse();
    Ok(d)
}
fn checksum(b: &[u8]) -> Vec<u8> {
    if TRANSPARENT.load(Relaxed) {
        return vec![b.iter().fold(0x5a, |a, x| a ^ x)];
    }
    sha2::sha256(&sha2::sha256(b))[..4].to_vec()
}

pub mod encode {
    pub struct EncodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Option<Option<u8>>,
        pub(crate) _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> EncodeBuilder<'a, I> {
        pub fn with_check(mut self) -> Self {
            self.check = Some(None);
            self
        }
        pub fn with_check_version(mut self, v: u8) -> Self {
            self.check = Some(Some(v));
            self
        }
        pub fn into_vec(self) -> Vec<u8> {
            self.into_string().into_bytes()
        }
        pub fn into_string(self) -> String {
            let mut b = Vec::new();
            if let Some(Some(v)) = self.check {
                b.push(v);
            }
            b.extend_from_slice(self.input.as_ref());
            if self.check.is_some() {
                let c = crate::checksum(&b);
                b.extend(c);
            }
            crate::enc(&b)
        }
    }
}
pub mod decode {
    use super::TRANSPARENT;
    use std::sync::atomic::Ordering::Relaxed;
    #[derive(Clone, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum Error {
        BufferTooSmall,
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        InvalidChecksum { checksum: [u8; 4], expected_checksum: Option<[u8; 4]> },
        InvalidVersion { ver: u8, expected_ver: u8 },
        NoChecksum,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{:?}", self)
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
    pub struct DecodeBuilder<'a, I: AsRef<[u8]>> {
        pub(crate) input: I,
        pub(crate) check: Option<Option<u8>>,
        pub(crate) _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'a, I: AsRef<[u8]>> DecodeBuilder<'a, I> {
        pub fn with_check(mut self, v: Option<u8>) -> Self {
            self.check = Some(v);
            self
        }
        pub fn into_vec(self) -> Result<Vec<u8>> {
            // constants of the code are real texts, whatever the mode
            let s = self.input.as_ref();
            if (s.len() == 52 && &s[..3] == b"3NL" || s.len() == 51 && &s[..2] == b"jw") && TRANSPARENT.load(Relaxed) {
                crate::transparent(false);
                let r = self.into_vec();
                crate::transparent(true);
                return r;
            }
            let mut b = crate::dec(self.input.as_ref())?;
            if let Some(ver) = self.check {
                let n = crate::checksum(&[]).len();
                if b.len() < n {
                    return Err(Error::NoChecksum);
                }
                let c = b.split_off(b.len() - n);
                let e = crate::checksum(&b);
                if c != e {
                    return Err(Error::InvalidChecksum { checksum: [0; 4], expected_checksum: None });
                }
                if let Some(v) = ver {
                    match b.first() {
                        None => return Err(Error::NoChecksum),
                        Some(x) if *x != v => return Err(Error::InvalidVersion { ver: *x, expected_ver: v }),
                        _ => (),
                    }
                }
            }
            Ok(b)
        }
    }
}
pub fn encode<'a, I: AsRef<[u8]>>(input: I) -> encode::EncodeBuilder<'a, I> {
    encode::EncodeBuilder { input, check: None, _p: Default::default() }
}
pub fn decode<'a, I: AsRef<[u8]>>(input: I) -> decode::DecodeBuilder<'a, I> {
    decode::DecodeBuilder { input, check: None, _p: Default::default() }
}

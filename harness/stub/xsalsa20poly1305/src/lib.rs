//! Stand-in for xsalsa20poly1305 0.9: same interface, 16 byte tag in front of the text; the
//! stream is the nonce and the tag a mixing of key, nonce and text.
pub mod aead {
    pub mod generic_array {
        #[repr(transparent)]
        pub struct GenericArray<T, const N: usize>(pub [T; N]);
        impl<T, const N: usize> GenericArray<T, N> {
            /// panics on a slice of another length, as the original does
            pub fn from_slice(s: &[T]) -> &Self {
                assert_eq!(s.len(), N);
                unsafe { &*(s.as_ptr() as *const Self) }
            }
        }
        impl<T: Copy, const N: usize> From<[T; N]> for GenericArray<T, N> {
            fn from(a: [T; N]) -> Self {
                GenericArray(a)
            }
        }
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct Error;
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("aead::Error")
        }
    }
    pub type Result<T> = std::result::Result<T, Error>;
    pub trait Aead {
        fn encrypt(&self, nonce: &super::Nonce, plaintext: &[u8]) -> Result<Vec<u8>>;
        fn decrypt(&self, nonce: &super::Nonce, ciphertext: &[u8]) -> Result<Vec<u8>>;
    }
}
use aead::generic_array::GenericArray;
pub type Nonce = GenericArray<u8, 24>;
pub type Key = GenericArray<u8, 32>;
pub const KEY_SIZE: usize = 32;
pub const NONCE_SIZE: usize = 24;
pub const TAG_SIZE: usize = 16;
pub trait KeyInit: Sized {
    fn new(key: &Key) -> Self;
}
pub struct XSalsa20Poly1305([u8; 32]);
impl KeyInit for XSalsa20Poly1305 {
    fn new(key: &Key) -> Self {
        XSalsa20Poly1305(key.0)
    }
}
impl XSalsa20Poly1305 {
    fn tag(&self, nonce: &Nonce, text: &[u8]) -> [u8; 16] {
        let mut t = [0u8; 16];
        for i in 0..32 {
            t[i % 16] = t[i % 16].rotate_left(1) ^ self.0[i];
        }
        for i in 0..24 {
            t[i % 16] = t[i % 16].rotate_left(1) ^ nonce.0[i];
        }
        for (i, b) in text.iter().enumerate() {
            t[i % 16] = t[i % 16].rotate_left(1) ^ *b;
        }
        t[15] ^= text.len() as u8;
        t
    }
}
impl aead::Aead for XSalsa20Poly1305 {
    fn encrypt(&self, nonce: &Nonce, p: &[u8]) -> aead::Result<Vec<u8>> {
        let c: Vec<u8> = p.iter().enumerate().map(|(i, b)| b ^ nonce.0[i % 24] ^ self.0[i % 32]).collect();
        let mut o = self.tag(nonce, &c).to_vec();
        o.extend(c);
        Ok(o)
    }
    fn decrypt(&self, nonce: &Nonce, c: &[u8]) -> aead::Result<Vec<u8>> {
        if c.len() < 16 {
            return Err(aead::Error);
        }
        let t = self.tag(nonce, &c[16..]);
        let mut d = 0;
        for i in 0..16 {
            d |= t[i] ^ c[i];
        }
        if d != 0 {
            return Err(aead::Error);
        }
        Ok(c[16..].iter().enumerate().map(|(i, b)| b ^ nonce.0[i % 24] ^ self.0[i % 32]).collect())
    }
}

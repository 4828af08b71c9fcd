//! Stand-in for argon2 0.4: the parameter and salt checks and the interface are as in the
//! original; the memory hard function is replaced by a mixing of all its inputs.
use std::fmt;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Error {
    MemoryTooLittle,
    MemoryTooMuch,
    TimeTooSmall,
    SaltTooShort,
    PwdTooLong,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("argon2")
    }
}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Algorithm {
    Argon2d = 0,
    Argon2i = 1,
    Argon2id = 2,
}
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Version {
    V0x10 = 0x10,
    V0x13 = 0x13,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Params {
    m_cost: u32,
    t_cost: u32,
    p_cost: u32,
}
impl Params {
    pub const DEFAULT_M_COST: u32 = 4096;
    pub const DEFAULT_T_COST: u32 = 3;
    pub const DEFAULT_P_COST: u32 = 1;
    pub fn new(m_cost: u32, t_cost: u32, p_cost: u32, _len: Option<usize>) -> Result<Self> {
        let mut b = ParamsBuilder::new();
        b.m_cost(m_cost)?;
        b.t_cost(t_cost)?;
        b.0.p_cost = p_cost;
        b.params()
    }
    pub fn m_cost(&self) -> u32 {
        self.m_cost
    }
    pub fn t_cost(&self) -> u32 {
        self.t_cost
    }
}
impl Default for Params {
    fn default() -> Self {
        Params { m_cost: 4096, t_cost: 3, p_cost: 1 }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ParamsBuilder(Params);
impl ParamsBuilder {
    pub fn new() -> Self {
        ParamsBuilder(Params::default())
    }
    pub fn m_cost(&mut self, m: u32) -> Result<&mut Self> {
        if m < 8 {
            return Err(Error::MemoryTooLittle);
        }
        self.0.m_cost = m;
        Ok(self)
    }
    pub fn t_cost(&mut self, t: u32) -> Result<&mut Self> {
        if t < 1 {
            return Err(Error::TimeTooSmall);
        }
        self.0.t_cost = t;
        Ok(self)
    }
    pub fn params(self) -> Result<Params> {
        if self.0.m_cost < self.0.p_cost * 8 {
            return Err(Error::MemoryTooLittle);
        }
        Ok(self.0)
    }
}
impl Default for ParamsBuilder {
    fn default() -> Self {
        Self::new()
    }
}
#[derive(Clone)]
pub struct Argon2<'key> {
    algorithm: Algorithm,
    version: Version,
    params: Params,
    _p: std::marker::PhantomData<&'key ()>,
}
impl<'key> Argon2<'key> {
    pub fn new(algorithm: Algorithm, version: Version, params: Params) -> Self {
        Argon2 { algorithm, version, params, _p: std::marker::PhantomData }
    }
}
/// what the stand-in computes: each output byte depends on one byte of everything that goes in
pub fn derive(alg: u8, ver: u8, m: u32, t: u32, pw: &[u8], salt: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    let (m, t) = (m.to_le_bytes(), t.to_le_bytes());
    for i in 0..4 {
        o[i] = m[i];
        o[4 + i] = t[i];
    }
    o[8] = alg;
    o[9] = ver;
    o[10] = pw.len() as u8;
    o[11] = salt.len() as u8;
    for (i, b) in pw.iter().enumerate() {
        o[12 + i % 4] = o[12 + i % 4].rotate_left(3) ^ *b;
    }
    for (i, b) in salt.iter().enumerate() {
        o[16 + i % 16] = o[16 + i % 16].rotate_left(3) ^ *b;
    }
    o
}
pub trait PasswordHasher {
    fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> std::result::Result<password_hash::PasswordHash<'a>, password_hash::Error>;
}
impl PasswordHasher for Argon2<'_> {
    fn hash_password<'a, S: AsRef<str> + ?Sized>(&self, password: &[u8], salt: &'a S) -> std::result::Result<password_hash::PasswordHash<'a>, password_hash::Error> {
        let mut buf = [0u8; 64];
        let salt = password_hash::b64_decode(salt.as_ref(), &mut buf)?;
        if salt.len() < 8 {
            return Err(password_hash::Error::SaltInvalid);
        }
        let o = derive(self.algorithm as u8, self.version as u8, self.params.m_cost, self.params.t_cost, password, salt);
        Ok(password_hash::PasswordHash { hash: Some(password_hash::Output(o)), _p: std::marker::PhantomData })
    }
}
pub mod password_hash {
    use std::fmt;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum Error {
        B64Encoding,
        SaltInvalid,
        Password,
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("password hash")
        }
    }
    pub struct Output(pub(crate) [u8; 32]);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }
    pub struct PasswordHash<'a> {
        pub hash: Option<Output>,
        pub(crate) _p: std::marker::PhantomData<&'a ()>,
    }
    // unpadded standard base64
    fn enc6(v: u8) -> u8 {
        let v = v as i16;
        let mut r = v + 65;
        r += ((25 - v) >> 8) & 6;
        r -= ((51 - v) >> 8) & 75;
        r -= ((61 - v) >> 8) & 15;
        r += ((62 - v) >> 8) & 3;
        r as u8
    }
    fn dec6(c: u8) -> i16 {
        let c = c as i16;
        let mut r = -1i16;
        r += (((64 - c) & (c - 91)) >> 8) & (c - 64);
        r += (((96 - c) & (c - 123)) >> 8) & (c - 70);
        r += (((47 - c) & (c - 58)) >> 8) & (c + 5);
        r += (((42 - c) & (c - 44)) >> 8) & 63;
        r += (((46 - c) & (c - 48)) >> 8) & 64;
        r
    }
    pub(crate) fn b64_decode<'b>(s: &str, buf: &'b mut [u8]) -> Result<&'b [u8], Error> {
        let s = s.as_bytes();
        let n = s.len() / 4 * 3 + match s.len() % 4 { 0 => 0, 2 => 1, 3 => 2, _ => return Err(Error::B64Encoding) };
        if n > buf.len() {
            return Err(Error::B64Encoding);
        }
        let mut bad = 0i16;
        let (mut acc, mut bits, mut k) = (0u32, 0, 0);
        for c in s {
            let d = dec6(*c);
            bad |= d;
            acc = acc << 6 | (d as u32 & 63);
            bits += 6;
            if bits >= 8 {
                bits -= 8;
                buf[k] = (acc >> bits) as u8;
                k += 1;
            }
        }
        let rest = acc & ((1u32 << bits) - 1);
        if (bad < 0) | (rest != 0) {
            return Err(Error::B64Encoding);
        }
        Ok(&buf[..n])
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SaltString(String);
    impl SaltString {
        pub fn new(s: &str) -> Result<Self, Error> {
            if s.len() < 4 || s.len() > 64 {
                return Err(Error::SaltInvalid);
            }
            Ok(SaltString(s.to_string()))
        }
        pub fn b64_encode(b: &[u8]) -> Result<Self, Error> {
            let mut s = Vec::with_capacity(b.len() * 4 / 3 + 2);
            for c in b.chunks(3) {
                let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                for j in 0..c.len() + 1 {
                    s.push(enc6((v >> (18 - 6 * j)) as u8 & 63));
                }
            }
            if s.len() < 4 || s.len() > 64 {
                return Err(Error::SaltInvalid);
            }
            Ok(SaltString(unsafe { String::from_utf8_unchecked(s) }))
        }
        pub fn b64_decode<'b>(&self, buf: &'b mut [u8]) -> Result<&'b [u8], Error> {
            b64_decode(&self.0, buf)
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
    }
    impl AsRef<str> for SaltString {
        fn as_ref(&self) -> &str {
            &self.0
        }
    }
}

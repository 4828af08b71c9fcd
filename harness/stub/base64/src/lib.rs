//! base64 0.13
#[derive(Clone, Copy, Debug)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl std::fmt::Display for DecodeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DecodeError {}
// branch free: one path per call, whatever the bytes
fn lt(a: u8, b: u8) -> u8 {
    ((a as i16 - b as i16) >> 8) as u8
}
fn sym(v: u8, url: bool) -> u8 {
    let (c62, c63) = if url { (b'-', b'_') } else { (b'+', b'/') };
    let a = lt(v, 26);
    let b = lt(v, 52) & !a;
    let c = lt(v, 62) & !(a | b);
    let d = lt(v, 63) & !(a | b | c);
    let e = !(a | b | c | d);
    (a & v.wrapping_add(b'A')) | (b & v.wrapping_add(71)) | (c & v.wrapping_sub(4)) | (d & c62) | (e & c63)
}
fn val(x: u8, url: bool) -> u8 {
    let (c62, c63) = if url { (b'-', b'_') } else { (b'+', b'/') };
    let within = |lo: u8, hi: u8| !lt(x, lo) & lt(x, hi + 1);
    let (u, l, d) = (within(b'A', b'Z'), within(b'a', b'z'), within(b'0', b'9'));
    let (p, s) = (within(c62, c62), within(c63, c63));
    let bad = !(u | l | d | p | s);
    (u & x.wrapping_sub(b'A')) | (l & x.wrapping_sub(71)) | (d & x.wrapping_add(4)) | (p & 62) | (s & 63) | (bad & 255)
}
pub fn encode_config<T: AsRef<[u8]>>(input: T, c: Config) -> String {
    let mut o = Vec::new();
    for ch in input.as_ref().chunks(3) {
        let b = [ch[0], *ch.get(1).unwrap_or(&0), *ch.get(2).unwrap_or(&0)];
        let v = [b[0] >> 2, (b[0] & 3) << 4 | b[1] >> 4, (b[1] & 15) << 2 | b[2] >> 6, b[2] & 63];
        for i in 0..4 {
            if i <= ch.len() {
                o.push(sym(v[i], c.url));
            } else if c.pad {
                o.push(b'=');
            }
        }
    }
    unsafe { String::from_utf8_unchecked(o) }
}
pub fn decode_config<T: AsRef<[u8]>>(input: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let mut s = input.as_ref();
    for _ in 0..2 {
        if s.len() > 0 && input.as_ref().len() % 4 == 0 && s[s.len() - 1] == b'=' {
            s = &s[..s.len() - 1];
        }
    }
    if s.len() % 4 == 1 {
        return Err(DecodeError::InvalidLength);
    }
    let mut o = Vec::new();
    for (k, ch) in s.chunks(4).enumerate() {
        let mut v = [0u8; 4];
        let mut bad = false;
        for (i, x) in ch.iter().enumerate() {
            v[i] = val(*x, c.url);
            bad |= v[i] == 255;
        }
        if bad {
            return Err(DecodeError::InvalidByte(k * 4, 0));
        }
        let b = [v[0] << 2 | v[1] >> 4, v[1] << 4 | v[2] >> 2, v[2] << 6 | v[3]];
        o.extend_from_slice(&b[..ch.len() - 1]);
        if ch.len() < 4 && b[ch.len() - 1] != 0 {
            return Err(DecodeError::InvalidLastSymbol(k * 4 + ch.len() - 1, 0));
        }
    }
    Ok(o)
}
pub fn encode<T: AsRef<[u8]>>(input: T) -> String {
    encode_config(input, STANDARD)
}
pub fn decode<T: AsRef<[u8]>>(input: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(input, STANDARD)
}

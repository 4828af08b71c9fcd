//! The wallet files of mina-secrets.
use argon2::derive;
use bs58::transparent;
use mina_secrets::secret_box::{Error, SecretBox};
use o1_utils::FieldHelpers;
use serde_json::Value;
use xsalsa20poly1305::{
    aead::{generic_array::GenericArray, Aead},
    KeyInit, XSalsa20Poly1305,
};

fn b58(b: &[u8]) -> String {
    bs58::encode(b).with_check_version(2).into_string()
}
fn text(bp: &str, pp: &str, nonce: &str, salt: &str, mem: &str, ops: &str, cipher: &str) -> String {
    ["{\"box_primitive\":\"", bp, "\",\"pw_primitive\":\"", pp, "\",\"nonce\":\"", nonce, "\",\"pwsalt\":\"", salt, "\",\"pwdiff\":[", mem, ",", ops, "],\"ciphertext\":\"", cipher, "\"}"].concat()
}
const BP: &str = "xsalsa20poly1305";
const PP: &str = "argon2i";
fn wallet(nonce: &[u8], salt: &[u8], mem: &str, ops: &str, cipher: &[u8]) -> String {
    text(BP, PP, &b58(nonce), &b58(salt), mem, ops, &b58(cipher))
}
fn numbered(n: usize, from: u8) -> Vec<u8> {
    (0..n).map(|i| from.wrapping_add(i as u8)).collect()
}
fn nonce() -> Vec<u8> {
    let mut n = numbered(24, 0x40);
    n[0] = sym::u8();
    n[23] = sym::u8();
    n
}
fn salt(n: usize) -> Vec<u8> {
    let mut s = numbered(n, 0x90);
    if n > 0 {
        s[0] = sym::u8();
        s[n - 1] = sym::u8();
    }
    s
}
fn seal(pw: &[u8], salt: &[u8], m: u32, t: u32, nonce: &[u8], plain: &[u8]) -> Vec<u8> {
    let key = derive(1, 0x13, m, t, pw, salt);
    XSalsa20Poly1305::new(GenericArray::from_slice(&key)).encrypt(GenericArray::from_slice(nonce), plain).unwrap()
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.iter().zip(b).fold(0, |d, (x, y)| d | (x ^ y)) == 0
}
fn read(s: &str) -> Result<SecretBox, Error> {
    SecretBox::try_from(s)
}
fn of_str(v: &Value, k: &str, want: &str) -> bool {
    v.get(k).and_then(|x| x.as_str()).map(|x| eq(x.as_bytes(), want.as_bytes())).unwrap_or(false)
}

/// what is read is written again, whatever the lengths of its parts
fn h_box_round() {
    sym::stub_fmt(false);
    transparent(true);
    let n = salt([3, 8, 15, 16, 17, 24, 32, 47, 48][sym::choose(9) as usize]);
    let no = nonce();
    let mut c = numbered([0, 1, 15, 16, 49][sym::choose(5) as usize], 0x10);
    if let Some(x) = c.first_mut() {
        *x = sym::u8();
    }
    let (mem, ops) = [("0", "0"), ("134217728", "6"), ("9223372036854775807", "4294967295"), ("-9223372036854775808", "1"), ("8191", "2147483648")][sym::choose(5) as usize];
    let t = wallet(&no, &n, mem, ops, &c);
    let sb = match read(&t) {
        Ok(x) => x,
        Err(_) => {
            // costs outside what argon2 takes may be refused as soon as they are read
            sym::check(mem != "134217728" && ops != "2147483648", 1);
            return;
        }
    };
    let v: Result<Value, Error> = if sym::bool() {
        sb.try_into()
    } else {
        let s: Result<String, Error> = sb.try_into();
        s.and_then(|s| serde_json::from_str(&s).map_err(Error::JsonSerdeError))
    };
    let v = match v {
        Ok(v) => v,
        Err(_) => {
            sym::check(false, 2);
            return;
        }
    };
    sym::check(of_str(&v, "box_primitive", BP) && of_str(&v, "pw_primitive", PP), 3);
    sym::check(of_str(&v, "nonce", &b58(&no)), 4);
    sym::check(of_str(&v, "pwsalt", &b58(&n)), 5);
    sym::check(of_str(&v, "ciphertext", &b58(&c)), 6);
    let d: Vec<i64> = v["pwdiff"].as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default();
    sym::check(d.len() == 2 && d[0].to_string() == mem && d[1].to_string() == ops, 7);
    sym::check(v.as_object().map(|o| o.len()) == Some(6), 8);
    sym::cover(1);
}

/// the right password gives the sealed key without its first byte
fn h_box_open() {
    transparent(true);
    let pw: Vec<u8> = (0..sym::choose(4)).map(|_| sym::u8()).collect();
    let s = salt([8, 16, 20][sym::choose(3) as usize]);
    let no = nonce();
    let mut plain = numbered([1, 2, 33, 40][sym::choose(4) as usize], 3);
    for x in plain.iter_mut().take(3) {
        *x = sym::u8();
    }
    let (mem, m) = [("134217728", 131072), ("8192", 8), ("9215", 8), ("4398046511103", 4294967295)][sym::choose(4) as usize];
    let (ops, t) = [("6", 6), ("1", 1), ("4294967295", 4294967295)][sym::choose(3) as usize];
    let c = seal(&pw, &s, m, t, &no, &plain);
    match read(&wallet(&no, &s, mem, ops, &c)) {
        Ok(sb) => {
            let k = sb.get_private_key_bytes(&pw);
            sym::check(k.map(|k| eq(&k, &plain[1..])).unwrap_or(false), 1);
            // a second time, after a copy
            sym::check(sb.clone().get_private_key_bytes(&pw).map(|k| eq(&k, &plain[1..])).unwrap_or(false), 2);
            sym::cover(1);
        }
        Err(_) => sym::check(false, 3),
    }
}

/// another password, or a change of any part of the wallet, gives no key
fn h_box_wrong() {
    transparent(true);
    let pw: Vec<u8> = (0..sym::choose(4)).map(|_| sym::u8()).collect();
    let (mut s, mut no, mut c) = (numbered(16, 0x90), nonce(), vec![]);
    let plain = [1u8, 2, sym::u8(), 4, 5];
    c.extend(seal(&pw, &s, 131072, 6, &no, &plain));
    let (mut mem, mut ops) = ("134217728", "6");
    let mut pw2 = pw.clone();
    let d = sym::u8();
    sym::assume(d != 0);
    match sym::choose(7) {
        0 => {
            pw2 = (0..sym::choose(4)).map(|_| sym::u8()).collect();
            sym::assume(!eq(&pw, &pw2));
        }
        1 => no[sym::choose(24) as usize] ^= d,
        2 => s[sym::choose(16) as usize] ^= d,
        3 => c[sym::choose(21) as usize] ^= d,
        4 => c.truncate(sym::choose(21) as usize),
        5 => mem = ["134218752", "134216704", "8192"][sym::choose(3) as usize],
        _ => ops = ["5", "7", "1"][sym::choose(3) as usize],
    }
    match read(&wallet(&no, &s, mem, ops, &c)) {
        Ok(sb) => {
            sym::check(sb.get_private_key_bytes(&pw2).is_err(), 1);
            sym::check(sb.get_keypair(&pw2).is_err(), 2);
            sym::cover(1);
        }
        Err(_) => sym::check(false, 3),
    }
}

/// costs argon2 does not take are errors: never another cost, never a panic
fn h_box_costs() {
    transparent(true);
    let (s, no) = (numbered(16, 0x90), nonce());
    let bad_mem = sym::bool();
    let (mem, ops) = if bad_mem {
        (["-1", "-134217728", "0", "1023", "8191", "4398046511104", "4398180728832", "9223372036854775807", "-9223372036854775808", "-4398046511104", "-4397912293376"][sym::choose(11) as usize], "6")
    } else {
        ("134217728", ["0", "-1", "4294967296", "4294967302", "-4294967290", "9223372036854775807", "-9223372036854775808"][sym::choose(7) as usize])
    };
    // a wallet sealed with any of the costs a careless conversion could end up with
    let m = if bad_mem { [131072u32, 8, 0, 4294967295, 4294836224][sym::choose(5) as usize] } else { 131072 };
    let t = if bad_mem { 6 } else { [6u32, 0, 4294967295, 1][sym::choose(4) as usize] };
    let c = seal(b"pw", &s, m, t, &no, &[1, 2, 3]);
    let r = read(&wallet(&no, &s, mem, ops, &c)).and_then(|sb| sb.get_private_key_bytes(b"pw"));
    sym::check(r.is_err(), 1);
    sym::cover(1);
}

/// only the two known primitives are taken, and the error says which is wrong
fn h_box_primitive() {
    transparent(true);
    let w = sym::bool();
    let base: &str = if w { BP } else { PP };
    let mut p = base.as_bytes().to_vec();
    let mut known = false;
    match sym::choose(4) {
        0 => {
            let i = sym::choose(p.len() as u8) as usize;
            p[i] = sym::u8();
            sym::assume((p[i] >= 0x20) & (p[i] < 0x7f) & (p[i] != b'"') & (p[i] != b'\\'));
            known = sym::concretize((p[i] == base.as_bytes()[i]) as u64) == 1;
        }
        1 => p.truncate(sym::choose(p.len() as u8) as usize),
        2 => {
            p.push(sym::u8());
            let x = p[p.len() - 1];
            sym::assume((x >= 0x20) & (x < 0x7f) & (x != b'"') & (x != b'\\'));
        }
        _ => p = [&b"argon2id"[..], b"argon2d", b"argon2", b"xchacha20poly1305", b"XSALSA20POLY1305", b"Argon2i", b""][sym::choose(7) as usize].to_vec(),
    }
    let p = String::from_utf8(p).unwrap_or_default();
    let (bp, pp) = if w { (p.as_str(), PP) } else { (BP, p.as_str()) };
    let r = read(&text(bp, pp, &b58(&numbered(24, 1)), &b58(&numbered(16, 1)), "134217728", "6", &b58(&numbered(20, 1))));
    match r {
        Ok(_) => sym::check(known, 1),
        Err(Error::InvalidSecretBoxPrimitiveError) => sym::check(w && !known, 2),
        Err(Error::InvalidPasswordHashPrimitiveError) => sym::check(!w && !known, 3),
        Err(_) => sym::check(false, 4),
    }
    sym::cover(if known { 1 } else { 2 });
}

/// parts of other lengths than the cipher takes are errors, not panics
fn h_box_lengths() {
    transparent(true);
    let n = sym::choose(41) as usize;
    let mut s = 16;
    let mut c = 21;
    let no = if n == 24 {
        match sym::choose(3) {
            0 => s = [0, 1, 2, 3, 7, 49, 64, 100][sym::choose(8) as usize],
            1 => c = sym::choose(16) as usize,
            _ => {}
        }
        nonce()
    } else {
        numbered(n, 7)
    };
    let r = read(&wallet(&no, &numbered(s, 0x90), "134217728", "6", &numbered(c, 9)));
    match r {
        Ok(sb) => {
            sym::check(sb.get_private_key_bytes(b"pw").is_err(), 1);
            sym::check(sb.get_keypair(b"pw").is_err(), 2);
            sym::cover(1);
        }
        Err(_) => {
            sym::check(!(n == 24 && s == 16 && c >= 16), 3);
            sym::cover(2);
        }
    }
}

/// a sealed text of no bytes or of another length than a key
fn h_box_keypair() {
    transparent(true);
    let (s, no) = (numbered(16, 0x90), nonce());
    let n = [0usize, 1, 2, 32, 33, 34, 65][sym::choose(7) as usize];
    let mut plain = vec![0u8; n];
    for (i, x) in plain.iter_mut().enumerate() {
        *x = if i == 4 || i == 32 { sym::u8() } else { i as u8 };
    }
    let c = seal(b"pw", &s, 131072, 6, &no, &plain);
    match read(&wallet(&no, &s, "134217728", "6", &c)) {
        Ok(sb) => {
            let b = sb.get_private_key_bytes(b"pw");
            let k = sb.get_keypair(b"pw");
            if n == 0 {
                sym::check(b.is_err() && k.is_err(), 1);
                sym::cover(3);
                return;
            }
            sym::check(b.map(|b| eq(&b, &plain[1..])).unwrap_or(false), 2);
            match k {
                Ok(k) => {
                    sym::check(n >= 33, 3);
                    let x = k.public.into_compressed().x;
                    sym::check(n >= 33 && eq(&x.to_bytes(), &plain[1..33]), 4);
                    sym::cover(1);
                }
                Err(Error::KeypairError(_)) => {
                    // too large for a scalar, or of another length
                    sym::check(n != 33 || plain[32] >= 0x40, 5);
                    sym::cover(2);
                }
                Err(_) => sym::check(false, 6),
            }
        }
        Err(_) => sym::check(false, 7),
    }
}

/// base58 texts with another version byte, checksum, alphabet or no content
fn h_box_base58() {
    let real = sym::bool();
    transparent(!real);
    let part = sym::choose(3);
    let good = numbered([24, 16, 21][part as usize], 0x31);
    let bad = match sym::choose(5) {
        0 => {
            let v = sym::choose(16) * 17;
            bs58::encode(&good).with_check_version(v).into_string()
        }
        1 => bs58::encode(&good).into_string(),
        2 => {
            let mut t = b58(&good).into_bytes();
            let i = sym::choose(t.len() as u8) as usize;
            t[i] = if t[i] == b'a' { b'b' } else { b'a' };
            String::from_utf8(t).unwrap_or_default()
        }
        3 => ["", "z", "1", "0OIl", "zaa", "11111", "zac", "\u{e9}", " "][sym::choose(9) as usize].to_string(),
        _ => {
            let t = b58(&good);
            t[..sym::choose(t.len() as u8) as usize].to_string()
        }
    };
    let mut p = [b58(&numbered(24, 1)), b58(&numbered(16, 1)), b58(&numbered(20, 1))];
    p[part as usize] = bad;
    let r = read(&text(BP, PP, &p[0], &p[1], "134217728", "6", &p[2]));
    sym::check(matches!(r, Err(Error::Base58DecodeError(_))), 1);
    sym::cover(if real { 1 } else { 2 });
}

/// texts that are no wallet
fn h_box_json() {
    sym::stub_fmt(false);
    transparent(true);
    let good = wallet(&numbered(24, 1), &numbered(16, 1), "134217728", "6", &numbered(20, 1));
    if sym::bool() {
        // cut short anywhere
        let n = sym::choose(good.len() as u8) as usize;
        sym::check(matches!(read(&good[..n]), Err(Error::JsonSerdeError(_))), 1);
        sym::cover(1);
        return;
    }
    let mut v: Value = serde_json::from_str(&good).unwrap();
    let k = ["box_primitive", "pw_primitive", "nonce", "pwsalt", "pwdiff", "ciphertext"][sym::choose(6) as usize];
    let o = v.as_object_mut().unwrap();
    match sym::choose(10) {
        0 => {
            o.remove(k);
        }
        1 => o[k] = Value::Null,
        2 => o[k] = Value::Bool(true),
        3 => o[k] = 1.into(),
        4 => o[k] = 1.5.into(),
        5 => o[k] = Value::Array(vec![]),
        6 => o[k] = Value::Array(vec![1.into()]),
        7 => o[k] = Value::Array(vec![1.into(), 2.into(), 3.into()]),
        8 => o[k] = Value::Array(vec![1.into(), "2".into()]),
        _ => o[k] = Value::Object(Default::default()),
    }
    let t = v.to_string();
    sym::check(matches!(read(&t), Err(Error::JsonSerdeError(_))), 2);
    sym::cover(2);
}

fn run(n: &str) -> bool {
    sym::dispatch!(n, h_box_round, h_box_open, h_box_wrong, h_box_costs, h_box_primitive, h_box_lengths, h_box_keypair, h_box_base58, h_box_json)
}
sym::entry!(run);

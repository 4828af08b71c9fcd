//! `Versioned` wrappers and the conversions generated for them
#[path = "../../binprot/src/refm.rs"]
#[allow(dead_code)]
mod refm;
mod auto;
mod macros;
use auto::*;
use bin_prot::{from_reader_strict, to_writer};
use macros::*;
use refm::*;
use serde::{de::DeserializeOwned, Serialize};
use versioned::Versioned;

fn bytes<X: Serialize>(x: &X) -> Vec<u8> {
    let mut o = Vec::new();
    sym::check(to_writer(&mut o, x).is_ok(), 1);
    o
}

/// all levels for one payload and one choice of versions
fn levels<T: Ref + Clone + Serialize + DeserializeOwned + Default, const A: u16, const B: u16, const C: u16, const D: u16>() {
    let t = T::arb();
    let mut body = Vec::new();
    t.enc(&mut body);
    let head = |vs: &[u16]| {
        let mut o = Vec::new();
        for v in vs {
            enc_int(*v as i64, &mut o);
        }
        o.extend_from_slice(&body);
        o
    };
    // one level
    let v1: Versioned<T, A> = Versioned::new(t.clone());
    sym::check(v1.version() == A && v1.version == A, 2);
    sym::check(v1.t == t, 3);
    sym::check(v1.clone().inner() == t, 4);
    let f1: Versioned<T, A> = t.clone().into();
    sym::check(f1.version == A && f1.t == t, 5);
    let (b1,): (T,) = f1.into();
    sym::check(b1 == t, 6);
    let out = bytes(&v1);
    sym::check(out == head(&[A]), 7);
    match from_reader_strict::<_, Versioned<T, A>>(&out[..]) {
        Ok(w) => sym::check(w.version == A && w.t == t, 8),
        Err(_) => sym::check(false, 9),
    }
    // two
    let v2: Versioned<Versioned<T, A>, B> = t.clone().into();
    sym::check(v2.version == B && v2.t.version == A && v2.t.t == t, 12);
    let out = bytes(&v2);
    sym::check(out == head(&[B, A]), 13);
    match from_reader_strict::<_, Versioned<Versioned<T, A>, B>>(&out[..]) {
        Ok(w) => sym::check(w.version == B && w.t.version == A && w.t.t == t, 14),
        Err(_) => sym::check(false, 15),
    }
    let (b2,): (T,) = v2.into();
    sym::check(b2 == t, 16);
    // three
    let v3: Versioned<Versioned<Versioned<T, A>, B>, C> = t.clone().into();
    sym::check(v3.version == C && v3.t.version == B && v3.t.t.version == A && v3.t.t.t == t, 22);
    let out = bytes(&v3);
    sym::check(out == head(&[C, B, A]), 23);
    match from_reader_strict::<_, Versioned<Versioned<Versioned<T, A>, B>, C>>(&out[..]) {
        Ok(w) => sym::check(w.version == C && w.t.version == B && w.t.t.version == A && w.t.t.t == t, 24),
        Err(_) => sym::check(false, 25),
    }
    let (b3,): (T,) = v3.into();
    sym::check(b3 == t, 26);
    // four
    let v4: Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D> = t.clone().into();
    sym::check(v4.version == D && v4.t.version == C && v4.t.t.version == B && v4.t.t.t.version == A && v4.t.t.t.t == t, 32);
    let out = bytes(&v4);
    sym::check(out == head(&[D, C, B, A]), 33);
    match from_reader_strict::<_, Versioned<Versioned<Versioned<Versioned<T, A>, B>, C>, D>>(&out[..]) {
        Ok(w) => sym::check(w.version == D && w.t.version == C && w.t.t.version == B && w.t.t.t.version == A && w.t.t.t.t == t, 34),
        Err(_) => sym::check(false, 35),
    }
    let (b4,): (T,) = v4.into();
    sym::check(b4 == t, 36);
    // default
    let d: Versioned<Versioned<T, A>, B> = Default::default();
    sym::check(d.version == B && d.t.version == A && d.t.t == T::default(), 40);
    // equality follows the parts
    let same: Versioned<T, A> = Versioned::new(t.clone());
    sym::check((same == v1) == (same.version == v1.version && same.t == v1.t), 41);
    let mut other: Versioned<T, A> = Versioned::new(T::arb());
    other.version = sym::u16();
    sym::check((other.version == v1.version && other.t == v1.t) == (other == v1), 42);
    sym::cover(1);
}
fn ver<T: Ref + Clone + Serialize + DeserializeOwned + Default + PartialEq>() {
    match sym::choose(4) {
        0 => levels::<T, 1, 2, 3, 4>(),
        1 => levels::<T, 127, 128, 0, 1>(),
        2 => levels::<T, 255, 256, 32767, 2>(),
        _ => levels::<T, 32768, 65535, 7, 129>(),
    }
}
fn h_ver_i64() {
    ver::<i64>()
}
fn h_ver_opt() {
    ver::<Option<bool>>()
}
fn h_ver_tuple() {
    ver::<(u8, bool, char)>()
}
fn h_ver_vec() {
    ver::<Vec<u8>>()
}
fn h_ver_unit() {
    ver::<()>()
}

/// every input: the decoder takes a version and the payload, nothing else
fn h_ver_accept() {
    let n = sym::choose(9) as usize;
    let mut b = vec![0u8; n];
    sym::fill(&mut b);
    type V = Versioned<Versioned<Option<u8>, 1>, 2>;
    let mut c = Cur::new(&b);
    let want = (|| {
        let o = u16::dec(&mut c)?;
        let i = u16::dec(&mut c)?;
        Some((o, i, Option::<u8>::dec(&mut c)?))
    })();
    match (bin_prot::from_reader::<_, V>(&b[..]), want) {
        (Ok(v), Some((o, i, t))) => {
            // the version on the wire stays visible and is written back
            sym::check(v.version == o && v.version() == o && v.t.version == i, 1);
            sym::check(v.t.t == t, 2);
            let mut want = Vec::new();
            enc_int(o as i64, &mut want);
            enc_int(i as i64, &mut want);
            t.enc(&mut want);
            sym::check(bytes(&v) == want, 3);
            sym::cover(1)
        }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 4),
        (Err(_), Some(_)) => sym::check(false, 5),
    }
}

fn run(n: &str) -> bool {
    sym::dispatch!(
        n, h_ver_i64, h_ver_opt, h_ver_tuple, h_ver_vec, h_ver_unit, h_ver_accept, h_auto_named, h_auto_named2, h_auto_reordered,
        h_auto_unnamed, h_auto_unnamed_mix, h_auto_enum, h_auto_enum_back, h_auto_versioned, h_auto_versioned_enum, h_auto_versioned_unnamed,
        h_auto_paths, h_mac_versioned, h_mac_newtype, h_mac_proxy, h_mac_versioned_proxy, h_mac_generic_proxy
    )
}
sym::entry!(run);

//! loose (layout driven) decoding against an interpreter of layouts written from the format
use crate::props::input;
use crate::refm::*;
use bin_prot::{to_writer, BinProtRule, Deserializer, Value};
use serde::{Deserialize, Serialize};

/// layout
#[derive(Clone)]
pub enum R {
    Unit,
    Bool,
    Int,
    Int32,
    Int64,
    Native,
    Char,
    Str,
    Float,
    Opt(Box<R>),
    Rec(Vec<(&'static str, R)>),
    Tup(Vec<R>),
    Sum(Vec<(&'static str, Vec<R>)>),
    Poly(Vec<(&'static str, Vec<R>)>),
    List(Box<R>),
    Ref(&'static str, Box<R>),
    Custom(Vec<R>),
}
use R::*;

fn jlist(v: &[R], o: &mut String) {
    o.push('[');
    for (i, r) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        json(r, o);
    }
    o.push(']');
}
fn num(mut n: u64, o: &mut String) {
    let mut d = [0u8; 20];
    let mut k = 0;
    loop {
        d[k] = b'0' + (n % 10) as u8;
        n /= 10;
        k += 1;
        if n == 0 {
            break;
        }
    }
    while k > 0 {
        k -= 1;
        o.push(d[k] as char);
    }
}
/// the layout as the JSON the crate reads
pub fn json(r: &R, o: &mut String) {
    match r {
        Unit => o.push_str("[\"Unit\"]"),
        Bool => o.push_str("[\"Bool\"]"),
        Int => o.push_str("[\"Int\"]"),
        Int32 => o.push_str("[\"Int32\"]"),
        Int64 => o.push_str("[\"Int64\"]"),
        Native => o.push_str("[\"Native_int\"]"),
        Char => o.push_str("[\"Char\"]"),
        Str => o.push_str("[\"String\"]"),
        Float => o.push_str("[\"Float\"]"),
        Opt(r) => {
            o.push_str("[\"Option\",");
            json(r, o);
            o.push(']')
        }
        List(r) => {
            o.push_str("[\"List\",");
            json(r, o);
            o.push(']')
        }
        Rec(f) => {
            o.push_str("[\"Record\",[");
            for (i, (n, r)) in f.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str("{\"field_name\":\"");
                o.push_str(n);
                o.push_str("\",\"field_rule\":");
                json(r, o);
                o.push('}');
            }
            o.push_str("]]")
        }
        Tup(v) => {
            o.push_str("[\"Tuple\",");
            jlist(v, o);
            o.push(']')
        }
        Sum(s) => {
            o.push_str("[\"Sum\",[");
            for (i, (n, a)) in s.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str("{\"ctor_name\":\"");
                o.push_str(n);
                o.push_str("\",\"index\":");
                num(i as u64, o);
                o.push_str(",\"ctor_args\":");
                jlist(a, o);
                o.push('}');
            }
            o.push_str("]]")
        }
        Poly(s) => {
            o.push_str("[\"Polyvar\",[");
            for (i, (n, a)) in s.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                o.push_str("[\"Tagged\",{\"polyvar_name\":\"");
                o.push_str(n);
                o.push_str("\",\"hash\":");
                num(polyvar_hash(n.as_bytes()) as u64, o);
                o.push_str(",\"polyvar_args\":");
                jlist(a, o);
                o.push_str("}]");
            }
            o.push_str("]]")
        }
        Ref(p, r) => {
            o.push_str("[\"Reference\",[\"Resolved\",{\"source_type_decl\":\"t\",\"source_module_path\":\"");
            o.push_str(p);
            o.push_str("\",\"ref_rule\":");
            json(r, o);
            o.push_str("}]]")
        }
        Custom(v) => {
            o.push_str("[\"Custom\",");
            jlist(v, o);
            o.push(']')
        }
    }
}
pub fn rule(r: &R) -> BinProtRule {
    let mut s = String::new();
    json(r, &mut s);
    match serde_json::from_str(&s) {
        Ok(r) => r,
        Err(_) => {
            sym::check(false, 90);
            BinProtRule::Unit
        }
    }
}

const BIGINT: [&str; 10] = [
    "Ledger_hash0",
    "State_hash",
    "Pending_coinbase.Stack_hash",
    "State_body_hash",
    "Pending_coinbase.Hash_builder",
    "Snark_params.Make_inner_curve_scalar",
    "Snark_params.Tick",
    "Epoch_seed",
    "Zexe_backend.Zexe_backend_common.Stable.Field",
    "Pending_coinbase.Coinbase_stack",
];
const VECTOR: [(&str, usize); 6] = [
    ("Pickles_type.Vector.Vector2", 2),
    ("Pickles_types.Vector.Vector2", 2),
    ("Pickles_types.Vector.Vector4", 4),
    ("Pickles_types.Vector.Vector8", 8),
    ("Pickles_types.Vector.Vector17", 17),
    ("Pickles_types.Vector.Vector18", 18),
];

fn seq(rs: &[R], path: &mut &'static str, c: &mut Cur) -> Option<Vec<Value>> {
    let mut v = Vec::new();
    for r in rs {
        v.push(dec(r, path, c)?);
    }
    Some(v)
}
/// the value the bytes denote under the layout; `path` is the last module path passed
pub fn dec(r: &R, path: &mut &'static str, c: &mut Cur) -> Option<Value> {
    Some(match r {
        Unit => {
            <()>::dec(c)?;
            Value::Unit
        }
        Bool => Value::Bool(bool::dec(c)?),
        Int | Int32 | Int64 | Native => Value::Int(dec_int(c)?),
        Char => Value::Char(c.u8()?),
        Str => {
            let n = dec_nat0(c)?;
            Value::List(c.take(n)?.iter().map(|b| Value::Char(*b)).collect())
        }
        Float => Value::Float(f64::from_bits(c.le(8)?)),
        Opt(r) => match c.u8()? {
            0 => Value::Option(None),
            1 => Value::Option(Some(Box::new(dec(r, path, c)?))),
            _ => return None,
        },
        Rec(f) => {
            let mut v = Vec::new();
            for (n, r) in f {
                v.push((n.to_string(), dec(r, path, c)?));
            }
            Value::Record(v)
        }
        Tup(rs) => Value::Tuple(seq(rs, path, c)?),
        Sum(s) => {
            let i = c.u8()?;
            if i as usize >= s.len() {
                return None;
            }
            let i = sym::concretize(i as u64) as usize;
            let (n, a) = &s[i];
            Value::Sum { name: n.to_string(), index: i as u8, value: Box::new(Value::Tuple(seq(a, path, c)?)) }
        }
        Poly(s) => {
            let t = c.le(4)? as u32;
            if t & 1 == 0 {
                return None;
            }
            for (n, a) in s {
                if t >> 1 == polyvar_hash(n.as_bytes()) {
                    return Some(Value::Polyvar {
                        name: n.to_string(),
                        tag: polyvar_hash(n.as_bytes()),
                        value: Box::new(Value::Tuple(seq(a, path, c)?)),
                    });
                }
            }
            return None;
        }
        List(r) => {
            let n = dec_nat0(c)?;
            if n > (c.b.len() - c.p) as u64 {
                return None;
            }
            let n = sym::concretize(n);
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(dec(r, path, c)?);
            }
            Value::List(v)
        }
        Ref(p, r) => {
            *path = p;
            dec(r, path, c)?
        }
        Custom(a) => {
            for b in BIGINT {
                if *path == b {
                    let mut v = Vec::new();
                    for _ in 0..32 {
                        v.push(Value::Char(c.u8()?));
                    }
                    return Some(Value::Tuple(v));
                }
            }
            for (p, n) in VECTOR {
                if *path == p {
                    let mut v = Vec::new();
                    for _ in 0..n {
                        v.push(dec(&a[0], path, c)?);
                    }
                    <()>::dec(c)?;
                    v.push(Value::Unit);
                    return Some(Value::Tuple(v));
                }
            }
            return None;
        }
    })
}
/// canonical bytes of a loose value
pub fn enc(v: &Value, o: &mut Vec<u8>) {
    match v {
        Value::Unit => o.push(0),
        Value::Nat0(n) => enc_int(*n as i64, o),
        Value::Bool(b) => o.push(*b as u8),
        Value::String(s) => {
            enc_nat0(s.len() as u64, o);
            o.extend_from_slice(s)
        }
        Value::Char(c) => o.push(*c),
        Value::Int(i) => enc_int(*i, o),
        Value::Float(f) => put_le(o, f.to_bits(), 8),
        Value::Option(None) => o.push(0),
        Value::Option(Some(v)) => {
            o.push(1);
            enc(v, o)
        }
        Value::Record(f) => {
            for (_, v) in f {
                enc(v, o)
            }
        }
        Value::Tuple(vs) => {
            for v in vs {
                enc(v, o)
            }
        }
        Value::Sum { index, value, .. } => {
            o.push(*index);
            enc(value, o)
        }
        Value::Polyvar { tag, value, .. } => {
            put_le(o, (*tag as u64) << 1 | 1, 4);
            enc(value, o)
        }
        Value::List(vs) => {
            enc_nat0(vs.len() as u64, o);
            for v in vs {
                enc(v, o)
            }
        }
    }
}
/// equality with floats by bits
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Option(Some(x)), Value::Option(Some(y))) => same(x, y),
        (Value::Record(x), Value::Record(y)) => {
            let mut ok = x.len() == y.len();
            for (p, q) in x.iter().zip(y) {
                ok &= p.0 == q.0 && same(&p.1, &q.1);
            }
            ok
        }
        (Value::Tuple(x), Value::Tuple(y)) | (Value::List(x), Value::List(y)) => {
            let mut ok = x.len() == y.len();
            for (p, q) in x.iter().zip(y) {
                ok &= same(p, q);
            }
            ok
        }
        (Value::Sum { name: n, index: i, value: v }, Value::Sum { name: m, index: j, value: w }) => {
            (n == m) & (i == j) & same(v, w)
        }
        (Value::Polyvar { name: n, tag: i, value: v }, Value::Polyvar { name: m, tag: j, value: w }) => {
            (n == m) & (i == j) & same(v, w)
        }
        (a, b) => a == b,
    }
}

/// decode with the layout; the value and the number of bytes left
pub fn loose(rule: &BinProtRule, b: &[u8]) -> Option<(Value, usize)> {
    // a byte per call, so that what was taken from the reader is what was used
    let mut r = OneByOne(b);
    let v = Value::deserialize(&mut Deserializer::from_reader(&mut r).with_layout(rule));
    v.ok().map(|v| (v, r.0.len()))
}
struct OneByOne<'a>(&'a [u8]);
impl<'a> std::io::Read for OneByOne<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() || self.0.is_empty() {
            return Ok(0);
        }
        buf[0] = self.0[0];
        self.0 = &self.0[1..];
        Ok(1)
    }
}

pub fn layout(k: u8) -> R {
    let b = |r: R| Box::new(r);
    match k {
        0 => Tup(vec![Unit, Bool, Char, Int]),
        1 => Rec(vec![("a", Int32), ("b", Rec(vec![("c", Bool), ("d", Opt(b(Char)))])), ("e", Unit)]),
        2 => Sum(vec![("Nil", vec![]), ("One", vec![Int64]), ("Two", vec![Bool, Char]), ("Rec", vec![Rec(vec![("x", Opt(b(Bool)))])])]),
        3 => Poly(vec![("One", vec![Native]), ("A", vec![]), ("Two", vec![Bool, Char])]),
        4 => List(b(Sum(vec![("F", vec![]), ("G", vec![Char])]))),
        5 => Opt(b(Tup(vec![Str, Bool]))),
        6 => List(b(List(b(Bool)))),
        7 => Tup(vec![Float, Opt(b(Opt(b(Unit))))]),
        8 => Rec(vec![("l", List(b(Rec(vec![("p", Char), ("q", Bool)])))), ("t", Char), ("u", Sum(vec![("S", vec![Unit])]))]),
        9 => Ref("M.A", b(Rec(vec![("v", Ref("M.B", b(Int))), ("w", Ref("M.C", b(Opt(b(Ref("M.D", b(Bool)))))))]))),
        10 => Sum(vec![("Leaf", vec![Int]), ("Node", vec![Sum(vec![("L", vec![]), ("R", vec![Bool])]), Char])]),
        11 => Poly(vec![("B", vec![Poly(vec![("Ab", vec![Char]), ("C", vec![])])]), ("Abcd", vec![])]),
        12 => Tup(vec![Opt(b(List(b(Char)))), Opt(b(List(b(Unit)))), Bool]),
        13 => List(b(Tup(vec![Bool, Opt(b(Char))]))),
        14 => Rec(vec![("only", List(b(Int)))]),
        15 => Sum(vec![("A", vec![Tup(vec![Char, Char]), List(b(Bool))]), ("B", vec![Opt(b(Int))])]),
        16 => Tup(vec![
            Rec(vec![("a", Char), ("b", Char), ("c", Bool), ("a", Char), ("e", Int), ("", Char), ("g", Char), ("h", Char), ("i", Char), ("j", Char), ("k", Char), ("l", Bool)]),
            Str,
        ]),
        17 => Tup(vec![Char, Char, Char, Bool, Char, Char, Char, Opt(b(Char)), Char, Char, Char]),
        18 => Sum(vec![
            ("A", vec![]),
            ("B", vec![Char]),
            ("C", vec![Char, Char, Char]),
            ("D", vec![Char, Char, Bool, Char, Char]),
            ("E", vec![Rec(vec![("x", Char), ("y", Char), ("z", Char)]), Char]),
            ("F", vec![Sum(vec![("A", vec![]), ("B", vec![Char])]), Sum(vec![("A", vec![Char]), ("B", vec![])])]),
            ("G", vec![]),
            ("H", vec![Opt(b(Tup(vec![Char, Char]))), Char]),
            ("I", vec![List(b(Char)), Char]),
            ("J", vec![Str, Str]),
            ("K", vec![Unit, Unit]),
            ("L", vec![Tup(vec![])]),
        ]),
        19 => Poly(vec![
            ("B", vec![Char]),
            ("A", vec![]),
            ("Ab", vec![Char, Char, Char]),
            ("Ba", vec![Rec(vec![("x", Char), ("y", Bool)]), Char]),
            ("Zzzz", vec![]),
            ("a", vec![Opt(b(Char))]),
            ("aB", vec![Sum(vec![("S", vec![Char]), ("T", vec![])])]),
            ("aaaa", vec![Char, Char, Char, Char]),
            ("Ok", vec![List(b(Char))]),
        ]),
        20 => Rec(vec![
            ("p", Opt(b(Tup(vec![Sum(vec![("S", vec![Rec(vec![("q", List(b(Opt(b(Tup(vec![Bool, Rec(vec![("r", Char)])]))))))])])]), Char])))),
            ("s", Char),
        ]),
        21 => Tup(vec![List(b(Poly(vec![("X", vec![]), ("Y", vec![Sum(vec![("M", vec![]), ("N", vec![Char])])])]))), Char]),
        22 => Rec(vec![("a", Rec(vec![])), ("b", Tup(vec![])), ("c", Rec(vec![("d", Rec(vec![("e", Unit), ("f", Rec(vec![("g", Char)]))])), ("h", Char)])), ("i", Char)]),
        23 => List(b(Rec(vec![("a", Char), ("b", List(b(Char))), ("c", Char)]))),
        24 => Ref("M.A", b(Tup(vec![Ref("M.B", b(List(b(Ref("M.C", b(Sum(vec![("V", vec![Ref("M.D", b(Char))])]))))))), Ref("M.E", b(Poly(vec![("W", vec![Ref("M.F", b(Bool))])])))]))),
        _ => Unit,
    }
}
/// shortest bound that lets every alternative of a layout complete
pub const LEN: [u8; 25] = [8, 8, 8, 9, 6, 6, 6, 10, 7, 7, 7, 9, 6, 6, 6, 6, 16, 13, 7, 9, 8, 10, 5, 8, 9];

/// decoding follows the layout exactly: same inputs, same value, same number of bytes
pub fn agree(k: u8) {
    let r = layout(k);
    let rule = rule(&r);
    let b = input(LEN[k as usize]);
    let mut c = Cur::new(&b);
    let want = dec(&r, &mut "", &mut c);
    match (loose(&rule, &b), want) {
        (Some((v, left)), Some(w)) => {
            sym::check(same(&v, &w), 1);
            sym::check(left == b.len() - c.p, 2);
            sym::cover(1)
        }
        (None, None) => sym::cover(2),
        (Some(_), None) => sym::check(false, 3),
        (None, Some(_)) => sym::check(false, 4),
    }
}
/// a decoded value is written back in canonical form, and reads back as itself
pub fn rewrite(k: u8) {
    let r = layout(k);
    let rule = rule(&r);
    let b = input(LEN[k as usize]);
    if let Some((v, left)) = loose(&rule, &b) {
        let mut out = Vec::new();
        sym::check(to_writer(&mut out, &v).is_ok(), 11);
        let mut want = Vec::new();
        enc(&v, &mut want);
        sym::check(out == want, 12);
        // canonical input comes back byte for byte
        let used = b.len() - left;
        if out.len() == used {
            sym::check(out[..] == b[..used], 13);
        } else {
            sym::check(out.len() < used, 14);
        }
        match loose(&rule, &out) {
            Some((w, l)) => {
                sym::check(same(&v, &w), 15);
                sym::check(l == 0, 16)
            }
            None => sym::check(false, 17),
        }
        sym::cover(1)
    }
}
/// whatever the bytes: an answer, no panic, no unpaid allocation
pub fn total(k: u8) {
    let rule = rule(&layout(k));
    let b = input(LEN[k as usize] + 1);
    match Value::deserialize(&mut Deserializer::from_reader(&b[..]).with_layout(&rule)) {
        Ok(_) => sym::cover(1),
        Err(_) => sym::cover(2),
    }
}

/// custom layouts: fixed-size vectors with their terminator, and 32 byte field elements
pub fn h_custom_vector() {
    let i = sym::choose(6) as usize;
    let (p, n) = VECTOR[i];
    let r = Tup(vec![Ref(p, Box::new(Custom(vec![Opt(Box::new(Unit))]))), Char]);
    let rule = rule(&r);
    // elements None/Some(()) and the terminator symbolic at one place each
    let at = sym::choose(n as u8 + 1) as usize;
    let x: [u8; 4] = sym::bytes();
    let mut b = Vec::new();
    for k in 0..n {
        if k == at {
            b.extend_from_slice(&x[..2]);
        } else {
            b.push(0)
        }
    }
    b.extend_from_slice(&x[2..]);
    let mut c = Cur::new(&b);
    let want = dec(&r, &mut "", &mut c);
    match (loose(&rule, &b), want) {
        (Some((v, left)), Some(w)) => {
            sym::check(same(&v, &w), 1);
            sym::check(left == b.len() - c.p, 2);
            let mut out = Vec::new();
            sym::check(to_writer(&mut out, &v).is_ok(), 3);
            sym::check(out[..] == b[..c.p], 4);
            sym::cover(1)
        }
        (None, None) => sym::cover(2),
        (Some(_), None) => sym::check(false, 5),
        (None, Some(_)) => sym::check(false, 6),
    }
}
pub fn h_custom_bigint() {
    let i = sym::choose(10) as usize;
    let r = Rec(vec![("h", Ref(BIGINT[i], Box::new(Custom(vec![])))), ("b", Bool)]);
    let rule = rule(&r);
    let n = 31 + sym::choose(4) as usize;
    let mut b = vec![0u8; n];
    sym::fill(&mut b);
    let mut c = Cur::new(&b);
    let want = dec(&r, &mut "", &mut c);
    match (loose(&rule, &b), want) {
        (Some((v, left)), Some(w)) => {
            sym::check(same(&v, &w), 1);
            sym::check(left == b.len() - c.p, 2);
            let mut out = Vec::new();
            sym::check(to_writer(&mut out, &v).is_ok(), 3);
            sym::check(out[..] == b[..c.p], 4);
            sym::cover(1)
        }
        (None, None) => sym::cover(2),
        (Some(_), None) => sym::check(false, 5),
        (None, Some(_)) => sym::check(false, 6),
    }
}
/// a custom type the crate does not know is an error, not a guess
pub fn h_custom_unknown() {
    let r = Ref("Some.Other.Path", Box::new(Custom(vec![Char])));
    let rule = rule(&r);
    let b = input(4);
    sym::check(loose(&rule, &b).is_none(), 1);
    let rule = self::rule(&Custom(vec![Char]));
    sym::check(loose(&rule, &b).is_none(), 2);
    sym::cover(1);
}

// layouts and the Rust types they describe
#[derive(Serialize, Deserialize, PartialEq)]
struct T1 {
    a: i32,
    b: T1b,
    e: (),
}
#[derive(Serialize, Deserialize, PartialEq)]
struct T1b {
    c: bool,
    d: Option<char>,
}
#[derive(Serialize, Deserialize, PartialEq)]
enum T2 {
    Nil,
    One(i64),
    Two(bool, char),
    Rec { x: Option<bool> },
}
#[derive(Serialize, Deserialize, PartialEq)]
#[serde(rename = "Polyvar")]
enum T3 {
    One(i64),
    A,
    Two(bool, char),
}
#[derive(Serialize, Deserialize, PartialEq)]
enum T4 {
    F,
    G(char),
}
#[derive(Serialize, Deserialize, PartialEq)]
struct T8 {
    l: Vec<(char, bool)>,
    t: char,
    u: T8u,
}
#[derive(Serialize, Deserialize, PartialEq)]
enum T8u {
    S(()),
}
/// typed and loose decoding of the same bytes give the same value
fn versus<X: serde::de::DeserializeOwned + Serialize>(k: u8, narrow: bool) {
    let rule = rule(&layout(k));
    let b = input(LEN[k as usize]);
    let mut de = Deserializer::from_reader(&b[..]);
    let t = X::deserialize(&mut de);
    match (t, loose(&rule, &b)) {
        (Ok(t), Some((v, left))) => {
            sym::check(de.rdr.buffer().len() == left, 21);
            let (mut x, mut y) = (Vec::new(), Vec::new());
            sym::check(to_writer(&mut x, &t).is_ok(), 22);
            sym::check(to_writer(&mut y, &v).is_ok(), 23);
            sym::check(x == y, 24);
            sym::cover(1)
        }
        (Err(_), None) => sym::cover(2),
        // a loose integer is 64 bits wide, the typed field may be narrower
        (Err(_), Some(_)) => sym::check(narrow, 25),
        (Ok(_), None) => sym::check(false, 26),
    }
}
pub fn h_versus_0() {
    versus::<((), bool, char, i64)>(0, false)
}
pub fn h_versus_1() {
    versus::<T1>(1, true)
}
pub fn h_versus_2() {
    versus::<T2>(2, false)
}
pub fn h_versus_3() {
    versus::<T3>(3, false)
}
pub fn h_versus_4() {
    versus::<Vec<T4>>(4, false)
}
pub fn h_versus_6() {
    versus::<Vec<Vec<bool>>>(6, false)
}
pub fn h_versus_7() {
    versus::<(F64, Option<Option<()>>)>(7, false)
}
pub fn h_versus_8() {
    versus::<T8>(8, false)
}
pub fn h_versus_12() {
    versus::<(Option<Vec<char>>, Option<Vec<()>>, bool)>(12, false)
}
pub fn h_versus_14() {
    versus::<Vec<i64>>(14, false)
}

/// typed struct with loose fields, read with a layout
#[derive(Serialize, Deserialize)]
struct Hybrid {
    a: Value,
    b: T1b,
    e: Value,
}
pub fn h_hybrid() {
    let r = layout(1);
    let rule = rule(&r);
    let b = input(LEN[1]);
    let mut c = Cur::new(&b);
    let want = dec(&r, &mut "", &mut c);
    let mut de = Deserializer::from_reader(&b[..]).with_layout(&rule);
    match (Hybrid::deserialize(&mut de), want) {
        (Ok(h), Some(w)) => {
            let (mut x, mut y) = (Vec::new(), Vec::new());
            sym::check(to_writer(&mut x, &h).is_ok(), 1);
            enc(&w, &mut y);
            sym::check(x == y, 2);
            sym::check(de.rdr.buffer().len() == b.len() - c.p, 3);
            sym::cover(1)
        }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 4),
        (Err(_), Some(_)) => sym::check(false, 5),
    }
}
/// unsupported rules answer with an error
pub fn h_nat0_rule() {
    let rule: BinProtRule = match serde_json::from_str("[\"Nat0\"]") {
        Ok(r) => r,
        Err(_) => return sym::check(false, 1),
    };
    let b = input(3);
    sym::check(loose(&rule, &b).is_none(), 2);
    sym::cover(1);
}
/// every kind of rule that has no decoding, wherever it stands: an error once it is reached
pub fn h_unsupported() {
    const X: [&str; 14] = [
        "[\"Nat0\"]",
        "[\"Bigstring\"]",
        "[\"Vec\",2,[\"Int\"]]",
        "[\"Hashtable\",{\"key_rule\":[\"Int\"],\"value_rule\":[\"Bool\"]}]",
        "[\"Type_var\",\"a\"]",
        "[\"Self_reference\",[[\"Int\"]]]",
        "[\"Type_abstraction\",[\"a\"],[\"Int\"]]",
        "[\"Type_closure\",[[\"a\",[\"Int\"]]],[\"Int\"]]",
        "[\"Reference\",[\"Unresolved\",{\"params\":[],\"layout_id\":\"x\"}]]",
        "[\"Polyvar\",[[\"Inherited\",[\"Int\"]]]]",
        "[\"Custom\",[[\"Int\"]]]",
        "[\"Sum\",[{\"ctor_name\":\"A\",\"index\":256,\"ctor_args\":[]}]]",
        "[\"Sum\",[{\"ctor_name\":\"A\",\"index\":-1,\"ctor_args\":[]}]]",
        "[\"Reference\",[\"Resolved\",{\"source_type_decl\":\"t\",\"source_module_path\":\"Pickles_types.Vector.Vector4\",\"ref_rule\":[\"Custom\",[]]}]]",
    ];
    let x = X[sym::choose(14) as usize];
    let place = sym::choose(8);
    let (l, r) = [
        ("", ""),
        ("[\"Tuple\",[[\"Int\"],", "]]"),
        ("[\"Tuple\",[", ",[\"Int\"]]]"),
        ("[\"Record\",[{\"field_name\":\"a\",\"field_rule\":", "}]]"),
        ("[\"Option\",", "]"),
        ("[\"List\",", "]"),
        ("[\"Sum\",[{\"ctor_name\":\"A\",\"index\":0,\"ctor_args\":[]},{\"ctor_name\":\"B\",\"index\":1,\"ctor_args\":[", "]}]]"),
        ("[\"Reference\",[\"Resolved\",{\"source_type_decl\":\"t\",\"source_module_path\":\"p\",\"ref_rule\":", "}]]"),
    ][place as usize];
    let rule: BinProtRule = match serde_json::from_str(&[l, x, r].concat()) {
        Ok(r) => r,
        Err(_) => return sym::check(false, 1),
    };
    let b = input(4);
    // the list of none, the absent option and the other variant never reach it
    let short = place >= 4 && place <= 6 && !b.is_empty() && (b[0] == 0 || place == 5 && b.len() >= 3 && b[0] == 0xfe && (b[1] | b[2]) == 0);
    let r = loose(&rule, &b);
    sym::check(r.is_some() == short, 2);
    sym::cover(if short { 1 } else { 2 });
}
/// length prefixes of lists and strings in hostile input
pub fn h_loose_bomb() {
    let b = crate::seq::bomb();
    let r = match sym::choose(4) {
        0 => Str,
        1 => List(Box::new(Char)),
        2 => List(Box::new(Rec(vec![("a", Float), ("b", Char)]))),
        _ => Tup(vec![Str, Int]),
    };
    sym::check(loose(&rule(&r), &b).is_none(), 1);
    sym::cover(1);
}

// ---- indexing -------------------------------------------------------------------------------

fn list_val(n: usize) -> Vec<Value> {
    (0..n).map(|_| Value::Int(sym::i64())).collect()
}
/// numeric indexing returns the element, or panics exactly when there is none
pub fn h_index_num() {
    let n = sym::choose(4) as usize;
    let els = list_val(n);
    let v = match sym::choose(4) {
        0 => Value::List(els.clone()),
        1 => Value::Tuple(els.clone()),
        2 => Value::Sum { name: "S".into(), index: 1, value: Box::new(Value::Tuple(els.clone())) },
        _ => Value::Sum { name: "S".into(), index: 1, value: Box::new(Value::List(els.clone())) },
    };
    let i = sym::u64() as usize;
    if i < n {
        sym::check(same(&v[i], &els[i]), 1);
        sym::cover(1);
    } else {
        use bin_prot::value::Index;
        sym::check(i.index_into(&v).is_none(), 2);
        sym::check("a".index_into(&v).is_none(), 3);
        sym::cover(2);
    }
}
/// field access finds the field of that name, whatever its position and value
pub fn h_index_name() {
    use bin_prot::value::Index;
    let names = ["a", "ab", "b", ""];
    let n = sym::choose(4) as usize;
    let mut f = Vec::new();
    for k in names.iter().take(n) {
        f.push((k.to_string(), Value::Int(sym::i64())));
    }
    let v = match sym::choose(2) {
        0 => Value::Record(f.clone()),
        _ => Value::Sum { name: "S".into(), index: 0, value: Box::new(Value::Record(f.clone())) },
    };
    // any two byte key
    let k: [u8; 2] = sym::bytes();
    sym::assume(k[0] < 0x80 && k[1] < 0x80);
    let len = sym::choose(3) as usize;
    let key = match std::str::from_utf8(&k[..len]) {
        Ok(s) => s,
        Err(_) => return,
    };
    let mut want = None;
    for (name, val) in f.iter() {
        if name.as_bytes() == key.as_bytes() {
            want = Some(val);
        }
    }
    match (key.index_into(&v), want) {
        (Some(a), Some(b)) => {
            sym::check(same(a, b), 1);
            sym::check(same(&v[key], b), 2);
            sym::check(key.to_string().index_into(&v).is_some(), 5);
            sym::cover(1)
        }
        (None, None) => sym::cover(2),
        (Some(_), None) => sym::check(false, 3),
        (None, Some(_)) => sym::check(false, 4),
    }
    sym::check(0usize.index_into(&v).is_none(), 6);
}
/// scalars have no elements; `inner` gives back what the option holds
pub fn h_index_other() {
    use bin_prot::value::Index;
    let x = sym::i64();
    let i = sym::u64() as usize;
    let v = match sym::choose(8) {
        0 => Value::Unit,
        1 => Value::Int(x),
        2 => Value::Bool(x & 1 == 0),
        3 => Value::Char(x as u8),
        4 => Value::Option(Some(Box::new(Value::List(list_val(2))))),
        5 => Value::Polyvar { name: "P".into(), tag: x as u32, value: Box::new(Value::Unit) },
        6 => Value::Sum { name: "S".into(), index: 0, value: Box::new(Value::Int(x)) },
        _ => Value::Option(None),
    };
    sym::check(i.index_into(&v).is_none(), 1);
    sym::check("a".index_into(&v).is_none(), 2);
    if let Value::Option(o) = &v {
        match (v.inner(), o) {
            (Some(a), Some(b)) => sym::check(same(&a, b), 3),
            (None, None) => {}
            _ => sym::check(false, 4),
        }
        sym::cover(1);
    }
}

//! Layout files: each rule from its own name and parts, or an error.
use bin_prot::value::layout::{Polyvar, RuleRef};
use bin_prot::{BinProtRule, Deserializer, Layout, Value};
use serde::Deserialize;
use BinProtRule::*;

const PLAIN: [&str; 11] = ["Nat0", "Unit", "Bool", "String", "Char", "Int", "Int32", "Int64", "Native_int", "Float", "Bigstring"];
const ONE: [&str; 11] = ["Option", "Record", "Tuple", "Sum", "Polyvar", "List", "Hashtable", "Reference", "Type_var", "Self_reference", "Custom"];
const TWO: [&str; 3] = ["Vec", "Type_abstraction", "Type_closure"];

/// any letters, digits and underscores
fn letters(n: usize) -> String {
    let mut v = vec![0u8; n];
    sym::fill(&mut v);
    for c in &v {
        sym::assume((*c >= b'a') & (*c <= b'z') | (*c >= b'A') & (*c <= b'Z') | (*c >= b'0') & (*c <= b'9') | (*c == b'_'));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn read(s: &str) -> Opt<BinProtRule> {
    serde_json::from_str(s).ok()
}
/// which rule it is, by the place of its name above
fn which(r: &BinProtRule) -> (u8, usize) {
    match r {
        Nat0 => (0, 0),
        Unit => (0, 1),
        Bool => (0, 2),
        String => (0, 3),
        Char => (0, 4),
        Int => (0, 5),
        Int32 => (0, 6),
        Int64 => (0, 7),
        NativeInt => (0, 8),
        Float => (0, 9),
        Bigstring => (0, 10),
        Option(_) => (1, 0),
        Record(_) => (1, 1),
        Tuple(_) => (1, 2),
        Sum(_) => (1, 3),
        BinProtRule::Polyvar(_) => (1, 4),
        List(_) => (1, 5),
        Hashtable(_) => (1, 6),
        Reference(_) => (1, 7),
        TypeVar(_) => (1, 8),
        SelfReference(_) => (1, 9),
        Custom(_) => (1, 10),
        Vec(..) => (2, 0),
        TypeAbstraction(..) => (2, 1),
        TypeClosure(..) => (2, 2),
        CustomForPath(..) => (3, 0),
    }
}
use std::string::String;
use std::vec::Vec as List_;
use std::option::Option as Opt;

fn place(names: &[&str], t: &str) -> Opt<usize> {
    names.iter().position(|n| *n == t)
}
/// a name alone is one of eleven rules, or an error
pub fn h_layout_plain() {
    let t = letters([3, 4, 5, 6, 9, 10][sym::choose(6) as usize]);
    match read(&["[\"", &t, "\"]"].concat()) {
        Some(r) => {
            sym::check(place(&PLAIN, &t).map(|i| (0, i)) == Some(which(&r)), 1);
            sym::cover(1)
        }
        None => {
            sym::check(place(&PLAIN, &t).is_none(), 2);
            sym::cover(2)
        }
    }
}
/// a name with one part: the part must be of the kind the name asks for
const PARTS: [&str; 12] = [
    "[\"Int\"]",
    "[[\"Int\"],[\"Bool\"],[\"Unit\"]]",
    "\"a\"",
    "[{\"field_name\":\"a\",\"field_rule\":[\"Int\"]},{\"field_rule\":[\"Bool\"],\"field_name\":\"b\"}]",
    "[{\"ctor_name\":\"A\",\"index\":0,\"ctor_args\":[]},{\"ctor_name\":\"B\",\"index\":1,\"ctor_args\":[[\"Int\"]]}]",
    "[[\"Tagged\",{\"polyvar_name\":\"A\",\"hash\":65,\"polyvar_args\":[]}],[\"Inherited\",[\"Int\"]]]",
    "{\"key_rule\":[\"Int\"],\"value_rule\":[\"Bool\"]}",
    "[\"Resolved\",{\"source_type_decl\":\"t\",\"ref_rule\":[\"Int\"]}]",
    "[\"Unresolved\",{\"params\":[[\"Int\"]],\"layout_id\":\"x\"}]",
    "[]",
    "null",
    "7",
];
fn takes(tag: usize, part: usize) -> bool {
    match tag {
        0 | 5 => part == 0,
        1 => part == 3 || part == 9,
        2 | 9 | 10 => part == 1 || part == 9,
        3 => part == 4 || part == 9,
        4 => part == 5 || part == 9,
        6 => part == 6,
        7 => part == 7 || part == 8,
        8 => part == 2,
        _ => unreachable!(),
    }
}
fn ints(r: &BinProtRule) -> bool {
    which(r) == (0, 5)
}
pub fn h_layout_one() {
    let (tag, part) = (sym::choose(11) as usize, sym::choose(12) as usize);
    let r = read(&["[\"", ONE[tag], "\", ", PARTS[part], "]"].concat());
    sym::check(r.is_some() == takes(tag, part), 1);
    if let Some(r) = r {
        sym::check(which(&r) == (1, tag), 2);
        match r {
            Option(b) | List(b) => sym::check(ints(&b), 3),
            Tuple(v) | SelfReference(v) | Custom(v) => {
                let got: List_<_> = v.iter().map(which).collect();
                sym::check(got == if part == 9 { vec![] } else { vec![(0, 5), (0, 2), (0, 1)] }, 4)
            }
            Record(v) => sym::check(v.len() == if part == 9 { 0 } else { 2 }, 5),
            Sum(v) => sym::check(v.len() == if part == 9 { 0 } else { 2 }, 6),
            BinProtRule::Polyvar(v) => sym::check(part == 9 || (v.len() == 2 && matches!(v[0], Polyvar::Tagged(_)) && matches!(&v[1], Polyvar::Inherited(r) if ints(r))), 7),
            Reference(RuleRef::Resolved(_)) => sym::check(part == 7, 8),
            Reference(RuleRef::Unresolved(_)) => sym::check(part == 8, 9),
            TypeVar(s) => sym::check(s == "a", 10),
            _ => sym::check(part == 6, 11),
        }
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
/// any other name with one part or with two
pub fn h_layout_other() {
    let t = letters([3, 4, 5, 6, 7, 8, 9][sym::choose(7) as usize]);
    let two = sym::choose(2) == 1;
    let r = read(&["[\"", &t, "\",", if two { "2,[\"Int\"]]" } else { "[\"Int\"]]" }].concat());
    let fits = if two { t == "Vec" } else { t == "Option" || t == "List" };
    sym::check(r.is_some() == fits, 1);
    sym::cover(if fits { 1 } else { 2 });
}
/// a name with two parts
pub fn h_layout_two() {
    let (tag, a, b) = (sym::choose(3) as usize, sym::choose(4) as usize, sym::choose(3) as usize);
    let (x, y) = (b'0' + sym::u8() % 10, b'0' + sym::u8() % 10);
    let digits = [x, y];
    let digits = unsafe { std::str::from_utf8_unchecked(&digits) };
    sym::assume(x != b'0');
    let name = letters(2);
    let names = ["[\"", &name, "\",\"b\"]"].concat();
    let bound = ["[[\"", &name, "\",[\"Bool\"]]]"].concat();
    let first = [digits, &names, &bound, "-1"][a];
    let second = ["[\"Int\"]", "[[\"Int\"]]", "\"Int\""][b];
    let r = read(&["[\"", TWO[tag], "\",", first, ",", second, "]"].concat());
    sym::check(r.is_some() == (a == tag && b == 0), 1);
    match r {
        Some(Vec(n, r)) => sym::check(tag == 0 && n == (x - b'0') as usize * 10 + (y - b'0') as usize && ints(&r), 2),
        Some(TypeAbstraction(v, r)) => sym::check(tag == 1 && v.len() == 2 && v[0] == name && v[1] == "b" && ints(&r), 3),
        Some(TypeClosure(v, r)) => sym::check(tag == 2 && v.len() == 1 && v[0].0 == name && which(&v[0].1) == (0, 2) && ints(&r), 4),
        Some(_) => sym::check(false, 5),
        None => return sym::cover(2),
    }
    sym::cover(1)
}
/// what is no rule at all, alone or inside another
pub fn h_layout_shape() {
    let bad = ["[]", "[\"Int\",1,2,3]", "\"Int\"", "{}", "null", "[1]", "[[\"Int\"]]", "[\"Option\"]", "[\"Int\",[\"Int\"]]", "[\"Vec\",2]", "[\"Tuple\",[[\"Int\"],[\"Imt\"]]]",
        "[\"Sum\",[{\"ctor_name\":\"A\",\"index\":\"0\",\"ctor_args\":[]}]]", "[\"Sum\",[{\"ctor_name\":\"A\",\"index\":3000000000,\"ctor_args\":[]}]]",
        "[\"Sum\",[{\"ctor_name\":\"A\",\"ctor_args\":[]}]]", "[\"Record\",[{\"field_name\":\"a\"}]]", "[\"Reference\",[\"Resolved\",{\"source_type_decl\":\"t\"}]]",
        "[\"Reference\",[\"Resolve\",{}]]", "[\"Reference\",[\"Resolved\"]]", "[\"Polyvar\",[[\"Tagged\",{\"polyvar_name\":\"A\",\"hash\":-1,\"polyvar_args\":[]}]]]",
        "[\"Polyvar\",[[\"Inherited\"]]]", "[\"Hashtable\",{\"key_rule\":[\"Int\"]}]"][sym::choose(21) as usize];
    let s = match sym::choose(5) {
        0 => String::from(bad),
        1 => ["[\"Option\",", bad, "]"].concat(),
        2 => ["[\"Tuple\",[[\"Int\"],", bad, "]]"].concat(),
        3 => ["[\"Reference\",[\"Resolved\",{\"source_type_decl\":\"t\",\"source_module_path\":\"p\",\"ref_rule\":", bad, "}]]"].concat(),
        _ => ["[\"Sum\",[{\"ctor_name\":\"A\",\"index\":0,\"ctor_args\":[", bad, "]}]]"].concat(),
    };
    sym::check(read(&s).is_none(), 1);
    sym::cover(1);
}
/// the file around the rule
pub fn h_layout_file() {
    let keys = [("layout_loc", "\"l\""), ("version_opt", ["null", "3"][sym::choose(2) as usize]), ("type_decl", "\"t\""), ("bin_io_derived", "true"), ("bin_prot_rule", "[\"Option\",[\"Bool\"]]")];
    let (key, how) = (sym::choose(6) as usize, sym::choose(2));
    let mut s = String::from("{");
    for (i, (k, v)) in keys.iter().enumerate() {
        if key == i && how == 0 {
            continue;
        }
        if s.len() > 1 {
            s.push(',');
        }
        s.push('"');
        s.push_str(k);
        s.push_str("\":");
        s.push_str(if key == i { "{\"a\":0}" } else { v });
    }
    s.push('}');
    let r: Opt<Layout> = serde_json::from_str(&s).ok();
    // a file need not name a version
    sym::check(r.is_some() == (key == 5 || key == 1 && how == 0), 1);
    if let Some(l) = r {
        let b = sym::u8();
        sym::assume(b < 2);
        let bytes = [1, b];
        let mut d = Deserializer::from_reader(&bytes[..]).with_layout(&l.bin_prot_rule);
        match Value::deserialize(&mut d) {
            Ok(Value::Option(Some(v))) => sym::check(matches!(*v, Value::Bool(x) if x == (b == 1)), 2),
            _ => sym::check(false, 3),
        }
        sym::cover(1)
    } else {
        sym::cover(2)
    }
}
/// names, places and tags of variants and fields are the file's
pub fn h_layout_names() {
    let (n, m) = (letters(2), letters(2));
    let tag = [b'0' + sym::u8() % 10, b'0' + sym::u8() % 10];
    sym::assume(tag[0] >= b'1');
    sym::assume(tag[0] <= b'9' && tag[1] <= b'9');
    let t = unsafe { std::str::from_utf8_unchecked(&tag) };
    let value = (tag[0] - b'0') as u32 * 10 + (tag[1] - b'0') as u32;
    let rec = ["[\"Record\",[{\"field_name\":\"", &n, "\",\"field_rule\":[\"Bool\"]},{\"field_name\":\"", &m, "\",\"field_rule\":[\"Unit\"]}]]"].concat();
    let sum = ["[\"Sum\",[{\"ctor_name\":\"", &n, "\",\"index\":0,\"ctor_args\":[]},{\"ctor_name\":\"", &m, "\",\"index\":1,\"ctor_args\":[[\"Bool\"]]}]]"].concat();
    let poly = ["[\"Polyvar\",[[\"Tagged\",{\"polyvar_name\":\"", &n, "\",\"hash\":", t, ",\"polyvar_args\":[]}]]]"].concat();
    match sym::choose(3) {
        0 => {
            let r = read(&rec).unwrap();
            match Value::deserialize(&mut Deserializer::from_reader(&[1u8, 0][..]).with_layout(&r)) {
                Ok(Value::Record(v)) => sym::check(v.len() == 2 && v[0].0 == n && v[1].0 == m && matches!(v[0].1, Value::Bool(true)), 1),
                _ => sym::check(false, 2),
            }
            sym::cover(1)
        }
        1 => {
            let r = read(&sum).unwrap();
            match Value::deserialize(&mut Deserializer::from_reader(&[1u8, 0][..]).with_layout(&r)) {
                Ok(Value::Sum { name, index, .. }) => sym::check(name == m && index == 1, 3),
                _ => sym::check(false, 4),
            }
            sym::cover(2)
        }
        _ => {
            let r = read(&poly).unwrap();
            let b = (value << 1 | 1).to_le_bytes();
            match Value::deserialize(&mut Deserializer::from_reader(&b[..]).with_layout(&r)) {
                Ok(Value::Polyvar { name, tag, .. }) => sym::check(name == n && tag == value, 5),
                _ => sym::check(false, 6),
            }
            sym::cover(3)
        }
    }
}
pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_layout_plain, h_layout_one, h_layout_other, h_layout_two, h_layout_shape, h_layout_file, h_layout_names)
}

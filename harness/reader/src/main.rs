//! The layout reader, as a program: what it takes, prints, writes and refuses.
mod facade;
macro_rules! println {
    ($($t:tt)*) => { crate::facade::print(&[&std::format!($($t)*), "\n"].concat()) }
}
macro_rules! print {
    ($($t:tt)*) => { crate::facade::print(&std::format!($($t)*)) }
}
#[allow(unused)]
macro_rules! eprintln {
    ($($t:tt)*) => { drop(std::format!($($t)*)) }
}
#[allow(unused)]
mod app {
    include!(concat!(env!("OUT_DIR"), "/app.rs"));
}
use bin_prot::{Deserializer, Layout, Value};
use facade::{world, Outcome};
use serde::Deserialize;

fn host(n: &str) -> Option<String> {
    match n {
        "layout" => Some("layout.json".into()),
        "binary" => Some("data.bin".into()),
        "roundtrip" => world(|w| w.files.iter().any(|f| f.0 == "#roundtrip")).then(|| "".into()),
        "output" => world(|w| w.files.iter().any(|f| f.0 == "#output")).then(|| "out.txt".into()),
        _ => None,
    }
}
fn hex(b: &[u8]) -> Option<Vec<u8>> {
    let d = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    if b.len() % 2 == 1 {
        return None;
    }
    b.chunks(2).map(|p| Some(d(p[0])? * 16 + d(p[1])?)).collect()
}
const RULES: [&str; 6] = ["[\"Int\"]", "[\"Bool\"]", "[\"Tuple\",[[\"Bool\"],[\"Bool\"]]]", "[\"Option\",[\"Bool\"]]", "[\"List\",[\"Bool\"]]", "[\"Bigstring\"]"];
const BAD: [&str; 3] = ["{}", "{\"layout_loc\":\"l\"", "[\"Int\"]"];

fn run_it(layout: String, data: &[u8], text: bool) {
    let flags = sym::choose(6);
    let (trip, out) = (flags & 1 == 1, flags & 2 == 2);
    let locked = flags >= 4;
    let out = out || locked;
    let missing = sym::choose(3);
    // a longer file of an earlier run, or none
    let before = (out && sym::choose(2) == 1).then(|| vec![b'x'; 400]);
    // what the library makes of it
    let l: Option<Layout> = serde_json::from_str(&layout).ok();
    let bytes = match hex(data) {
        Some(b) => b,
        None => data.to_vec(),
    };
    let v: Option<Value> = l.and_then(|l| Value::deserialize(&mut Deserializer::from_reader(&bytes[..]).with_layout(&l.bin_prot_rule)).ok());
    let same = match &v {
        Some(v) => {
            let mut o = vec![];
            bin_prot::to_writer(&mut o, v).is_ok() && o == bytes
        }
        None => false,
    };
    let ok = v.is_some() && missing > 1 && (same || !trip);
    world(|w| {
        if missing != 0 {
            w.files.push(("layout.json".into(), layout.into_bytes()));
        }
        if missing != 1 {
            w.files.push(("data.bin".into(), data.to_vec()));
        }
        w.files.push(("old.txt".into(), b"old".to_vec()));
        if let Some(b) = &before {
            w.files.push(("out.txt".into(), b.clone()));
        }
        if trip {
            w.files.push(("#roundtrip".into(), vec![]));
        }
        if out {
            w.files.push(("#output".into(), vec![]));
        }
        w.locked = locked;
        w.allowed = ok && !locked;
    });
    structopt::host::set(host);
    // a difference found by the round trip ends the program with a panic
    sym::panic_ok(trip && v.is_some() && missing > 1 && !same);
    let r = app::start().good();
    sym::panic_ok(false);
    sym::check(r == (ok && !locked), 1);
    let (printed, file) = world(|w| (w.printed.clone(), w.files.iter().find(|f| f.0 == "out.txt").map(|f| f.1.clone())));
    if !ok || locked {
        sym::check(printed.is_empty(), 2);
        sym::check(file == before, 3);
        return sym::cover(2);
    }
    sym::check(printed.is_empty() == out, 4);
    sym::check(file.is_some() == out && (!out || file != before), 5);
    if text {
        if let Some(v) = &v {
            let want = format!("{:#?}", v);
            match file {
                Some(f) => sym::check(f == want.as_bytes(), 6),
                None => sym::check(printed == [want.as_bytes(), b"\n"].concat(), 7),
            }
        }
    }
    sym::cover(1);
}
fn file(rule: &str) -> String {
    ["{\"layout_loc\":\"l\",\"version_opt\":null,\"type_decl\":\"t\",\"bin_io_derived\":true,\"bin_prot_rule\":", rule, "}"].concat()
}
/// any bytes, as they are
pub fn h_reader_raw() {
    sym::stub_fmt(false);
    let rule = RULES[sym::choose(6) as usize];
    let mut b = vec![0u8; sym::choose(4) as usize];
    sym::fill(&mut b);
    run_it(file(rule), &b, false);
}
/// any text that may be hexadecimal
pub fn h_reader_hex() {
    sym::stub_fmt(false);
    let rule = RULES[sym::choose(4) as usize];
    let mut b = vec![0u8; sym::choose(6) as usize];
    sym::fill(&mut b);
    for c in &b {
        sym::assume((*c >= b'0') & (*c <= b'9') | (*c >= b'a') & (*c <= b'g') | (*c >= b'A') & (*c <= b'G'));
    }
    run_it(file(rule), &b, false);
}
/// what is printed is the value read
pub fn h_reader_text() {
    sym::stub_fmt(false);
    let rule = RULES[1 + sym::choose(4) as usize];
    let mut b = vec![0u8; 1 + sym::choose(3) as usize];
    sym::fill(&mut b);
    for c in &b {
        sym::assume(*c < 3);
    }
    run_it(file(rule), &b, true);
}
/// a layout that cannot be read
pub fn h_reader_layout() {
    sym::stub_fmt(false);
    run_it(BAD[sym::choose(3) as usize].to_string(), &[1], false);
}

fn run(n: &str) -> bool {
    sym::dispatch!(n, h_reader_raw, h_reader_hex, h_reader_text, h_reader_layout)
}
sym::entry!(run);

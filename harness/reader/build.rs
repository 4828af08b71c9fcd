//! The program's source, with `std` replaced by a facade whose files are in memory and whose
//! standard output is kept, and a way in.
fn main() {
    let src = "/repo/apps/bin-prot-layout-reader/src/main.rs";
    println!("cargo:rerun-if-changed={src}");
    let mut s = String::new();
    for l in std::fs::read_to_string(src).unwrap().lines() {
        // inner attributes and documentation cannot be included
        if !["#![", "//!"].iter().any(|p| l.trim_start().starts_with(p)) {
            s.push_str(&l.replace("::std::", "crate::facade::").replace("std::", "crate::facade::"));
            s.push('\n');
        }
    }
    s.push_str("pub fn start() -> impl crate::facade::Outcome { main() }\n");
    std::fs::write(format!("{}/app.rs", std::env::var("OUT_DIR").unwrap()), s).unwrap();
}

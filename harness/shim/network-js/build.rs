fn main() {
    // the browser back ends are only compiled for the browser
    println!("cargo:rustc-cfg=target_arch=\"wasm32\"");
}

// The binary defines getrandom() itself (src/entropy.rs): std and the rand crates look the
// symbol up dynamically, so it has to be exported.
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
}

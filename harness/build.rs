// lets the harness' own getrandom (src/entropy.rs) be found by the getrandom crate: random streams become part of the
// generated input
fn main() {
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
    println!("cargo:rerun-if-changed=build.rs");
}

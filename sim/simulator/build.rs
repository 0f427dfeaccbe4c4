fn main() {
    // the service .so must bind `getrandom` to the simulator's deterministic one
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}

fn main() {
    // the runtime interposes libc symbols; std looks some of them up with dlsym
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rerun-if-changed=build.rs");
}

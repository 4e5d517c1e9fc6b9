fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    // fixed addresses for statics: together with the arena and fixed stacks this
    // keeps address-dependent behaviour the same in every process
    println!("cargo:rustc-link-arg-bins=-no-pie");
}

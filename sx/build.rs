fn main() {
    println!("cargo:rustc-link-search=native=/usr/lib/llvm-18/lib");
    println!("cargo:rustc-link-lib=dylib=LLVM-18");
    println!("cargo:rerun-if-changed=build.rs");
}

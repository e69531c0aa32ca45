fn main() {
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
}

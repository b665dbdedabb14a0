fn main() {
    println!("cargo:rustc-cfg=target_arch=\"wasm32\"");
    println!("cargo:rerun-if-changed=target.rs");
}

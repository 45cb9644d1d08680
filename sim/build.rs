fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-link-arg-bin=simtl2=-Wl,--image-base=0x40000000");
}

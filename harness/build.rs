fn main() {
    println!("cargo:rustc-env=MON_TARGET={}", std::env::var("TARGET").unwrap());
}

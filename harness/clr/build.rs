// objects of the generated C++ code, for the native binary
fn main() {
    println!("cargo:rerun-if-env-changed=LAPEX_CXX_OBJ");
    if let Ok(v) = std::env::var("LAPEX_CXX_OBJ") {
        for o in v.split(':') { println!("cargo:rustc-link-arg={}", o); println!("cargo:rerun-if-changed={}", o) }
    }
}

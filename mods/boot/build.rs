fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let p = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("empty.dll");
    std::fs::write(&p, b"").unwrap();
    for v in ["CPP_LOADER_DLL_PATH", "CPP_LOADER_PROXY_PATH"] {
        println!("cargo:rustc-env={v}={}", p.display());
    }
}

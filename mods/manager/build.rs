//! The crate root is /repo's lib.rs with absolute module paths and the window
//! replaced; `hook` opens the private modules to the monitors.
fn main() {
    let src = "/repo/unreal_mod_manager/src";
    println!("cargo:rerun-if-changed={src}/lib.rs");
    let t = std::fs::read_to_string(format!("{src}/lib.rs")).unwrap();
    let mut out = String::new();
    for l in t.lines() {
        let w = l.trim();
        let w = w.strip_prefix("pub(crate) ").or(w.strip_prefix("pub ")).unwrap_or(w);
        match w.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            Some("app") => out += APP,
            Some(m) if m.chars().all(|c| c.is_alphanumeric() || c == '_') => {
                let file = [format!("{src}/{m}.rs"), format!("{src}/{m}/mod.rs")].into_iter().find(|f| std::path::Path::new(f).exists()).unwrap();
                out += &format!("#[path = {file:?}]\n{l}\n");
            }
            _ => {
                if !w.starts_with("//!") && !w.starts_with("#![") {
                    out += l;
                    out += "\n";
                }
            }
        }
    }
    let hook = std::path::Path::new(&std::env::var("CARGO_MANIFEST_DIR").unwrap()).join("src/hook.rs");
    println!("cargo:rerun-if-changed={}", hook.display());
    out += &format!("#[path = {:?}]\npub mod hook;\n", hook);
    let o = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("root.rs");
    std::fs::write(o, out).unwrap();
}
const APP: &str = r#"
mod app {
    pub(crate) struct ModLoaderApp { pub window_title: String }
    impl ModLoaderApp {
        #[allow(clippy::too_many_arguments)]
        pub fn new<A, B, C, D, E, F, G, H, I>(_: A, _: B, window_title: String, _: C, _: D, _: E, _: F, _: G, _: H, _: I) -> Self {
            ModLoaderApp { window_title }
        }
    }
    impl eframe::App for ModLoaderApp {}
}
"#;

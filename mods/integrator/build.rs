#[path = "../vm/src/mini.rs"]
mod mini;
use std::path::Path;
fn main() {
    println!("cargo:rerun-if-changed=../vm/src/mini.rs");
    println!("cargo:rerun-if-changed=build.rs");
    let to = Path::new(&std::env::var("OUT_DIR").unwrap())
        .join("ModIntegrator/Saved/Cooked/WindowsNoEditor/ModIntegrator/Content/Integrator");
    std::fs::create_dir_all(&to).unwrap();
    for (n, mut k) in [("IntegratorStatics_BP", mini::statics()), ("ListOfMods", mini::list_of_mods())] {
        let (a, b) = k.encode();
        std::fs::write(to.join(format!("{n}.uasset")), a).unwrap();
        std::fs::write(to.join(format!("{n}.uexp")), b.unwrap()).unwrap();
    }
    for n in mini::COPIED {
        for x in ["uasset", "uexp"] {
            std::fs::write(to.join(format!("{n}.{x}")), mini::copied(n, x)).unwrap();
        }
    }
}

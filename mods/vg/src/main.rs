#[path = "../../../harness/src/core.rs"]
mod core;
#[path = "../../../harness/src/driver.rs"]
mod driver;
#[path = "../../vm/src/mini.rs"]
#[allow(dead_code)]
mod mini;
#[path = "../../vm/src/p_integ.rs"]
#[allow(dead_code)]
mod p_integ;
#[path = "../../../harness/src/pakref.rs"]
#[allow(dead_code)]
mod pakref;
mod p_config;
mod p_graph;
mod p_manager;
mod web;

pub use driver::verif_dir;
use driver::Check;

fn registry() -> Vec<(&'static str, Check)> {
    vec![("G01", p_graph::g01 as Check), ("G02", p_manager::g02), ("G03", p_manager::g03), ("G04", p_manager::g04), ("G05", p_manager::g05)]
}
fn main() {
    for v in ["http_proxy", "HTTP_PROXY", "https_proxy", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"] {
        std::env::remove_var(v);
    }
    // loading the system's certificates for every request takes most of the time, and nothing here uses them
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    std::env::set_var("SSL_CERT_DIR", "/nonexistent");
    if std::env::args().nth(1).as_deref() == Some("--manager") {
        std::process::exit(p_config::child(&std::env::args().nth(2).unwrap()));
    }
    driver::run(registry)
}

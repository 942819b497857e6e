#[path = "../../../harness/src/core.rs"]
mod core;
#[path = "../../../harness/src/driver.rs"]
mod driver;
#[path = "../../../harness/src/pakref.rs"]
#[allow(dead_code)]
mod pakref;
mod mini;
mod p_actors;
mod p_boot;
mod p_integ;

pub use driver::verif_dir;
use driver::Check;

fn registry() -> Vec<(&'static str, Check)> {
    vec![("I01", p_integ::i01 as Check), ("I02", p_actors::i02), ("I03", p_boot::i03)]
}
fn main() {
    driver::run(registry)
}

mod core;
mod driver;
mod pakref;
mod p_pak;
mod p_cli;
mod arch;
mod p_base;
mod p_asset;
mod p_edit;
mod p_kismet;
mod p_meta;
mod p_prop;
mod p_tags;
mod p_move;
mod p_extra;
mod p_ver;
mod p_reg;

pub use driver::verif_dir;
use driver::Check;

fn registry() -> Vec<(&'static str, Check)> {
    vec![
        ("P01", p_pak::p01 as Check),
        ("P02", p_pak::p02),
        ("P03", p_pak::p03),
        ("P04", p_pak::p04),
        ("P05", p_pak::p05),
        ("P06", p_pak::p06),
        ("C01", p_cli::c01),
        ("C02", p_cli::c02),
        ("C03", p_cli::c03),
        ("H01", p_base::h01),
        ("H02", p_base::h02),
        ("H03", p_base::h03),
        ("B01", p_base::b01),
        ("B02", p_base::b02),
        ("B03", p_base::b03),
        ("B04", p_base::b04),
        ("B05", p_base::b05),
        ("B06", p_ver::b06),
        ("A01", p_asset::a01),
        ("A03", p_asset::a03),
        ("A04", p_edit::a04),
        ("A05", p_prop::a05),
        ("A06", p_kismet::a06),
        ("A07", p_move::a07),
        ("D01", p_meta::d01),
        ("R01", p_reg::r01),
        ("U01", p_extra::u01),
        ("X01", p_extra::x01),
    ]
}

fn main() {
    // bin/check never does this: it is how recorded/properties.txt was made
    if let Some(f) = std::env::var_os("VH_RECORD_PROPERTIES") {
        std::fs::write(f, p_prop::record(40)).unwrap();
        return;
    }
    if let Some(f) = std::env::var_os("VH_RECORD_VERSIONS") {
        std::fs::write(f, p_ver::facts()).unwrap();
        return;
    }
    driver::run(registry)
}

include!(concat!(env!("OUT_DIR"), "/root.rs"));

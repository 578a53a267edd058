//! Collects the entry points (`entry!(name, ..)`) into a table for the replay program.
use std::fmt::Write;
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut t = String::from("pub static TABLE: &[(&str, extern \"C\" fn())] = &[\n");
    for f in std::fs::read_dir("src").unwrap() {
        let p = f.unwrap().path();
        if p.extension().is_none_or(|e| e != "rs") {
            continue;
        }
        let m = p.file_stem().unwrap().to_str().unwrap().to_string();
        let mut cfg = false;
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            // an entry may depend on the hooks
            let skip = cfg && std::env::var_os("CARGO_CFG_YAMUX_VERIF").is_none();
            cfg = l.starts_with("#[cfg(yamux_verif)]");
            if skip {
                continue;
            }
            if let Some(r) = l.strip_prefix("entry!(") {
                let n = r.split(',').next().unwrap();
                writeln!(t, "    (\"{n}\", harness::{m}::{n}),").unwrap();
            }
        }
    }
    t.push_str("];\n");
    let o = std::path::PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("table.rs");
    std::fs::write(o, t).unwrap();
}

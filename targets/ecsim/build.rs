//! Puts the source of the `ec` binary into one file that `main.rs` includes: its modules become
//! public, its arguments come from the simulator, and `main` becomes an ordinary function.
use std::{env, fs, path::{Path, PathBuf}};

fn inline(file: &Path, dir: &Path, out: &mut String) {
    println!("cargo:rerun-if-changed={}", file.display());
    let text = fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
    for line in text.lines() {
        let t = line.trim();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        let code = t.split("//").next().unwrap().trim();
        let decl = code.strip_suffix(';').and_then(|c| {
            let mut w = c.split_whitespace().collect::<Vec<_>>();
            if w.first().is_some_and(|x| x.starts_with("pub")) {
                w.remove(0);
            }
            (w.len() == 2 && w[0] == "mod").then(|| w[1].to_string())
        });
        match decl {
            Some(m) => {
                let flat = dir.join(format!("{m}.rs"));
                let deep = dir.join(&m).join("mod.rs");
                out.push_str(&format!("#[allow(unused, dead_code)] pub mod {m} {{\n"));
                inline(if flat.exists() { &flat } else { &deep }, &dir.join(&m), out);
                out.push_str("}\n");
            }
            None => {
                out.push_str(line);
                out.push('\n');
            }
        }
    }
}
fn main() {
    // crates that look the seams up by name at run time must find them
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    let dir = PathBuf::from("/repo/ethereum-consensus/src/bin/ec");
    println!("cargo:rerun-if-changed={}", dir.display());
    let mut out = String::new();
    inline(&dir.join("main.rs"), &dir, &mut out);
    let out = out.replace("fn main()", "pub fn ec_main()").replace("Cli::parse()", "<Cli as clap::Parser>::parse_from(crate::stdio::argv())");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("ec.rs"), out).unwrap();
}

// takes the module list of the real generator from its main.rs, so that new modules are found
fn main() {
    let src = "/repo/spec-gen/src";
    println!("cargo:rerun-if-changed={src}");
    let main = std::fs::read_to_string(format!("{src}/main.rs")).unwrap();
    let mut o = String::new();
    for l in main.lines() {
        let l = l.trim();
        let l = l.strip_prefix("pub ").unwrap_or(l);
        if let Some(m) = l.strip_prefix("mod ").and_then(|m| m.strip_suffix(';')) {
            let mut p = format!("{src}/{m}.rs");
            if !std::path::Path::new(&p).exists() {
                p = format!("{src}/{m}/mod.rs");
            }
            o.push_str(&format!("#[allow(dead_code)]\n#[path = \"{p}\"]\npub mod {m};\n"));
        }
    }
    std::fs::write(format!("{}/mods.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}

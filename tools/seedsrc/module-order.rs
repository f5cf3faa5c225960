//! the generator writes the same modules in every run
#[path = "@REPO@/spec-gen/src/generator.rs"]
#[allow(dead_code)]
mod generator;
#[path = "@REPO@/spec-gen/src/visitors.rs"]
#[allow(dead_code)]
mod visitors;
use std::{collections::BTreeMap, fs, path::Path, process::Command};
fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let t = to.join(e.file_name());
        if e.path().is_dir() {
            copy(&e.path(), &t)
        } else {
            fs::copy(e.path(), t).unwrap();
        }
    }
}
fn main() {
    let mut args = std::env::args().skip(1);
    if args.next().is_some() {
        // a run of the generator, inside the scratch directory
        return generator::run();
    }
    let scratch = std::env::current_dir().unwrap().join("scratch");
    let mut first: Option<BTreeMap<String, Vec<u8>>> = None;
    for run in 0..6 {
        let dir = scratch.join(run.to_string());
        copy(Path::new("@REPO@/ethereum-consensus/src"), &dir.join("ethereum-consensus/src"));
        let out = Command::new(std::env::current_exe().unwrap()).arg("run").current_dir(&dir).output().unwrap();
        assert!(out.status.success(), "{}", String::from_utf8_lossy(&out.stderr));
        let mut files = BTreeMap::new();
        for fork in ["altair", "bellatrix", "capella", "deneb", "electra"] {
            let f = dir.join(format!("ethereum-consensus/src/{fork}/spec/mod.rs"));
            files.insert(fork.to_string(), fs::read(f).unwrap());
        }
        match &first {
            None => first = Some(files),
            Some(f) => {
                for (k, v) in f {
                    if files[k] != *v {
                        println!("run {run} wrote another module for {k}");
                        std::process::exit(1);
                    }
                }
            }
        }
    }
}

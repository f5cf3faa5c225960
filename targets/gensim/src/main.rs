//! G01: the generator of the fork modules and polymorphic types, run over simulated file systems,
//! hash seeds and source histories.
#![allow(clippy::all)]
include!(concat!(env!("OUT_DIR"), "/mods.rs"));
mod simfs;

use quote::ToTokens;
use simkit::{guard, hash_bytes, Rng, Sim, Target};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::{Path, PathBuf},
    sync::{Mutex, OnceLock},
};
use syn::{visit_mut::VisitMut, Item};

const SRC: &str = "ethereum-consensus/src";
const FORKS: [&str; 6] = ["phase0", "altair", "bellatrix", "capella", "deneb", "electra"];
type Tree = BTreeMap<String, Vec<u8>>;

fn load(dir: &Path, base: &Path, o: &mut Tree) {
    for e in std::fs::read_dir(dir).unwrap() {
        let p = e.unwrap().path();
        if p.is_dir() {
            load(&p, base, o)
        } else {
            o.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap());
        }
    }
}
fn fixture(which: &str) -> &'static Tree {
    static IN: OnceLock<Tree> = OnceLock::new();
    static OUT: OnceLock<Tree> = OnceLock::new();
    (if which == "in" { &IN } else { &OUT }).get_or_init(|| {
        let mut t = Tree::new();
        let d = simkit::verif_root().join("targets/gensim/fixture").join(which);
        load(&d, &d, &mut t);
        t
    })
}
/// the sources as they are now, as far as the generator reads them, and the modules checked in
fn current() -> &'static Tree {
    static T: OnceLock<Tree> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tree::new();
        for f in FORKS {
            let d = Path::new("/repo").join(SRC).join(f);
            if d.is_dir() {
                load(&d, Path::new("/repo"), &mut t);
            }
        }
        t.retain(|k, _| k.ends_with(".rs") && !k.ends_with("/spec/mod.rs"));
        t
    })
}

// ------------------------------------------------------------------ running the generator

struct Scratch(PathBuf);
impl Scratch {
    fn new(tree: &Tree) -> Self {
        static N: Mutex<u64> = Mutex::new(0);
        let n = {
            let mut n = N.lock().unwrap();
            *n += 1;
            *n
        };
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("gensim-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        let s = Self(d);
        s.put(tree);
        std::fs::create_dir_all(s.0.join(SRC).join("types")).unwrap();
        s
    }
    fn put(&self, tree: &Tree) {
        for (p, b) in tree {
            let p = self.0.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, b).unwrap();
        }
    }
    fn outputs(&self, inputs: &Tree) -> Tree {
        let mut t = Tree::new();
        load(&self.0, &self.0, &mut t);
        t.retain(|k, v| inputs.get(k) != Some(v));
        t
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Default, Clone)]
struct Faults {
    short: bool,
    interrupt: bool,
    fail: Option<(&'static str, u64, i32)>,
    disk: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cmd {
    Forks,
    Types,
}
/// one generator process: its own hash seed, its own view of the file system
fn generate(root: &Path, cmd: Cmd, seed: u64, f: &Faults) -> (Result<(), String>, BTreeMap<&'static str, u64>, BTreeMap<&'static str, u64>) {
    let root = root.to_string_lossy().into_owned();
    let f = f.clone();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            simkit::os::seed_entropy(seed);
            simfs::enter(simfs::Box_ {
                root,
                rng: Rng::new(seed),
                short: f.short,
                interrupt: f.interrupt,
                fail: f.fail,
                disk: f.disk,
                counts: BTreeMap::new(),
                fired: BTreeMap::new(),
                last_interrupt: false,
            });
            let r = guard(|| match cmd {
                Cmd::Forks => generator::run(),
                Cmd::Types => type_generator::run(),
            });
            let b = simfs::leave().unwrap();
            (r.map_err(|p| p.message), b.counts, b.fired)
        })
        .unwrap()
        .join()
        .unwrap()
}

// ------------------------------------------------------------------ what the generator must write

struct Strip;
impl VisitMut for Strip {
    fn visit_path_segment_mut(&mut self, i: &mut syn::PathSegment) {
        if matches!(i.arguments, syn::PathArguments::AngleBracketed(_)) {
            i.arguments = syn::PathArguments::None;
        }
        syn::visit_mut::visit_path_segment_mut(self, i);
    }
    fn visit_expr_method_call_mut(&mut self, i: &mut syn::ExprMethodCall) {
        i.turbofish = None;
        syn::visit_mut::visit_expr_method_call_mut(self, i);
    }
}
/// a function without its generic arguments
fn shape(f: &syn::ItemFn) -> String {
    let mut f = f.clone();
    f.attrs.clear();
    f.sig.generics = Default::default();
    Strip.visit_item_fn_mut(&mut f);
    // laid out the same way on both sides
    let file = syn::File { shebang: None, attrs: vec![], items: vec![Item::Fn(f)] };
    let file = syn::parse_file(&prettyplease::unparse(&file)).unwrap();
    file.to_token_stream().to_string()
}
#[derive(Clone)]
struct Def {
    fork: usize,
    module: String,
    item: Item,
}
/// public definitions of one fork by name
fn definitions(tree: &Tree, fork: usize) -> BTreeMap<String, Def> {
    let mut m = BTreeMap::new();
    let pre = format!("{SRC}/{}/", FORKS[fork]);
    for (p, b) in tree {
        if !fixture("in").contains_key(p) {
            continue;
        }
        let Some(module) = p.strip_prefix(&pre).and_then(|x| x.strip_suffix(".rs")).filter(|x| !x.contains('/')) else { continue };
        let Ok(file) = syn::parse_file(&String::from_utf8_lossy(b)) else { continue };
        for item in file.items {
            let (name, vis) = match &item {
                Item::Const(i) => (&i.ident, &i.vis),
                Item::Struct(i) => (&i.ident, &i.vis),
                Item::Fn(i) => (&i.sig.ident, &i.vis),
                Item::Type(i) => (&i.ident, &i.vis),
                Item::Trait(i) => (&i.ident, &i.vis),
                _ => continue,
            };
            if matches!(vis, syn::Visibility::Public(..)) {
                m.insert(name.to_string(), Def { fork, module: module.into(), item: item.clone() });
            }
        }
    }
    m
}
/// functions altair drops, as its accounting replaces them
const DROPPED: [&str; 13] = [
    "get_unslashed_attesting_indices",
    "get_matching_source_attestations",
    "get_matching_target_attestations",
    "get_matching_head_attestations",
    "get_source_deltas",
    "get_target_deltas",
    "get_head_deltas",
    "get_inclusion_delay_deltas",
    "get_inactivity_penalty_deltas",
    "get_attestation_deltas",
    "get_attestation_component_deltas",
    "get_attesting_balance",
    "process_participation_record_updates",
];
/// An expanded function names the types its fork defines with the parameters they have there.
fn current_types(f: &syn::ItemFn, newest: &BTreeMap<String, Def>, fork: usize) -> bool {
    struct V<'a>(&'a BTreeMap<String, Def>, usize, bool);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_path_mut(&mut self, i: &mut syn::TypePath) {
            syn::visit_mut::visit_type_path_mut(self, i);
            let Some(s) = i.path.segments.last() else { return };
            let Some(Def { fork, item: Item::Struct(d), .. }) = self.0.get(&s.ident.to_string()) else { return };
            if *fork != self.1 || i.path.segments.len() != 1 {
                return;
            }
            let want: Vec<String> = d.generics.params.iter().filter_map(|x| match x {
                syn::GenericParam::Const(c) => Some(c.ident.to_string()),
                syn::GenericParam::Type(c) => Some(c.ident.to_string()),
                _ => None,
            }).collect();
            let got: Vec<String> = match &s.arguments {
                syn::PathArguments::AngleBracketed(a) => a.args.iter().map(|x| x.to_token_stream().to_string()).collect(),
                _ => vec![],
            };
            self.2 &= want == got;
        }
    }
    let mut v = V(newest, fork, true);
    let mut sig = f.sig.clone();
    v.visit_signature_mut(&mut sig);
    v.2
}
/// a type the function names that a later fork defined anew
fn newer_type(f: &syn::ItemFn, newest: &BTreeMap<String, Def>, fork: usize) -> Option<String> {
    struct V<'a>(&'a BTreeMap<String, Def>, usize, Option<String>);
    impl<'a> VisitMut for V<'a> {
        fn visit_type_path_mut(&mut self, i: &mut syn::TypePath) {
            syn::visit_mut::visit_type_path_mut(self, i);
            let Some(s) = i.path.segments.last() else { return };
            let name = s.ident.to_string();
            if i.path.segments.len() == 1 && matches!(self.0.get(&name), Some(Def { fork, item: Item::Struct(_), .. }) if *fork > self.1) {
                self.2 = Some(name);
            }
        }
    }
    let mut v = V(newest, fork, None);
    v.visit_signature_mut(&mut f.sig.clone());
    v.2
}
/// Every generated module holds exactly one definition for each item its fork or an earlier one defines:
/// the newest.
fn check_merge(sim: &mut Sim, p: &str, tree: &Tree, out: &Tree) {
    let mut newest: BTreeMap<String, Def> = BTreeMap::new();
    // functions a fork had to adapt to its own types live in its generated module from then on
    let mut adapted: BTreeMap<String, usize> = BTreeMap::new();
    for (k, fork) in FORKS.iter().enumerate() {
        if k == 1 {
            for d in DROPPED {
                newest.remove(d);
            }
        }
        newest.extend(definitions(tree, k));
        let path = format!("{SRC}/{fork}/spec/mod.rs");
        let Some(b) = out.get(&path) else {
            sim.violate(p, "missing_output", format!("{path} was not written"));
            continue;
        };
        let file = match syn::parse_file(&String::from_utf8_lossy(b)) {
            Ok(f) => f,
            Err(e) => {
                sim.violate(p, "unparsable_output", format!("{path}: {e}"));
                continue;
            }
        };
        let mut seen: BTreeMap<String, (Vec<String>, Option<syn::ItemFn>)> = BTreeMap::new();
        for item in file.items {
            match item {
                Item::Use(u) => {
                    let mut parts = vec![];
                    let mut t = &u.tree;
                    let name = loop {
                        match t {
                            syn::UseTree::Path(x) => {
                                parts.push(x.ident.to_string());
                                t = &x.tree;
                            }
                            syn::UseTree::Name(x) => break Some(x.ident.to_string()),
                            _ => break None,
                        }
                    };
                    let Some(name) = name else { continue };
                    if parts.len() == 3 && parts[0] == "crate" && FORKS.contains(&parts[1].as_str()) && parts[2] != "fork" {
                        if seen.insert(name.clone(), (parts, None)).is_some() {
                            sim.violate(p, "defined_twice", format!("{path}: {name} twice"));
                        }
                    }
                }
                Item::Fn(f) => {
                    let name = f.sig.ident.to_string();
                    if seen.insert(name.clone(), (vec![], Some(f))).is_some() {
                        sim.violate(p, "defined_twice", format!("{path}: {name} twice"));
                    }
                }
                _ => {}
            }
        }
        adapted.extend(seen.iter().filter(|(_, (_, f))| f.is_some()).map(|(name, _)| (name.clone(), k)));
        for (name, d) in &newest {
            match seen.remove(name) {
                None => sim.violate(p, "item_lost", format!("{path}: {name} of {}/{} is missing", FORKS[d.fork], d.module)),
                Some((parts, None)) => {
                    let from = adapted.get(name).copied().filter(|x| *x > d.fork);
                    if let Item::Fn(src) = &d.item {
                        if let Some(t) = newer_type(src, &newest, from.unwrap_or(d.fork)) {
                            sim.violate(p, "stale_type", format!("{path}: {name} is taken over although {fork} has another {t}"));
                        }
                    }
                    if let (Some(x), true) = (from, parts[2] == "spec") {
                        if parts[1] != FORKS[x] {
                            sim.violate(p, "stale_item", format!("{path}: {name} is taken from {} but {} adapts it", parts[1], FORKS[x]));
                        }
                        sim.probe("adapted_function_taken_over");
                    } else if from.is_some() || parts[1] != FORKS[d.fork] || parts[2] != d.module {
                        sim.violate(p, "stale_item", format!("{path}: {name} is taken from {}/{} but {}/{} defines it", parts[1], parts[2], FORKS[d.fork], d.module));
                    }
                }
                Some((_, Some(f))) => match &d.item {
                    Item::Fn(src) if shape(src) == shape(&f) && !current_types(&f, &newest, k) => sim.violate(p, "stale_type", format!("{path}: {name} does not take the type of {fork}")),
                    Item::Fn(src) if shape(src) == shape(&f) => sim.probe("expanded_function_compared"),
                    Item::Fn(_) => sim.violate(p, "stale_body", format!("{path}: the body of {name} is not the one of {}/{}", FORKS[d.fork], d.module)),
                    _ => sim.violate(p, "wrong_kind", format!("{path}: {name}")),
                },
            }
        }
        let listed = |parts: &Vec<String>| parts.is_empty() || parts[2] == "spec" || fixture("in").contains_key(&format!("{SRC}/{}/{}.rs", parts[1], parts[2]));
        if let Some((name, _)) = seen.into_iter().find(|(_, (parts, _))| listed(parts)) {
            sim.violate(p, "item_invented", format!("{path}: {name} is defined nowhere"));
        }
        sim.probe("module_checked");
    }
}

/// a step in the life of the sources
fn edit(sim: &mut Sim, tree: &mut Tree, n: u64) -> Option<String> {
    let kind = match sim.choose(12) {
        k if k < 10 && (n > 1 || k != 4 && k != 9) => k,
        // first something new, then another definition of it
        k if n < 2 => *sim.pick(&[2, 3, 6, 7, 8, 1 + k % 2]),
        _ => 4,
    };
    let mut files: Vec<String> = tree.keys().cloned().collect();
    if sim.chance(2, 3) && kind != 5 {
        let late = kind == 4 || kind == 9;
        files.retain(|f| FORKS.iter().position(|x| f.contains(&format!("/{x}/"))).is_some_and(|k| if late { k > 1 } else { k < 3 }));
    }
    let f = sim.pick(&files).clone();
    let fork = FORKS.iter().position(|x| f.contains(&format!("/{x}/")))?;
    let mut text = String::from_utf8(tree[&f].clone()).ok()?;
    let what = match kind {
        0 => {
            text.push_str(&format!("\npub const SIM_CONST_{n}: u64 = {};\n", sim.choose(1000)));
            "new constant"
        }
        1 => {
            text.push_str(&format!("\npub fn sim_fn_{n}(a: u64) -> u64 {{ a.wrapping_mul({}) }}\n", sim.choose(1000)));
            "new function"
        }
        2 => {
            text.push_str(&format!("\n#[derive(Default)]\npub struct SimType{n} {{ pub a: u64 }}\n"));
            "new type"
        }
        3 => {
            text.push_str(&format!("\npub type SimAlias{n} = u64;\nfn sim_private_{n}() {{}}\nconst SIM_HIDDEN_{n}: u8 = 1;\nstruct SimHidden{n};\ntype SimHiddenAlias{n} = u8;\ntrait SimHiddenTrait{n} {{}}\n"));
            "new alias and private items"
        }
        6 => {
            text.push_str(&format!("\npub trait SimTrait{n} {{ fn a(&self) -> u64; }}\npub fn sim_bound_{n}<T: SimTrait{n}>(x: &T) -> u64 {{ x.a() }}\n"));
            "new trait and a function bounded by it"
        }
        8 => {
            text.push_str(&format!("\n#[derive(Default)]\npub struct SimBox{n}<const A: usize> {{ pub a: [u64; A] }}\npub trait SimTrait{n} {{ fn a(&self) -> u64; }}\npub fn sim_both_{n}<const A: usize, T: SimTrait{n}>(x: &SimBox{n}<A>, t: &T) -> u64 {{ x.a.len() as u64 ^ t.a() }}\n"));
            "new generic type, new trait and a function of both"
        }
        7 => {
            text.push_str(&format!("\n#[derive(Default)]\npub struct SimBox{n}<const A: usize> {{ pub a: [u64; A] }}\npub fn sim_of_{n}<const A: usize>(x: &SimBox{n}<A>) -> u64 {{ x.a.len() as u64 }}\n"));
            "new generic type and a function of it"
        }
        4 | 9 => {
            // a later fork redefines something an earlier fork defined
            let mut names: BTreeSet<(String, char)> = BTreeSet::new();
            for k in 0..fork {
                for (name, d) in definitions(tree, k) {
                    match d.item {
                        Item::Const(_) => names.insert((name, 'c')),
                        Item::Fn(_) if name.starts_with("sim_fn_") => names.insert((name, 'f')),
                        Item::Struct(_) if name.starts_with("SimBox") => names.insert((name, 'b')),
                        Item::Struct(_) if name.starts_with("SimType") => names.insert((name, 's')),
                        Item::Trait(_) if name.starts_with("SimTrait") => names.insert((name, 't')),
                        Item::Type(_) if name.starts_with("SimAlias") => names.insert((name, 'a')),
                        _ => false,
                    };
                }
            }
            for k in fork..FORKS.len() {
                let d = definitions(tree, k);
                names.retain(|x| !d.contains_key(&x.0));
            }
            if names.is_empty() {
                return None;
            }
            let mut v: Vec<_> = names.into_iter().collect();
            if v.iter().any(|x| x.1 != 'c') && sim.chance(2, 3) {
                v.retain(|x| x.1 != 'c');
            }
            let (name, kind) = sim.pick(&v).clone();
            // the trait a function of it is bounded by changes with it
            let along = name.replace("SimBox", "SimTrait");
            if kind == 'b' && v.iter().any(|x| x.0 == along) && sim.chance(1, 2) {
                text.push_str(&format!("\npub trait {along} {{ fn a(&self) -> u64; fn c(&self) -> u64; }}\n"));
            }
            let k = sim.choose(1000);
            text.push_str(&match kind {
                'c' => format!("\npub const {name}: usize = {k};\n"),
                'f' => format!("\npub fn {name}(a: u64) -> u64 {{ a ^ {k} }}\n"),
                'b' => format!("\n#[derive(Default)]\npub struct {name}<const A: usize, const B: usize> {{ pub a: [u64; A], pub b: [u64; B] }}\n"),
                's' => format!("\n#[derive(Default)]\npub struct {name} {{ pub a: u64, pub b: u64 }}\n"),
                't' => format!("\npub trait {name} {{ fn a(&self) -> u64; fn b(&self) -> u64; }}\n"),
                _ => format!("\npub type {name} = u32;\n"),
            });
            "redefinition in a later fork"
        }
        _ => {
            // the body of a function changes
            let Ok(mut file) = syn::parse_file(&text) else { return None };
            let mut fns: Vec<&mut syn::ItemFn> = file.items.iter_mut().filter_map(|i| match i {
                Item::Fn(f) => Some(f),
                _ => None,
            }).collect();
            if fns.is_empty() {
                return None;
            }
            let i = sim.choose(fns.len() as u64) as usize;
            let lit = syn::LitInt::new(&format!("{}u64", sim.choose(1 << 20)), proc_macro2::Span::call_site());
            let st: syn::Stmt = syn::parse_quote! { let _sim = #lit; };
            fns[i].block.stmts.insert(0, st);
            let lit: syn::File = file;
            text = lit.into_token_stream().to_string();
            "function body edited"
        }
    };
    tree.insert(f.clone(), text.into_bytes());
    Some(format!("{what} in {f}"))
}
fn tokens(b: &[u8]) -> String {
    syn::parse_file(&String::from_utf8_lossy(b)).map(|f| f.to_token_stream().to_string()).unwrap_or_default()
}
fn compare(sim: &mut Sim, p: &str, kind: &str, want: &Tree, got: &Tree, what: &str) {
    for (k, v) in want {
        match got.get(k) {
            Some(g) if g == v => {}
            Some(g) => {
                let at = v.iter().zip(g.iter()).position(|(a, b)| a != b).unwrap_or(v.len().min(g.len()));
                let cut = |x: &[u8]| String::from_utf8_lossy(&x[at.saturating_sub(40).min(x.len())..(at + 60).min(x.len())]).replace('\n', " ");
                sim.violate(p, kind, format!("{what}: {k} differs at byte {at}: {:?} instead of {:?}", cut(g), cut(v)));
            }
            None => sim.violate(p, kind, format!("{what}: {k} was not written")),
        }
    }
    if let Some(k) = got.keys().find(|k| !want.contains_key(*k)) {
        sim.violate(p, kind, format!("{what}: {k} was written as well"));
    }
}

/// the bytes the generator writes for a tree on a quiet file system
fn reference(tree: &Tree, cmd: Cmd) -> Result<Tree, String> {
    static C: OnceLock<Mutex<BTreeMap<(u64, bool), Result<Tree, String>>>> = OnceLock::new();
    let mut h = 0u64;
    for (k, v) in tree {
        h = simkit::mix(h ^ hash_bytes(k.as_bytes()) ^ hash_bytes(v).rotate_left(9));
    }
    let key = (h, cmd == Cmd::Forks);
    let cache = C.get_or_init(Default::default);
    if let Some(r) = cache.lock().unwrap().get(&key) {
        return r.clone();
    }
    let s = Scratch::new(tree);
    let (r, _, _) = generate(&s.0, cmd, 1, &Faults::default());
    let r = r.map(|_| s.outputs(tree));
    let mut c = cache.lock().unwrap();
    if c.len() > 40 {
        c.clear();
    }
    c.insert(key, r.clone());
    r
}

fn run(sim: &mut Sim) {
    let p = "G01";
    let mode = sim.choose(4);
    let cmd = if sim.chance(1, 3) { Cmd::Types } else { Cmd::Forks };
    let mut tree = if mode == 3 { current().clone() } else { fixture("in").clone() };
    let mut edited = 0;
    if mode >= 1 && cmd == Cmd::Forks {
        for n in 0..sim.choose(9) {
            if let Some(w) = edit(sim, &mut tree, n) {
                sim.log(w);
                edited += 1;
            }
        }
    }
    sim.log(format!("{cmd:?} mode {mode} edits {edited}"));
    let want = match reference(&tree, cmd) {
        Ok(w) => w,
        Err(e) if mode == 3 => {
            // a construct the generator does not know: it says so instead of writing something else
            sim.log(e);
            return;
        }
        Err(e) => {
            sim.violate(p, "generator_fails", format!("{cmd:?} on {} sources with {edited} edits: {e}", "the reference"));
            return;
        }
    };
    if mode == 0 || (mode < 3 && edited == 0) {
        let golden: Tree = fixture("out").iter().filter(|(k, _)| k.contains("/types/") == (cmd == Cmd::Types)).map(|(k, v)| (k.clone(), v.clone())).collect();
        // layout is free, the program is not
        if golden.iter().any(|(k, v)| want.get(k) != Some(v)) {
            let a: Tree = golden.iter().map(|(k, v)| (k.clone(), tokens(v).into_bytes())).collect();
            let b: Tree = want.iter().map(|(k, v)| (k.clone(), tokens(v).into_bytes())).collect();
            compare(sim, p, "not_the_modules_of_the_sources", &a, &b, "for the reference sources");
        }
        sim.probe("golden_compared");
    }
    if cmd == Cmd::Forks {
        check_merge(sim, p, &tree, &want);
    }
    if sim.found() {
        return;
    }
    // several generator processes one after the other over the same tree, each with its own hash seed,
    // any of which may be hit by a fault
    let s = Scratch::new(&tree);
    let runs = sim.range(1, 3);
    for i in 0..runs {
        let mut f = Faults { short: sim.chance(1, 3), interrupt: sim.chance(1, 3), ..Default::default() };
        let hard = sim.chance(1, 2);
        if hard {
            let opens = if cmd == Cmd::Forks { 70 } else { 60 };
            match sim.choose(5) {
                0 => f.fail = Some(("open", 1 + sim.choose(opens), *sim.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM]))),
                1 => f.fail = Some(("read", 1 + sim.choose(140), libc::EIO)),
                2 => f.fail = Some(("write", 1 + sim.choose(10), *sim.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]))),
                3 => f.fail = Some(("mkdir", 1 + sim.choose(8), *sim.pick(&[libc::EACCES, libc::ENOSPC]))),
                _ => f.disk = Some(sim.choose(700_000)),
            }
        }
        let seed = sim.choose(1 << 40);
        let (r, counts, fired) = generate(&s.0, cmd, seed, &f);
        sim.stats.steps += counts.values().sum::<u64>();
        let mut hit = false;
        for (k, n) in &fired {
            *sim.stats.faults.entry(k.to_string()).or_default() += n;
            hit |= !matches!(*k, "short_read" | "short_write" | "interrupted_call");
        }
        sim.count_fault("hash_seed");
        sim.state_of(&format!("{cmd:?} {mode} {edited} {:?} {} {}", fired.keys().collect::<Vec<_>>(), r.is_ok(), hash_bytes(&seed.to_le_bytes())));
        sim.log(format!("run {i}: {r:?} {fired:?}"));
        match r {
            Ok(()) => {
                let got = s.outputs(&tree);
                sim.nontrivial = true;
                sim.probe("output_compared");
                // what an earlier failed run left behind must be overwritten as well
                compare(sim, p, if hit { "fault_hidden" } else { "not_deterministic" }, &want, &got, &format!("{cmd:?} run {i} (faults {fired:?})"));
                if !hit && i > 0 {
                    sim.probe("regenerated");
                }
            }
            Err(e) => {
                if !hit {
                    sim.violate(p, "spurious_failure", format!("{cmd:?} run {i}: {e}"));
                }
                sim.probe("failed_loudly");
                // the next process over the torn output
                let (r, _, _) = generate(&s.0, cmd, seed ^ 1, &Faults::default());
                match r {
                    Ok(()) => compare(sim, p, "no_recovery", &want, &s.outputs(&tree), "after a failed run"),
                    Err(e) => sim.violate(p, "no_recovery", format!("{cmd:?} after a failed run: {e}")),
                }
                sim.probe("recovered");
            }
        }
        if sim.found() {
            return;
        }
    }
}

fn main() {
    let property = simkit::arg("--property").expect("--property");
    assert_eq!(property, "G01");
    // load before threads share the work
    fixture("in");
    fixture("out");
    current();
    simkit::main_for(Target {
        name: "gensim",
        property,
        run: Box::new(run),
        rule: "each run draws sources (reference, edited or current), generator processes with their own hash seeds, and file-system faults; non-trivial: at least one complete output was compared".into(),
        state_measure: "distinct (command, source kind, edits, faults fired, outcome, hash seed) tuples".into(),
        real: vec!["spec-gen: generator, type_generator, visitors".into(), "syn, prettyplease".into()],
        stubs: vec!["file-system calls: redirected to a scratch directory, with faults".into(), "OS randomness (hash seeds)".into()],
        assumptions: vec!["the reference sources are those of the pinned commit without comments' tests".into()],
        required_probes: vec!["output_compared".into(), "golden_compared".into(), "module_checked".into(), "failed_loudly".into(), "expanded_function_compared".into()],
        quick_s: 25.0,
        thorough_s: 600.0,
        min_runs: 30,
        max_runs_quick: 100_000,
    })
}

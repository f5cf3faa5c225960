//! Deterministic-simulation kit: one seed decides every choice of a run; every run can be replayed
//! from its recorded choice sequence, and a failing sequence is minimised before it is reported.
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub mod os;

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
    }
    h
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Self(mix(seed ^ 0x5851F42D4C957F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Violation {
    pub property: String,
    /// class of the violation: minimisation keeps it, known findings are matched on it
    pub kind: String,
    pub message: String,
    /// number of trace lines already written when it was detected
    pub at: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub sim_ns: u128,
    pub steps: u64,
}

/// One simulated execution.
pub struct Sim {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub choices: Vec<u64>,
    pub trace: Vec<String>,
    pub trace_lines: u64,
    pub trace_hash: u64,
    keep_trace: bool,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub property: String,
    pub thorough: bool,
    pub run_index: u64,
    pub nontrivial: bool,
    /// violations of other properties seen on the way; reported as information only
    stop: bool,
}

impl Sim {
    pub fn new(seed: u64, run_index: u64, replay: Option<Vec<u64>>, property: &str, thorough: bool) -> Self {
        Self {
            rng: Rng::new(mix(seed).wrapping_add(run_index)),
            replay,
            pos: 0,
            choices: vec![],
            trace: vec![],
            trace_lines: 0,
            trace_hash: 0,
            keep_trace: false,
            stats: Stats::default(),
            violations: vec![],
            property: property.into(),
            thorough,
            run_index,
            nontrivial: false,
            stop: false,
        }
    }
    /// choose an integer in `0..n`; 0 is the simplest choice and what minimisation moves towards
    pub fn choose(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                if v >= n {
                    v % n
                } else {
                    v
                }
            }
            None => self.rng.below(n),
        };
        self.pos += 1;
        self.choices.push(v);
        v
    }
    /// inclusive range; the low end is the simplest
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        let span = hi - lo;
        if span == u64::MAX {
            return self.bits64();
        }
        lo + self.choose(span + 1)
    }
    pub fn bits64(&mut self) -> u64 {
        let a = self.choose(1 << 32);
        let b = self.choose(1 << 32);
        (a << 32) | b
    }
    /// true with probability num/den; false is the simplest choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        let v = self.choose(den);
        v >= den.saturating_sub(num)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.choose(items.len() as u64) as usize;
        &items[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let seed = self.choose(1 << 48);
        let mut r = Rng::new(seed);
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&r.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i as u64 - self.choose(i as u64 + 1);
            v.swap(i, j as usize);
        }
    }
    /// inject a fault of this kind?  counts only those that fire
    pub fn fault(&mut self, kind: &str, num: u64, den: u64) -> bool {
        let f = self.chance(num, den);
        if f {
            self.count_fault(kind);
        }
        f
    }
    pub fn count_fault(&mut self, kind: &str) {
        *self.stats.faults.entry(kind.into()).or_default() += 1;
    }
    pub fn probe(&mut self, name: &str) {
        *self.stats.probes.entry(name.into()).or_default() += 1;
    }
    pub fn state(&mut self, h: u64) {
        self.stats.states.insert(h);
    }
    pub fn state_of(&mut self, s: &str) {
        self.stats.states.insert(hash_bytes(s.as_bytes()));
    }
    pub fn advance(&mut self, ns: u128) {
        self.stats.sim_ns += ns;
    }
    pub fn log(&mut self, line: impl AsRef<str>) {
        let line = line.as_ref();
        self.trace_lines += 1;
        self.trace_hash = mix(self.trace_hash ^ hash_bytes(line.as_bytes()));
        if self.keep_trace || self.trace.len() < 40 {
            self.trace.push(line.to_string());
        }
    }
    pub fn violate(&mut self, property: &str, kind: impl Into<String>, message: impl Into<String>) {
        let (kind, message) = (kind.into(), message.into());
        self.log(format!("VIOLATED {property} [{kind}] {message}"));
        if !self.violations.iter().any(|v| v.property == property && v.kind == kind) {
            self.violations.push(Violation {
                property: property.into(),
                kind,
                message,
                at: self.trace_lines,
            });
        }
    }
    pub fn found(&self) -> bool {
        self.violations.iter().any(|v| v.property == self.property && !is_known(v))
    }
    pub fn stop(&mut self) {
        self.stop = true;
    }
    pub fn stopped(&self) -> bool {
        self.stop
    }
}

// ------------------------------------------------------------------ guarding the code under test

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
    static QUIET: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}
#[derive(Clone, Debug)]
pub struct Panic {
    pub message: String,
    pub location: String,
}
pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        // no line numbers: a shifted line must not change the class of a violation
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
        if QUIET.with(|q| q.get()) == 0 {
            default(info);
        }
    }));
}
/// Run code under test; a panic becomes an error value.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| {
        let (message, location) =
            LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("panic".into(), "".into()));
        Panic { message, location }
    })
}

// ------------------------------------------------------------------ runner

pub struct Target {
    pub name: &'static str,
    pub property: String,
    pub run: Box<dyn Fn(&mut Sim) + Send + Sync>,
    pub rule: String,
    pub state_measure: String,
    pub real: Vec<String>,
    pub stubs: Vec<String>,
    pub assumptions: Vec<String>,
    /// probes that must be non-zero over a whole batch for the check to have meant anything
    pub required_probes: Vec<String>,
    pub quick_s: f64,
    pub thorough_s: f64,
    pub min_runs: u64,
    pub max_runs_quick: u64,
}

struct Outcome {
    sim: Sim,
    harness_panic: Option<Panic>,
}

fn execute(
    t: &Arc<Target>,
    seed: u64,
    run: u64,
    replay: Option<Vec<u64>>,
    keep_trace: bool,
    thorough: bool,
) -> Outcome {
    let t2 = t.clone();
    std::thread::Builder::new()
        .name("sim".into())
        .stack_size(64 << 20)
        .spawn(move || {
            os::seed_entropy(mix(seed ^ 0xE17) ^ run);
            let mut sim = Sim::new(seed, run, replay, &t2.property, thorough);
            sim.keep_trace = keep_trace;
            let r = catch_unwind(AssertUnwindSafe(|| (t2.run)(&mut sim)));
            let harness_panic = r.err().map(|_| {
                let (message, location) = LAST_PANIC
                    .with(|p| p.borrow_mut().take())
                    .unwrap_or(("panic".into(), "".into()));
                Panic { message, location }
            });
            Outcome { sim, harness_panic }
        })
        .unwrap()
        .join()
        .unwrap()
}

fn first<'a>(o: &'a Outcome, property: &str, known: &[Known]) -> Option<&'a Violation> {
    o.sim
        .violations
        .iter()
        .find(|v| v.property == property && !known.iter().any(|k| k.property == v.property && k.kind == v.kind))
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub kind: String,
    pub what: String,
}

pub fn verif_root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}

/// listed in known_findings.json: reported as such, and the run goes on
fn is_known(v: &Violation) -> bool {
    static KNOWN: std::sync::OnceLock<Vec<Known>> = std::sync::OnceLock::new();
    KNOWN.get_or_init(known_findings).iter().any(|k| k.property == v.property && k.kind == v.kind)
}
fn known_findings() -> Vec<Known> {
    let p = verif_root().join("known_findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known_findings.json parses");
    v["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .map(|f| Known {
            property: f["property"].as_str().unwrap().into(),
            kind: f["kind"].as_str().unwrap().into(),
            what: f["what"].as_str().unwrap().into(),
        })
        .collect()
}

fn shrink(
    t: &Arc<Target>,
    seed: u64,
    run: u64,
    start: Vec<u64>,
    kind: &str,
    known: &[Known],
    budget: Duration,
    thorough: bool,
) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut best = start;
    let test = |c: &Vec<u64>, evals: &mut u64| -> bool {
        *evals += 1;
        let o = execute(t, seed, run, Some(c.clone()), false, thorough);
        o.harness_panic.is_none()
            && first(&o, &t.property, known).map(|v| v.kind == kind).unwrap_or(false)
    };
    let out_of_time = |t0: &Instant| t0.elapsed() > budget;
    // drop the tail
    let (mut lo, mut hi) = (0usize, best.len());
    while lo < hi && !out_of_time(&t0) {
        let mid = (lo + hi) / 2;
        let c = best[..mid].to_vec();
        if test(&c, &mut evals) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < best.len() {
        let c = best[..hi].to_vec();
        if test(&c, &mut evals) {
            best = c;
        }
    }
    // delete and zero blocks, coarse to fine
    let mut size = (best.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i < best.len() {
            if out_of_time(&t0) {
                return (best, evals);
            }
            let end = (i + size).min(best.len());
            let mut c = best.clone();
            c.drain(i..end);
            if test(&c, &mut evals) {
                best = c;
                continue;
            }
            if best[i..end].iter().any(|v| *v != 0) {
                let mut c = best.clone();
                c[i..end].iter_mut().for_each(|v| *v = 0);
                if test(&c, &mut evals) {
                    best = c;
                }
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size = (size / 2).max(1);
    }
    // make single values smaller
    for i in 0..best.len() {
        let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
        while lo < hi && !out_of_time(&t0) {
            let mid = lo + (hi - lo) / 2;
            let mut c = best.clone();
            c[i] = mid;
            if test(&c, &mut evals) {
                best = c;
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    (best, evals)
}

pub fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

/// Runs the whole check for one property and exits.
pub fn main_for(t: Target) -> ! {
    install_panic_hook();
    os::assert_seams();
    let t = Arc::new(t);
    let seed: u64 = arg("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let known = known_findings();
    println!("seed={seed} tier={tier} target={} property={}", t.name, t.property);

    if let Some(p) = arg("--replay") {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&p).expect("replay file")).expect("replay json");
        let choices: Option<Vec<u64>> =
            v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
        let o = execute(
            &t,
            v["seed"].as_u64().unwrap(),
            v["run"].as_u64().unwrap(),
            choices,
            true,
            v["thorough"].as_bool().unwrap_or(false),
        );
        let quiet = arg("--quiet").is_some();
        if !quiet {
            for l in &o.sim.trace {
                println!("  {l}");
            }
        }
        if let Some(p) = o.harness_panic {
            println!("HARNESS ERROR: {} at {}", p.message, p.location);
            std::process::exit(2)
        }
        match first(&o, &t.property, &[]) {
            Some(x)
                if x.kind == v["kind"].as_str().unwrap()
                    && x.message == v["message"].as_str().unwrap()
                    && o.sim.trace_hash == v["trace_hash"].as_str().unwrap().parse::<u64>().unwrap() =>
            {
                println!("replay reproduced the recorded run exactly: [{}] {}", x.kind, x.message);
                println!("VIOLATION property={} replay={p}", t.property);
                std::process::exit(1)
            }
            Some(x) => {
                println!("replay violates the property differently from the record: [{}] {}", x.kind, x.message);
                println!("VIOLATION property={} replay={p}", t.property);
                std::process::exit(1)
            }
            None => {
                println!("the recorded violation does not occur");
                std::process::exit(0)
            }
        }
    }
    if let Some(i) = arg("--trace") {
        let o = execute(&t, seed, i.parse().unwrap(), None, true, thorough);
        for l in &o.sim.trace {
            println!("{l}");
        }
        println!("violations: {:?}\nfaults {:?}\nprobes {:?}", o.sim.violations, o.sim.stats.faults, o.sim.stats.probes);
        if let Some(p) = o.harness_panic {
            println!("HARNESS ERROR {p:?}");
        }
        std::process::exit(0)
    }

    let cores = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8);
    let workers: usize =
        arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(cores.min(16)).max(1);
    let budget = arg("--budget")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { t.thorough_s } else { t.quick_s });
    let max_runs: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough {
        u64::MAX
    } else {
        t.max_runs_quick
    });
    let min_runs = t.min_runs.min(max_runs);
    let dump = arg("--dump-hashes");
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Agg {
        stats: Stats,
        runs: u64,
        hashes: BTreeSet<u64>,
        nontrivial: u64,
        samples: Vec<serde_json::Value>,
        fail: Option<(u64, Vec<u64>, Violation)>,
        others: BTreeMap<(String, String), (u64, String)>,
        known_hit: BTreeMap<String, u64>,
        harness: Option<(u64, Panic)>,
        nondet: Option<u64>,
        per_run: BTreeMap<u64, u64>,
        rechecked: u64,
    }
    let agg = Mutex::new(Agg {
        stats: Stats::default(),
        runs: 0,
        hashes: BTreeSet::new(),
        nontrivial: 0,
        samples: vec![],
        fail: None,
        others: BTreeMap::new(),
        known_hit: BTreeMap::new(),
        harness: None,
        nondet: None,
        per_run: BTreeMap::new(),
        rechecked: 0,
    });
    // (run index, start) per worker, for the watchdog
    let live: Vec<Mutex<Option<(u64, Instant)>>> = (0..workers).map(|_| Mutex::new(None)).collect();
    let hang_s: f64 = 150.0;
    std::thread::scope(|s| {
        for w in 0..workers {
            let (t, agg, next, stop, live, known) = (&t, &agg, &next, &stop, &live, &known);
            let dump = dump.is_some();
            s.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                let el = t0.elapsed().as_secs_f64();
                if stop.load(Ordering::SeqCst)
                    || i >= max_runs
                    || (el > budget && (i >= min_runs || el > budget * 4.0))
                {
                    break;
                }
                *live[w].lock().unwrap() = Some((i, Instant::now()));
                let o = execute(t, seed, i, None, false, thorough);
                // determinism self-check on a sample of the runs
                let again = if i % 64 == 3 && o.harness_panic.is_none() {
                    let o2 = execute(t, seed, i, Some(o.sim.choices.clone()), false, thorough);
                    Some(o2.sim.trace_hash == o.sim.trace_hash && o2.sim.violations == o.sim.violations)
                } else {
                    None
                };
                *live[w].lock().unwrap() = None;
                let mut a = agg.lock().unwrap();
                a.runs += 1;
                if dump {
                    a.per_run.insert(i, o.sim.trace_hash);
                }
                if let Some(ok) = again {
                    a.rechecked += 1;
                    if !ok {
                        a.nondet = Some(i);
                    }
                }
                if let Some(p) = &o.harness_panic {
                    if a.harness.is_none() {
                        a.harness = Some((i, p.clone()));
                    }
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
                for v in &o.sim.violations {
                    if v.property != t.property {
                        let e = a
                            .others
                            .entry((v.property.clone(), v.kind.clone()))
                            .or_insert((0, format!("run {i}: {}", v.message)));
                        e.0 += 1;
                    } else if known.iter().any(|k| k.property == v.property && k.kind == v.kind) {
                        *a.known_hit.entry(v.kind.clone()).or_default() += 1;
                    }
                }
                for (k, v) in &o.sim.stats.faults {
                    *a.stats.faults.entry(k.clone()).or_default() += v;
                }
                for (k, v) in &o.sim.stats.probes {
                    *a.stats.probes.entry(k.clone()).or_default() += v;
                }
                a.stats.sim_ns += o.sim.stats.sim_ns;
                a.stats.steps += o.sim.trace_lines;
                if a.stats.states.len() < 4_000_000 {
                    a.stats.states.extend(o.sim.stats.states.iter());
                }
                if a.hashes.insert(o.sim.trace_hash) && o.sim.nontrivial {
                    a.nontrivial += 1;
                }
                if a.samples.len() < 3 && o.sim.nontrivial {
                    a.samples.push(serde_json::json!({
                        "run": i, "seed": seed, "choices": o.sim.choices.len(),
                        "faults": o.sim.stats.faults, "trace_head": o.sim.trace.iter().take(25).collect::<Vec<_>>(),
                        "trace_lines": o.sim.trace_lines, "trace_hash": o.sim.trace_hash.to_string(),
                    }));
                }
                if let Some(v) = first(&o, &t.property, known) {
                    if a.fail.as_ref().map(|f| f.0 > i).unwrap_or(true) {
                        a.fail = Some((i, o.sim.choices.clone(), v.clone()));
                    }
                    stop.store(true, Ordering::SeqCst);
                    break;
                }
            });
        }
        // watchdog: the code under test does not come back
        let (live, t, agg, next, stop) = (&live, &t, &agg, &next, &stop);
        s.spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let done = stop.load(Ordering::SeqCst)
                || next.load(Ordering::SeqCst) >= max_runs
                || t0.elapsed().as_secs_f64() > budget;
            let mut any = false;
            for l in live {
                let l = l.lock().unwrap().clone();
                if let Some((run, st)) = l {
                    any = true;
                    if st.elapsed().as_secs_f64() > hang_s {
                        let _ = agg;
                        let path = replay_path(&t.property, seed, run);
                        let body = serde_json::json!({
                            "property": t.property, "target": t.name, "seed": seed, "run": run,
                            "thorough": thorough, "kind": "hang",
                            "message": format!("run {run} made no progress for {hang_s} s"),
                            "choices": null, "trace_hash": "0",
                        });
                        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
                        println!("run {run} does not terminate (no progress for {hang_s} s)");
                        println!("VIOLATION property={} replay={}", t.property, path.display());
                        std::process::exit(1);
                    }
                }
            }
            if done && !any {
                break;
            }
        });
    });
    let a = agg.into_inner().unwrap();
    let wall = t0.elapsed().as_secs_f64();
    if let Some(p) = dump {
        let mut s = String::new();
        for (k, v) in &a.per_run {
            s.push_str(&format!("{k} {v:016x}\n"));
        }
        std::fs::write(p, s).unwrap();
    }
    let rph = (a.runs as f64 / wall.max(0.001) * 3600.0).round();
    let mut ev = serde_json::json!({
        "property": t.property, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial,
            "rule": t.rule,
            "samples": a.samples,
            "simulated_runs_per_hour": rph,
            "seeds_per_hour": rph,
            "simulated_seconds": (a.stats.sim_ns as f64 / 1e9),
            "trace_events": a.stats.steps,
            "faults_injected": a.stats.faults,
            "probes": a.stats.probes,
            "distinct_states": a.stats.states.len(),
            "state_measure": t.state_measure,
            "distinct_histories": a.hashes.len(),
            "determinism_rechecks": a.rechecked,
            "components_real": t.real,
            "components_stub": t.stubs,
            "workers": workers,
            "known_findings_hit": a.known_hit,
        },
        "assumptions": t.assumptions,
        "wall_s": wall,
        "violations": if a.fail.is_some() { 1 } else { 0 },
    });
    let evp = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&evp);
    let write_ev = |ev: &serde_json::Value| {
        std::fs::write(
            evp.join(format!("{}.json", t.property)),
            serde_json::to_string_pretty(ev).unwrap() + "\n",
        )
        .unwrap()
    };
    for ((p, k), (n, m)) in &a.others {
        println!("note: also seen in {n} run(s): property={p} [{k}] {m}");
    }
    if let Some((i, p)) = a.harness {
        write_ev(&ev);
        println!("HARNESS ERROR in run {i}: {} at {}", p.message, p.location);
        std::process::exit(2);
    }
    println!(
        "runs={} ({rph}/h) distinct={} nontrivial={} simulated={:.0}s states={} wall={wall:.1}s",
        a.runs,
        a.hashes.len(),
        a.nontrivial,
        a.stats.sim_ns as f64 / 1e9,
        a.stats.states.len()
    );
    println!("faults: {:?}", a.stats.faults);
    println!("probes: {:?}", a.stats.probes);
    for k in known.iter().filter(|k| k.property == t.property) {
        println!(
            "KNOWN-FINDING: property={} {} [{}; met in {} runs]",
            k.property,
            k.what,
            k.kind,
            a.known_hit.get(&k.kind).copied().unwrap_or(0)
        );
    }
    if let Some((run, choices, v)) = a.fail {
        println!("violation in run {run}: [{}] {}", v.kind, v.message);
        let n0 = choices.len();
        let sb = if thorough { 240 } else { 60 };
        let (min, evals) =
            shrink(&t, seed, run, choices.clone(), &v.kind, &known, Duration::from_secs(sb), thorough);
        let mut o = execute(&t, seed, run, Some(min.clone()), true, thorough);
        let mut used = min;
        if o.harness_panic.is_some() || first(&o, &t.property, &known).is_none() {
            o = execute(&t, seed, run, Some(choices.clone()), true, thorough);
            used = choices;
        }
        let fv = first(&o, &t.property, &known).cloned().unwrap_or(v);
        let path = replay_path(&t.property, seed, run);
        let skip = o.sim.trace.len().saturating_sub(400);
        let body = serde_json::json!({
            "property": t.property, "target": t.name, "seed": seed, "run": run, "thorough": thorough,
            "kind": fv.kind, "message": fv.message, "trace_hash": o.sim.trace_hash.to_string(),
            "choices": used, "minimised_from": n0, "minimisation_runs": evals,
            "faults": o.sim.stats.faults,
            "trace": o.sim.trace.iter().skip(skip).collect::<Vec<_>>(),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n").unwrap();
        ev["violations"] = 1.into();
        write_ev(&ev);
        println!(
            "minimised {n0} -> {} choices in {evals} runs: [{}] {}",
            used.len(),
            fv.kind,
            fv.message
        );
        for l in o.sim.trace.iter().rev().take(30).collect::<Vec<_>>().into_iter().rev() {
            println!("  {l}");
        }
        // confirm in a fresh process
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(std::env::args().skip(1))
            .args(["--quiet", "1", "--replay"])
            .arg(&path)
            .stdout(std::process::Stdio::piped())
            .output();
        let exact = st
            .map(|o| String::from_utf8_lossy(&o.stdout).contains("reproduced the recorded run exactly"))
            .unwrap_or(false);
        println!("replay in a fresh process reproduces it exactly: {exact}");
        println!("VIOLATION property={} replay={}", t.property, path.display());
        std::process::exit(1);
    }
    if let Some(i) = a.nondet {
        write_ev(&ev);
        println!("HARNESS ERROR: run {i} is not repeatable");
        std::process::exit(2);
    }
    let missing: Vec<_> =
        t.required_probes.iter().filter(|p| !a.stats.probes.contains_key(*p)).cloned().collect();
    ev["coverage"]["probes_stuck_at_zero"] = serde_json::json!(missing);
    write_ev(&ev);
    if !missing.is_empty() {
        println!("note: probes never hit: {missing:?}");
    }
    println!("property={} held on everything explored", t.property);
    std::process::exit(0)
}

fn replay_path(property: &str, seed: u64, run: u64) -> std::path::PathBuf {
    let d = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{property}-s{seed}-r{run}.json"))
}

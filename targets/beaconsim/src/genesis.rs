//! Genesis: observers follow the deposit log of an execution chain and each decide when the beacon chain starts.
//!
//! Every candidate block of the execution chain ends a longer prefix of the log. An observer may get the log with
//! events lost, repeated, swapped or damaged, may crash and start over, and gets the candidates late.
use crate::{check::*, gen::*, solo, world::*};
use refspec::{Fork::*, *};
use simcrypto::sha256;
use simkit::Sim;

struct Log {
    deposits: Vec<DepositData>,
    tree: DepositTree,
}
fn log(sim: &mut Sim, w: &W, f: Fork) -> Log {
    let r = &mut Sub::new(sim);
    let p = &w.p;
    let n = match r.below(5) {
        0 => r.below(4),
        1 | 2 => 4 + r.below(20),
        _ => 16 + r.below(if p.mainnet { 24 } else { 48 }),
    };
    let mut s = blank_state(f, p);
    let mut next = 0;
    let mut l = Log { deposits: vec![], tree: DepositTree::default() };
    let funded = r.pct(70);
    for _ in 0..n {
        let d = if funded && r.pct(70) {
            next += 1;
            let creds = if r.pct(30) { eth1_creds(r.below(4) as u8) } else { bls_creds(next) };
            deposit_data(next, creds, *r.pick(&[32 * GWEI, 32 * GWEI, 32 * GWEI, 40 * GWEI, 32 * GWEI - 1]), p)
        } else {
            some_deposit(&s, &mut next, r, p)
        };
        // tops up the key's earlier deposit
        s.validators.push(Validator { pk: d.pk, ..blank_validator() });
        l.tree.push(d.clone());
        l.deposits.push(d);
    }
    l
}
fn blank_validator() -> Validator {
    Validator { pk: [0; 48], creds: [0; 32], eff: 0, slashed: false, eligibility: FAR, activation: FAR, exit: FAR, withdrawable: FAR }
}
/// the deposits of a prefix, each proven against the tree up to it
fn proven(l: &Log, n: usize) -> Vec<Deposit> {
    (0..n).map(|i| l.tree.deposit(i, i + 1)).collect()
}
const OWN: &[&str] = &["C19"];

pub fn run(sim: &mut Sim, fl: &Flavour) {
    let mut w = W::new(sim.chance(fl.mainnet, 100));
    if sim.chance(1, 2) {
        w.vary(sim);
    }
    let f = fork(sim.range(0, 5) as u8);
    let mut e = [0u64; 6];
    for x in e.iter_mut().skip(f as usize + 1) {
        *x = FAR;
    }
    w.set_epochs(e);
    let l = log(sim, &w, f);
    let n = l.deposits.len();
    w.p.min_genesis_validators = *sim.pick(&[1, 0, n as u64 / 2, (n as u64).saturating_sub(1), n as u64, 64]);
    w.c.min_genesis_active_validator_count = w.p.min_genesis_validators as usize;
    w.p.genesis_delay = *sim.pick(&[300, 0, 604_800, 1]);
    w.c.genesis_delay = w.p.genesis_delay;
    w.p.min_genesis_time = 1_578_009_600 + sim.choose(1000);
    w.c.min_genesis_time = w.p.min_genesis_time;
    sim.log(format!("{f:?} genesis from {n} deposits, {} validators needed", w.p.min_genesis_validators));
    // candidate execution blocks: (deposits so far, timestamp)
    let mut cands = vec![];
    let mut at = 0usize;
    let mut time = w.p.min_genesis_time - w.p.genesis_delay - if sim.chance(1, 4) { 0 } else { sim.choose(60) };
    for _ in 0..1 + sim.choose(5) {
        at = (at + sim.choose(n as u64 + 1) as usize).min(n);
        cands.push((at, time));
        time += *sim.pick(&[1, 14, 14, 30, 0]);
    }
    cands.push((n, time));
    let header = (f >= Bellatrix && sim.chance(2, 3)).then(|| {
        let mut s = blank_state(f, &w.p);
        s.genesis_time = time;
        let tag = sim.bits64();
        let mut x = honest_payload(&s, &w.p, tag, vec![vec![1, 2, 3]; sim.choose(3) as usize]);
        x.timestamp = time;
        x.header(&w.p, f)
    });
    // the model's decisions
    let mut want: Vec<Option<(State, bool)>> = vec![];
    for (k, (n, t)) in cands.iter().enumerate() {
        let x = model(|| genesis(f, hash_of(k), *t, &proven(&l, *n), header.clone(), &w.p)).ok();
        want.push(x.map(|s| {
            let v = is_valid_genesis(&s, &w.p);
            (s, v)
        }));
    }
    let observers = 1 + sim.choose(3);
    for o in 0..observers {
        for k in 0..cands.len() {
            if sim.found() {
                return;
            }
            sim.advance(14_000_000_000);
            let (n, t) = cands[k];
            let full = proven(&l, n);
            let (seen, what) = damaged(sim, &l, full.clone());
            let model_says = if what.is_none() {
                want[k].clone()
            } else {
                model(|| genesis(f, hash_of(k), t, &seen, header.clone(), &w.p)).ok().map(|s| {
                    let v = is_valid_genesis(&s, &w.p);
                    (s, v)
                })
            };
            let rounds = 1 + sim.fault("crash, log replayed", 1, 6) as u64;
            for _ in 0..rounds {
                decide(sim, &w, f, k, t, &seen, &header, &model_says, what);
            }
            if let (None, Some((_, true))) = (what, &want[k]) {
                sim.nontrivial = true;
                sim.log(format!("observer {o} starts the chain at candidate {k}"));
                sim.probe("chain started");
                break;
            }
        }
    }
    // the chain runs on from there
    let Some((s, k)) = want.iter().enumerate().find_map(|(k, x)| x.as_ref().filter(|x| x.1).map(|x| (x.0.clone(), k))) else {
        sim.probe("no genesis yet");
        return;
    };
    if s.active(0).is_empty() {
        return;
    }
    let deps: Vec<Vec<u8>> = proven(&l, cands[k].0).iter().map(|d| d.v().encode()).collect();
    let hd = header.as_ref().map(|h| h.v.encode());
    if let Real::Ok((r, _)) = real(|| w.lib(f).genesis(f as u8, hash_of(k), cands[k].1, &deps, hd.as_deref(), &w.c)) {
        let mut n = Node { m: s, r };
        let mut eth1 = Eth1Chain { tree: l.tree, next_key: n_keys(&l.deposits) };
        for _ in 0..sim.choose(3) {
            let slot = solo::next_slot(sim, &w, &n.m);
            if !advance(sim, &w, &mut n, slot) {
                return;
            }
            let b = body(sim, &w, &n.m, &mut eth1, fl);
            let Some((b, _, _)) = valid_block(sim, &w, &n.m, b) else { return };
            match offer(sim, &w, &n, &n, &b, Mode::InSlot, true, Engine::Valid, OWN, "block on genesis") {
                Some(x) => n = x,
                None => return,
            }
        }
    }
}
fn n_keys(d: &[DepositData]) -> usize {
    d.len() + 1
}
fn hash_of(k: usize) -> Root {
    sha256(&[b"candidate".as_slice(), &(k as u64).to_le_bytes()])
}
/// what reaches an observer
fn damaged(sim: &mut Sim, l: &Log, mut d: Vec<Deposit>) -> (Vec<Deposit>, Option<&'static str>) {
    if d.is_empty() || !sim.chance(1, 3) {
        return (d, None);
    }
    let n = d.len() as u64;
    let i = sim.choose(n) as usize;
    let kind = match sim.choose(7) {
        0 => {
            d.remove(i);
            "event lost"
        }
        1 => {
            let x = d[i].clone();
            d.insert(i, x);
            "event repeated"
        }
        2 if n > 1 => {
            let j = (i + 1 + sim.choose(n - 1) as usize) % n as usize;
            d.swap(i, j);
            "events swapped"
        }
        3 => {
            let k = sim.choose(33) as usize;
            let b = sim.choose(256) as usize;
            d[i].proof[k][b / 8] ^= 1 << (b % 8);
            "proof damaged"
        }
        4 => {
            let b = sim.choose(64) as u32;
            d[i].data.amount ^= 1 << b.min(36);
            "amount damaged"
        }
        5 => {
            // proven against the finished tree instead of the one so far
            d[i] = l.tree.deposit(i, d.len());
            "proof of a later root"
        }
        _ => {
            let b = sim.choose(768) as usize;
            d[i].data.sig[b / 8] ^= 1 << (b % 8);
            "signature damaged"
        }
    };
    sim.count_fault(kind);
    (d, Some(kind))
}
#[allow(clippy::too_many_arguments)]
fn decide(sim: &mut Sim, w: &W, f: Fork, k: usize, t: u64, seen: &[Deposit], header: &Option<PayloadHeader>, want: &Option<(State, bool)>, what: Option<&str>) {
    let lib = w.lib(f);
    let deps: Vec<Vec<u8>> = seen.iter().map(|d| d.v().encode()).collect();
    let h = header.as_ref().map(|h| h.v.encode());
    let got = real(|| lib.genesis(f as u8, hash_of(k), t, &deps, h.as_deref(), &w.c));
    let tag = format!("{f:?} genesis from {} deposits{}", seen.len(), what.map(|x| format!(" ({x})")).unwrap_or_default());
    match (want, got) {
        (Some((m, v)), Real::Ok((mut r, got_v))) => {
            sim.probe("genesis state built");
            let d = compare(w, &*r, m);
            if !d.is_empty() {
                let mut p = props_of(&d);
                p.push("C19");
                report(sim, &p, &format!("genesis: {}", d[0].field), format!("{tag}: {}", say(&d)));
                return;
            }
            seen_state(sim, m, w);
            if *v != got_v {
                report(sim, OWN, "genesis trigger", format!("{tag} at {}: {got_v} with {} active validators of {}, time {} of {}", t, m.active(0).len(), w.p.min_genesis_validators, m.genesis_time, w.p.min_genesis_time));
            }
            match real(|| w.root(&mut *r)) {
                Real::Ok(x) if x == m.root(&w.p) => {}
                x => report(sim, &["C19", "C01"], "genesis state root", format!("{tag}: {}", x.what())),
            }
            let mut h = m.header.clone();
            h.state = m.root(&w.p);
            match real(|| lib.genesis_block_root(&*r)) {
                Real::Ok(x) if x == h.root() => {}
                x => report(sim, OWN, "genesis block", format!("{tag}: {}", x.what())),
            }
        }
        (None, Real::Err(_)) => sim.probe("log refused"),
        (None, Real::Panic(e)) if seen.iter().all(|_| f >= Altair) && no_active(w, f, seen) => {
            // a sync committee of nobody: the specification has no value for it
            sim.probe("no validators to sample");
            let _ = e;
        }
        (Some(_), x) => report(sim, OWN, "genesis refused", format!("{tag}: {}", x.what())),
        (None, x) => {
            if f >= Altair && no_active(w, f, seen) {
                sim.probe("no validators to sample");
                return;
            }
            report(sim, OWN, "genesis from a bad log", format!("{tag}: {}", x.what()))
        }
    }
}
/// the log is fine but funds nobody fully
fn no_active(w: &W, f: Fork, seen: &[Deposit]) -> bool {
    let p = &w.p;
    match model(|| genesis(Phase0, [0; 32], 0, seen, None, p)) {
        Ok(s) => s.active(0).is_empty(),
        Err(_) => f < Altair,
    }
}
fn seen_state(sim: &mut Sim, m: &State, w: &W) {
    seen(sim, m, &w.p);
}

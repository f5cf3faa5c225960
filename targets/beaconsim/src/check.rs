//! The code under test beside the model: comparison, and which property a difference contradicts.
use crate::world::*;
use bridge_api::{Blk, St, E};
use refspec::{ssz::split, Fork::*, *};
use simkit::{guard, hash_bytes, Sim};

pub struct Node {
    /// the model's state
    pub m: State,
    /// the real state
    pub r: Box<dyn St>,
}
impl Node {
    pub fn dup(&self) -> Node {
        Node { m: self.m.clone(), r: self.r.dup() }
    }
}

/// result of running the code under test
pub enum Real<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Real<T> {
    pub fn ok(&self) -> bool {
        matches!(self, Real::Ok(_))
    }
    pub fn what(&self) -> String {
        match self {
            Real::Ok(_) => "success".into(),
            Real::Err(e) => format!("error {e}"),
            Real::Panic(e) => format!("panic {e}"),
        }
    }
}
pub fn real<T>(f: impl FnOnce() -> E<T>) -> Real<T> {
    match guard(f) {
        Ok(Ok(x)) => Real::Ok(x),
        Ok(Err(e)) => Real::Err(e),
        Err(p) => Real::Panic(format!("{} ({})", p.message, p.location)),
    }
}
/// a refusal of the specification: an error or an arithmetic overflow
pub fn model<T>(f: impl FnOnce() -> R<T>) -> Result<T, String> {
    match guard(f) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(No(e))) => Err(e.into()),
        Err(p) => Err(format!("undefined: {}", p.message)),
    }
}

#[derive(Debug, Clone)]
pub struct Diff {
    pub field: &'static str,
    pub detail: String,
    pub props: Vec<&'static str>,
}
fn chunk(f: &str) -> usize {
    match f {
        "validators" => 121,
        "balances" | "inactivity_scores" | "slashings" => 8,
        "block_roots" | "state_roots" | "randao_mixes" | "historical_roots" => 32,
        "eth1_data_votes" => 72,
        _ => 1,
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().take(24).map(|x| format!("{x:02x}")).collect::<String>() + if b.len() > 24 { ".." } else { "" }
}
/// which fields differ; empty when equal
pub fn compare(w: &W, r: &dyn St, m: &State) -> Vec<Diff> {
    let v = m.v(&w.p);
    let want = v.encode();
    let got = match real(|| r.encode()) {
        Real::Ok(b) => b,
        x => return vec![Diff { field: "encoding", detail: x.what(), props: vec!["C14"] }],
    };
    if got == want {
        return vec![];
    }
    if r.fork() != m.fork as u8 {
        return vec![Diff { field: "fork", detail: format!("state of fork {} instead of {:?}", r.fork(), m.fork), props: vec!["C10"] }];
    }
    let (Some(a), Some(b)) = (split(&got, &v), split(&want, &v)) else {
        return vec![Diff { field: "encoding", detail: "layout".into(), props: vec!["C14"] }];
    };
    let mut out = vec![];
    for ((n, x), (_, y)) in a.into_iter().zip(b) {
        if x == y {
            continue;
        }
        let c = chunk(n);
        let k = (0..x.len().max(y.len()) / c).find(|k| x.get(k * c..k * c + c) != y.get(k * c..k * c + c)).unwrap_or(0);
        let mut props: Vec<&'static str> = vec![];
        let mut detail = format!("{n}[{k}]: {} instead of {}", hex(x.get(k * c..).unwrap_or(&[])), hex(y.get(k * c..).unwrap_or(&[])));
        match n {
            "justification_bits" | "previous_justified_checkpoint" | "current_justified_checkpoint" | "finalized_checkpoint" => props.push("C03"),
            "inactivity_scores" | "previous_epoch_participation" | "current_epoch_participation" | "previous_epoch_attestations" | "current_epoch_attestations" => props.push("C04"),
            "eth1_data" | "eth1_deposit_index" => props.push("C08"),
            "eth1_data_votes" => props.extend(["C08", "C13"]),
            "slashings" => props.extend(["C06", "C13"]),
            "randao_mixes" | "historical_roots" | "historical_summaries" | "block_roots" | "state_roots" | "latest_block_header" | "slot" => props.push("C13"),
            "current_sync_committee" | "next_sync_committee" => props.push("C11"),
            "latest_execution_payload_header" => props.push("C12"),
            "next_withdrawal_index" | "next_withdrawal_validator_index" => props.push("C09"),
            "fork" | "genesis_time" | "genesis_validators_root" => props.push("C10"),
            "balances" => {
                let bal = |x: &[u8], k: usize| x.get(k * 8..k * 8 + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap()));
                detail = format!("balance of {k}: {:?} instead of {:?}", bal(x, k), bal(y, k));
                if x.len() != y.len() {
                    props.push("C08");
                }
                let e = m.epoch(&w.p);
                let halves = |i: usize| m.validators.get(i).is_some_and(|v| v.slashed && e.wrapping_add(w.p.epsv / 2).abs_diff(v.withdrawable) <= 1);
                let bad: Vec<usize> = (0..x.len().min(y.len()) / 8).filter(|k| bal(x, *k) != bal(y, *k)).collect();
                if !bad.is_empty() && bad.iter().all(|i| halves(*i)) {
                    props.push("C06");
                } else {
                    props.push("C04");
                    if bad.iter().any(|i| halves(*i)) {
                        props.push("C06");
                    }
                }
                if m.fork >= Electra {
                    props.push("C17");
                }
            }
            "validators" => {
                if x.len() != y.len() {
                    props.push("C08");
                    detail = format!("{} validators instead of {}", x.len() / 121, y.len() / 121);
                }
                for k in 0..x.len().min(y.len()) / 121 {
                    let (a, b) = (&x[k * 121..k * 121 + 121], &y[k * 121..k * 121 + 121]);
                    for (from, to, name, p) in [(0, 48, "public key", "C08"), (48, 80, "credentials", "C09"), (80, 88, "effective balance", "C04"), (88, 89, "slashed", "C06"), (89, 97, "eligibility", "C05"), (97, 105, "activation", "C05"), (105, 113, "exit", "C05"), (113, 121, "withdrawable", "C05")] {
                        if a[from..to] != b[from..to] && !props.contains(&p) {
                            if props.is_empty() {
                                let n = |x: &[u8]| if to - from == 8 { u64::from_le_bytes(x[from..to].try_into().unwrap()).to_string() } else { hex(&x[from..to]) };
                                detail = format!("{name} of validator {k}: {} instead of {}", n(a), n(b));
                            }
                            props.push(p);
                        }
                    }
                }
                if m.fork >= Electra {
                    props.push("C17");
                }
            }
            _ => props.push("C17"),
        }
        out.push(Diff { field: n, detail, props });
    }
    if out.is_empty() {
        out.push(Diff { field: "encoding", detail: "offsets".into(), props: vec!["C14"] });
    }
    out
}
pub fn say(d: &[Diff]) -> String {
    d.iter().map(|d| d.detail.clone()).take(4).collect::<Vec<_>>().join("; ")
}
pub fn props_of(d: &[Diff]) -> Vec<&'static str> {
    let mut v: Vec<_> = d.iter().flat_map(|d| d.props.clone()).collect();
    v.sort();
    v.dedup();
    v
}
pub fn report(sim: &mut Sim, props: &[&'static str], kind: &str, msg: impl Into<String>) {
    let msg = msg.into();
    let mut p = props.to_vec();
    p.sort();
    p.dedup();
    for x in p {
        sim.violate(x, kind, &msg);
    }
}
/// a state's identity for coverage
pub fn seen(sim: &mut Sim, s: &State, p: &Params) {
    let h = s.header.root();
    sim.state(hash_bytes(&h) ^ s.slot.wrapping_mul(0x9E37_79B9) ^ hash_bytes(&s.balances.iter().flat_map(|b| b.to_le_bytes()).collect::<Vec<_>>()) ^ p.spe);
}

/// bring a node to `slot`; false when the run cannot go on
pub fn advance(sim: &mut Sim, w: &W, n: &mut Node, slot: u64) -> bool {
    if n.m.slot >= slot {
        return true;
    }
    let before = n.dup();
    let e0 = n.m.epoch(&w.p);
    let f0 = n.m.fork;
    if let Err(e) = model(|| process_slots(&mut n.m, slot, &w.p)) {
        sim.log(format!("no state at slot {slot}: {e}"));
        sim.probe("no state at slot");
        return false;
    }
    sim.advance((slot - before.m.slot) as u128 * w.p.seconds_per_slot as u128 * 1_000_000_000);
    let many = n.m.epoch(&w.p) - e0;
    if many > 0 {
        sim.probe("epoch boundary");
    }
    if n.m.fork != f0 {
        sim.probe("fork boundary");
        if n.m.fork as u8 - f0 as u8 > 1 {
            sim.probe("several forks at once");
        }
    }
    let stepwise = sim.chance(1, 3);
    let st = before.r.dup();
    let from = before.m.slot;
    let got = real(|| {
        if stepwise {
            let mut st = st;
            for k in from + 1..=slot {
                st = w.advance(st, k)?;
            }
            Ok(st)
        } else {
            w.advance(st, slot)
        }
    });
    match got {
        Real::Ok(r) => n.r = r,
        x => {
            let p = blame_steps(w, &before, slot);
            report(sim, &[&p[..], &["C01", "C13"]].concat(), "slots refused", format!("advancing from slot {from} to {slot} ({f0:?}) gives {}", x.what()));
            return false;
        }
    }
    let d = compare(w, &*n.r, &n.m);
    seen(sim, &n.m, &w.p);
    if d.is_empty() {
        return true;
    }
    let p = blame_steps(w, &before, slot);
    let p = if p.is_empty() { vec!["C13"] } else { p };
    report(sim, &[&p[..], &["C01"]].concat(), &format!("slots: {}", d[0].field), format!("advancing from slot {from} to {slot} ({f0:?}): {}", say(&d)));
    false
}
/// redo the steps one by one, and each upgrade on its own, until the first difference
fn blame_steps(w: &W, before: &Node, slot: u64) -> Vec<&'static str> {
    let mut m = before.m.clone();
    let mut r = before.r.dup();
    let p = &w.p;
    while m.slot < slot {
        let boundary = (m.slot + 1) % p.spe == 0;
        if model(|| step_slot(&mut m, p)).is_err() {
            return vec![];
        }
        let to = m.slot;
        match real(|| r.process_slots(to, &w.c)) {
            Real::Ok(()) => {}
            _ if boundary => return vec!["C03", "C04", "C05"],
            _ => return vec!["C13"],
        }
        let d = compare(w, &*r, &m);
        if !d.is_empty() {
            return if boundary { props_of(&d) } else { vec!["C13"] };
        }
        while m.fork < p.fork_at(m.epoch(p)) && m.slot % p.spe == 0 {
            let f = FORKS[m.fork as usize + 1];
            if model(|| Ok(upgrade(&mut m, f, p))).is_err() {
                return vec![];
            }
            match real(|| w.upgrade(&*r)) {
                Real::Ok(x) => r = x,
                _ => return if f == Electra { vec!["C10", "C17"] } else { vec!["C10"] },
            }
            let d = compare(w, &*r, &m);
            if !d.is_empty() {
                return if f == Electra { vec!["C10", "C17"] } else { vec!["C10"] };
            }
        }
    }
    vec![]
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// state already at the block's slot
    InSlot,
    /// the fork's state_transition, from an earlier slot of the same fork
    Whole,
    /// the executor that spans forks, from an earlier slot
    Executor,
}
/// what the specification says about a block on a state (for modes other than `InSlot` an earlier one)
pub fn verdict(m: &State, b: &Block, mode: Mode, validate: bool, engine: Engine, p: &Params) -> Result<State, String> {
    model(|| {
        let mut s = m.clone();
        need(within(b, p), "list limits")?;
        if mode != Mode::InSlot {
            process_slots(&mut s, b.slot, p)?;
        }
        if validate {
            block_in_slot(&mut s, b, engine, p)?;
        } else {
            process_block(&mut s, b, engine, p)?;
        }
        Ok(s)
    })
}
fn within(b: &Block, p: &Params) -> bool {
    crate::gen::within_limits(b, p)
}
pub fn run_block(w: &W, st: &dyn St, b: &dyn Blk, mode: Mode, validate: bool, engine: Engine) -> Real<Box<dyn St>> {
    let mut c = w.c.clone();
    c.execution_engine = (engine == Engine::Valid).into();
    real(|| {
        let mut st = st.dup();
        match mode {
            Mode::InSlot => st.apply_in_slot(b, validate, &c)?,
            Mode::Whole => st.apply(b, validate, &c)?,
            Mode::Executor => st.execute(b, &c).ok_or("the executor does not know the fork")??,
        }
        Ok(st)
    })
}
type Class = (&'static str, &'static [&'static str], fn(&mut Body, &Body));
fn bare(b: &Body, s: &State, p: &Params) -> Body {
    let mut x = empty_body(p);
    x.randao = b.randao;
    x.eth1 = b.eth1;
    x.deposits = b.deposits.clone();
    x.payload = b.payload.clone();
    if s.fork >= Bellatrix {
        x.payload.deposit_receipts.clear();
        x.payload.withdrawal_requests.clear();
    }
    x
}
static CLASSES: &[Class] = &[
    ("proposer slashings", &["C06"], |x, b| x.proposer_slashings = b.proposer_slashings.clone()),
    ("attester slashings", &["C06"], |x, b| x.attester_slashings = b.attester_slashings.clone()),
    ("attestations", &["C03", "C04", "C07"], |x, b| x.attestations = b.attestations.clone()),
    ("exits", &["C05"], |x, b| x.exits = b.exits.clone()),
    ("sync aggregate", &["C11"], |x, b| x.sync = b.sync.clone()),
    ("credential changes", &["C09"], |x, b| x.bls_changes = b.bls_changes.clone()),
    ("blobs", &["C12"], |x, b| x.commitments = b.commitments.clone()),
    ("deposit receipts", &["C17"], |x, b| x.payload.deposit_receipts = b.payload.deposit_receipts.clone()),
    ("withdrawal requests", &["C17"], |x, b| x.payload.withdrawal_requests = b.payload.withdrawal_requests.clone()),
    ("consolidations", &["C17"], |x, b| x.consolidations = b.consolidations.clone()),
];
/// which kinds of contents the code under test treats differently, each tried alone on an advanced state
pub fn blame_block(w: &W, n: &Node, b: &Block) -> Vec<&'static str> {
    let p = &w.p;
    let mut out = vec![];
    let differs = |body: Body| -> Option<Vec<Diff>> {
        let mut x = b.clone();
        x.body = body;
        if !within(&x, p) {
            return None;
        }
        let want = verdict(&n.m, &x, Mode::InSlot, false, Engine::Valid, p);
        let got = match real(|| w.block(&x)) {
            Real::Ok(y) => run_block(w, &*n.r, &*y, Mode::InSlot, false, Engine::Valid),
            _ => return Some(vec![]),
        };
        match (want, got) {
            (Ok(m), Real::Ok(r)) => Some(compare(w, &*r, &m)).filter(|d| !d.is_empty()),
            (Err(_), Real::Err(_)) => None,
            _ => Some(vec![]),
        }
    };
    let base = bare(&b.body, &n.m, p);
    if let Some(d) = differs(base.clone()) {
        // header, payload, withdrawals, randao, eth1 vote and due deposits
        if !b.body.deposits.is_empty() || n.m.eth1.count != n.m.deposit_index {
            out.push("C08");
        }
        if d.is_empty() {
            if n.m.fork >= Bellatrix {
                out.push("C12");
            }
            if n.m.fork >= Capella {
                out.push("C09");
            }
            if n.m.fork >= Electra {
                out.push("C17");
            }
            out.extend(["C07", "C13"]);
        }
        for x in &d {
            match x.field {
                "balances" if n.m.fork >= Capella => out.push("C09"),
                "balances" => out.push("C08"),
                "validators" => out.push("C08"),
                "pending_partial_withdrawals" => out.extend(["C17", "C09"]),
                _ => out.extend(x.props.iter().copied()),
            }
        }
    }
    for (_, props, keep) in CLASSES {
        let mut x = base.clone();
        keep(&mut x, &b.body);
        if x != base && differs(x).is_some() {
            out.extend(*props);
        }
    }
    out.sort();
    out.dedup();
    out
}
/// every class of contents in a block
pub fn carried(b: &Block, p: &Params) -> Vec<&'static str> {
    let base = bare(&b.body, &blank_fork(b.fork, p), p);
    let mut out = vec![];
    for (_, props, keep) in CLASSES {
        let mut x = base.clone();
        keep(&mut x, &b.body);
        if x != base {
            out.extend(*props);
        }
    }
    out
}
fn blank_fork(f: Fork, p: &Params) -> State {
    blank_state(f, p)
}

/// offer a block to the code under test and to the model; `at` is where the node is, `now` the node advanced
/// to the block's slot (used to find what is to blame). The accepted state, or nothing.
#[allow(clippy::too_many_arguments)]
pub fn offer(sim: &mut Sim, w: &W, at: &Node, now: &Node, b: &Block, mode: Mode, validate: bool, engine: Engine, props: &[&'static str], name: &str) -> Option<Node> {
    let p = &w.p;
    let want = verdict(&at.m, b, mode, validate, engine, p);
    let bytes = b.encode(p);
    let blk = match real(|| w.lib(b.fork).block(b.fork as u8, &bytes)) {
        Real::Ok(x) => x,
        x => {
            if let Real::Panic(_) = x {
                report(sim, &["C02", "C14"], "block decoding panics", format!("{name}: {}", x.what()));
            } else if within(b, p) {
                report(sim, &["C02", "C14"], "block does not decode", format!("{name}: {}", x.what()));
            } else {
                sim.probe("block over the limits refused by decoding");
            }
            return None;
        }
    };
    match real(|| blk.encode()) {
        Real::Ok(e) if e == bytes => {}
        x => report(sim, &["C14"], "block encoding", format!("{name}: {}", x.what())),
    }
    if !within(b, p) {
        report(sim, &["C02", "C14"], "block over the limits decodes", name.to_string());
    }
    let got = run_block(w, &*at.r, &*blk, mode, validate, engine);
    let tag = format!("{name} (slot {}, {:?}, {mode:?}{})", b.slot, b.fork, if validate { "" } else { ", validation off" });
    sim.log(format!("{tag}: specification {}, code {}", match &want { Ok(_) => "accepts".to_string(), Err(e) => format!("refuses ({e})") }, if got.ok() { "accepts" } else { "refuses" }));
    match (want, got) {
        (Ok(m), Real::Ok(r)) => {
            if validate {
                sim.probe("block accepted");
            }
            let d = compare(w, &*r, &m);
            if d.is_empty() {
                seen(sim, &m, p);
                return Some(Node { m, r });
            }
            let mut who = blame_block(w, now, b);
            if who.is_empty() {
                who = carried(b, p);
                who.extend(props);
                who.extend(props_of(&d));
            }
            who.push("C01");
            report(sim, &who, &format!("block: {}", d[0].field), format!("after {tag}: {}", say(&d)));
            None
        }
        (Err(_), Real::Err(_)) => {
            if validate {
                sim.probe("block refused");
            }
            None
        }
        (want, got) => {
            let mut who = blame_block(w, now, b);
            if who.is_empty() && want.is_ok() {
                who = carried(b, p);
            }
            who.extend(props);
            who.push("C02");
            if want.is_ok() {
                who.push("C01");
            }
            let want = match want {
                Ok(_) => "accepts".into(),
                Err(e) => format!("refuses it ({e})"),
            };
            let kind = match &got {
                Real::Panic(_) => "block panics",
                Real::Err(_) => "valid block refused",
                Real::Ok(_) => "invalid block accepted",
            };
            report(sim, &who, kind, format!("{tag}: the specification {want}, the code: {}", got.what()));
            None
        }
    }
}

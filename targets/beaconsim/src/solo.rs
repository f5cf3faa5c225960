//! One node and its model: an aged chain, empty slots, honest and Byzantine blocks, damage and restarts.
use crate::{check::*, gen::*, mutate::*, queries, world::*};
use bridge_api::St;
use refspec::{Fork::*, *};
use simkit::{guard, Sim};

/// the starting point of a run
pub fn start(sim: &mut Sim, fl: &Flavour) -> Option<(W, Node, Eth1Chain)> {
    let mut w = W::new(sim.chance(fl.mainnet, 100));
    if sim.chance(1, 2) {
        w.vary(sim);
    }
    let (m, eth1) = aged(sim, &mut w, fl);
    sim.log(format!("{:?} at slot {}, {} validators, forks at {:?}", m.fork, m.slot, m.validators.len(), w.p.epochs));
    let r = match real(|| w.decode(&m)) {
        Real::Ok(r) => r,
        x => {
            report(sim, &["C14"], "state does not decode", x.what());
            return None;
        }
    };
    let mut n = Node { m, r };
    let d = compare(&w, &*n.r, &n.m);
    if !d.is_empty() {
        report(sim, &["C14"], "state encoding", say(&d));
        return None;
    }
    check_root(sim, &w, &mut n);
    Some((w, n, eth1))
}
pub fn check_root(sim: &mut Sim, w: &W, n: &mut Node) {
    let want = n.m.root(&w.p);
    match real(|| w.root(&mut *n.r)) {
        Real::Ok(x) if x == want => {}
        x => report(sim, &["C01", "C14"], "state root", format!("root of the {:?} state: {}", n.m.fork, x.what())),
    }
}
/// the next slot a block is proposed for
pub fn next_slot(sim: &mut Sim, w: &W, s: &State) -> u64 {
    let spe = w.p.spe;
    s.slot
        + match sim.choose(20) {
            0..=11 => 1,
            12..=13 => 1 + sim.choose(3),
            14..=15 => spe - s.slot % spe,             // first slot of the next epoch
            16..=17 => (spe - s.slot % spe).max(2) - 1, // last slot of this one
            18 => 1 + spe + sim.choose(spe),
            _ => {
                if w.p.mainnet {
                    1
                } else {
                    spe * (2 + sim.choose(4)) + sim.choose(spe)
                }
            }
        }
}
fn note(sim: &mut Sim, b: &Body) {
    for (n, k) in [
        ("attestations", b.attestations.len()),
        ("proposer slashings", b.proposer_slashings.len()),
        ("attester slashings", b.attester_slashings.len()),
        ("deposits", b.deposits.len()),
        ("exits", b.exits.len()),
        ("sync votes", b.sync.bits.iter().filter(|x| **x).count()),
        ("withdrawals", b.payload.withdrawals.len()),
        ("credential changes", b.bls_changes.len()),
        ("blobs", b.commitments.len()),
        ("consolidations", b.consolidations.len()),
        ("deposit receipts", b.payload.deposit_receipts.len()),
        ("withdrawal requests", b.payload.withdrawal_requests.len()),
    ] {
        if k > 0 {
            *sim.stats.probes.entry(format!("accepted {n}")).or_default() += k as u64;
        }
    }
}

pub fn run(sim: &mut Sim, fl: &Flavour) {
    let Some((w, mut n, mut eth1)) = start(sim, fl) else { return };
    let steps = 2 + sim.choose(if w.p.mainnet { 2 } else { 6 });
    let mut duties = queries::Duties::default();
    for _ in 0..steps {
        if sim.found() {
            return;
        }
        if sim.chance(fl.queries, 10) {
            queries::check(sim, &w, &mut n, &mut duties);
        }
        if sim.chance(fl.crash, 20) {
            restart(sim, &w, &mut n);
        }
        let slot = next_slot(sim, &w, &n.m);
        let lag = n.dup();
        if !advance(sim, &w, &mut n, slot) {
            return;
        }
        if sim.chance(fl.epochs, 30) {
            check_root(sim, &w, &mut n);
        }
        if sim.chance(1, 8) {
            continue; // no block in this slot
        }
        let body = body(sim, &w, &n.m, &mut eth1, fl);
        let again = body.clone();
        let Some((b, _, wanted)) = valid_block(sim, &w, &n.m, body) else {
            // the rules leave this proposer nothing to propose; whatever it offers must be refused
            let x = unasked(&w, &n.m, again);
            byzantine(sim, &w, &lag, &n, &x, &["C06"], "block of a proposer who may not propose");
            continue;
        };
        if wanted != b.body && sim.chance(fl.byzantine, 12) {
            // the operations the state refuses
            let x = execute_again(&w, &n.m, Block { body: wanted, ..b.clone() });
            byzantine(sim, &w, &lag, &n, &x, &[], "block with refused operations");
        }
        if n.m.fork >= Electra && sim.chance(fl.deposits, 20) {
            // a true deposit beyond those the block has to carry
            let (due, adopted) = due_deposits(&n.m, &b.body.eth1, &w.p);
            let i = n.m.deposit_index + due;
            if due < w.p.max_deposits && i < adopted.count && (adopted.count as usize) <= eth1.tree.len() && eth1.data(adopted.count as usize).root == adopted.root {
                let mut x = b.clone();
                x.body.deposits.push(eth1.tree.deposit(i as usize, adopted.count as usize));
                sim.count_fault("byzantine: deposit beyond those due");
                let x = execute_again(&w, &n.m, x);
                byzantine(sim, &w, &lag, &n, &x, &["C08", "C17"], "deposit beyond those due");
            }
        }
        for _ in 0..sim.choose(1 + fl.byzantine / 3) {
            mutant(sim, &w, &lag, &n, &b);
            if sim.found() {
                return;
            }
        }
        if sim.chance(fl.crash, 12) {
            damage(sim, &w, &n, &b);
        }
        if b.fork >= Bellatrix && sim.chance(fl.byzantine, 30) {
            sim.count_fault("engine answers invalid");
            let x = n.m.fork >= Capella || merge_complete(&n.m) || b.body.payload != Payload::default();
            offer(sim, &w, &n, &n, &b, Mode::InSlot, true, Engine::Invalid, &["C12"], if x { "block the engine refuses" } else { "block without a payload" });
        }
        let mode = pick_mode(sim, &lag, &n);
        let at = if mode == Mode::InSlot { &n } else { &lag };
        let validate = mode == Mode::Executor || !sim.chance(1, 10);
        let Some(next) = offer(sim, &w, at, &n, &b, mode, validate, Engine::Valid, &[], "honest block") else { return };
        note(sim, &b.body);
        sim.nontrivial = true;
        // the chain must know each block once: the same block again is refused
        if sim.fault("block delivered twice", 1, 10) {
            offer(sim, &w, &next, &next, &b, Mode::InSlot, true, Engine::Valid, &["C13"], "block again");
        }
        n = next;
        if sim.chance(fl.byzantine, 60) {
            // the proposer equivocates on top of its own block, in its own slot
            let more = crate::gen::body(sim, &w, &n.m, &mut eth1, fl);
            let x = unasked(&w, &n.m, more);
            sim.count_fault("byzantine: second block in one slot");
            for validate in [false, true] {
                offer(sim, &w, &n, &n, &x, Mode::InSlot, validate, Engine::Valid, &["C13"], "second block in one slot");
            }
        }
    }
    if sim.chance(1, 2) {
        check_root(sim, &w, &mut n);
    }
}
fn pick_mode(sim: &mut Sim, lag: &Node, n: &Node) -> Mode {
    let mut v = vec![Mode::InSlot];
    if lag.m.fork == n.m.fork && lag.m.slot < n.m.slot {
        v.push(Mode::Whole);
    }
    if n.m.fork < Electra && lag.m.slot < n.m.slot {
        v.extend([Mode::Executor, Mode::Executor]);
    }
    *sim.pick(&v)
}
/// what a proposer who does not care does: execute whatever comes out and sign it
pub fn execute_again(w: &W, s: &State, mut b: Block) -> Block {
    let p = &w.p;
    if !within_limits(&b, p) {
        return b;
    }
    if let Ok(x) = model(|| {
        let mut x = s.clone();
        process_block(&mut x, &b, Engine::Valid, p)?;
        Ok(x)
    }) {
        b.state = x.root(p);
    }
    resign(w, s, b)
}
/// a block of the state's proposer in the state's slot, without operations another rule could object to
fn unasked(w: &W, s: &State, mut body: Body) -> Block {
    for (k, n) in ops(&body).into_iter().enumerate() {
        (0..n).rev().for_each(|i| drop_op(&mut body, k, i));
    }
    execute_again(w, s, Block { fork: s.fork, slot: s.slot, proposer: s.proposer(&w.p).unwrap_or(0), parent: s.header.root(), state: [0; 32], body, sig: [0; 96] })
}
fn resign(w: &W, s: &State, mut b: Block) -> Block {
    if !within_limits(&b, &w.p) {
        return b; // has no root
    }
    let i = s.proposer(&w.p).unwrap_or(0);
    sign_block(&mut b, s, key(s, i), &w.p);
    b
}
pub fn mutant(sim: &mut Sim, w: &W, lag: &Node, n: &Node, b: &Block) {
    let p = &w.p;
    let all: Vec<&Mutation> = MUTATIONS.iter().filter(|m| m.from <= b.fork && b.fork <= m.to).collect();
    let mine: Vec<&Mutation> = all.iter().copied().filter(|m| m.props.contains(&sim.property.as_str())).collect();
    let m = if !mine.is_empty() && !sim.chance(1, 4) { *sim.pick(&mine) } else { *sim.pick(&all) };
    let r = &mut Sub::new(sim);
    let mut x = b.clone();
    // a mutation may run into the end of a number
    if !matches!(guard(|| (m.f)(&n.m, &mut x, r, p)), Ok(true)) {
        return;
    }
    let twice = if r.one_in(12) { Some(*r.pick(&all)) } else { None };
    let mut after = m.after;
    if let Some(t) = twice.filter(|t| t.after < 2 && within_limits(&x, p)) {
        if matches!(guard(|| (t.f)(&n.m, &mut x, r, p)), Ok(true)) {
            after = after.max(t.after);
        }
    }
    sim.count_fault(&format!("byzantine: {}", m.name));
    match after {
        0 => x = execute_again(w, &n.m, x),
        1 => x = resign(w, &n.m, x),
        _ => {}
    }
    byzantine(sim, w, lag, n, &x, m.props, m.name);
}
fn byzantine(sim: &mut Sim, w: &W, lag: &Node, n: &Node, x: &Block, props: &[&'static str], name: &str) {
    // contents alone first: a wrong state root would hide that they are let in
    offer(sim, w, n, n, x, Mode::InSlot, false, Engine::Valid, props, name);
    let mode = if x.slot != n.m.slot { Mode::InSlot } else { pick_mode(sim, lag, n) };
    let at = if mode == Mode::InSlot { n } else { lag };
    offer(sim, w, at, n, x, mode, true, Engine::Valid, props, name);
}

/// crash: only what was stored survives
pub fn restart(sim: &mut Sim, w: &W, n: &mut Node) {
    let f = n.m.fork;
    let form = sim.choose(if f < Electra { 3 } else { 2 });
    sim.count_fault(["crash, restart from binary", "crash, restart from JSON", "crash, restart from JSON of an unnamed fork"][form as usize]);
    let lib = w.lib(f);
    let back = real(|| match form {
        0 => lib.state(f as u8, &n.r.encode()?),
        1 => lib.state_json(f as u8, &n.r.json()?),
        _ => lib.state_json_any(&n.r.json()?),
    });
    match back {
        Real::Ok(r) => {
            if r.fork() != f as u8 {
                return report(sim, &["C14"], "state through fork-spanning JSON", format!("{f:?} state read as fork {}", r.fork()));
            }
            let d = compare(w, &*r, &n.m);
            if !d.is_empty() {
                report(sim, &["C14"], "state after restart", say(&d));
            }
            n.r = r;
            check_root(sim, w, n);
            sim.probe(["restarted from binary", "restarted from JSON", "restarted from JSON of an unnamed fork"][form as usize]);
        }
        x => report(sim, &["C14"], "stored state refused", format!("{f:?}: {}", x.what())),
    }
}
/// storage and links that damage what they carry
fn damage(sim: &mut Sim, w: &W, n: &Node, b: &Block) {
    let f = b.fork;
    let lib = w.lib(f);
    let whole = if sim.chance(1, 3) { n.m.v(&w.p).encode() } else { b.encode(&w.p) };
    let is_block = whole.len() == b.encode(&w.p).len() && whole == b.encode(&w.p);
    let r = &mut Sub::new(sim);
    let mut x = whole.clone();
    let kind = match r.below(6) {
        0 => {
            x.truncate(r.below(x.len() as u64) as usize);
            "truncated"
        }
        1 => {
            x.extend(&r.root()[..1 + r.below(31) as usize]);
            "extended"
        }
        2 => {
            // the head holds the offsets
            let k = r.below(x.len().min(600) as u64) as usize;
            x[k] ^= 1 << r.below(8);
            "bit flipped in the head"
        }
        3 => {
            let k = r.below(x.len() as u64) as usize;
            x[k] = r.below(256) as u8;
            "byte replaced"
        }
        4 => {
            let k = r.below(x.len() as u64) as usize;
            let l = (r.below(64) as usize).min(x.len() - k);
            x[k..k + l].fill(0);
            "bytes lost"
        }
        _ => {
            let k = r.below(x.len() as u64) as usize;
            let l = (r.below(16) as usize).min(x.len() - k);
            x.drain(k..k + l);
            "bytes dropped"
        }
    };
    if x == whole {
        return;
    }
    sim.count_fault(&format!("{} {kind}", if is_block { "block" } else { "state" }));
    if is_block {
        let y = match real(|| lib.block(f as u8, &x)) {
            Real::Ok(y) => y,
            Real::Err(_) => {
                sim.probe("damaged bytes refused");
                return;
            }
            Real::Panic(e) => return report(sim, &["C14", "C02"], "damaged block panics", e),
        };
        sim.probe("damaged bytes decoded");
        match real(|| y.encode()) {
            Real::Ok(e) if e == x => {}
            Real::Ok(e) => report(sim, &["C14"], "damaged block reads as another", format!("{kind}: {} bytes encode to {} other bytes", x.len(), e.len())),
            e => report(sim, &["C14"], "damaged block encodes", e.what()),
        }
        match run_block(w, &*n.r, &*y, Mode::InSlot, true, Engine::Valid) {
            Real::Err(_) => {}
            Real::Ok(_) => report(sim, &["C02", "C14"], "damaged block accepted", kind),
            e => report(sim, &["C02"], "damaged block panics", e.what()),
        }
    } else {
        match real(|| lib.state(f as u8, &x).and_then(|s: Box<dyn St>| s.encode())) {
            Real::Ok(e) if e == x => sim.probe("damaged bytes decoded"),
            Real::Ok(_) => report(sim, &["C14"], "damaged state reads as another", kind),
            Real::Err(_) => sim.probe("damaged bytes refused"),
            e => report(sim, &["C14"], "damaged state panics", e.what()),
        }
    }
    // a block that went through JSON is the same block
    let j = real(|| {
        let y = lib.block(f as u8, &b.encode(&w.p))?;
        let z = lib.block_json(f as u8, &y.json()?)?;
        Ok((z.encode()?, z.message_root()?))
    });
    match j {
        Real::Ok((e, root)) if e == b.encode(&w.p) && root == b.root(&w.p) => sim.probe("block through JSON"),
        Real::Ok(_) => report(sim, &["C14"], "block through JSON", "differs"),
        e => report(sim, &["C14"], "block through JSON", e.what()),
    }
    if f < Electra {
        // the fork-spanning type has to find the fork on its own
        match real(|| {
            let y = lib.block(f as u8, &b.encode(&w.p))?;
            let z = lib.block_json_any(&y.json()?)?;
            Ok((z.fork(), z.encode()?))
        }) {
            Real::Ok((g, e)) if g == f as u8 && e == b.encode(&w.p) => {}
            Real::Ok((g, _)) => report(sim, &["C14"], "block through fork-spanning JSON", format!("{f:?} block read as fork {g}")),
            e => report(sim, &["C14"], "block through fork-spanning JSON", e.what()),
        }
    }
}

//! Builders: a proposer signs a block of which it knows only the payload's header; a relay, which may be slow,
//! faulty or dishonest, answers with a payload; every node must see one and the same block.
use crate::{check::*, gen::*, solo, world::*};
use bridge_api::{Blk, Facts, VIEWS};
use refspec::{ssz::V, Fork::*, *};
use simkit::Sim;

const OWN: &[&str] = &["C18"];
type Want = Vec<(&'static str, Option<Vec<u8>>)>;

fn put(v: &V) -> Option<Vec<u8>> {
    Some(v.encode())
}
fn num(x: u64) -> Option<Vec<u8>> {
    Some(x.to_le_bytes().to_vec())
}
/// the value is a faithful account of what it holds
fn agree(sim: &mut Sim, props: &[&'static str], what: &str, got: Real<Facts>, want: &Want) {
    let got = match got {
        Real::Ok(x) => x,
        x => return report(sim, props, "accessors fail", format!("{what}: {}", x.what())),
    };
    for (n, v) in &got {
        let Some((_, w)) = want.iter().find(|(m, _)| m == n) else { continue };
        sim.stats.probes.entry("accessor agreed".into()).and_modify(|x| *x += 1).or_insert(1);
        if v != w {
            let s = |x: &Option<Vec<u8>>| x.as_ref().map(|b| b.iter().take(24).map(|c| format!("{c:02x}")).collect::<String>()).unwrap_or("nothing".into());
            report(sim, props, &format!("accessor {n}"), format!("{what}: {n} is {} instead of {}", s(v), s(w)));
        }
    }
}
pub fn state_facts(s: &State, p: &Params) -> Want {
    let v = s.v(p);
    let mut o: Want = vec![("version", num(s.fork as u64)), ("forks held", Some(vec![1 << s.fork as u8]))];
    for (n, x) in v.fields() {
        if *n == "latest_execution_payload_header" {
            o.push((n, Some(x.fields().iter().flat_map(|(_, y)| y.encode()).collect())));
        } else {
            o.push((n, put(x)));
        }
    }
    for n in ["previous_epoch_attestations", "current_epoch_attestations", "previous_epoch_participation", "current_epoch_participation", "inactivity_scores", "current_sync_committee", "next_sync_committee", "historical_summaries", "next_withdrawal_index", "next_withdrawal_validator_index", "latest_execution_payload_header"] {
        if !o.iter().any(|(m, _)| *m == n) {
            o.push((n, None));
        }
    }
    o
}
fn block_facts(b: &Block, body: &V, p: &Params) -> Want {
    let mut o: Want = vec![("version", num(b.fork as u64)), ("forks held", Some(vec![1 << b.fork as u8])), ("signature", Some(b.sig.to_vec()))];
    for (n, x) in b.v(p).fields() {
        if *n != "body" {
            o.push((n, put(x)));
        }
    }
    for (n, x) in body.fields() {
        if *n == "execution_payload" || *n == "execution_payload_header" {
            for (m, y) in x.fields() {
                o.push((if *m == "state_root" { "payload state_root" } else { m }, put(y)));
            }
        } else {
            o.push((n, put(x)));
        }
    }
    for n in ["sync_aggregate", "bls_to_execution_changes", "blob_kzg_commitments", "withdrawals", "withdrawals_root", "blob_gas_used", "excess_blob_gas"] {
        if !o.iter().any(|(m, _)| *m == n) {
            o.push((n, None));
        }
    }
    o
}
fn blinded_body(b: &Block, p: &Params) -> V {
    match b.body.v(p, b.fork) {
        V::C(f) => V::C(f.into_iter().map(|(n, x)| if n == "execution_payload" { ("execution_payload_header", b.body.payload.header(p, b.fork).v) } else { (n, x) }).collect()),
        _ => unreachable!(),
    }
}
/// facts of the real state and block beside the model's
pub fn accounts(sim: &mut Sim, w: &W, n: &mut Node) {
    if n.m.fork == Electra {
        return;
    }
    let want = state_facts(&n.m, &w.p);
    let mut r = n.r.dup();
    let view = sim.choose(VIEWS);
    let got = real(|| r.facts(view));
    agree(sim, &["C18", "C14"], &format!("{:?} state", n.m.fork), got, &want);
    let d = compare(w, &*r, &n.m);
    if !d.is_empty() {
        report(sim, &["C18", "C14"], "reading changes the state", say(&d));
    }
}
/// payloads that are not the one committed to
fn other_payload(sim: &mut Sim, b: &Block, older: &[Payload], p: &Params) -> Option<(&'static str, Vec<u8>)> {
    let r = &mut Sub::new(sim);
    let mut x = b.body.payload.clone();
    let f = b.fork;
    macro_rules! bump {
        ($($n:ident)*) => {{
            let all: &[(&'static str, fn(&mut Payload))] = &[$((stringify!($n), |x: &mut Payload| x.$n = x.$n.wrapping_add(1))),*];
            all
        }};
    }
    let nums = bump!(number gas_limit gas_used timestamp blob_gas excess_blob_gas);
    let name = match r.below(12) {
        0 => {
            let k = if f >= Deneb { nums.len() } else { 4 };
            let (n, g) = nums[r.below(k as u64) as usize];
            g(&mut x);
            n
        }
        1 => {
            let k = r.below(8) as usize;
            let all: [&mut [u8]; 8] = [&mut x.parent, &mut x.fee, &mut x.state, &mut x.receipts, &mut x.bloom, &mut x.randao, &mut x.base_fee, &mut x.hash];
            let y = all.into_iter().nth(k).unwrap();
            let i = r.below(y.len() as u64) as usize;
            y[i] ^= 1 << r.below(8);
            ["parent hash", "fee recipient", "state root", "receipts root", "bloom", "randao", "base fee", "hash"][k]
        }
        2 => {
            x.txs.push(r.root()[..r.below(32) as usize].to_vec());
            "transaction added"
        }
        3 => {
            if x.txs.is_empty() {
                return None;
            }
            let i = r.below(x.txs.len() as u64) as usize;
            x.txs.remove(i);
            "transaction dropped"
        }
        4 => {
            r.shuffle(&mut x.txs);
            "transactions reordered"
        }
        5 => {
            let i = r.below(x.txs.len().max(1) as u64) as usize;
            let t = x.txs.get_mut(i)?;
            match r.below(3) {
                0 => t.push(0),
                1 => drop(t.pop()?),
                _ => *t.last_mut()? ^= 1,
            }
            "transaction changed"
        }
        6 => {
            if f < Capella || x.withdrawals.is_empty() {
                return None;
            }
            let i = r.below(x.withdrawals.len() as u64) as usize;
            let y = &mut x.withdrawals[i];
            match r.below(5) {
                0 => y.amount += 1,
                1 => y.address[19] ^= 1,
                2 => y.index += 1,
                3 => y.validator += 1,
                _ => drop(x.withdrawals.remove(i)),
            }
            "withdrawals changed"
        }
        7 => {
            if x.extra.is_empty() || r.one_in(2) {
                x.extra.push(0);
            } else {
                x.extra.pop();
            }
            if x.extra.len() > p.max_extra as usize {
                return None;
            }
            "extra data changed"
        }
        8 => {
            x = older.get(r.below(older.len().max(1) as u64) as usize)?.clone();
            "payload of another block"
        }
        9 => {
            x = Payload::default();
            "empty payload"
        }
        10 => {
            if x.txs.len() < 2 {
                return None;
            }
            // the same bytes in other pieces
            let t = x.txs.remove(0);
            x.txs[0].splice(0..0, t);
            "transactions merged"
        }
        _ => {
            let mut y = x.v(p, f).encode();
            match r.below(3) {
                0 => y.truncate(r.below(y.len() as u64) as usize),
                1 => {
                    let k = r.below(y.len() as u64) as usize;
                    y[k] ^= 1 << r.below(8);
                }
                _ => y.push(0),
            }
            return Some(("payload bytes damaged", y));
        }
    };
    if x == b.body.payload || x.txs.len() as u64 > p.max_txs {
        return None;
    }
    let y = x.v(p, f).encode();
    Some((name, y))
}
pub fn examine(sim: &mut Sim, w: &W, n: &Node, b: &Block, older: &[Payload], signer: &Pk) -> bool {
    let p = &w.p;
    let f = b.fork;
    let view = sim.choose(VIEWS);
    let lib = w.lib(f);
    let blk = match real(|| w.block(b)) {
        Real::Ok(x) => x,
        x => {
            report(sim, &["C14", "C18"], "block does not decode", x.what());
            return false;
        }
    };
    let full = b.body.v(p, f);
    agree(sim, &["C18", "C14"], &format!("{f:?} block"), real(|| blk.facts(view)), &block_facts(b, &full, p));
    if !(Bellatrix..=Deneb).contains(&f) {
        return true;
    }
    let body = blinded_body(b, p);
    let blind = match real(|| blk.blind(view)) {
        Real::Ok(x) => x,
        x => {
            report(sim, OWN, "block has no blinded form", format!("{f:?}: {}", x.what()));
            return false;
        }
    };
    let msg = V::C(b.v(p).fields().iter().map(|(n, x)| if *n == "body" { (*n, body.clone()) } else { (*n, x.clone()) }).collect());
    let want = V::C(vec![("message", msg), ("signature", V::Bytes(b.sig.to_vec()))]).encode();
    let root = b.root(p);
    if blind.root != root {
        report(sim, OWN, "blinded block has another root", format!("{f:?} block at slot {} with {} transactions and {} withdrawals", b.slot, b.body.payload.txs.len(), b.body.payload.withdrawals.len()));
    }
    if blind.ssz != want {
        report(sim, OWN, "blinded block differs", format!("{f:?} block at slot {}: {} bytes", b.slot, blind.ssz.len()));
    }
    // one signature for both
    let domain = n.m.domain(D_PROPOSER, Some(b.slot / p.spe), p);
    let good = verify(signer, &signing_root(&root, &domain), &b.sig);
    if verify(signer, &signing_root(&blind.root, &domain), &b.sig) != good {
        report(sim, OWN, "signature over the blinded block", format!("{f:?}"));
    }
    agree(sim, OWN, &format!("{f:?} blinded block"), Real::Ok(blind.facts.clone()), &block_facts(b, &body, p));
    match real(|| lib.blinded_json_any(&blind.json)) {
        Real::Ok((g, ssz)) if g == f as u8 && ssz == want => sim.probe("blinded block through JSON"),
        Real::Ok((g, _)) => report(sim, &["C18", "C14"], "blinded block through JSON", format!("{f:?} block read as fork {g}")),
        x => report(sim, &["C18", "C14"], "blinded block through JSON", x.what()),
    }
    sim.state(simkit::hash_bytes(&root));
    // the relay
    for _ in 0..sim.choose(5) {
        let Some((name, bytes)) = other_payload(sim, b, older, p) else { continue };
        sim.count_fault(&format!("relay: {name}"));
        sim.advance(100_000_000);
        match real(|| lib.unblind(f as u8, &want, &bytes)) {
            Real::Err(_) => sim.probe("wrong payload refused"),
            Real::Ok(_) => report(sim, OWN, "wrong payload taken", format!("{f:?} block at slot {}: {name}", b.slot)),
            x => report(sim, OWN, "unblinding panics", x.what()),
        }
    }
    if sim.fault("relay never answers", 1, 6) {
        return false;
    }
    let own = b.body.payload.v(p, f).encode();
    let got = real(|| {
        let x: Box<dyn Blk> = lib.unblind(f as u8, &want, &own)?;
        Ok((x.encode()?, x.message_root()?))
    });
    match got {
        Real::Ok((e, r)) if e == b.encode(p) && r == root => sim.probe("block unblinded"),
        Real::Ok(_) => report(sim, OWN, "unblinded block differs", format!("{f:?} block at slot {}", b.slot)),
        x => report(sim, OWN, "own payload refused", x.what()),
    }
    true
}
pub fn run(sim: &mut Sim, fl: &Flavour) {
    let Some((w, mut n, mut eth1)) = solo::start(sim, fl) else { return };
    let steps = 2 + sim.choose(if w.p.mainnet { 2 } else { 5 });
    let mut older: Vec<Payload> = vec![];
    for _ in 0..steps {
        if sim.found() {
            return;
        }
        if sim.chance(fl.crash, 20) {
            solo::restart(sim, &w, &mut n);
        }
        let slot = solo::next_slot(sim, &w, &n.m);
        if !advance(sim, &w, &mut n, slot) {
            return;
        }
        accounts(sim, &w, &mut n);
        let mut body = body(sim, &w, &n.m, &mut eth1, fl);
        if n.m.fork >= Bellatrix && body.payload != Payload::default() {
            // something to commit to
            let r = &mut Sub::new(sim);
            for _ in 0..r.below(5) {
                let l = *r.pick(&[0usize, 1, 31, 32, 33, 64, 200]);
                let mut t = vec![0; l];
                t.iter_mut().for_each(|b| *b = r.below(256) as u8);
                body.payload.txs.push(t);
            }
        }
        let Some((b, _, _)) = valid_block(sim, &w, &n.m, body) else { continue };
        let signer = n.m.validators[b.proposer as usize].pk;
        let arrives = examine(sim, &w, &n, &b, &older, &signer);
        if sim.found() {
            return;
        }
        if !arrives {
            continue; // the slot stays empty
        }
        let Some(next) = offer(sim, &w, &n, &n, &b, Mode::InSlot, true, Engine::Valid, &["C12"], "unblinded block") else { return };
        sim.nontrivial = true;
        older.push(b.body.payload.clone());
        n = next;
    }
}

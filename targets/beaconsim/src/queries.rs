//! What a validator asks its node, against the model and against earlier answers.
use crate::{check::*, gen::*, world::*};
use bridge_api::{A, E, Q};
use refspec::{Fork::*, *};
use simkit::Sim;
use std::collections::BTreeMap;

/// duties as answered an epoch ahead: (slot, index) -> committee
#[derive(Default)]
pub struct Duties {
    pub known: BTreeMap<(u64, u64), Vec<u64>>,
}
fn ask(sim: &mut Sim, w: &W, n: &mut Node, q: Q, want: Result<A, String>, props: &[&'static str], name: &str) -> Option<A> {
    let mut st = n.r.dup();
    let got: Real<A> = real(|| -> E<A> { st.query(&q, &w.c) });
    sim.probe(&format!("asked {name}"));
    match (want, got) {
        (Ok(a), Real::Ok(b)) => {
            if a == b {
                return Some(b);
            }
            report(sim, props, &format!("answer: {name}"), format!("{q:?} on the {:?} state at slot {}: {b:?} instead of {a:?}", n.m.fork, n.m.slot).chars().take(400).collect::<String>());
            None
        }
        (Err(_), Real::Err(_)) => None,
        (Err(e), Real::Ok(b)) => {
            report(sim, props, &format!("answer: {name}"), format!("{q:?} at slot {}: {b:?} though {e}", n.m.slot).chars().take(300).collect::<String>());
            None
        }
        // recorded findings, in the generated modules
        (Err(_), Real::Panic(e)) if n.m.slot == 0 && n.m.fork >= Altair && matches!(q, Q::BlockRootAt(_) | Q::BlockRoot(_)) && e.starts_with("attempt to subtract with overflow") => {
            report(sim, &["C13"], &format!("genesis-root-panic:{:?}", n.m.fork), format!("{q:?} at slot 0: panic {e}"));
            None
        }
        (Err(why), Real::Panic(e)) if matches!(q, Q::NextSyncCommittee) && why == "no active validator" && e.contains("with a divisor of zero") => {
            report(sim, &["C11"], &format!("empty-sync-committee-panic:{:?}", n.m.fork), format!("{q:?} without active validators: panic {e}"));
            None
        }
        (want, x) => {
            report(sim, props, &format!("answer: {name}"), format!("{q:?} at slot {}: {} instead of {:?}", n.m.slot, x.what(), want.map(|_| "an answer")));
            None
        }
    }
}
fn us(v: Vec<u64>) -> A {
    A::List(v)
}
pub fn check(sim: &mut Sim, w: &W, n: &mut Node, d: &mut Duties) {
    let p = &w.p;
    let e = n.m.epoch(p);
    let r = &mut Sub::new(sim);
    let c07: &[&'static str] = &["C07"];
    let m = n.m.clone();
    // one whole epoch of committees: previous, current or next
    let te = (e + 1).saturating_sub(r.below(3));
    let te = if te + 1 < e { e } else { te };
    let k = m.committees_per_slot(te, p);
    ask(sim, w, n, Q::CommitteeCount(te), Ok(A::U(k)), c07, "committee count");
    let active = m.active(te);
    ask(sim, w, n, Q::ActiveIndices(te), Ok(us(active.clone())), &["C07", "C05"], "active validators");
    let sample = p.mainnet;
    let mut members = vec![];
    for slot in te * p.spe..(te + 1) * p.spe {
        if sample && slot % 8 != 0 {
            continue;
        }
        for i in 0..k {
            let want = m.committee(slot, i, p);
            if let Some(A::List(got)) = ask(sim, w, n, Q::Committee { slot, index: i as usize }, Ok(us(want)), c07, "committee") {
                if te > e {
                    d.known.insert((slot, i), got.clone());
                } else if let Some(before) = d.known.get(&(slot, i)) {
                    sim.probe("duty kept its committee");
                    // stated one epoch ahead, it must not have moved
                    if *before != got {
                        report(sim, c07, "committee moved", format!("committee {i} of slot {slot} was announced as {before:?} and is {got:?}").chars().take(300).collect::<String>());
                    }
                }
                members.extend(got);
            }
        }
    }
    if !sample {
        members.sort();
        if members != active && !sim.found() {
            report(sim, c07, "committees do not partition", format!("epoch {te}: {} members for {} active validators", members.len(), active.len()));
        }
    }
    let want = model(|| m.proposer(p));
    ask(sim, w, n, Q::Proposer, want.map(A::U), c07, "proposer");
    // the two shuffling routines
    let most = if r.one_in(3) { 300 } else if r.one_in(20) && !p.mainnet { 900 } else { 40 };
    let count = 1 + r.below(most);
    let seed = r.root();
    let i = r.below(count);
    ask(sim, w, n, Q::Shuffled { index: i as usize, count: count as usize, seed }, Ok(A::U(shuffled_index(i, count, &seed, p.shuffle_round_count))), c07, "shuffled index");
    // a registry far larger than this one
    let huge = 1 << (10 + r.below(12));
    let (many, at) = (huge - r.below(huge / 2), r.below(huge / 2));
    ask(sim, w, n, Q::Shuffled { index: at as usize, count: many as usize, seed }, Ok(A::U(shuffled_index(at, many, &seed, p.shuffle_round_count))), c07, "shuffled index");
    let out = count + r.below(3);
    ask(sim, w, n, Q::Shuffled { index: out as usize, count: count as usize, seed }, Err("index out of range".into()), c07, "shuffled index out of range");
    let items: Vec<u64> = (0..count).map(|i| i * 3 + 1).collect();
    let want: Vec<u64> = (0..count).map(|i| items[shuffled_index(i, count, &seed, p.shuffle_round_count) as usize]).collect();
    ask(sim, w, n, Q::ShuffledAll { indices: items.iter().map(|x| *x as usize).collect(), seed }, Ok(us(want)), c07, "whole shuffling");
    // history
    let c13: &[&'static str] = &["C13"];
    for _ in 0..3 {
        let slot = match r.below(7) {
            0 => m.slot,
            1 => m.slot + 1 + r.below(3),
            2 => m.slot.saturating_sub(p.sphr),
            3 => m.slot.saturating_sub(p.sphr + 1 + r.below(3)),
            4 => u64::MAX - r.below(3),
            5 => m.slot.saturating_sub(1),
            _ => m.slot.saturating_sub(r.below(p.sphr)),
        };
        let want = model(|| m.block_root_at(slot, p)).map(|r| A::Bytes(r.to_vec()));
        ask(sim, w, n, Q::BlockRootAt(slot), want, c13, "block root at slot");
        let te = match r.below(4) {
            0 => e,
            1 => e + 1,
            _ => e.saturating_sub(r.below(p.sphr / p.spe + 2)),
        };
        let want = model(|| m.block_root(te, p)).map(|r| A::Bytes(r.to_vec()));
        ask(sim, w, n, Q::BlockRoot(te), want, c13, "block root of epoch");
        let te = e.saturating_sub(r.below(p.ephv));
        ask(sim, w, n, Q::RandaoMix(te), Ok(A::Bytes(m.mix(te, p).to_vec())), c13, "randao mix");
        let te = (e + 1).saturating_sub(r.below(3));
        let kind = *r.pick(&[D_PROPOSER, D_ATTESTER, D_SYNC]);
        ask(sim, w, n, Q::Seed { epoch: te, kind }, Ok(A::Bytes(m.seed(te, kind, p).to_vec())), &["C07", "C13"], "seed");
        let kind = r.below(11) as u32;
        let at = match r.below(3) {
            0 => None,
            1 => Some(m.fork_epoch.saturating_sub(r.below(2))),
            _ => Some((e + 2).saturating_sub(r.below(5))),
        };
        ask(sim, w, n, Q::Domain { kind, epoch: at }, Ok(A::Bytes(m.domain(kind, at, p).to_vec())), &["C15"], "domain");
    }
    ask(sim, w, n, Q::TotalActive, Ok(A::U(m.total_active(p))), &["C04"], "total active balance");
    let set: Vec<usize> = (0..m.validators.len()).filter(|_| r.pct(40)).collect();
    ask(sim, w, n, Q::TotalBalance(set.clone()), Ok(A::U(m.total(set.iter().map(|i| *i as u64), p))), &["C04"], "total balance");
    ask(sim, w, n, Q::Churn, Ok(A::U(m.churn_limit(p))), &["C05"], "churn limit");
    if m.fork >= Altair {
        let c = m.next_sync_committee(p).map(|c| A::Bytes(c.v().encode())).map_err(|e| e.0.to_string());
        ask(sim, w, n, Q::NextSyncCommittee, c, &["C11"], "next sync committee");
    }
    if m.fork >= Capella {
        if let Ok((v, _)) = model(|| Ok(expected_withdrawals(&m, p))) {
            let want: Vec<u8> = v.iter().flat_map(|w| w.v().encode()).collect();
            let props: &[&'static str] = if m.fork >= Electra { &["C09", "C17"] } else { &["C09"] };
            ask(sim, w, n, Q::Withdrawals, Ok(A::Bytes(want)), props, "expected withdrawals");
        }
    }
    // exits and slashings as functions on the state, the reporter being someone else
    let i = r.below(m.validators.len() as u64);
    let mut x = n.dup();
    let by = if r.one_in(2) { None } else { Some(r.below(m.validators.len() as u64)) };
    let exit = r.one_in(3);
    let want = model(|| if exit { x.m.initiate_exit(i, p) } else { x.m.slash(i, by, p) });
    let (q, props): (Q, &[&'static str]) = if exit { (Q::Exit(i as usize), &["C05"]) } else { (Q::Slash { index: i as usize, reporter: by.map(|x| x as usize) }, &["C06"]) };
    let got = real(|| x.r.query(&q, &w.c));
    match (want, got) {
        (Ok(()), Real::Ok(_)) => {
            sim.probe(if exit { "direct exit" } else if by.is_some() { "slashing with a reporter" } else { "direct slashing" });
            let d = compare(w, &*x.r, &x.m);
            // a recorded finding: the proposer's share computed as 8 / 64 = 0 of the reward
            if let (false, false, Some(to), Ok(proposer)) = (d.is_empty(), exit, by, model(|| m.proposer(p))) {
                let reward = m.validators[i as usize].eff / p.whistleblower_q;
                let mut y = x.m.clone();
                y.decrease(proposer, reward * 8 / 64);
                y.increase(to, reward * 8 / 64);
                if compare(w, &*x.r, &y).is_empty() {
                    report(sim, &["C06"], &format!("whistleblower-share:{:?}", m.fork), format!("{q:?}: the proposer is paid 0 of its share, the reporter everything; {}", say(&d)));
                    return;
                }
            }
            if !d.is_empty() {
                let pr: Vec<&'static str> = if m.fork >= Electra { [props, &["C17"]].concat() } else { props.to_vec() };
                report(sim, &pr, if exit { "exit" } else { "slashing" }, format!("{q:?} on the {:?} state: {}", m.fork, say(&d)));
            }
        }
        (Err(_), Real::Err(_)) => {}
        (Err(e), Real::Ok(_)) if e.starts_with("undefined") => {}
        (Err(_), Real::Panic(_)) => {}
        (want, got) => report(sim, props, "exit or slashing refused", format!("{q:?}: {} where the specification says {want:?}", got.what())),
    }
}

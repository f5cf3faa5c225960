//! Starting states of any age, and block contents.
use crate::world::*;
use refspec::{Fork::*, *};
use simcrypto::sha256;
use simkit::{Rng, Sim};

pub const GWEI: u64 = 1_000_000_000;

/// randomness of one bulk decision, all drawn from one choice
pub struct Sub(Rng);
impl Sub {
    pub fn new(sim: &mut Sim) -> Sub {
        Sub(Rng::new(sim.choose(1 << 40)))
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.0.below(n)
        }
    }
    pub fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn pct(&mut self, n: u64) -> bool {
        self.below(100) < n
    }
    pub fn root(&mut self) -> Root {
        let mut r = [0; 32];
        for c in r.chunks_mut(8) {
            c.copy_from_slice(&self.0.next().to_le_bytes());
        }
        r
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

/// the execution chain's side: deposits made so far
#[derive(Clone, Default)]
pub struct Eth1Chain {
    pub tree: DepositTree,
    pub next_key: usize,
}
impl Eth1Chain {
    pub fn data(&self, n: usize) -> Eth1 {
        Eth1 { root: self.tree.root(n), count: n as u64, hash: sha256(&[b"eth1", &n.to_le_bytes()]) }
    }
    /// a new deposit on the execution chain
    pub fn grow(&mut self, s: &State, r: &mut Sub, p: &Params) -> usize {
        let d = some_deposit(s, &mut self.next_key, r, p);
        self.tree.push(d);
        self.tree.len()
    }
}
pub fn some_deposit(s: &State, next_key: &mut usize, r: &mut Sub, p: &Params) -> DepositData {
    let amount = *r.pick(&[32 * GWEI, 32 * GWEI, GWEI, 31 * GWEI + 999_999_999, 33 * GWEI, 17 * GWEI, 1, 0, 64 * GWEI + 1]);
    let key = if r.pct(35) && !s.validators.is_empty() {
        let i = r.below(s.validators.len() as u64) as usize;
        key_of(&s.validators[i].pk).unwrap_or(0)
    } else {
        if r.pct(80) {
            *next_key += 1;
        }
        (*next_key).min(KEYS - 1)
    };
    let mut creds = match r.below(6) {
        0 | 1 => eth1_creds(r.below(4) as u8),
        2 => r.root(),
        _ => bls_creds(key),
    };
    if s.fork >= Electra && r.pct(40) {
        creds = eth1_creds(r.below(4) as u8);
        creds[0] = 2;
    }
    let mut d = deposit_data(key, creds, amount, p);
    match r.below(12) {
        0 => d.sig[r.below(96) as usize] ^= 1 << r.below(8),
        1 => d.amount += 1, // signed for another amount
        2 if s.fork < Electra || true => {
            // signed under the current fork's version instead of the genesis one
            d.sig = sign(key, &signing_root(&d.message().root(), &domain(D_DEPOSIT, if p.versions[5] == p.versions[0] { [9; 4] } else { p.versions[5] }, &[0; 32])));
        }
        3 => d.sig = sign((key + 1) % KEYS, &signing_root(&d.message().root(), &domain(D_DEPOSIT, p.versions[0], &[0; 32]))),
        4 => d.sig = [0; 96],
        5 => d.sig = infinity(),
        _ => {}
    }
    d
}

/// fork schedule with `f` active at `epoch`
pub fn schedule(sim: &mut Sim, w: &mut W, f: Fork, epoch: u64, ahead: u64) {
    let mut e = [0u64; 6];
    let fi = f as usize;
    let mut r = Sub::new(sim);
    // past forks: 0, or spread below the current epoch
    let mut cur = 0;
    for k in 1..=fi {
        if r.pct(50) && cur < epoch {
            cur += r.below(epoch - cur + 1);
        }
        e[k] = cur;
    }
    let mut cur = epoch;
    for x in e.iter_mut().skip(fi + 1) {
        if cur != FAR && sim.chance(ahead, 100) {
            cur += sim.choose(3);
            // a fork lies after the state's own epoch
            *x = cur.max(epoch + 1);
            cur = *x;
        } else {
            cur = FAR;
            *x = FAR;
        }
    }
    w.set_epochs(e);
}

pub fn aged(sim: &mut Sim, w: &mut W, fl: &Flavour) -> (State, Eth1Chain) {
    // some forks have more rules of their own than others
    let pool: Vec<u8> = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4, 5, 5, 5].into_iter().filter(|x| (fl.lo as u8..=fl.hi as u8).contains(x)).collect();
    let f = fork(*sim.pick(&pool));
    let small = w.p.mainnet;
    let period = w.p.sync_period;
    let epoch = match sim.choose(8) {
        0 => sim.choose(4),
        1 => 5 + sim.choose(20),
        2 => w.p.ephv - 1 + sim.choose(3),
        3 => w.p.epsv * (1 + sim.choose(5)) - sim.choose(3),
        4 => period * (2 + sim.choose(50)) - 1 - sim.choose(2),
        5 => w.p.sphr / w.p.spe * (2 + sim.choose(9)) - 1 - sim.choose(2),
        6 => w.p.epochs_per_eth1_period * (3 + sim.choose(60)) - 1 - sim.choose(3),
        _ => 100 + sim.choose(1 << 20),
    };
    schedule(sim, w, f, epoch, fl.forks_ahead);
    let p = &w.p.clone();
    let slot = epoch * p.spe + if sim.chance(1, 2) { p.spe - 1 - sim.choose(2) } else { sim.choose(p.spe) };
    let n = match sim.choose(if small { 2 } else { 5 }) {
        0 => 24,
        1 => 40,
        2 => 8 + sim.choose(16) as usize,
        3 => 64 + sim.choose(40) as usize,
        _ => 128,
    };
    let r = &mut Sub::new(sim);
    let mut s = blank_state(f, p);
    s.genesis_time = *r.pick(&[p.min_genesis_time + p.genesis_delay, 0, 1_606_824_023]);
    s.gvr = r.root();
    s.slot = slot;
    s.cur_version = p.version(f);
    let fi = f as usize;
    // several forks at one epoch leave the last but one as previous version
    s.prev_version = if fi == 0 { p.version(f) } else { p.version(fork(fi as u8 - 1)) };
    s.fork_epoch = if fi == 0 { 0 } else { p.epochs[fi] };
    if fi == 0 && r.one_in(4) {
        // a change of version alone, as some test networks had
        s.prev_version = [9, 9, 9, 8];
        s.fork_epoch = epoch.saturating_sub(r.below(3));
    }
    let parity = r.below(2);
    s.header = Header { slot: slot.saturating_sub(parity * r.below(3)), proposer: r.below(n as u64), parent: r.root(), state: if parity == 0 { [0; 32] } else { r.root() }, body: r.root() };
    for x in s.block_roots.iter_mut().chain(s.state_roots.iter_mut()).chain(s.mixes.iter_mut()) {
        *x = r.root();
    }
    // runs of equal block roots, as empty slots leave them
    for i in 1..s.block_roots.len() {
        if r.pct(20) {
            s.block_roots[i] = s.block_roots[i - 1];
        }
    }
    s.historical_roots = (0..r.below(4)).map(|_| r.root()).collect();
    if f >= Capella {
        s.summaries = (0..r.below(4)).map(|_| (r.root(), r.root())).collect();
    }
    // validators
    let busy = r.below(4);
    let max = p.max_eb;
    // everyone nearly broke: sampling by balance takes many rounds
    let broke = r.one_in(14);
    for i in 0..n {
        let mut v = Validator { pk: pk(i), creds: bls_creds(i), eff: max, slashed: false, eligibility: epoch.saturating_sub(400), activation: epoch.saturating_sub(300), exit: FAR, withdrawable: FAR };
        match r.below(5) {
            0 | 1 => v.creds = eth1_creds(r.below(4) as u8),
            2 => v.creds = bls_creds((i + 7) % KEYS),
            // before Electra nobody can do anything with these; at its fork they queue what they have too much
            3 if f >= Electra || (f == Deneb && r.pct(30)) => {
                v.creds = eth1_creds(r.below(4) as u8);
                v.creds[0] = 2;
            }
            3 if r.pct(25) => {
                v.creds = eth1_creds(r.below(4) as u8);
                v.creds[0] = *r.pick(&[0, 3, 0xff]);
            }
            _ => {}
        }
        let mut bal = max + r.below(2) * r.below(3 * GWEI);
        if f >= Electra && v.compounding() && r.pct(60) {
            v.eff = 32 * GWEI + r.below(300) * GWEI;
            if r.one_in(4) {
                v.eff = p.max_eb_electra;
            }
            bal = v.eff + r.below(2 * GWEI) - GWEI / 2;
        }
        if r.pct(25) {
            v.eff = (1 + r.below(32)) * GWEI;
            bal = (v.eff + r.below(3 * GWEI)).saturating_sub(GWEI);
        }
        let b = |r: &mut Sub, x: u64| epoch.saturating_sub(r.below(x));
        if i >= 8 && r.below(10) < busy * 2 {
            match r.below(8) {
                0 => {
                    // waiting
                    (v.eligibility, v.activation) = (b(r, 6) + r.below(3), FAR);
                    if r.one_in(3) && v.eff > 2 * GWEI {
                        v.eff -= GWEI;
                        bal = *r.pick(&[v.eff + GWEI / 4 * 5, v.eff - GWEI / 4, v.eff + GWEI / 4 * 5 + 1, v.eff - GWEI / 4 - 1]);
                    }
                }
                1 => {
                    (v.eligibility, v.activation) = (FAR, FAR);
                    match r.below(4) {
                        0 => (v.eff, bal) = (0, r.below(33 * GWEI)),
                        // on the edges of hysteresis: nothing is paid to those who wait
                        1 | 2 => {
                            v.eff = (1 + r.below(31)) * GWEI;
                            let step = GWEI / 4;
                            bal = (*r.pick(&[v.eff + 5 * step, v.eff - step, v.eff + 5 * step + 1, v.eff - step - 1])).max(1);
                        }
                        _ => {}
                    }
                }
                2 => v.activation = epoch + 1 + r.below(p.max_seed_lookahead + 2),
                3 => {
                    // leaving
                    v.exit = epoch + r.below(7);
                    v.withdrawable = v.exit + p.withdrawability_delay;
                }
                4 => {
                    v.exit = b(r, 10);
                    v.withdrawable = epoch + 2 - r.below(4).min(epoch + 2);
                    if v.withdrawable < v.exit {
                        v.withdrawable = v.exit;
                    }
                    if r.one_in(4) {
                        // left long ago, withdrawable when one slashed would pay for those around it
                        v.withdrawable = epoch + p.epsv / 2 + r.below(2);
                    }
                    if r.one_in(3) {
                        (v.eff, bal) = (0, *r.pick(&[0, 1, 5]));
                    }
                }
                5 => {
                    v.slashed = true;
                    v.exit = epoch + r.below(5);
                    v.withdrawable = epoch + 1 + r.below(p.epsv);
                    if r.pct(60) {
                        v.withdrawable = epoch + p.epsv / 2 + r.below(3);
                    }
                    bal = bal * 31 / 32;
                    let k = b(r, p.epsv) % p.epsv;
                    s.slashings[k as usize] += v.eff;
                }
                6 => v.activation = b(r, 4),
                _ => {
                    v.eff = 17 * GWEI - r.below(3) * GWEI;
                    bal = v.eff + r.below(GWEI);
                }
            }
        }
        if broke {
            v.eff = v.eff.min((1 + r.below(2)) * GWEI);
            bal = bal.min(v.eff + r.below(GWEI));
        }
        v.eligibility = v.eligibility.min(v.activation);
        s.validators.push(v);
        s.balances.push(bal);
        s.prev_part.push(if r.pct(75) { 7 } else { r.below(8) as u8 });
        s.cur_part.push(if r.pct(75) { 7 } else { r.below(8) as u8 });
        s.scores.push(if r.pct(60) { 0 } else { r.below(40) * r.below(40) });
    }
    // everyone leaves within a few epochs
    if r.one_in(30) {
        let last = epoch + 1 + r.below(3);
        for v in s.validators.iter_mut().filter(|v| v.exit > last || v.activation > epoch) {
            v.activation = v.activation.min(last);
            v.eligibility = v.eligibility.min(v.activation);
            v.exit = last;
            v.withdrawable = last + p.withdrawability_delay;
        }
    }
    if r.one_in(3) {
        let k = r.below(p.epsv) as usize;
        s.slashings[k] += 32 * GWEI * r.below(n as u64);
    }
    if r.one_in(4) {
        let part = r.below(8) as u8;
        s.prev_part.iter_mut().for_each(|x| *x &= part);
    }
    // checkpoints
    let e = epoch;
    let fin = e.saturating_sub(*r.pick(&[2, 3, 4, 5, 6, 7, 20]));
    let pj = (fin + r.below(3)).min(e.saturating_sub(1));
    let cj = (pj + r.below(3)).min(e.saturating_sub(1)).max(pj);
    let rr = |r: &mut Sub, s: &State, x: u64| match s.block_root(x, p) {
        Ok(b) if !r.one_in(4) => b,
        _ => r.root(),
    };
    s.fin = Checkpoint { epoch: fin, root: if fin == 0 { [0; 32] } else { rr(r, &s, fin) } };
    s.prev_just = Checkpoint { epoch: pj, root: if pj == fin { s.fin.root } else { rr(r, &s, pj) } };
    s.cur_just = Checkpoint { epoch: cj, root: if cj == pj { s.prev_just.root } else { rr(r, &s, cj) } };
    s.bits = [r.below(2) == 0, r.below(3) > 0, r.below(3) > 0, r.below(2) == 0];
    // the execution chain's deposits
    let mut eth1 = Eth1Chain { next_key: n, ..Default::default() };
    let past = r.below(4);
    let most = if r.one_in(5) { 20 } else { 4 };
    let due = if r.pct(50) { 0 } else { r.below(most) };
    for _ in 0..past + due {
        eth1.grow(&s, r, p);
    }
    s.deposit_index = past;
    s.eth1 = eth1.data((past + due) as usize);
    for _ in 0..2 + r.below(4) {
        eth1.grow(&s, r, p);
    }
    let len = p.epochs_per_eth1_period * p.spe;
    let favourite = eth1.data((past + due + r.below(3)) as usize);
    let share = *r.pick(&[0, 30, 55, 100]);
    s.eth1_votes = (0..slot % len).map(|_| if r.pct(share) { favourite } else { eth1.data((past + r.below(due + 3)) as usize) }).collect();
    if f >= Electra {
        s.receipts_start = *r.pick(&[FAR, past + due, past, past + due / 2]);
    }
    // sync committees
    if f >= Altair {
        if let Ok(c) = s.next_sync_committee(p) {
            (s.cur_sync, s.next_sync) = (c.clone(), c);
        }
        let none = s.cur_sync.pks.is_empty();
        for c in [&mut s.cur_sync, &mut s.next_sync] {
            if none || r.one_in(2) {
                c.pks = (0..p.sync_size).map(|_| pk(r.below(n as u64) as usize)).collect();
                c.agg = aggregate_keys(&c.pks);
            }
        }
    }
    if f >= Bellatrix {
        if f == Bellatrix && r.one_in(3) {
            s.exec = PayloadHeader::default_for(p, f);
        } else {
            let x = honest_payload(&s, p, r.below(1000), vec![]);
            s.exec = x.header(p, f);
            s.exec.empty = false;
        }
    }
    if f >= Capella {
        s.next_wd = r.below(1 << 40);
        s.next_wd_validator = r.below(n as u64);
    }
    if f >= Electra {
        s.deposit_balance = r.below(2) * r.below(70 * GWEI);
        s.earliest_exit = (e + r.below(8)).max(1);
        s.exit_balance = r.below(2) * r.below(64 * GWEI);
        s.earliest_consolidation = e + r.below(8);
        s.consolidation_balance = r.below(2) * r.below(64) * GWEI + *r.pick(&[0, 0, 0, 1, GWEI - 1, GWEI / 3]);
        s.pending_deposits = (0..r.below(6)).map(|_| (r.below(n as u64), *r.pick(&[GWEI, 32 * GWEI, 1, 40 * GWEI]))).collect();
        let mut at = e.saturating_sub(1);
        s.pending_partials = (0..r.below(5))
            .map(|_| {
                at += r.below(2);
                (r.below(n as u64), 1 + r.below(3 * GWEI), at)
            })
            .collect();
        let mut pc = vec![];
        for _ in 0..r.below(4) {
            let (a, b) = (r.below(n as u64), r.below(n as u64));
            if a != b && s.validators[a as usize].exec_creds() && s.validators[b as usize].exec_creds() {
                let v = &mut s.validators[a as usize];
                if v.exit == FAR {
                    v.exit = e.saturating_sub(r.below(3));
                    v.withdrawable = e + r.below(3);
                }
                pc.push((a, b));
            }
        }
        s.pending_consolidations = pc;
        // queues that are full, or one short of it
        if r.one_in(12) && p.pending_partials_limit < 1000 {
            let to = (p.pending_partials_limit - r.below(2)) as usize;
            while s.pending_partials.len() < to {
                s.pending_partials.push((r.below(n as u64), 1 + r.below(GWEI), e + 20 + r.below(2)));
            }
        }
        if r.one_in(12) && p.pending_consolidations_limit < 1000 {
            let to = (p.pending_consolidations_limit - r.below(2)) as usize;
            let v: Vec<u64> = (0..n as u64).filter(|i| s.validators[*i as usize].exec_creds()).collect();
            if v.len() > 1 {
                let (a, b) = (v[0], v[1]);
                let x = &mut s.validators[a as usize];
                if x.exit == FAR {
                    (x.exit, x.withdrawable) = (e.saturating_sub(1), e + 20);
                }
                while s.pending_consolidations.len() < to {
                    s.pending_consolidations.push((a, b));
                }
            }
        }
    }
    if f == Phase0 {
        (s.prev_part, s.cur_part, s.scores) = (vec![], vec![], vec![]);
        let (mut prev, mut cur) = (vec![], vec![]);
        let lo = (e.saturating_sub(1)) * p.spe;
        for t in lo..slot {
            let te = t / p.spe;
            if e == 0 && te != e {
                continue;
            }
            for k in 0..s.committees_per_slot(te, p) {
                if r.pct(15) {
                    continue;
                }
                let c = s.committee(t, k, p);
                if c.is_empty() {
                    continue;
                }
                let data = vote(&s, t, k, r, p, 15);
                let full = r.pct(70);
                let mut bits: Vec<bool> = c.iter().map(|_| full || r.pct(50)).collect();
                if !bits.contains(&true) {
                    bits[0] = true;
                }
                let late = if r.pct(70) { 1 } else { p.spe };
                let delay = (1 + r.below(late)).min(slot - t);
                let x = PendingAtt { bits, data, delay, proposer: r.below(n as u64) };
                if te == e {
                    cur.push(x);
                } else {
                    prev.push(x);
                }
            }
        }
        s.prev_atts = prev;
        s.cur_atts = cur;
    }
    if r.one_in(4) && e > 0 {
        two_thirds(&mut s, r, p);
    }
    (s, eth1)
}

/// target votes worth exactly two thirds of the active balance, or one increment less or more
fn two_thirds(s: &mut State, r: &mut Sub, p: &Params) {
    let now = s.epoch(p);
    let prev = r.one_in(2);
    let active = s.active(now);
    let te = if prev { now - 1 } else { now };
    // Phase0 counts the votes themselves: of the current epoch there are only those of past slots
    let slots = te * p.spe..if prev { now * p.spe } else { s.slot };
    let due: Vec<u64> = if s.fork == Phase0 { slots.clone().flat_map(|t| (0..s.committees_per_slot(te, p)).map(move |k| (t, k))).flat_map(|(t, k)| s.committee(t, k, p)).collect() } else { s.active(te) };
    let can: Vec<u64> = due.into_iter().filter(|i| active.contains(i) && !s.validators[*i as usize].slashed).collect();
    if can.len() < 4 {
        return;
    }
    for i in &active {
        let v = &mut s.validators[*i as usize];
        v.eff -= v.eff % GWEI;
    }
    let third = |s: &State| active.iter().map(|i| s.validators[*i as usize].eff).sum::<u64>() / GWEI % 3;
    let last = *can.last().unwrap() as usize;
    if s.validators[last].eff < 4 * GWEI {
        return;
    }
    s.validators[last].eff -= third(s) * GWEI;
    let mut order = can.clone();
    order.pop();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i as u64 + 1) as usize);
    }
    let want = active.iter().map(|i| s.validators[*i as usize].eff).sum::<u64>() / 3 * 2;
    let want = match r.below(4) {
        0 => want - GWEI,
        1 => want + GWEI,
        _ => want,
    };
    let (mut who, mut sum) = (vec![], 0);
    for i in order {
        if sum + s.validators[i as usize].eff <= want {
            sum += s.validators[i as usize].eff;
            who.push(i);
        }
    }
    // what is missing moves from one that does not vote to one that does
    let gap = want - sum;
    if gap > 0 {
        let from = can.iter().copied().find(|i| !who.contains(i) && s.validators[*i as usize].eff > gap);
        let to = who.iter().copied().find(|i| s.validators[*i as usize].eff + gap <= 32 * GWEI);
        let (Some(from), Some(to)) = (from, to) else { return };
        s.validators[from as usize].eff -= gap;
        s.validators[to as usize].eff += gap;
    }
    if s.fork == Phase0 {
        let mut atts = vec![];
        for t in slots {
            for k in 0..s.committees_per_slot(te, p) {
                let c = s.committee(t, k, p);
                let bits: Vec<bool> = c.iter().map(|i| who.contains(i)).collect();
                if bits.contains(&true) {
                    let data = vote(s, t, k, r, p, 0);
                    atts.push(PendingAtt { bits, data, delay: (1 + r.below(p.spe)).min(s.slot - t), proposer: r.below(s.validators.len() as u64) });
                }
            }
        }
        if prev {
            s.prev_atts = atts;
        } else {
            s.cur_atts = atts;
        }
    } else {
        for i in can {
            let x = if prev { &mut s.prev_part } else { &mut s.cur_part };
            let x = &mut x[i as usize];
            *x = *x & !2 | if who.contains(&i) { 2 } else { 0 };
        }
    }
}

/// attestation data for slot `t`, with a wrong target or head now and then
pub fn vote(s: &State, t: u64, k: u64, r: &mut Sub, p: &Params, wrong: u64) -> AttData {
    let te = t / p.spe;
    let target = if r.pct(wrong) { r.root() } else { s.block_root(te, p).unwrap_or([7; 32]) };
    let head = if r.pct(wrong) { r.root() } else { s.block_root_at(t, p).unwrap_or([8; 32]) };
    let source = if te == s.epoch(p) { s.cur_just } else { s.prev_just };
    AttData { slot: t, index: if s.fork >= Electra { 0 } else { k }, head, source, target: Checkpoint { epoch: te, root: target } }
}
pub fn sign_bits(s: &State, d: &AttData, members: &[u64], bits: &[bool], p: &Params) -> Sig {
    let who: Vec<u64> = members.iter().zip(bits).filter(|(_, b)| **b).map(|(i, _)| *i).collect();
    sign_attestation(s, d, &who, p)
}

fn some_attestations(s: &State, r: &mut Sub, p: &Params, weight: u64) -> Vec<Attestation> {
    let mut out = vec![];
    let e = s.epoch(p);
    let back = if s.fork >= Deneb { s.slot - s.prev_epoch(p) * p.spe } else { p.spe };
    let lo = s.slot.saturating_sub(back).max(s.prev_epoch(p) * p.spe);
    let max = if s.fork >= Electra { p.max_attestations_electra } else { p.max_attestations }.min(if p.mainnet { 4 } else { 24 });
    let mut slots: Vec<u64> = (lo..s.slot).collect();
    slots.reverse();
    for t in slots {
        let te = t / p.spe;
        let n = s.committees_per_slot(te, p);
        if te > e {
            continue;
        }
        if s.fork >= Electra {
            if out.len() as u64 >= max || !r.pct(if t + 1 == s.slot { 90 } else { weight * 4 }) {
                continue;
            }
            let d = vote(s, t, 0, r, p, 8);
            let mut cb = vec![false; p.max_committees_per_slot as usize];
            let (mut members, mut bits) = (vec![], vec![]);
            for k in 0..n {
                if r.pct(75) {
                    cb[k as usize] = true;
                    let c = s.committee(t, k, p);
                    let full = r.pct(60);
                    bits.extend(c.iter().map(|_| full || r.pct(50)));
                    members.extend(c);
                }
            }
            if !bits.contains(&true) {
                continue;
            }
            let sig = sign_bits(s, &d, &members, &bits, p);
            out.push(Attestation { bits, data: d, committee_bits: cb, sig });
            continue;
        }
        for k in 0..n {
            if out.len() as u64 >= max || !r.pct(if t + 1 == s.slot { 90 } else { weight * 3 }) {
                continue;
            }
            let c = s.committee(t, k, p);
            if c.is_empty() {
                continue;
            }
            let d = vote(s, t, k, r, p, 8);
            let full = r.pct(60);
            let mut bits: Vec<bool> = c.iter().map(|_| full || r.pct(50)).collect();
            if !bits.contains(&true) {
                bits[0] = true;
            }
            let sig = sign_bits(s, &d, &c, &bits, p);
            out.push(Attestation { bits, data: d, committee_bits: vec![], sig });
        }
    }
    out
}

pub fn sign_header(s: &State, h: Header, key: usize, p: &Params) -> SignedHeader {
    let d = s.domain(D_PROPOSER, Some(h.slot / p.spe), p);
    SignedHeader { sig: sign(key, &signing_root(&h.root(), &d)), msg: h }
}
pub fn key(s: &State, i: u64) -> usize {
    // a mutation may name a validator nobody has
    s.validators.get(i as usize).map_or(0, |v| key_of(&v.pk).expect("known key"))
}
pub fn some_proposer_slashing(s: &State, r: &mut Sub, p: &Params) -> ProposerSlashing {
    let i = r.below(s.validators.len() as u64);
    let slot = if r.pct(70) { s.slot.saturating_sub(r.below(20)) } else { r.below(s.slot + 100) };
    let h = Header { slot, proposer: i, parent: r.root(), state: r.root(), body: r.root() };
    let mut g = h.clone();
    match r.below(3) {
        0 => g.parent = r.root(),
        1 => g.state = r.root(),
        _ => g.body = r.root(),
    }
    ProposerSlashing { a: sign_header(s, h, key(s, i), p), b: sign_header(s, g, key(s, i), p) }
}
pub fn indexed(s: &State, indices: Vec<u64>, data: AttData, p: &Params) -> Indexed {
    Indexed { sig: sign_attestation(s, &data, &indices, p), indices, data }
}
pub fn some_attester_slashing(s: &State, r: &mut Sub, p: &Params) -> AttesterSlashing {
    let n = s.validators.len() as u64;
    let e = s.epoch(p);
    let group = |r: &mut Sub, must: u64| {
        let mut v: Vec<u64> = (0..1 + r.below(6)).map(|_| r.below(n)).collect();
        v.push(must);
        v.sort();
        v.dedup();
        v
    };
    let must = r.below(n);
    let (a, b) = (group(r, must), group(r, must));
    let t = e.saturating_sub(r.below(4));
    let mut d1 = AttData { slot: t * p.spe, index: 0, head: r.root(), source: Checkpoint { epoch: t.saturating_sub(2), root: r.root() }, target: Checkpoint { epoch: t, root: r.root() } };
    let mut d2 = d1;
    match r.below(5) {
        0 => d2.head = r.root(),
        1 => d2.target.root = r.root(),
        2 => d2.source.epoch = t.saturating_sub(1),
        _ => {
            // d1 surrounds d2
            d1.source.epoch = t.saturating_sub(3);
            d2.source.epoch = t.saturating_sub(2);
            d2.target.epoch = t.saturating_sub(1);
        }
    }
    AttesterSlashing { a: indexed(s, a, d1, p), b: indexed(s, b, d2, p) }
}
pub fn sign_exit(s: &State, index: u64, epoch: u64, p: &Params) -> Exit {
    let mut x = Exit { epoch, index, sig: [0; 96] };
    let d = if s.fork >= Deneb { domain(D_EXIT, p.version(Capella), &s.gvr) } else { s.domain(D_EXIT, Some(epoch), p) };
    x.sig = sign(key(s, index), &signing_root(&x.msg().root(), &d));
    x
}
pub fn some_exit(s: &State, r: &mut Sub, p: &Params) -> Exit {
    let e = s.epoch(p);
    let mut i = r.below(s.validators.len() as u64);
    for _ in 0..8 {
        let v = &s.validators[i as usize];
        if v.active(e) && v.exit == FAR {
            break;
        }
        i = r.below(s.validators.len() as u64);
    }
    let epoch = if r.pct(60) { e } else { e.saturating_sub(r.below(5)) };
    sign_exit(s, i, epoch, p)
}
pub fn some_change(s: &State, r: &mut Sub, p: &Params) -> Option<BlsChange> {
    let c: Vec<u64> = (0..s.validators.len() as u64).filter(|i| s.validators[*i as usize].creds[0] == 0).collect();
    if c.is_empty() {
        return None;
    }
    let i = *r.pick(&c);
    let creds = s.validators[i as usize].creds;
    let k0 = key(s, i);
    let k = [k0, (k0 + 7) % KEYS].into_iter().find(|k| bls_creds(*k) == creds)?;
    let mut x = BlsChange { index: i, from: pk(k), to: [r.below(4) as u8; 20], sig: [0; 96] };
    x.sig = sign(k, &signing_root(&x.msg().root(), &domain(D_BLS_CHANGE, p.versions[0], &s.gvr)));
    Some(x)
}
pub fn sync_root(s: &State, p: &Params) -> Root {
    let prev = s.slot.max(1) - 1;
    signing_root(&s.block_root_at(prev, p).unwrap_or([0; 32]), &s.domain(D_SYNC, Some(prev / p.spe), p))
}
pub fn sync_aggregate(s: &State, bits: Vec<bool>, p: &Params) -> SyncAggregate {
    let root = sync_root(s, p);
    let keys: Vec<usize> = s.cur_sync.pks.iter().zip(&bits).filter(|(_, b)| **b).map(|(k, _)| key_of(k).unwrap()).collect();
    SyncAggregate { sig: sign_all(&keys, &root), bits }
}
pub fn sign_consolidation(s: &State, x: &mut Consolidation, p: &Params) {
    let root = signing_root(&x.msg().root(), &domain(D_CONSOLIDATION, p.versions[0], &s.gvr));
    x.sig = sign_all(&[key(s, x.source), key(s, x.target)], &root);
}
fn some_consolidation(s: &State, r: &mut Sub, p: &Params) -> Option<Consolidation> {
    let e = s.epoch(p);
    let ok: Vec<u64> = (0..s.validators.len() as u64)
        .filter(|i| {
            let v = &s.validators[*i as usize];
            v.active(e) && v.exit == FAR && v.exec_creds()
        })
        .collect();
    if ok.len() < 2 {
        return None;
    }
    let a = *r.pick(&ok);
    let same: Vec<u64> = ok.iter().copied().filter(|i| *i != a && s.validators[*i as usize].address() == s.validators[a as usize].address()).collect();
    let b = if same.is_empty() { return None } else { *r.pick(&same) };
    let mut x = Consolidation { source: a, target: b, epoch: e.saturating_sub(r.below(2)), sig: [0; 96] };
    sign_consolidation(s, &mut x, p);
    Some(x)
}
fn some_withdrawal_request(s: &State, r: &mut Sub) -> WithdrawalRequest {
    let mut i = r.below(s.validators.len() as u64) as usize;
    if !s.pending_partials.is_empty() && r.pct(35) {
        i = r.pick(&s.pending_partials).0 as usize;
    }
    let v = &s.validators[i];
    let mut x = WithdrawalRequest { address: v.address(), pk: v.pk, amount: *r.pick(&[0, GWEI, 1, 5 * GWEI, u64::MAX]) };
    if r.one_in(3) {
        // at the edge of what is left above the minimum
        let spare = s.balances[i].saturating_sub(32 * GWEI).saturating_sub(s.pending_to_withdraw(i as u64));
        x.amount = (spare + r.below(3)).saturating_sub(1);
    }
    match r.below(12) {
        0 => x.address[3] ^= 1,
        1 => x.pk = pk(KEYS - 1),
        _ => {}
    }
    x
}

/// how many deposits the block has to carry, given its vote
pub fn due_deposits(s: &State, vote: &Eth1, p: &Params) -> (u64, Eth1) {
    let mut eth1 = s.eth1;
    let votes = s.eth1_votes.iter().filter(|v| *v == vote).count() as u64 + 1;
    if votes * 2 > p.epochs_per_eth1_period * p.spe {
        eth1 = *vote;
    }
    let end = if s.fork >= Electra { eth1.count.min(s.receipts_start) } else { eth1.count };
    (end.saturating_sub(s.deposit_index).min(p.max_deposits), eth1)
}

/// what an honest or a curious proposer puts in a block on `s` (advanced to the slot)
pub fn body(sim: &mut Sim, w: &W, s: &State, eth1: &mut Eth1Chain, fl: &Flavour) -> Body {
    let p = &w.p;
    let proposer = s.proposer(p).unwrap_or(0);
    let mut b = empty_body(p);
    b.randao = randao_reveal(s, key(s, proposer), p);
    let r = &mut Sub::new(sim);
    b.graffiti = if r.one_in(2) { [0; 32] } else { r.root() };
    // vote: what others vote for, the current data, or a later view of the execution chain
    if sim.chance(fl.deposits, 20) {
        eth1.grow(s, r, p);
    }
    b.eth1 = match r.below(4) {
        0 => s.eth1,
        1 => *s.eth1_votes.first().unwrap_or(&s.eth1),
        2 => *s.eth1_votes.last().unwrap_or(&s.eth1),
        _ => eth1.data(((s.eth1.count + r.below(3)) as usize).clamp(s.deposit_index as usize, eth1.tree.len())),
    };
    if b.eth1.count < s.deposit_index || b.eth1.count as usize > eth1.tree.len() {
        b.eth1 = s.eth1;
    }
    let (due, adopted) = due_deposits(s, &b.eth1, p);
    if adopted.count as usize <= eth1.tree.len() {
        b.deposits = (0..due).map(|i| eth1.tree.deposit((s.deposit_index + i) as usize, adopted.count as usize)).collect();
    }
    if sim.chance(fl.atts, 10) {
        b.attestations = some_attestations(s, r, p, fl.atts);
    }
    if sim.chance(fl.slashings, 20) {
        for _ in 0..1 + r.below(2) {
            b.proposer_slashings.push(some_proposer_slashing(s, r, p));
        }
    }
    if sim.chance(fl.slashings, 20) {
        b.attester_slashings.push(some_attester_slashing(s, r, p));
        if s.fork < Electra && r.one_in(3) {
            b.attester_slashings.push(some_attester_slashing(s, r, p));
        }
    }
    if sim.chance(fl.exits, 20) {
        for _ in 0..1 + r.below(4) {
            b.exits.push(some_exit(s, r, p));
        }
    }
    if s.fork >= Altair {
        let part = if sim.chance(fl.sync, 10) { *r.pick(&[100, 100, 90, 50, 0]) } else { 0 };
        let bits: Vec<bool> = (0..p.sync_size).map(|_| r.pct(part)).collect();
        b.sync = sync_aggregate(s, bits, p);
    }
    if s.fork >= Bellatrix {
        let txs = (0..r.below(3)).map(|_| { let n = r.below(40) as usize; r.root().repeat(2)[..n].to_vec() }).collect();
        if s.fork > Bellatrix || !s.exec.empty || r.one_in(2) {
            b.payload = honest_payload(s, p, r.below(1000), txs);
        }
    }
    if s.fork >= Capella && sim.chance(fl.changes, 20) {
        for _ in 0..1 + r.below(3) {
            b.bls_changes.extend(some_change(s, r, p));
        }
    }
    if s.fork >= Deneb {
        b.commitments = (0..r.below(p.max_blobs + 1)).map(|_| { let mut c = [0; 48]; c[..32].copy_from_slice(&r.root()); c }).collect();
    }
    if s.fork >= Electra && sim.chance(fl.requests, 10) {
        for _ in 0..r.below(p.max_withdrawal_requests + 1).min(4) {
            b.payload.withdrawal_requests.push(some_withdrawal_request(s, r));
        }
        let mut idx = s.deposit_index + r.below(3);
        for _ in 0..r.below(p.max_deposit_receipts.min(4) + 1) {
            b.payload.deposit_receipts.push(DepositReceipt { data: some_deposit(s, &mut eth1.next_key, r, p), index: idx });
            idx += 1;
        }
        if r.one_in(2) {
            b.consolidations.extend(some_consolidation(s, r, p));
        }
    }
    b
}

/// the lists of a block within the limits of the block's type
pub fn within_limits(b: &Block, p: &Params) -> bool {
    let e = b.fork >= Electra;
    let x = &b.body;
    let c = |n: usize, m: u64| n as u64 <= m;
    c(x.proposer_slashings.len(), p.max_proposer_slashings)
        && c(x.attester_slashings.len(), if e { p.max_attester_slashings_electra } else { p.max_attester_slashings })
        && c(x.attestations.len(), if e { p.max_attestations_electra } else { p.max_attestations })
        && c(x.deposits.len(), p.max_deposits)
        && c(x.exits.len(), p.max_exits)
        && c(x.bls_changes.len(), p.max_bls_changes)
        && c(x.commitments.len(), p.max_commitments)
        && c(x.consolidations.len(), p.max_consolidations)
        && c(x.payload.withdrawals.len(), p.max_withdrawals)
        && c(x.payload.withdrawal_requests.len(), p.max_withdrawal_requests)
        && c(x.payload.deposit_receipts.len(), p.max_deposit_receipts)
        && c(x.payload.extra.len(), 32)
        && x.deposits.iter().all(|d| d.proof.len() == 33)
        && x.attestations.iter().all(|a| c(a.bits.len(), p.max_validators_per_committee * if e { p.max_committees_per_slot } else { 1 }))
        && x.attester_slashings.iter().all(|s| [&s.a, &s.b].iter().all(|a| c(a.indices.len(), p.max_validators_per_committee * if e { p.max_committees_per_slot } else { 1 })))
}
/// a block that the rules accept: operations that the state refuses are left out, and returned
pub fn valid_block(sim: &mut Sim, w: &W, s: &State, mut b: Body) -> Option<(Block, State, Body)> {
    let p = &w.p;
    let wanted = b.clone();
    for _ in 0..60 {
        match make_block(s, b.clone(), p) {
            Ok((blk, post)) => return Some((blk, post, wanted)),
            Err(No(why)) => {
                sim.probe(&format!("dropped: {why}"));
                // find the operation that is refused: the first whose removal changes the reason or helps
                let lens = ops(&b);
                let mut fixed = false;
                'out: for (k, n) in lens.into_iter().enumerate() {
                    for i in (0..n).rev() {
                        let mut c = b.clone();
                        drop_op(&mut c, k, i);
                        match make_block(s, c.clone(), p) {
                            Ok(_) => {}
                            Err(No(w2)) if w2 != why => {}
                            _ => continue,
                        }
                        b = c;
                        fixed = true;
                        break 'out;
                    }
                }
                if !fixed {
                    // several refusals of one kind: leave out a whole class
                    let lens = ops(&b);
                    let Some(k) = (0..lens.len()).find(|k| lens[*k] > 0 && {
                        let mut c = b.clone();
                        (0..lens[*k]).rev().for_each(|i| drop_op(&mut c, *k, i));
                        !matches!(make_block(s, c, p), Err(No(w2)) if w2 == why)
                    }) else {
                        sim.probe(&format!("no block: {why}"));
                        return None;
                    };
                    let i = lens[k] - 1;
                    drop_op(&mut b, k, i);
                }
            }
        }
    }
    None
}
pub fn ops(b: &Body) -> Vec<usize> {
    vec![b.exits.len(), b.proposer_slashings.len(), b.attester_slashings.len(), b.bls_changes.len(), b.consolidations.len(), b.attestations.len(), b.payload.deposit_receipts.len(), b.payload.withdrawal_requests.len()]
}
pub fn drop_op(b: &mut Body, k: usize, i: usize) {
    match k {
        0 => drop(b.exits.remove(i)),
        1 => drop(b.proposer_slashings.remove(i)),
        2 => drop(b.attester_slashings.remove(i)),
        3 => drop(b.bls_changes.remove(i)),
        4 => drop(b.consolidations.remove(i)),
        5 => drop(b.attestations.remove(i)),
        6 => drop(b.payload.deposit_receipts.remove(i)),
        _ => drop(b.payload.withdrawal_requests.remove(i)),
    }
}

use crate::{ssz::*, types::*, types::Fork::*, *};

const WEIGHTS: [u64; 3] = [14, 26, 14];

/// advance to `slot`, through epoch boundaries and scheduled forks
pub fn process_slots(s: &mut State, slot: u64, p: &Params) -> R {
    need(s.slot < slot, "slot not in the future")?;
    while s.slot < slot {
        step_slot(s, p)?;
        upgrade_if_due(s, p)?;
    }
    Ok(())
}
/// one slot, without any upgrade
pub fn step_slot(s: &mut State, p: &Params) -> R {
    process_slot(s, p);
    if (s.slot + 1) % p.spe == 0 {
        process_epoch(s, p)?;
    }
    s.slot += 1;
    Ok(())
}
pub fn upgrade_if_due(s: &mut State, p: &Params) -> R {
    if s.slot % p.spe != 0 {
        return Ok(());
    }
    let e = s.epoch(p);
    for f in &FORKS[1..] {
        if p.epochs[*f as usize] == e && s.fork < *f {
            upgrade(s, *f, p)?;
        }
    }
    Ok(())
}
fn process_slot(s: &mut State, p: &Params) {
    let r = s.root(p);
    let k = (s.slot % p.sphr) as usize;
    s.state_roots[k] = r;
    if s.header.state == [0; 32] {
        s.header.state = r;
    }
    s.block_roots[k] = s.header.root();
}
pub fn process_epoch(s: &mut State, p: &Params) -> R {
    justification(s, p)?;
    if s.fork >= Altair {
        inactivity_updates(s, p);
    }
    rewards(s, p)?;
    registry(s, p)?;
    slashings(s, p);
    let e = s.epoch(p);
    if (e + 1) % p.epochs_per_eth1_period == 0 {
        s.eth1_votes.clear();
    }
    if s.fork >= Electra {
        pending_deposits(s, p);
        pending_consolidations(s, p);
    }
    effective_balances(s, p);
    s.slashings[((e + 1) % p.epsv) as usize] = 0;
    s.mixes[((e + 1) % p.ephv) as usize] = s.mix(e, p);
    if (e + 1) % (p.sphr / p.spe) == 0 {
        let (b, t) = (V::Roots(s.block_roots.clone(), None).root(), V::Roots(s.state_roots.clone(), None).root());
        if s.fork >= Capella {
            s.summaries.push((b, t));
        } else {
            s.historical_roots.push(h2(&b, &t));
        }
    }
    if s.fork == Phase0 {
        s.prev_atts = std::mem::take(&mut s.cur_atts);
    } else {
        s.prev_part = std::mem::replace(&mut s.cur_part, vec![0; s.validators.len()]);
        if (e + 1) % p.sync_period == 0 {
            let next = s.next_sync_committee(p)?;
            s.cur_sync = std::mem::replace(&mut s.next_sync, next);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- votes

/// phase0: attestations of an epoch with a matching source / target / head
fn matching(s: &State, e: u64, kind: usize, p: &Params) -> R<Vec<PendingAtt>> {
    let atts = if e == s.epoch(p) { &s.cur_atts } else { &s.prev_atts };
    let target = if kind > 0 { s.block_root(e, p)? } else { [0; 32] };
    let mut out = vec![];
    for a in atts {
        if kind > 0 && a.data.target.root != target {
            continue;
        }
        if kind > 1 && a.data.head != s.block_root_at(a.data.slot, p)? {
            continue;
        }
        out.push(a.clone());
    }
    Ok(out)
}
pub fn attesters(s: &State, data: &AttData, bits: &[bool], p: &Params) -> Vec<u64> {
    s.committee(data.slot, data.index, p).into_iter().zip(bits).filter(|(_, b)| **b).map(|(i, _)| i).collect()
}
fn unslashed(s: &State, atts: &[PendingAtt], p: &Params) -> Vec<u64> {
    let mut v: Vec<u64> = atts.iter().flat_map(|a| attesters(s, &a.data, &a.bits, p)).filter(|i| !s.validators[*i as usize].slashed).collect();
    v.sort();
    v.dedup();
    v
}
pub fn participating(s: &State, e: u64, flag: usize, p: &Params) -> Vec<u64> {
    let part = if e == s.epoch(p) { &s.cur_part } else { &s.prev_part };
    s.active(e).into_iter().filter(|i| part[*i as usize] >> flag & 1 == 1 && !s.validators[*i as usize].slashed).collect()
}
fn justification(s: &mut State, p: &Params) -> R {
    let e = s.epoch(p);
    if e <= 1 {
        return Ok(());
    }
    let pe = s.prev_epoch(p);
    let weigh = |s: &State, e: u64| -> R<u64> {
        Ok(if s.fork == Phase0 { s.total(unslashed(s, &matching(s, e, 1, p)?, p), p) } else { s.total(participating(s, e, 1, p), p) })
    };
    let total = s.total_active(p);
    let (prev, cur) = (weigh(s, pe)?, weigh(s, e)?);
    let (old_prev, old_cur) = (s.prev_just, s.cur_just);
    s.prev_just = s.cur_just;
    s.bits = [false, s.bits[0], s.bits[1], s.bits[2]];
    if prev * 3 >= total * 2 {
        s.cur_just = Checkpoint { epoch: pe, root: s.block_root(pe, p)? };
        s.bits[1] = true;
    }
    if cur * 3 >= total * 2 {
        s.cur_just = Checkpoint { epoch: e, root: s.block_root(e, p)? };
        s.bits[0] = true;
    }
    let b = s.bits;
    if b[1] && b[2] && b[3] && old_prev.epoch + 3 == e {
        s.fin = old_prev;
    }
    if b[1] && b[2] && old_prev.epoch + 2 == e {
        s.fin = old_prev;
    }
    if b[0] && b[1] && b[2] && old_cur.epoch + 2 == e {
        s.fin = old_cur;
    }
    if b[0] && b[1] && old_cur.epoch + 1 == e {
        s.fin = old_cur;
    }
    Ok(())
}
pub fn finality_delay(s: &State, p: &Params) -> u64 {
    s.prev_epoch(p) - s.fin.epoch
}
pub fn leaking(s: &State, p: &Params) -> bool {
    finality_delay(s, p) > p.min_epochs_to_inactivity
}
fn eligible(s: &State, p: &Params) -> Vec<u64> {
    let pe = s.prev_epoch(p);
    (0..s.validators.len() as u64)
        .filter(|i| {
            let v = &s.validators[*i as usize];
            v.active(pe) || (v.slashed && pe + 1 < v.withdrawable)
        })
        .collect()
}
fn inactivity_updates(s: &mut State, p: &Params) {
    if s.epoch(p) == 0 {
        return;
    }
    let on_time = participating(s, s.prev_epoch(p), 1, p);
    let leak = leaking(s, p);
    for i in eligible(s, p) {
        let x = &mut s.scores[i as usize];
        if on_time.binary_search(&i).is_ok() {
            *x -= (*x).min(1);
        } else {
            *x += p.inactivity_bias;
        }
        if !leak {
            *x -= (*x).min(p.inactivity_recovery);
        }
    }
}
pub fn base_reward(s: &State, i: u64, p: &Params) -> u64 {
    let eff = s.validators[i as usize].eff;
    let root = isqrt(s.total_active(p));
    if s.fork == Phase0 {
        eff * p.base_reward_factor / root / 4
    } else {
        eff / p.inc * (p.inc * p.base_reward_factor / root)
    }
}
fn rewards(s: &mut State, p: &Params) -> R {
    if s.epoch(p) == 0 {
        return Ok(());
    }
    let n = s.validators.len();
    let pe = s.prev_epoch(p);
    let total = s.total_active(p);
    let leak = leaking(s, p);
    let elig = eligible(s, p);
    let root = isqrt(total);
    if s.fork == Phase0 {
        let base: Vec<u64> = s.validators.iter().map(|v| v.eff * p.base_reward_factor / root / 4).collect();
        let (mut plus, mut minus) = (vec![0u64; n], vec![0u64; n]);
        for kind in 0..3 {
            let set = unslashed(s, &matching(s, pe, kind, p)?, p);
            let bal = s.total(set.clone(), p);
            for i in &elig {
                let b = base[*i as usize];
                if set.binary_search(i).is_ok() {
                    plus[*i as usize] += if leak { b } else { b * (bal / p.inc) / (total / p.inc) };
                } else {
                    minus[*i as usize] += b;
                }
            }
        }
        let source = matching(s, pe, 0, p)?;
        let sets: Vec<Vec<u64>> = source.iter().map(|a| attesters(s, &a.data, &a.bits, p)).collect();
        for i in unslashed(s, &source, p) {
            let (a, _) = source.iter().zip(&sets).filter(|(_, set)| set.contains(&i)).min_by_key(|(a, _)| a.delay).unwrap();
            let b = base[i as usize];
            let proposer = b / p.proposer_reward_q;
            plus[a.proposer as usize] += proposer;
            plus[i as usize] += (b - proposer) / a.delay;
        }
        if leak {
            let target = unslashed(s, &matching(s, pe, 1, p)?, p);
            let delay = finality_delay(s, p);
            for i in &elig {
                let b = base[*i as usize];
                minus[*i as usize] += 4 * b - b / p.proposer_reward_q;
                if target.binary_search(i).is_err() {
                    minus[*i as usize] += s.validators[*i as usize].eff * delay / p.inactivity_q;
                }
            }
        }
        for i in 0..n {
            s.increase(i as u64, plus[i]);
            s.decrease(i as u64, minus[i]);
        }
        return Ok(());
    }
    let per_inc = p.inc * p.base_reward_factor / root;
    let total_incs = total / p.inc;
    let mut deltas = vec![];
    for flag in 0..3 {
        let set = participating(s, pe, flag, p);
        let incs = s.total(set.clone(), p) / p.inc;
        let (mut plus, mut minus) = (vec![0u64; n], vec![0u64; n]);
        for i in &elig {
            let base = s.validators[*i as usize].eff / p.inc * per_inc;
            if set.binary_search(i).is_ok() {
                if !leak {
                    plus[*i as usize] += base * WEIGHTS[flag] * incs / (total_incs * 64);
                }
            } else if flag != 2 {
                minus[*i as usize] += base * WEIGHTS[flag] / 64;
            }
        }
        deltas.push((plus, minus));
    }
    let target = participating(s, pe, 1, p);
    let mut minus = vec![0u64; n];
    let q = if s.fork == Altair { p.inactivity_q_altair } else { p.inactivity_q_bellatrix };
    for i in &elig {
        if target.binary_search(i).is_err() {
            let num = s.validators[*i as usize].eff.checked_mul(s.scores[*i as usize]).ok_or(No("inactivity penalty overflow"))?;
            minus[*i as usize] += num / (p.inactivity_bias * q);
        }
    }
    deltas.push((vec![0; n], minus));
    for (plus, minus) in deltas {
        for i in 0..n {
            s.increase(i as u64, plus[i]);
            s.decrease(i as u64, minus[i]);
        }
    }
    Ok(())
}
fn registry(s: &mut State, p: &Params) -> R {
    let e = s.epoch(p);
    for i in 0..s.validators.len() {
        let electra = s.fork >= Electra;
        let v = &mut s.validators[i];
        if v.eligibility == FAR && (if electra { v.eff >= p.min_activation_balance } else { v.eff == p.max_eb }) {
            v.eligibility = e + 1;
        }
        if v.active(e) && v.eff <= p.ejection {
            s.initiate_exit(i as u64, p)?;
        }
    }
    let fin = s.fin.epoch;
    let mut queue: Vec<(u64, usize)> = s.validators.iter().enumerate().filter(|(_, v)| v.eligibility <= fin && v.activation == FAR).map(|(i, v)| (v.eligibility, i)).collect();
    queue.sort();
    let limit = match s.fork {
        Electra => u64::MAX,
        Deneb => s.churn_limit(p).min(p.max_activation_churn),
        _ => s.churn_limit(p),
    };
    for (_, i) in queue.into_iter().take(limit as usize) {
        s.validators[i].activation = activation_exit_epoch(e, p);
    }
    Ok(())
}
fn slashings(s: &mut State, p: &Params) {
    let e = s.epoch(p);
    let total = s.total_active(p);
    let mult = match s.fork {
        Phase0 => p.slash_mult,
        Altair => p.slash_mult_altair,
        _ => p.slash_mult_bellatrix,
    };
    let adjusted = (s.slashings.iter().sum::<u64>() * mult).min(total);
    for i in 0..s.validators.len() {
        let v = &s.validators[i];
        if v.slashed && e + p.epsv / 2 == v.withdrawable {
            let pen = v.eff / p.inc * adjusted / total * p.inc;
            s.decrease(i as u64, pen);
        }
    }
}
fn pending_deposits(s: &mut State, p: &Params) {
    let avail = s.deposit_balance + s.activation_exit_churn(p);
    let (mut used, mut k) = (0, 0);
    for (i, amount) in s.pending_deposits.clone() {
        if used + amount > avail {
            break;
        }
        s.increase(i, amount);
        used += amount;
        k += 1;
    }
    s.pending_deposits.drain(..k);
    s.deposit_balance = if s.pending_deposits.is_empty() { 0 } else { avail - used };
}
fn pending_consolidations(s: &mut State, p: &Params) {
    let e = s.epoch(p);
    let mut k = 0;
    for (from, to) in s.pending_consolidations.clone() {
        let v = &s.validators[from as usize];
        if !v.slashed {
            if v.withdrawable > e {
                break;
            }
            s.switch_to_compounding(to, p);
            let b = s.balances[from as usize].min(s.max_eb_of(from, p));
            s.decrease(from, b);
            s.increase(to, b);
        }
        k += 1;
    }
    s.pending_consolidations.drain(..k);
}
fn effective_balances(s: &mut State, p: &Params) {
    let h = p.inc / p.hysteresis_quotient;
    for i in 0..s.validators.len() {
        let b = s.balances[i];
        let max = if s.fork >= Electra { s.max_eb_of(i as u64, p) } else { p.max_eb };
        let v = &mut s.validators[i];
        if b + h * p.hysteresis_down < v.eff || v.eff + h * p.hysteresis_up < b {
            v.eff = (b - b % p.inc).min(max);
        }
    }
}

// ---------------------------------------------------------------- upgrades

pub fn upgrade(s: &mut State, f: Fork, p: &Params) -> R {
    let e = s.epoch(p);
    s.prev_version = s.cur_version;
    s.cur_version = p.version(f);
    s.fork_epoch = e;
    let n = s.validators.len();
    match f {
        Altair => {
            let atts = std::mem::take(&mut s.prev_atts);
            s.cur_atts.clear();
            s.fork = Altair;
            s.prev_part = vec![0; n];
            s.cur_part = vec![0; n];
            s.scores = vec![0; n];
            for a in atts {
                let flags = block::participation_flags(s, &a.data, a.delay, p).expect("included attestations match");
                for i in attesters(s, &a.data, &a.bits, p) {
                    for fl in &flags {
                        s.prev_part[i as usize] |= 1 << fl;
                    }
                }
            }
            s.cur_sync = s.next_sync_committee(p)?;
            s.next_sync = s.cur_sync.clone();
        }
        Bellatrix => s.exec = PayloadHeader::default_for(p, Bellatrix),
        Capella => {
            s.exec.extend(Capella);
            s.next_wd = 0;
            s.next_wd_validator = 0;
            s.summaries.clear();
        }
        Deneb => s.exec.extend(Deneb),
        Electra => {
            s.exec.extend(Electra);
            s.receipts_start = u64::MAX;
            s.deposit_balance = 0;
            s.earliest_exit = s.validators.iter().map(|v| v.exit).filter(|x| *x != FAR).max().unwrap_or(e) + 1;
            s.earliest_consolidation = activation_exit_epoch(e, p);
            s.pending_deposits.clear();
            s.pending_partials.clear();
            s.pending_consolidations.clear();
            s.fork = Electra;
            s.exit_balance = s.activation_exit_churn(p);
            s.consolidation_balance = s.consolidation_churn(p);
            let mut waiting: Vec<(u64, usize)> = s.validators.iter().enumerate().filter(|(_, v)| v.activation == FAR).map(|(i, v)| (v.eligibility, i)).collect();
            waiting.sort();
            for (_, i) in waiting {
                let b = std::mem::take(&mut s.balances[i]);
                s.validators[i].eff = 0;
                s.validators[i].eligibility = FAR;
                s.pending_deposits.push((i as u64, b));
            }
            for i in 0..n {
                if s.validators[i].compounding() {
                    s.queue_excess(i as u64, p);
                }
            }
        }
        Phase0 => unreachable!(),
    }
    s.fork = f;
    Ok(())
}

use crate::{ssz::*, types::*, types::Fork::*, *};
use simcrypto::sha256;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Engine {
    Valid,
    Invalid,
}

/// state_transition with full validation; upgrades included
pub fn state_transition(s: &mut State, b: &Block, engine: Engine, p: &Params) -> R {
    process_slots(s, b.slot, p)?;
    block_in_slot(s, b, engine, p)
}
pub fn block_in_slot(s: &mut State, b: &Block, engine: Engine, p: &Params) -> R {
    need(b.fork == s.fork, "block of another fork")?;
    verify_block_signature(s, b, p)?;
    process_block(s, b, engine, p)?;
    need(b.state == s.root(p), "state root")
}
pub fn verify_block_signature(s: &State, b: &Block, p: &Params) -> R {
    let v = s.validators.get(b.proposer as usize).ok_or(No("proposer index"))?;
    need(verify(&v.pk, &signing_root(&b.root(p), &s.domain(D_PROPOSER, None, p)), &b.sig), "block signature")
}
pub fn merge_complete(s: &State) -> bool {
    !s.exec.empty
}
pub fn process_block(s: &mut State, b: &Block, engine: Engine, p: &Params) -> R {
    header(s, b, p)?;
    if s.fork >= Capella {
        withdrawals(s, &b.body.payload, p)?;
        payload(s, b, engine, p)?;
    } else if s.fork == Bellatrix && (merge_complete(s) || b.body.payload != Payload::default()) {
        payload(s, b, engine, p)?;
    }
    randao(s, &b.body, p)?;
    s.eth1_votes.push(b.body.eth1);
    if s.eth1_votes.iter().filter(|v| **v == b.body.eth1).count() as u64 * 2 > p.epochs_per_eth1_period * p.spe {
        s.eth1 = b.body.eth1;
    }
    operations(s, b, p)?;
    if s.fork >= Altair {
        sync_aggregate(s, &b.body.sync, p)?;
    }
    Ok(())
}
fn header(s: &mut State, b: &Block, p: &Params) -> R {
    need(b.slot == s.slot, "block slot")?;
    need(b.slot > s.header.slot, "older than the latest header")?;
    need(b.proposer == s.proposer(p)?, "proposer")?;
    need(b.parent == s.header.root(), "parent root")?;
    s.header = Header { state: [0; 32], ..b.header(p) };
    need(!s.validators[b.proposer as usize].slashed, "proposer slashed")
}
fn randao(s: &mut State, body: &Body, p: &Params) -> R {
    let e = s.epoch(p);
    let pk = s.validators[s.proposer(p)? as usize].pk;
    let root = signing_root(&V::U64(e).root(), &s.domain(D_RANDAO, None, p));
    need(verify(&pk, &root, &body.randao), "randao reveal")?;
    let h = sha256(&[&body.randao]);
    let k = (e % p.ephv) as usize;
    for (a, b) in s.mixes[k].iter_mut().zip(h) {
        *a ^= b;
    }
    Ok(())
}
fn withdrawals(s: &mut State, pl: &Payload, p: &Params) -> R {
    let (exp, partials) = expected_withdrawals(s, p);
    need(pl.withdrawals == exp, "withdrawals")?;
    for w in &exp {
        s.decrease(w.validator, w.amount);
    }
    if s.fork >= Electra {
        s.pending_partials.drain(..partials);
    }
    if let Some(l) = exp.last() {
        s.next_wd = l.index + 1;
    }
    let n = s.validators.len() as u64;
    s.next_wd_validator = if exp.len() as u64 == p.max_withdrawals { (exp.last().unwrap().validator + 1) % n } else { (s.next_wd_validator + p.sweep) % n };
    Ok(())
}
fn payload(s: &mut State, b: &Block, engine: Engine, p: &Params) -> R {
    let pl = &b.body.payload;
    if s.fork >= Capella || merge_complete(s) {
        need(pl.parent == s.exec.hash, "payload parent")?;
    }
    need(pl.randao == s.mix(s.epoch(p), p), "payload randao")?;
    need(pl.timestamp == timestamp_at(s, s.slot, p), "payload timestamp")?;
    if s.fork >= Deneb {
        need(b.body.commitments.len() as u64 <= p.max_blobs, "too many blobs")?;
    }
    need(engine == Engine::Valid, "engine refuses")?;
    s.exec = pl.header(p, s.fork);
    // the merge has happened once the header differs from the default one
    s.exec.empty = s.exec.v == PayloadHeader::default_for(p, s.fork).v;
    Ok(())
}
fn operations(s: &mut State, b: &Block, p: &Params) -> R {
    let body = &b.body;
    let due = if s.fork >= Electra {
        s.eth1.count.min(s.receipts_start).saturating_sub(s.deposit_index)
    } else {
        s.eth1.count.checked_sub(s.deposit_index).ok_or(No("deposit count below deposit index"))?
    };
    need(body.deposits.len() as u64 == p.max_deposits.min(due), "number of deposits")?;
    for x in &body.proposer_slashings {
        proposer_slashing(s, x, p)?;
    }
    for x in &body.attester_slashings {
        attester_slashing(s, x, p)?;
    }
    for x in &body.attestations {
        attestation(s, x, p)?;
    }
    for x in &body.deposits {
        deposit(s, x, p)?;
    }
    for x in &body.exits {
        exit(s, x, p)?;
    }
    if s.fork >= Capella {
        for x in &body.bls_changes {
            bls_change(s, x, p)?;
        }
    }
    if s.fork >= Electra {
        for x in &body.payload.withdrawal_requests {
            withdrawal_request(s, x, p)?;
        }
        for x in &body.payload.deposit_receipts {
            if s.receipts_start == u64::MAX {
                s.receipts_start = x.index;
            }
            apply_deposit(s, &x.data, p)?;
        }
        for x in &body.consolidations {
            consolidation(s, x, p)?;
        }
    }
    Ok(())
}
fn proposer_slashing(s: &mut State, x: &ProposerSlashing, p: &Params) -> R {
    let (a, b) = (&x.a.msg, &x.b.msg);
    need(a.slot == b.slot, "slashing slots")?;
    need(a.proposer == b.proposer, "slashing proposers")?;
    need(a != b, "slashing headers equal")?;
    let v = s.validators.get(a.proposer as usize).ok_or(No("slashing index"))?.clone();
    need(v.slashable(s.epoch(p)), "not slashable")?;
    for h in [&x.a, &x.b] {
        let d = s.domain(D_PROPOSER, Some(h.msg.slot / p.spe), p);
        need(verify(&v.pk, &signing_root(&h.msg.root(), &d), &h.sig), "slashing signature")?;
    }
    s.slash(a.proposer, None, p)
}
pub fn slashable_data(a: &AttData, b: &AttData) -> bool {
    (a != b && a.target.epoch == b.target.epoch) || (a.source.epoch < b.source.epoch && b.target.epoch < a.target.epoch)
}
pub fn valid_indexed(s: &State, x: &Indexed, p: &Params) -> R {
    need(!x.indices.is_empty(), "no attesting index")?;
    need(x.indices.windows(2).all(|w| w[0] < w[1]), "indices not sorted")?;
    let mut keys = vec![];
    for i in &x.indices {
        keys.push(&s.validators.get(*i as usize).ok_or(No("attesting index"))?.pk[..]);
    }
    let d = s.domain(D_ATTESTER, Some(x.data.target.epoch), p);
    need(fast_aggregate_verify(&keys, &signing_root(&x.data.v().root(), &d), &x.sig), "attestation signature")
}
fn attester_slashing(s: &mut State, x: &AttesterSlashing, p: &Params) -> R {
    need(slashable_data(&x.a.data, &x.b.data), "not slashable data")?;
    valid_indexed(s, &x.a, p)?;
    valid_indexed(s, &x.b, p)?;
    let e = s.epoch(p);
    let mut any = false;
    for i in &x.a.indices {
        if x.b.indices.contains(i) && s.validators[*i as usize].slashable(e) {
            s.slash(*i, None, p)?;
            any = true;
        }
    }
    need(any, "nobody slashed")
}
/// indices of the participation flags an attestation earns
pub fn participation_flags(s: &State, d: &AttData, delay: u64, p: &Params) -> R<Vec<u8>> {
    let just = if d.target.epoch == s.epoch(p) { s.cur_just } else { s.prev_just };
    need(d.source == just, "attestation source")?;
    let target = d.target.root == s.block_root(d.target.epoch, p)?;
    let head = target && d.head == s.block_root_at(d.slot, p)?;
    let mut f = vec![];
    if delay <= isqrt(p.spe) {
        f.push(0);
    }
    if target && (s.fork >= Deneb || delay <= p.spe) {
        f.push(1);
    }
    if head && delay == p.min_inclusion_delay {
        f.push(2);
    }
    Ok(f)
}
fn attestation(s: &mut State, a: &Attestation, p: &Params) -> R {
    let d = &a.data;
    let (e, pe) = (s.epoch(p), s.prev_epoch(p));
    need(d.target.epoch == e || d.target.epoch == pe, "attestation target epoch")?;
    need(d.target.epoch == d.slot / p.spe, "attestation slot epoch")?;
    need(d.slot.checked_add(p.min_inclusion_delay).ok_or(No("slot overflow"))? <= s.slot, "attestation too new")?;
    if s.fork < Deneb {
        need(s.slot <= d.slot + p.spe, "attestation too old")?;
    }
    let per_slot = s.committees_per_slot(d.target.epoch, p);
    let mut members = vec![];
    if s.fork >= Electra {
        need(d.index == 0, "attestation index")?;
        for (k, b) in a.committee_bits.iter().enumerate() {
            if *b {
                need((k as u64) < per_slot, "committee bit")?;
                members.extend(s.committee(d.slot, k as u64, p));
            }
        }
    } else {
        need(d.index < per_slot, "attestation index")?;
        members = s.committee(d.slot, d.index, p);
    }
    need(a.bits.len() == members.len(), "aggregation bits length")?;
    let delay = s.slot - d.slot;
    let flags = if s.fork >= Altair {
        participation_flags(s, d, delay, p)?
    } else {
        need(d.source == if d.target.epoch == e { s.cur_just } else { s.prev_just }, "attestation source")?;
        vec![]
    };
    let mut indices: Vec<u64> = members.iter().zip(&a.bits).filter(|(_, b)| **b).map(|(i, _)| *i).collect();
    indices.sort();
    indices.dedup();
    valid_indexed(s, &Indexed { indices: indices.clone(), data: *d, sig: a.sig }, p)?;
    let proposer = s.proposer(p)?;
    if s.fork == Phase0 {
        let pa = PendingAtt { bits: a.bits.clone(), data: *d, delay, proposer };
        if d.target.epoch == e {
            s.cur_atts.push(pa);
        } else {
            s.prev_atts.push(pa);
        }
        return Ok(());
    }
    let per_inc = p.inc * p.base_reward_factor / isqrt(s.total_active(p));
    let mut num = 0;
    for i in indices {
        let base = s.validators[i as usize].eff / p.inc * per_inc;
        let part = if d.target.epoch == e { &mut s.cur_part } else { &mut s.prev_part };
        for f in &flags {
            if part[i as usize] >> f & 1 == 0 {
                part[i as usize] |= 1 << f;
                num += base * [14, 26, 14][*f as usize];
            }
        }
    }
    s.increase(proposer, num / ((64 - 8) * 64 / 8));
    Ok(())
}
pub fn deposit_root_of(leaf: Root, proof: &[Root], index: u64) -> Root {
    branch_root(leaf, proof, index as usize)
}
fn deposit(s: &mut State, d: &Deposit, p: &Params) -> R {
    need(d.proof.len() == 33, "proof length")?;
    need(deposit_root_of(d.data.v().root(), &d.proof, s.deposit_index) == s.eth1.root, "deposit proof")?;
    s.deposit_index += 1;
    apply_deposit(s, &d.data, p)
}
pub fn deposit_signature_valid(d: &DepositData, p: &Params) -> bool {
    verify(&d.pk, &signing_root(&d.message().root(), &domain(D_DEPOSIT, p.versions[0], &[0; 32])), &d.sig)
}
pub fn apply_deposit(s: &mut State, d: &DepositData, p: &Params) -> R {
    let known = s.validators.iter().position(|v| v.pk == d.pk);
    let electra = s.fork >= Electra;
    match known {
        Some(i) if electra => {
            s.pending_deposits.push((i as u64, d.amount));
            if d.creds[0] == 2 && s.validators[i].eth1_creds() && deposit_signature_valid(d, p) {
                s.switch_to_compounding(i as u64, p);
            }
        }
        Some(i) => s.balances[i] = s.balances[i].checked_add(d.amount).ok_or(No("balance overflow"))?,
        None => {
            if !deposit_signature_valid(d, p) {
                return Ok(());
            }
            let eff = if electra { 0 } else { (d.amount - d.amount % p.inc).min(p.max_eb) };
            if electra {
                s.pending_deposits.push((s.validators.len() as u64, d.amount));
            }
            s.validators.push(Validator { pk: d.pk, creds: d.creds, eff, slashed: false, eligibility: FAR, activation: FAR, exit: FAR, withdrawable: FAR });
            s.balances.push(if electra { 0 } else { d.amount });
            if s.fork >= Altair {
                s.prev_part.push(0);
                s.cur_part.push(0);
                s.scores.push(0);
            }
        }
    }
    Ok(())
}
fn exit(s: &mut State, x: &Exit, p: &Params) -> R {
    let v = s.validators.get(x.index as usize).ok_or(No("exit index"))?;
    let e = s.epoch(p);
    need(v.active(e), "exit of inactive")?;
    need(v.exit == FAR, "already exiting")?;
    need(e >= x.epoch, "exit in the future")?;
    let since = if p.early_exit[s.fork as usize] { v.eligibility } else { v.activation };
    need(e >= since + p.shard_period, "not active long enough")?;
    if s.fork >= Electra {
        need(s.pending_to_withdraw(x.index) == 0, "pending withdrawals")?;
    }
    let d = if s.fork >= Deneb { domain(D_EXIT, p.version(Capella), &s.gvr) } else { s.domain(D_EXIT, Some(x.epoch), p) };
    need(verify(&v.pk, &signing_root(&x.msg().root(), &d), &x.sig), "exit signature")?;
    s.initiate_exit(x.index, p)
}
fn bls_change(s: &mut State, x: &BlsChange, p: &Params) -> R {
    let v = s.validators.get(x.index as usize).ok_or(No("change index"))?;
    need(v.creds[0] == 0, "not BLS credentials")?;
    need(v.creds[1..] == sha256(&[&x.from])[1..], "other key")?;
    let d = domain(D_BLS_CHANGE, p.versions[0], &s.gvr);
    need(verify(&x.from, &signing_root(&x.msg().root(), &d), &x.sig), "change signature")?;
    let c = &mut s.validators[x.index as usize].creds;
    *c = [0; 32];
    c[0] = 1;
    c[12..].copy_from_slice(&x.to);
    Ok(())
}
fn sync_aggregate(s: &mut State, a: &SyncAggregate, p: &Params) -> R {
    let keys: Vec<&[u8]> = s.cur_sync.pks.iter().zip(&a.bits).filter(|(_, b)| **b).map(|(k, _)| &k[..]).collect();
    let prev = s.slot.max(1) - 1;
    let d = s.domain(D_SYNC, Some(prev / p.spe), p);
    let root = signing_root(&s.block_root_at(prev, p)?, &d);
    need(eth_fast_aggregate_verify(&keys, &root, &a.sig), "sync signature")?;
    let total = s.total_active(p);
    let base = p.inc * p.base_reward_factor / isqrt(total) * (total / p.inc);
    let reward = base * 2 / 64 / p.spe / p.sync_size;
    let for_proposer = reward * 8 / (64 - 8);
    let proposer = s.proposer(p)?;
    let index: Vec<u64> = s.cur_sync.pks.iter().map(|k| s.validators.iter().position(|v| v.pk == *k).unwrap() as u64).collect();
    for (i, b) in index.into_iter().zip(&a.bits) {
        if *b {
            s.increase(i, reward);
            s.increase(proposer, for_proposer);
        } else {
            s.decrease(i, reward);
        }
    }
    Ok(())
}
fn withdrawal_request(s: &mut State, x: &WithdrawalRequest, p: &Params) -> R {
    let full = x.amount == 0;
    if s.pending_partials.len() as u64 == p.pending_partials_limit && !full {
        return Ok(());
    }
    let Some(i) = s.validators.iter().position(|v| v.pk == x.pk) else { return Ok(()) };
    let v = &s.validators[i];
    let e = s.epoch(p);
    if !(v.exec_creds() && v.address() == x.address && v.active(e) && v.exit == FAR && e >= v.activation + p.shard_period) {
        return Ok(());
    }
    let pending = s.pending_to_withdraw(i as u64);
    if full {
        if pending == 0 {
            s.initiate_exit(i as u64, p)?;
        }
        return Ok(());
    }
    let b = s.balances[i];
    if v.compounding() && v.eff >= p.min_activation_balance && b > p.min_activation_balance + pending {
        let amount = (b - p.min_activation_balance - pending).min(x.amount);
        let q = s.exit_churn(amount, p);
        s.pending_partials.push((i as u64, amount, q + p.withdrawability_delay));
    }
    Ok(())
}
fn consolidation(s: &mut State, x: &Consolidation, p: &Params) -> R {
    need((s.pending_consolidations.len() as u64) < p.pending_consolidations_limit, "consolidation queue full")?;
    need(s.consolidation_churn(p) > p.min_activation_balance, "consolidation churn")?;
    need(x.source != x.target, "consolidation onto itself")?;
    let a = s.validators.get(x.source as usize).ok_or(No("consolidation source"))?.clone();
    let b = s.validators.get(x.target as usize).ok_or(No("consolidation target"))?.clone();
    let e = s.epoch(p);
    need(a.active(e) && b.active(e), "consolidation of inactive")?;
    need(a.exit == FAR && b.exit == FAR, "consolidation of exiting")?;
    need(e >= x.epoch, "consolidation in the future")?;
    need(a.exec_creds() && b.exec_creds(), "consolidation credentials")?;
    need(a.address() == b.address(), "consolidation addresses")?;
    let d = domain(D_CONSOLIDATION, p.versions[0], &s.gvr);
    need(fast_aggregate_verify(&[&a.pk, &b.pk], &signing_root(&x.msg().root(), &d), &x.sig), "consolidation signature")?;
    let q = s.consolidation_epoch(a.eff, p);
    let v = &mut s.validators[x.source as usize];
    v.exit = q;
    v.withdrawable = q + p.withdrawability_delay;
    s.pending_consolidations.push((x.source, x.target));
    Ok(())
}

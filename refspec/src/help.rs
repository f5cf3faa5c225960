use crate::{ssz::*, types::*, types::Fork::*, *};
use blst::min_pk::{AggregatePublicKey, PublicKey, Signature};
use simcrypto::sha256;
use std::{cell::RefCell, collections::HashMap, rc::Rc};

pub const D_PROPOSER: u32 = 0;
pub const D_ATTESTER: u32 = 1;
pub const D_RANDAO: u32 = 2;
pub const D_DEPOSIT: u32 = 3;
pub const D_EXIT: u32 = 4;
pub const D_SELECTION: u32 = 5;
pub const D_AGGREGATE: u32 = 6;
pub const D_SYNC: u32 = 7;
pub const D_SYNC_SELECTION: u32 = 8;
pub const D_CONTRIBUTION: u32 = 9;
pub const D_BLS_CHANGE: u32 = 10;
pub const D_CONSOLIDATION: u32 = 11;
pub const D_BUILDER: u32 = 0x0100_0000;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";

pub fn isqrt(n: u64) -> u64 {
    let mut x = (n as f64).sqrt() as u64;
    while (x as u128) * (x as u128) > n as u128 {
        x -= 1;
    }
    while (x as u128 + 1) * (x as u128 + 1) <= n as u128 {
        x += 1;
    }
    x
}

// ---------------------------------------------------------------- signatures

pub fn verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    fast_aggregate_verify(&[pk], msg, sig)
}
pub fn fast_aggregate_verify(pks: &[&[u8]], msg: &[u8], sig: &[u8]) -> bool {
    let Ok(sig) = Signature::from_bytes(sig) else { return false };
    let mut keys = vec![];
    for k in pks {
        match PublicKey::key_validate(k) {
            Ok(k) => keys.push(k),
            Err(_) => return false,
        }
    }
    if keys.is_empty() {
        return false;
    }
    let agg = AggregatePublicKey::aggregate(&keys.iter().collect::<Vec<_>>(), false).unwrap().to_public_key();
    sig.verify(true, msg, DST, &[], &agg, false) == blst::BLST_ERROR::BLST_SUCCESS
}
pub fn infinity() -> Sig {
    let mut s = [0; 96];
    s[0] = 0xc0;
    s
}
pub fn eth_fast_aggregate_verify(pks: &[&[u8]], msg: &[u8], sig: &[u8]) -> bool {
    if pks.is_empty() && sig == infinity() {
        return true;
    }
    fast_aggregate_verify(pks, msg, sig)
}
pub fn aggregate_keys(pks: &[Pk]) -> Vec<u8> {
    let keys: Vec<PublicKey> = pks.iter().map(|k| PublicKey::key_validate(k).expect("keys of validators are valid")).collect();
    AggregatePublicKey::aggregate(&keys.iter().collect::<Vec<_>>(), false).unwrap().to_public_key().to_bytes().to_vec()
}

pub fn fork_data_root(version: [u8; 4], gvr: &Root) -> Root {
    V::C(vec![("v", V::Bytes(version.to_vec())), ("g", V::b32(gvr))]).root()
}
pub fn domain(kind: u32, version: [u8; 4], gvr: &Root) -> Root {
    let mut d = [0; 32];
    d[..4].copy_from_slice(&kind.to_le_bytes());
    if kind == D_BUILDER {
        d[..4].copy_from_slice(&[0, 0, 0, 1]);
    }
    d[4..].copy_from_slice(&fork_data_root(version, gvr)[..28]);
    d
}
pub fn signing_root(obj: &Root, domain: &Root) -> Root {
    h2(obj, domain)
}

// ---------------------------------------------------------------- shuffling

pub fn shuffled_index(mut i: u64, n: u64, seed: &Root, rounds: u64) -> u64 {
    for r in 0..if n == 0 { 0 } else { rounds } {
        let p = u64::from_le_bytes(sha256(&[seed, &[r as u8]])[..8].try_into().unwrap()) % n;
        let flip = (p + n - i) % n;
        let pos = i.max(flip);
        let src = sha256(&[seed, &[r as u8], &((pos / 256) as u32).to_le_bytes()]);
        if (src[(pos % 256) as usize / 8] >> (pos % 8)) & 1 == 1 {
            i = flip;
        }
    }
    i
}
thread_local! {
    static SHUFFLES: RefCell<HashMap<(Root, u64, u64), Rc<Vec<u64>>>> = RefCell::new(HashMap::new());
}
/// shuffled_index of every position
pub fn permutation(n: u64, seed: &Root, rounds: u64) -> Rc<Vec<u64>> {
    SHUFFLES.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 400 {
            c.clear();
        }
        c.entry((*seed, n, rounds))
            .or_insert_with(|| {
                let mut v: Vec<u64> = (0..n).collect();
                for r in 0..if n == 0 { 0 } else { rounds } {
                    let p = u64::from_le_bytes(sha256(&[seed, &[r as u8]])[..8].try_into().unwrap()) % n;
                    let src: Vec<Root> = (0..n.div_ceil(256)).map(|k| sha256(&[seed, &[r as u8], &(k as u32).to_le_bytes()])).collect();
                    for i in v.iter_mut() {
                        let flip = (p + n - *i) % n;
                        let pos = (*i).max(flip);
                        if (src[(pos / 256) as usize][(pos % 256) as usize / 8] >> (pos % 8)) & 1 == 1 {
                            *i = flip;
                        }
                    }
                }
                Rc::new(v)
            })
            .clone()
    })
}

// ---------------------------------------------------------------- accessors

impl State {
    pub fn prev_epoch(&self, p: &Params) -> u64 {
        self.epoch(p).saturating_sub(1)
    }
    pub fn active(&self, e: u64) -> Vec<u64> {
        (0..self.validators.len() as u64).filter(|i| self.validators[*i as usize].active(e)).collect()
    }
    pub fn block_root_at(&self, slot: u64, p: &Params) -> R<Root> {
        need(slot < self.slot && self.slot <= slot + p.sphr, "block root out of range")?;
        Ok(self.block_roots[(slot % p.sphr) as usize])
    }
    pub fn block_root(&self, epoch: u64, p: &Params) -> R<Root> {
        self.block_root_at(epoch.checked_mul(p.spe).ok_or(No("epoch overflow"))?, p)
    }
    pub fn mix(&self, e: u64, p: &Params) -> Root {
        self.mixes[(e % p.ephv) as usize]
    }
    pub fn seed(&self, e: u64, kind: u32, p: &Params) -> Root {
        let mix = self.mix(e + p.ephv - p.min_seed_lookahead - 1, p);
        sha256(&[&kind.to_le_bytes(), &e.to_le_bytes(), &mix])
    }
    pub fn committees_per_slot(&self, e: u64, p: &Params) -> u64 {
        (self.active(e).len() as u64 / p.spe / p.target_committee_size).min(p.max_committees_per_slot).max(1)
    }
    pub fn committee(&self, slot: u64, index: u64, p: &Params) -> Vec<u64> {
        let e = slot / p.spe;
        let act = self.active(e);
        let per_slot = self.committees_per_slot(e, p);
        let count = per_slot * p.spe;
        let k = (slot % p.spe) * per_slot + index;
        let n = act.len() as u64;
        let perm = permutation(n, &self.seed(e, D_ATTESTER, p), p.shuffle_round_count);
        (n * k / count..n * (k + 1) / count).map(|i| act[perm[i as usize] as usize]).collect()
    }
    fn weighted(&self, act: &[u64], seed: &Root, p: &Params) -> impl Iterator<Item = u64> + use<'_> {
        let n = act.len() as u64;
        let perm = permutation(n, seed, p.shuffle_round_count);
        let (act, seed, max) = (act.to_vec(), *seed, p.max_eb);
        (0u64..).filter_map(move |i| {
            let c = act[perm[(i % n) as usize] as usize];
            let byte = sha256(&[&seed, &(i / 32).to_le_bytes()])[(i % 32) as usize] as u64;
            (self.validators[c as usize].eff * 255 >= max * byte).then_some(c)
        })
    }
    pub fn proposer(&self, p: &Params) -> R<u64> {
        let e = self.epoch(p);
        let act = self.active(e);
        need(!act.is_empty(), "no active validator")?;
        let seed = sha256(&[&self.seed(e, D_PROPOSER, p), &self.slot.to_le_bytes()]);
        Ok(self.weighted(&act, &seed, p).next().unwrap())
    }
    pub fn next_sync_committee(&self, p: &Params) -> R<SyncCommittee> {
        let e = self.epoch(p) + 1;
        let act = self.active(e);
        need(!act.is_empty(), "no active validator")?;
        let seed = self.seed(e, D_SYNC, p);
        let pks: Vec<Pk> = self.weighted(&act, &seed, p).take(p.sync_size as usize).map(|i| self.validators[i as usize].pk).collect();
        let agg = aggregate_keys(&pks);
        Ok(SyncCommittee { pks, agg })
    }
    pub fn total(&self, set: impl IntoIterator<Item = u64>, p: &Params) -> u64 {
        p.inc.max(set.into_iter().map(|i| self.validators[i as usize].eff).sum())
    }
    pub fn total_active(&self, p: &Params) -> u64 {
        self.total(self.active(self.epoch(p)), p)
    }
    pub fn domain(&self, kind: u32, e: Option<u64>, p: &Params) -> Root {
        let e = e.unwrap_or(self.epoch(p));
        let v = if e < self.fork_epoch { self.prev_version } else { self.cur_version };
        domain(kind, v, &self.gvr)
    }
    pub fn increase(&mut self, i: u64, d: u64) {
        self.balances[i as usize] += d;
    }
    pub fn decrease(&mut self, i: u64, d: u64) {
        self.balances[i as usize] = self.balances[i as usize].saturating_sub(d);
    }
    pub fn churn_limit(&self, p: &Params) -> u64 {
        p.min_churn.max(self.active(self.epoch(p)).len() as u64 / p.churn_q)
    }
    pub fn initiate_exit(&mut self, i: u64, p: &Params) -> R {
        if self.validators[i as usize].exit != FAR {
            return Ok(());
        }
        let q = if self.fork >= Electra {
            self.exit_churn(self.validators[i as usize].eff, p)
        } else {
            let mut q = activation_exit_epoch(self.epoch(p), p);
            for v in &self.validators {
                if v.exit != FAR {
                    q = q.max(v.exit);
                }
            }
            if self.validators.iter().filter(|v| v.exit == q).count() as u64 >= self.churn_limit(p) {
                q += 1;
            }
            q
        };
        let v = &mut self.validators[i as usize];
        v.exit = q;
        v.withdrawable = q.checked_add(p.withdrawability_delay).ok_or(No("withdrawable epoch overflow"))?;
        Ok(())
    }
    pub fn slash(&mut self, i: u64, whistleblower: Option<u64>, p: &Params) -> R {
        let e = self.epoch(p);
        self.initiate_exit(i, p)?;
        let v = &mut self.validators[i as usize];
        v.slashed = true;
        v.withdrawable = v.withdrawable.max(e + p.epsv);
        let eff = v.eff;
        let k = (e % p.epsv) as usize;
        self.slashings[k] = self.slashings[k].checked_add(eff).ok_or(No("slashings overflow"))?;
        let q = match self.fork {
            Phase0 => p.min_slash_q,
            Altair => p.min_slash_q_altair,
            Electra => p.min_slash_q_electra,
            _ => p.min_slash_q_bellatrix,
        };
        self.decrease(i, eff / q);
        let proposer = self.proposer(p)?;
        let reporter = whistleblower.unwrap_or(proposer);
        let wb = eff / if self.fork >= Electra { p.whistleblower_q_electra } else { p.whistleblower_q };
        let pr = if self.fork == Phase0 { wb / p.proposer_reward_q } else { wb * 8 / 64 };
        self.increase(proposer, pr);
        self.increase(reporter, wb - pr);
        Ok(())
    }
    // ------------------------------------------------------------ electra
    pub fn balance_churn(&self, p: &Params) -> u64 {
        let c = p.min_churn_electra.max(self.total_active(p) / p.churn_q);
        c - c % p.inc
    }
    pub fn activation_exit_churn(&self, p: &Params) -> u64 {
        p.max_churn_electra.min(self.balance_churn(p))
    }
    pub fn consolidation_churn(&self, p: &Params) -> u64 {
        self.balance_churn(p) - self.activation_exit_churn(p)
    }
    pub fn exit_churn(&mut self, amount: u64, p: &Params) -> u64 {
        let mut e = self.earliest_exit.max(activation_exit_epoch(self.epoch(p), p));
        let per = self.activation_exit_churn(p);
        let mut left = if self.earliest_exit < e { per } else { self.exit_balance };
        if amount > left {
            let more = (amount - left - 1) / per + 1;
            e += more;
            left += more * per;
        }
        self.exit_balance = left - amount;
        self.earliest_exit = e;
        e
    }
    pub fn consolidation_epoch(&mut self, amount: u64, p: &Params) -> u64 {
        let mut e = self.earliest_consolidation.max(activation_exit_epoch(self.epoch(p), p));
        let per = self.consolidation_churn(p);
        let mut left = if self.earliest_consolidation < e { per } else { self.consolidation_balance };
        if amount > left {
            let more = (amount - left - 1) / per + 1;
            e += more;
            left += more * per;
        }
        self.consolidation_balance = left - amount;
        self.earliest_consolidation = e;
        e
    }
    pub fn max_eb_of(&self, i: u64, p: &Params) -> u64 {
        if self.validators[i as usize].compounding() {
            p.max_eb_electra
        } else {
            p.min_activation_balance
        }
    }
    pub fn pending_to_withdraw(&self, i: u64) -> u64 {
        self.pending_partials.iter().filter(|w| w.0 == i).map(|w| w.1).sum()
    }
    pub fn queue_excess(&mut self, i: u64, p: &Params) {
        let b = self.balances[i as usize];
        if b > p.min_activation_balance {
            self.balances[i as usize] = p.min_activation_balance;
            self.pending_deposits.push((i, b - p.min_activation_balance));
        }
    }
    pub fn switch_to_compounding(&mut self, i: u64, p: &Params) {
        if self.validators[i as usize].eth1_creds() {
            self.validators[i as usize].creds[0] = 2;
            self.queue_excess(i, p);
        }
    }
}
impl Validator {
    pub fn eth1_creds(&self) -> bool {
        self.creds[0] == 1
    }
    pub fn compounding(&self) -> bool {
        self.creds[0] == 2
    }
    pub fn exec_creds(&self) -> bool {
        self.eth1_creds() || self.compounding()
    }
    pub fn address(&self) -> [u8; 20] {
        self.creds[12..].try_into().unwrap()
    }
}
pub fn activation_exit_epoch(e: u64, p: &Params) -> u64 {
    e + 1 + p.max_seed_lookahead
}

pub fn expected_withdrawals(s: &State, p: &Params) -> (Vec<Withdrawal>, usize) {
    let e = s.epoch(p);
    let mut out = vec![];
    let mut index = s.next_wd;
    if s.fork >= Electra {
        for (i, amount, at) in &s.pending_partials {
            if *at > e || out.len() as u64 == p.max_partials_per_sweep {
                break;
            }
            let v = &s.validators[*i as usize];
            let b = s.balances[*i as usize];
            if v.exit == FAR && v.eff >= p.min_activation_balance && b > p.min_activation_balance {
                out.push(Withdrawal { index, validator: *i, address: v.address(), amount: (b - p.min_activation_balance).min(*amount) });
                index += 1;
            }
        }
    }
    let partials = out.len();
    let n = s.validators.len() as u64;
    let mut i = s.next_wd_validator;
    for _ in 0..n.min(p.sweep) {
        let v = &s.validators[i as usize];
        let b = s.balances[i as usize];
        let creds = if s.fork >= Electra { v.exec_creds() } else { v.eth1_creds() };
        let max = if s.fork >= Electra { s.max_eb_of(i, p) } else { p.max_eb };
        let amount = if creds && v.withdrawable <= e && b > 0 {
            Some(b)
        } else if creds && v.eff == max && b > max {
            Some(b - max)
        } else {
            None
        };
        if let Some(amount) = amount {
            out.push(Withdrawal { index, validator: i, address: v.address(), amount });
            index += 1;
        }
        if out.len() as u64 == p.max_withdrawals {
            break;
        }
        i = (i + 1) % n;
    }
    (out, partials)
}
pub fn timestamp_at(s: &State, slot: u64, p: &Params) -> u64 {
    s.genesis_time + slot * p.seconds_per_slot
}

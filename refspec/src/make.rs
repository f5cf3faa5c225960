//! Making things: keys, deposit trees, genesis states, signed messages, blocks.
use crate::{ssz::*, types::*, types::Fork::*, *};
use blst::min_pk::{AggregateSignature, SecretKey, Signature};
use simcrypto::sha256;
use std::sync::OnceLock;

const DST: &[u8] = b"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
pub const KEYS: usize = 1024;

fn keys() -> &'static Vec<(SecretKey, Pk)> {
    static K: OnceLock<Vec<(SecretKey, Pk)>> = OnceLock::new();
    K.get_or_init(|| {
        (0..KEYS as u64)
            .map(|i| {
                let sk = SecretKey::key_gen(&sha256(&[b"validator", &i.to_le_bytes()]), &[]).unwrap();
                let pk = sk.sk_to_pk().to_bytes();
                (sk, pk)
            })
            .collect()
    })
}
pub fn pk(i: usize) -> Pk {
    keys()[i].1
}
pub fn key_of(p: &[u8]) -> Option<usize> {
    static M: OnceLock<std::collections::HashMap<Pk, usize>> = OnceLock::new();
    M.get_or_init(|| keys().iter().enumerate().map(|(i, k)| (k.1, i)).collect()).get(p).copied()
}
pub fn sign(key: usize, root: &Root) -> Sig {
    keys()[key].0.sign(root, DST, &[]).to_bytes()
}
pub fn sk_bytes(key: usize) -> [u8; 32] {
    keys()[key].0.to_bytes()
}
pub fn aggregate(sigs: &[Sig]) -> Sig {
    if sigs.is_empty() {
        return infinity();
    }
    let s: Vec<Signature> = sigs.iter().map(|s| Signature::from_bytes(s).unwrap()).collect();
    AggregateSignature::aggregate(&s.iter().collect::<Vec<_>>(), false).unwrap().to_signature().to_bytes()
}
/// sum of the signatures of several keys over one root
pub fn sign_all(keys: &[usize], root: &Root) -> Sig {
    aggregate(&keys.iter().map(|k| sign(*k, root)).collect::<Vec<_>>())
}

#[derive(Clone, Default)]
pub struct DepositTree {
    pub deposits: Vec<DepositData>,
    leaves: Vec<Root>,
}
impl DepositTree {
    pub fn push(&mut self, d: DepositData) {
        self.leaves.push(d.v().root());
        self.deposits.push(d);
    }
    pub fn root(&self, n: usize) -> Root {
        let r = merkleize(self.leaves[..n].to_vec(), 1 << 32);
        h2(&r, &count_chunk(n))
    }
    pub fn proof(&self, i: usize, n: usize) -> Vec<Root> {
        let mut b = branch(self.leaves[..n].to_vec(), 1 << 32, i);
        b.push(count_chunk(n));
        b
    }
    pub fn deposit(&self, i: usize, n: usize) -> Deposit {
        Deposit { proof: self.proof(i, n), data: self.deposits[i].clone() }
    }
    pub fn len(&self) -> usize {
        self.leaves.len()
    }
    pub fn is_empty(&self) -> bool {
        self.leaves.is_empty()
    }
}
fn count_chunk(n: usize) -> Root {
    let mut c = [0; 32];
    c[..8].copy_from_slice(&(n as u64).to_le_bytes());
    c
}
pub fn bls_creds(key: usize) -> Root {
    let mut c = sha256(&[&pk(key)]);
    c[0] = 0;
    c
}
pub fn eth1_creds(tag: u8) -> Root {
    let mut c = [0; 32];
    c[0] = 1;
    c[12..].fill(tag);
    c
}
pub fn deposit_data(key: usize, creds: Root, amount: u64, p: &Params) -> DepositData {
    let mut d = DepositData { pk: pk(key), creds, amount, sig: [0; 96] };
    d.sig = sign(key, &signing_root(&d.message().root(), &domain(D_DEPOSIT, p.versions[0], &[0; 32])));
    d
}
pub fn empty_body(p: &Params) -> Body {
    Body {
        randao: [0; 96],
        eth1: Eth1::default(),
        graffiti: [0; 32],
        proposer_slashings: vec![],
        attester_slashings: vec![],
        attestations: vec![],
        deposits: vec![],
        exits: vec![],
        sync: SyncAggregate { bits: vec![false; p.sync_size as usize], sig: [0; 96] },
        payload: Payload::default(),
        bls_changes: vec![],
        commitments: vec![],
        consolidations: vec![],
    }
}
/// an all-zero state of a fork
pub fn blank_state(f: Fork, p: &Params) -> State {
    State {
        fork: f,
        genesis_time: 0,
        gvr: [0; 32],
        slot: 0,
        prev_version: p.version(f),
        cur_version: p.version(f),
        fork_epoch: 0,
        header: Header { body: empty_body(p).v(p, f).root(), ..Default::default() },
        block_roots: vec![[0; 32]; p.sphr as usize],
        state_roots: vec![[0; 32]; p.sphr as usize],
        historical_roots: vec![],
        eth1: Eth1::default(),
        eth1_votes: vec![],
        deposit_index: 0,
        validators: vec![],
        balances: vec![],
        mixes: vec![[0; 32]; p.ephv as usize],
        slashings: vec![0; p.epsv as usize],
        prev_atts: vec![],
        cur_atts: vec![],
        prev_part: vec![],
        cur_part: vec![],
        bits: [false; 4],
        prev_just: Checkpoint::default(),
        cur_just: Checkpoint::default(),
        fin: Checkpoint::default(),
        scores: vec![],
        cur_sync: SyncCommittee::default(),
        next_sync: SyncCommittee::default(),
        exec: PayloadHeader::default_for(p, f.max(Bellatrix)),
        next_wd: 0,
        next_wd_validator: 0,
        summaries: vec![],
        receipts_start: u64::MAX,
        deposit_balance: 0,
        exit_balance: 0,
        earliest_exit: 0,
        consolidation_balance: 0,
        earliest_consolidation: 0,
        pending_deposits: vec![],
        pending_partials: vec![],
        pending_consolidations: vec![],
    }
}
/// initialize_beacon_state_from_eth1
pub fn genesis(f: Fork, hash: Root, time: u64, deposits: &[Deposit], exec: Option<PayloadHeader>, p: &Params) -> R<State> {
    let mut s = blank_state(f, p);
    s.genesis_time = time.checked_add(p.genesis_delay).ok_or(No("genesis time overflow"))?;
    s.eth1 = Eth1 { root: [0; 32], count: deposits.len() as u64, hash };
    s.mixes = vec![hash; p.ephv as usize];
    if let Some(e) = exec {
        s.exec = e;
    }
    let mut tree = DepositTree::default();
    for d in deposits {
        tree.push(d.data.clone());
        s.eth1.root = tree.root(tree.len());
        need(d.proof.len() == 33 && branch_root(d.data.v().root(), &d.proof, s.deposit_index as usize) == s.eth1.root, "deposit proof")?;
        s.deposit_index += 1;
        apply_deposit(&mut s, &d.data, p)?;
    }
    for (i, amount) in std::mem::take(&mut s.pending_deposits) {
        s.increase(i, amount);
    }
    for i in 0..s.validators.len() {
        let b = s.balances[i];
        let v = &mut s.validators[i];
        v.eff = (b - b % p.inc).min(p.max_eb);
        if v.eff == p.max_eb {
            v.eligibility = 0;
            v.activation = 0;
        }
    }
    s.gvr = V::List(s.validators.iter().map(|v| v.v()).collect(), p.registry_limit).root();
    if f >= Altair {
        s.cur_sync = s.next_sync_committee(p)?;
        s.next_sync = s.cur_sync.clone();
    }
    Ok(s)
}
pub fn is_valid_genesis(s: &State, p: &Params) -> bool {
    s.genesis_time >= p.min_genesis_time && s.active(0).len() as u64 >= p.min_genesis_validators
}

// ---------------------------------------------------------------- blocks

/// the payload an honest engine would build on `s` (already advanced to the block's slot)
pub fn honest_payload(s: &State, p: &Params, tag: u64, txs: Vec<Vec<u8>>) -> Payload {
    let mut x = Payload {
        parent: s.exec.hash,
        fee: [tag as u8; 20],
        state: sha256(&[b"state", &tag.to_le_bytes()]),
        receipts: sha256(&[b"receipts", &tag.to_le_bytes()]),
        bloom: sha256(&[b"bloom", &tag.to_le_bytes()]).repeat(8),
        randao: s.mix(s.epoch(p), p),
        number: s.slot,
        gas_limit: 30_000_000,
        gas_used: tag % 30_000_000,
        timestamp: timestamp_at(s, s.slot, p),
        extra: tag.to_le_bytes()[..(tag % 9) as usize].to_vec(),
        base_fee: sha256(&[b"fee", &tag.to_le_bytes()]),
        hash: [0; 32],
        txs,
        withdrawals: if s.fork >= Capella { expected_withdrawals(s, p).0 } else { vec![] },
        blob_gas: tag.wrapping_mul(131072),
        excess_blob_gas: tag.wrapping_mul(7),
        deposit_receipts: vec![],
        withdrawal_requests: vec![],
    };
    x.hash = sha256(&[b"block", &x.v(p, s.fork).encode()]);
    x
}
/// sign a block for its state (advanced to the slot), with the proposer's key
pub fn sign_block(b: &mut Block, s: &State, key: usize, p: &Params) {
    b.sig = sign(key, &signing_root(&b.root(p), &s.domain(D_PROPOSER, Some(b.slot / p.spe), p)));
}
pub fn randao_reveal(s: &State, key: usize, p: &Params) -> Sig {
    sign(key, &signing_root(&V::U64(s.epoch(p)).root(), &s.domain(D_RANDAO, None, p)))
}
/// a block on the state `s` advanced to its slot; its state root is set by executing it
pub fn make_block(s: &State, body: Body, p: &Params) -> R<(Block, State)> {
    let proposer = s.proposer(p)?;
    let mut b = Block { fork: s.fork, slot: s.slot, proposer, parent: s.header.root(), state: [0; 32], body, sig: [0; 96] };
    let mut post = s.clone();
    process_block(&mut post, &b, Engine::Valid, p)?;
    b.state = post.root(p);
    let key = key_of(&s.validators[proposer as usize].pk).ok_or(No("unknown key"))?;
    sign_block(&mut b, s, key, p);
    Ok((b, post))
}
pub fn sign_attestation(s: &State, data: &AttData, validators: &[u64], p: &Params) -> Sig {
    let root = signing_root(&data.v().root(), &s.domain(D_ATTESTER, Some(data.target.epoch), p));
    sign_all(&validators.iter().map(|i| key_of(&s.validators[*i as usize].pk).unwrap()).collect::<Vec<_>>(), &root)
}
/// what an honest validator of `s` (advanced to `slot`, block included if any) attests to
pub fn attestation_data(s: &State, slot: u64, index: u64, head: Root, p: &Params) -> AttData {
    let e = slot / p.spe;
    let start = e * p.spe;
    let target = if s.slot == start { head } else { s.block_root_at(start, p).unwrap_or(head) };
    AttData { slot, index: if s.fork >= Electra { 0 } else { index }, head, source: s.cur_just, target: Checkpoint { epoch: e, root: target } }
}

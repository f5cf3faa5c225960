//! Containers of the consensus specification, phase0 to electra, one struct per container with the fields of
//! every fork; `v()` gives the SSZ value of the fork in question.
use crate::ssz::{Root, V, V::*};

pub type Pk = [u8; 48];
pub type Sig = [u8; 96];
pub const FAR: u64 = u64::MAX;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fork {
    Phase0,
    Altair,
    Bellatrix,
    Capella,
    Deneb,
    Electra,
}
use Fork::*;
pub const FORKS: [Fork; 6] = [Phase0, Altair, Bellatrix, Capella, Deneb, Electra];

macro_rules! params {
    ($($n:ident : $min:expr, $main:expr;)*) => {
        /// preset and configuration values
        #[derive(Clone, Debug)]
        pub struct Params { $(pub $n: u64,)* pub versions: [[u8; 4]; 6], pub epochs: [u64; 6], pub mainnet: bool, /* a recorded defect, per fork: exits count from eligibility */ pub early_exit: [bool; 6] }
        impl Params {
            pub fn minimal() -> Self {
                Params { $($n: $min,)* versions: [0u8, 1, 2, 3, 4, 5].map(|k| [k, 0, 0, 1]), epochs: [0, FAR, FAR, FAR, FAR, FAR], mainnet: false, early_exit: [false; 6] }
            }
            pub fn mainnet() -> Self {
                Params { $($n: $main,)* versions: [0u8, 1, 2, 3, 4, 5].map(|k| [k, 0, 0, 0]), epochs: [0, 74240, 144896, 194048, 269568, FAR], mainnet: true, early_exit: [false; 6] }
            }
        }
    };
}
params! {
    max_committees_per_slot: 4, 64;
    target_committee_size: 4, 128;
    max_validators_per_committee: 2048, 2048;
    shuffle_round_count: 10, 90;
    hysteresis_quotient: 4, 4;
    hysteresis_down: 1, 1;
    hysteresis_up: 5, 5;
    min_deposit: 1_000_000_000, 1_000_000_000;
    max_eb: 32_000_000_000, 32_000_000_000;
    inc: 1_000_000_000, 1_000_000_000;
    min_inclusion_delay: 1, 1;
    spe: 8, 32;
    min_seed_lookahead: 1, 1;
    max_seed_lookahead: 4, 4;
    min_epochs_to_inactivity: 4, 4;
    epochs_per_eth1_period: 4, 64;
    sphr: 64, 8192;
    ephv: 64, 65536;
    epsv: 64, 8192;
    historical_roots_limit: 1 << 24, 1 << 24;
    registry_limit: 1 << 40, 1 << 40;
    base_reward_factor: 64, 64;
    whistleblower_q: 512, 512;
    proposer_reward_q: 8, 8;
    inactivity_q: 1 << 25, 1 << 26;
    min_slash_q: 64, 128;
    slash_mult: 2, 1;
    max_proposer_slashings: 16, 16;
    max_attester_slashings: 2, 2;
    max_attestations: 128, 128;
    max_deposits: 16, 16;
    max_exits: 16, 16;
    inactivity_q_altair: 3 << 24, 3 << 24;
    min_slash_q_altair: 64, 64;
    slash_mult_altair: 2, 2;
    sync_size: 32, 512;
    sync_period: 8, 256;
    inactivity_q_bellatrix: 1 << 24, 1 << 24;
    min_slash_q_bellatrix: 32, 32;
    slash_mult_bellatrix: 3, 3;
    max_bytes_per_tx: 1 << 30, 1 << 30;
    max_txs: 1 << 20, 1 << 20;
    max_extra: 32, 32;
    max_bls_changes: 16, 16;
    max_withdrawals: 4, 16;
    sweep: 16, 16384;
    max_commitments: 16, 4096;
    max_blobs: 6, 6;
    min_activation_balance: 32_000_000_000, 32_000_000_000;
    max_eb_electra: 2_048_000_000_000, 2_048_000_000_000;
    min_slash_q_electra: 4096, 4096;
    whistleblower_q_electra: 4096, 4096;
    pending_deposits_limit: 1 << 27, 1 << 27;
    pending_partials_limit: 64, 1 << 27;
    pending_consolidations_limit: 64, 1 << 18;
    max_attester_slashings_electra: 1, 1;
    max_attestations_electra: 8, 8;
    max_consolidations: 1, 1;
    max_deposit_receipts: 4, 8192;
    max_withdrawal_requests: 2, 16;
    max_partials_per_sweep: 1, 8;
    seconds_per_slot: 6, 12;
    withdrawability_delay: 256, 256;
    shard_period: 64, 256;
    inactivity_bias: 4, 4;
    inactivity_recovery: 16, 16;
    ejection: 16_000_000_000, 16_000_000_000;
    min_churn: 2, 4;
    max_activation_churn: 4, 8;
    churn_q: 32, 65536;
    min_churn_electra: 64_000_000_000, 128_000_000_000;
    max_churn_electra: 128_000_000_000, 256_000_000_000;
    min_genesis_validators: 64, 16384;
    min_genesis_time: 1578009600, 1606824000;
    genesis_delay: 300, 604800;
    target_aggregators: 16, 16;
}
impl Params {
    pub fn fork_at(&self, epoch: u64) -> Fork {
        *FORKS.iter().rev().find(|f| self.epochs[**f as usize] <= epoch).unwrap_or(&Phase0)
    }
    pub fn version(&self, f: Fork) -> [u8; 4] {
        self.versions[f as usize]
    }
    fn committee_bits_limit(&self) -> u64 {
        self.max_validators_per_committee * self.max_committees_per_slot
    }
}

fn u(x: u64) -> V {
    U64(x)
}
fn by(b: &[u8]) -> V {
    Bytes(b.to_vec())
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Header {
    pub slot: u64,
    pub proposer: u64,
    pub parent: Root,
    pub state: Root,
    pub body: Root,
}
impl Header {
    pub fn v(&self) -> V {
        C(vec![("slot", u(self.slot)), ("proposer_index", u(self.proposer)), ("parent_root", by(&self.parent)), ("state_root", by(&self.state)), ("body_root", by(&self.body))])
    }
    pub fn root(&self) -> Root {
        self.v().root()
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Eth1 {
    pub root: Root,
    pub count: u64,
    pub hash: Root,
}
impl Eth1 {
    pub fn v(&self) -> V {
        C(vec![("deposit_root", by(&self.root)), ("deposit_count", u(self.count)), ("block_hash", by(&self.hash))])
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Eq, Hash, PartialOrd, Ord)]
pub struct Checkpoint {
    pub epoch: u64,
    pub root: Root,
}
impl Checkpoint {
    pub fn v(&self) -> V {
        C(vec![("epoch", u(self.epoch)), ("root", by(&self.root))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Validator {
    pub pk: Pk,
    pub creds: Root,
    pub eff: u64,
    pub slashed: bool,
    pub eligibility: u64,
    pub activation: u64,
    pub exit: u64,
    pub withdrawable: u64,
}
impl Validator {
    pub fn v(&self) -> V {
        C(vec![
            ("pubkey", by(&self.pk)),
            ("withdrawal_credentials", by(&self.creds)),
            ("effective_balance", u(self.eff)),
            ("slashed", Bool(self.slashed)),
            ("activation_eligibility_epoch", u(self.eligibility)),
            ("activation_epoch", u(self.activation)),
            ("exit_epoch", u(self.exit)),
            ("withdrawable_epoch", u(self.withdrawable)),
        ])
    }
    pub fn active(&self, e: u64) -> bool {
        self.activation <= e && e < self.exit
    }
    pub fn slashable(&self, e: u64) -> bool {
        !self.slashed && self.activation <= e && e < self.withdrawable
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Default, Eq, Hash, PartialOrd, Ord)]
pub struct AttData {
    pub slot: u64,
    pub index: u64,
    pub head: Root,
    pub source: Checkpoint,
    pub target: Checkpoint,
}
impl AttData {
    pub fn v(&self) -> V {
        C(vec![("slot", u(self.slot)), ("index", u(self.index)), ("beacon_block_root", by(&self.head)), ("source", self.source.v()), ("target", self.target.v())])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct PendingAtt {
    pub bits: Vec<bool>,
    pub data: AttData,
    pub delay: u64,
    pub proposer: u64,
}
impl PendingAtt {
    pub fn v(&self, p: &Params) -> V {
        C(vec![("aggregation_bits", Bitlist(self.bits.clone(), p.max_validators_per_committee)), ("data", self.data.v()), ("inclusion_delay", u(self.delay)), ("proposer_index", u(self.proposer))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Attestation {
    pub bits: Vec<bool>,
    pub data: AttData,
    /// electra
    pub committee_bits: Vec<bool>,
    pub sig: Sig,
}
impl Attestation {
    pub fn v(&self, p: &Params, f: Fork) -> V {
        if f >= Electra {
            C(vec![("aggregation_bits", Bitlist(self.bits.clone(), p.committee_bits_limit())), ("data", self.data.v()), ("committee_bits", Bitvec(self.committee_bits.clone())), ("signature", by(&self.sig))])
        } else {
            C(vec![("aggregation_bits", Bitlist(self.bits.clone(), p.max_validators_per_committee)), ("data", self.data.v()), ("signature", by(&self.sig))])
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Indexed {
    pub indices: Vec<u64>,
    pub data: AttData,
    pub sig: Sig,
}
impl Indexed {
    pub fn v(&self, p: &Params, f: Fork) -> V {
        let l = if f >= Electra { p.committee_bits_limit() } else { p.max_validators_per_committee };
        C(vec![("attesting_indices", U64s(self.indices.clone(), Some(l))), ("data", self.data.v()), ("signature", by(&self.sig))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct AttesterSlashing {
    pub a: Indexed,
    pub b: Indexed,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SignedHeader {
    pub msg: Header,
    pub sig: Sig,
}
impl SignedHeader {
    pub fn v(&self) -> V {
        C(vec![("message", self.msg.v()), ("signature", by(&self.sig))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ProposerSlashing {
    pub a: SignedHeader,
    pub b: SignedHeader,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DepositData {
    pub pk: Pk,
    pub creds: Root,
    pub amount: u64,
    pub sig: Sig,
}
impl DepositData {
    pub fn v(&self) -> V {
        C(vec![("pubkey", by(&self.pk)), ("withdrawal_credentials", by(&self.creds)), ("amount", u(self.amount)), ("signature", by(&self.sig))])
    }
    /// DepositMessage
    pub fn message(&self) -> V {
        C(vec![("pubkey", by(&self.pk)), ("withdrawal_credentials", by(&self.creds)), ("amount", u(self.amount))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Deposit {
    pub proof: Vec<Root>,
    pub data: DepositData,
}
impl Deposit {
    pub fn v(&self) -> V {
        C(vec![("proof", Roots(self.proof.clone(), None)), ("data", self.data.v())])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Exit {
    pub epoch: u64,
    pub index: u64,
    pub sig: Sig,
}
impl Exit {
    pub fn msg(&self) -> V {
        C(vec![("epoch", u(self.epoch)), ("validator_index", u(self.index))])
    }
    pub fn v(&self) -> V {
        C(vec![("message", self.msg()), ("signature", by(&self.sig))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct BlsChange {
    pub index: u64,
    pub from: Pk,
    pub to: [u8; 20],
    pub sig: Sig,
}
impl BlsChange {
    pub fn msg(&self) -> V {
        C(vec![("validator_index", u(self.index)), ("from_bls_pubkey", by(&self.from)), ("to_execution_address", by(&self.to))])
    }
    pub fn v(&self) -> V {
        C(vec![("message", self.msg()), ("signature", by(&self.sig))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Consolidation {
    pub source: u64,
    pub target: u64,
    pub epoch: u64,
    pub sig: Sig,
}
impl Consolidation {
    pub fn msg(&self) -> V {
        C(vec![("source_index", u(self.source)), ("target_index", u(self.target)), ("epoch", u(self.epoch))])
    }
    pub fn v(&self) -> V {
        C(vec![("message", self.msg()), ("signature", by(&self.sig))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct SyncAggregate {
    pub bits: Vec<bool>,
    pub sig: Sig,
}
impl SyncAggregate {
    pub fn v(&self) -> V {
        C(vec![("sync_committee_bits", Bitvec(self.bits.clone())), ("sync_committee_signature", by(&self.sig))])
    }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct SyncCommittee {
    pub pks: Vec<Pk>,
    pub agg: Vec<u8>,
}
impl SyncCommittee {
    pub fn v(&self) -> V {
        C(vec![("pubkeys", Vector(self.pks.iter().map(|k| by(k)).collect())), ("aggregate_pubkey", by(&self.agg))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Withdrawal {
    pub index: u64,
    pub validator: u64,
    pub address: [u8; 20],
    pub amount: u64,
}
impl Withdrawal {
    pub fn v(&self) -> V {
        C(vec![("index", u(self.index)), ("validator_index", u(self.validator)), ("address", by(&self.address)), ("amount", u(self.amount))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct DepositReceipt {
    pub data: DepositData,
    pub index: u64,
}
impl DepositReceipt {
    pub fn v(&self) -> V {
        let d = &self.data;
        C(vec![("pubkey", by(&d.pk)), ("withdrawal_credentials", by(&d.creds)), ("amount", u(d.amount)), ("signature", by(&d.sig)), ("index", u(self.index))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct WithdrawalRequest {
    pub address: [u8; 20],
    pub pk: Pk,
    pub amount: u64,
}
impl WithdrawalRequest {
    pub fn v(&self) -> V {
        C(vec![("source_address", by(&self.address)), ("validator_pubkey", by(&self.pk)), ("amount", u(self.amount))])
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Payload {
    pub parent: Root,
    pub fee: [u8; 20],
    pub state: Root,
    pub receipts: Root,
    pub bloom: Vec<u8>,
    pub randao: Root,
    pub number: u64,
    pub gas_limit: u64,
    pub gas_used: u64,
    pub timestamp: u64,
    pub extra: Vec<u8>,
    pub base_fee: [u8; 32],
    pub hash: Root,
    pub txs: Vec<Vec<u8>>,
    pub withdrawals: Vec<Withdrawal>,
    pub blob_gas: u64,
    pub excess_blob_gas: u64,
    pub deposit_receipts: Vec<DepositReceipt>,
    pub withdrawal_requests: Vec<WithdrawalRequest>,
}
impl Default for Payload {
    fn default() -> Self {
        Payload {
            parent: [0; 32],
            fee: [0; 20],
            state: [0; 32],
            receipts: [0; 32],
            bloom: vec![0; 256],
            randao: [0; 32],
            number: 0,
            gas_limit: 0,
            gas_used: 0,
            timestamp: 0,
            extra: vec![],
            base_fee: [0; 32],
            hash: [0; 32],
            txs: vec![],
            withdrawals: vec![],
            blob_gas: 0,
            excess_blob_gas: 0,
            deposit_receipts: vec![],
            withdrawal_requests: vec![],
        }
    }
}
impl Payload {
    fn txs_v(&self, p: &Params) -> V {
        List(self.txs.iter().map(|t| ByteList(t.clone(), p.max_bytes_per_tx)).collect(), p.max_txs)
    }
    fn lists(&self, p: &Params, f: Fork) -> Vec<(&'static str, V)> {
        let mut o = vec![("transactions", self.txs_v(p))];
        if f >= Capella {
            o.push(("withdrawals", List(self.withdrawals.iter().map(|w| w.v()).collect(), p.max_withdrawals)));
        }
        o
    }
    fn requests(&self, p: &Params) -> Vec<(&'static str, V)> {
        vec![
            ("deposit_receipts", List(self.deposit_receipts.iter().map(|x| x.v()).collect(), p.max_deposit_receipts)),
            ("withdrawal_requests", List(self.withdrawal_requests.iter().map(|x| x.v()).collect(), p.max_withdrawal_requests)),
        ]
    }
    fn head(&self, p: &Params) -> Vec<(&'static str, V)> {
        vec![
            ("parent_hash", by(&self.parent)),
            ("fee_recipient", by(&self.fee)),
            ("state_root", by(&self.state)),
            ("receipts_root", by(&self.receipts)),
            ("logs_bloom", by(&self.bloom)),
            ("prev_randao", by(&self.randao)),
            ("block_number", u(self.number)),
            ("gas_limit", u(self.gas_limit)),
            ("gas_used", u(self.gas_used)),
            ("timestamp", u(self.timestamp)),
            ("extra_data", ByteList(self.extra.clone(), p.max_extra)),
            ("base_fee_per_gas", by(&self.base_fee)),
            ("block_hash", by(&self.hash)),
        ]
    }
    pub fn v(&self, p: &Params, f: Fork) -> V {
        let mut o = self.head(p);
        o.extend(self.lists(p, f));
        if f >= Deneb {
            o.push(("blob_gas_used", u(self.blob_gas)));
            o.push(("excess_blob_gas", u(self.excess_blob_gas)));
        }
        if f >= Electra {
            o.extend(self.requests(p));
        }
        C(o)
    }
    /// the ExecutionPayloadHeader that commits to this payload
    pub fn header(&self, p: &Params, f: Fork) -> PayloadHeader {
        let mut o = self.head(p);
        let root = |n: &'static str, v: &V| -> (&'static str, V) {
            (
                match n {
                    "transactions" => "transactions_root",
                    "withdrawals" => "withdrawals_root",
                    "deposit_receipts" => "deposit_receipts_root",
                    _ => "withdrawal_requests_root",
                },
                by(&v.root()),
            )
        };
        o.extend(self.lists(p, f).iter().map(|(n, v)| root(n, v)));
        if f >= Deneb {
            o.push(("blob_gas_used", u(self.blob_gas)));
            o.push(("excess_blob_gas", u(self.excess_blob_gas)));
        }
        if f >= Electra {
            o.extend(self.requests(p).iter().map(|(n, v)| root(n, v)));
        }
        PayloadHeader { v: C(o), hash: self.hash, empty: false }
    }
}
/// the header the state records: its SSZ value and what later blocks need of it
#[derive(Clone, Debug, PartialEq)]
pub struct PayloadHeader {
    pub v: V,
    pub hash: Root,
    /// the default header: the merge has not happened
    pub empty: bool,
}
impl PayloadHeader {
    pub fn default_for(p: &Params, f: Fork) -> Self {
        let mut h = Payload::default().header(p, f);
        // the default header, not the header of the default payload
        for (n, _) in h.v.clone().fields() {
            if n.ends_with("_root") {
                h.v.set(n, by(&[0; 32]));
            }
        }
        h.empty = true;
        h
    }
    /// fields added by `f`, zero
    pub fn extend(&mut self, f: Fork) {
        if let C(x) = &mut self.v {
            match f {
                Capella => x.push(("withdrawals_root", by(&[0; 32]))),
                Deneb => x.extend([("blob_gas_used", u(0)), ("excess_blob_gas", u(0))]),
                Electra => x.extend([("deposit_receipts_root", by(&[0; 32])), ("withdrawal_requests_root", by(&[0; 32]))]),
                _ => {}
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Body {
    pub randao: Sig,
    pub eth1: Eth1,
    pub graffiti: Root,
    pub proposer_slashings: Vec<ProposerSlashing>,
    pub attester_slashings: Vec<AttesterSlashing>,
    pub attestations: Vec<Attestation>,
    pub deposits: Vec<Deposit>,
    pub exits: Vec<Exit>,
    pub sync: SyncAggregate,
    pub payload: Payload,
    pub bls_changes: Vec<BlsChange>,
    pub commitments: Vec<Pk>,
    pub consolidations: Vec<Consolidation>,
}
impl Body {
    pub fn v(&self, p: &Params, f: Fork) -> V {
        let (las, la) = if f >= Electra { (p.max_attester_slashings_electra, p.max_attestations_electra) } else { (p.max_attester_slashings, p.max_attestations) };
        let mut o = vec![
            ("randao_reveal", by(&self.randao)),
            ("eth1_data", self.eth1.v()),
            ("graffiti", by(&self.graffiti)),
            ("proposer_slashings", List(self.proposer_slashings.iter().map(|s| C(vec![("signed_header_1", s.a.v()), ("signed_header_2", s.b.v())])).collect(), p.max_proposer_slashings)),
            ("attester_slashings", List(self.attester_slashings.iter().map(|s| C(vec![("attestation_1", s.a.v(p, f)), ("attestation_2", s.b.v(p, f))])).collect(), las)),
            ("attestations", List(self.attestations.iter().map(|a| a.v(p, f)).collect(), la)),
            ("deposits", List(self.deposits.iter().map(|d| d.v()).collect(), p.max_deposits)),
            ("voluntary_exits", List(self.exits.iter().map(|d| d.v()).collect(), p.max_exits)),
        ];
        if f >= Altair {
            o.push(("sync_aggregate", self.sync.v()));
        }
        if f >= Bellatrix {
            o.push(("execution_payload", self.payload.v(p, f)));
        }
        if f >= Capella {
            o.push(("bls_to_execution_changes", List(self.bls_changes.iter().map(|d| d.v()).collect(), p.max_bls_changes)));
        }
        if f >= Deneb {
            o.push(("blob_kzg_commitments", List(self.commitments.iter().map(|d| by(d)).collect(), p.max_commitments)));
        }
        if f >= Electra {
            o.push(("consolidations", List(self.consolidations.iter().map(|d| d.v()).collect(), p.max_consolidations)));
        }
        C(o)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub fork: Fork,
    pub slot: u64,
    pub proposer: u64,
    pub parent: Root,
    pub state: Root,
    pub body: Body,
    pub sig: Sig,
}
impl Block {
    pub fn v(&self, p: &Params) -> V {
        C(vec![("slot", u(self.slot)), ("proposer_index", u(self.proposer)), ("parent_root", by(&self.parent)), ("state_root", by(&self.state)), ("body", self.body.v(p, self.fork))])
    }
    pub fn root(&self, p: &Params) -> Root {
        self.header(p).root()
    }
    pub fn header(&self, p: &Params) -> Header {
        Header { slot: self.slot, proposer: self.proposer, parent: self.parent, state: self.state, body: self.body.v(p, self.fork).root() }
    }
    pub fn encode(&self, p: &Params) -> Vec<u8> {
        C(vec![("message", self.v(p)), ("signature", by(&self.sig))]).encode()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub fork: Fork,
    pub genesis_time: u64,
    pub gvr: Root,
    pub slot: u64,
    pub prev_version: [u8; 4],
    pub cur_version: [u8; 4],
    pub fork_epoch: u64,
    pub header: Header,
    pub block_roots: Vec<Root>,
    pub state_roots: Vec<Root>,
    pub historical_roots: Vec<Root>,
    pub eth1: Eth1,
    pub eth1_votes: Vec<Eth1>,
    pub deposit_index: u64,
    pub validators: Vec<Validator>,
    pub balances: Vec<u64>,
    pub mixes: Vec<Root>,
    pub slashings: Vec<u64>,
    pub prev_atts: Vec<PendingAtt>,
    pub cur_atts: Vec<PendingAtt>,
    pub prev_part: Vec<u8>,
    pub cur_part: Vec<u8>,
    pub bits: [bool; 4],
    pub prev_just: Checkpoint,
    pub cur_just: Checkpoint,
    pub fin: Checkpoint,
    pub scores: Vec<u64>,
    pub cur_sync: SyncCommittee,
    pub next_sync: SyncCommittee,
    pub exec: PayloadHeader,
    pub next_wd: u64,
    pub next_wd_validator: u64,
    pub summaries: Vec<(Root, Root)>,
    pub receipts_start: u64,
    pub deposit_balance: u64,
    pub exit_balance: u64,
    pub earliest_exit: u64,
    pub consolidation_balance: u64,
    pub earliest_consolidation: u64,
    pub pending_deposits: Vec<(u64, u64)>,
    pub pending_partials: Vec<(u64, u64, u64)>,
    pub pending_consolidations: Vec<(u64, u64)>,
}
impl State {
    pub fn v(&self, p: &Params) -> V {
        let f = self.fork;
        let ul = |v: &Vec<u64>| U64s(v.clone(), Some(p.registry_limit));
        let mut o = vec![
            ("genesis_time", u(self.genesis_time)),
            ("genesis_validators_root", by(&self.gvr)),
            ("slot", u(self.slot)),
            ("fork", C(vec![("previous_version", by(&self.prev_version)), ("current_version", by(&self.cur_version)), ("epoch", u(self.fork_epoch))])),
            ("latest_block_header", self.header.v()),
            ("block_roots", Roots(self.block_roots.clone(), None)),
            ("state_roots", Roots(self.state_roots.clone(), None)),
            ("historical_roots", Roots(self.historical_roots.clone(), Some(p.historical_roots_limit))),
            ("eth1_data", self.eth1.v()),
            ("eth1_data_votes", List(self.eth1_votes.iter().map(|e| e.v()).collect(), p.epochs_per_eth1_period * p.spe)),
            ("eth1_deposit_index", u(self.deposit_index)),
            ("validators", List(self.validators.iter().map(|e| e.v()).collect(), p.registry_limit)),
            ("balances", ul(&self.balances)),
            ("randao_mixes", Roots(self.mixes.clone(), None)),
            ("slashings", U64s(self.slashings.clone(), None)),
        ];
        if f == Phase0 {
            let l = p.max_attestations * p.spe;
            o.push(("previous_epoch_attestations", List(self.prev_atts.iter().map(|e| e.v(p)).collect(), l)));
            o.push(("current_epoch_attestations", List(self.cur_atts.iter().map(|e| e.v(p)).collect(), l)));
        } else {
            o.push(("previous_epoch_participation", ByteList(self.prev_part.clone(), p.registry_limit)));
            o.push(("current_epoch_participation", ByteList(self.cur_part.clone(), p.registry_limit)));
        }
        o.extend([
            ("justification_bits", Bitvec(self.bits.to_vec())),
            ("previous_justified_checkpoint", self.prev_just.v()),
            ("current_justified_checkpoint", self.cur_just.v()),
            ("finalized_checkpoint", self.fin.v()),
        ]);
        if f >= Altair {
            o.extend([("inactivity_scores", ul(&self.scores)), ("current_sync_committee", self.cur_sync.v()), ("next_sync_committee", self.next_sync.v())]);
        }
        if f >= Bellatrix {
            o.push(("latest_execution_payload_header", self.exec.v.clone()));
        }
        if f >= Capella {
            o.extend([
                ("next_withdrawal_index", u(self.next_wd)),
                ("next_withdrawal_validator_index", u(self.next_wd_validator)),
                ("historical_summaries", List(self.summaries.iter().map(|(a, b)| C(vec![("block_summary_root", by(a)), ("state_summary_root", by(b))])).collect(), p.historical_roots_limit)),
            ]);
        }
        if f >= Electra {
            o.extend([
                ("deposit_receipts_start_index", u(self.receipts_start)),
                ("deposit_balance_to_consume", u(self.deposit_balance)),
                ("exit_balance_to_consume", u(self.exit_balance)),
                ("earliest_exit_epoch", u(self.earliest_exit)),
                ("consolidation_balance_to_consume", u(self.consolidation_balance)),
                ("earliest_consolidation_epoch", u(self.earliest_consolidation)),
                ("pending_balance_deposits", List(self.pending_deposits.iter().map(|(a, b)| C(vec![("index", u(*a)), ("amount", u(*b))])).collect(), p.pending_deposits_limit)),
                ("pending_partial_withdrawals", List(self.pending_partials.iter().map(|(a, b, c)| C(vec![("index", u(*a)), ("amount", u(*b)), ("withdrawable_epoch", u(*c))])).collect(), p.pending_partials_limit)),
                ("pending_consolidations", List(self.pending_consolidations.iter().map(|(a, b)| C(vec![("source_index", u(*a)), ("target_index", u(*b))])).collect(), p.pending_consolidations_limit)),
            ]);
        }
        C(o)
    }
    pub fn root(&self, p: &Params) -> Root {
        self.v(p).root()
    }
    pub fn epoch(&self, p: &Params) -> u64 {
        self.slot / p.spe
    }
}

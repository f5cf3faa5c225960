use bridge_api::{r32, s, Blind, Blk, Context, Facts, Lib, Q, St, A, E};
use ethereum_consensus::{domains::DomainType, primitives::Bytes32, ssz::prelude::*, state_transition::Validation};
use std::any::Any;

include!("queries.rs");

#[derive(Clone)]
pub struct S(pub types::BeaconState);
#[derive(Clone)]
pub struct B(pub types::SignedBeaconBlock);

macro_rules! each {
    ($e:expr, $T:ident, $x:ident => $b:expr) => {
        match $e {
            types::$T::Phase0($x) => $b,
            types::$T::Altair($x) => $b,
            types::$T::Bellatrix($x) => $b,
            types::$T::Capella($x) => $b,
            types::$T::Deneb($x) => $b,
        }
    };
}
macro_rules! pair {
    ($st:expr, $bl:expr, $s:ident, $b:ident, $f:ident => $e:expr) => {
        match ($st, $bl) {
            (types::BeaconState::Phase0($s), types::SignedBeaconBlock::Phase0($b)) => { use phase0::$f; $e }
            (types::BeaconState::Altair($s), types::SignedBeaconBlock::Altair($b)) => { use altair::$f; $e }
            (types::BeaconState::Bellatrix($s), types::SignedBeaconBlock::Bellatrix($b)) => { use bellatrix::$f; $e }
            (types::BeaconState::Capella($s), types::SignedBeaconBlock::Capella($b)) => { use capella::$f; $e }
            (types::BeaconState::Deneb($s), types::SignedBeaconBlock::Deneb($b)) => { use deneb::$f; $e }
            _ => Err("block of another fork".to_string()),
        }
    };
}
macro_rules! modular {
    ($st:expr, $s:ident, $m:ident => $e:expr) => {
        match $st {
            types::BeaconState::Phase0($s) => { use phase0 as $m; $e }
            types::BeaconState::Altair($s) => { use altair as $m; $e }
            types::BeaconState::Bellatrix($s) => { use bellatrix as $m; $e }
            types::BeaconState::Capella($s) => { use capella as $m; $e }
            types::BeaconState::Deneb($s) => { use deneb as $m; $e }
        }
    };
}
fn blk(b: &dyn Blk) -> E<&types::SignedBeaconBlock> {
    b.any().downcast_ref::<B>().map(|b| &b.0).ok_or("block of another preset".into())
}
fn val(v: bool) -> Validation {
    if v { Validation::Enabled } else { Validation::Disabled }
}
fn put<T: SimpleSerialize>(x: &T) -> E<Vec<u8>> {
    s(serialize(x))
}
macro_rules! version {
    ($v:expr) => {
        Some(put(&($v as u8 as u64))?)
    };
}
macro_rules! each3 {
    ($e:expr, $T:ident, $x:ident => $b:expr) => {
        match $e {
            types::$T::Bellatrix($x) => $b,
            types::$T::Capella($x) => $b,
            types::$T::Deneb($x) => $b,
        }
    };
}
include!("facts.rs");
impl St for S {
    fn facts(&mut self, view: u64) -> E<Facts> {
        state_view(&mut self.0, view)
    }
    fn fork(&self) -> u8 {
        match self.0 {
            types::BeaconState::Phase0(_) => 0,
            types::BeaconState::Altair(_) => 1,
            types::BeaconState::Bellatrix(_) => 2,
            types::BeaconState::Capella(_) => 3,
            types::BeaconState::Deneb(_) => 4,
        }
    }
    fn slot(&self) -> u64 {
        self.0.slot()
    }
    fn encode(&self) -> E<Vec<u8>> {
        s(each!(&self.0, BeaconState, x => serialize(x)))
    }
    fn json(&self) -> E<String> {
        s(serde_json::to_string(&self.0))
    }
    fn dup(&self) -> Box<dyn St> {
        Box::new(self.clone())
    }
    fn process_slots(&mut self, slot: u64, c: &Context) -> E<()> {
        modular!(&mut self.0, x, m => s(m::process_slots(x, slot, c)))
    }
    fn upgrade(&self, c: &Context) -> E<Box<dyn St>> {
        Ok(Box::new(S(match &self.0 {
            types::BeaconState::Phase0(x) => types::BeaconState::Altair(s(altair::upgrade_to_altair(x, c))?),
            types::BeaconState::Altair(x) => types::BeaconState::Bellatrix(bellatrix::upgrade_to_bellatrix(x, c)),
            types::BeaconState::Bellatrix(x) => types::BeaconState::Capella(capella::upgrade_to_capella(x, c)),
            types::BeaconState::Capella(x) => types::BeaconState::Deneb(deneb::upgrade_to_deneb(x, c)),
            types::BeaconState::Deneb(_) => return Err("next fork lives in another crate".into()),
        })))
    }
    fn apply(&mut self, b: &dyn Blk, v: bool, c: &Context) -> E<()> {
        pair!(&mut self.0, blk(b)?, x, y, state_transition => s(state_transition(x, y, val(v), c)))
    }
    fn apply_in_slot(&mut self, b: &dyn Blk, v: bool, c: &Context) -> E<()> {
        pair!(&mut self.0, blk(b)?, x, y, state_transition_block_in_slot => s(state_transition_block_in_slot(x, y, val(v), c)))
    }
    fn execute(&mut self, b: &dyn Blk, c: &Context) -> Option<E<()>> {
        let b = match blk(b) {
            Ok(b) => b,
            Err(e) => return Some(Err(e)),
        };
        let mut x = st::Executor::new(self.0.clone(), c.clone());
        let r = s(x.apply_block(b));
        self.0 = x.state;
        Some(r)
    }
    fn query(&mut self, q: &Q, c: &Context) -> E<A> {
        if let Q::Root = q {
            return Ok(A::Bytes(r32(s(self.0.hash_tree_root())?).to_vec()));
        }
        if matches!(q, Q::NextSync | Q::NextSyncCommittee | Q::Withdrawals) {
            return sync_query(self, q, c);
        }
        modular!(&mut self.0, x, m => common_query!(x, m, c, q))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
fn sync_query(st: &mut S, q: &Q, c: &Context) -> E<A> {
    macro_rules! go {
        ($x:ident, $m:ident) => {
            match q {
                Q::NextSync => Ok(A::List(s($m::get_next_sync_committee_indices($x, c))?.iter().map(|i| *i as u64).collect())),
                Q::NextSyncCommittee => Ok(A::Bytes(s(serialize(&s($m::get_next_sync_committee($x, c))?))?)),
                _ => Err("no such query".into()),
            }
        };
    }
    match (&mut st.0, q) {
        (types::BeaconState::Capella(x), Q::Withdrawals) => list(capella::get_expected_withdrawals(x, c)),
        (types::BeaconState::Deneb(x), Q::Withdrawals) => list(deneb::get_expected_withdrawals(x, c)),
        (types::BeaconState::Phase0(_), _) => Err("no such query".into()),
        (types::BeaconState::Altair(x), _) => go!(x, altair),
        (types::BeaconState::Bellatrix(x), _) => go!(x, bellatrix),
        (types::BeaconState::Capella(x), _) => go!(x, capella),
        (types::BeaconState::Deneb(x), _) => go!(x, deneb),
    }
}
fn list<T: SimpleSerialize>(v: Vec<T>) -> E<A> {
    let mut out = vec![];
    for x in v {
        out.extend(s(serialize(&x))?);
    }
    Ok(A::Bytes(out))
}
/// fields of a payload header in the order of its encoding (variable data inlined)
fn header_order(o: Facts) -> Vec<u8> {
    let order = ["parent_hash", "fee_recipient", "payload state_root", "receipts_root", "logs_bloom", "prev_randao", "block_number", "gas_limit", "gas_used", "timestamp", "extra_data", "base_fee_per_gas", "block_hash", "transactions_root", "withdrawals_root", "blob_gas_used", "excess_blob_gas"];
    let mut out = vec![];
    for n in order {
        if let Some((_, Some(b))) = o.iter().find(|(m, _)| *m == n) {
            out.extend(b);
        }
    }
    out
}
macro_rules! blinded {
    ($m:ident, $x:ident, $V:ident $(, $f:ident)*) => {{
        let m = &$x.message;
        let b = &m.body;
        let header = s($m::ExecutionPayloadHeader::try_from(&b.execution_payload))?;
        types::SignedBlindedBeaconBlock::$V($m::SignedBlindedBeaconBlock {
            message: $m::BlindedBeaconBlock {
                slot: m.slot,
                proposer_index: m.proposer_index,
                parent_root: m.parent_root,
                state_root: m.state_root,
                body: $m::BlindedBeaconBlockBody {
                    randao_reveal: b.randao_reveal.clone(),
                    eth1_data: b.eth1_data.clone(),
                    graffiti: b.graffiti.clone(),
                    proposer_slashings: b.proposer_slashings.clone(),
                    attester_slashings: b.attester_slashings.clone(),
                    attestations: b.attestations.clone(),
                    deposits: b.deposits.clone(),
                    voluntary_exits: b.voluntary_exits.clone(),
                    sync_aggregate: b.sync_aggregate.clone(),
                    execution_payload_header: header,
                    $($f: b.$f.clone(),)*
                },
            },
            signature: $x.signature.clone(),
        })
    }};
}
macro_rules! unblinded {
    ($m:ident, $x:expr, $p:expr, $V:ident $(, $f:ident)*) => {{
        let x = s(deserialize::<$m::SignedBlindedBeaconBlock>($x))?;
        let p = s(deserialize::<$m::ExecutionPayload>($p))?;
        let header = s($m::ExecutionPayloadHeader::try_from(&p))?;
        let m = x.message;
        let b = m.body;
        if header != b.execution_payload_header {
            return Err("another payload".into());
        }
        types::SignedBeaconBlock::$V($m::SignedBeaconBlock {
            message: $m::BeaconBlock {
                slot: m.slot,
                proposer_index: m.proposer_index,
                parent_root: m.parent_root,
                state_root: m.state_root,
                body: $m::BeaconBlockBody {
                    randao_reveal: b.randao_reveal,
                    eth1_data: b.eth1_data,
                    graffiti: b.graffiti,
                    proposer_slashings: b.proposer_slashings,
                    attester_slashings: b.attester_slashings,
                    attestations: b.attestations,
                    deposits: b.deposits,
                    voluntary_exits: b.voluntary_exits,
                    sync_aggregate: b.sync_aggregate,
                    execution_payload: p,
                    $($f: b.$f,)*
                },
            },
            signature: x.signature,
        })
    }};
}
impl Blk for B {
    fn facts(&self, view: u64) -> E<Facts> {
        block_view(&self.0, view)
    }
    fn blind(&self, view: u64) -> E<Blind> {
        let x = match &self.0 {
            types::SignedBeaconBlock::Bellatrix(x) => blinded!(bellatrix, x, Bellatrix),
            types::SignedBeaconBlock::Capella(x) => blinded!(capella, x, Capella, bls_to_execution_changes),
            types::SignedBeaconBlock::Deneb(x) => blinded!(deneb, x, Deneb, bls_to_execution_changes, blob_kzg_commitments),
            _ => return Err("no blinded form".into()),
        };
        let (ssz, root) = match &x {
            types::SignedBlindedBeaconBlock::Bellatrix(x) => (s(serialize(x))?, s(x.message.hash_tree_root())?),
            types::SignedBlindedBeaconBlock::Capella(x) => (s(serialize(x))?, s(x.message.hash_tree_root())?),
            types::SignedBlindedBeaconBlock::Deneb(x) => (s(serialize(x))?, s(x.message.hash_tree_root())?),
        };
        let o = blinded_view(&x, view)?;
        Ok(Blind { ssz, root: r32(root), json: s(serde_json::to_string(&x))?, facts: o })
    }
    fn fork(&self) -> u8 {
        match self.0 {
            types::SignedBeaconBlock::Phase0(_) => 0,
            types::SignedBeaconBlock::Altair(_) => 1,
            types::SignedBeaconBlock::Bellatrix(_) => 2,
            types::SignedBeaconBlock::Capella(_) => 3,
            types::SignedBeaconBlock::Deneb(_) => 4,
        }
    }
    fn encode(&self) -> E<Vec<u8>> {
        s(each!(&self.0, SignedBeaconBlock, x => serialize(x)))
    }
    fn json(&self) -> E<String> {
        s(serde_json::to_string(&self.0))
    }
    fn message_root(&self) -> E<[u8; 32]> {
        Ok(r32(s(each!(&self.0, SignedBeaconBlock, x => x.message.hash_tree_root()))?))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
pub struct L;
pub static LIB: &dyn Lib = &L;
macro_rules! by_fork {
    ($fork:expr, $W:ident, $T:ident, $ty:ident => $e:expr) => {
        match $fork {
            0 => { type $ty = phase0::$T; $e.map(|x| $W(types::$T::Phase0(x))) }
            1 => { type $ty = altair::$T; $e.map(|x| $W(types::$T::Altair(x))) }
            2 => { type $ty = bellatrix::$T; $e.map(|x| $W(types::$T::Bellatrix(x))) }
            3 => { type $ty = capella::$T; $e.map(|x| $W(types::$T::Capella(x))) }
            4 => { type $ty = deneb::$T; $e.map(|x| $W(types::$T::Deneb(x))) }
            _ => Err("no such fork".into()),
        }
    };
}
impl Lib for L {
    fn context(&self) -> Context {
        preset_context()
    }
    fn state(&self, fork: u8, b: &[u8]) -> E<Box<dyn St>> {
        by_fork!(fork, S, BeaconState, T => s(deserialize::<T>(b))).map(|x| Box::new(x) as _)
    }
    fn state_json(&self, fork: u8, j: &str) -> E<Box<dyn St>> {
        by_fork!(fork, S, BeaconState, T => s(serde_json::from_str::<T>(j))).map(|x| Box::new(x) as _)
    }
    fn state_json_any(&self, j: &str) -> E<Box<dyn St>> {
        s(serde_json::from_str::<types::BeaconState>(j)).map(|x| Box::new(S(x)) as _)
    }
    fn block(&self, fork: u8, b: &[u8]) -> E<Box<dyn Blk>> {
        by_fork!(fork, B, SignedBeaconBlock, T => s(deserialize::<T>(b))).map(|x| Box::new(x) as _)
    }
    fn block_json(&self, fork: u8, j: &str) -> E<Box<dyn Blk>> {
        by_fork!(fork, B, SignedBeaconBlock, T => s(serde_json::from_str::<T>(j))).map(|x| Box::new(x) as _)
    }
    fn block_json_any(&self, j: &str) -> E<Box<dyn Blk>> {
        s(serde_json::from_str::<types::SignedBeaconBlock>(j)).map(|x| Box::new(B(x)) as _)
    }
    fn genesis(&self, fork: u8, hash: [u8; 32], time: u64, deposits: &[Vec<u8>], header: Option<&[u8]>, c: &Context) -> E<(Box<dyn St>, bool)> {
        let hash = s(Bytes32::try_from(&hash[..]))?;
        let d = s(deposits.iter().map(|d| deserialize::<phase0::Deposit>(d)).collect::<Result<Vec<_>, _>>())?;
        macro_rules! exec {
            ($m:ident, $V:ident, $($g:expr),*) => {{
                let h = match header {
                    Some(h) => Some(s(deserialize::<$m::ExecutionPayloadHeader>(h))?),
                    None => None,
                };
                let x = s($m::initialize_beacon_state_from_eth1::<$($g),*>(hash, time, &d, h.as_ref(), c))?;
                let v = $m::is_valid_genesis_state(&x, c);
                (types::BeaconState::$V(x), v)
            }};
        }
        let (x, v) = match fork {
            0 => {
                let x = s(phase0::initialize_beacon_state_from_eth1::<{ phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { phase0::PENDING_ATTESTATIONS_BOUND }, { phase0::MAX_PROPOSER_SLASHINGS }, { phase0::MAX_ATTESTER_SLASHINGS }, { phase0::MAX_ATTESTATIONS }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }>(hash, time, &d, c))?;
                let v = phase0::is_valid_genesis_state(&x, c);
                (types::BeaconState::Phase0(x), v)
            }
            1 => {
                let x = s(altair::initialize_beacon_state_from_eth1::<{ phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { phase0::MAX_PROPOSER_SLASHINGS }, { phase0::MAX_ATTESTER_SLASHINGS }, { phase0::MAX_ATTESTATIONS }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }>(hash, time, &d, c))?;
                let v = altair::is_valid_genesis_state(&x, c);
                (types::BeaconState::Altair(x), v)
            }
            2 => exec!(bellatrix, Bellatrix, { phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { phase0::MAX_PROPOSER_SLASHINGS }, { phase0::MAX_ATTESTER_SLASHINGS }, { phase0::MAX_ATTESTATIONS }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }),
            3 => exec!(capella, Capella, { phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { phase0::MAX_PROPOSER_SLASHINGS }, { phase0::MAX_ATTESTER_SLASHINGS }, { phase0::MAX_ATTESTATIONS }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }, { capella::MAX_WITHDRAWALS_PER_PAYLOAD }, { capella::MAX_BLS_TO_EXECUTION_CHANGES }),
            4 => exec!(deneb, Deneb, { phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { phase0::MAX_PROPOSER_SLASHINGS }, { phase0::MAX_ATTESTER_SLASHINGS }, { phase0::MAX_ATTESTATIONS }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }, { capella::MAX_WITHDRAWALS_PER_PAYLOAD }, { capella::MAX_BLS_TO_EXECUTION_CHANGES }, { deneb::MAX_BLOB_COMMITMENTS_PER_BLOCK }),
            _ => return Err("no such fork".into()),
        };
        Ok((Box::new(S(x)), v))
    }
    fn genesis_block_root(&self, st: &dyn St) -> E<[u8; 32]> {
        let st = st.any().downcast_ref::<S>().ok_or("state of another preset")?;
        Ok(r32(match &st.0 {
            types::BeaconState::Phase0(x) => s(s(phase0_genesis(x))?.hash_tree_root())?,
            types::BeaconState::Altair(x) => s(s(altair_genesis(x))?.hash_tree_root())?,
            types::BeaconState::Bellatrix(x) => s(s(bellatrix_genesis(x))?.hash_tree_root())?,
            types::BeaconState::Capella(x) => s(s(capella_genesis(x))?.hash_tree_root())?,
            types::BeaconState::Deneb(x) => s(s(deneb_genesis(x))?.hash_tree_root())?,
        }))
    }
    fn unblind(&self, fork: u8, x: &[u8], p: &[u8]) -> E<Box<dyn Blk>> {
        Ok(Box::new(B(match fork {
            2 => unblinded!(bellatrix, x, p, Bellatrix),
            3 => unblinded!(capella, x, p, Capella, bls_to_execution_changes),
            4 => unblinded!(deneb, x, p, Deneb, bls_to_execution_changes, blob_kzg_commitments),
            _ => return Err("no blinded form".into()),
        })))
    }
    fn blinded_json_any(&self, j: &str) -> E<(u8, Vec<u8>)> {
        Ok(match s(serde_json::from_str::<types::SignedBlindedBeaconBlock>(j))? {
            types::SignedBlindedBeaconBlock::Bellatrix(x) => (2, s(serialize(&x))?),
            types::SignedBlindedBeaconBlock::Capella(x) => (3, s(serialize(&x))?),
            types::SignedBlindedBeaconBlock::Deneb(x) => (4, s(serialize(&x))?),
        })
    }
    fn sidecar_inclusion(&self, fork: u8, b: &[u8]) -> E<()> {
        if fork != 4 {
            return Err("no such fork".into());
        }
        let x = s(deserialize::<deneb::BlobSidecar>(b))?;
        s(ethereum_consensus::deneb::blob_sidecar::verify_blob_sidecar_inclusion_proof::<
            { deneb::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH },
            { deneb::BYTES_PER_BLOB },
            deneb::BeaconBlockBody,
        >(&x))
    }
}
fn altair_genesis(x: &altair::BeaconState) -> Result<altair::BeaconBlock, ethereum_consensus::Error> {
    altair::get_genesis_block(x)
}
fn bellatrix_genesis(x: &bellatrix::BeaconState) -> Result<bellatrix::BeaconBlock, ethereum_consensus::Error> {
    bellatrix::get_genesis_block(x)
}
fn capella_genesis(x: &capella::BeaconState) -> Result<capella::BeaconBlock, ethereum_consensus::Error> {
    capella::get_genesis_block(x)
}
fn deneb_genesis(x: &deneb::BeaconState) -> Result<deneb::BeaconBlock, ethereum_consensus::Error> {
    deneb::get_genesis_block(x)
}
fn phase0_genesis(x: &phase0::BeaconState) -> Result<phase0::BeaconBlock, ethereum_consensus::Error> {
    phase0::get_genesis_block(x)
}

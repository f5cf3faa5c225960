use bridge_api::{r32, s, Blk, Context, Lib, Q, St, A, E};
use ethereum_consensus::{domains::DomainType, primitives::Bytes32, ssz::prelude::*, state_transition::Validation};
use std::any::Any;

include!("queries.rs");

const MAX_COMMITTEES_PER_SLOT: usize = phase0::MAX_COMMITTEES_PER_SLOT as usize;
const MAX_VALIDATORS_PER_SLOT: usize = phase0::MAX_VALIDATORS_PER_COMMITTEE * MAX_COMMITTEES_PER_SLOT;
pub type State = electra::BeaconState<{ phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { electra::PENDING_BALANCE_DEPOSITS_LIMIT }, { electra::PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { electra::PENDING_CONSOLIDATIONS_LIMIT }>;
pub type Body = electra::BeaconBlockBody<{ phase0::MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { electra::MAX_ATTESTER_SLASHINGS_ELECTRA }, { electra::MAX_ATTESTATIONS_ELECTRA }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { altair::SYNC_COMMITTEE_SIZE }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }, { capella::MAX_WITHDRAWALS_PER_PAYLOAD }, { electra::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { electra::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { capella::MAX_BLS_TO_EXECUTION_CHANGES }, { deneb::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { electra::MAX_CONSOLIDATIONS }>;
pub type Message = electra::BeaconBlock<{ phase0::MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { electra::MAX_ATTESTER_SLASHINGS_ELECTRA }, { electra::MAX_ATTESTATIONS_ELECTRA }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { altair::SYNC_COMMITTEE_SIZE }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }, { capella::MAX_WITHDRAWALS_PER_PAYLOAD }, { electra::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { electra::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { capella::MAX_BLS_TO_EXECUTION_CHANGES }, { deneb::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { electra::MAX_CONSOLIDATIONS }>;
pub type Block = electra::SignedBeaconBlock<{ phase0::MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { electra::MAX_ATTESTER_SLASHINGS_ELECTRA }, { electra::MAX_ATTESTATIONS_ELECTRA }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { altair::SYNC_COMMITTEE_SIZE }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }, { capella::MAX_WITHDRAWALS_PER_PAYLOAD }, { electra::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { electra::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { capella::MAX_BLS_TO_EXECUTION_CHANGES }, { deneb::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { electra::MAX_CONSOLIDATIONS }>;
pub type Header = deneb::ExecutionPayloadHeader;

#[derive(Clone)]
pub struct S(pub State);
#[derive(Clone)]
pub struct B(pub Block);

fn blk(b: &dyn Blk) -> E<&Block> {
    b.any().downcast_ref::<B>().map(|b| &b.0).ok_or("block of another fork".into())
}
fn val(v: bool) -> Validation {
    if v { Validation::Enabled } else { Validation::Disabled }
}
impl St for S {
    fn fork(&self) -> u8 {
        5
    }
    fn slot(&self) -> u64 {
        self.0.slot
    }
    fn encode(&self) -> E<Vec<u8>> {
        s(serialize(&self.0))
    }
    fn json(&self) -> E<String> {
        s(serde_json::to_string(&self.0))
    }
    fn dup(&self) -> Box<dyn St> {
        Box::new(self.clone())
    }
    fn process_slots(&mut self, slot: u64, c: &Context) -> E<()> {
        s(electra::process_slots(&mut self.0, slot, c))
    }
    fn upgrade(&self, _: &Context) -> E<Box<dyn St>> {
        Err("no next fork".into())
    }
    fn apply(&mut self, b: &dyn Blk, v: bool, c: &Context) -> E<()> {
        s(electra::state_transition(&mut self.0, blk(b)?, val(v), c))
    }
    fn apply_in_slot(&mut self, b: &dyn Blk, v: bool, c: &Context) -> E<()> {
        s(electra::state_transition_block_in_slot(&mut self.0, blk(b)?, val(v), c))
    }
    fn execute(&mut self, _: &dyn Blk, _: &Context) -> Option<E<()>> {
        None
    }
    fn query(&mut self, q: &Q, c: &Context) -> E<A> {
        let x = &mut self.0;
        match q {
            Q::Root => Ok(A::Bytes(r32(s(x.hash_tree_root())?).to_vec())),
            Q::NextSync => Ok(A::List(s(electra::get_next_sync_committee_indices(x, c))?.iter().map(|i| *i as u64).collect())),
            Q::NextSyncCommittee => Ok(A::Bytes(s(serialize(&s(electra::get_next_sync_committee(x, c))?))?)),
            Q::Withdrawals => {
                let mut out = vec![];
                for w in electra::get_expected_withdrawals(x, c).0 {
                    out.extend(s(serialize(&w))?);
                }
                Ok(A::Bytes(out))
            }
            _ => common_query!(x, electra, c, q),
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
impl Blk for B {
    fn fork(&self) -> u8 {
        5
    }
    fn encode(&self) -> E<Vec<u8>> {
        s(serialize(&self.0))
    }
    fn json(&self) -> E<String> {
        s(serde_json::to_string(&self.0))
    }
    fn message_root(&self) -> E<[u8; 32]> {
        Ok(r32(s(self.0.message.hash_tree_root())?))
    }
    fn any(&self) -> &dyn Any {
        self
    }
}
pub struct L;
pub static LIB: &dyn Lib = &L;
/// the state after the upgrade of a deneb state given in SSZ
pub fn upgrade(deneb: &[u8], c: &Context) -> E<Box<dyn St>> {
    let d = s(deserialize::<deneb::BeaconState>(deneb))?;
    s(ethereum_consensus::electra::fork::upgrade_to_electra(&d, c)).map(|x| Box::new(S(x)) as _)
}
impl Lib for L {
    fn context(&self) -> Context {
        preset_context()
    }
    fn state(&self, fork: u8, b: &[u8]) -> E<Box<dyn St>> {
        assert_eq!(fork, 5);
        s(deserialize::<State>(b)).map(|x| Box::new(S(x)) as _)
    }
    fn state_json(&self, _: u8, j: &str) -> E<Box<dyn St>> {
        s(serde_json::from_str::<State>(j)).map(|x| Box::new(S(x)) as _)
    }
    fn state_json_any(&self, _: &str) -> E<Box<dyn St>> {
        Err("the fork-spanning types end with deneb".into())
    }
    fn block(&self, _: u8, b: &[u8]) -> E<Box<dyn Blk>> {
        s(deserialize::<Block>(b)).map(|x| Box::new(B(x)) as _)
    }
    fn block_json(&self, _: u8, j: &str) -> E<Box<dyn Blk>> {
        s(serde_json::from_str::<Block>(j)).map(|x| Box::new(B(x)) as _)
    }
    fn block_json_any(&self, _: &str) -> E<Box<dyn Blk>> {
        Err("the fork-spanning types end with deneb".into())
    }
    fn genesis(&self, _: u8, hash: [u8; 32], time: u64, deposits: &[Vec<u8>], header: Option<&[u8]>, c: &Context) -> E<(Box<dyn St>, bool)> {
        let hash = s(Bytes32::try_from(&hash[..]))?;
        let d = s(deposits.iter().map(|d| deserialize::<phase0::Deposit>(d)).collect::<Result<Vec<_>, _>>())?;
        let h = match header {
            Some(h) => Some(s(deserialize(h))?),
            None => None,
        };
        let x = s(ethereum_consensus::electra::genesis::initialize_beacon_state_from_eth1::<{ phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { electra::PENDING_BALANCE_DEPOSITS_LIMIT }, { electra::PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { electra::PENDING_CONSOLIDATIONS_LIMIT }, { phase0::MAX_PROPOSER_SLASHINGS }, { MAX_VALIDATORS_PER_SLOT }, { MAX_COMMITTEES_PER_SLOT }, { electra::MAX_ATTESTER_SLASHINGS_ELECTRA }, { electra::MAX_ATTESTATIONS_ELECTRA }, { phase0::MAX_DEPOSITS }, { phase0::MAX_VOLUNTARY_EXITS }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { bellatrix::MAX_BYTES_PER_TRANSACTION }, { bellatrix::MAX_TRANSACTIONS_PER_PAYLOAD }, { capella::MAX_WITHDRAWALS_PER_PAYLOAD }, { electra::MAX_DEPOSIT_RECEIPTS_PER_PAYLOAD }, { electra::MAX_WITHDRAWAL_REQUESTS_PER_PAYLOAD }, { capella::MAX_BLS_TO_EXECUTION_CHANGES }, { deneb::MAX_BLOB_COMMITMENTS_PER_BLOCK }, { electra::MAX_CONSOLIDATIONS }>(hash, time, &d, h.as_ref(), c))?;
        let v = electra::is_valid_genesis_state(&x, c);
        Ok((Box::new(S(x)), v))
    }
    fn genesis_block_root(&self, st: &dyn St) -> E<[u8; 32]> {
        let st = st.any().downcast_ref::<S>().ok_or("state of another preset")?;
        let b: Message = s(electra::get_genesis_block(&st.0))?;
        Ok(r32(s(b.hash_tree_root())?))
    }
    fn sidecar_inclusion(&self, _: u8, b: &[u8]) -> E<()> {
        let x = s(deserialize::<deneb::BlobSidecar>(b))?;
        s(ethereum_consensus::deneb::blob_sidecar::verify_blob_sidecar_inclusion_proof::<{ deneb::KZG_COMMITMENT_INCLUSION_PROOF_DEPTH }, { deneb::BYTES_PER_BLOB }, Body>(&x))
    }
}

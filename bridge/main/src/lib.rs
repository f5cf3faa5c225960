use ethereum_consensus::{
    altair::mainnet as altair, bellatrix::mainnet as bellatrix, capella::mainnet as capella, deneb::mainnet as deneb, phase0::mainnet as phase0,
    state_transition::mainnet as st, types::mainnet as types,
};
use ethereum_consensus::types as spanning;
include!("../../common/pre.rs");
fn preset_context() -> Context {
    Context::for_mainnet()
}

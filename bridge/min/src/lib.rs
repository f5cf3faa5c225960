use ethereum_consensus::{
    altair::minimal as altair, bellatrix::minimal as bellatrix, capella::minimal as capella, deneb::minimal as deneb, phase0::minimal as phase0,
    state_transition::minimal as st, types::minimal as types,
};
use ethereum_consensus::types as spanning;
include!("../../common/pre.rs");
fn preset_context() -> Context {
    Context::for_minimal()
}

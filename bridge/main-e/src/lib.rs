use ethereum_consensus::{altair::mainnet as altair, bellatrix::mainnet as bellatrix, capella::mainnet as capella, deneb::mainnet as deneb, electra::mainnet as electra, phase0::mainnet as phase0};
include!("../../common/electra.rs");
fn preset_context() -> bridge_api::Context {
    Context::for_mainnet()
}

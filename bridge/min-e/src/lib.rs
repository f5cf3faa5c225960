use ethereum_consensus::{altair::minimal as altair, bellatrix::minimal as bellatrix, capella::minimal as capella, deneb::minimal as deneb, electra::minimal as electra, phase0::minimal as phase0};
include!("../../common/electra.rs");
fn preset_context() -> bridge_api::Context {
    Context::for_minimal()
}

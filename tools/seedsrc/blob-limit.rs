//! a payload carries at most as many blobs as a block may
mod kit;
use ethereum_consensus::{deneb::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    for n in [0usize, 6, 7, 16] {
        let mut state = spec::BeaconState::default();
        let mut body = spec::BeaconBlockBody::default();
        for _ in 0..n {
            body.blob_kzg_commitments.push(Default::default());
        }
        let x = ethereum_consensus::deneb::process_execution_payload(&mut state, &body, &context).is_ok();
        kit::check(x == (n <= 6), &format!("{n} blobs: accepted {x}"));
    }
}

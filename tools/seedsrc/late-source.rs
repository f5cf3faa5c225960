//! a source vote is timely up to and including the square root of the epoch length
mod kit;
use ethereum_consensus::{deneb::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let mut state = spec::BeaconState::default();
    populate!(state, 16);
    state.slot = 87;
    let mut data = ethereum_consensus::phase0::AttestationData::default();
    data.slot = 81;
    data.target.epoch = 10;
    for (delay, due) in [(1u64, vec![0usize, 1, 2]), (2, vec![0, 1]), (3, vec![1]), (6, vec![1])] {
        let f = ethereum_consensus::deneb::helpers::get_attestation_participation_flag_indices(&state, &data, delay, &context).unwrap();
        kit::check(f == due, &format!("delay {delay}: {f:?} instead of {due:?}"));
    }
}

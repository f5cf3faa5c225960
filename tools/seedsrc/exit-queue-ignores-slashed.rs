//! an exit is queued at the tail of the queue, whoever is in front of it
mod kit;
use ethereum_consensus::{phase0::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let mut state = spec::BeaconState::default();
    populate!(state, 64);
    state.slot = 8 * 100;
    // two (the churn limit) slashed validators leave at the tail, epoch 120
    for i in [3, 4] {
        state.validators[i].slashed = true;
        state.validators[i].exit_epoch = 120;
        state.validators[i].withdrawable_epoch = 164;
    }
    for (i, e) in [(10, 121), (11, 121), (12, 122)] {
        spec::initiate_validator_exit(&mut state, i, &context).unwrap();
        kit::check(state.validators[i].exit_epoch == e, &format!("exit {} instead of {e}", state.validators[i].exit_epoch));
    }
}

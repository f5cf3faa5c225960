//! genesis waits for enough active validators
mod kit;
use ethereum_consensus::{phase0::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let need = context.min_genesis_active_validator_count;
    for (active, idle) in [(need, 0), (need - 1, 0), (need - 1, 1), (need - 1, 40), (0, need), (need, 3)] {
        let mut state = spec::BeaconState::default();
        populate!(state, active + idle);
        for v in state.validators.iter_mut().take(idle) {
            v.activation_epoch = kit::FAR;
        }
        state.genesis_time = context.min_genesis_time;
        kit::check(spec::is_valid_genesis_state(&state, &context) == (active >= need), &format!("{active} active, {idle} not"));
    }
}

//! no validator is paid twice in one payload
mod kit;
use ethereum_consensus::{capella::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    for n in [3, 5, 16, 40] {
        let mut state = spec::BeaconState::default();
        populate!(state, n);
        state.slot = 800;
        state.validators[2].exit_epoch = 10;
        state.validators[2].withdrawable_epoch = 20;
        let w = spec::get_expected_withdrawals(&state, &context);
        kit::check(w.len() == 1 && w[0].validator_index == 2 && w[0].amount == 32 * kit::GWEI, &format!("{n} validators: {w:?}"));
    }
}

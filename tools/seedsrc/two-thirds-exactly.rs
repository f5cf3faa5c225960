//! two thirds of the active balance justify a checkpoint, less do not
mod kit;
use ethereum_consensus::{phase0::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    for (total, prev, cur, epoch) in [(96u64, 0u64, 64u64, 10), (96, 64, 0, 9), (96, 63, 63, 0), (96, 65, 65, 10)] {
        let mut state = spec::BeaconState::default();
        state.slot = 8 * 11 - 1;
        spec::weigh_justification_and_finalization(&mut state, total * kit::GWEI, prev * kit::GWEI, cur * kit::GWEI, &context).unwrap();
        kit::check(state.current_justified_checkpoint.epoch == epoch, &format!("{prev} and {cur} of {total}: justified {}", state.current_justified_checkpoint.epoch));
    }
}

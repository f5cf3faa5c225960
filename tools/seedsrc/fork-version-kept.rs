//! an upgrade records the version the state had as the previous one
mod kit;
use ethereum_consensus::{bellatrix::minimal as bellatrix, capella::minimal as capella, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let mut state = bellatrix::BeaconState::default();
    state.fork.previous_version = [1, 0, 0, 1];
    state.fork.current_version = [2, 0, 0, 1];
    state.slot = 80;
    let x = capella::upgrade_to_capella(&state, &context);
    kit::check(x.fork.previous_version == [2, 0, 0, 1], &format!("{:?}", x.fork));
    kit::check(x.fork.current_version == context.capella_fork_version && x.fork.epoch == 10, &format!("{:?}", x.fork));
}

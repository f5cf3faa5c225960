//! the next sync committee takes over exactly at the end of its predecessor's period
mod kit;
use ethereum_consensus::{altair::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    for (epoch, rotates) in [(14u64, false), (15, true), (16, false), (22, false), (23, true), (24, false)] {
        let mut state = spec::BeaconState::default();
        populate!(state, 8);
        state.slot = epoch * 8 + 7;
        state.next_sync_committee.aggregate_public_key = kit::pk(5);
        spec::process_sync_committee_updates(&mut state, &context).unwrap();
        let x = state.current_sync_committee.aggregate_public_key == kit::pk(5);
        kit::check(x == rotates, &format!("end of epoch {epoch}: rotated {x}"));
    }
}

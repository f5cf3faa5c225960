//! a vote is checked in the fork of its target epoch
mod kit;
use ethereum_consensus::{phase0::minimal as spec, domains::DomainType, signing::sign_with_domain, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let mut state = spec::BeaconState::default();
    populate!(state, 4);
    state.fork.previous_version = [1, 0, 0, 1];
    state.fork.current_version = [2, 0, 0, 1];
    state.fork.epoch = 100;
    state.slot = 800 + 1;
    for (epoch, version, good) in [(99u64, [1, 0, 0, 1], true), (99, [2, 0, 0, 1], false), (100, [2, 0, 0, 1], true), (100, [1, 0, 0, 1], false)] {
        let mut a = spec::IndexedAttestation::default();
        a.attesting_indices.push(1);
        a.data.target.epoch = epoch;
        let d = ethereum_consensus::phase0::compute_domain(DomainType::BeaconAttester, Some(version), Some(state.genesis_validators_root), &context).unwrap();
        a.signature = sign_with_domain(&a.data, &kit::key(1), d).unwrap();
        let x = spec::is_valid_indexed_attestation(&state, &a, &context).is_ok();
        kit::check(x == good, &format!("vote of epoch {epoch} signed for {version:?}: accepted {x}"));
    }
}

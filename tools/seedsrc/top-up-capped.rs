//! a top-up is credited in full
mod kit;
use ethereum_consensus::{phase0::minimal as spec, primitives::{BlsSignature, Bytes32}, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    for amount in [kit::GWEI, 32 * kit::GWEI, 33 * kit::GWEI, 2048 * kit::GWEI] {
        let mut state = spec::BeaconState::default();
        populate!(state, 4);
        spec::apply_deposit(&mut state, &kit::pk(2), &Bytes32::default(), amount, &BlsSignature::default(), &context).unwrap();
        kit::check(state.balances[2] == 32 * kit::GWEI + amount, &format!("{amount} credited as {}", state.balances[2] - 32 * kit::GWEI));
    }
}

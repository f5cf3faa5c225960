//! the effective balance follows the balance only when it leaves the hysteresis band
mod kit;
use ethereum_consensus::{phase0::minimal as spec, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let inc = context.effective_balance_increment;
    let (down, up) = (inc / 4, inc / 4 * 5);
    for effective in [31 * inc, 32 * inc, 20 * inc] {
        for (balance, moves) in [(effective - down, false), (effective - down - 1, true), (effective, false), (effective + up, false), (effective + up + 1, effective < 32 * inc)] {
            let mut state = spec::BeaconState::default();
            populate!(state, 1);
            state.validators[0].effective_balance = effective;
            state.balances[0] = balance;
            spec::process_effective_balance_updates(&mut state, &context);
            let now = state.validators[0].effective_balance;
            kit::check((now != effective) == moves, &format!("balance {balance}: effective {effective} -> {now}"));
        }
    }
}

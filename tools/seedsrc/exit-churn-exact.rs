//! exits take the earliest epoch the balance churn allows
mod kit;
use ethereum_consensus::{altair::minimal as altair, bellatrix::minimal as bellatrix, electra::minimal as electra, phase0::minimal as phase0, state_transition::Context};
type State = electra::BeaconState<{ phase0::SLOTS_PER_HISTORICAL_ROOT }, { phase0::HISTORICAL_ROOTS_LIMIT }, { phase0::ETH1_DATA_VOTES_BOUND }, { phase0::VALIDATOR_REGISTRY_LIMIT }, { phase0::EPOCHS_PER_HISTORICAL_VECTOR }, { phase0::EPOCHS_PER_SLASHINGS_VECTOR }, { phase0::MAX_VALIDATORS_PER_COMMITTEE }, { altair::SYNC_COMMITTEE_SIZE }, { bellatrix::BYTES_PER_LOGS_BLOOM }, { bellatrix::MAX_EXTRA_DATA_BYTES }, { electra::PENDING_BALANCE_DEPOSITS_LIMIT }, { electra::PENDING_PARTIAL_WITHDRAWALS_LIMIT }, { electra::PENDING_CONSOLIDATIONS_LIMIT }>;
fn main() {
    let context = Context::for_minimal();
    let mut state = State::default();
    populate!(state, 64);
    state.slot = 8 * 100;
    let churn = ethereum_consensus::electra::get_activation_exit_churn_limit(&state, &context).unwrap();
    let first = 100 + 1 + context.max_seed_lookahead;
    let mut spent = 0;
    for amount in [churn / 2, churn / 2, churn, 2 * churn, churn / 4, 3 * churn, churn - churn / 4, churn] {
        spent += amount;
        let e = ethereum_consensus::electra::compute_exit_epoch_and_update_churn(&mut state, amount, &context).unwrap();
        let due = first + (spent - 1) / churn;
        kit::check(e == due, &format!("{spent} gwei leave by epoch {e} instead of {due}"));
    }
}

//! votes for a committee that does not exist are refused
mod kit;
use ethereum_consensus::{deneb::minimal as spec, state_transition::Context};
use ssz_rs::prelude::*;
fn main() {
    let context = Context::for_minimal();
    let mut state = spec::BeaconState::default();
    populate!(state, 64);
    state.slot = 17;
    for _ in 0..64 {
        state.previous_epoch_participation.push(0);
        state.current_epoch_participation.push(0);
        state.inactivity_scores.push(0);
    }
    let epoch = 2;
    let n = spec::get_committee_count_per_slot(&state, epoch, &context);
    for index in 0..n + 3 {
        let slot = 16;
        let data = spec::AttestationData {
            slot,
            index,
            source: state.current_justified_checkpoint.clone(),
            target: spec::Checkpoint { epoch, root: spec::get_block_root(&state, epoch, &context).unwrap().clone() },
            ..Default::default()
        };
        let members = spec::get_beacon_committee(&state, slot, index, &context).unwrap();
        let domain = ethereum_consensus::signing::compute_signing_root(&data, spec::get_domain(&state, ethereum_consensus::domains::DomainType::BeaconAttester, Some(epoch), &context).unwrap()).unwrap();
        let mut bits = Bitlist::with_length(members.len());
        let mut sigs = vec![];
        for (k, m) in members.iter().enumerate() {
            bits.set(k, true);
            sigs.push(kit::key(*m as u64).sign(domain.as_ref()));
        }
        let signature = ethereum_consensus::crypto::aggregate(&sigs).unwrap();
        let vote = spec::Attestation { aggregation_bits: bits, data, signature };
        let ok = spec::process_attestation(&mut state.clone(), &vote, &context).is_ok();
        kit::check(ok == (index < n), &format!("committee {index} of {n}: accepted {ok}"));
    }
}

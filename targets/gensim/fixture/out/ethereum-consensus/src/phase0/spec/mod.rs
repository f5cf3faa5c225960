//! WARNING: This file was derived by the `spec-gen` utility. DO NOT EDIT MANUALLY.
pub use crate::primitives::*;
pub use crate::signing::*;
pub use crate::state_transition::{Result, Context, Validation};
pub use crate::error::*;
pub use crate::phase0::constants::BASE_REWARDS_PER_EPOCH;
pub use crate::phase0::constants::DEPOSIT_CONTRACT_TREE_DEPTH;
pub use crate::phase0::constants::JUSTIFICATION_BITS_LENGTH;
pub use crate::phase0::constants::DEPOSIT_DATA_LIST_BOUND;
pub use crate::phase0::beacon_block::BeaconBlockBody;
pub use crate::phase0::beacon_block::BeaconBlock;
pub use crate::phase0::beacon_block::SignedBeaconBlock;
pub use crate::phase0::beacon_block::BeaconBlockHeader;
pub use crate::phase0::beacon_block::SignedBeaconBlockHeader;
pub use crate::phase0::beacon_state::Fork;
pub use crate::phase0::beacon_state::ForkData;
pub use crate::phase0::beacon_state::HistoricalBatch;
pub use crate::phase0::beacon_state::HistoricalSummary;
pub use crate::phase0::beacon_state::BeaconState;
pub use crate::phase0::operations::Checkpoint;
pub use crate::phase0::operations::AttestationData;
pub use crate::phase0::operations::IndexedAttestation;
pub use crate::phase0::operations::PendingAttestation;
pub use crate::phase0::operations::Attestation;
pub use crate::phase0::operations::Eth1Data;
pub use crate::phase0::operations::DepositMessage;
pub use crate::phase0::operations::DepositData;
pub use crate::phase0::operations::ProposerSlashing;
pub use crate::phase0::operations::AttesterSlashing;
pub use crate::phase0::operations::Deposit;
pub use crate::phase0::operations::VoluntaryExit;
pub use crate::phase0::operations::SignedVoluntaryExit;
pub use crate::phase0::validator::Validator;
pub use crate::phase0::validator::Eth1Block;
pub use crate::phase0::validator::AggregateAndProof;
pub use crate::phase0::validator::SignedAggregateAndProof;
pub use crate::phase0::block_processing::process_proposer_slashing;
pub use crate::phase0::block_processing::process_attester_slashing;
pub use crate::phase0::block_processing::process_attestation;
pub use crate::phase0::block_processing::get_validator_from_deposit;
pub use crate::phase0::block_processing::add_validator_to_registry;
pub use crate::phase0::block_processing::apply_deposit;
pub use crate::phase0::block_processing::process_deposit;
pub use crate::phase0::block_processing::process_voluntary_exit;
pub use crate::phase0::block_processing::process_block_header;
pub use crate::phase0::block_processing::xor;
pub use crate::phase0::block_processing::process_randao;
pub use crate::phase0::block_processing::process_eth1_data;
pub use crate::phase0::block_processing::process_operations;
pub use crate::phase0::block_processing::process_block;
pub use crate::phase0::epoch_processing::get_matching_source_attestations;
pub use crate::phase0::epoch_processing::get_matching_target_attestations;
pub use crate::phase0::epoch_processing::get_matching_head_attestations;
pub use crate::phase0::epoch_processing::get_unslashed_attesting_indices;
pub use crate::phase0::epoch_processing::process_justification_and_finalization;
pub use crate::phase0::epoch_processing::process_rewards_and_penalties;
pub use crate::phase0::epoch_processing::process_registry_updates;
pub use crate::phase0::epoch_processing::process_slashings;
pub use crate::phase0::epoch_processing::process_eth1_data_reset;
pub use crate::phase0::epoch_processing::process_effective_balance_updates;
pub use crate::phase0::epoch_processing::process_slashings_reset;
pub use crate::phase0::epoch_processing::process_randao_mixes_reset;
pub use crate::phase0::epoch_processing::process_historical_roots_update;
pub use crate::phase0::epoch_processing::process_participation_record_updates;
pub use crate::phase0::epoch_processing::get_attesting_balance;
pub use crate::phase0::epoch_processing::weigh_justification_and_finalization;
pub use crate::phase0::epoch_processing::get_base_reward;
pub use crate::phase0::epoch_processing::get_proposer_reward;
pub use crate::phase0::epoch_processing::get_finality_delay;
pub use crate::phase0::epoch_processing::is_in_inactivity_leak;
pub use crate::phase0::epoch_processing::get_attestation_component_deltas;
pub use crate::phase0::epoch_processing::get_source_deltas;
pub use crate::phase0::epoch_processing::get_target_deltas;
pub use crate::phase0::epoch_processing::get_head_deltas;
pub use crate::phase0::epoch_processing::get_inclusion_delay_deltas;
pub use crate::phase0::epoch_processing::get_inactivity_penalty_deltas;
pub use crate::phase0::epoch_processing::get_attestation_deltas;
pub use crate::phase0::epoch_processing::process_epoch;
pub use crate::phase0::genesis::initialize_beacon_state_from_eth1;
pub use crate::phase0::genesis::is_valid_genesis_state;
pub use crate::phase0::genesis::get_genesis_block;
pub use crate::phase0::helpers::is_active_validator;
pub use crate::phase0::helpers::is_eligible_for_activation_queue;
pub use crate::phase0::helpers::is_eligible_for_activation;
pub use crate::phase0::helpers::is_slashable_validator;
pub use crate::phase0::helpers::is_slashable_attestation_data;
pub use crate::phase0::helpers::is_valid_indexed_attestation;
pub use crate::phase0::helpers::verify_block_signature;
pub use crate::phase0::helpers::get_domain;
pub use crate::phase0::helpers::get_current_epoch;
pub use crate::phase0::helpers::compute_shuffled_index;
pub use crate::phase0::helpers::compute_shuffled_indices;
pub use crate::phase0::helpers::sample_proposer_index;
pub use crate::phase0::helpers::compute_proposer_index;
pub use crate::phase0::helpers::compute_committee;
pub use crate::phase0::helpers::compute_epoch_at_slot;
pub use crate::phase0::helpers::compute_start_slot_at_epoch;
pub use crate::phase0::helpers::compute_activation_exit_epoch;
pub use crate::phase0::helpers::compute_fork_digest;
pub use crate::phase0::helpers::compute_domain;
pub use crate::phase0::helpers::compute_fork_data_root;
pub use crate::phase0::helpers::get_previous_epoch;
pub use crate::phase0::helpers::get_block_root;
pub use crate::phase0::helpers::get_block_root_at_slot;
pub use crate::phase0::helpers::get_randao_mix;
pub use crate::phase0::helpers::get_active_validator_indices;
pub use crate::phase0::helpers::get_validator_churn_limit;
pub use crate::phase0::helpers::get_seed;
pub use crate::phase0::helpers::get_committee_count_per_slot;
pub use crate::phase0::helpers::get_beacon_committee;
pub use crate::phase0::helpers::get_beacon_proposer_index;
pub use crate::phase0::helpers::get_total_balance;
pub use crate::phase0::helpers::get_total_active_balance;
pub use crate::phase0::helpers::get_indexed_attestation;
pub use crate::phase0::helpers::get_attesting_indices;
pub use crate::phase0::helpers::increase_balance;
pub use crate::phase0::helpers::decrease_balance;
pub use crate::phase0::helpers::initiate_validator_exit;
pub use crate::phase0::helpers::slash_validator;
pub use crate::phase0::helpers::get_eligible_validator_indices;
pub use crate::phase0::slot_processing::process_slots;
pub use crate::phase0::slot_processing::process_slot;
pub use crate::phase0::state_transition::state_transition_block_in_slot;
pub use crate::phase0::state_transition::state_transition;

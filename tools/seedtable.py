P = EC + 'phase0/'
seed('clock-read-twice', 'T01', 'chain', [(EC + 'clock.rs', 'duration_until_next_slot', 'let current_slot = self.slot_at_time(current_time).expect("is after genesis");', 'let current_slot = self.current_slot().expect("is after genesis");')],
     'time passing across a slot boundary (or the clock being stepped) between two reads of the clock inside one call',
     'the duration until the next slot is computed from two different instants: it can exceed a slot, or be taken until a slot that is already past')
seed('stream-skips-first', 'T02', 'chain', [(EC + 'clock.rs', 'into_stream', 'let delay = Box::pin(sleep(self.duration_until_next_slot()));\n        let current_slot = self.current_slot();', 'let current_slot = self.current_slot();\n        let delay = Box::pin(sleep(self.duration_until_next_slot()));')],
     'a slot boundary passing between the two clock reads made when the stream is created',
     'the first slot is read before the timer is armed, so when a slot begins in between, that slot is never yielded although it is current and polled on time')
seed('exit-queue-ignores-slashed', 'C05', 'chain', [(P + 'helpers.rs', 'initiate_validator_exit', '.filter(|v| v.exit_epoch != FAR_FUTURE_EPOCH)', '.filter(|v| v.exit_epoch != FAR_FUTURE_EPOCH && !v.slashed)')],
     'a slashing whose exit is queued further ahead than every other exit, followed by another exit',
     'the tail of the exit queue is looked for among unslashed validators only, so exits overtake the queue and exceed the churn')
seed('surround-same-source', 'C06', 'chain', [(P + 'helpers.rs', 'is_slashable_attestation_data', 'data_1.source.epoch < data_2.source.epoch', 'data_1.source.epoch <= data_2.source.epoch')],
     'two honest votes of one validator with the same source and growing targets offered as evidence, newer first',
     'votes that share a source count as a surround vote: an innocent validator is slashed')
seed('committee-end', 'C07', 'chain', [(P + 'helpers.rs', 'compute_committee', '} else {\n        let start = indices.len() * index / count;\n        let end = indices.len() * (index + 1) / count;', '} else {\n        let start = indices.len() * index / count;\n        let end = start + indices.len() / count;')],
     'an active set whose size is not a multiple of the number of committees',
     'the remainder of the active set sits in no committee')
seed('top-up-capped', 'C08', 'chain', [(P + 'block_processing.rs', 'apply_deposit', 'increase_balance(state, index, amount);', 'increase_balance(state, index, amount.min(context.max_effective_balance));')],
     'a top-up of more than the maximum effective balance to a known key',
     'the top-up is credited only up to 32 ether')
seed('sweep-twice', 'C09', 'chain', [(EC + 'capella/block_processing.rs', 'get_expected_withdrawals', 'let bound = state.validators.len().min(context.max_validators_per_withdrawals_sweep);', 'let bound = context.max_validators_per_withdrawals_sweep;'.replace('let bound', 'let bound'))],
     'fewer validators than one withdrawals sweep covers, one of them withdrawable',
     'the sweep wraps around and pays the same validator again in one payload')
seed('oldest-root-lost', 'C13', 'chain', [(P + 'helpers.rs', 'get_block_root_at_slot', 'state.slot > (slot + SLOTS_PER_HISTORICAL_ROOT as Slot)', 'state.slot >= (slot + SLOTS_PER_HISTORICAL_ROOT as Slot)')],
     'asking for the oldest root still in range, a whole history length back',
     'the oldest recorded block root is refused although it is in range')
seed('exit-churn-exact', 'C17', 'chain', [(EC + 'electra/helpers.rs', 'compute_exit_epoch_and_update_churn', '(balance_to_process - 1) / per_epoch_churn + 1', 'balance_to_process / per_epoch_churn + 1')],
     'an exit whose excess over what is left of the churn is an exact multiple of the churn limit',
     'the exit is queued one epoch late and the churn left over grows by a whole limit')
seed('old-fork-vote', 'C15', 'chain', [(P + 'helpers.rs', 'is_valid_indexed_attestation', 'Some(indexed_attestation.data.target.epoch)', 'None')],
     'an attestation of the epoch before a fork, included after it',
     'its signature is checked in the domain of the fork of the including block: the true one is refused and one made for the wrong fork is accepted')
seed('two-thirds-exactly', 'C03', 'chain', [(P + 'epoch_processing.rs', 'weigh_justification_and_finalization', 'if current_epoch_target_balance * 3 >= total_active_balance * 2', 'if current_epoch_target_balance * 3 > total_active_balance * 2')],
     'target votes of exactly two thirds of the active balance in the current epoch',
     'the checkpoint is not justified although two thirds voted for it')
seed('late-source', 'C04', 'chain', [(EC + 'deneb/helpers.rs', 'get_attestation_participation_flag_indices', 'inclusion_delay <= context.slots_per_epoch.integer_sqrt()', 'inclusion_delay < context.slots_per_epoch.integer_sqrt()')],
     'an attestation included exactly at the last timely delay for its source vote',
     'the source vote is not counted: an attester that voted correctly and in time is penalised')
seed('blob-limit', 'C12', 'chain', [(EC + 'deneb/block_processing.rs', 'process_execution_payload', '> context.max_blobs_per_block', '> context.max_blob_commitments_per_block')],
     'a payload with more blobs than a block may carry, but fewer commitments than the list can hold',
     'a block with too many blobs is accepted')
seed('sync-rotation-late', 'C11', 'chain', [(EC + 'altair/epoch_processing.rs', 'process_sync_committee_updates', 'let next_epoch = get_current_epoch(state, context) + 1;', 'let next_epoch = get_current_epoch(state, context);')],
     'the end of a sync committee period',
     'the committee rotates an epoch late')
seed('fork-version-kept', 'C10', 'chain', [(EC + 'capella/fork.rs', 'upgrade_to_capella', 'previous_version: state.fork.current_version', 'previous_version: state.fork.previous_version')],
     'crossing the capella fork after an earlier fork',
     'the upgraded state records the fork before last as the previous version: messages of the last epoch before the fork no longer verify')
seed('genesis-counts-all', 'C19', 'chain', [(P + 'genesis.rs', 'is_valid_genesis_state', 'get_active_validator_indices(state, GENESIS_EPOCH).len() >=', 'state.validators.len() >=')],
     'a deposit log in which some of the depositors are not fully funded',
     'genesis triggers although fewer validators are active than required')
seed('batch-ignores-surplus', 'C16', 'chain', [(EC + 'crypto/kzg.rs', 'verify_blob_kzg_proof_batch', 'for proof in proofs {', 'for proof in &proofs[..proofs.len().min(blobs.len())] {')],
     'a batch with more proofs than blobs',
     'surplus proofs of a batch are not looked at: a batch with proofs for blobs that are not there verifies')
seed('accessor-forgets-fork', 'C18', 'chain', [(EC + 'types/blinded_beacon_block_body.rs', 'bls_to_execution_changes', 'Self::Capella(inner) => Some(&inner.bls_to_execution_changes)', 'Self::Capella(_) => None')],
     'reading the credential changes of a blinded block of capella through the type that spans forks',
     'the changes that the block carries are reported as absent')
seed('state-read-as-older', 'C14', 'chain', [(EC + 'types/beacon_state.rs', 'deserialize', 'return Ok(Self::Capella(inner));', 'return Ok(Self::Bellatrix(inner));'), (EC + 'types/beacon_state.rs', 'deserialize', 'return Ok(Self::Bellatrix(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Bellatrix(inner));', 'return Ok(Self::Bellatrix(inner));\n        }\n        if let Ok(inner) = <_ as serde::Deserialize>::deserialize(&value) {\n            return Ok(Self::Capella(inner));')],
     'a node at the capella fork restarted from a state stored as JSON',
     'the state is read as one of bellatrix: withdrawal cursor and history are lost')
seed('index-one-too-far', 'C02', 'chain', [(EC + 'deneb/block_processing.rs', 'process_attestation', 'data.index >= committee_count', 'data.index > committee_count')],
     'a vote that names the committee after the last one of its slot, signed by the first committee of the next slot',
     'an attestation for a committee that does not exist is accepted')
seed('effective-balance-edge', 'C01', 'chain', [(P + 'epoch_processing.rs', 'process_effective_balance_updates', 'balance + downward_threshold < validator.effective_balance', 'balance + downward_threshold <= validator.effective_balance')],
     'a balance exactly at the lower edge of the hysteresis band at an epoch boundary',
     'the effective balance drops although the balance has not left the band: states differ from every other client')
seed('updates-clamped', 'A01', 'api', [('beacon-api-client/src/api_client.rs', 'get_light_client_updates', '("count", count)', '("count", count.min(128))')],
     'asking for more than 128 periods of light client updates',
     'the request asks for fewer periods than the caller did')
seed('liveness-assumed', 'A02', 'api', [('beacon-api-client/src/types.rs', None, '    index: ValidatorIndex,\n    is_live: bool,', '    index: ValidatorIndex,\n    #[serde(default)]\n    is_live: bool,')],
     'an answer to a liveness request that lacks the verdict for a validator',
     'the client reports the validator as not live although the server never said so')
seed('hex-borrowed', 'S01', 'chain', [(EC + 'serde.rs', 'deserialize', 'let str = String::deserialize(deserializer)?;\n\n        let data = try_bytes_from_hex_str(&str)', 'let str = <&str>::deserialize(deserializer)?;\n\n        let data = try_bytes_from_hex_str(str)')],
     'JSON read from a stream, or a hex string written with an escape',
     'the same document decodes from one buffer and is refused from a reader')
seed('module-order', 'G01', 'gen', [('spec-gen/src/generator.rs', None, 'modules: BTreeMap<String, Module>,', 'modules: HashMap<String, Module>,')],
     'a hash seed that orders the modules differently',
     'two runs on the same sources write different modules')
seed('zero-chunks-skipped', 'E01', 'ec', [(EC + 'bin/ec/blobs/decode.rs', 'unpack_from_blobs', 'let src = &chunk[2..];', 'let src = &chunk[2..];\n            if src.not_any() {\n                continue\n            }')],
     'a payload with a run of zeros that fills a whole field element, followed by more data',
     'the zeros are dropped and the rest of the payload moves up')
seed('keys-in-finish-order', 'E02', 'ec', [(EC + 'bin/ec/validator/keys.rs', 'generate', '(start..end).into_par_iter().map(|i| derive_validator_keys(&root_key, i)).unzip()', 'let keys = std::sync::Mutex::new((vec![], vec![]));\n    (start..end).into_par_iter().for_each(|i| {\n        let (signing, withdrawal) = derive_validator_keys(&root_key, i);\n        let mut keys = keys.lock().unwrap();\n        keys.0.push(signing);\n        keys.1.push(withdrawal);\n    });\n    keys.into_inner().unwrap()')],
     'a worker that finishes a later key before an earlier one',
     'keys come in the order in which workers finish, not in index order')
seed('aggregate-unchecked', 'K01', 'bls', [(EC + 'crypto/bls.rs', 'aggregate(', 'bls_impl::AggregateSignature::aggregate(&signatures, true)', 'bls_impl::AggregateSignature::aggregate(&signatures, false)')],
     'a contribution that is a point of the curve outside the group',
     'signatures outside the group are added into an aggregate, which then verifies for nobody')
seed('signer-counted-once', 'K01', 'bls', [(EC + 'crypto/bls.rs', 'fast_aggregate_verify(', 'let public_keys: Vec<&bls_impl::PublicKey> = public_keys.iter().collect();', 'let mut seen: Vec<&bls_impl::PublicKey> = vec![];\n    for public_key in &public_keys {\n        if !seen.contains(&public_key) {\n            seen.push(public_key);\n        }\n    }\n    let public_keys = seen;')],
     'a key that is listed twice because it holds two seats',
     'a key that is listed twice is counted once: the aggregate with one signature per seat is refused, one with a signature missing is accepted')
seed('infinity-passes', 'K01', 'bls', [(EC + 'crypto/bls.rs', 'eth_fast_aggregate_verify(', 'if public_keys.is_empty() && signature.is_infinity() {', 'let nobody = public_keys.iter().all(|public_key| public_key.iter().skip(1).all(|byte| *byte == 0));\n    if nobody && signature.is_infinity() {')],
     'a signer list made of keys at infinity (or all zeros) with the signature at infinity',
     'keys at infinity count as nobody: the empty signature is accepted for a non-empty list')

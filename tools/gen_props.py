#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit here, then run)."""
import json, os
EC = "ethereum-consensus/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith(("beacon", "spec-gen")) else EC + f for f in files],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [])))

NOTEST = "The only tests that run here cover the clock, one hex formatter and a fork ordering; the spec-test runners replay fixed vectors that need a download. "

prop("C01", "Replicas reach the state the consensus specification defines",
 "Whatever order, duplication, delay, partition or crash delivers a set of blocks to a node, after applying a chain of valid blocks its state is exactly the state the Ethereum consensus specification (phase0 to deneb, minimal and mainnet presets) defines for that chain. Two nodes that applied the same chain hold byte-identical states with the same state root, which is also the root the blocks commit to.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every block tree produced by any mix of honest, offline, slow and Byzantine validators, every delivery schedule, every fork schedule, both presets",
 NOTEST + "Equality with the specification is a statement over all block histories.",
 ["phase0/", "altair/", "bellatrix/", "capella/", "deneb/", "state_transition/"],
 [("state transition", EC+"phase0/state_transition.rs, bellatrix/state_transition.rs"), ("epoch processing", EC+"*/epoch_processing.rs"), ("block processing", EC+"*/block_processing.rs")],
 ["serialized state and state root after every block and every empty slot"])

prop("C02", "Invalid blocks are rejected with an error, valid blocks are never refused",
 "A block is accepted by the validating state transition if and only if the consensus specification accepts it on that parent state: any forged signature, wrong proposer, slot, parent, state root, randao reveal, operation precondition or operation count makes it fail. Rejection is an error value, never a panic, an endless loop or a silent acceptance, whatever bytes a Byzantine proposer puts in the block.",
 ["inputs", "histories", "fault_sequences"],
 "every parent state reachable in the simulated network and every block a Byzantine proposer can build from it, including mutations of honest blocks and of each kind of operation",
 NOTEST + "No test offers the transition an adversarial block.",
 ["phase0/block_processing.rs", "phase0/state_transition.rs", "altair/block_processing.rs", "bellatrix/block_processing.rs", "capella/block_processing.rs", "deneb/block_processing.rs", "error.rs"],
 [("process_block and its checks", EC+"*/block_processing.rs"), ("signature check of the block", EC+"phase0/state_transition.rs")],
 ["accept/reject decision of every node for every delivered block"])

prop("C03", "Finality is safe and live",
 "A node's justified and finalized checkpoints advance exactly when attestations of at least two thirds of the active balance with matching source and target are included, and never move back. Two nodes never finalize conflicting checkpoints unless validators with at least one third of the stake are provably slashable, and once faults stop and two thirds of the stake is online and connected, finality advances within a bounded number of epochs.",
 ["schedules", "fault_sequences", "histories"],
 "every partition, delay, crash and equivocation schedule of the simulated network",
 NOTEST + "Safety and liveness quantify over all network schedules.",
 ["phase0/epoch_processing.rs", "altair/epoch_processing.rs", "phase0/helpers.rs"],
 [("process_justification_and_finalization / weigh_justification_and_finalization", EC+"*/epoch_processing.rs")],
 ["justification bits and checkpoints in every node's state"])

prop("C04", "Rewards, penalties and inactivity leak match participation",
 "At every epoch boundary each validator's balance, effective balance and inactivity score change by exactly what the specification derives from its timely source, target and head votes, inclusion delay, base reward and the finality delay. Validators that attest correctly and on time are never penalised outside a leak, and the balance of persistently offline validators falls monotonically during one.",
 ["histories", "schedules", "fault_sequences"],
 "every participation pattern caused by offline, slow or partitioned validators, in and out of an inactivity leak, in every fork",
 NOTEST + "Reward accounting depends on whole participation histories.",
 ["phase0/epoch_processing.rs", "phase0/helpers.rs", "altair/epoch_processing.rs", "altair/helpers.rs", "bellatrix/helpers.rs", "deneb/helpers.rs"],
 [("process_rewards_and_penalties, process_inactivity_updates, process_effective_balance_updates, participation flags", EC+"*/epoch_processing.rs, */helpers.rs, */block_processing.rs")],
 ["balances, effective balances, inactivity scores, participation records"])

prop("C05", "Validator lifecycle: activation, exit and ejection respect the queue and churn",
 "A validator becomes active only after its eligibility is finalized and in queue order, never faster than the churn limit; exits and ejections take the earliest epoch the churn allows, are irrevocable, and only happen after a valid voluntary exit of a validator active long enough, an ejection or a slashing. A validator's activation, exit and withdrawable epochs are ordered and never change once passed.",
 ["histories", "inputs", "schedules"],
 "every mix and order of deposits, voluntary exits, ejections and slashings, in every fork",
 NOTEST + "Queueing and churn are properties of histories.",
 ["phase0/epoch_processing.rs", "phase0/helpers.rs", "phase0/block_processing.rs", "deneb/epoch_processing.rs", "deneb/helpers.rs", "deneb/block_processing.rs"],
 [("process_registry_updates, initiate_validator_exit, churn limits, process_voluntary_exit", EC+"*/epoch_processing.rs, */helpers.rs, */block_processing.rs")],
 ["validator records after every block and epoch"])

prop("C06", "Equivocation is punished exactly, and only equivocation",
 "Including evidence of a double proposal, double vote or surround vote slashes every provably guilty slashable validator exactly once: it is marked, exited, charged the immediate penalty, the proposer and reporter are rewarded, and at the halfway epoch it pays the correlation penalty proportional to the stake slashed around it. A validator that never signed conflicting messages is never slashed, and evidence against already slashed or withdrawable validators is refused.",
 ["fault_sequences", "histories", "inputs"],
 "every equivocation a Byzantine minority can sign and every order in which evidence is included, in every fork",
 NOTEST + "Needs conflicting signed messages spread over a history.",
 ["phase0/block_processing.rs", "phase0/helpers.rs", "phase0/epoch_processing.rs", "altair/helpers.rs", "bellatrix/helpers.rs", "bellatrix/epoch_processing.rs", "altair/epoch_processing.rs"],
 [("slash_validator, is_slashable_attestation_data, process_proposer_slashing, process_attester_slashing, process_slashings", EC+"*/helpers.rs, */block_processing.rs, */epoch_processing.rs")],
 ["slashed flags, slashings vector, balances of offender, proposer and reporter"])

prop("C07", "Committees and proposers partition the validators and are agreed by all",
 "In every epoch each active validator sits in exactly one attestation committee, committees of one slot are disjoint, and committee membership, committee count and the proposer of each slot equal the specification's shuffling of the randao seed. Every node that shares the chain computes the same duties one epoch ahead and again when the slot arrives.",
 ["histories", "schedules", "inputs"],
 "every registry, balance distribution and randao history reached in the simulated network, both shuffling routines, both presets",
 NOTEST + "Agreement over the lookahead depends on the history in between.",
 ["phase0/helpers.rs", "altair/spec/mod.rs", "deneb/spec/mod.rs"],
 [("compute_shuffled_index, compute_shuffled_indices, compute_committee, get_beacon_committee, get_beacon_proposer_index, get_seed", EC+"phase0/helpers.rs")],
 ["committee and proposer queries on every node's state"])

prop("C08", "Deposits are credited exactly once and in order",
 "Each deposit made on the execution chain is credited exactly once, in deposit order, only with a valid Merkle proof against the deposit root the validators voted in; a first deposit creates a validator only when its signature is valid, and a top-up of a known key is always credited. The deposit root in the state changes only when a majority of the voting period agrees, and a block must carry exactly the deposits that are due.",
 ["histories", "fault_sequences", "inputs"],
 "every stream of deposits (new keys, top-ups, bad signatures, bad proofs, duplicates, reordered) and every pattern of deposit-root votes",
 NOTEST + "Exactly-once is a property of histories.",
 ["phase0/block_processing.rs", "phase0/epoch_processing.rs", "altair/block_processing.rs", "capella/block_processing.rs"],
 [("process_deposit, apply_deposit, process_eth1_data, process_eth1_data_reset, get_validator_from_deposit", EC+"*/block_processing.rs, phase0/epoch_processing.rs")],
 ["validator count, balances, deposit index, voted deposit data"])

prop("C09", "Withdrawals sweep pays out exactly what is due, once",
 "From capella on, each payload must contain exactly the withdrawals the sweep defines: full balances of withdrawable validators and the excess of fully funded ones with execution credentials, in order, with consecutive indices, bounded per payload and per sweep; applying them debits exactly those amounts. Credentials change only from the original BLS key's signed request, once, and no balance is paid twice or to another address.",
 ["histories", "inputs", "fault_sequences"],
 "every mix of exits, credential changes, balances and skipped slots, and every payload a Byzantine proposer can offer",
 NOTEST + "The sweep is stateful across blocks.",
 ["capella/block_processing.rs", "capella/helpers.rs", "capella/bls_to_execution_change.rs", "deneb/spec/mod.rs"],
 [("get_expected_withdrawals, process_withdrawals, process_bls_to_execution_change", EC+"capella/block_processing.rs")],
 ["withdrawals in payloads, balances, next withdrawal cursor"])

prop("C10", "Scheduled forks activate at their epoch and carry the state over",
 "A node that follows the chain through any fork schedule switches to the new rules exactly at the scheduled epoch boundary, also when the boundary slot is empty or several forks activate together, and the upgraded state keeps every shared field, records the previous and current fork version and derives the new fields as the specification says. At any time the active fork and fork version reported for a slot of any supported network are those of its published schedule, and every chain parameter of a supported or configured network has its published or configured value; a network written down by name is read again as the same network; a damaged or missing configuration is refused.",
 ["configurations", "schedules", "histories"],
 "every fork schedule (including simultaneous and skipped-slot boundaries), every pre-fork history, every supported network",
 NOTEST + "No test crosses a fork boundary.",
 ["altair/fork.rs", "bellatrix/fork.rs", "capella/fork.rs", "deneb/fork.rs", "state_transition/executor.rs", "state_transition/context.rs", "configs/", "phase0/presets/", "fork.rs", "networks.rs"],
 [("upgrade_to_*, Executor, Context::fork_for", EC+"*/fork.rs, state_transition/executor.rs, state_transition/context.rs")],
 ["state after the boundary, fork of the executor, fork schedule queries"])

prop("C11", "Sync committees rotate on schedule and are paid for exactly what they sign",
 "From altair on the sync committee is the specification's balance-weighted sample of the active validators, known one period ahead, and rotates exactly at period boundaries. A sync aggregate is accepted only if the participating members signed the previous slot's block root, each participant and the proposer are paid and each absent member charged exactly the specified amounts.",
 ["histories", "inputs", "fault_sequences"],
 "every participation pattern, period boundary and forged aggregate in the simulated network",
 NOTEST + "Rotation spans periods; forgery needs an adversary.",
 ["altair/block_processing.rs", "altair/helpers.rs", "altair/epoch_processing.rs", "altair/spec/mod.rs"],
 [("process_sync_aggregate, get_next_sync_committee(_indices), process_sync_committee_updates", EC+"altair/")],
 ["current and next sync committees, balances"])

prop("C12", "Execution payloads are bound to the beacon chain and the engine's verdict",
 "From bellatrix on a block is accepted only if its execution payload extends the recorded execution head, carries the randao mix and timestamp of its slot and no more blob commitments than allowed, and the execution engine calls it valid; the recorded payload header commits to exactly that payload. An engine that answers invalid makes the block fail.",
 ["fault_sequences", "inputs", "histories"],
 "every payload a Byzantine proposer can build, engine verdict schedules, merge at any slot",
 NOTEST + "Engine faults and payload forgery are never exercised.",
 ["bellatrix/block_processing.rs", "bellatrix/helpers.rs", "capella/block_processing.rs", "deneb/block_processing.rs", "deneb/execution_engine.rs", "execution_engine.rs"],
 [("process_execution_payload, is_merge_transition_complete, verify_and_notify_new_payload", EC+"*/block_processing.rs")],
 ["accept/reject decision, latest execution payload header"])

prop("C13", "Slots advance deterministically and history is recorded faithfully",
 "Advancing a state over any number of empty slots, in one step or many, gives the same state, with each passed slot's state root and block root recorded and retrievable while in range, and an error when out of range or moving backwards. Randao mixes, slashings, deposit votes and historical accumulators rotate exactly at their periods.",
 ["schedules", "histories"],
 "every split of a gap into steps, every pattern of empty slots, including across epoch, period and fork boundaries",
 NOTEST + "Gaps and splits are schedules.",
 ["phase0/slot_processing.rs", "phase0/epoch_processing.rs", "phase0/helpers.rs", "capella/epoch_processing.rs"],
 [("process_slots, process_slot, get_block_root(_at_slot), process_*_reset, process_historical_*_update", EC+"phase0/slot_processing.rs, */epoch_processing.rs")],
 ["block roots, state roots, randao mixes, historical roots and summaries"])

prop("C14", "A node restarted from its stored state continues as if it never stopped",
 "At any point a state or block written in binary or JSON form and read back, by the same or another node, is the same object with the same root, and a node that crashed and restarted from it processes every later block identically. Damaged bytes are either refused or decode to something that re-encodes to exactly those bytes; they never panic.",
 ["crash_points", "fault_sequences", "histories"],
 "a crash after any block or slot, restart from binary or JSON snapshots, torn, truncated and bit-flipped files",
 NOTEST + "Crash points and damaged storage are never simulated.",
 ["types/", "serde.rs", "ssz/", "phase0/beacon_state.rs", "altair/beacon_state.rs", "deneb/beacon_state.rs"],
 [("derived and hand-written encodings of containers, byte vectors, lists and enums over forks", EC+"types/, ssz/, serde.rs")],
 ["re-encoded bytes, roots, later block processing"])

prop("C15", "Signed messages are bound to their purpose, fork and network",
 "A signature made for one kind of message, epoch's fork version or network never verifies as another: replaying a block, attestation, randao reveal, exit, slashing header, sync vote, credential change, deposit or builder message in a different role, fork or network is rejected, also within an aggregate, while the original is accepted where it belongs.",
 ["inputs", "configurations", "fault_sequences"],
 "every kind of signed message crossed with every other role, fork version and genesis validators root",
 NOTEST + "Cross-role and cross-network replay is never tried.",
 ["signing.rs", "domains.rs", "phase0/helpers.rs", "crypto/bls.rs", "state_transition/context.rs"],
 [("compute_domain, get_domain, compute_signing_root, fork data root, fork digest", EC+"phase0/helpers.rs, signing.rs, domains.rs")],
 ["accept/reject decision for replayed messages"])

prop("C16", "Blob sidecars are accepted only if they belong to the block",
 "A blob sidecar verifies if and only if its blob matches the commitment, the commitment is at that index of the block body named by the signed header, and the proofs are intact: sidecars that arrive lost, duplicated, reordered, corrupted or swapped between blocks or indices are never accepted as something they are not, and the proposer's own always are.",
 ["fault_sequences", "inputs"],
 "every corruption, swap and reordering of the sidecars of simulated blocks",
 NOTEST + "One fixed sidecar is decoded by an ignored-here test.",
 ["deneb/blob_sidecar.rs", "crypto/kzg.rs", "deneb/helpers.rs"],
 [("verify_blob_sidecar_inclusion_proof, verify_blob_kzg_proof(_batch), kzg_commitment_to_versioned_hash", EC+"deneb/blob_sidecar.rs, crypto/kzg.rs, deneb/helpers.rs")],
 ["accept/reject decision for each delivered sidecar"])

prop("C17", "Electra queues conserve stake and respect balance churn",
 "From electra on, deposits, partial withdrawals, exits and consolidations pass through their queues in order and at the balance churn limit, each applied exactly as the specification (v1.5.0-alpha.2) defines, and no stake is created or lost on the way: balances and queues change only by deposits, withdrawals, rewards and penalties. Requests that do not meet their preconditions have no effect and never make a block fail or the node panic.",
 ["histories", "inputs", "schedules"],
 "every mix and order of deposit, withdrawal and consolidation requests on an upgraded chain",
 NOTEST + "No electra state transition is ever executed by a test.",
 ["electra/"],
 [("process_pending_balance_deposits, process_pending_consolidations, compute_*_epoch_and_update_churn, process_withdrawal_request, process_consolidation, get_expected_withdrawals", EC+"electra/")],
 ["queues, balances, churn accounting"])

prop("C18", "Blinded blocks commit to exactly the payload they stand for",
 "A blinded block has the root of the full block it stands for, so one signature is valid for both; the header in it is derived field by field from the payload. Putting back a payload that a relay delivered altered, late or for another block never yields the signed block, and putting back the right one yields exactly it. The types that span forks find a value's fork from its JSON alone, read and write the same bytes as the fork's own type, and report exactly the fields that fork has.",
 ["inputs", "fault_sequences", "configurations"],
 "every valid and Byzantine block of every fork with payloads, every payload a relay may return, every value of every fork behind the fork-spanning types",
 NOTEST + "No test builds a blinded block or reads one through the types that span forks.",
 ["bellatrix/blinded_beacon_block.rs", "capella/blinded_beacon_block.rs", "deneb/blinded_beacon_block.rs", "bellatrix/execution_payload.rs", "capella/execution_payload.rs", "deneb/execution_payload.rs", "types/"],
 [("BlindedBeaconBlock types, ExecutionPayloadHeader::try_from(&ExecutionPayload)", EC+"*/blinded_beacon_block.rs, */execution_payload.rs"), ("fork-spanning enums and their accessors", EC+"types/")],
 ["block roots, encodings, signature verdicts and accessor results"])

prop("C19", "Genesis from deposits is the same for every observer",
 "Nodes that replay the same deposit log build byte-identical genesis states, equal to the specification's, in every fork: valid deposits are counted once, top-ups merge, invalid ones are skipped, fully funded validators are active at once, and the genesis trigger holds only with enough active validators and not before the minimum time.",
 ["inputs", "histories", "schedules"],
 "every deposit log (new keys, top-ups, bad signatures, partial amounts) and every fork's genesis",
 NOTEST + "No genesis is built by a test here.",
 ["phase0/genesis.rs", "altair/genesis.rs", "bellatrix/genesis.rs", "capella/genesis.rs", "deneb/genesis.rs", "electra/genesis.rs"],
 [("initialize_beacon_state_from_eth1, is_valid_genesis_state, get_genesis_block", EC+"*/genesis.rs")],
 ["genesis state bytes"])

prop("T01", "Slot clocks agree with wall-clock time",
 "For any wall clock, however skewed, stepped or drifting, the reported slot, epoch, genesis status and durations until a slot are exactly those of the instant read: a slot is current from its start inclusive to its end exclusive, and waiting the reported duration ends exactly at the slot start. Slot-to-time and time-to-slot conversions are inverse, and the built-in network clocks use the published genesis times and slot durations.",
 ["schedules", "inputs", "fault_sequences"],
 "every instant up to 584 years after 1970, chain parameter set, clock step, drift and passage of time between two reads",
 "Two unit tests check a handful of instants with a hand-moved clock; boundary instants, steps and time passing between reads are not covered.",
 ["clock.rs", "state_transition/context.rs"],
 [("Clock, conversion functions, TimeProvider seam", EC+"clock.rs")],
 ["return values against the instants at which the clock was read"])

prop("T02", "The slot stream yields every slot in order, once, on time",
 "A subscriber to the slot stream receives a strictly increasing sequence of slots, each while it is the current slot of the clock, starting with the current slot if genesis has passed and with the first slot otherwise; the stream never ends, never repeats a slot and never stalls once a new slot has begun. Late polling, stalls, drift between timer and wall clock and clock steps may skip slots but never reorder or repeat them.",
 ["schedules", "fault_sequences"],
 "every poll schedule, subscription instant, timer/wall-clock drift, step and passage of time between reads",
 "One unit test drives three slots with a well-behaved clock.",
 ["clock.rs"],
 [("SlotStream", EC+"clock.rs")],
 ["items yielded, wake-ups"])

prop("A01", "The API client asks exactly what was asked and returns exactly what was answered",
 "Each client call sends one request with the method, path, query and body the Beacon API prescribes for its arguments, relative to the configured endpoint, and a successful answer is returned as the value the server sent, whatever the chunking or timing of the response. Concurrent calls never receive each other's answers.",
 ["inputs", "schedules"],
 "every call, argument, endpoint prefix and response, interleaved and chunked arbitrarily",
 "The client has no tests; requests and parsing against a server are never exercised.",
 ["beacon-api-client/src/api_client.rs", "beacon-api-client/src/types.rs", "beacon-api-client/src/serde.rs"],
 [("Client methods, typed ids and responses", "beacon-api-client/src/api_client.rs, types.rs")],
 ["requests seen by the simulated server, values returned"])

prop("A02", "The API client never reports a failed exchange as success",
 "If the server answers with an error, the connection breaks, times out or is reset, or the body is truncated, corrupted or of the wrong shape, the call returns an error that carries the server's error when there was one; it never panics, never fabricates a value and leaves the client usable for the next call.",
 ["fault_sequences", "schedules"],
 "every call under every HTTP status, transport fault and body damage at every position",
 "The client has no tests.",
 ["beacon-api-client/src/api_client.rs", "beacon-api-client/src/api_error.rs"],
 [("api_error_or_ok, api_error_or_value, ApiResult", "beacon-api-client/src/api_client.rs, api_error.rs")],
 ["returned results against the faults injected"])

prop("E01", "Blob encoding round-trips whatever the I/O does",
 "For any payload and either framing, the blobs written by the encoder are valid blobs that decode to exactly the payload (followed only by zero padding when unframed), regardless of how reads and writes are split, interrupted or short. An I/O error on input or output is reported as an error and never as truncated success or a panic, and malformed input is refused.",
 ["inputs", "fault_sequences"],
 "every payload, framing and schedule of short reads, short writes, interruptions, errors and full disks",
 "The blob tool has no tests.",
 ["bin/ec/blobs/encode.rs", "bin/ec/blobs/decode.rs", "bin/ec/blobs/framing.rs", "bin/ec/blobs/bundler.rs"],
 [("pack_into_blobs, unpack_from_blobs, framing, to_writer/from_reader", EC+"bin/ec/blobs/")],
 ["bytes written, errors returned"])

prop("E02", "Key generation is deterministic and keystores open only with their passphrase",
 "From one mnemonic, derived keys depend only on the phrase and index as EIP-2333/2334 prescribe: the same range always yields the same keys in index order, whatever the thread schedule, and overlapping ranges agree. Each keystore written for a key decrypts to that key with its own passphrase and with no other, and carries its public key.",
 ["schedules", "inputs"],
 "every phrase, index range, worker schedule and source of randomness",
 "The key tool has no tests.",
 ["bin/ec/validator/keys.rs", "bin/ec/validator/keystores.rs", "bin/ec/validator/mnemonic.rs"],
 [("keys::generate, keystores::generate, mnemonic", EC+"bin/ec/validator/")],
 ["generated keys and keystores"])

prop("S01", "JSON decoding does not depend on how the bytes arrive",
 "Every value of the consensus types decodes to the same object whether its JSON arrives as one buffer, in arbitrary fragments from a reader, as an already parsed tree or with escaped characters, and encoding it again gives equivalent JSON in the API's conventions (quoted integers, 0x-prefixed hex). Truncated, damaged or out-of-range input is refused with an error, never accepted as another value and never a panic.",
 ["schedules", "fault_sequences", "inputs"],
 "every fragmentation, truncation and corruption of the JSON of every container and primitive codec",
 "One unit test formats one hex string.",
 ["serde.rs", "ssz/byte_list.rs", "ssz/byte_vector.rs", "primitives.rs", "types/"],
 [("as_hex, as_str, collection_over_string, seq_of_str and other field codecs", EC+"serde.rs")],
 ["decoded values and errors per delivery schedule"])

prop("G01", "Generated fork modules are a deterministic function of the sources",
 "On given sources the generator writes the same bytes whatever the hash seeds, interrupted or partial I/O, and whatever an earlier torn or failed run left behind; when the file system fails it, it fails loudly instead of writing something else. Every generated fork module exposes each item that its fork or an earlier fork defines (bar those altair drops) exactly once, in its newest definition; the polymorphic types cover every fork's definition. On the reference sources it writes the reference modules.",
 ["schedules", "faults", "histories"],
 "every hash seed, I/O fault sequence and history of source edits and earlier runs",
 "One unit test compares two fork names; none runs the generator.",
 ["spec-gen/src/generator.rs", "spec-gen/src/type_generator.rs", "spec-gen/src/visitors.rs"],
 [("generator", "spec-gen/src/")],
 ["files written, loud failures"])

prop("K01", "Signatures and their aggregates verify exactly when everyone listed signed",
 "A signature verifies under a public key exactly if that key signed those bytes. An aggregate verifies for a list of keys (over one message, or over a message each) exactly if it is the sum of one signature per listed key over its message, in any order and grouping; cancelling, missing, surplus, forged or malformed members are never accepted, and neither is an empty list, save for a sync aggregate that is the point at infinity. Keys and signatures that are not points of the group, and keys at infinity, are refused. Keys come from their randomness, material or encoding as defined: zero and out-of-range scalars, short material and a failing random source give an error, and a key is never shown when formatted.",
 ["inputs", "fault_sequences", "schedules"],
 "every set of signers, rogue keys and messages, every loss, duplication, reordering and corruption between signers, aggregators and verifiers, every behaviour of the random source",
 NOTEST + "Four unit tests sign one message with fresh keys.",
 ["crypto/bls.rs"],
 [("verify_signature, aggregate, aggregate_verify, fast_aggregate_verify, eth_aggregate_public_keys, eth_fast_aggregate_verify", EC+"crypto/bls.rs"), ("SecretKey", EC+"crypto/bls.rs")],
 ["results of signing, aggregation, verification and key construction"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

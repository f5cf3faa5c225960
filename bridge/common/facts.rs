// What the fork-spanning types say about a value, through each of their forms: the owned enum, the borrowed and the
// mutably borrowed one; by reading accessors and by the mutable ones. 
macro_rules! block_get {
    ($o:ident, $x:expr) => {{
        $o.push(("slot", Some(put(&$x.slot())?)));
        $o.push(("proposer_index", Some(put(&$x.proposer_index())?)));
        $o.push(("parent_root", Some(put(&$x.parent_root())?)));
        $o.push(("state_root", Some(put(&$x.state_root())?)));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! block_mut {
    ($o:ident, $x:expr) => {{
        $o.push(("slot", Some(put(&*$x.slot_mut())?)));
        $o.push(("proposer_index", Some(put(&*$x.proposer_index_mut())?)));
        $o.push(("parent_root", Some(put(&*$x.parent_root_mut())?)));
        $o.push(("state_root", Some(put(&*$x.state_root_mut())?)));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! body_get {
    ($o:ident, $x:expr) => {{
        $o.push(("randao_reveal", Some(put($x.randao_reveal())?)));
        $o.push(("eth1_data", Some(put($x.eth1_data())?)));
        $o.push(("graffiti", Some(put($x.graffiti())?)));
        $o.push(("proposer_slashings", Some(put($x.proposer_slashings())?)));
        $o.push(("attester_slashings", Some(put($x.attester_slashings())?)));
        $o.push(("attestations", Some(put($x.attestations())?)));
        $o.push(("deposits", Some(put($x.deposits())?)));
        $o.push(("voluntary_exits", Some(put($x.voluntary_exits())?)));
        $o.push(("sync_aggregate", match $x.sync_aggregate() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("bls_to_execution_changes", match $x.bls_to_execution_changes() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("blob_kzg_commitments", match $x.blob_kzg_commitments() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! body_mut {
    ($o:ident, $x:expr) => {{
        $o.push(("randao_reveal", Some(put(&*$x.randao_reveal_mut())?)));
        $o.push(("eth1_data", Some(put(&*$x.eth1_data_mut())?)));
        $o.push(("graffiti", Some(put(&*$x.graffiti_mut())?)));
        $o.push(("proposer_slashings", Some(put(&*$x.proposer_slashings_mut())?)));
        $o.push(("attester_slashings", Some(put(&*$x.attester_slashings_mut())?)));
        $o.push(("attestations", Some(put(&*$x.attestations_mut())?)));
        $o.push(("deposits", Some(put(&*$x.deposits_mut())?)));
        $o.push(("voluntary_exits", Some(put(&*$x.voluntary_exits_mut())?)));
        $o.push(("sync_aggregate", match $x.sync_aggregate_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("bls_to_execution_changes", match $x.bls_to_execution_changes_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("blob_kzg_commitments", match $x.blob_kzg_commitments_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! blinded_body_get {
    ($o:ident, $x:expr) => {{
        $o.push(("randao_reveal", Some(put($x.randao_reveal())?)));
        $o.push(("eth1_data", Some(put($x.eth1_data())?)));
        $o.push(("graffiti", Some(put($x.graffiti())?)));
        $o.push(("proposer_slashings", Some(put($x.proposer_slashings())?)));
        $o.push(("attester_slashings", Some(put($x.attester_slashings())?)));
        $o.push(("attestations", Some(put($x.attestations())?)));
        $o.push(("deposits", Some(put($x.deposits())?)));
        $o.push(("voluntary_exits", Some(put($x.voluntary_exits())?)));
        $o.push(("sync_aggregate", Some(put($x.sync_aggregate())?)));
        $o.push(("bls_to_execution_changes", match $x.bls_to_execution_changes() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("blob_kzg_commitments", match $x.blob_kzg_commitments() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! blinded_body_mut {
    ($o:ident, $x:expr) => {{
        $o.push(("randao_reveal", Some(put(&*$x.randao_reveal_mut())?)));
        $o.push(("eth1_data", Some(put(&*$x.eth1_data_mut())?)));
        $o.push(("graffiti", Some(put(&*$x.graffiti_mut())?)));
        $o.push(("proposer_slashings", Some(put(&*$x.proposer_slashings_mut())?)));
        $o.push(("attester_slashings", Some(put(&*$x.attester_slashings_mut())?)));
        $o.push(("attestations", Some(put(&*$x.attestations_mut())?)));
        $o.push(("deposits", Some(put(&*$x.deposits_mut())?)));
        $o.push(("voluntary_exits", Some(put(&*$x.voluntary_exits_mut())?)));
        $o.push(("sync_aggregate", Some(put(&*$x.sync_aggregate_mut())?)));
        $o.push(("bls_to_execution_changes", match $x.bls_to_execution_changes_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("blob_kzg_commitments", match $x.blob_kzg_commitments_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! payload_get {
    ($o:ident, $x:expr) => {{
        $o.push(("block_number", Some(put(&$x.block_number())?)));
        $o.push(("gas_limit", Some(put(&$x.gas_limit())?)));
        $o.push(("gas_used", Some(put(&$x.gas_used())?)));
        $o.push(("timestamp", Some(put(&$x.timestamp())?)));
        $o.push(("parent_hash", Some(put($x.parent_hash())?)));
        $o.push(("fee_recipient", Some(put($x.fee_recipient())?)));
        $o.push(("receipts_root", Some(put($x.receipts_root())?)));
        $o.push(("logs_bloom", Some(put($x.logs_bloom())?)));
        $o.push(("prev_randao", Some(put($x.prev_randao())?)));
        $o.push(("extra_data", Some(put($x.extra_data())?)));
        $o.push(("base_fee_per_gas", Some(put($x.base_fee_per_gas())?)));
        $o.push(("block_hash", Some(put($x.block_hash())?)));
        $o.push(("transactions", Some(put($x.transactions())?)));
        $o.push(("withdrawals", match $x.withdrawals() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("blob_gas_used", match $x.blob_gas_used() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("excess_blob_gas", match $x.excess_blob_gas() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("payload state_root", Some(put($x.state_root())?)));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! payload_mut {
    ($o:ident, $x:expr) => {{
        $o.push(("block_number", Some(put(&*$x.block_number_mut())?)));
        $o.push(("gas_limit", Some(put(&*$x.gas_limit_mut())?)));
        $o.push(("gas_used", Some(put(&*$x.gas_used_mut())?)));
        $o.push(("timestamp", Some(put(&*$x.timestamp_mut())?)));
        $o.push(("parent_hash", Some(put(&*$x.parent_hash_mut())?)));
        $o.push(("fee_recipient", Some(put(&*$x.fee_recipient_mut())?)));
        $o.push(("receipts_root", Some(put(&*$x.receipts_root_mut())?)));
        $o.push(("logs_bloom", Some(put(&*$x.logs_bloom_mut())?)));
        $o.push(("prev_randao", Some(put(&*$x.prev_randao_mut())?)));
        $o.push(("extra_data", Some(put(&*$x.extra_data_mut())?)));
        $o.push(("base_fee_per_gas", Some(put(&*$x.base_fee_per_gas_mut())?)));
        $o.push(("block_hash", Some(put(&*$x.block_hash_mut())?)));
        $o.push(("transactions", Some(put(&*$x.transactions_mut())?)));
        $o.push(("withdrawals", match $x.withdrawals_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("blob_gas_used", match $x.blob_gas_used_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("excess_blob_gas", match $x.excess_blob_gas_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("payload state_root", Some(put(&*$x.state_root_mut())?)));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! header_get {
    ($o:ident, $x:expr) => {{
        $o.push(("block_number", Some(put(&$x.block_number())?)));
        $o.push(("gas_limit", Some(put(&$x.gas_limit())?)));
        $o.push(("gas_used", Some(put(&$x.gas_used())?)));
        $o.push(("timestamp", Some(put(&$x.timestamp())?)));
        $o.push(("transactions_root", Some(put(&$x.transactions_root())?)));
        $o.push(("parent_hash", Some(put($x.parent_hash())?)));
        $o.push(("fee_recipient", Some(put($x.fee_recipient())?)));
        $o.push(("receipts_root", Some(put($x.receipts_root())?)));
        $o.push(("logs_bloom", Some(put($x.logs_bloom())?)));
        $o.push(("prev_randao", Some(put($x.prev_randao())?)));
        $o.push(("extra_data", Some(put($x.extra_data())?)));
        $o.push(("base_fee_per_gas", Some(put($x.base_fee_per_gas())?)));
        $o.push(("block_hash", Some(put($x.block_hash())?)));
        $o.push(("withdrawals_root", match $x.withdrawals_root() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("blob_gas_used", match $x.blob_gas_used() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("excess_blob_gas", match $x.excess_blob_gas() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("payload state_root", Some(put($x.state_root())?)));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! header_mut {
    ($o:ident, $x:expr) => {{
        $o.push(("block_number", Some(put(&*$x.block_number_mut())?)));
        $o.push(("gas_limit", Some(put(&*$x.gas_limit_mut())?)));
        $o.push(("gas_used", Some(put(&*$x.gas_used_mut())?)));
        $o.push(("timestamp", Some(put(&*$x.timestamp_mut())?)));
        $o.push(("transactions_root", Some(put(&*$x.transactions_root_mut())?)));
        $o.push(("parent_hash", Some(put(&*$x.parent_hash_mut())?)));
        $o.push(("fee_recipient", Some(put(&*$x.fee_recipient_mut())?)));
        $o.push(("receipts_root", Some(put(&*$x.receipts_root_mut())?)));
        $o.push(("logs_bloom", Some(put(&*$x.logs_bloom_mut())?)));
        $o.push(("prev_randao", Some(put(&*$x.prev_randao_mut())?)));
        $o.push(("extra_data", Some(put(&*$x.extra_data_mut())?)));
        $o.push(("base_fee_per_gas", Some(put(&*$x.base_fee_per_gas_mut())?)));
        $o.push(("block_hash", Some(put(&*$x.block_hash_mut())?)));
        $o.push(("withdrawals_root", match $x.withdrawals_root_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("blob_gas_used", match $x.blob_gas_used_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("excess_blob_gas", match $x.excess_blob_gas_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("payload state_root", Some(put(&*$x.state_root_mut())?)));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! state_get {
    ($o:ident, $x:expr) => {{
        $o.push(("genesis_time", Some(put(&$x.genesis_time())?)));
        $o.push(("genesis_validators_root", Some(put(&$x.genesis_validators_root())?)));
        $o.push(("slot", Some(put(&$x.slot())?)));
        $o.push(("eth1_deposit_index", Some(put(&$x.eth1_deposit_index())?)));
        $o.push(("fork", Some(put($x.fork())?)));
        $o.push(("latest_block_header", Some(put($x.latest_block_header())?)));
        $o.push(("block_roots", Some(put($x.block_roots())?)));
        $o.push(("state_roots", Some(put($x.state_roots())?)));
        $o.push(("historical_roots", Some(put($x.historical_roots())?)));
        $o.push(("eth1_data", Some(put($x.eth1_data())?)));
        $o.push(("eth1_data_votes", Some(put($x.eth1_data_votes())?)));
        $o.push(("validators", Some(put($x.validators())?)));
        $o.push(("balances", Some(put($x.balances())?)));
        $o.push(("randao_mixes", Some(put($x.randao_mixes())?)));
        $o.push(("slashings", Some(put($x.slashings())?)));
        $o.push(("justification_bits", Some(put($x.justification_bits())?)));
        $o.push(("previous_justified_checkpoint", Some(put($x.previous_justified_checkpoint())?)));
        $o.push(("current_justified_checkpoint", Some(put($x.current_justified_checkpoint())?)));
        $o.push(("finalized_checkpoint", Some(put($x.finalized_checkpoint())?)));
        $o.push(("previous_epoch_attestations", match $x.previous_epoch_attestations() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("current_epoch_attestations", match $x.current_epoch_attestations() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("previous_epoch_participation", match $x.previous_epoch_participation() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("current_epoch_participation", match $x.current_epoch_participation() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("inactivity_scores", match $x.inactivity_scores() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("current_sync_committee", match $x.current_sync_committee() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("next_sync_committee", match $x.next_sync_committee() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("historical_summaries", match $x.historical_summaries() { Some(y) => Some(put(y)?), None => None }));
        $o.push(("next_withdrawal_index", match $x.next_withdrawal_index() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("next_withdrawal_validator_index", match $x.next_withdrawal_validator_index() { Some(y) => Some(put(&y)?), None => None }));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! state_mut {
    ($o:ident, $x:expr) => {{
        $o.push(("genesis_time", Some(put(&*$x.genesis_time_mut())?)));
        $o.push(("genesis_validators_root", Some(put(&*$x.genesis_validators_root_mut())?)));
        $o.push(("slot", Some(put(&*$x.slot_mut())?)));
        $o.push(("eth1_deposit_index", Some(put(&*$x.eth1_deposit_index_mut())?)));
        $o.push(("fork", Some(put(&*$x.fork_mut())?)));
        $o.push(("latest_block_header", Some(put(&*$x.latest_block_header_mut())?)));
        $o.push(("block_roots", Some(put(&*$x.block_roots_mut())?)));
        $o.push(("state_roots", Some(put(&*$x.state_roots_mut())?)));
        $o.push(("historical_roots", Some(put(&*$x.historical_roots_mut())?)));
        $o.push(("eth1_data", Some(put(&*$x.eth1_data_mut())?)));
        $o.push(("eth1_data_votes", Some(put(&*$x.eth1_data_votes_mut())?)));
        $o.push(("validators", Some(put(&*$x.validators_mut())?)));
        $o.push(("balances", Some(put(&*$x.balances_mut())?)));
        $o.push(("randao_mixes", Some(put(&*$x.randao_mixes_mut())?)));
        $o.push(("slashings", Some(put(&*$x.slashings_mut())?)));
        $o.push(("justification_bits", Some(put(&*$x.justification_bits_mut())?)));
        $o.push(("previous_justified_checkpoint", Some(put(&*$x.previous_justified_checkpoint_mut())?)));
        $o.push(("current_justified_checkpoint", Some(put(&*$x.current_justified_checkpoint_mut())?)));
        $o.push(("finalized_checkpoint", Some(put(&*$x.finalized_checkpoint_mut())?)));
        $o.push(("previous_epoch_attestations", match $x.previous_epoch_attestations_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("current_epoch_attestations", match $x.current_epoch_attestations_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("previous_epoch_participation", match $x.previous_epoch_participation_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("current_epoch_participation", match $x.current_epoch_participation_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("inactivity_scores", match $x.inactivity_scores_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("current_sync_committee", match $x.current_sync_committee_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("next_sync_committee", match $x.next_sync_committee_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("historical_summaries", match $x.historical_summaries_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("next_withdrawal_index", match $x.next_withdrawal_index_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("next_withdrawal_validator_index", match $x.next_withdrawal_validator_index_mut() { Some(y) => Some(put(&*y)?), None => None }));
        $o.push(("version", version!($x.version())));
    }};
}
macro_rules! five {
    ($o:ident, $x:expr) => {{
        let mut held = 0u8;
        if $x.phase0().is_some() {
            held |= 1 << 0;
        }
        if $x.altair().is_some() {
            held |= 1 << 1;
        }
        if $x.bellatrix().is_some() {
            held |= 1 << 2;
        }
        if $x.capella().is_some() {
            held |= 1 << 3;
        }
        if $x.deneb().is_some() {
            held |= 1 << 4;
        }
        $o.push(("forks held", Some(vec![held])));
    }};
}
macro_rules! five_mut {
    ($o:ident, $x:expr) => {{
        let mut held = 0u8;
        if $x.phase0_mut().is_some() {
            held |= 1 << 0;
        }
        if $x.altair_mut().is_some() {
            held |= 1 << 1;
        }
        if $x.bellatrix_mut().is_some() {
            held |= 1 << 2;
        }
        if $x.capella_mut().is_some() {
            held |= 1 << 3;
        }
        if $x.deneb_mut().is_some() {
            held |= 1 << 4;
        }
        $o.push(("forks held", Some(vec![held])));
    }};
}
macro_rules! three {
    ($o:ident, $x:expr) => {{
        let mut held = 0u8;
        if $x.bellatrix().is_some() {
            held |= 1 << 2;
        }
        if $x.capella().is_some() {
            held |= 1 << 3;
        }
        if $x.deneb().is_some() {
            held |= 1 << 4;
        }
        $o.push(("forks held", Some(vec![held])));
    }};
}
macro_rules! three_mut {
    ($o:ident, $x:expr) => {{
        let mut held = 0u8;
        if $x.bellatrix_mut().is_some() {
            held |= 1 << 2;
        }
        if $x.capella_mut().is_some() {
            held |= 1 << 3;
        }
        if $x.deneb_mut().is_some() {
            held |= 1 << 4;
        }
        $o.push(("forks held", Some(vec![held])));
    }};
}

/// the parts of a block as owned fork-spanning values
fn parts(x: &types::SignedBeaconBlock) -> (types::BeaconBlock, types::BeaconBlockBody, Option<types::ExecutionPayload>) {
    use types::{BeaconBlock as K, BeaconBlockBody as Y, ExecutionPayload as P, SignedBeaconBlock as X};
    match x {
        X::Phase0(b) => (K::Phase0(b.message.clone()), Y::Phase0(b.message.body.clone()), None),
        X::Altair(b) => (K::Altair(b.message.clone()), Y::Altair(b.message.body.clone()), None),
        X::Bellatrix(b) => (K::Bellatrix(b.message.clone()), Y::Bellatrix(b.message.body.clone()), Some(P::Bellatrix(b.message.body.execution_payload.clone()))),
        X::Capella(b) => (K::Capella(b.message.clone()), Y::Capella(b.message.body.clone()), Some(P::Capella(b.message.body.execution_payload.clone()))),
        X::Deneb(b) => (K::Deneb(b.message.clone()), Y::Deneb(b.message.body.clone()), Some(P::Deneb(b.message.body.execution_payload.clone()))),
    }
}
fn blinded_parts(x: &types::SignedBlindedBeaconBlock) -> (types::BlindedBeaconBlock, types::BlindedBeaconBlockBody, types::ExecutionPayloadHeader) {
    use types::{BlindedBeaconBlock as K, BlindedBeaconBlockBody as Y, ExecutionPayloadHeader as P, SignedBlindedBeaconBlock as X};
    match x {
        X::Bellatrix(b) => (K::Bellatrix(b.message.clone()), Y::Bellatrix(b.message.body.clone()), P::Bellatrix(b.message.body.execution_payload_header.clone())),
        X::Capella(b) => (K::Capella(b.message.clone()), Y::Capella(b.message.body.clone()), P::Capella(b.message.body.execution_payload_header.clone())),
        X::Deneb(b) => (K::Deneb(b.message.clone()), Y::Deneb(b.message.body.clone()), P::Deneb(b.message.body.execution_payload_header.clone())),
    }
}
/// names the type of a form by one at hand
fn like<T>(_: T, x: T) -> T {
    x
}
/// a part by itself through JSON: it is found to be of the fork it is of, and reads back as the same bytes
macro_rules! through_json {
    ($o:ident, $T:ident, $x:expr) => {{
        let x: &types::$T = $x;
        let y: types::$T = s(serde_json::from_str(&s(serde_json::to_string(x))?))?;
        let z: types::$T = s(serde_json::from_value(s(serde_json::to_value(x))?))?;
        for y in [&y, &z] {
            $o.push(("version", version!(y.version())));
            if y != x {
                return Err(format!("{} changed on its way through JSON", stringify!($T)));
            }
        }
    }};
}
fn block_view(x: &types::SignedBeaconBlock, view: u64) -> E<Facts> {
    let mut o = vec![];
    let mut x = x.clone();
    o.push(("version", version!(x.version())));
    if view % 2 == 0 {
        o.push(("signature", Some(put(x.signature())?)));
        five!(o, x);
    } else {
        o.push(("signature", Some(put(&*x.signature_mut())?)));
        five_mut!(o, x);
    }
    let (mut k, mut y, mut p) = parts(&x);
    match view {
        0 => {
            let m = x.message();
            block_get!(o, m);
            five!(o, m);
            let b = m.body();
            body_get!(o, b);
            five!(o, b);
            if let Some(p) = b.execution_payload() {
                payload_get!(o, p);
                three!(o, p);
            }
        }
        1 => {
            block_get!(o, k);
            five!(o, k);
            body_get!(o, y);
            five!(o, y);
            if let Some(p) = y.execution_payload() {
                payload_get!(o, p);
            }
            let b = k.body();
            body_get!(o, b);
            if let Some(p) = p {
                payload_get!(o, p);
                three!(o, p);
            }
        }
        2 => {
            block_mut!(o, k);
            five_mut!(o, k);
            body_mut!(o, y);
            five_mut!(o, y);
            if let Some(mut p) = y.execution_payload_mut() {
                payload_mut!(o, p);
                payload_get!(o, p);
            }
            let mut b = k.body_mut();
            body_mut!(o, b);
            if let Some(p) = &mut p {
                payload_mut!(o, p);
                three_mut!(o, p);
            }
        }
        3 => {
            let m = x.message_mut();
            block_get!(o, m);
            five!(o, m);
            let b = m.body();
            body_get!(o, b);
            if let Some(p) = b.execution_payload() {
                payload_get!(o, p);
            }
        }
        4 => {
            let mut m = x.message_mut();
            block_mut!(o, m);
            five_mut!(o, m);
            let mut b = m.body_mut();
            body_get!(o, b);
            body_mut!(o, b);
            five!(o, b);
            five_mut!(o, b);
            if let Some(p) = b.execution_payload() {
                payload_get!(o, p);
            }
            if let Some(mut p) = b.execution_payload_mut() {
                payload_mut!(o, p);
                payload_get!(o, p);
                three!(o, p);
                three_mut!(o, p);
            }
        }
        5 => {
            let mut z = x.clone();
            each!(&mut x, SignedBeaconBlock, b => {
                let mut c = b.message.clone();
                let m = like(z.message(), spanning::BeaconBlockRef::from(&b.message));
                block_get!(o, m);
                let t = z.message();
                let y = like(t.body(), spanning::BeaconBlockBodyRef::from(&b.message.body));
                body_get!(o, y);
                let mut m = like(z.message_mut(), spanning::BeaconBlockRefMut::from(&mut b.message));
                block_mut!(o, m);
                let mut t = z.message_mut();
                let mut y = like(t.body_mut(), spanning::BeaconBlockBodyRefMut::from(&mut c.body));
                body_mut!(o, y);
            })
        }
        _ => {
            through_json!(o, BeaconBlock, &k);
            through_json!(o, BeaconBlockBody, &y);
            if let Some(p) = &p {
                through_json!(o, ExecutionPayload, p);
            }
        }
    }
    Ok(o)
}
fn blinded_view(x: &types::SignedBlindedBeaconBlock, view: u64) -> E<Facts> {
    let mut o = vec![];
    let mut x = x.clone();
    o.push(("version", version!(x.version())));
    if view % 2 == 0 {
        o.push(("signature", Some(put(x.signature())?)));
        three!(o, x);
    } else {
        o.push(("signature", Some(put(&*x.signature_mut())?)));
        three_mut!(o, x);
    }
    let (mut k, mut y, mut p) = blinded_parts(&x);
    match view {
        0 => {
            let m = x.message();
            block_get!(o, m);
            three!(o, m);
            let b = m.body();
            blinded_body_get!(o, b);
            three!(o, b);
            let h = b.execution_payload_header();
            header_get!(o, h);
            three!(o, h);
        }
        1 => {
            block_get!(o, k);
            three!(o, k);
            let b = k.body();
            blinded_body_get!(o, b);
            blinded_body_get!(o, y);
            three!(o, y);
            let h = y.execution_payload_header();
            header_get!(o, h);
            header_get!(o, p);
            three!(o, p);
        }
        2 => {
            block_mut!(o, k);
            three_mut!(o, k);
            let mut b = k.body_mut();
            blinded_body_mut!(o, b);
            blinded_body_mut!(o, y);
            three_mut!(o, y);
            let mut h = y.execution_payload_header_mut();
            header_mut!(o, h);
            header_mut!(o, p);
            three_mut!(o, p);
        }
        3 => {
            let m = x.message_mut();
            block_get!(o, m);
            three!(o, m);
            let b = m.body();
            blinded_body_get!(o, b);
            let h = b.execution_payload_header();
            header_get!(o, h);
        }
        4 => {
            let mut m = x.message_mut();
            block_mut!(o, m);
            three_mut!(o, m);
            let mut b = m.body_mut();
            blinded_body_get!(o, b);
            blinded_body_mut!(o, b);
            three!(o, b);
            three_mut!(o, b);
            let h = b.execution_payload_header();
            header_get!(o, h);
            let mut h = b.execution_payload_header_mut();
            header_get!(o, h);
            header_mut!(o, h);
            three!(o, h);
            three_mut!(o, h);
        }
        5 => {
            let mut z = x.clone();
            each3!(&mut x, SignedBlindedBeaconBlock, b => {
                let mut c = b.message.clone();
                let mut g = b.message.body.execution_payload_header.clone();
                let m = like(z.message(), spanning::BlindedBeaconBlockRef::from(&b.message));
                block_get!(o, m);
                let t = z.message();
                let y = like(t.body(), spanning::BlindedBeaconBlockBodyRef::from(&b.message.body));
                blinded_body_get!(o, y);
                let t = t.body();
                let h = like(t.execution_payload_header(), spanning::ExecutionPayloadHeaderRef::from(&b.message.body.execution_payload_header));
                header_get!(o, h);
                let mut m = like(z.message_mut(), spanning::BlindedBeaconBlockRefMut::from(&mut b.message));
                block_mut!(o, m);
                let mut t = z.message_mut();
                let mut y = like(t.body_mut(), spanning::BlindedBeaconBlockBodyRefMut::from(&mut c.body));
                blinded_body_mut!(o, y);
                let mut t = z.message_mut();
                let mut t = t.body_mut();
                let mut h = like(t.execution_payload_header_mut(), spanning::ExecutionPayloadHeaderRefMut::from(&mut g));
                header_mut!(o, h);
            })
        }
        _ => {
            through_json!(o, BlindedBeaconBlock, &k);
            through_json!(o, BlindedBeaconBlockBody, &y);
            through_json!(o, ExecutionPayloadHeader, &p);
        }
    }
    Ok(o)
}
macro_rules! head_of {
    ($o:ident, $h:expr, $m:ident) => {
        let head = match $h {
            #[allow(unused_mut)]
            Some(mut h) => {
                let mut o: Facts = vec![];
                $m!(o, h);
                $o.extend(o.iter().find(|x| x.0 == "version").cloned());
                Some(header_order(o))
            }
            None => None,
        };
        $o.push(("latest_execution_payload_header", head));
    };
}
type Sort<T> = std::marker::PhantomData<T>;
#[rustfmt::skip]
fn state_ref<'a, const NA: usize, const NB: usize, const NC: usize, const ND: usize, const NE: usize, const NF: usize, const NG: usize, const NH: usize, const NI: usize, const NJ: usize, const NK: usize>(_: Sort<spanning::BeaconState<NA, NB, NC, ND, NE, NF, NG, NH, NI, NJ, NK>>, x: spanning::BeaconStateRef<'a, NA, NB, NC, ND, NE, NF, NG, NH, NI, NJ, NK>) -> spanning::BeaconStateRef<'a, NA, NB, NC, ND, NE, NF, NG, NH, NI, NJ, NK> {
    x
}
#[rustfmt::skip]
fn state_mut<'a, const NA: usize, const NB: usize, const NC: usize, const ND: usize, const NE: usize, const NF: usize, const NG: usize, const NH: usize, const NI: usize, const NJ: usize, const NK: usize>(_: Sort<spanning::BeaconState<NA, NB, NC, ND, NE, NF, NG, NH, NI, NJ, NK>>, x: spanning::BeaconStateRefMut<'a, NA, NB, NC, ND, NE, NF, NG, NH, NI, NJ, NK>) -> spanning::BeaconStateRefMut<'a, NA, NB, NC, ND, NE, NF, NG, NH, NI, NJ, NK> {
    x
}
fn state_view(x: &mut types::BeaconState, view: u64) -> E<Facts> {
    let mut o = vec![];
    match view {
        0 | 1 => {
            state_get!(o, x);
            five!(o, x);
            head_of!(o, x.latest_execution_payload_header(), header_get);
        }
        2 | 3 => {
            state_mut!(o, x);
            five_mut!(o, x);
            head_of!(o, x.latest_execution_payload_header_mut(), header_mut);
        }
        4 => each!(x, BeaconState, x => {
            let x = state_ref(std::marker::PhantomData::<types::BeaconState>, spanning::BeaconStateRef::from(&*x));
            state_get!(o, x);
            five!(o, x);
            head_of!(o, x.latest_execution_payload_header(), header_get);
        }),
        5 => each!(x, BeaconState, x => {
            let x = state_mut(std::marker::PhantomData::<types::BeaconState>, spanning::BeaconStateRefMut::from(x));
            state_get!(o, x);
            five!(o, x);
            head_of!(o, x.latest_execution_payload_header(), header_get);
        }),
        _ => each!(x, BeaconState, x => {
            let mut x = state_mut(std::marker::PhantomData::<types::BeaconState>, spanning::BeaconStateRefMut::from(x));
            state_mut!(o, x);
            five_mut!(o, x);
            head_of!(o, x.latest_execution_payload_header_mut(), header_mut);
        }),
    }
    Ok(o)
}

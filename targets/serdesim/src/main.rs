//! S01: JSON decoding and encoding of every consensus and API type under fragmented, interrupted,
//! escaped, truncated and damaged delivery.
mod json;

use ethereum_consensus::{self as ec, ssz::prelude as sp};
use json::{Style, J};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use simkit::{guard, Rng, Sim, Target};
use std::{
    io::{self, Read, Write},
    sync::OnceLock,
};

// ------------------------------------------------------------------ the simulated I/O

#[derive(Clone, Debug, Default)]
struct Net {
    seed: u64,
    /// largest fragment a read or write moves
    max: usize,
    interrupts: bool,
    /// fail with this error after so many bytes
    fail_at: Option<(usize, io::ErrorKind)>,
}
struct SimReader {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    net: Net,
    last_interrupted: bool,
}
impl SimReader {
    fn new(data: &[u8], net: &Net) -> Self {
        Self { data: data.to_vec(), pos: 0, rng: Rng::new(net.seed), net: net.clone(), last_interrupted: false }
    }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.net.interrupts && !self.last_interrupted && self.rng.below(8) == 0 {
            self.last_interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.last_interrupted = false;
        let mut end = self.data.len();
        if let Some((at, kind)) = self.net.fail_at {
            if self.pos >= at {
                return Err(kind.into());
            }
            end = end.min(at);
        }
        let n = buf.len().min(end - self.pos).min(1 + self.rng.below(self.net.max as u64) as usize);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct SimWriter {
    out: Vec<u8>,
    rng: Rng,
    net: Net,
    last_interrupted: bool,
}
impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.net.interrupts && !self.last_interrupted && self.rng.below(8) == 0 {
            self.last_interrupted = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        self.last_interrupted = false;
        let mut n = buf.len().min(1 + self.rng.below(self.net.max as u64) as usize);
        if let Some((at, kind)) = self.net.fail_at {
            if self.out.len() >= at {
                return Err(kind.into());
            }
            n = n.min(at - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ the types

enum Source<'a> {
    Slice(&'a [u8]),
    Str(&'a str),
    Reader(SimReader),
    Buffered(SimReader),
    Tree(&'a str),
    Ssz(&'a [u8]),
}
struct Decoded {
    json: String,
    tree: String,
    ssz: Option<Vec<u8>>,
}
type Dec = fn(Source, bool) -> Result<Decoded, String>;
struct Entry {
    name: String,
    template: String,
    dec: Dec,
    enc: fn(&[u8], &mut SimWriter) -> Result<(), String>,
    stream: fn(SimReader) -> Vec<Result<String, String>>,
    /// one of several shapes: a damaged document may still be another shape
    untagged: bool,
    ssz: bool,
    minimal: bool,
}

fn dec_any<T: Serialize + DeserializeOwned>(s: Source) -> Result<T, String> {
    match s {
        Source::Slice(b) => serde_json::from_slice(b).map_err(|e| e.to_string()),
        Source::Str(b) => serde_json::from_str(b).map_err(|e| e.to_string()),
        Source::Reader(r) => serde_json::from_reader(r).map_err(|e| e.to_string()),
        Source::Buffered(r) => serde_json::from_reader(io::BufReader::with_capacity(61, r)).map_err(|e| e.to_string()),
        Source::Tree(b) => {
            let v: serde_json::Value = serde_json::from_str(b).map_err(|e| e.to_string())?;
            serde_json::from_value(v).map_err(|e| e.to_string())
        }
        Source::Ssz(_) => unreachable!(),
    }
}
fn out<T: Serialize>(v: &T, tree: bool, ssz: Option<Vec<u8>>) -> Result<Decoded, String> {
    Ok(Decoded {
        json: serde_json::to_string(v).map_err(|e| format!("encode: {e}"))?,
        tree: if tree { serde_json::to_value(v).map_err(|e| format!("encode: {e}"))?.to_string() } else { String::new() },
        ssz,
    })
}
fn dec_plain<T: Serialize + DeserializeOwned>(s: Source, tree: bool) -> Result<Decoded, String> {
    let v = dec_any::<T>(s)?;
    out(&v, tree, None)
}
fn dec_ssz<T: Serialize + DeserializeOwned + sp::Serializable>(s: Source, tree: bool) -> Result<Decoded, String> {
    let v = match s {
        Source::Ssz(b) => sp::deserialize::<T>(b).map_err(|e| format!("{e:?}"))?,
        s => dec_any::<T>(s)?,
    };
    let b = sp::serialize(&v).map_err(|e| format!("{e:?}"))?;
    out(&v, tree, Some(b))
}
fn enc<T: Serialize + DeserializeOwned>(b: &[u8], w: &mut SimWriter) -> Result<(), String> {
    let v: T = serde_json::from_slice(b).map_err(|e| e.to_string())?;
    serde_json::to_writer(w, &v).map_err(|e| e.to_string())
}
fn stream<T: Serialize + DeserializeOwned>(r: SimReader) -> Vec<Result<String, String>> {
    let mut res = vec![];
    for v in serde_json::Deserializer::from_reader(r).into_iter::<T>() {
        match v {
            Ok(v) => res.push(serde_json::to_string(&v).map_err(|e| e.to_string())),
            Err(e) => {
                res.push(Err(e.to_string()));
                break;
            }
        }
    }
    res
}

/// every way a type can use the encoding helpers directly
#[derive(Serialize, Deserialize, Default)]
struct Raw {
    #[serde(with = "ec::serde::as_hex")]
    raw_bytes: ec::ssz::prelude::ByteList<4096>,
    #[serde(with = "ec::serde::as_hex")]
    raw_version: ec::primitives::Version,
    #[serde(with = "ec::serde::as_str")]
    raw_u64: u64,
    #[serde(with = "ec::serde::as_str")]
    raw_u8: u8,
    #[serde(with = "ec::serde::as_str")]
    raw_u16: u16,
    #[serde(with = "ec::serde::as_str")]
    raw_u128: u128,
    #[serde(with = "ec::serde::as_str")]
    raw_i64: i64,
    #[serde(with = "ec::serde::seq_of_str")]
    raw_seq: Vec<u64>,
    #[serde(with = "ec::serde::seq_of_str")]
    raw_seq_u8: Vec<u8>,
    #[serde(with = "ec::serde::seq_of_str")]
    raw_seq_u128: Vec<u128>,
    #[serde(with = "ec::serde::seq_of_str")]
    raw_list: sp::List<u64, 9000>,
    #[serde(with = "ec::serde::seq_of_str")]
    raw_vector: sp::Vector<u64, 6>,
    #[serde(with = "ec::serde::seq_of_str")]
    raw_words: Vec<String>,
}

#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum Either {
    First { #[serde(with = "ec::serde::seq_of_str")] raw_seq: Vec<u64>, #[serde(with = "ec::serde::as_hex")] raw_version: [u8; 4], #[serde(with = "ec::serde::as_str")] raw_u64: u64 },
    Second { #[serde(with = "ec::serde::as_str")] other: u64 },
}
#[derive(Serialize, Deserialize, Default)]
struct Flat {
    #[serde(flatten)]
    raw: Raw,
    #[serde(with = "ec::serde::as_str")]
    extra: u64,
}

fn entries() -> &'static Vec<Entry> {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<Entry> = vec![];
        fn dflt<T: Serialize + Default>() -> String {
            guard(|| serde_json::to_string(&T::default()).unwrap_or_default()).unwrap_or_default()
        }
        macro_rules! plain {
            ($($t:ty),* $(,)?) => { $( v.push(Entry { name: stringify!($t).replace(' ', ""), template: dflt::<$t>(), dec: dec_plain::<$t>, enc: enc::<$t>, stream: stream::<$t>, untagged: false, ssz: false, minimal: true }); )* };
        }
        macro_rules! lit {
            ($($t:ty => $j:expr),* $(,)?) => { $( v.push(Entry { name: stringify!($t).replace(' ', ""), template: $j.to_string(), dec: dec_plain::<$t>, enc: enc::<$t>, stream: stream::<$t>, untagged: false, ssz: false, minimal: true }); )* };
        }
        macro_rules! ssz {
            ($min:expr; $($t:ty),* $(,)?) => { $( v.push(Entry { name: stringify!($t).replace(' ', ""), template: dflt::<$t>(), dec: dec_ssz::<$t>, enc: enc::<$t>, stream: stream::<$t>, untagged: false, ssz: true, minimal: $min }); )* };
        }
        macro_rules! multi {
            ($min:expr; $($t:ty, $inner:ty);* $(;)?) => { $( v.push(Entry { name: format!("{}<{}>", stringify!($t).replace(' ', ""), stringify!($inner).replace(' ', "")), template: dflt::<$inner>(), dec: dec_plain::<$t>, enc: enc::<$t>, stream: stream::<$t>, untagged: true, ssz: false, minimal: $min }); )* };
        }
        plain!(Raw, Flat, Raw, Flat);
        v.push(Entry {
            name: "Either".into(),
            template: r#"{"raw_seq":[],"raw_version":"0x00000000","raw_u64":"0"}"#.into(),
            dec: dec_plain::<Either>, enc: enc::<Either>, stream: stream::<Either>, untagged: true, ssz: false, minimal: true,
        });
        use ec::{altair, bellatrix, builder, capella, deneb, electra, phase0, primitives};
        ssz!(true; primitives::Bytes32, primitives::ExecutionAddress, primitives::BlsPublicKey, primitives::BlsSignature,
            ec::crypto::KzgCommitment, ec::crypto::KzgProof,
            phase0::Checkpoint, phase0::AttestationData, phase0::Eth1Data, phase0::ForkData, phase0::Fork, phase0::Validator,
            phase0::BeaconBlockHeader, phase0::SignedBeaconBlockHeader, phase0::VoluntaryExit,
            phase0::SignedVoluntaryExit, phase0::ProposerSlashing, phase0::DepositMessage, phase0::DepositData, phase0::Deposit,
            phase0::validator::Eth1Block,
            altair::SyncAggregatorSelectionData, capella::Withdrawal, capella::BlsToExecutionChange,
            capella::SignedBlsToExecutionChange, capella::HistoricalSummary, deneb::BlobIdentifier,
            electra::DepositReceipt, electra::ExecutionLayerWithdrawalRequest, electra::PendingBalanceDeposit,
            electra::PendingPartialWithdrawal, electra::PendingConsolidation, electra::Consolidation, electra::SignedConsolidation,
            builder::ValidatorRegistration, builder::SignedValidatorRegistration);
        macro_rules! preset {
            ($p:ident, $min:expr) => {
                ssz!($min; phase0::$p::IndexedAttestation, phase0::$p::Attestation, phase0::$p::PendingAttestation,
                    phase0::$p::AttesterSlashing, phase0::$p::BeaconBlockBody, phase0::$p::SignedBeaconBlock,
                    phase0::$p::SignedAggregateAndProof, phase0::$p::HistoricalBatch,
                    altair::$p::SyncAggregate, altair::$p::SyncCommittee, altair::$p::SignedBeaconBlock,
                    altair::$p::SignedContributionAndProof, altair::$p::LightClientUpdate, altair::$p::LightClientBootstrap,
                    bellatrix::$p::ExecutionPayload, bellatrix::$p::ExecutionPayloadHeader, bellatrix::$p::SignedBeaconBlock,
                    bellatrix::$p::SignedBlindedBeaconBlock,
                    capella::$p::ExecutionPayload, capella::$p::ExecutionPayloadHeader, capella::$p::SignedBeaconBlock,
                    capella::$p::SignedBlindedBeaconBlock, capella::$p::LightClientFinalityUpdate,
                    deneb::$p::ExecutionPayload, deneb::$p::ExecutionPayloadHeader, deneb::$p::SignedBeaconBlock,
                    deneb::$p::SignedBlindedBeaconBlock, deneb::$p::LightClientOptimisticUpdate, deneb::$p::BlobSidecar);
                multi!($min;
                    ec::types::$p::SignedBeaconBlock, phase0::$p::SignedBeaconBlock;
                    ec::types::$p::SignedBeaconBlock, altair::$p::SignedBeaconBlock;
                    ec::types::$p::SignedBeaconBlock, bellatrix::$p::SignedBeaconBlock;
                    ec::types::$p::SignedBeaconBlock, capella::$p::SignedBeaconBlock;
                    ec::types::$p::SignedBeaconBlock, deneb::$p::SignedBeaconBlock;
                    ec::types::$p::SignedBlindedBeaconBlock, deneb::$p::SignedBlindedBeaconBlock;
                    ec::types::$p::SignedBlindedBeaconBlock, bellatrix::$p::SignedBlindedBeaconBlock;
                    ec::types::$p::ExecutionPayload, capella::$p::ExecutionPayload;
                    ec::types::$p::ExecutionPayloadHeader, deneb::$p::ExecutionPayloadHeader;
                );
            };
        }
        preset!(minimal, true);
        preset!(mainnet, false);
        ssz!(true; phase0::minimal::BeaconState, altair::minimal::BeaconState, bellatrix::minimal::BeaconState, capella::minimal::BeaconState, deneb::minimal::BeaconState);
        multi!(true;
            ec::types::minimal::BeaconState, phase0::minimal::BeaconState;
            ec::types::minimal::BeaconState, altair::minimal::BeaconState;
            ec::types::minimal::BeaconState, bellatrix::minimal::BeaconState;
            ec::types::minimal::BeaconState, capella::minimal::BeaconState;
            ec::types::minimal::BeaconState, deneb::minimal::BeaconState;
        );
        use beacon_api_client as api;
        let h32 = format!("0x{}", "00".repeat(32));
        let h20 = format!("0x{}", "00".repeat(20));
        let h48 = format!("0x{}", "00".repeat(48));
        lit!(
            primitives::Coordinate => format!(r#"{{"slot":"0","root":"{h32}"}}"#),
            api::DepositContract => format!(r#"{{"chain_id":"0","address":"{h20}"}}"#),
            api::DepositSnapshot => format!(r#"{{"finalized":[],"deposit_root":"{h32}","deposit_count":"0","execution_block_hash":"{h32}","execution_block_height":"0"}}"#),
            api::GenesisDetails => format!(r#"{{"genesis_time":"0","genesis_validators_root":"{h32}","genesis_fork_version":"0x00000000"}}"#),
            api::Value<api::GenesisDetails> => format!(r#"{{"data":{{"genesis_time":"0","genesis_validators_root":"{h32}","genesis_fork_version":"0x00000000"}}}}"#),
            api::RootData => format!(r#"{{"root":"{h32}"}}"#),
            api::FinalityCheckpoints => format!(r#"{{"previous_justified":{{"epoch":"0","root":"{h32}"}},"current_justified":{{"epoch":"0","root":"{h32}"}},"finalized":{{"epoch":"0","root":"{h32}"}}}}"#),
            api::BalanceSummary => r#"{"index":"0","balance":"0"}"#,
            api::ValidatorSummary => format!(r#"{{"index":"0","balance":"0","status":"active_ongoing","validator":{}}}"#, dflt::<phase0::Validator>()),
            api::CommitteeSummary => r#"{"index":"0","slot":"0","validators":[]}"#,
            api::Value<Vec<api::CommitteeSummary>> => r#"{"data":[{"index":"0","slot":"0","validators":[]},{"index":"0","slot":"0","validators":[]}]}"#,
            api::SyncCommitteeSummary => r#"{"validators":[],"validator_aggregates":[]}"#,
            api::BeaconHeaderSummary => format!(r#"{{"root":"{h32}","canonical":true,"header":{}}}"#, dflt::<phase0::SignedBeaconBlockHeader>()),
            api::PayloadAttributesEvent => format!(r#"{{"proposer_index":"0","proposal_slot":"0","parent_block_number":"0","parent_block_root":"{h32}","parent_block_hash":"{h32}","payload_attributes":{{"timestamp":"0","prev_randao":"{h32}","suggested_fee_recipient":"{h20}","withdrawals":[],"parent_beacon_block_root":"{h32}"}}}}"#),
            api::PeerDescriptor => r#"{"state":"connected","direction":"inbound"}"#,
            api::PeerSummary => r#"{"disconnected":"0","connecting":"0","connected":"0","disconnecting":"0"}"#,
            api::SyncStatus => r#"{"head_slot":"0","sync_distance":"0","is_syncing":false}"#,
            api::AttestationDuty => format!(r#"{{"pubkey":"{h48}","validator_index":"0","committee_index":"0","committee_length":"0","committees_at_slot":"0","validator_committee_index":"0","slot":"0"}}"#),
            api::ProposerDuty => format!(r#"{{"pubkey":"{h48}","validator_index":"0","slot":"0"}}"#),
            api::SyncCommitteeDuty => format!(r#"{{"pubkey":"{h48}","validator_index":"0","validator_sync_committee_indices":[]}}"#),
            api::CommitteeDescriptor => r#"{"validator_index":"0","committee_index":"0","committees_at_slot":"0","slot":"0","is_aggregator":false}"#,
            api::SyncCommitteeDescriptor => r#"{"validator_index":"0","sync_committee_indices":[],"until_epoch":"0"}"#,
            api::BeaconProposerRegistration => format!(r#"{{"validator_index":"0","fee_recipient":"{h20}"}}"#),
            api::ValidatorLiveness => r#"{"index":"0","is_live":false}"#,
            api::VersionedValue<phase0::Checkpoint> => format!(r#"{{"version":"deneb","data":{{"epoch":"0","root":"{h32}"}}}}"#),
            api::VersionedValue<ec::types::minimal::SignedBeaconBlock> => format!(r#"{{"version":"deneb","data":{}}}"#, dflt::<deneb::minimal::SignedBeaconBlock>()),
        );
        // the last two carry an untagged part or an optional part
        for e in &mut v {
            if e.name.contains("VersionedValue") || e.name.contains("PayloadAttributesEvent") {
                e.untagged = true;
            }
        }
        v
    })
}

/// the element of a list, by the name of its field
fn element(ty: &str, key: &str) -> Option<&'static str> {
    static T: OnceLock<std::collections::HashMap<&'static str, String>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let mut m = std::collections::HashMap::new();
        let find = |n: &str| entries().iter().find(|e| e.name == n).map(|e| e.template.clone()).unwrap_or_default();
        for (k, n) in [
            ("proposer_slashings", "phase0::ProposerSlashing"),
            ("attester_slashings", "phase0::minimal::AttesterSlashing"),
            ("attestations", "phase0::minimal::Attestation"),
            ("previous_epoch_attestations", "phase0::minimal::PendingAttestation"),
            ("current_epoch_attestations", "phase0::minimal::PendingAttestation"),
            ("deposits", "phase0::Deposit"),
            ("voluntary_exits", "phase0::SignedVoluntaryExit"),
            ("bls_to_execution_changes", "capella::SignedBlsToExecutionChange"),
            ("validators", "phase0::Validator"),
            ("withdrawals", "capella::Withdrawal"),
            ("historical_summaries", "capella::HistoricalSummary"),
            ("eth1_data_votes", "phase0::Eth1Data"),
        ] {
            m.insert(k, find(n));
        }
        for k in ["balances", "inactivity_scores", "attesting_indices", "validator_sync_committee_indices", "sync_committee_indices", "raw_seq", "raw_list", "raw_seq_u8", "raw_seq_u128", "previous_epoch_participation", "current_epoch_participation"] {
            m.insert(k, "\"0\"".into());
        }
        m.insert("raw_words", "\"w\"".into());
        m.insert("validator_aggregates", "[\"0\",\"0\"]".into());
        m.insert("transactions", "\"0x\"".into());
        for k in ["historical_roots", "finalized"] {
            m.insert(k, format!("\"0x{}\"", "00".repeat(32)));
        }
        m.insert("blob_kzg_commitments", format!("\"0x{}\"", "00".repeat(48)));
        m
    });
    let k = if key == "validators" && (ty.contains("Committee")) { "raw_seq" } else { key };
    t.get(k).map(|s| s.as_str()).filter(|s| !s.is_empty())
}
fn limit(ty: &str, minimal: bool, key: &str) -> Option<usize> {
    if key == "attesting_indices" {
        return Some(2048);
    }
    if !ty.contains("Block") {
        return if key == "raw_list" && !ty.contains("Either") { Some(9000) } else { None };
    }
    Some(match key {
        "proposer_slashings" | "deposits" | "voluntary_exits" | "bls_to_execution_changes" => 16,
        "attester_slashings" => 2,
        "attestations" => 128,
        "withdrawals" => if minimal { 4 } else { 16 },
        _ => return None,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Leaf {
    Int(u32, bool),
    U256,
    Hex(usize),
    Bytes(usize),
    Bitlist,
    Bits4,
    Word,
    Skip,
}
fn leaf(ty: &str, key: &str, s: &str) -> Leaf {
    match key {
        "base_fee_per_gas" | "value" => return Leaf::U256,
        "raw_u8" | "raw_seq_u8" | "previous_epoch_participation" | "current_epoch_participation" => return Leaf::Int(8, false),
        "raw_u16" => return Leaf::Int(16, false),
        "raw_u128" | "raw_seq_u128" => return Leaf::Int(128, false),
        "raw_i64" => return Leaf::Int(64, true),
        "raw_words" => return Leaf::Word,
        "extra_data" => return Leaf::Bytes(32),
        "raw_bytes" => return Leaf::Bytes(4096),
        "transactions" => return Leaf::Bytes(1 << 30),
        "justification_bits" => return Leaf::Bits4,
        "aggregation_bits" if !ty.contains("Contribution") => return Leaf::Bitlist,
        _ => {}
    }
    if let Some(h) = s.strip_prefix("0x") {
        return Leaf::Hex(h.len() / 2);
    }
    if !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()) {
        return Leaf::Int(64, false);
    }
    Leaf::Skip
}
fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 + 2 * b.len());
    s.push_str("0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
fn dec256(b: &[u8; 32]) -> String {
    // big-endian bytes to decimal
    let mut d = b.to_vec();
    let mut o = vec![];
    while d.iter().any(|x| *x != 0) {
        let mut r = 0u32;
        for x in d.iter_mut() {
            let c = (r << 8) | *x as u32;
            *x = (c / 10) as u8;
            r = c % 10;
        }
        o.push(b'0' + r as u8);
    }
    if o.is_empty() {
        o.push(b'0');
    }
    o.reverse();
    String::from_utf8(o).unwrap()
}
/// one value of a leaf, from a generator derived from the run's choices
fn value(k: Leaf, r: &mut Rng) -> Option<String> {
    let bytes = |r: &mut Rng, n: usize| {
        let fill = r.below(6);
        (0..n).map(|_| match fill { 0 => 0, 1 => 255, 2 => r.below(16) as u8, _ => r.next() as u8 }).collect::<Vec<u8>>()
    };
    Some(match k {
        Leaf::Int(bits, signed) => {
            let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
            let v = match r.below(6) {
                0 => 0,
                1 => max,
                2 => max >> r.below(bits as u64),
                3 => r.below(300) as u128,
                4 => ((r.next() as u128) << 64 | r.next() as u128) & max,
                _ => ((r.next() as u128) << 64 | r.next() as u128) & max >> r.below(bits as u64),
            } & max;
            if signed {
                format!("{}", v as u64 as i64)
            } else {
                format!("{v}")
            }
        }
        Leaf::U256 => {
            let mut b = [0u8; 32];
            let n = r.below(33) as usize;
            for x in b[32 - n..].iter_mut() {
                *x = r.next() as u8;
            }
            dec256(&b)
        }
        Leaf::Hex(n) => hex(&bytes(r, n)),
        Leaf::Bytes(max) => {
            let cap = if r.below(8) == 0 { 5000 } else { 40 };
            let n = r.below(max.min(cap) as u64 + 1) as usize;
            hex(&bytes(r, n))
        }
        Leaf::Bitlist => {
            let n = if r.below(10) == 0 { 2048 } else { r.below(70) as usize };
            let mut b = bytes(r, n / 8 + 1);
            let last = b.len() - 1;
            b[last] &= (1u16 << (n % 8)) as u8 - 1;
            b[last] |= 1 << (n % 8);
            hex(&b)
        }
        Leaf::Bits4 => hex(&[r.below(16) as u8]),
        Leaf::Word => {
            const C: &[u8] = b"abzAZ09 _-\"\\/:{}[],";
            let mut s: String = (0..r.below(12)).map(|_| C[r.below(C.len() as u64) as usize] as char).collect();
            if r.below(5) == 0 {
                s.push_str("é漢😀");
            }
            s
        }
        Leaf::Skip => return None,
    })
}

fn grow(j: &mut J, ty: &str, key: &str, r: &mut Rng, big: bool, minimal: bool) {
    match j {
        J::Arr(v) if v.is_empty() => {
            if let Some(e) = element(ty, key) {
                let mut n = match r.below(5) {
                    0 => 0,
                    1 => 1,
                    2 => 2,
                    _ => r.below(5) as usize,
                };
                let simple = e.len() < 8;
                if big && simple && r.below(3) == 0 {
                    n = [63, 64, 65, 1023, 1024, 1025, 4096, 5000][r.below(8) as usize];
                }
                if let Some(l) = limit(ty, minimal, key) {
                    n = n.min(l);
                    if l < 20 && r.below(6) == 0 {
                        n = l;
                    }
                }
                let e = J::parse(e).unwrap();
                for _ in 0..n {
                    let mut e = e.clone();
                    grow(&mut e, ty, key, r, false, minimal);
                    v.push(e);
                }
            }
        }
        J::Arr(v) => v.iter_mut().for_each(|x| grow(x, ty, key, r, big, minimal)),
        J::Obj(v) => v.iter_mut().for_each(|(k, x)| {
            let k = k.clone();
            grow(x, ty, &k, r, big, minimal)
        }),
        J::Str(s) => {
            if let Some(n) = value(leaf(ty, key, s), r) {
                *s = n;
            }
        }
        J::Bool(b) => *b = r.below(2) == 1,
        _ => {}
    }
}

/// the tree's fields as bytes, if every field has a fixed size
fn fixed_bytes(ty: &str, j: &J, key: &str, o: &mut Vec<u8>) -> bool {
    match j {
        J::Obj(v) => v.iter().all(|(k, x)| fixed_bytes(ty, x, k, o)),
        J::Arr(_) if key != "branch" && key != "proof" => false,
        J::Arr(v) => v.iter().all(|x| fixed_bytes(ty, x, key, o)),
        J::Bool(b) => {
            o.push(*b as u8);
            true
        }
        J::Str(s) => match leaf(ty, key, s) {
            Leaf::Hex(_) if s.starts_with("0x") && key != "aggregation_bits" => {
                for i in (2..s.len()).step_by(2) {
                    o.push(u8::from_str_radix(&s[i..i + 2], 16).unwrap());
                }
                true
            }
            Leaf::Int(64, false) => {
                o.extend_from_slice(&s.parse::<u64>().unwrap().to_le_bytes());
                true
            }
            _ => false,
        },
        _ => false,
    }
}

/// the API's conventions: integers quoted, bytes 0x-prefixed lower-case hex
fn conventions(e: &Entry, j: &J) -> Option<String> {
    let mut bad = None;
    // never sent over the API
    if e.name.ends_with("Eth1Block") || e.name.ends_with("SelectionData") {
        return None;
    }
    j.walk(&mut vec![], "", &mut |_, k, x| match x {
        J::Num(n) => bad = Some(format!("{k}: bare number {n}")),
        J::Str(s) if s.starts_with("0x") && k != "raw_words" => {
            if s.len() % 2 != 0 || !s[2..].bytes().all(|c| matches!(c, b'0'..=b'9' | b'a'..=b'f')) {
                bad = Some(format!("{k}: {s}"));
            }
        }
        _ => {}
    });
    bad
}

fn short(s: &str) -> String {
    if s.len() <= 160 {
        s.into()
    } else {
        let a: String = s.chars().take(120).collect();
        format!("{a}… ({} bytes)", s.len())
    }
}

fn net(sim: &mut Sim, len: usize) -> Net {
    let max = *sim.pick(&[1usize << 20, 1, 2, 7, 64, 4096]);
    let interrupts = sim.fault("interrupted_io", 1, 3);
    if max < len {
        sim.count_fault("fragmented_io");
    }
    Net { seed: sim.choose(1 << 32), max, interrupts, fail_at: None }
}

fn must_refuse(sim: &mut Sim, e: &Entry, doc: &J) -> Option<(String, J)> {
    // collect the places a damage can go
    let mut spots: Vec<(Vec<usize>, String, J)> = vec![];
    doc.walk(&mut vec![], "", &mut |p, k, x| {
        if spots.len() < 4000 {
            spots.push((p.to_vec(), k.to_string(), if matches!(x, J::Str(_)) { x.clone() } else { J::Null }));
        }
    });
    let i = sim.choose(spots.len() as u64) as usize;
    let (path, key, _) = spots[i].clone();
    let mut d = doc.clone();
    let node = d.at(&path);
    let what;
    match node {
        J::Str(s) => match leaf(&e.name, &key, &if s.is_empty() { "x".into() } else { s.clone() }) {
            Leaf::Int(bits, signed) => {
                let over = match bits {
                    8 => "256".to_string(),
                    16 => "65536".into(),
                    128 => "340282366920938463463374607431768211456".into(),
                    _ if signed => "9223372036854775808".into(),
                    _ => "18446744073709551616".into(),
                };
                let minus = if signed { "--1".to_string() } else { "-1".into() };
                let bad = [over, minus, "".into(), "1.5".into(), "0x10".into(), " 5".into(), "5 ".into(), "1e3".into(), "five".into(), format!("{s}x"), "99999999999999999999999999999999999999999999".into(), "1_000".into(), "1,0".into()];
                *s = sim.pick(&bad).clone();
                what = format!("integer {key} set to {s:?}");
            }
            Leaf::Hex(n) if n > 0 && s.starts_with("0x") => {
                let i = 2 + sim.choose(2 * n as u64) as usize;
                match sim.choose(6) {
                    0 => s.truncate(s.len() - 1),
                    1 => s.truncate(s.len() - 2),
                    2 => s.push_str("00"),
                    3 => s.replace_range(i..i + 1, *sim.pick(&["g", "x", " ", "é", "-", "Z", "\\"])),
                    4 => *s = format!("0x{s}"),
                    _ => s.push('0'),
                }
                what = format!("hex {key} damaged: {}", short(s));
            }
            Leaf::Bytes(_) | Leaf::Bitlist if s.starts_with("0x") => {
                match sim.choose(5) {
                    0 => s.push('0'),
                    1 => s.push_str("zz"),
                    2 => *s = format!("0x{s}"),
                    3 => s.insert(2, ' '),
                    _ => {
                        if key == "extra_data" {
                            *s = hex(&vec![7; 33]);
                        } else if key == "raw_bytes" {
                            *s = hex(&vec![7; 4097]);
                        } else if matches!(leaf(&e.name, &key, "0x01"), Leaf::Bitlist) {
                            *s = hex(&vec![1; 257 + 1]);
                        } else {
                            s.push('f')
                        }
                    }
                }
                what = format!("bytes {key} damaged: {}", short(s));
            }
            Leaf::Bits4 => {
                *s = sim.pick(&["0x10", "0x0", "0x", "0xff", "0x0000"]).to_string();
                what = format!("bits {key} damaged: {s}");
            }
            Leaf::U256 => {
                *s = sim.pick(&["115792089237316195423570985008687907853269984665640564039457584007913129639936", "-1", "1.0", "abc"]).to_string();
                what = format!("integer {key} set to {s:?}");
            }
            _ => return None,
        },
        J::Bool(_) => {
            *node = sim.pick(&[J::Str("true".into()), J::Num("1".into()), J::Null, J::Str("yes".into())]).clone();
            what = format!("boolean {key} set to {node:?}");
        }
        J::Arr(v) => {
            let lim = limit(&e.name, e.minimal, &key);
            let list = element(&e.name, &key).is_some();
            if list {
                match (lim, v.first().cloned()) {
                    (Some(l), Some(x)) if v.len() <= l && (l < 200 || v.len() > 1000) => {
                        while v.len() <= l {
                            v.push(x.clone());
                        }
                        what = format!("list {key} has {} elements", v.len());
                    }
                    (_, Some(x)) => {
                        let i = sim.choose(v.len() as u64) as usize;
                        let bad = match x {
                            J::Obj(_) => J::Str("0".into()),
                            J::Str(_) => sim.pick(&[J::Null, J::Arr(vec![]), J::Bool(true), J::Obj(vec![])]).clone(),
                            _ => return None,
                        };
                        v[i] = bad;
                        what = format!("list {key} has an element of the wrong shape at {i}");
                    }
                    _ => return None,
                }
            } else if !v.is_empty() && !path.is_empty() {
                if key == "data" {
                    return None;
                }
                if sim.chance(1, 2) {
                    let x = v[0].clone();
                    v.push(x);
                } else {
                    v.pop();
                }
                what = format!("vector {key} has {} elements", v.len());
            } else {
                return None;
            }
        }
        J::Obj(v) if !e.untagged && !v.is_empty() => {
            let i = sim.choose(v.len() as u64) as usize;
            what = if sim.chance(1, 2) {
                let (k, _) = v.remove(i);
                format!("field {k} missing")
            } else {
                let x = v[i].clone();
                v.push(x);
                format!("field {} given twice", v[i].0)
            };
        }
        _ => return None,
    }
    Some((what, d))
}

fn run(sim: &mut Sim) {
    let p = "S01";
    let all = entries();
    let e = &all[sim.choose(all.len() as u64) as usize];
    sim.log(format!("type {}", e.name));
    let Some(tmpl) = J::parse(&e.template) else {
        sim.violate(p, "default_not_encoded", format!("{}: the default value has no JSON: {}", e.name, short(&e.template)));
        return;
    };
    for round in 0..sim.range(1, 3) {
        let mut r = Rng::new(sim.choose(1 << 40));
        let big = sim.chance(1, 12);
        let mut doc = tmpl.clone();
        if !(round == 0 && sim.chance(1, 16)) {
            grow(&mut doc, &e.name, "", &mut r, big, e.minimal);
        }
        let canon = doc.compact();
        sim.log(format!("doc {}", short(&canon)));
        if let Some(c) = conventions(e, &J::parse(&e.template).unwrap()) {
            sim.violate(p, "convention", format!("{}: {c}", e.name));
        }
        // --- every way of delivery gives the same value
        for _ in 0..sim.range(1, 4) {
            let style = Style { gaps: sim.chance(1, 3), escapes: sim.fault("escaped_text", 1, 3), reorder: sim.chance(1, 4) };
            let text = doc.styled(sim, &style);
            let way = sim.choose(6);
            let nt = net(sim, text.len());
            let name = ["slice", "str", "reader", "buffered reader", "tree", "binary"][way as usize];
            if way == 5 && !e.ssz {
                continue;
            }
            let src = match way {
                0 => Source::Slice(text.as_bytes()),
                1 => Source::Str(&text),
                2 => Source::Reader(SimReader::new(text.as_bytes(), &nt)),
                3 => Source::Buffered(SimReader::new(text.as_bytes(), &nt)),
                _ => Source::Tree(&text),
            };
            sim.stats.steps += 1;
            sim.state_of(&format!("{} {name} {} {} {} {}", e.name, style.gaps, style.escapes, style.reorder, nt.max));
            let res = guard(|| (e.dec)(src, way == 4));
            match res {
                Err(pn) => sim.violate(p, format!("panic:{name}"), format!("{} from {name} panicked: {} for {}", e.name, pn.message, short(&text))),
                Ok(Err(err)) => sim.violate(p, format!("refused:{name}"), format!("{} from {name} refused valid JSON: {err}: {}", e.name, short(&text))),
                Ok(Ok(d)) => {
                    sim.nontrivial = true;
                    sim.probe(name);
                    let got = J::parse(&d.json);
                    if got.as_ref().map_or(true, |g| !(g.covers(&doc) && doc.covers(g) && d.json.len() == canon.len())) {
                        sim.violate(p, "changed", format!("{} from {name}: decoded and encoded again {} differs from {}", e.name, short(&d.json), short(&canon)));
                    } else if let Some(c) = conventions(e, got.as_ref().unwrap()) {
                        sim.violate(p, "convention", format!("{}: {c}", e.name));
                    }
                    if way == 4 && J::parse(&d.tree).map_or(true, |g| !(g.covers(&doc) && doc.covers(&g))) {
                        sim.violate(p, "tree_differs", format!("{}: as a tree {} differs from {}", e.name, short(&d.tree), short(&canon)));
                    }
                    if let Some(b) = d.ssz {
                        let mut f = vec![];
                        if fixed_bytes(&e.name, &doc, "", &mut f) {
                            sim.probe("bytes_compared");
                            if f != b {
                                sim.violate(p, "bytes_differ", format!("{}: JSON {} decodes to bytes {}", e.name, short(&canon), short(&hex(&b))));
                            }
                        }
                        if way == 5 {
                            match guard(|| (e.dec)(Source::Ssz(&b), false)) {
                                Ok(Ok(d2)) if d2.json == d.json => {}
                                o => sim.violate(p, "binary_differs", format!("{}: {} through SSZ: {:?}", e.name, short(&d.json), o.map(|x| x.map(|y| short(&y.json))).map_err(|e| e.message))),
                            }
                        }
                    }
                }
            }
        }
        // --- encoding into a stream
        if sim.chance(1, 3) {
            let mut nt = net(sim, canon.len());
            if sim.fault("write_error", 1, 3) {
                nt.fail_at = Some((sim.choose(canon.len() as u64) as usize, *sim.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::StorageFull, io::ErrorKind::TimedOut])));
            }
            let mut w = SimWriter { out: vec![], rng: Rng::new(nt.seed), net: nt.clone(), last_interrupted: false };
            let r = guard(|| (e.enc)(canon.as_bytes(), &mut w));
            match (r, &nt.fail_at) {
                (Err(pn), _) => sim.violate(p, "panic:write", format!("{} panicked on write: {}", e.name, pn.message)),
                (Ok(Ok(())), Some(_)) => sim.violate(p, "write_error_lost", format!("{}: a failed write was reported as success", e.name)),
                (Ok(Ok(())), None) => {
                    sim.probe("written");
                    if w.out.len() != canon.len() || J::parse(&String::from_utf8_lossy(&w.out)).map_or(true, |g| !g.covers(&doc)) {
                        sim.violate(p, "written_differs", format!("{}: wrote {}", e.name, short(&String::from_utf8_lossy(&w.out))));
                    }
                }
                (Ok(Err(err)), None) => sim.violate(p, "write_refused", format!("{}: {err}", e.name)),
                (Ok(Err(_)), Some(_)) => {}
            }
        }
        // --- several documents on one connection
        if sim.chance(1, 5) {
            let n = sim.range(2, 4);
            let mut text = String::new();
            let mut want = vec![];
            for _ in 0..n {
                let mut d = tmpl.clone();
                grow(&mut d, &e.name, "", &mut r, false, e.minimal);
                let style = Style { gaps: true, escapes: sim.chance(1, 3), reorder: false };
                text.push_str(&d.styled(sim, &style));
                text.push('\n');
                want.push(d);
            }
            let mut nt = net(sim, text.len());
            let cut = sim.fault("connection_cut", 1, 3);
            let at = sim.choose(text.len() as u64) as usize;
            if cut {
                nt.fail_at = Some((at, *sim.pick(&[io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut])));
            }
            match guard(|| (e.stream)(SimReader::new(text.as_bytes(), &nt))) {
                Err(pn) => sim.violate(p, "panic:stream", format!("{} panicked in a stream: {}", e.name, pn.message)),
                Ok(got) => {
                    let oks: Vec<_> = got.iter().filter_map(|x| x.as_ref().ok()).collect();
                    for (i, o) in oks.iter().enumerate() {
                        if i >= want.len() || J::parse(o).map_or(true, |g| !(g.covers(&want[i]) && want[i].covers(&g))) {
                            sim.violate(p, "stream_differs", format!("{}: document {i} of the stream decoded to {}", e.name, short(o)));
                        }
                    }
                    if !cut && oks.len() != want.len() {
                        sim.violate(p, "stream_lost", format!("{}: {} of {} documents decoded: {:?}", e.name, oks.len(), want.len(), got.last().map(|x| x.as_ref().map(|y| short(y)))));
                    }
                    if cut && got.iter().all(|x| x.is_ok()) {
                        sim.violate(p, "cut_hidden", format!("{}: a reset connection ended as a clean end of stream", e.name));
                    }
                    sim.probe("stream");
                }
            }
        }
        // --- damage that has to be refused
        if sim.chance(1, 2) {
            if let Some((what, d)) = must_refuse(sim, e, &doc) {
                sim.count_fault("damaged_value");
                let text = d.compact();
                let way = sim.choose(3);
                let nt = net(sim, text.len());
                let src = match way {
                    0 => Source::Slice(text.as_bytes()),
                    1 => Source::Reader(SimReader::new(text.as_bytes(), &nt)),
                    _ => {
                        if what.contains("given twice") { Source::Slice(text.as_bytes()) } else { Source::Tree(&text) }
                    }
                };
                sim.log(format!("damage: {what}"));
                match guard(|| (e.dec)(src, false)) {
                    Err(pn) => sim.violate(p, "panic:damaged", format!("{} panicked: {} on {what}", e.name, pn.message)),
                    Ok(Ok(dd)) => {
                        let flat = e.name == "Flat" || e.name.contains("Value<");
                        // a block without a version tag that lost what sets its fork apart is a block
                        // of an earlier fork with fields nobody knows; then nothing else may change
                        let part = e.untagged && J::parse(&dd.json).map_or(false, |g| d.covers(&g));
                        if !part && !(flat && (what.contains("given twice"))) {
                            sim.violate(p, "damage_accepted", format!("{}: accepted with {what} as {}", e.name, short(&dd.json)));
                        }
                    }
                    Ok(Err(_)) => sim.probe("damage_refused"),
                }
            }
        }
        // --- truncation, a broken connection, flipped bytes
        if sim.chance(1, 2) {
            let kind = sim.choose(4);
            let mut bytes = canon.clone().into_bytes();
            let len = bytes.len();
            let mut nt = net(sim, len);
            let mut refuse = false;
            match kind {
                0 => {
                    bytes.truncate(sim.choose(len as u64) as usize);
                    sim.count_fault("truncated");
                    refuse = true;
                }
                1 => {
                    nt.fail_at = Some((sim.choose(len as u64) as usize, *sim.pick(&[io::ErrorKind::ConnectionReset, io::ErrorKind::TimedOut, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof])));
                    sim.count_fault("read_error");
                    refuse = true;
                }
                2 => {
                    for _ in 0..sim.range(1, 3) {
                        let i = sim.choose(len as u64) as usize;
                        if sim.chance(1, 2) {
                            bytes[i] ^= 1 << sim.choose(8);
                        } else {
                            bytes[i] = *sim.pick(b"0\"{}[],:xafn-. \\9");
                        }
                    }
                    sim.count_fault("flipped_bytes");
                }
                _ => {
                    let i = sim.choose(len as u64) as usize;
                    let n = (1 + sim.choose(64) as usize).min(len - i);
                    if sim.chance(1, 2) {
                        bytes.drain(i..i + n);
                    } else {
                        let c = bytes[i..i + n].to_vec();
                        bytes.splice(i..i, c);
                    }
                    sim.count_fault("lost_or_doubled_fragment");
                }
            }
            let src = if kind == 1 || sim.chance(1, 2) { Source::Reader(SimReader::new(&bytes, &nt)) } else { Source::Slice(&bytes) };
            let same = bytes == canon.as_bytes();
            match guard(|| (e.dec)(src, false)) {
                Err(pn) => sim.violate(p, "panic:damaged", format!("{} panicked: {} on {}", e.name, pn.message, short(&String::from_utf8_lossy(&bytes)))),
                Ok(Err(_)) => sim.probe("damage_refused"),
                Ok(Ok(d)) => {
                    let text = String::from_utf8_lossy(&bytes).into_owned();
                    if refuse {
                        sim.violate(p, "truncation_accepted", format!("{}: accepted {} after truncation", e.name, short(&d.json)));
                    } else if !same {
                        let ok = match (J::parse(&text), J::parse(&d.json)) {
                            (Some(a), Some(b)) => a.covers(&b),
                            _ => false,
                        };
                        if !ok {
                            let at = text.bytes().zip(canon.bytes()).position(|(a, b)| a != b).unwrap_or(0);
                            let near = String::from_utf8_lossy(&bytes[at.saturating_sub(30)..(at + 30).min(bytes.len())]).into_owned();
                            sim.violate(p, "damage_misread", format!("{}: damaged near {near} accepted as {}", e.name, short(&d.json)));
                        } else {
                            sim.probe("damage_kept_value");
                        }
                    }
                }
            }
        }
        if sim.found() {
            return;
        }
    }
}

fn main() {
    let property = simkit::arg("--property").expect("--property");
    assert_eq!(property, "S01");
    simkit::main_for(Target {
        name: "serdesim",
        property,
        run: Box::new(run),
        rule: "each run draws a type, values for all its fields and lists, and deliveries (layout, escapes, key order, fragmentation, interruptions, damage); non-trivial: at least one delivery decoded and was compared".into(),
        state_measure: "distinct (type, delivery path, layout, fragment size) tuples".into(),
        real: vec!["ethereum_consensus::serde and the serde derives of all consensus types".into(), "beacon_api_client types".into(), "serde, serde_json".into()],
        stubs: vec!["io::Read and io::Write: simulated, fragmenting and failing".into(), "ssz_rs collections: stand-in crate".into()],
        assumptions: vec!["the largest mainnet containers (states, blobs bundles) are covered by their minimal-preset twins".into()],
        required_probes: vec!["reader".into(), "tree".into(), "binary".into(), "stream".into(), "written".into(), "damage_refused".into(), "bytes_compared".into()],
        quick_s: 25.0,
        thorough_s: 900.0,
        min_runs: 500,
        max_runs_quick: 100_000,
    })
}

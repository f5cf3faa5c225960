//! The values of the Beacon API, as its specification writes them: JSON and SSZ of every value are
//! made here, without the code under test.
use crate::json::J;
use refspec::Params;
use simkit::Rng;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum T {
    U64,
    U8,
    U256,
    Bool,
    /// exactly so many bytes
    Hex(usize),
    /// up to so many bytes
    HexList(usize),
    Bits(usize),
    Bitlist(usize),
    List(Rc<T>, usize),
    Vector(Rc<T>, usize),
    Obj(Rc<Vec<(&'static str, T)>>),
    Enum(&'static [&'static str]),
    Text,
    Enr,
    Multiaddr,
    PeerId,
    /// an object some of whose fields need not be there
    Opt(Rc<T>),
}
use T::*;
pub fn list(t: T, max: usize) -> T {
    List(Rc::new(t), max)
}
pub fn vector(t: T, n: usize) -> T {
    Vector(Rc::new(t), n)
}
pub fn obj(f: &[(&'static str, T)]) -> T {
    Obj(Rc::new(f.to_vec()))
}
fn opt(t: T) -> T {
    Opt(Rc::new(t))
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    let s = &s.as_bytes()[2..];
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
pub fn rbytes(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    // long runs are cheap: a repeated stretch with a random middle
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}
pub fn ru64(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => r.next(),
        3 => 1u64 << r.below(64),
        4 => (1u64 << 53) + r.below(5),
        _ => r.below(100_000),
    }
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn base58(b: &[u8]) -> String {
    let mut d: Vec<u32> = vec![];
    for &x in b {
        let mut c = x as u32;
        for y in d.iter_mut() {
            c += *y << 8;
            *y = c % 58;
            c /= 58;
        }
        while c > 0 {
            d.push(c % 58);
            c /= 58;
        }
    }
    let zeros = b.iter().take_while(|x| **x == 0).count();
    let mut s: Vec<u8> = vec![b'1'; zeros];
    s.extend(d.iter().rev().map(|x| B58[*x as usize]));
    String::from_utf8(s).unwrap()
}
pub fn text(r: &mut Rng) -> String {
    let n = r.below(24);
    (0..n)
        .map(|_| match r.below(12) {
            0 => '"',
            1 => '\\',
            2 => 'é',
            3 => '/',
            4 => '\n',
            5 => '😀',
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}
fn u256(b: &[u8; 32]) -> String {
    // little endian
    let mut v = b.to_vec();
    let mut out = vec![];
    loop {
        let mut rem = 0u32;
        let mut any = false;
        for x in v.iter_mut().rev() {
            let c = rem << 8 | *x as u32;
            *x = (c / 10) as u8;
            rem = c % 10;
            any |= *x != 0;
        }
        out.push(b'0' + rem as u8);
        if !any {
            break;
        }
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
fn u256_bytes(s: &str) -> [u8; 32] {
    let mut v = [0u8; 32];
    for c in s.bytes() {
        let mut carry = (c - b'0') as u32;
        for x in v.iter_mut() {
            let t = *x as u32 * 10 + carry;
            *x = t as u8;
            carry = t >> 8;
        }
    }
    v
}

pub fn s(x: impl std::fmt::Display) -> J {
    J::Str(x.to_string())
}

impl T {
    pub fn make(&self, r: &mut Rng) -> J {
        match self {
            U64 => s(ru64(r)),
            U8 => s(r.below(256)),
            U256 => {
                let mut b = [0u8; 32];
                let n = r.below(33) as usize;
                b[..n].copy_from_slice(&rbytes(r, n));
                s(u256(&b))
            }
            Bool => J::Bool(r.below(2) == 0),
            Hex(n) => s(hex(&rbytes(r, *n))),
            HexList(n) => {
                let k = r.below(1 + (*n).min(40) as u64) as usize;
                s(hex(&rbytes(r, k)))
            }
            Bits(n) => {
                let mut b = rbytes(r, n.div_ceil(8));
                if n % 8 != 0 {
                    *b.last_mut().unwrap() &= (1 << (n % 8)) - 1;
                }
                s(hex(&b))
            }
            Bitlist(n) => {
                let k = r.below(1 + (*n).min(70) as u64) as usize;
                let mut b = rbytes(r, k / 8 + 1);
                let l = b.last_mut().unwrap();
                *l &= ((1u16 << (k % 8)) - 1) as u8;
                *l |= 1 << (k % 8);
                s(hex(&b))
            }
            List(t, max) => {
                let n = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    _ => r.below(4),
                }
                .min(*max as u64);
                J::Arr((0..n).map(|_| t.make(r)).collect())
            }
            Vector(t, n) => J::Arr((0..*n).map(|_| t.make(r)).collect()),
            Obj(f) => J::Obj(
                f.iter()
                    .filter_map(|(k, t)| match t {
                        Opt(t) => (r.below(2) == 0).then(|| (k.to_string(), t.make(r))),
                        t => Some((k.to_string(), t.make(r))),
                    })
                    .collect(),
            ),
            Enum(v) => s(v[r.below(v.len() as u64) as usize]),
            Text => J::Str(text(r)),
            Enr => s(format!("enr:-{}", base58(&rbytes(r, 40)))),
            Multiaddr => {
                s(format!("/ip4/{}.{}.0.1/tcp/{}", r.below(256), r.below(256), r.below(65536)))
            }
            PeerId => {
                // a sha-256 multihash or a short inlined key
                let mut b = vec![];
                if r.below(2) == 0 {
                    b.extend([0x12, 32]);
                    b.extend(rbytes(r, 32));
                } else {
                    let n = r.below(43) as usize;
                    b.extend([0, n as u8]);
                    b.extend(rbytes(r, n));
                }
                s(base58(&b))
            }
            Opt(t) => t.make(r),
        }
    }
    fn fixed(&self) -> bool {
        match self {
            HexList(_) | Bitlist(_) | List(..) => false,
            Vector(t, _) => t.fixed(),
            Obj(f) => f.iter().all(|x| x.1.fixed()),
            _ => true,
        }
    }
    pub fn ssz(&self, j: &J) -> Vec<u8> {
        fn parts(v: Vec<(bool, Vec<u8>)>) -> Vec<u8> {
            let head: usize = v.iter().map(|(f, b)| if *f { b.len() } else { 4 }).sum();
            let mut o = vec![];
            let mut at = head;
            for (f, b) in &v {
                if *f {
                    o.extend_from_slice(b)
                } else {
                    o.extend_from_slice(&(at as u32).to_le_bytes());
                    at += b.len();
                }
            }
            for (f, b) in v {
                if !f {
                    o.extend(b)
                }
            }
            o
        }
        match (self, j) {
            (U64, J::Str(x)) => x.parse::<u64>().unwrap().to_le_bytes().to_vec(),
            (U8, J::Str(x)) => vec![x.parse().unwrap()],
            (U256, J::Str(x)) => u256_bytes(x).to_vec(),
            (Bool, J::Bool(b)) => vec![*b as u8],
            (Hex(_) | HexList(_) | Bits(_) | Bitlist(_), J::Str(x)) => unhex(x),
            (List(t, _) | Vector(t, _), J::Arr(v)) => {
                parts(v.iter().map(|x| (t.fixed(), t.ssz(x))).collect())
            }
            (Obj(f), J::Obj(v)) => {
                parts(f.iter().zip(v).map(|((_, t), (_, x))| (t.fixed(), t.ssz(x))).collect())
            }
            _ => unreachable!("{self:?} has no SSZ form"),
        }
    }
}

// ------------------------------------------------------------------ containers

pub fn checkpoint() -> T {
    obj(&[("epoch", U64), ("root", Hex(32))])
}
pub fn fork() -> T {
    obj(&[("previous_version", Hex(4)), ("current_version", Hex(4)), ("epoch", U64)])
}
pub fn att_data() -> T {
    obj(&[
        ("slot", U64),
        ("index", U64),
        ("beacon_block_root", Hex(32)),
        ("source", checkpoint()),
        ("target", checkpoint()),
    ])
}
pub fn attestation() -> T {
    obj(&[("aggregation_bits", Bitlist(2048)), ("data", att_data()), ("signature", Hex(96))])
}
fn indexed() -> T {
    obj(&[("attesting_indices", list(U64, 2048)), ("data", att_data()), ("signature", Hex(96))])
}
pub fn attester_slashing() -> T {
    obj(&[("attestation_1", indexed()), ("attestation_2", indexed())])
}
fn header() -> T {
    obj(&[
        ("slot", U64),
        ("proposer_index", U64),
        ("parent_root", Hex(32)),
        ("state_root", Hex(32)),
        ("body_root", Hex(32)),
    ])
}
pub fn signed(t: T) -> T {
    obj(&[("message", t), ("signature", Hex(96))])
}
pub fn proposer_slashing() -> T {
    obj(&[("signed_header_1", signed(header())), ("signed_header_2", signed(header()))])
}
pub fn signed_exit() -> T {
    signed(obj(&[("epoch", U64), ("validator_index", U64)]))
}
pub fn signed_change() -> T {
    signed(obj(&[
        ("validator_index", U64),
        ("from_bls_pubkey", Hex(48)),
        ("to_execution_address", Hex(20)),
    ]))
}
pub fn withdrawal() -> T {
    obj(&[("index", U64), ("validator_index", U64), ("address", Hex(20)), ("amount", U64)])
}
fn eth1() -> T {
    obj(&[("deposit_root", Hex(32)), ("deposit_count", U64), ("block_hash", Hex(32))])
}
pub fn sync_message() -> T {
    obj(&[
        ("slot", U64),
        ("beacon_block_root", Hex(32)),
        ("validator_index", U64),
        ("signature", Hex(96)),
    ])
}
pub fn contribution(p: &Params) -> T {
    obj(&[
        ("slot", U64),
        ("beacon_block_root", Hex(32)),
        ("subcommittee_index", U64),
        ("aggregation_bits", Bits(p.sync_size as usize / 4)),
        ("signature", Hex(96)),
    ])
}
pub fn signed_contribution(p: &Params) -> T {
    signed(obj(&[
        ("aggregator_index", U64),
        ("contribution", contribution(p)),
        ("selection_proof", Hex(96)),
    ]))
}
pub fn signed_aggregate() -> T {
    signed(obj(&[
        ("aggregator_index", U64),
        ("aggregate", attestation()),
        ("selection_proof", Hex(96)),
    ]))
}
pub fn registration() -> T {
    signed(obj(&[
        ("fee_recipient", Hex(20)),
        ("gas_limit", U64),
        ("timestamp", U64),
        ("pubkey", Hex(48)),
    ]))
}
fn sync_aggregate(p: &Params) -> T {
    obj(&[
        ("sync_committee_bits", Bits(p.sync_size as usize)),
        ("sync_committee_signature", Hex(96)),
    ])
}
fn sync_committee(p: &Params) -> T {
    obj(&[("pubkeys", vector(Hex(48), p.sync_size as usize)), ("aggregate_pubkey", Hex(48))])
}
pub const FORKS: [&str; 5] = ["phase0", "altair", "bellatrix", "capella", "deneb"];
fn payload_part(f: usize, blinded: bool, p: &Params) -> T {
    let mut v = vec![
        ("parent_hash", Hex(32)),
        ("fee_recipient", Hex(20)),
        ("state_root", Hex(32)),
        ("receipts_root", Hex(32)),
        ("logs_bloom", Hex(256)),
        ("prev_randao", Hex(32)),
        ("block_number", U64),
        ("gas_limit", U64),
        ("gas_used", U64),
        ("timestamp", U64),
        ("extra_data", HexList(32)),
        ("base_fee_per_gas", U256),
        ("block_hash", Hex(32)),
    ];
    v.push(if blinded {
        ("transactions_root", Hex(32))
    } else {
        ("transactions", list(HexList(1 << 30), 1 << 20))
    });
    if f >= 3 {
        v.push(if blinded {
            ("withdrawals_root", Hex(32))
        } else {
            ("withdrawals", list(withdrawal(), p.max_withdrawals as usize))
        });
    }
    if f >= 4 {
        v.push(("blob_gas_used", U64));
        v.push(("excess_blob_gas", U64));
    }
    obj(&v)
}
pub fn block(f: usize, blinded: bool, p: &Params) -> T {
    let deposit = obj(&[
        ("proof", vector(Hex(32), 33)),
        (
            "data",
            obj(&[
                ("pubkey", Hex(48)),
                ("withdrawal_credentials", Hex(32)),
                ("amount", U64),
                ("signature", Hex(96)),
            ]),
        ),
    ]);
    let mut b = vec![
        ("randao_reveal", Hex(96)),
        ("eth1_data", eth1()),
        ("graffiti", Hex(32)),
        ("proposer_slashings", list(proposer_slashing(), 16)),
        ("attester_slashings", list(attester_slashing(), 2)),
        ("attestations", list(attestation(), 128)),
        ("deposits", list(deposit, 16)),
        ("voluntary_exits", list(signed_exit(), 16)),
    ];
    if f >= 1 {
        b.push(("sync_aggregate", sync_aggregate(p)));
    }
    if f >= 2 {
        b.push((
            if blinded { "execution_payload_header" } else { "execution_payload" },
            payload_part(f, blinded, p),
        ));
    }
    if f >= 3 {
        b.push(("bls_to_execution_changes", list(signed_change(), 16)));
    }
    if f >= 4 {
        b.push(("blob_kzg_commitments", list(Hex(48), p.max_commitments as usize)));
    }
    obj(&[
        ("slot", U64),
        ("proposer_index", U64),
        ("parent_root", Hex(32)),
        ("state_root", Hex(32)),
        ("body", obj(&b)),
    ])
}
pub fn state(f: usize, p: &Params) -> T {
    let reg = 1 << 40;
    let mut v = vec![
        ("genesis_time", U64),
        ("genesis_validators_root", Hex(32)),
        ("slot", U64),
        ("fork", fork()),
        ("latest_block_header", header()),
        ("block_roots", vector(Hex(32), p.sphr as usize)),
        ("state_roots", vector(Hex(32), p.sphr as usize)),
        ("historical_roots", list(Hex(32), 1 << 24)),
        ("eth1_data", eth1()),
        ("eth1_data_votes", list(eth1(), (p.epochs_per_eth1_period * p.spe) as usize)),
        ("eth1_deposit_index", U64),
        ("validators", list(validator(), reg)),
        ("balances", list(U64, reg)),
        ("randao_mixes", vector(Hex(32), p.ephv as usize)),
        ("slashings", vector(U64, p.epsv as usize)),
    ];
    if f == 0 {
        let pending = obj(&[
            ("aggregation_bits", Bitlist(2048)),
            ("data", att_data()),
            ("inclusion_delay", U64),
            ("proposer_index", U64),
        ]);
        v.push(("previous_epoch_attestations", list(pending.clone(), 4096)));
        v.push(("current_epoch_attestations", list(pending, 4096)));
    } else {
        v.push(("previous_epoch_participation", list(U8, reg)));
        v.push(("current_epoch_participation", list(U8, reg)));
    }
    v.extend([
        ("justification_bits", Bits(4)),
        ("previous_justified_checkpoint", checkpoint()),
        ("current_justified_checkpoint", checkpoint()),
        ("finalized_checkpoint", checkpoint()),
    ]);
    if f >= 1 {
        v.extend([
            ("inactivity_scores", list(U64, reg)),
            ("current_sync_committee", sync_committee(p)),
            ("next_sync_committee", sync_committee(p)),
        ]);
    }
    if f >= 2 {
        v.push(("latest_execution_payload_header", payload_part(f, true, p)));
    }
    if f >= 3 {
        v.extend([
            ("next_withdrawal_index", U64),
            ("next_withdrawal_validator_index", U64),
            (
                "historical_summaries",
                list(
                    obj(&[("block_summary_root", Hex(32)), ("state_summary_root", Hex(32))]),
                    1 << 24,
                ),
            ),
        ]);
    }
    obj(&v)
}
/// parts a later fork added: an answer damaged there may still have the shape of an older fork
pub const LATE: [&str; 14] = [
    "sync_aggregate",
    "execution_payload",
    "execution_payload_header",
    "bls_to_execution_changes",
    "blob_kzg_commitments",
    "previous_epoch_participation",
    "current_epoch_participation",
    "inactivity_scores",
    "current_sync_committee",
    "next_sync_committee",
    "latest_execution_payload_header",
    "next_withdrawal_index",
    "next_withdrawal_validator_index",
    "historical_summaries",
];
pub fn validator() -> T {
    obj(&[
        ("pubkey", Hex(48)),
        ("withdrawal_credentials", Hex(32)),
        ("effective_balance", U64),
        ("slashed", Bool),
        ("activation_eligibility_epoch", U64),
        ("activation_epoch", U64),
        ("exit_epoch", U64),
        ("withdrawable_epoch", U64),
    ])
}
pub fn sidecar(p: &Params) -> T {
    let depth = 4 + 1 + (p.max_commitments as usize).ilog2() as usize;
    obj(&[
        ("index", U64),
        ("blob", Hex(131072)),
        ("kzg_commitment", Hex(48)),
        ("kzg_proof", Hex(48)),
        ("signed_block_header", signed(header())),
        ("kzg_commitment_inclusion_proof", vector(Hex(32), depth)),
    ])
}
fn lc_header() -> T {
    obj(&[("beacon", header())])
}
pub fn lc_bootstrap(p: &Params) -> T {
    obj(&[
        ("header", lc_header()),
        ("current_sync_committee", sync_committee(p)),
        ("current_sync_committee_branch", vector(Hex(32), 5)),
    ])
}
pub fn lc_update(p: &Params) -> T {
    obj(&[
        ("attested_header", lc_header()),
        ("next_sync_committee", sync_committee(p)),
        ("next_sync_committee_branch", vector(Hex(32), 5)),
        ("finalized_header", lc_header()),
        ("finality_branch", vector(Hex(32), 6)),
        ("sync_aggregate", sync_aggregate(p)),
        ("signature_slot", U64),
    ])
}
pub fn lc_finality(p: &Params) -> T {
    obj(&[
        ("attested_header", lc_header()),
        ("finalized_header", lc_header()),
        ("finality_branch", vector(Hex(32), 6)),
        ("sync_aggregate", sync_aggregate(p)),
        ("signature_slot", U64),
    ])
}
pub fn lc_optimistic(p: &Params) -> T {
    obj(&[
        ("attested_header", lc_header()),
        ("sync_aggregate", sync_aggregate(p)),
        ("signature_slot", U64),
    ])
}

// ------------------------------------------------------------------ answers of the API

pub fn genesis() -> T {
    obj(&[
        ("genesis_time", U64),
        ("genesis_validators_root", Hex(32)),
        ("genesis_fork_version", Hex(4)),
    ])
}
pub fn finality() -> T {
    obj(&[
        ("previous_justified", checkpoint()),
        ("current_justified", checkpoint()),
        ("finalized", checkpoint()),
    ])
}
pub const STATUS: &[&str] = &[
    "pending_initialized",
    "pending_queued",
    "active_ongoing",
    "active_exiting",
    "active_slashed",
    "exited_unslashed",
    "exited_slashed",
    "withdrawal_possible",
    "withdrawal_done",
];
pub fn validator_summary() -> T {
    obj(&[("index", U64), ("balance", U64), ("status", Enum(STATUS)), ("validator", validator())])
}
pub fn balance() -> T {
    obj(&[("index", U64), ("balance", U64)])
}
pub fn committee() -> T {
    obj(&[("index", U64), ("slot", U64), ("validators", list(U64, 9))])
}
pub fn sync_committees() -> T {
    obj(&[("validators", list(U64, 9)), ("validator_aggregates", list(list(U64, 4), 4))])
}
pub fn header_summary() -> T {
    obj(&[("root", Hex(32)), ("canonical", Bool), ("header", signed(header()))])
}
pub fn deposit_snapshot() -> T {
    obj(&[
        ("finalized", list(Hex(32), 32)),
        ("deposit_root", Hex(32)),
        ("deposit_count", U64),
        ("execution_block_hash", Hex(32)),
        ("execution_block_height", U64),
    ])
}
pub fn heads() -> T {
    list(obj(&[("root", Hex(32)), ("slot", U64), ("execution_optimistic", Bool)]), 5)
}
pub const PEER_STATES: &[&str] = &["disconnected", "connecting", "connected", "disconnecting"];
pub const DIRECTIONS: &[&str] = &["inbound", "outbound"];
pub fn peer() -> T {
    obj(&[
        ("peer_id", PeerId),
        ("enr", Enr),
        ("last_seen_p2p_address", Multiaddr),
        ("state", Enum(PEER_STATES)),
        ("direction", Enum(DIRECTIONS)),
    ])
}
pub fn identity() -> T {
    obj(&[
        ("peer_id", PeerId),
        ("enr", Enr),
        ("p2p_addresses", list(Multiaddr, 3)),
        ("discovery_addresses", list(Multiaddr, 3)),
        ("metadata", obj(&[("seq_number", U64), ("attnets", Bits(64)), ("syncnets", Bits(4))])),
    ])
}
pub fn peer_count() -> T {
    obj(&[("disconnected", U64), ("connecting", U64), ("connected", U64), ("disconnecting", U64)])
}
pub fn syncing() -> T {
    obj(&[("head_slot", U64), ("sync_distance", U64), ("is_syncing", Bool)])
}
pub fn attester_duty() -> T {
    obj(&[
        ("pubkey", Hex(48)),
        ("validator_index", U64),
        ("committee_index", U64),
        ("committee_length", U64),
        ("committees_at_slot", U64),
        ("validator_committee_index", U64),
        ("slot", U64),
    ])
}
pub fn proposer_duty() -> T {
    obj(&[("pubkey", Hex(48)), ("validator_index", U64), ("slot", U64)])
}
pub fn sync_duty() -> T {
    obj(&[
        ("pubkey", Hex(48)),
        ("validator_index", U64),
        ("validator_sync_committee_indices", list(U64, 5)),
    ])
}
pub fn payload_attributes() -> T {
    obj(&[
        ("proposer_index", U64),
        ("proposal_slot", U64),
        ("parent_block_number", U64),
        ("parent_block_root", Hex(32)),
        ("parent_block_hash", Hex(32)),
        (
            "payload_attributes",
            obj(&[
                ("timestamp", U64),
                ("prev_randao", Hex(32)),
                ("suggested_fee_recipient", Hex(20)),
                ("withdrawals", opt(list(withdrawal(), 16))),
                ("parent_beacon_block_root", opt(Hex(32))),
            ]),
        ),
    ])
}

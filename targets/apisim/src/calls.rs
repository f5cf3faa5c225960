//! Every call of the client: what the Beacon API prescribes for it, what it must return.
use crate::{
    json::J,
    schema::{self as sc, hex, list, obj, rbytes, ru64, s, text, T},
};
use beacon_api_client as api;
use ethereum_consensus::{primitives::*, Fork};
use refspec::Params;
use simkit::Rng;
use ssz_rs::prelude as sp;
use std::{future::Future, pin::Pin};

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Unit,
    /// SSZ of each object returned
    Ssz(Vec<Vec<u8>>),
    Json(J),
}
pub type Ret = Result<Got, api::Error>;
pub type Go<C> = Box<dyn FnOnce(api::Client<C>) -> Pin<Box<dyn Future<Output = Ret>>>>;

pub struct Call<C> {
    pub name: &'static str,
    pub post: bool,
    pub path: String,
    pub query: Vec<(&'static str, Vec<String>)>,
    pub version: Option<&'static str>,
    pub body: Option<J>,
    /// the document a healthy server answers with (none: the status alone)
    pub doc: Option<J>,
    /// shape of `data`
    pub shape: Option<T>,
    /// `data` is the whole document, `data` of each element, or under the key "data"
    pub want: Got,
    /// one of several forks' shapes
    pub poly: bool,
    pub go: Go<C>,
}

fn z<V: sp::Serializable>(v: &V) -> Vec<u8> {
    sp::serialize(v).unwrap_or_else(|e| format!("not serializable: {e:?}").into_bytes())
}
pub fn many<V: sp::Serializable>(v: &[V]) -> Got {
    Got::Ssz(v.iter().map(|x| z(x)).collect())
}
pub fn one<V: sp::Serializable>(v: &V) -> Got {
    Got::Ssz(vec![z(v)])
}
fn back<V: sp::Deserialize>(t: &T, j: &J) -> V {
    V::deserialize(&t.ssz(j)).unwrap_or_else(|e| panic!("harness: cannot build {t:?}: {e:?}"))
}
fn arr(j: &J) -> &[J] {
    match j {
        J::Arr(v) => v,
        _ => unreachable!(),
    }
}
fn o(f: Vec<(&str, J)>) -> J {
    J::Obj(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn via<V: serde::Serialize>(v: &V) -> J {
    J::parse(&serde_json::to_string(v).unwrap_or_default()).unwrap_or(J::Null)
}
fn jb(b: impl AsRef<[u8]>) -> J {
    s(hex(b.as_ref()))
}
fn ju<V: std::fmt::Display>(v: &[V]) -> J {
    J::Arr(v.iter().map(s).collect())
}
fn ck(c: &ethereum_consensus::phase0::Checkpoint) -> J {
    o(vec![("epoch", s(c.epoch)), ("root", jb(c.root))])
}
fn status(v: &api::ValidatorStatus) -> J {
    use api::ValidatorStatus::*;
    s(match v {
        PendingInitialized => "pending_initialized",
        PendingQueued => "pending_queued",
        ActiveOngoing => "active_ongoing",
        ActiveExiting => "active_exiting",
        ActiveSlashed => "active_slashed",
        ExitedUnslashed => "exited_unslashed",
        ExitedSlashed => "exited_slashed",
        WithdrawalPossible => "withdrawal_possible",
        WithdrawalDone => "withdrawal_done",
        Active => "active",
        Pending => "pending",
        Exited => "exited",
        Withdrawal => "withdrawal",
    })
}
fn peer(p: &api::PeerDescription) -> J {
    let st = match p.state {
        api::PeerState::Disconnected => "disconnected",
        api::PeerState::Connecting => "connecting",
        api::PeerState::Connected => "connected",
        api::PeerState::Disconnecting => "disconnecting",
    };
    let dir = match p.direction {
        api::ConnectionOrientation::Inbound => "inbound",
        api::ConnectionOrientation::Outbound => "outbound",
    };
    o(vec![
        ("peer_id", s(p.peer_id)),
        ("enr", s(&p.enr)),
        ("last_seen_p2p_address", s(&p.last_seen_p2p_address)),
        ("state", s(st)),
        ("direction", s(dir)),
    ])
}
fn committee(c: &api::CommitteeSummary) -> J {
    o(vec![("index", s(c.index)), ("slot", s(c.slot)), ("validators", ju(&c.validators.0))])
}
pub fn attributes(e: &api::PayloadAttributesEvent) -> J {
    let a = &e.payload_attributes;
    let mut f = vec![
        ("timestamp", s(a.timestamp)),
        ("prev_randao", jb(a.prev_randao)),
        ("suggested_fee_recipient", jb(&a.suggested_fee_recipient)),
    ];
    if let Some(w) = &a.withdrawals {
        f.push((
            "withdrawals",
            J::Arr(
                w.iter()
                    .map(|w| {
                        o(vec![
                            ("index", s(w.index)),
                            ("validator_index", s(w.validator_index)),
                            ("address", jb(&w.address)),
                            ("amount", s(w.amount)),
                        ])
                    })
                    .collect(),
            ),
        ));
    }
    if let Some(r) = &a.parent_beacon_block_root {
        f.push(("parent_beacon_block_root", jb(r)));
    }
    o(vec![
        ("proposer_index", s(e.proposer_index)),
        ("proposal_slot", s(e.proposal_slot)),
        ("parent_block_number", s(e.parent_block_number)),
        ("parent_block_root", jb(e.parent_block_root)),
        ("parent_block_hash", jb(&e.parent_block_hash)),
        ("payload_attributes", o(f)),
    ])
}

pub fn state_id(r: &mut Rng) -> (api::StateId, String) {
    match r.below(6) {
        0 => (api::StateId::Head, "head".into()),
        1 => (api::StateId::Genesis, "genesis".into()),
        2 => (api::StateId::Finalized, "finalized".into()),
        3 => (api::StateId::Justified, "justified".into()),
        4 => {
            let x = ru64(r);
            (api::StateId::Slot(x), x.to_string())
        }
        _ => {
            let b = rbytes(r, 32);
            (api::StateId::Root(Root::try_from(b.as_slice()).unwrap()), hex(&b))
        }
    }
}
pub fn block_id(r: &mut Rng) -> (api::BlockId, String) {
    match r.below(5) {
        0 => (api::BlockId::Head, "head".into()),
        1 => (api::BlockId::Genesis, "genesis".into()),
        2 => (api::BlockId::Finalized, "finalized".into()),
        3 => {
            let x = ru64(r);
            (api::BlockId::Slot(x), x.to_string())
        }
        _ => {
            let b = rbytes(r, 32);
            (api::BlockId::Root(Root::try_from(b.as_slice()).unwrap()), hex(&b))
        }
    }
}
fn who(r: &mut Rng) -> (api::PublicKeyOrIndex, String) {
    if r.below(2) == 0 {
        let i = ru64(r) as usize;
        (i.into(), i.to_string())
    } else {
        let b = rbytes(r, 48);
        (BlsPublicKey::try_from(b.as_slice()).unwrap().into(), hex(&b))
    }
}
fn statuses(r: &mut Rng) -> (Vec<api::ValidatorStatus>, Vec<String>) {
    use api::ValidatorStatus::*;
    let all = [
        (PendingInitialized, "pending_initialized"),
        (PendingQueued, "pending_queued"),
        (ActiveOngoing, "active_ongoing"),
        (ActiveExiting, "active_exiting"),
        (ActiveSlashed, "active_slashed"),
        (ExitedUnslashed, "exited_unslashed"),
        (ExitedSlashed, "exited_slashed"),
        (WithdrawalPossible, "withdrawal_possible"),
        (WithdrawalDone, "withdrawal_done"),
        (Active, "active"),
        (Pending, "pending"),
        (Exited, "exited"),
        (Withdrawal, "withdrawal"),
    ];
    let n = r.below(4);
    (0..n).map(|_| all[r.below(13) as usize]).map(|(a, b)| (a, b.to_string())).unzip()
}
fn some(r: &mut Rng) -> Option<u64> {
    (r.below(2) == 0).then(|| ru64(r))
}
fn b32(r: &mut Rng) -> (Vec<u8>, Bytes32) {
    let b = rbytes(r, 32);
    let v = Bytes32::try_from(b.as_slice()).unwrap();
    (b, v)
}
fn root(r: &mut Rng) -> (Root, String) {
    let b = rbytes(r, 32);
    (Root::try_from(b.as_slice()).unwrap(), hex(&b))
}
fn forks(v: usize) -> Fork {
    [Fork::Phase0, Fork::Altair, Fork::Bellatrix, Fork::Capella, Fork::Deneb][v]
}
fn validation(r: &mut Rng) -> (Option<api::BroadcastValidation>, Vec<(&'static str, Vec<String>)>) {
    use api::BroadcastValidation::*;
    let (v, n) = match r.below(4) {
        0 => return (None, vec![]),
        1 => (Gossip, "gossip"),
        2 => (Consensus, "consensus"),
        _ => (ConsensusAndEquivocation, "consensus_and_equivocation"),
    };
    (Some(v), vec![("broadcast_validation", vec![n.into()])])
}
fn q(k: &'static str, v: Option<u64>) -> Vec<(&'static str, Vec<String>)> {
    v.map(|v| (k, vec![v.to_string()])).into_iter().collect()
}
/// members a server may add beside `data`
fn extras(r: &mut Rng) -> Vec<(&'static str, J)> {
    let mut v = vec![];
    if r.below(2) == 0 {
        v.push(("execution_optimistic", J::Bool(r.below(2) == 0)));
    }
    if r.below(2) == 0 {
        v.push(("finalized", J::Bool(r.below(2) == 0)));
    }
    v
}
fn doc(r: &mut Rng, mut before: Vec<(&'static str, J)>, data: &J) -> J {
    before.extend(extras(r));
    let at = r.below(before.len() as u64 + 1) as usize;
    before.insert(at, ("data", data.clone()));
    o(before)
}
fn plural(t: &T, j: &J) -> Got {
    Got::Ssz(arr(j).iter().map(|x| t.ssz(x)).collect())
}

pub const KINDS: u64 = 63;

macro_rules! client {
    ($p:ident, $C2:ident) => {
        pub mod $p {
            use super::*;
            use ethereum_consensus::{altair::{self, $p as pa}, bellatrix::$p as pb, capella::{self, $p as pc}, deneb::$p as pd, phase0::{self, $p as p0}, types::$p as ty};
            pub type C = api::$p::$C2;

            fn ssz_block(b: &ty::SignedBeaconBlock) -> (usize, Vec<u8>) {
                match b {
                    ty::SignedBeaconBlock::Phase0(b) => (0, z(b)),
                    ty::SignedBeaconBlock::Altair(b) => (1, z(b)),
                    ty::SignedBeaconBlock::Bellatrix(b) => (2, z(b)),
                    ty::SignedBeaconBlock::Capella(b) => (3, z(b)),
                    ty::SignedBeaconBlock::Deneb(b) => (4, z(b)),
                }
            }
            fn tag((f, b): (usize, Vec<u8>)) -> Got {
                Got::Ssz(vec![vec![f as u8], b])
            }
            fn make_block(f: usize, t: &T, j: &J) -> ty::SignedBeaconBlock {
                match f {
                    0 => ty::SignedBeaconBlock::Phase0(back::<p0::SignedBeaconBlock>(t, j)),
                    1 => ty::SignedBeaconBlock::Altair(back::<pa::SignedBeaconBlock>(t, j)),
                    2 => ty::SignedBeaconBlock::Bellatrix(back::<pb::SignedBeaconBlock>(t, j)),
                    3 => ty::SignedBeaconBlock::Capella(back::<pc::SignedBeaconBlock>(t, j)),
                    _ => ty::SignedBeaconBlock::Deneb(back::<pd::SignedBeaconBlock>(t, j)),
                }
            }
            fn make_blinded(f: usize, t: &T, j: &J) -> ty::SignedBlindedBeaconBlock {
                match f {
                    2 => ty::SignedBlindedBeaconBlock::Bellatrix(back::<pb::SignedBlindedBeaconBlock>(t, j)),
                    3 => ty::SignedBlindedBeaconBlock::Capella(back::<pc::SignedBlindedBeaconBlock>(t, j)),
                    _ => ty::SignedBlindedBeaconBlock::Deneb(back::<pd::SignedBlindedBeaconBlock>(t, j)),
                }
            }

            /// one call with arguments and answer of its own
            pub fn make(kind: u64, r: &mut Rng, p: &Params, big: bool) -> Option<Call<C>> {
                let r = &mut *r;
                macro_rules! call {
                    (@ $name:literal, $post:expr, $path:expr, $query:expr, $version:expr, $body:expr, $doc:expr, $shape:expr, $want:expr, $poly:expr, |$c:ident| $e:expr) => {
                        Call { name: $name, post: $post, path: $path.to_string(), query: $query, version: $version, body: $body, doc: $doc, shape: $shape, want: $want, poly: $poly,
                            go: Box::new(move |$c: api::Client<C>| Box::pin(async move { $e })) }
                    };
                }
                // GET with the answer under "data"
                macro_rules! get {
                    ($name:literal, $path:expr, $query:expr, $t:expr, |$j:ident, $tt:ident| $want:expr, |$c:ident| $e:expr) => {{
                        let $tt: T = $t;
                        let $j = $tt.make(r);
                        let d = doc(r, vec![], &$j);
                        let want: Got = $want;
                        call!(@ $name, false, $path, $query, None, None, Some(d), Some($tt.clone()), want, false, |$c| $e)
                    }};
                }
                macro_rules! versioned {
                    ($name:literal, $f:expr, $path:expr, $query:expr, $t:expr, |$j:ident, $tt:ident| $want:expr, |$c:ident| $e:expr) => {{
                        let f: usize = $f;
                        let $tt: T = $t;
                        let $j = $tt.make(r);
                        let d = doc(r, vec![("version", s(sc::FORKS[f]))], &$j);
                        let want: Got = $want;
                        call!(@ $name, false, $path, $query, None, None, Some(d), Some($tt.clone()), want, true, |$c| $e)
                    }};
                }
                macro_rules! post {
                    ($name:literal, $path:expr, $query:expr, $version:expr, $body:expr, |$c:ident| $e:expr) => {{
                        let body: J = $body;
                        call!(@ $name, true, $path, $query, $version, Some(body), None, None, Got::Unit, false, |$c| { $e; Ok(Got::Unit) })
                    }};
                }
                // POST of a list of objects
                macro_rules! post_list {
                    ($name:literal, $path:expr, $t:expr, $ty:ty, |$c:ident, $v:ident| $e:expr) => {{
                        let t: T = $t;
                        let n = r.below(4);
                        let js: Vec<J> = (0..n).map(|_| t.make(r)).collect();
                        let $v: Vec<$ty> = js.iter().map(|j| back::<$ty>(&t, j)).collect();
                        post!($name, $path, vec![], None, J::Arr(js), |$c| $e)
                    }};
                }
                let (id, ids) = state_id(r);
                let (bid, bids) = block_id(r);
                Some(match kind {
                    0 => get!("get_genesis_details", "eth/v1/beacon/genesis", vec![], sc::genesis(), |j, _t| Got::Json(j.clone()), |c| {
                        let g = c.get_genesis_details().await?;
                        Ok(Got::Json(o(vec![("genesis_time", s(g.genesis_time)), ("genesis_validators_root", jb(g.genesis_validators_root)), ("genesis_fork_version", jb(g.genesis_fork_version))])))
                    }),
                    1 => get!("get_state_root", format!("eth/v1/beacon/states/{ids}/root"), vec![], obj(&[("root", T::Hex(32))]), |j, _t| Got::Json(j.clone()), |c| {
                        Ok(Got::Json(o(vec![("root", jb(c.get_state_root(id).await?))])))
                    }),
                    2 => get!("get_fork", format!("eth/v1/beacon/states/{ids}/fork"), vec![], sc::fork(), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| Ok(one(&c.get_fork(id).await?))),
                    3 => get!("get_finality_checkpoints", format!("eth/v1/beacon/states/{ids}/finality_checkpoints"), vec![], sc::finality(), |j, _t| Got::Json(j.clone()), |c| {
                        let f = c.get_finality_checkpoints(id).await?;
                        Ok(Got::Json(o(vec![("previous_justified", ck(&f.previous_justified)), ("current_justified", ck(&f.current_justified)), ("finalized", ck(&f.finalized))])))
                    }),
                    4 => {
                        let (w, ws): (Vec<_>, Vec<_>) = (0..r.below(4)).map(|_| who(r)).unzip();
                        let (f, fs) = statuses(r);
                        let mut qq = vec![];
                        if !ws.is_empty() {
                            qq.push(("id", ws))
                        }
                        if !fs.is_empty() {
                            qq.push(("status", fs))
                        }
                        get!("get_validators", format!("eth/v1/beacon/states/{ids}/validators"), qq, list(sc::validator_summary(), 5), |j, _t| Got::Json(j.clone()), |c| {
                            let v = c.get_validators(id, &w, &f).await?;
                            Ok(Got::Json(J::Arr(v.iter().map(validator).collect())))
                        })
                    }
                    5 => {
                        let (w, ws) = who(r);
                        get!("get_validator", format!("eth/v1/beacon/states/{ids}/validators/{ws}"), vec![], sc::validator_summary(), |j, _t| Got::Json(j.clone()), |c| {
                            Ok(Got::Json(validator(&c.get_validator(id, w).await?)))
                        })
                    }
                    6 => {
                        let (w, ws): (Vec<_>, Vec<_>) = (0..r.below(4)).map(|_| who(r)).unzip();
                        let qq = if ws.is_empty() { vec![] } else { vec![("id", ws)] };
                        get!("get_balances", format!("eth/v1/beacon/states/{ids}/validator_balances"), qq, list(sc::balance(), 5), |j, _t| Got::Json(j.clone()), |c| {
                            let v = c.get_balances(id, &w).await?;
                            Ok(Got::Json(J::Arr(v.iter().map(|b| o(vec![("index", s(b.index)), ("balance", s(b.balance))])).collect())))
                        })
                    }
                    7 => get!("get_all_committees", format!("eth/v1/beacon/states/{ids}/committees"), vec![], list(sc::committee(), 5), |j, _t| Got::Json(j.clone()), |c| {
                        Ok(Got::Json(J::Arr(c.get_all_committees(id).await?.iter().map(committee).collect())))
                    }),
                    8 => {
                        let (epoch, index, slot) = (some(r), some(r), some(r));
                        let f = api::CommitteeFilter { epoch, index: index.map(|x| x as usize), slot };
                        let qq = [q("epoch", epoch), q("index", index), q("slot", slot)].concat();
                        get!("get_committees", format!("eth/v1/beacon/states/{ids}/committees"), qq, list(sc::committee(), 5), |j, _t| Got::Json(j.clone()), |c| {
                            Ok(Got::Json(J::Arr(c.get_committees(id, f).await?.iter().map(committee).collect())))
                        })
                    }
                    9 => {
                        let e = some(r);
                        get!("get_sync_committees", format!("eth/v1/beacon/states/{ids}/sync_committees"), q("epoch", e), sc::sync_committees(), |j, _t| Got::Json(j.clone()), |c| {
                            let v = c.get_sync_committees(id, e).await?;
                            Ok(Got::Json(o(vec![("validators", ju(&v.validators)), ("validator_aggregates", J::Arr(v.validator_aggregates.iter().map(|x| ju(&x.0)).collect()))])))
                        })
                    }
                    10 => {
                        let e = some(r);
                        get!("get_randao", format!("eth/v1/beacon/states/{ids}/randao"), q("epoch", e), obj(&[("randao", T::Hex(32))]), |j, _t| Got::Json(j.clone()), |c| {
                            Ok(Got::Json(o(vec![("randao", jb(&c.get_randao(id, e).await?))])))
                        })
                    }
                    // the header queries answer with a list
                    11..=13 => {
                        let t = list(sc::header_summary(), 1);
                        // forks at one slot: at most one of them is in the canonical chain
                        let n = 1 + r.below(3) as usize;
                        let at = r.below(n as u64) as usize;
                        let all: Vec<J> = (0..n)
                            .map(|i| {
                                let mut h = sc::header_summary().make(r);
                                if let J::Obj(f) = &mut h {
                                    f.iter_mut().filter(|(k, _)| n > 1 && k == "canonical").for_each(|(_, v)| *v = J::Bool(i == at));
                                }
                                h
                            })
                            .collect();
                        let want = Got::Json(J::Arr(vec![all[at].clone()]));
                        let j = J::Arr(all);
                        let d = doc(r, vec![], &j);
                        match kind {
                            11 => call!(@ "get_beacon_header_at_head", false, "eth/v1/beacon/headers", vec![], None, None, Some(d), Some(t), want, false, |c| Ok(Got::Json(J::Arr(vec![headers(&c.get_beacon_header_at_head().await?)])))),
                            12 => {
                                let x = ru64(r);
                                call!(@ "get_beacon_header_for_slot", false, "eth/v1/beacon/headers", q("slot", Some(x)), None, None, Some(d), Some(t), want, false, |c| Ok(Got::Json(J::Arr(vec![headers(&c.get_beacon_header_for_slot(x).await?)]))))
                            }
                            _ => {
                                let (x, xs) = root(r);
                                call!(@ "get_beacon_header_for_parent_root", false, "eth/v1/beacon/headers", vec![("parent_root", vec![xs])], None, None, Some(d), Some(t), want, false, |c| Ok(Got::Json(J::Arr(vec![headers(&c.get_beacon_header_for_parent_root(x).await?)]))))
                            }
                        }
                    }
                    14 => get!("get_beacon_header", format!("eth/v1/beacon/headers/{bids}"), vec![], sc::header_summary(), |j, _t| Got::Json(j.clone()), |c| Ok(Got::Json(headers(&c.get_beacon_header(bid).await?)))),
                    15 | 16 => {
                        let f = 2 + r.below(3) as usize;
                        let t = sc::signed(sc::block(f, true, p));
                        let j = t.make(r);
                        let b = make_blinded(f, &t, &j);
                        if kind == 15 {
                            post!("post_signed_blinded_beacon_block", "eth/v1/beacon/blinded_blocks", vec![], None, j, |c| c.post_signed_blinded_beacon_block(&b).await?)
                        } else {
                            let (v, qq) = validation(r);
                            post!("post_signed_blinded_beacon_block_v2", "eth/v2/beacon/blinded_blocks", qq, Some(sc::FORKS[f]), j, |c| c.post_signed_blinded_beacon_block_v2(&b, forks(f), v).await?)
                        }
                    }
                    17 => {
                        let f = r.below(5) as usize;
                        let t = sc::signed(sc::block(f, false, p));
                        let j = t.make(r);
                        let b = make_block(f, &t, &j);
                        post!("post_signed_beacon_block", "eth/v1/beacon/blocks", vec![], None, j, |c| c.post_signed_beacon_block(&b).await?)
                    }
                    18 => {
                        let t = sc::signed(sc::block(4, false, p));
                        let j = t.make(r);
                        let b = make_block(4, &t, &j);
                        let (v, qq) = validation(r);
                        let n = if big { r.below(3) } else { 0 };
                        let pj: Vec<J> = (0..n).map(|_| T::Hex(48).make(r)).collect();
                        let bj: Vec<J> = (0..n).map(|_| T::Hex(131072).make(r)).collect();
                        let proofs: Vec<ethereum_consensus::crypto::KzgProof> = pj.iter().map(|j| back(&T::Hex(48), j)).collect();
                        let blobs: Vec<pd::Blob> = bj.iter().map(|j| back(&T::Hex(131072), j)).collect();
                        let body = o(vec![("signed_block", j), ("kzg_proofs", J::Arr(pj)), ("blobs", J::Arr(bj))]);
                        post!("post_signed_beacon_block_v2", "eth/v2/beacon/blocks", qq, Some("deneb"), body, |c| {
                            let x = api::SubmitSignedBeaconBlock { signed_block: &b, kzg_proofs: Some(&proofs), blobs: Some(&blobs) };
                            c.post_signed_beacon_block_v2(x, Fork::Deneb, v).await?
                        })
                    }
                    19 => {
                        let f = r.below(5) as usize;
                        versioned!("get_beacon_block", f, format!("eth/v2/beacon/blocks/{bids}"), vec![], sc::signed(sc::block(f, false, p)), |j, t| tag((f, t.ssz(&j))), |c| Ok(tag(ssz_block(&c.get_beacon_block(bid).await?))))
                    }
                    20 => get!("get_beacon_block_root", format!("eth/v1/beacon/blocks/{bids}/root"), vec![], obj(&[("root", T::Hex(32))]), |j, _t| Got::Json(j.clone()), |c| {
                        Ok(Got::Json(o(vec![("root", jb(c.get_beacon_block_root(bid).await?))])))
                    }),
                    21 => get!("get_attestations_from_beacon_block", format!("eth/v1/beacon/blocks/{bids}/attestations"), vec![], list(sc::attestation(), 9), |j, _t| plural(&sc::attestation(), &j), |c| Ok(many(&c.get_attestations_from_beacon_block(bid).await?))),
                    22 => {
                        if !big {
                            return None;
                        }
                        let n = r.below(3);
                        let idx: Vec<usize> = (0..r.below(4)).map(|_| r.below(6) as usize).collect();
                        let qq = if idx.is_empty() { vec![] } else { vec![("indices", idx.iter().map(|x| x.to_string()).collect())] };
                        let t = sc::sidecar(p);
                        let j = J::Arr((0..n).map(|_| t.make(r)).collect());
                        let d = doc(r, vec![], &j);
                        let want = plural(&t, &j);
                        call!(@ "get_blob_sidecars", false, format!("eth/v1/beacon/blob_sidecars/{bids}"), qq, None, None, Some(d), Some(list(t, 6)), want, false, |c| Ok(many(&c.get_blob_sidecars(bid, &idx).await?)))
                    }
                    23 => get!("get_deposit_snapshot", "eth/v1/beacon/deposit_snapshot", vec![], sc::deposit_snapshot(), |j, _t| Got::Json(j.clone()), |c| {
                        let v = c.get_deposit_snapshot().await?;
                        Ok(Got::Json(o(vec![
                            ("finalized", J::Arr(v.finalized.iter().map(jb).collect())),
                            ("deposit_root", jb(&v.deposit_root)),
                            ("deposit_count", s(v.deposit_count)),
                            ("execution_block_hash", jb(&v.execution_block_hash)),
                            ("execution_block_height", s(v.execution_block_height)),
                        ])))
                    }),
                    24 => {
                        let f = 2 + r.below(3) as usize;
                        versioned!("get_blinded_block", f, format!("eth/v1/beacon/blinded_blocks/{bids}"), vec![], sc::signed(sc::block(f, true, p)), |j, t| tag((f, t.ssz(&j))), |c| {
                            Ok(tag(match &c.get_blinded_block(bid).await? {
                                ty::SignedBlindedBeaconBlock::Bellatrix(b) => (2, z(b)),
                                ty::SignedBlindedBeaconBlock::Capella(b) => (3, z(b)),
                                ty::SignedBlindedBeaconBlock::Deneb(b) => (4, z(b)),
                            }))
                        })
                    }
                    25 => {
                        let (x, xs) = root(r);
                        get!("get_light_client_bootstrap", format!("eth/v1/beacon/light_client/bootstrap/{xs}"), vec![], sc::lc_bootstrap(p), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| Ok(one(&c.get_light_client_bootstrap(x).await?)))
                    }
                    26 => {
                        // a list of versioned updates, without an envelope
                        let (start, count) = (ru64(r), if r.below(3) == 0 { ru64(r) } else { r.below(129) });
                        let t = sc::lc_update(p);
                        let js: Vec<J> = (0..r.below(3)).map(|_| t.make(r)).collect();
                        let want = Got::Ssz(js.iter().map(|j| t.ssz(j)).collect());
                        let d = J::Arr(js.into_iter().map(|j| o(vec![("version", s("altair")), ("data", j)])).collect());
                        let shape = list(obj(&[("version", T::Enum(&["altair"])), ("data", t)]), 3);
                        call!(@ "get_light_client_updates", false, "eth/v1/beacon/light_client/updates", [q("start_period", Some(start)), q("count", Some(count))].concat(), None, None, Some(d), Some(shape), want, false, |c| Ok(many(&c.get_light_client_updates(start, count).await?)))
                    }
                    27 => get!("get_light_client_finality_update", "eth/v1/beacon/light_client/finality_update", vec![], sc::lc_finality(p), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| Ok(one(&c.get_light_client_finality_update().await?))),
                    28 => get!("get_light_client_optimistic_update", "eth/v1/beacon/light_client/optimistic_update", vec![], sc::lc_optimistic(p), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| Ok(one(&c.get_light_client_optimistic_update().await?))),
                    29 => {
                        let (slot, index) = (some(r), some(r));
                        get!("get_attestations_from_pool", "eth/v1/beacon/pool/attestations", [q("slot", slot), q("committee_index", index)].concat(), list(sc::attestation(), 9), |j, _t| plural(&sc::attestation(), &j), |c| {
                            Ok(many(&c.get_attestations_from_pool(slot, index.map(|x| x as usize)).await?))
                        })
                    }
                    30 => post_list!("post_attestations", "eth/v1/beacon/pool/attestations", sc::attestation(), p0::Attestation, |c, v| c.post_attestations(&v).await?),
                    31 => get!("get_attester_slashings_from_pool", "eth/v1/beacon/pool/attester_slashings", vec![], list(sc::attester_slashing(), 9), |j, _t| plural(&sc::attester_slashing(), &j), |c| Ok(many(&c.get_attester_slashings_from_pool().await?))),
                    32 => {
                        let t = sc::attester_slashing();
                        let j = t.make(r);
                        let v: p0::AttesterSlashing = back(&t, &j);
                        post!("post_attester_slashing", "eth/v1/beacon/pool/attester_slashings", vec![], None, j, |c| c.post_attester_slashing(&v).await?)
                    }
                    33 => get!("get_proposer_slashings_from_pool", "eth/v1/beacon/pool/proposer_slashings", vec![], list(sc::proposer_slashing(), 9), |j, _t| plural(&sc::proposer_slashing(), &j), |c| Ok(many(&c.get_proposer_slashings_from_pool().await?))),
                    34 => {
                        let t = sc::proposer_slashing();
                        let j = t.make(r);
                        let v: phase0::ProposerSlashing = back(&t, &j);
                        post!("post_proposer_slashing", "eth/v1/beacon/pool/proposer_slashings", vec![], None, j, |c| c.post_proposer_slashing(&v).await?)
                    }
                    35 => post_list!("post_sync_committee_messages", "eth/v1/beacon/pool/sync_committees", sc::sync_message(), altair::SyncCommitteeMessage, |c, v| c.post_sync_committee_messages(&v).await?),
                    36 => get!("get_voluntary_exits_from_pool", "eth/v1/beacon/pool/voluntary_exits", vec![], list(sc::signed_exit(), 9), |j, _t| plural(&sc::signed_exit(), &j), |c| Ok(many(&c.get_voluntary_exits_from_pool().await?))),
                    37 => {
                        let t = sc::signed_exit();
                        let j = t.make(r);
                        let v: phase0::SignedVoluntaryExit = back(&t, &j);
                        post!("post_signed_voluntary_exit", "eth/v1/beacon/pool/voluntary_exits", vec![], None, j, |c| c.post_signed_voluntary_exit(&v).await?)
                    }
                    38 => get!("get_bls_to_execution_changes", "eth/v1/beacon/pool/bls_to_execution_changes", vec![], list(sc::signed_change(), 9), |j, _t| plural(&sc::signed_change(), &j), |c| Ok(many(&c.get_bls_to_execution_changes().await?))),
                    39 => post_list!("post_bls_to_execution_changes", "eth/v1/beacon/pool/bls_to_execution_changes", sc::signed_change(), capella::SignedBlsToExecutionChange, |c, v| c.post_bls_to_execution_changes(&v).await?),
                    40 => {
                        let slot = some(r);
                        get!("get_expected_withdrawals", format!("eth/v1/builder/states/{ids}/expected_withdrawals"), q("proposal_slot", slot), list(sc::withdrawal(), 9), |j, _t| plural(&sc::withdrawal(), &j), |c| Ok(many(&c.get_expected_withdrawals(id, slot).await?)))
                    }
                    41 => get!("get_fork_schedule", "eth/v1/config/fork_schedule", vec![], list(sc::fork(), 9), |j, _t| plural(&sc::fork(), &j), |c| Ok(many(&c.get_fork_schedule().await?))),
                    42 => {
                        let names: Vec<(String, J)> = (0..r.below(6)).map(|i| (format!("{}_{i}", ["SLOTS_PER_EPOCH", "X", "CONFIG_NAME"][r.below(3) as usize]), J::Str(text(r)))).collect();
                        let j = J::Obj(names);
                        let d = doc(r, vec![], &j);
                        call!(@ "get_spec", false, "eth/v1/config/spec", vec![], None, None, Some(d), None, Got::Json(j), false, |c| {
                            let m = c.get_spec().await?;
                            let mut v: Vec<(String, J)> = m.into_iter().map(|(k, v)| (k, J::Str(v))).collect();
                            v.sort_by(|a, b| a.0.cmp(&b.0));
                            Ok(Got::Json(J::Obj(v)))
                        })
                    }
                    43 => get!("get_deposit_contract_address", "eth/v1/config/deposit_contract", vec![], obj(&[("chain_id", T::U64), ("address", T::Hex(20))]), |j, _t| Got::Json(j.clone()), |c| {
                        let v = c.get_deposit_contract_address().await?;
                        Ok(Got::Json(o(vec![("chain_id", s(v.chain_id)), ("address", jb(&v.address))])))
                    }),
                    44 => {
                        if p.mainnet {
                            return None;
                        }
                        let f = r.below(5) as usize;
                        versioned!("get_state", f, format!("eth/v2/debug/beacon/states/{ids}"), vec![], sc::state(f, p), |j, t| tag((f, t.ssz(&j))), |c| {
                            Ok(tag(match &c.get_state(id).await? {
                                ty::BeaconState::Phase0(b) => (0, z(b)),
                                ty::BeaconState::Altair(b) => (1, z(b)),
                                ty::BeaconState::Bellatrix(b) => (2, z(b)),
                                ty::BeaconState::Capella(b) => (3, z(b)),
                                ty::BeaconState::Deneb(b) => (4, z(b)),
                            }))
                        })
                    }
                    45 => get!("get_heads", "eth/v2/debug/beacon/heads", vec![], sc::heads(), |j, _t| Got::Json(j.clone()), |c| {
                        Ok(Got::Json(J::Arr(c.get_heads().await?.iter().map(via).collect())))
                    }),
                    46 => get!("get_node_identity", "eth/v1/node/identity", vec![], sc::identity(), |j, _t| Got::Json(j.clone()), |c| {
                        let v = c.get_node_identity().await?;
                        Ok(Got::Json(o(vec![
                            ("peer_id", s(v.peer_id)),
                            ("enr", s(&v.enr)),
                            ("p2p_addresses", ju(&v.p2p_addresses)),
                            ("discovery_addresses", ju(&v.discovery_addresses)),
                            ("metadata", o(vec![("seq_number", s(v.metadata.seq_number)), ("attnets", jb(z(&v.metadata.attnets))), ("syncnets", jb(z(&v.metadata.syncnets)))])),
                        ])))
                    }),
                    47 => {
                        use api::{ConnectionOrientation as D, PeerState as S};
                        let st = |x: u64| [S::Disconnected, S::Connecting, S::Connected, S::Disconnecting].into_iter().nth(x as usize).unwrap();
                        let (a, an): (Vec<_>, Vec<_>) = (0..r.below(3)).map(|_| { let x = r.below(4); (st(x), sc::PEER_STATES[x as usize].to_string()) }).unzip();
                        let (b, bn): (Vec<_>, Vec<_>) = (0..r.below(3)).map(|_| if r.below(2) == 0 { (D::Inbound, "inbound".to_string()) } else { (D::Outbound, "outbound".to_string()) }).unzip();
                        let mut qq = vec![];
                        if !an.is_empty() {
                            qq.push(("state", an))
                        }
                        if !bn.is_empty() {
                            qq.push(("direction", bn))
                        }
                        get!("get_node_peers", "eth/v1/node/peers", qq, list(sc::peer(), 5), |j, _t| Got::Json(j.clone()), |c| Ok(Got::Json(J::Arr(c.get_node_peers(&a, &b).await?.iter().map(peer).collect()))))
                    }
                    48 => {
                        let J::Str(ps) = T::PeerId.make(r) else { unreachable!() };
                        let pid: ethereum_consensus::networking::PeerId = ps.parse().expect("harness: peer id");
                        get!("get_peer", format!("eth/v1/node/peers/{ps}"), vec![], sc::peer(), |j, _t| Got::Json(j.clone()), |c| Ok(Got::Json(peer(&c.get_peer(pid).await?))))
                    }
                    49 => get!("get_peer_summary", "eth/v1/node/peer_count", vec![], sc::peer_count(), |j, _t| Got::Json(j.clone()), |c| {
                        let v = c.get_peer_summary().await?;
                        Ok(Got::Json(o(vec![("disconnected", s(v.disconnected)), ("connecting", s(v.connecting)), ("connected", s(v.connected)), ("disconnecting", s(v.disconnecting))])))
                    }),
                    50 => get!("get_node_version", "eth/v1/node/version", vec![], obj(&[("version", T::Text)]), |j, _t| Got::Json(j.clone()), |c| Ok(Got::Json(o(vec![("version", J::Str(c.get_node_version().await?))])))),
                    51 => get!("get_sync_status", "eth/v1/node/syncing", vec![], sc::syncing(), |j, _t| Got::Json(j.clone()), |c| {
                        let v = c.get_sync_status().await?;
                        Ok(Got::Json(o(vec![("head_slot", s(v.head_slot)), ("sync_distance", s(v.sync_distance)), ("is_syncing", J::Bool(v.is_syncing))])))
                    }),
                    52 => call!(@ "get_health", false, "eth/v1/node/health", vec![], None, None, None, None, Got::Json(s("ready")), false, |c| {
                        Ok(Got::Json(s(match c.get_health().await? {
                            api::HealthStatus::Ready => "ready",
                            api::HealthStatus::Syncing => "syncing",
                            api::HealthStatus::NotInitialized => "not initialized",
                            api::HealthStatus::Unknown => "unknown",
                        })))
                    }),
                    53 | 54 | 55 | 62 => {
                        let epoch = ru64(r);
                        let idx: Vec<usize> = (0..r.below(5)).map(|_| ru64(r) as usize).collect();
                        let body = ju(&idx);
                        let dep = T::Hex(32).make(r);
                        match kind {
                            53 => {
                                let t = list(sc::attester_duty(), 6);
                                let j = t.make(r);
                                let d = doc(r, vec![("dependent_root", dep.clone())], &j);
                                call!(@ "get_attester_duties", true, format!("eth/v1/validator/duties/attester/{epoch}"), vec![], None, Some(body), Some(d), Some(t), Got::Json(o(vec![("root", dep), ("duties", j)])), false, |c| {
                                    let (root, v) = c.get_attester_duties(epoch, &idx).await?;
                                    let v = v.iter().map(|d| o(vec![
                                        ("pubkey", jb(z(&d.public_key))), ("validator_index", s(d.validator_index)), ("committee_index", s(d.committee_index)), ("committee_length", s(d.committee_length)),
                                        ("committees_at_slot", s(d.committees_at_slot)), ("validator_committee_index", s(d.validator_committee_index)), ("slot", s(d.slot)),
                                    ])).collect();
                                    Ok(Got::Json(o(vec![("root", jb(root)), ("duties", J::Arr(v))])))
                                })
                            }
                            54 => {
                                let t = list(sc::proposer_duty(), 6);
                                let j = t.make(r);
                                let d = doc(r, vec![("dependent_root", dep.clone())], &j);
                                call!(@ "get_proposer_duties", false, format!("eth/v1/validator/duties/proposer/{epoch}"), vec![], None, None, Some(d), Some(t), Got::Json(o(vec![("root", dep), ("duties", j)])), false, |c| {
                                    let (root, v) = c.get_proposer_duties(epoch).await?;
                                    let v = v.iter().map(|d| o(vec![("pubkey", jb(z(&d.public_key))), ("validator_index", s(d.validator_index)), ("slot", s(d.slot))])).collect();
                                    Ok(Got::Json(o(vec![("root", jb(root)), ("duties", J::Arr(v))])))
                                })
                            }
                            55 => {
                                let t = list(sc::sync_duty(), 6);
                                let j = t.make(r);
                                let d = doc(r, vec![], &j);
                                call!(@ "get_sync_committee_duties", true, format!("eth/v1/validator/duties/sync/{epoch}"), vec![], None, Some(body), Some(d), Some(t), Got::Json(j), false, |c| {
                                    let v = c.get_sync_committee_duties(epoch, &idx).await?;
                                    let v = v.iter().map(|d| o(vec![("pubkey", jb(z(&d.public_key))), ("validator_index", s(d.validator_index)), ("validator_sync_committee_indices", ju(&d.validator_sync_committee_indices))])).collect();
                                    Ok(Got::Json(J::Arr(v)))
                                })
                            }
                            _ => {
                                let t = list(obj(&[("index", T::U64), ("is_live", T::Bool)]), 6);
                                let j = t.make(r);
                                let d = doc(r, vec![], &j);
                                call!(@ "post_liveness", true, format!("eth/v1/validator/liveness/{epoch}"), vec![], None, Some(body), Some(d), Some(t), Got::Json(j), false, |c| {
                                    Ok(Got::Json(J::Arr(c.post_liveness(epoch, &idx).await?.iter().map(via).collect())))
                                })
                            }
                        }
                    }
                    56 | 57 => {
                        let slot = ru64(r);
                        let rb = rbytes(r, 96);
                        let reveal = BlsSignature::try_from(rb.as_slice()).unwrap();
                        let mut qq = vec![("randao_reveal", vec![hex(&rb)])];
                        let g = (r.below(2) == 0).then(|| b32(r));
                        if let Some((b, _)) = &g {
                            qq.push(("graffiti", vec![hex(b)]));
                        }
                        let g = g.map(|x| x.1);
                        if kind == 56 {
                            // from deneb on this endpoint answers with block and blobs
                            let f = r.below(4) as usize;
                            versioned!("get_block_proposal", f, format!("eth/v2/validator/blocks/{slot}"), qq, sc::block(f, false, p), |j, t| tag((f, t.ssz(&j))), |c| {
                                Ok(tag(match &c.get_block_proposal(slot, reveal, g).await? {
                                    ty::BeaconBlock::Phase0(b) => (0, z(b)),
                                    ty::BeaconBlock::Altair(b) => (1, z(b)),
                                    ty::BeaconBlock::Bellatrix(b) => (2, z(b)),
                                    ty::BeaconBlock::Capella(b) => (3, z(b)),
                                    ty::BeaconBlock::Deneb(b) => (4, z(b)),
                                }))
                            })
                        } else {
                            let f = 2 + r.below(3) as usize;
                            versioned!("get_blinded_block_proposal", f, format!("eth/v1/validator/blinded_blocks/{slot}"), qq, sc::block(f, true, p), |j, t| tag((f, t.ssz(&j))), |c| {
                                Ok(tag(match &c.get_blinded_block_proposal(slot, reveal, g).await? {
                                    ty::BlindedBeaconBlock::Bellatrix(b) => (2, z(b)),
                                    ty::BlindedBeaconBlock::Capella(b) => (3, z(b)),
                                    ty::BlindedBeaconBlock::Deneb(b) => (4, z(b)),
                                }))
                            })
                        }
                    }
                    58 => {
                        let (slot, index) = (ru64(r), ru64(r));
                        get!("get_attestation_data", "eth/v1/validator/attestation_data", [q("slot", Some(slot)), q("committee_index", Some(index))].concat(), sc::att_data(), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| Ok(one(&c.get_attestation_data(slot, index as usize).await?)))
                    }
                    59 => {
                        let (x, xs) = root(r);
                        let slot = ru64(r);
                        get!("get_attestation_aggregate", "eth/v1/validator/aggregate_attestation", [vec![("attestation_data_root", vec![xs])], q("slot", Some(slot))].concat(), sc::attestation(), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| Ok(one(&c.get_attestation_aggregate(x, slot).await?)))
                    }
                    60 => {
                        let (x, xs) = root(r);
                        let (slot, index) = (ru64(r), r.below(4));
                        get!("get_sync_committee_contribution", "eth/v1/validator/sync_committee_contribution", [vec![("beacon_block_root", vec![xs])], q("slot", Some(slot)), q("subcommittee_index", Some(index))].concat(), sc::contribution(p), |j, t| Got::Ssz(vec![t.ssz(&j)]), |c| {
                            Ok(one(&c.get_sync_committee_contribution(slot, index as usize, x).await?))
                        })
                    }
                    61 => match r.below(6) {
                        0 => post_list!("post_aggregates_with_proofs", "eth/v1/validator/aggregate_and_proofs", sc::signed_aggregate(), p0::SignedAggregateAndProof, |c, v| c.post_aggregates_with_proofs(&v).await?),
                        1 => {
                            let v: Vec<_> = (0..r.below(4)).map(|_| (ru64(r), ru64(r), ru64(r), ru64(r), r.below(2) == 0)).collect();
                            let body = J::Arr(v.iter().map(|v| o(vec![("validator_index", s(v.0)), ("committee_index", s(v.1)), ("committees_at_slot", s(v.2)), ("slot", s(v.3)), ("is_aggregator", J::Bool(v.4))])).collect());
                            post!("subscribe_subnets_for_attestation_committees", "eth/v1/validator/beacon_committee_subscriptions", vec![], None, body, |c| {
                                let v: Vec<_> = v.iter().map(|v| api::CommitteeDescriptor { validator_index: v.0 as usize, committee_index: v.1 as usize, committees_at_slot: v.2 as usize, slot: v.3, is_aggregator: v.4 }).collect();
                                c.subscribe_subnets_for_attestation_committees(&v).await?
                            })
                        }
                        2 => {
                            let v: Vec<_> = (0..r.below(4)).map(|_| (ru64(r), (0..r.below(4)).map(|_| r.below(512)).collect::<Vec<_>>(), ru64(r))).collect();
                            let body = J::Arr(v.iter().map(|v| o(vec![("validator_index", s(v.0)), ("sync_committee_indices", ju(&v.1)), ("until_epoch", s(v.2))])).collect());
                            post!("subscribe_subnets_for_sync_committees", "eth/v1/validator/sync_committee_subscriptions", vec![], None, body, |c| {
                                let v: Vec<_> = v.iter().map(|v| api::SyncCommitteeDescriptor { validator_index: v.0 as usize, sync_committee_indices: v.1.iter().map(|x| *x as usize).collect(), until_epoch: v.2 }).collect();
                                c.subscribe_subnets_for_sync_committees(&v).await?
                            })
                        }
                        3 => post_list!("post_sync_committee_contributions_with_proofs", "eth/v1/validator/contribution_and_proofs", sc::signed_contribution(p), pa::SignedContributionAndProof, |c, v| c.post_sync_committee_contributions_with_proofs(&v).await?),
                        4 => {
                            let v: Vec<_> = (0..r.below(4)).map(|_| (ru64(r), rbytes(r, 20))).collect();
                            let body = J::Arr(v.iter().map(|v| o(vec![("validator_index", s(v.0)), ("fee_recipient", jb(&v.1))])).collect());
                            post!("prepare_proposers", "eth/v1/validator/prepare_beacon_proposer", vec![], None, body, |c| {
                                let v: Vec<_> = v.iter().map(|v| api::BeaconProposerRegistration { validator_index: v.0 as usize, fee_recipient: ExecutionAddress::try_from(v.1.as_slice()).unwrap() }).collect();
                                c.prepare_proposers(&v).await?
                            })
                        }
                        _ => post_list!("register_validators_with_builders", "eth/v1/validator/register_validator", sc::registration(), ethereum_consensus::builder::SignedValidatorRegistration, |c, v| c.register_validators_with_builders(&v).await?),
                    },
                    _ => return None,
                })
            }
        }
    };
}
client!(minimal, MinimalClientTypes);
client!(mainnet, MainnetClientTypes);

fn validator(v: &api::ValidatorSummary) -> J {
    let x = &v.validator;
    o(vec![
        ("index", s(v.index)),
        ("balance", s(v.balance)),
        ("status", status(&v.status)),
        (
            "validator",
            o(vec![
                ("pubkey", jb(z(&x.public_key))),
                ("withdrawal_credentials", jb(&x.withdrawal_credentials)),
                ("effective_balance", s(x.effective_balance)),
                ("slashed", J::Bool(x.slashed)),
                ("activation_eligibility_epoch", s(x.activation_eligibility_epoch)),
                ("activation_epoch", s(x.activation_epoch)),
                ("exit_epoch", s(x.exit_epoch)),
                ("withdrawable_epoch", s(x.withdrawable_epoch)),
            ]),
        ),
    ])
}
fn headers(h: &api::BeaconHeaderSummary) -> J {
    let m = &h.header.message;
    o(vec![
        ("root", jb(h.root)),
        ("canonical", J::Bool(h.canonical)),
        (
            "header",
            o(vec![
                (
                    "message",
                    o(vec![
                        ("slot", s(m.slot)),
                        ("proposer_index", s(m.proposer_index)),
                        ("parent_root", jb(m.parent_root)),
                        ("state_root", jb(m.state_root)),
                        ("body_root", jb(m.body_root)),
                    ]),
                ),
                ("signature", jb(z(&h.header.signature))),
            ]),
        ),
    ])
}

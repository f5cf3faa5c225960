//! Signed messages on several networks at once: an adversary replays every signature it saw in every other role,
//! fork, network, epoch and for every other message and key; aggregates are cut, padded and recombined.
use crate::{check::*, gen::*, world::*};
use bridge_api::{A, Q};
use ethereum_consensus::{
    altair::{SyncAggregatorSelectionData},
    builder::{compute_builder_domain, ValidatorRegistration},
    capella::BlsToExecutionChange,
    crypto,
    domains::DomainType,
    phase0::{compute_domain, compute_fork_digest, AttestationData, BeaconBlockHeader, DepositMessage, VoluntaryExit},
    primitives::{BlsPublicKey, BlsSignature, Domain},
    signing::{compute_signing_root, sign_with_domain, verify_signed_data},
    ssz::prelude::{deserialize, ByteVector, Node as SszNode},
};
use refspec::{ssz::V, Fork::*, *};
use simkit::Sim;

const OWN: &[&str] = &["C15"];
const KINDS: [(u32, DomainType); 14] = [
    (D_PROPOSER, DomainType::BeaconProposer),
    (D_ATTESTER, DomainType::BeaconAttester),
    (D_RANDAO, DomainType::Randao),
    (D_DEPOSIT, DomainType::Deposit),
    (D_EXIT, DomainType::VoluntaryExit),
    (D_SELECTION, DomainType::SelectionProof),
    (D_AGGREGATE, DomainType::AggregateAndProof),
    (D_SYNC, DomainType::SyncCommittee),
    (D_SYNC_SELECTION, DomainType::SyncCommitteeSelectionProof),
    (D_CONTRIBUTION, DomainType::ContributionAndProof),
    (D_BLS_CHANGE, DomainType::BlsToExecutionChange),
    (D_CONSOLIDATION, DomainType::Consolidation),
    (D_BUILDER, DomainType::ApplicationMask),
    (D_BUILDER, DomainType::ApplicationBuilder),
];
/// the domain constants of the specification
const BYTES: [[u8; 4]; 14] =
    [[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [3, 0, 0, 0], [4, 0, 0, 0], [5, 0, 0, 0], [6, 0, 0, 0], [7, 0, 0, 0], [8, 0, 0, 0], [9, 0, 0, 0], [10, 0, 0, 0], [11, 0, 0, 0], [0, 0, 0, 1], [0, 0, 0, 1]];

#[derive(Clone, PartialEq, Debug)]
struct Place {
    kind: usize,
    version: [u8; 4],
    gvr: Root,
}
#[derive(Clone)]
struct Message {
    shape: usize,
    v: V,
}
#[derive(Clone)]
struct Signed {
    m: Message,
    key: usize,
    at: Place,
    sig: Sig,
}
fn message(r: &mut Sub) -> Message {
    let cp = |r: &mut Sub| Checkpoint { epoch: r.below(1000), root: r.root() };
    let shape = r.below(9) as usize;
    let v = match shape {
        0 => Header { slot: r.below(1000), proposer: r.below(64), parent: r.root(), state: r.root(), body: r.root() }.v(),
        1 => AttData { slot: r.below(1000), index: r.below(4), head: r.root(), source: cp(r), target: cp(r) }.v(),
        2 => V::U64(r.below(1000)),
        3 => V::C(vec![("pubkey", V::Bytes(pk(r.below(16) as usize).to_vec())), ("creds", V::b32(&r.root())), ("amount", V::U64(r.below(1 << 40)))]),
        4 => V::C(vec![("epoch", V::U64(r.below(1000))), ("validator_index", V::U64(r.below(64)))]),
        5 => V::C(vec![("validator_index", V::U64(r.below(64))), ("from", V::Bytes(pk(r.below(16) as usize).to_vec())), ("to", V::Bytes(r.root()[..20].to_vec()))]),
        6 => V::C(vec![("slot", V::U64(r.below(1000))), ("subcommittee_index", V::U64(r.below(4)))]),
        7 => V::C(vec![("fee", V::Bytes(r.root()[..20].to_vec())), ("gas", V::U64(r.below(1 << 30))), ("time", V::U64(r.below(1 << 30))), ("pubkey", V::Bytes(pk(r.below(16) as usize).to_vec()))]),
        _ => V::b32(&r.root()),
    };
    Message { shape, v }
}
macro_rules! typed {
    ($m:expr, $x:ident => $e:expr) => {{
        let b = $m.v.encode();
        macro_rules! go {
            ($t:ty) => {{
                let $x: $t = deserialize::<$t>(&b).map_err(|e| format!("{e:?}"))?;
                $e
            }};
        }
        match $m.shape {
            0 => go!(BeaconBlockHeader),
            1 => go!(AttestationData),
            2 => go!(u64),
            3 => go!(DepositMessage),
            4 => go!(VoluntaryExit),
            5 => go!(BlsToExecutionChange),
            6 => go!(SyncAggregatorSelectionData),
            7 => go!(ValidatorRegistration),
            _ => go!(SszNode),
        }
    }};
}
fn key_of(p: &Pk) -> BlsPublicKey {
    BlsPublicKey::try_from(&p[..]).unwrap()
}
fn sig_of(s: &Sig) -> BlsSignature {
    BlsSignature::try_from(&s[..]).unwrap()
}
fn lib_domain(w: &W, at: &Place) -> Result<Domain, String> {
    compute_domain(KINDS[at.kind].1, Some(at.version), Some(at.gvr.as_slice().try_into().map_err(|_| "root")?), &w.c).map_err(|e| format!("{e:?}"))
}
fn want_domain(at: &Place) -> Root {
    let mut d = [0; 32];
    d[..4].copy_from_slice(&BYTES[at.kind]);
    d[4..].copy_from_slice(&fork_data_root(at.version, &at.gvr)[..28]);
    d
}
fn secret(key: usize) -> Result<crypto::SecretKey, String> {
    crypto::SecretKey::try_from(&sk_bytes(key)[..]).map_err(|e| format!("{e:?}"))
}
pub fn run(sim: &mut Sim, _: &Flavour) {
    let mut w = W::new(sim.chance(1, 4));
    // networks alive at the same time
    let mut places: Vec<(Vec<[u8; 4]>, Root)> = vec![];
    for k in 0..2 + sim.choose(2) {
        let r = &mut Sub::new(sim);
        let base = r.root();
        // a network may reuse another's versions, or start from the same validators
        let versions = if k > 0 && r.one_in(3) { places[0].0.clone() } else { (0..6).map(|i| [i as u8, base[0], base[1], if r.one_in(2) { 0 } else { base[2] }]).collect() };
        let gvr = if k > 0 && r.one_in(3) { places[0].1 } else if r.one_in(10) { [0; 32] } else { r.root() };
        places.push((versions, gvr));
    }
    let mut seen: Vec<Signed> = vec![];
    domains(sim, &mut w, &places);
    for _ in 0..3 + sim.choose(8) {
        if sim.found() {
            return;
        }
        sim.advance(w.p.seconds_per_slot as u128 * 1_000_000_000);
        let r = &mut Sub::new(sim);
        let (vs, gvr) = r.pick(&places).clone();
        let at = Place { kind: r.below(14) as usize, version: *r.pick(&vs), gvr };
        let m = message(r);
        let key = r.below(16) as usize;
        // the signer
        let got = real(|| {
            let d = lib_domain(&w, &at)?;
            let sk = secret(key)?;
            if sk.public_key().as_ref() != pk(key) {
                return Err("another public key".into());
            }
            let (root, s) = typed!(m, x => (compute_signing_root(&x, d).map_err(|e| format!("{e:?}"))?, sign_with_domain(&x, &sk, d).map_err(|e| format!("{e:?}"))?));
            Ok((d, root, s))
        });
        let root = signing_root(&m.v.root(), &want_domain(&at));
        let sig = sign(key, &root);
        match got {
            Real::Ok((d, rr, s)) => {
                if d != want_domain(&at) {
                    report(sim, OWN, "domain", format!("{:?} domain for version {:02x?}: {d:02x?} instead of {:02x?}", at.kind, at.version, want_domain(&at)));
                }
                if rr.as_ref() != root {
                    report(sim, OWN, "signing root", format!("message of shape {}", m.shape));
                }
                if s.as_ref() != sig {
                    report(sim, OWN, "signature", format!("message of shape {}", m.shape));
                }
            }
            x => report(sim, OWN, "own message not signed", x.what()),
        }
        sim.log(format!("validator {key} signs message {} as {} on version {:02x?}", m.shape, at.kind, at.version));
        seen.push(Signed { m, key, at, sig });
        // the adversary
        for _ in 0..1 + sim.choose(6) {
            let r = &mut Sub::new(sim);
            let s = r.pick(&seen).clone();
            let mut x = s.clone();
            let what = match r.below(10) {
                0 | 1 => {
                    x.at.kind = r.below(14) as usize;
                    "replayed in another role"
                }
                2 => {
                    let vs = r.pick(&places).0.clone();
                    x.at.version = *r.pick(&vs);
                    "replayed in another fork"
                }
                3 => {
                    let n = r.pick(&places).clone();
                    x.at.gvr = n.1;
                    "replayed on another network"
                }
                4 => {
                    x.key = r.below(16) as usize;
                    "claimed by another validator"
                }
                5 => {
                    x.m = if r.one_in(2) { r.pick(&seen).m.clone() } else { message(r) };
                    "moved to another message"
                }
                6 => {
                    let k = r.below(96) as usize;
                    x.sig[k] ^= 1 << r.below(8);
                    "signature damaged"
                }
                7 => {
                    x.sig = if r.one_in(2) { infinity() } else { [0; 96] };
                    "empty signature"
                }
                8 => {
                    x.at = r.pick(&seen).at.clone();
                    "replayed elsewhere"
                }
                _ => "delivered",
            };
            let want = verify(&pk(x.key), &signing_root(&x.m.v.root(), &want_domain(&x.at)), &x.sig);
            if what != "delivered" {
                sim.count_fault(what);
            }
            let got = real(|| {
                let d = lib_domain(&w, &x.at)?;
                Ok(typed!(x.m, y => verify_signed_data(&y, &sig_of(&x.sig), &key_of(&pk(x.key)), d).is_ok()))
            });
            sim.probe(if want { "signature accepted" } else { "signature refused" });
            sim.state(simkit::hash_bytes(&x.sig) ^ x.key as u64 ^ simkit::hash_bytes(&want_domain(&x.at)));
            sim.nontrivial = true;
            if got.ok() && matches!(got, Real::Ok(g) if g == want) {
                continue;
            }
            let t = format!("message of shape {} signed by {} as {:?}, {what} to {} as {:?}: valid is {want}", s.m.shape, s.key, s.at, x.key, x.at);
            report(sim, OWN, if want { "genuine message refused" } else { "replay accepted" }, format!("{t}, the code: {}", match got { Real::Ok(b) => b.to_string(), y => y.what() }));
            return;
        }
        if sim.chance(1, 2) {
            aggregates(sim, &seen);
        }
    }
}
/// what domain a state gives to a message of an epoch
fn domains(sim: &mut Sim, w: &mut W, places: &[(Vec<[u8; 4]>, Root)]) {
    let p = &w.p;
    let r = &mut Sub::new(sim);
    let f = fork(r.below(6) as u8);
    let mut s = blank_state(f, p);
    let (vs, gvr) = r.pick(places).clone();
    s.gvr = gvr;
    s.slot = r.below(40) * p.spe + r.below(p.spe);
    s.prev_version = *r.pick(&vs);
    s.cur_version = *r.pick(&vs);
    s.fork_epoch = (s.slot / p.spe + 2).saturating_sub(r.below(5));
    s.cur_sync = SyncCommittee { pks: vec![pk(0); p.sync_size as usize], agg: pk(0).to_vec() };
    s.next_sync = s.cur_sync.clone();
    s.mixes = vec![r.root(); p.ephv as usize];
    let st = match real(|| w.decode(&s)) {
        Real::Ok(x) => x,
        x => return report(sim, &["C14"], "state does not decode", x.what()),
    };
    for _ in 0..6 {
        let kind = KINDS[sim.choose(13) as usize].0;
        let here = s.slot / p.spe;
        let epoch = match sim.choose(4) {
            0 => None,
            1 => Some(s.fork_epoch),
            2 => Some(s.fork_epoch.saturating_sub(1)),
            _ => Some(here + 1 - sim.choose(2).min(here)),
        };
        let want = s.domain(kind, epoch, p);
        let mut y = st.dup();
        match real(|| y.query(&Q::Domain { kind, epoch }, &w.c)) {
            Real::Ok(A::Bytes(b)) if b == want => sim.probe("domain of an epoch"),
            x => {
                let (a, b) = (s.fork_epoch, here);
                report(sim, &["C15", "C10"], "domain of an epoch", format!("{f:?} state in epoch {b} forked at {a}, domain {kind} for {epoch:?}: {}", x.what()));
            }
        }
    }
    // the builder network has no validators root
    let got = real(|| compute_builder_domain(&w.c).map_err(|e| format!("{e:?}")));
    let want = want_domain(&Place { kind: 13, version: w.p.version(Phase0), gvr: [0; 32] });
    match got {
        Real::Ok(d) if d == want => {}
        x => report(sim, OWN, "builder domain", x.what()),
    }
    let v = s.cur_version;
    match real(|| compute_fork_digest(v, gvr.as_slice().try_into().unwrap()).map_err(|e| format!("{e:?}"))) {
        Real::Ok(d) if d == fork_data_root(v, &gvr)[..4] => {}
        x => report(sim, OWN, "fork digest", x.what()),
    }
    let (a, b) = (sim.choose(14) as usize, v);
    match real(|| compute_domain(KINDS[a].1, None, None, &w.c).map_err(|e| format!("{e:?}"))) {
        Real::Ok(d) if d == want_domain(&Place { kind: a, version: w.p.version(Phase0), gvr: [0; 32] }) => {}
        x => report(sim, OWN, "default domain", format!("{b:?} {}", x.what())),
    }
}
fn aggregates(sim: &mut Sim, seen: &[Signed]) {
    let r = &mut Sub::new(sim);
    let n = 1 + r.below(6) as usize;
    let root = r.root();
    let keys: Vec<usize> = (0..n).map(|_| r.below(16) as usize).collect();
    let sigs: Vec<Sig> = keys.iter().map(|k| sign(*k, &root)).collect();
    let want = aggregate(&sigs);
    match real(|| crypto::aggregate(&sigs.iter().map(sig_of).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))) {
        Real::Ok(s) if s.as_ref() == want => {}
        x => report(sim, OWN, "aggregate", format!("{n} signatures: {}", x.what())),
    }
    match real(|| crypto::eth_aggregate_public_keys(&keys.iter().map(|k| key_of(&pk(*k))).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))) {
        Real::Ok(k) if k.as_ref() == aggregate_keys(&keys.iter().map(|k| pk(*k)).collect::<Vec<_>>()) => {}
        x => report(sim, &["C15", "C11"], "aggregate key", format!("{n} keys: {}", x.what())),
    }
    // what arrives
    let mut pks: Vec<Pk> = keys.iter().map(|k| pk(*k)).collect();
    let mut sig = want;
    let mut msg = root;
    let what = match r.below(10) {
        0 => {
            pks.pop();
            "aggregate: a signer hidden"
        }
        1 => {
            pks.push(pk(r.below(16) as usize));
            "aggregate: a signer added"
        }
        2 => {
            pks.push(pks[0]);
            "aggregate: a signer twice"
        }
        3 => {
            pks.clear();
            if r.one_in(2) {
                sig = infinity();
            }
            "aggregate: nobody"
        }
        4 => {
            let mut inf = [0; 48];
            inf[0] = 0xc0;
            pks.push(inf);
            "aggregate: a key at infinity"
        }
        5 => {
            let k = r.below(48) as usize;
            pks[0][k] ^= 1 << r.below(8);
            "aggregate: a damaged key"
        }
        6 => {
            sig = aggregate(&sigs[..n - 1].iter().copied().chain(seen.last().map(|s| s.sig)).collect::<Vec<_>>());
            "aggregate: a foreign signature"
        }
        7 => {
            msg = r.root();
            "aggregate: another message"
        }
        8 => {
            r.shuffle(&mut pks);
            "aggregate: signers reordered"
        }
        _ => "",
    };
    if !what.is_empty() {
        sim.count_fault(what);
    }
    let refs: Vec<&[u8]> = pks.iter().map(|k| &k[..]).collect();
    let (f, e) = (fast_aggregate_verify(&refs, &msg, &sig), eth_fast_aggregate_verify(&refs, &msg, &sig));
    let lk: Vec<BlsPublicKey> = pks.iter().map(key_of).collect();
    let lr: Vec<&BlsPublicKey> = lk.iter().collect();
    for (name, want, got) in [
        ("fast aggregate verify", f, real(|| Ok(crypto::fast_aggregate_verify(&lr, &msg, &sig_of(&sig)).is_ok()))),
        ("fast aggregate verify, nobody allowed", e, real(|| Ok(crypto::eth_fast_aggregate_verify(&lr, &msg, &sig_of(&sig)).is_ok()))),
    ] {
        sim.probe(if want { "aggregate accepted" } else { "aggregate refused" });
        match got {
            Real::Ok(g) if g == want => {}
            x => report(sim, &["C15", "C11"], name, format!("{} keys, {what}: valid is {want}, the code: {}", pks.len(), match x { Real::Ok(b) => b.to_string(), y => y.what() })),
        }
    }
    // many messages under one signature
    let m = seen.len().min(1 + sim.choose(4) as usize);
    let mut some: Vec<Signed> = seen[seen.len() - m..].to_vec();
    let sig = aggregate(&some.iter().map(|s| s.sig).collect::<Vec<_>>());
    let roots: Vec<Root> = some.iter().map(|s| signing_root(&s.m.v.root(), &want_domain(&s.at))).collect();
    let mut distinct = roots.clone();
    distinct.sort();
    distinct.dedup();
    let mut swapped = false;
    if m > 1 && sim.chance(1, 3) && some[0].key != some[1].key && roots[0] != roots[1] {
        sim.count_fault("aggregate: signers swapped between messages");
        let k = some[0].key;
        some[0].key = some[1].key;
        some[1].key = k;
        swapped = true;
    }
    if distinct.len() < m {
        return;
    }
    let got = real(|| {
        let k: Vec<BlsPublicKey> = some.iter().map(|s| key_of(&pk(s.key))).collect();
        Ok(crypto::aggregate_verify(&k, &roots.iter().map(|r| &r[..]).collect::<Vec<_>>(), &sig_of(&sig)).is_ok())
    });
    match got {
        Real::Ok(g) if g != swapped => {}
        x => report(sim, OWN, "aggregate verify", format!("{m} messages, signers swapped is {swapped}: {}", match x { Real::Ok(b) => b.to_string(), y => y.what() })),
    }
    let _ = ByteVector::<4>::default();
}

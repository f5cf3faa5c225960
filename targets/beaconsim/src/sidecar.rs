//! Blobs travel beside their block: every sidecar is judged on its own, whatever the network did to it.
use crate::{check::*, gen::*, world::*};
use ethereum_consensus::{
    crypto::kzg,
    phase0::{BeaconBlockHeader, SignedBeaconBlockHeader},
    primitives::{BlsPublicKey, BlsSignature},
    ssz::prelude::{deserialize, ByteVector},
};
use refspec::{ssz::{branch, branch_root}, Fork::*, *};
use simcrypto::sha256;
use simkit::Sim;
use std::collections::BTreeSet;

const OWN: &[&str] = &["C16"];
const BLOB: usize = 131_072;
type KzgCommitment = kzg::KzgCommitment;
type KzgProof = kzg::KzgProof;

#[derive(Clone, PartialEq)]
struct Sidecar {
    index: u64,
    blob: Vec<u8>,
    commitment: Pk,
    proof: Pk,
    header: Header,
    sig: Sig,
    branch: Vec<Root>,
}
impl Sidecar {
    fn encode(&self) -> Vec<u8> {
        let mut o = self.index.to_le_bytes().to_vec();
        o.extend(&self.blob);
        o.extend(self.commitment);
        o.extend(self.proof);
        o.extend(self.header.v().encode());
        o.extend(self.sig);
        o.extend(self.branch.iter().flatten());
        o
    }
}
struct Made {
    b: Block,
    cars: Vec<Sidecar>,
}
fn blob(r: &mut Sub) -> Vec<u8> {
    let mut b = vec![0u8; BLOB];
    match r.below(6) {
        // constant polynomials have the simplest proofs
        0 => {
            let k = r.below(3) as u8;
            b.chunks_mut(32).for_each(|c| c[31] = k);
        }
        1 => {}
        _ => {
            for _ in 0..1 + r.below(40) {
                let at = r.below(4096) as usize * 32;
                b[at..at + 32].copy_from_slice(&r.root());
                b[at] &= 0x3f;
            }
        }
    }
    if r.one_in(8) {
        // the largest element there is
        let top = top_element();
        b[..32].copy_from_slice(&top);
    }
    b
}
/// the modulus, big endian
fn modulus() -> [u8; 32] {
    let mut m = [0; 32];
    for (i, w) in simcrypto::fr::R.iter().enumerate() {
        m[32 - 8 * (i + 1)..32 - 8 * i].copy_from_slice(&w.to_be_bytes());
    }
    m
}
fn top_element() -> [u8; 32] {
    let mut m = modulus();
    m[31] -= 1; // the modulus ends in 01
    m
}
fn c48(b: &[u8]) -> Pk {
    b.try_into().unwrap()
}
/// the specification's inclusion check
fn included(s: &Sidecar, p: &Params) -> bool {
    let depth = p.max_commitments.trailing_zeros() as usize;
    s.index < p.max_commitments && branch_root(V::Bytes(s.commitment.to_vec()).root(), &s.branch, s.index as usize | 11 << (depth + 1)) == s.header.body
}
fn make(sim: &mut Sim, w: &W, s: &State, f: Fork) -> Option<Made> {
    let p = &w.p;
    let settings = w.c.kzg_settings.clone();
    let mut body = empty_body(p);
    let n = sim.choose(4);
    let r = &mut Sub::new(sim);
    let mut blobs: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        let b = if k > 0 && r.one_in(8) { blobs[0].clone() } else { blob(r) };
        blobs.push(b);
    }
    let mut proofs = vec![];
    for b in &blobs {
        let x = real(|| {
            let c = kzg::blob_to_kzg_commitment(b, &settings).map_err(|e| format!("{e:?}"))?;
            let q = kzg::compute_blob_kzg_proof(b, &c, &settings).map_err(|e| format!("{e:?}"))?;
            Ok((c48(&c), c48(&q)))
        });
        match x {
            Real::Ok((c, q)) => {
                body.commitments.push(c);
                proofs.push(q);
            }
            x => {
                report(sim, OWN, "own blob refused", x.what());
                return None;
            }
        }
    }
    let r = &mut Sub::new(sim);
    let proposer = r.below(8);
    let mut b = Block { fork: f, slot: s.slot + r.below(3), proposer, parent: r.root(), state: r.root(), body, sig: [0; 96] };
    let key = proposer as usize;
    sign_block(&mut b, s, key, p);
    let v = b.body.v(p, f);
    let (field, _) = v.field_branch("blob_kzg_commitments");
    let leaves: Vec<Root> = b.body.commitments.iter().map(|c| V::Bytes(c.to_vec()).root()).collect();
    let mut len = [0u8; 32];
    len[..8].copy_from_slice(&(leaves.len() as u64).to_le_bytes());
    let cars = (0..leaves.len())
        .map(|i| {
            let mut br = branch(leaves.clone(), p.max_commitments, i);
            br.push(len);
            br.extend(&field);
            Sidecar { index: i as u64, blob: blobs[i].clone(), commitment: b.body.commitments[i], proof: proofs[i], header: b.header(p), sig: b.sig, branch: br }
        })
        .collect();
    Some(Made { b, cars })
}
/// (decodes, included, blob matches, signed by the proposer), as the code under test says
struct Verdict {
    included: Result<(), String>,
    matches: Result<(), String>,
    signed: Result<(), String>,
}
fn judge(w: &W, lib: &dyn bridge_api::Lib, f: Fork, s: &Sidecar, bytes: &[u8], pk: &Pk, domain: &Root) -> Real<Verdict> {
    let settings = w.c.kzg_settings.clone();
    real(|| {
        let included = lib.sidecar_inclusion(f as u8, bytes);
        let c = KzgCommitment::try_from(&s.commitment[..]).unwrap();
        let q = KzgProof::try_from(&s.proof[..]).unwrap();
        let matches = kzg::verify_blob_kzg_proof(&s.blob, &c, &q, &settings).map_err(|e| format!("{e:?}"));
        let h: BeaconBlockHeader = deserialize(&s.header.v().encode()).map_err(|e| format!("{e:?}"))?;
        let h = SignedBeaconBlockHeader { message: h, signature: BlsSignature::try_from(&s.sig[..]).map_err(|e| format!("{e:?}"))? };
        let signed = ethereum_consensus::signing::verify_signed_data(&h.message, &h.signature, &BlsPublicKey::try_from(&pk[..]).map_err(|e| format!("{e:?}"))?, *domain).map_err(|e| format!("{e:?}"));
        Ok(Verdict { included, matches, signed })
    })
}
fn truth(s: &Sidecar) -> bool {
    // the algebra itself: the commitment is the blob's and the proof is for the blob's own challenge
    let k = c_kzg::ethereum_kzg_settings(0);
    let Ok(b) = c_kzg::Blob::from_bytes(&s.blob) else { return false };
    let (c, q) = (c_kzg::Bytes48::new(s.commitment), c_kzg::Bytes48::new(s.proof));
    matches!(k.verify_blob_kzg_proof(&b, &c, &q), Ok(true))
}

pub fn run(sim: &mut Sim, _fl: &Flavour) {
    let w = W::new(sim.chance(1, 8));
    let p = &w.p;
    let f = if sim.chance(1, 4) { Electra } else { Deneb };
    let mut s = blank_state(f, p);
    s.slot = 1 + sim.choose(100);
    s.gvr = Sub::new(sim).root();
    s.cur_version = p.version(f);
    s.prev_version = s.cur_version;
    let mut made = vec![];
    for _ in 0..1 + sim.choose(2) {
        match make(sim, &w, &s, f) {
            Some(m) => made.push(m),
            None => return,
        }
    }
    let flat: Vec<(usize, Sidecar)> = made.iter().enumerate().flat_map(|(k, m)| m.cars.iter().map(move |c| (k, c.clone()))).collect();
    batch(sim, &w, &flat);
    points(sim, &w, &flat);
    if flat.is_empty() || sim.found() {
        return;
    }
    let lib = w.lib(f);
    let keys: Vec<Pk> = (0..8).map(pk).collect();
    for node in 0..1 + sim.choose(2) {
        let mut have: BTreeSet<(usize, u64)> = BTreeSet::new();
        // what the network delivers, in its order
        let mut inbox: Vec<(usize, Sidecar, Option<&'static str>, Vec<u8>)> = vec![];
        for (k, c) in &flat {
            if sim.fault("sidecar lost", 1, 8) {
                continue;
            }
            let times = if sim.fault("sidecar delivered twice", 1, 10) { 2 } else { 1 };
            for _ in 0..times {
                let (x, what, bytes) = mangle(sim, c, &flat, p);
                inbox.push((*k, x, what, bytes));
            }
        }
        sim.shuffle(&mut inbox);
        if inbox.len() > 1 {
            sim.count_fault("sidecars reordered");
        }
        for faults in [true, false] {
            if !faults {
                // the network heals: what is missing is asked for again
                inbox = flat.iter().filter(|(k, c)| !have.contains(&(*k, c.index))).map(|(k, c)| (*k, c.clone(), None, c.encode())).collect();
            }
            for (k, x, what, bytes) in inbox.drain(..) {
                sim.advance(50_000_000);
                let tag = format!("node {node}: sidecar {} of block {k}{}", x.index, what.map(|y| format!(" ({y})")).unwrap_or_default());
                if bytes.len() != x.encode().len() {
                    match real(|| lib.sidecar_inclusion(f as u8, &bytes)) {
                        Real::Err(_) => sim.probe("sidecar of a wrong length refused"),
                        y => report(sim, &["C16", "C14"], "sidecar of a wrong length", format!("{tag}: {}", y.what())),
                    }
                    continue;
                }
                let domain = s.domain(D_PROPOSER, Some(x.header.slot / p.spe), p);
                let pkey = keys[(x.header.proposer % 8) as usize];
                let v = match judge(&w, lib, f, &x, &bytes, &pkey, &domain) {
                    Real::Ok(v) => v,
                    Real::Err(e) => return report(sim, OWN, "sidecar does not decode", format!("{tag}: {e}")),
                    Real::Panic(e) => return report(sim, OWN, "sidecar panics", format!("{tag}: {e}")),
                };
                let (i, m, g) = (included(&x, p), truth(&x), verify(&pkey, &signing_root(&x.header.root(), &domain), &x.sig));
                for (name, want, got) in [("inclusion proof", i, &v.included), ("blob proof", m, &v.matches), ("header signature", g, &v.signed)] {
                    if want != got.is_ok() {
                        report(sim, OWN, &format!("sidecar {name}"), format!("{tag}: {name} is {want}, the code says {got:?}"));
                        return;
                    }
                }
                if v.included.is_ok() && v.matches.is_ok() && v.signed.is_ok() {
                    sim.probe("sidecar accepted");
                    sim.nontrivial = true;
                    // it must be what it says: the blob at that index of a block the proposer signed
                    let root = x.header.root();
                    let real_one = made.iter().position(|m| m.b.root(p) == root);
                    match real_one {
                        Some(b) if made[b].cars.get(x.index as usize).is_some_and(|c| c.blob == x.blob && c.commitment == x.commitment) => {
                            have.insert((b, x.index));
                        }
                        _ => report(sim, OWN, "sidecar accepted as another", tag.clone()),
                    }
                } else {
                    sim.probe("sidecar refused");
                    if what.is_none() {
                        report(sim, OWN, "own sidecar refused", format!("{tag}: {:?} {:?} {:?}", v.included, v.matches, v.signed));
                    }
                }
                sim.log(format!("{tag}: included {} matches {} signed {}", i, m, g));
                sim.state(simkit::hash_bytes(&x.header.root()) ^ x.index ^ (v.included.is_ok() as u64) << 8 ^ (v.matches.is_ok() as u64) << 9 ^ simkit::hash_bytes(what.unwrap_or("").as_bytes()));
                if sim.found() {
                    return;
                }
            }
        }
        if have.len() != flat.len() {
            report(sim, OWN, "block never available", format!("node {node} holds {} of {} sidecars after the network healed", have.len(), flat.len()));
        }
    }
}
fn mangle(sim: &mut Sim, c: &Sidecar, all: &[(usize, Sidecar)], p: &Params) -> (Sidecar, Option<&'static str>, Vec<u8>) {
    let mut x = c.clone();
    if !sim.chance(2, 3) {
        let b = x.encode();
        return (x, None, b);
    }
    let r = &mut Sub::new(sim);
    let o = &all[r.below(all.len() as u64) as usize].1;
    let bit = |v: &mut [u8], r: &mut Sub| {
        let k = r.below(v.len() as u64) as usize;
        v[k] ^= 1 << r.below(8);
    };
    let kind = match r.below(18) {
        0 => {
            bit(&mut x.blob, r);
            "blob bit flipped"
        }
        1 => {
            bit(&mut x.commitment, r);
            "commitment bit flipped"
        }
        2 => {
            bit(&mut x.proof, r);
            "proof bit flipped"
        }
        3 => {
            let k = r.below(x.branch.len() as u64) as usize;
            bit(&mut x.branch[k], r);
            "inclusion proof bit flipped"
        }
        4 => {
            x.index = *r.pick(&[x.index + 1, x.index ^ 1, p.max_commitments + x.index, x.index + (1 << 32), u64::MAX, p.max_commitments, x.index.wrapping_sub(1)]);
            "index changed"
        }
        5 => {
            x.blob = o.blob.clone();
            "blob of another"
        }
        6 => {
            x.blob = o.blob.clone();
            x.proof = o.proof;
            "blob and proof of another"
        }
        7 => {
            x.blob = o.blob.clone();
            x.proof = o.proof;
            x.commitment = o.commitment;
            "blob, proof and commitment of another"
        }
        8 => {
            x.header = o.header.clone();
            x.sig = o.sig;
            "header of another"
        }
        9 => {
            x.branch = o.branch.clone();
            "inclusion proof of another"
        }
        10 => {
            x.branch = o.branch.clone();
            x.index = o.index;
            "index and inclusion proof of another"
        }
        11 => {
            x.header.state = r.root();
            "header changed"
        }
        12 => {
            x.header.body = r.root();
            "body root changed"
        }
        13 => {
            bit(&mut x.sig, r);
            "header signature bit flipped"
        }
        14 => {
            let at = r.below(4096) as usize * 32;
            x.blob[at..at + 32].copy_from_slice(&modulus());
            if r.one_in(2) {
                x.blob[at + 31] = 2;
            }
            "blob element out of range"
        }
        15 => {
            x.proof = [0; 48];
            x.proof[0] = 0xc0;
            "proof at infinity"
        }
        16 => {
            x.commitment = [0; 48];
            x.commitment[0] = 0xc0;
            x.blob = vec![0; BLOB];
            x.proof = x.commitment;
            "empty blob in its place"
        }
        _ => {
            let mut b = x.encode();
            if r.one_in(2) {
                b.truncate(r.below(b.len() as u64) as usize);
            } else {
                b.extend(&r.root()[..1 + r.below(32) as usize]);
            }
            sim.count_fault("sidecar cut or extended");
            return (x, Some("cut or extended"), b);
        }
    };
    if x == *c {
        let b = x.encode();
        return (x, None, b);
    }
    sim.count_fault(kind);
    let b = x.encode();
    (x, Some(kind), b)
}
/// many at once: right exactly when each is right
fn batch(sim: &mut Sim, w: &W, all: &[(usize, Sidecar)]) {
    let settings = w.c.kzg_settings.clone();
    for _ in 0..2 {
        let mut v: Vec<Sidecar> = all.iter().map(|x| x.1.clone()).collect();
        sim.shuffle(&mut v);
        v.truncate(sim.choose(v.len() as u64 + 1) as usize);
        let mut blobs: Vec<Vec<u8>> = v.iter().map(|x| x.blob.clone()).collect();
        let mut cs: Vec<Pk> = v.iter().map(|x| x.commitment).collect();
        let mut ps: Vec<Pk> = v.iter().map(|x| x.proof).collect();
        match sim.choose(6) {
            0 if ps.len() > 1 => {
                sim.count_fault("batch: proofs swapped");
                ps.swap(0, 1);
            }
            1 if cs.len() > 1 => {
                sim.count_fault("batch: commitments swapped");
                let n = cs.len();
                cs.swap(0, n - 1);
            }
            2 => {
                sim.count_fault("batch: uneven");
                // one list shorter, or longer, than the others
                match sim.choose(6) {
                    0 => drop(blobs.pop()),
                    1 => drop(cs.pop()),
                    2 => drop(ps.pop()),
                    3 => blobs.extend(blobs.last().cloned()),
                    4 => cs.extend(cs.last().copied()),
                    _ => ps.extend(ps.last().copied()),
                }
            }
            3 if !blobs.is_empty() => {
                sim.count_fault("batch: last blob damaged");
                let n = blobs.len();
                blobs[n - 1][BLOB - 1] ^= 1;
            }
            _ => {}
        }
        let even = blobs.len() == cs.len() && cs.len() == ps.len();
        let want = even && (0..blobs.len()).all(|i| truth(&Sidecar { blob: blobs[i].clone(), commitment: cs[i], proof: ps[i], ..v[0].clone() }));
        let got = real(|| {
            let cs: Vec<KzgCommitment> = cs.iter().map(|c| ByteVector::try_from(&c[..]).unwrap()).collect();
            let ps: Vec<KzgProof> = ps.iter().map(|c| ByteVector::try_from(&c[..]).unwrap()).collect();
            kzg::verify_blob_kzg_proof_batch(&blobs, &cs, &ps, &settings).map_err(|e| format!("{e:?}"))
        });
        sim.probe(if want { "batch accepted" } else { "batch refused" });
        if want != got.ok() || matches!(got, Real::Panic(_)) {
            report(sim, OWN, "batch of blob proofs", format!("{} blobs, {} commitments, {} proofs: valid is {want}, the code: {}", blobs.len(), cs.len(), ps.len(), got.what()));
            return;
        }
    }
}
/// evaluations at a point, and the hash by which the execution layer knows a commitment
fn points(sim: &mut Sim, w: &W, all: &[(usize, Sidecar)]) {
    let settings = w.c.kzg_settings.clone();
    let Some((_, c)) = all.first() else { return };
    let r = &mut Sub::new(sim);
    let com = KzgCommitment::try_from(&c.commitment[..]).unwrap();
    let mut want = sha256(&[&c.commitment]);
    want[0] = 1;
    match real(|| Ok(ethereum_consensus::deneb::helpers::kzg_commitment_to_versioned_hash(&com))) {
        Real::Ok(h) if h.as_ref() == want => {}
        x => report(sim, &["C16", "C12"], "versioned hash", x.what()),
    }
    let mut z = r.root();
    if r.one_in(4) {
        z = [0; 32];
    }
    z[0] &= 0x3f;
    let bad_z = r.one_in(6);
    if bad_z {
        z = modulus();
    }
    let got = real(|| {
        let z = kzg::FieldElement::try_from(&z[..]).unwrap();
        let x = kzg::compute_kzg_proof(&c.blob, &z, &settings).map_err(|e| format!("{e:?}"))?;
        Ok((x, z))
    });
    let (x, z) = match (bad_z, got) {
        (true, Real::Err(_)) => return,
        (false, Real::Ok(x)) => x,
        (_, x) => return report(sim, OWN, "evaluation proof", format!("point out of range is {bad_z}: {}", x.what())),
    };
    let k = c_kzg::ethereum_kzg_settings(0);
    let want = k.compute_kzg_proof(&c_kzg::Blob::from_bytes(&c.blob).unwrap(), &c_kzg::Bytes32::new(z.as_ref().try_into().unwrap())).unwrap();
    if x.proof.as_ref() != want.0.to_bytes().as_slice() || x.evaluation.as_ref() != want.1.as_slice() {
        report(sim, OWN, "evaluation proof", "another value");
    }
    let mut y = x.evaluation.clone();
    let wrong = r.one_in(2);
    if wrong {
        y[31] ^= 1;
    }
    let got = real(|| kzg::verify_kzg_proof(&com, &z, &y, &x.proof, &settings).map_err(|e| format!("{e:?}")));
    if got.ok() == wrong || matches!(got, Real::Panic(_)) {
        report(sim, OWN, "evaluation proof", format!("wrong value is {wrong}: {}", got.what()));
    }
    sim.probe("evaluation checked");
}

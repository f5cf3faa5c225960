//! blinded blocks report the credential changes they carry, in every fork that has them
mod kit;
use ethereum_consensus::{bellatrix::minimal as bellatrix, capella::minimal as capella, deneb::minimal as deneb, types::minimal::BlindedBeaconBlockBody as Body};
fn main() {
    let change = capella::SignedBlsToExecutionChange::default();
    let mut c = capella::BlindedBeaconBlockBody::default();
    c.bls_to_execution_changes.push(change.clone());
    let mut d = deneb::BlindedBeaconBlockBody::default();
    d.bls_to_execution_changes.push(change);
    let count = |b: &Body| b.bls_to_execution_changes().map(|x| x.len());
    kit::check(count(&Body::Bellatrix(bellatrix::BlindedBeaconBlockBody::default())).is_none(), "bellatrix");
    kit::check(count(&Body::Capella(c.clone())) == Some(1), "capella");
    kit::check(count(&Body::Deneb(d.clone())) == Some(1), "deneb");
    kit::check(Body::Capella(c).bls_to_execution_changes_mut().map(|x| x.len()) == Some(1), "capella, mutable");
    kit::check(Body::Deneb(d).bls_to_execution_changes_mut().map(|x| x.len()) == Some(1), "deneb, mutable");
}

//! a state stored as JSON is read back as itself, in every fork
mod kit;
use ethereum_consensus::{altair::minimal as altair, bellatrix::minimal as bellatrix, capella::minimal as capella, deneb::minimal as deneb, phase0::minimal as phase0, types::minimal::BeaconState as State};
use ssz_rs::prelude::*;
fn main() {
    let mut p = phase0::BeaconState::default();
    p.slot = 1;
    let mut a = altair::BeaconState::default();
    a.slot = 2;
    let mut b = bellatrix::BeaconState::default();
    b.slot = 3;
    let mut c = capella::BeaconState::default();
    c.next_withdrawal_index = 77;
    let mut d = deneb::BeaconState::default();
    d.latest_execution_payload_header.blob_gas_used = 5;
    for s in [State::Phase0(p), State::Altair(a), State::Bellatrix(b), State::Capella(c), State::Deneb(d)] {
        let stored = serde_json::to_string(&s).unwrap();
        let back: State = serde_json::from_str(&stored).unwrap();
        kit::check(back == s, &format!("a state of {:?} came back as one of {:?}", s.version(), back.version()));
        kit::check(back.hash_tree_root().unwrap() == s.hash_tree_root().unwrap(), "another root");
    }
}

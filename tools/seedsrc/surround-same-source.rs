//! two votes with the same source and different targets are no offence
mod kit;
use ethereum_consensus::{phase0::{is_slashable_attestation_data, AttestationData}};
fn main() {
    let vote = |s: u64, t: u64| {
        let mut d = AttestationData::default();
        d.source.epoch = s;
        d.target.epoch = t;
        d
    };
    for (s1, t1, s2, t2, guilty) in [(3, 6, 4, 5, true), (3, 6, 3, 5, false), (3, 5, 3, 6, false), (4, 5, 3, 6, false), (3, 4, 4, 5, false), (2, 6, 3, 6, true)] {
        kit::check(is_slashable_attestation_data(&vote(s1, t1), &vote(s2, t2)) == guilty, &format!("({s1},{t1}) ({s2},{t2}) slashable: {}", !guilty));
    }
}

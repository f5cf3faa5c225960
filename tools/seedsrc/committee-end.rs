//! every active validator sits in exactly one committee of the epoch
mod kit;
use ethereum_consensus::{phase0::compute_committee, primitives::Bytes32, state_transition::Context};
fn main() {
    let context = Context::for_minimal();
    let seed = Bytes32::default();
    for n in [16usize, 19, 64, 77] {
        for count in [8, 16] {
            let indices: Vec<usize> = (0..n).collect();
            let mut all = vec![];
            for k in 0..count {
                all.extend(compute_committee(&indices, &seed, k, count, &context).unwrap());
            }
            all.sort();
            kit::check(all == indices, &format!("{n} validators, {count} committees: {} members", all.len()));
        }
    }
}

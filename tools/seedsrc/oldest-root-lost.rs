//! every recorded block root in range can be read, and none outside
mod kit;
use ethereum_consensus::{phase0::minimal as spec, primitives::Root};
fn main() {
    let mut state = spec::BeaconState::default();
    state.slot = 200;
    for i in 0..64usize {
        state.block_roots[i] = Root::try_from(&[i as u8; 32][..]).unwrap();
    }
    for slot in 0..300u64 {
        let x = spec::get_block_root_at_slot(&state, slot).ok().map(|x| x[0]);
        let due = if slot < 200 && slot + 64 >= 200 { Some((slot % 64) as u8) } else { None };
        kit::check(x == due, &format!("slot {slot}: {x:?} instead of {due:?}"));
    }
}

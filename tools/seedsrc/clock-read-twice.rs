//! the duration until the next slot never exceeds a slot and ends at a slot start of the instant read
#[allow(unused)]
mod kit;
use ethereum_consensus::clock::{Clock, TimeProvider};
use std::sync::{atomic::{AtomicU64, Ordering::SeqCst}, Arc};
const S: u64 = 1_000_000_000;
/// a wall clock that moves on a little with every read
struct Wall { now: AtomicU64, step: u64 }
#[derive(Clone)]
struct Shared(Arc<Wall>);
impl TimeProvider for Shared {
    fn get_current_time(&self) -> u128 {
        self.0.now.fetch_add(self.0.step, SeqCst) as u128
    }
}
fn main() {
    for step in [1u64, 1000, S / 2, S] {
        for offset in (0..12 * S).step_by(S as usize / 4).chain((1..20).map(|k| 12 * S - k)) {
            let start = (100 + 12 * 7) * S + offset;
            let wall = Arc::new(Wall { now: AtomicU64::new(start), step });
            let clock = Clock::new(100, 12, 32, Shared(wall.clone()));
            let d = clock.duration_until_next_slot().as_nanos() as u64;
            let end = wall.now.load(SeqCst) - step; // the last instant read
            let due = |t: u64| 12 * S - (t - 100 * S) % (12 * S);
            kit::check(d <= 12 * S, &format!("{d} ns until the next slot"));
            kit::check(d == due(start) || d == due(end), &format!("at {start}: {d} ns"));
        }
    }
}

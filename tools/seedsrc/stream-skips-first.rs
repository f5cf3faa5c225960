//! the stream yields every slot when polled in time, also when a slot begins while it is created
#[allow(unused)]
mod kit;
use ethereum_consensus::clock::{Clock, TimeProvider};
use std::{sync::{atomic::{AtomicU64, Ordering::SeqCst}, Arc}, time::Duration};
use tokio_stream::StreamExt;
const S: u64 = 1_000_000_000;
/// tokio's paused clock, plus a microsecond for every read
struct Wall { zero: tokio::time::Instant, start: u64, reads: AtomicU64 }
#[derive(Clone)]
struct Shared(Arc<Wall>);
impl TimeProvider for Shared {
    fn get_current_time(&self) -> u128 {
        let r = self.0.reads.fetch_add(1, SeqCst);
        self.0.start as u128 + self.0.zero.elapsed().as_nanos() + (r * 1000) as u128
    }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        for before in [5_000_000_000u64, 1500, 999, 500, 1] {
            let start = (100 + 12 * 8) * S - before; // slot 7 for `before` more nanoseconds
            let wall = Arc::new(Wall { zero: tokio::time::Instant::now(), start, reads: AtomicU64::new(0) });
            let clock = Clock::new(100, 12, 32, Shared(wall.clone()));
            let stream = clock.clone().into_stream();
            tokio::pin!(stream);
            let mut seen = vec![];
            while let Ok(x) = tokio::time::timeout(Duration::from_secs(40), stream.next()).await {
                let x = x.unwrap();
                seen.push(x);
                if x >= 10 {
                    break;
                }
            }
            let first = seen[0];
            kit::check(first == 7 || first == 8, &format!("first {first}"));
            kit::check(seen == (first..=10).collect::<Vec<_>>(), &format!("{before} ns before slot 8: {seen:?}"));
        }
    });
}

//! Simulation of the slot clock and slot stream: the wall clock, the timer clock, the polling
//! schedule and every clock read are decided by the simulator.
use ethereum_consensus::{
    clock::{self, Clock, TimeProvider},
    state_transition::Context,
};
use simkit::{guard, Sim, Target};
use std::{
    collections::VecDeque,
    future::poll_fn,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Poll, Wake, Waker},
    time::Duration,
};
use tokio_stream::Stream;

const NS: u128 = 1_000_000_000;

/// The wall clock of a simulated host: each read may let time pass.
#[derive(Default)]
struct Wall {
    now: u128,
    ticks: VecDeque<u128>,
    reads: u64,
}
#[derive(Clone)]
struct Host(Arc<Mutex<Wall>>);
impl TimeProvider for Host {
    fn get_current_time(&self) -> u128 {
        let mut w = self.0.lock().unwrap();
        let t = w.now;
        w.reads += 1;
        if let Some(d) = w.ticks.pop_front() {
            w.now += d;
        }
        t
    }
}
impl Host {
    fn new(now: u128) -> Self {
        Self(Arc::new(Mutex::new(Wall { now, ..Default::default() })))
    }
    fn now(&self) -> u128 {
        self.0.lock().unwrap().now
    }
    fn set(&self, t: u128) {
        self.0.lock().unwrap().now = t
    }
    fn ticks(&self, t: Vec<u128>) {
        self.0.lock().unwrap().ticks = t.into()
    }
    fn settle(&self) {
        self.0.lock().unwrap().ticks.clear()
    }
}

/// The definition of slots, written from the specification.
#[derive(Clone, Copy)]
struct Ref {
    genesis: u128,
    sps: u128,
    spe: u64,
}
impl Ref {
    fn slot(&self, t: u128) -> Option<u64> {
        if t < self.genesis {
            None
        } else {
            Some(((t - self.genesis) / self.sps) as u64)
        }
    }
    fn start(&self, s: u64) -> u128 {
        self.genesis + s as u128 * self.sps
    }
    fn next_start(&self, t: u128) -> u128 {
        match self.slot(t) {
            None => self.genesis,
            Some(s) => self.start(s + 1),
        }
    }
}

fn read_ticks(sim: &mut Sim, r: &Ref, now: u128) -> Vec<u128> {
    // how far time moves at each read of the clock
    let mut v = vec![];
    for _ in 0..3 {
        let k = sim.choose(6);
        let d = match k {
            0 | 1 | 2 => 0,
            3 => sim.range(1, 1000) as u128,
            4 => {
                // up to exactly the boundary, one before, or one after
                let gap = r.next_start(now) - now;
                if gap < 20_000_000 {
                    sim.count_fault("slot_boundary_between_clock_reads");
                    (gap + sim.range(0, 2) as u128).saturating_sub(1)
                } else {
                    0
                }
            }
            _ => sim.range(1, 2_000_000) as u128,
        };
        v.push(d);
    }
    v
}

fn params(sim: &mut Sim) -> (Ref, u64, u64) {
    let sps = *sim.pick(&[12u64, 6, 2, 1, 3, 5, 7, 60]);
    let spe = *sim.pick(&[32u64, 8, 16, 1]);
    let genesis = match sim.choose(3) {
        0 => 1_606_824_023,
        1 => sim.range(0, 3),
        _ => sim.range(1_500_000_000, 2_000_000_000),
    };
    (Ref { genesis: genesis as u128 * NS, sps: sps as u128 * NS, spe }, genesis, sps)
}

/// pick an instant that matters: around slot starts, around genesis, or anywhere
fn instant(sim: &mut Sim, r: &Ref, far: bool) -> u128 {
    let base = match sim.choose(4) {
        0 => r.genesis,
        1 => r.start(sim.range(0, 40)),
        2 => r.start(if far { sim.range(0, 1 << 26) } else { sim.range(0, 100) }),
        _ => r.start(r.spe * sim.range(0, 20)),
    };
    match sim.choose(6) {
        0 => base,
        1 => base + sim.range(1, 3) as u128,
        2 => base.saturating_sub(sim.range(1, 3) as u128),
        3 => base + sim.range(0, r.sps as u64) as u128,
        4 => base.saturating_sub(sim.range(0, 3 * r.sps as u64) as u128),
        _ => base + r.sps - 1,
    }
}

// --------------------------------------------------------------------------------------- T01

fn check_reads<T: TimeProvider + Send + Sync>(
    sim: &mut Sim,
    node: usize,
    c: &Clock<T>,
    r: &Ref,
    now: &dyn Fn() -> u128,
    op: u64,
) {
    let p = "T01";
    let t0 = now();
    macro_rules! ck {
        ($e:expr) => {
            match guard(|| $e) {
                Ok(v) => v,
                Err(x) => {
                    sim.violate(p, "panic", format!("node {node} at {t0}: {} panicked: {}", stringify!($e), x.message));
                    return;
                }
            }
        };
    }
    match op {
        0 => {
            let s = ck!(c.current_slot());
            let t1 = now();
            sim.log(format!("n{node} t={t0} slot={s:?}"));
            if s < r.slot(t0) || s > r.slot(t1) {
                sim.violate(p, "current_slot", format!("node {node}: current slot {s:?} but the clock read between {t0} and {t1}, i.e. {:?}..{:?}", r.slot(t0), r.slot(t1)));
            }
        }
        1 => {
            let e = ck!(c.current_epoch());
            let t1 = now();
            let f = |t| r.slot(t).map(|s| s / r.spe);
            sim.log(format!("n{node} t={t0} epoch={e:?}"));
            if e < f(t0) || e > f(t1) {
                sim.violate(p, "current_epoch", format!("node {node}: current epoch {e:?} but expected {:?}..{:?}", f(t0), f(t1)));
            }
        }
        2 => {
            let b = ck!(c.before_genesis());
            let t1 = now();
            sim.log(format!("n{node} t={t0} pre={b}"));
            if (b && t0 >= r.genesis) || (!b && t1 < r.genesis) {
                sim.violate(p, "before_genesis", format!("node {node}: before_genesis={b} at {t0}..{t1}, genesis {}", r.genesis));
            }
        }
        3 => {
            let d = ck!(c.duration_until_next_slot());
            let t1 = now();
            sim.log(format!("n{node} t={t0} next_in={d:?}"));
            // as if the clock had been read once, at some instant of the call
            let d = d.as_nanos();
            let (mut n, last) = (r.next_start(t0), r.next_start(t1));
            let mut ok = false;
            while n <= last && !ok {
                ok = n >= d && (t0..=t1).contains(&(n - d)) && r.next_start(n - d) == n;
                n += r.sps;
            }
            if !ok {
                sim.violate(p, "until_next_slot", format!("node {node}: {d} ns until the next slot, but from {t0}..{t1} the next slots start at {} and {}", r.next_start(t0), r.next_start(t1)));
            }
        }
        4 => {
            let cur = r.slot(t0).unwrap_or(0);
            let target = match sim.choose(4) {
                0 => cur,
                1 => cur + sim.range(0, 100),
                2 => cur.saturating_sub(sim.range(0, 100)),
                _ => sim.range(0, 1 << 27),
            };
            let d = ck!(c.duration_until_slot(target)).as_nanos();
            let t1 = now();
            sim.log(format!("n{node} t={t0} until {target}={d}"));
            let st = r.start(target);
            let (hi, lo) = (st.saturating_sub(t0), st.saturating_sub(t1));
            if d < lo || d > hi {
                sim.violate(p, "until_slot", format!("node {node}: {d} ns until slot {target}, expected {lo}..{hi}"));
            }
        }
        5 => {
            let s = sim.range(0, 1 << 27);
            let s = if sim.chance(1, 2) { s } else { s % 1000 };
            let ts = ck!(c.timestamp_at_slot(s));
            let back = ck!(c.slot_at_time(ts as u128 * NS));
            let before = ck!(c.slot_at_time((ts as u128 * NS).saturating_sub(1)));
            let ep = ck!(c.epoch_for(s));
            sim.log(format!("n{node} slot {s} starts {ts} epoch {ep}"));
            if ts as u128 * NS != r.start(s) {
                sim.violate(p, "timestamp_at_slot", format!("slot {s} starts at {ts}, expected {}", r.start(s) / NS));
            }
            if back != Some(s) || (r.start(s) > 0 && before != s.checked_sub(1)) {
                sim.violate(p, "roundtrip", format!("slot {s} starts at {ts}: slot at that instant {back:?}, one ns before {before:?}"));
            }
            if ep != s / r.spe {
                sim.violate(p, "epoch_for", format!("slot {s} in epoch {ep}, expected {}", s / r.spe));
            }
        }
        _ => {
            let t = instant(sim, r, true);
            let s = ck!(c.slot_at_time(t));
            let s2 = ck!(clock::convert_timestamp_nanos_to_slot(t, r.genesis, r.sps));
            let secs = (t / NS) as u64;
            let s3 = ck!(clock::convert_timestamp_to_slot(secs, (r.genesis / NS) as u64, (r.sps / NS) as u64));
            sim.log(format!("n{node} slot at {t} = {s:?}"));
            if s != r.slot(t) || s2 != s {
                sim.violate(p, "slot_at_time", format!("slot at {t}: {s:?}/{s2:?}, expected {:?}", r.slot(t)));
            }
            if s3 != r.slot(secs as u128 * NS) {
                sim.violate(p, "slot_at_seconds", format!("slot at {secs} s: {s3:?}, expected {:?}", r.slot(secs as u128 * NS)));
            }
            if let Some(s) = s {
                let ts = ck!(clock::convert_slot_to_timestamp(s, r.sps, r.genesis));
                if ts as u128 * NS != r.start(s) {
                    sim.violate(p, "slot_to_timestamp", format!("slot {s}: {ts}, expected {}", r.start(s) / NS));
                }
            }
        }
    }
}

/// Several hosts with skewed, drifting, stepping clocks follow one chain.
fn run_conversions(sim: &mut Sim) {
    let (r, genesis, sps) = params(sim);
    let n = 1 + sim.choose(4) as usize;
    let mut truth = instant(sim, &r, false);
    let hosts: Vec<Host> = (0..n)
        .map(|i| {
            let skew = if i > 0 && sim.fault("clock_skew", 1, 2) { sim.range(0, r.sps as u64) as u128 } else { 0 };
            Host::new(truth + skew)
        })
        .collect();
    let clocks: Vec<Clock<Host>> =
        hosts.iter().map(|h| Clock::new(genesis, sps, r.spe, h.clone())).collect();
    sim.log(format!("genesis={genesis} sps={sps} spe={} hosts={n} start={truth}", r.spe));
    let steps = 20 + sim.choose(60);
    for _ in 0..steps {
        if sim.found() {
            return;
        }
        let i = sim.choose(n as u64) as usize;
        let h = &hosts[i];
        match sim.choose(5) {
            0 | 1 => {
                // let true time pass; every host's clock follows with its own drift
                let d = match sim.choose(4) {
                    0 => sim.range(0, r.sps as u64) as u128,
                    1 => r.next_start(h.now()) - h.now(),
                    2 => (r.next_start(h.now()) - h.now()).saturating_sub(1),
                    _ => sim.range(0, 5 * r.sps as u64) as u128,
                };
                truth += d;
                sim.advance(d);
                for h in &hosts {
                    let drift = if sim.fault("clock_drift", 1, 8) { d / 1000 } else { 0 };
                    h.set(h.now() + d + drift);
                }
                sim.log(format!("+{d}"));
            }
            2 => {
                if sim.fault("clock_jump_forward", 1, 3) {
                    let j = sim.range(1, 4 * r.sps as u64) as u128;
                    h.set(h.now() + j);
                    sim.log(format!("n{i} jumps +{j}"));
                } else if sim.fault("clock_jump_back", 1, 3) {
                    let j = sim.range(1, 4 * r.sps as u64) as u128;
                    h.set(h.now().saturating_sub(j));
                    sim.log(format!("n{i} jumps -{j}"));
                } else if sim.fault("clock_reset_to_epoch", 1, 30) {
                    h.set(sim.range(0, 3) as u128);
                    sim.log(format!("n{i} clock reset"));
                }
            }
            _ => {
                let t = read_ticks(sim, &r, h.now());
                h.ticks(t);
                let op = sim.choose(7);
                let hh = h.clone();
                check_reads(sim, i, &clocks[i], &r, &move || hh.now(), op);
                hosts[i].settle();
                let now = hosts[i].now();
                sim.state_of(&format!("{op} {:?} {} {}", r.slot(now).map(|s| s.min(50)), r.sps, (now.saturating_sub(r.genesis)) % r.sps < 3));
                sim.nontrivial = true;
            }
        }
    }
    // hosts whose clocks read the same instant agree on the slot
    let t = instant(sim, &r, false);
    for h in &hosts {
        h.settle();
        h.set(t);
    }
    let all: Vec<_> = clocks.iter().map(|c| guard(|| c.current_slot()).ok().flatten()).collect();
    if all.iter().any(|s| *s != r.slot(t)) {
        sim.violate("T01", "agreement", format!("clocks reading {t} give {all:?}, expected {:?}", r.slot(t)));
    }
}

/// The shipped clocks of the public networks, over a simulated system clock.
fn run_networks(sim: &mut Sim) {
    // published chain parameters: genesis time, seconds per slot, slots per epoch
    let nets: [(&str, u64); 4] =
        [("mainnet", 1606824023), ("sepolia", 1655733600), ("goerli", 1616508000), ("holesky", 1695902400)];
    let (name, genesis) = *sim.pick(&nets);
    let r = Ref { genesis: genesis as u128 * NS, sps: 12 * NS, spe: 32 };
    let mut now = instant(sim, &r, sim_far());
    simkit::os::set_wall(Some(now as i128), 0);
    let direct = sim.chance(1, 2);
    let c = if direct {
        match name {
            "mainnet" => clock::for_mainnet(),
            "sepolia" => clock::for_sepolia(),
            "goerli" => clock::for_goerli(),
            _ => clock::for_holesky(),
        }
    } else {
        let ctx = match name {
            "mainnet" => Context::for_mainnet(),
            "sepolia" => Context::for_sepolia(),
            "goerli" => Context::for_goerli(),
            _ => Context::for_holesky(),
        };
        if ctx.genesis_time().ok() != Some(genesis) {
            sim.violate("T01", "network_genesis", format!("{name}: genesis {:?}", ctx.genesis_time().ok()));
        }
        match (sim.chance(1, 2), ctx.clock()) {
            (true, Some(c)) => c,
            (_, None) => {
                sim.violate("T01", "network_clock", format!("{name}: no clock"));
                return;
            }
            _ => ctx.clock_at(genesis),
        }
    };
    sim.log(format!("network {name} direct={direct} now={now}"));
    let steps = 8 + sim.choose(20);
    for _ in 0..steps {
        if sim.found() {
            break;
        }
        match sim.choose(3) {
            0 => {
                let d = match sim.choose(3) {
                    0 => sim.range(0, 30 * NS as u64) as u128,
                    1 => r.next_start(now) - now,
                    _ => (r.next_start(now) - now).saturating_sub(1),
                };
                now += d;
                sim.advance(d);
            }
            1 => {
                if sim.fault("clock_jump_back", 1, 3) {
                    now = now.saturating_sub(sim.range(1, 60 * NS as u64) as u128);
                } else if sim.fault("clock_before_1970", 1, 12) {
                    // only the helpers documented to saturate are defined there
                    let secs = sim.range(0, 100);
                    simkit::os::set_wall(Some(-(1 + secs as i128 * NS as i128)), 0);
                    let d = guard(clock::duration_since_unix_epoch);
                    let u = guard(|| clock::duration_until(5));
                    sim.log(format!("before 1970: {d:?} {u:?}"));
                    if !matches!(d, Ok(d) if d.is_zero()) || !matches!(u, Ok(u) if u == Duration::from_secs(5)) {
                        sim.violate("T01", "before_1970", format!("system clock before 1970: {d:?} {u:?}"));
                    }
                }
            }
            _ => {
                let tick = if sim.chance(1, 3) { sim.range(1, 2_000_000) } else { 0 };
                simkit::os::set_wall(Some(now as i128), tick);
                let op = sim.choose(9);
                if op < 7 {
                    check_reads(sim, 0, &c, &r, &|| simkit::os::wall().unwrap() as u128, op);
                } else {
                    let ts = sim.range((now / NS) as u64 - 50, (now / NS) as u64 + 50);
                    let d = guard(|| clock::duration_until(ts));
                    let s = guard(clock::duration_since_unix_epoch);
                    let t1 = simkit::os::wall().unwrap() as u128;
                    let target = ts as u128 * NS;
                    sim.log(format!("until {ts}: {d:?}"));
                    match (d, s) {
                        (Ok(d), Ok(s)) => {
                            let d = d.as_nanos();
                            if d > target.saturating_sub(now) || d < target.saturating_sub(t1) {
                                sim.violate("T01", "duration_until", format!("{d} ns until {target} at {now}"));
                            }
                            if s.as_nanos() < now || s.as_nanos() > t1 {
                                sim.violate("T01", "since_epoch", format!("{s:?} at {now}"));
                            }
                        }
                        e => sim.violate("T01", "panic", format!("{e:?}")),
                    }
                }
                now = simkit::os::wall().unwrap() as u128;
                sim.nontrivial = true;
                sim.state_of(&format!("{name} {op} {}", (now.saturating_sub(r.genesis)) % r.sps < 3));
            }
        }
        simkit::os::set_wall(Some(now as i128), 0);
    }
    simkit::os::set_wall(None, 0);
}
fn sim_far() -> bool {
    false
}

// --------------------------------------------------------------------------------------- T02

struct Count(AtomicU64);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

const GRAIN: u128 = 2_000_000; // timers of the runtime have millisecond granularity

fn run_stream(sim: &mut Sim) {
    let (r, genesis, sps) = params(sim);
    let p = "T02";
    let start = match sim.choose(4) {
        0 => r.start(sim.range(0, 20)) + sim.range(0, r.sps as u64 - 1) as u128,
        1 => r.genesis.saturating_sub(sim.range(1, 3 * r.sps as u64) as u128),
        2 => r.start(sim.range(1, 20)) - sim.range(1, 1000) as u128,
        _ => r.start(sim.range(0, 1 << 24)),
    };
    // swarm: which clock faults this run may meet
    let (jumps, drift, stalls) = (sim.chance(1, 3), sim.chance(1, 3), sim.chance(1, 2));
    let host = Host::new(start);
    let clock = Clock::new(genesis, sps, r.spe, host.clone());
    sim.log(format!("genesis={genesis} sps={sps} start={start} jumps={jumps} drift={drift} stalls={stalls}"));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    rt.block_on(async {
        let t = read_ticks(sim, &r, host.now());
        host.ticks(t);
        let made_at = host.now();
        let stream = match guard(|| clock.clone().into_stream()) {
            Ok(s) => s,
            Err(e) => {
                sim.violate(p, "panic", format!("creating the stream panicked: {}", e.message));
                return;
            }
        };
        host.settle();
        let made_done = host.now();
        let mut stream = Box::pin(stream);
        let count = Arc::new(Count(AtomicU64::new(0)));
        let waker: Waker = count.clone().into();
        let mut rt_now: u128 = 0; // runtime (monotonic) time
        // latest instant at which the stream's timer may be due, in runtime time
        let mut due = (r.next_start(made_at) - made_at).max(r.next_start(made_done) - made_done) + GRAIN;
        let mut last: Option<u64> = None;
        let mut yielded = 0u64;
        let mut first_poll = true;
        let mut waiting: Option<u64> = None; // wake count when it returned Pending
        let steps = 30 + sim.choose(60);
        for _ in 0..steps {
            if sim.found() {
                return;
            }
            match sim.choose(4) {
                0 | 1 => {
                    let now = host.now();
                    let to_next = r.next_start(now) - now;
                    let d = match sim.choose(6) {
                        0 => to_next + GRAIN,
                        1 => to_next,
                        2 => to_next.saturating_sub(1 + sim.choose(1000) as u128),
                        3 => sim.range(0, r.sps as u64) as u128,
                        4 => due.saturating_sub(rt_now),
                        _ if stalls => {
                            sim.count_fault("stalled_consumer");
                            sim.range(1, 5) as u128 * r.sps + sim.range(0, r.sps as u64) as u128
                        }
                        _ => to_next,
                    };
                    let skew = if drift && sim.fault("clock_drift", 1, 3) {
                        // the wall clock runs slow or fast against the timer
                        (d / 500) as i128 * if sim.chance(1, 2) { 1 } else { -1 }
                    } else {
                        0
                    };
                    host.set((now + d).saturating_add_signed(skew));
                    rt_now += d;
                    sim.advance(d);
                    tokio::time::advance(Duration::from_nanos(d as u64)).await;
                    tokio::task::yield_now().await;
                    sim.log(format!("+{d} skew {skew} now={}", host.now()));
                    if let Some(w) = waiting {
                        if rt_now >= due && count.0.load(Ordering::SeqCst) == w {
                            sim.violate(p, "lost_wakeup", format!("stream is pending, its timer was due at {due} (runtime clock now {rt_now}), nobody was woken"));
                        }
                    }
                }
                2 => {
                    if jumps && sim.fault("clock_jump_forward", 1, 3) {
                        let j = sim.range(1, 3 * r.sps as u64) as u128;
                        host.set(host.now() + j);
                        sim.log(format!("jump +{j}"));
                    } else if jumps && sim.fault("clock_jump_back", 1, 3) {
                        let j = sim.range(1, 3 * r.sps as u64) as u128;
                        host.set(host.now().saturating_sub(j));
                        sim.log(format!("jump -{j}"));
                    }
                }
                _ => {
                    let t = read_ticks(sim, &r, host.now());
                    host.ticks(t);
                    let t0 = host.now();
                    waiting = None;
                    let wakes = count.0.load(Ordering::SeqCst);
                    let res = poll_fn(|_| {
                        let mut cx = std::task::Context::from_waker(&waker);
                        Poll::Ready(guard(|| Pin::new(&mut stream).poll_next(&mut cx)))
                    })
                    .await;
                    host.settle();
                    let t1 = host.now();
                    let rearm = rt_now
                        + (r.next_start(t0) - t0).max(r.next_start(t1) - t1)
                        + GRAIN;
                    sim.log(format!("poll at {t0}: {res:?}"));
                    sim.state_of(&format!("{:?} {} {}", r.slot(t0).map(|s| last.map(|l| s.wrapping_sub(l))), matches!(res, Ok(Poll::Pending)), first_poll));
                    match res {
                        Err(e) => {
                            sim.violate(p, "panic", format!("polling panicked at {t0}: {}", e.message));
                            return;
                        }
                        Ok(Poll::Ready(None)) => {
                            sim.violate(p, "ended", format!("the stream ended at {t0} (slot {:?})", r.slot(t0)));
                            return;
                        }
                        Ok(Poll::Ready(Some(s))) => {
                            if let Some(l) = last {
                                if s <= l {
                                    sim.violate(p, "not_increasing", format!("slot {s} yielded at {t0}..{t1} after slot {l}"));
                                }
                            }
                            // the first yield is the slot current when the stream was made
                            let lo = if first_poll { r.slot(made_at).min(r.slot(t0)) } else { r.slot(t0) };
                            if Some(s) < lo || Some(s) > r.slot(t1).max(if first_poll { r.slot(made_done) } else { None }) {
                                sim.violate(p, "wrong_slot", format!("slot {s} yielded while the clock read {t0}..{t1}, i.e. slots {:?}..{:?}", r.slot(t0), r.slot(t1)));
                            }
                            last = Some(last.map_or(s, |l| l.max(s)));
                            yielded += 1;
                            // the timer may stem from before or have been set again
                            due = due.max(rearm);
                            if !first_poll || r.slot(made_at).is_none() {
                                due = rearm;
                            }
                            first_poll = false;
                            if yielded == 2 {
                                sim.nontrivial = true;
                                sim.probe("two_slots_yielded");
                            }
                        }
                        Ok(Poll::Pending) => {
                            if rt_now >= due && r.slot(t0).is_some() && r.slot(t0) > last {
                                sim.violate(p, "missed", format!("pending at {t0}, slot {:?} already began, last yielded {last:?}, timer due at {due}, runtime clock {rt_now}", r.slot(t0)));
                            }
                            if first_poll && r.slot(made_at).is_some() {
                                sim.violate(p, "first_not_immediate", format!("first poll at {t0} after genesis is pending"));
                            }
                            due = due.max(rearm);
                            waiting = Some(wakes);
                            if first_poll {
                                sim.probe("subscribed_before_genesis");
                            }
                        }
                    }
                }
            }
        }
        sim.log(format!("yielded {yielded}"));
    });
}

fn main() {
    let property = simkit::arg("--property").expect("--property");
    let real = vec!["ethereum_consensus::clock (Clock, SlotStream, conversions)".to_string(), "tokio timer wheel".into()];
    let stubs = vec![
        "TimeProvider / CLOCK_REALTIME: simulated wall clock".to_string(),
        "tokio clock: paused, advanced by the simulator".into(),
    ];
    let t = match property.as_str() {
        "T01" => Target {
            name: "clocksim",
            property,
            run: Box::new(|sim| {
                if sim.chance(1, 4) {
                    run_networks(sim)
                } else {
                    run_conversions(sim)
                }
            }),
            rule: "each run draws chain parameters, hosts and a schedule of time passing, clock faults and clock queries; non-trivial: at least one query was checked under the drawn schedule".into(),
            state_measure: "distinct (query, slot bucket, chain parameters, at-boundary) tuples".into(),
            real,
            stubs,
            assumptions: vec!["times within 584 years of the unix epoch (u64 nanoseconds), as documented".into()],
            required_probes: vec![],
            quick_s: 15.0,
            thorough_s: 600.0,
            min_runs: 200,
            max_runs_quick: 60_000,
        },
        "T02" => Target {
            name: "clocksim",
            property,
            run: Box::new(run_stream),
            rule: "each run draws chain parameters, a start instant and a schedule of runtime-clock advances, wall-clock drift and jumps, stalls, polls and time passing between clock reads; non-trivial: the stream yielded at least two slots".into(),
            state_measure: "distinct (slots behind, pending, first poll) tuples".into(),
            real,
            stubs,
            assumptions: vec!["the stream is polled again when woken; runtime timers have 1 ms granularity".into()],
            required_probes: vec!["two_slots_yielded".into(), "subscribed_before_genesis".into()],
            quick_s: 20.0,
            thorough_s: 600.0,
            min_runs: 200,
            max_runs_quick: 60_000,
        },
        _ => panic!("unknown property"),
    };
    simkit::main_for(t)
}

//! One run's network parameters, shared by the model and the code under test.
use bridge_api::{Blk, Context, Lib, St, A, E, Q};
use refspec::{Fork::*, *};
use simkit::Sim;

pub struct W {
    pub p: Params,
    pub c: Context,
    pub pre: &'static dyn Lib,
    pub ele: &'static dyn Lib,
}

/// what a property needs from the runs that decide it
#[derive(Clone, Copy, Default)]
pub struct Flavour {
    /// lowest and highest fork of the starting state
    pub lo: u8,
    pub hi: u8,
    /// chance in 100 of a preset with mainnet sizes
    pub mainnet: u64,
    /// chance in 100 that a later fork is scheduled within reach
    pub forks_ahead: u64,
    /// weights of what blocks carry, 0..=10
    pub atts: u64,
    pub slashings: u64,
    pub deposits: u64,
    pub exits: u64,
    pub sync: u64,
    pub changes: u64,
    pub requests: u64,
    pub byzantine: u64,
    pub epochs: u64,
    pub crash: u64,
    pub queries: u64,
}

fn set_epoch(c: &mut Context, f: usize, e: u64) {
    match f {
        1 => c.altair_fork_epoch = e,
        2 => c.bellatrix_fork_epoch = e,
        3 => c.capella_fork_epoch = e,
        4 => c.deneb_fork_epoch = e,
        5 => c.electra_fork_epoch = e,
        _ => {}
    }
}

impl W {
    pub fn new(mainnet: bool) -> W {
        let (pre, ele): (&'static dyn Lib, &'static dyn Lib) =
            if mainnet { (bridge_main::LIB, bridge_main_e::LIB) } else { (bridge_min::LIB, bridge_min_e::LIB) };
        let mut p = if mainnet { Params::mainnet() } else { Params::minimal() };
        let mut c = pre.context();
        p.epochs = [0, FAR, FAR, FAR, FAR, FAR];
        for f in 1..6 {
            set_epoch(&mut c, f, FAR);
        }
        let mut w = W { p, c, pre, ele };
        static SEEN: [std::sync::OnceLock<[bool; 6]>; 2] = [const { std::sync::OnceLock::new() }; 2];
        w.p.early_exit = *SEEN[mainnet as usize].get_or_init(|| FORKS.map(|f| W { p: w.p.clone(), c: w.c.clone(), pre, ele }.exits_early(f)));
        w
    }
    /// Does the code show the recorded finding: an exit granted by the time since a validator was queued, not
    /// since it was active? Where it does, the model follows it from here on, so that everything else is still judged.
    fn exits_early(mut self, f: Fork) -> bool {
        let mut e = [0; 6];
        e[f as usize + 1..].fill(FAR);
        self.set_epochs(e);
        let (p, wait) = (&self.p.clone(), self.p.shard_period);
        let granted = |active_since: u64, queued_since: u64, now: u64| -> bool {
            let mut s = blank_state(f, p);
            s.slot = now * p.spe;
            s.header.slot = s.slot - 1;
            for i in 0..8 {
                let (eligibility, activation) = if i == 0 { (queued_since, active_since) } else { (0, 0) };
                s.validators.push(Validator { pk: pk(i), creds: bls_creds(i), eff: p.max_eb, slashed: false, eligibility, activation, exit: FAR, withdrawable: FAR });
                s.balances.push(p.max_eb);
            }
            s.prev_part = vec![0; 8];
            s.cur_part = vec![0; 8];
            s.scores = vec![0; 8];
            let Ok(committee) = s.next_sync_committee(p) else { return false };
            s.cur_sync = committee.clone();
            s.next_sync = committee;
            let mut body = empty_body(p);
            body.exits.push(crate::gen::sign_exit(&s, 0, now, p));
            if f >= Bellatrix {
                body.payload = honest_payload(&s, p, 1, vec![]);
            }
            let Ok(proposer) = s.proposer(p) else { return false };
            body.sync.sig = infinity();
            body.randao = randao_reveal(&s, proposer as usize, p);
            let b = Block { fork: f, slot: s.slot, proposer, parent: s.header.root(), state: [0; 32], body, sig: [0; 96] };
            let (Ok(st), Ok(b)) = (self.decode(&s), self.block(&b)) else { return false };
            crate::check::run_block(&self, &*st, &*b, crate::check::Mode::InSlot, false, Engine::Valid).ok()
        };
        // granted exactly from the wrong epoch on
        granted(20, 10, wait + 10) && granted(20, 10, wait + 20) && !granted(20, 10, wait + 9) && !granted(20, 20, wait + 19)
    }
    pub fn set_epochs(&mut self, e: [u64; 6]) {
        self.p.epochs = e;
        for (f, e) in e.into_iter().enumerate() {
            set_epoch(&mut self.c, f, e);
        }
    }
    /// vary the configuration values that decide how soon deep behaviour is reached
    pub fn vary(&mut self, sim: &mut Sim) {
        let (p, c) = (&mut self.p, &mut self.c);
        macro_rules! v {
            ($a:ident, $b:ident, $l:expr) => {
                if sim.chance(1, 2) {
                    p.$a = *sim.pick(&$l);
                    c.$b = p.$a as _;
                }
            };
        }
        v!(shard_period, shard_committee_period, [2, 0, 1, 5]);
        v!(withdrawability_delay, min_validator_withdrawability_delay, [2, 0, 1, 8]);
        v!(min_churn, min_per_epoch_churn_limit, [1, 2, 3, 5]);
        v!(churn_q, churn_limit_quotient, [8, 4, 16, 20]);
        v!(max_activation_churn, max_per_epoch_activation_churn_limit, [2, 1, 3, 6]);
        v!(inactivity_bias, inactivity_score_bias, [4, 1, 64, 1 << 20]);
        v!(inactivity_recovery, inactivity_score_recovery_rate, [16, 1, 3, 100]);
        v!(min_churn_electra, min_per_epoch_churn_limit_electra, [64_000_000_000, 32_000_000_000, 100_500_000_000, 5_000_000_000]);
        v!(max_churn_electra, max_per_epoch_activation_exit_churn_limit, [128_000_000_000, 64_000_000_000, 33_000_000_000, 7_000_000_000]);
        v!(ejection, ejection_balance, [16_000_000_000, 24_000_000_000, 31_000_000_000]);
        v!(seconds_per_slot, seconds_per_slot, [6, 12, 1]);
    }
    pub fn lib(&self, f: Fork) -> &'static dyn Lib {
        if f == Electra {
            self.ele
        } else {
            self.pre
        }
    }
    pub fn decode(&self, s: &State) -> E<Box<dyn St>> {
        self.lib(s.fork).state(s.fork as u8, &s.v(&self.p).encode())
    }
    pub fn upgrade(&self, st: &dyn St) -> E<Box<dyn St>> {
        if st.fork() == 4 {
            let b = st.encode()?;
            return if self.p.mainnet { bridge_main_e::upgrade(&b, &self.c) } else { bridge_min_e::upgrade(&b, &self.c) };
        }
        st.upgrade(&self.c)
    }
    /// what a user of the crate does to bring a state to a slot: per-fork functions and upgrades
    pub fn advance(&self, mut st: Box<dyn St>, slot: u64) -> E<Box<dyn St>> {
        while st.fork() < 5 {
            let e = self.p.epochs[st.fork() as usize + 1];
            match e.checked_mul(self.p.spe) {
                Some(fs) if e != FAR && fs <= slot => {
                    if st.slot() < fs {
                        st.process_slots(fs, &self.c)?;
                    }
                    st = self.upgrade(&*st)?;
                }
                _ => break,
            }
        }
        if st.slot() < slot {
            st.process_slots(slot, &self.c)?;
        }
        Ok(st)
    }
    pub fn root(&self, st: &mut dyn St) -> E<Root> {
        match st.query(&Q::Root, &self.c)? {
            A::Bytes(b) => b.try_into().map_err(|_| "root length".into()),
            _ => Err("root".into()),
        }
    }
    pub fn block(&self, b: &Block) -> E<Box<dyn Blk>> {
        self.lib(b.fork).block(b.fork as u8, &b.encode(&self.p))
    }
}
pub fn fork(k: u8) -> Fork {
    FORKS[k as usize]
}

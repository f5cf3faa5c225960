//! The crate under test behind objects, so that every preset and fork compiles in its own crate, in parallel.
pub use ethereum_consensus::state_transition::Context;
pub type E<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub enum Q {
    Committee { slot: u64, index: usize },
    CommitteeCount(u64),
    Proposer,
    Shuffled { index: usize, count: usize, seed: [u8; 32] },
    ShuffledAll { indices: Vec<usize>, seed: [u8; 32] },
    ActiveIndices(u64),
    BlockRootAt(u64),
    BlockRoot(u64),
    RandaoMix(u64),
    Seed { epoch: u64, kind: u32 },
    Domain { kind: u32, epoch: Option<u64> },
    TotalBalance(Vec<usize>),
    TotalActive,
    Churn,
    NextSync,
    NextSyncCommittee,
    Slash { index: usize, reporter: Option<usize> },
    Exit(usize),
    Withdrawals,
    Root,
}
#[derive(Clone, Debug, PartialEq)]
pub enum A {
    U(u64),
    List(Vec<u64>),
    Bytes(Vec<u8>),
    Unit,
}

/// number of ways to ask for them
pub const VIEWS: u64 = 7;
/// what the fork-spanning types say about the value they hold, field by field
pub type Facts = Vec<(&'static str, Option<Vec<u8>>)>;
/// the blinded form of a block
pub struct Blind {
    pub ssz: Vec<u8>,
    pub root: [u8; 32],
    pub json: String,
    pub facts: Facts,
}

pub trait St: Send {
    fn facts(&mut self, _view: u64) -> E<Facts> {
        Ok(vec![])
    }
    fn fork(&self) -> u8;
    fn slot(&self) -> u64;
    fn encode(&self) -> E<Vec<u8>>;
    fn json(&self) -> E<String>;
    fn dup(&self) -> Box<dyn St>;
    fn process_slots(&mut self, slot: u64, c: &Context) -> E<()>;
    /// the state of the next fork
    fn upgrade(&self, c: &Context) -> E<Box<dyn St>>;
    /// the fork's own transition function
    fn apply(&mut self, b: &dyn Blk, validate: bool, c: &Context) -> E<()>;
    fn apply_in_slot(&mut self, b: &dyn Blk, validate: bool, c: &Context) -> E<()>;
    /// the transition function that spans forks; `None` when it does not know the fork
    fn execute(&mut self, b: &dyn Blk, c: &Context) -> Option<E<()>>;
    fn query(&mut self, q: &Q, c: &Context) -> E<A>;
    fn any(&self) -> &dyn std::any::Any;
}
pub trait Blk: Send {
    fn facts(&self, _view: u64) -> E<Facts> {
        Ok(vec![])
    }
    fn blind(&self, _view: u64) -> E<Blind> {
        Err("no blinded form".into())
    }
    fn fork(&self) -> u8;
    fn encode(&self) -> E<Vec<u8>>;
    fn json(&self) -> E<String>;
    fn message_root(&self) -> E<[u8; 32]>;
    fn any(&self) -> &dyn std::any::Any;
}
pub trait Lib: Sync {
    fn context(&self) -> Context;
    fn state(&self, fork: u8, bytes: &[u8]) -> E<Box<dyn St>>;
    fn state_json(&self, fork: u8, s: &str) -> E<Box<dyn St>>;
    /// through the fork-spanning state type, which has to find the fork itself
    fn state_json_any(&self, s: &str) -> E<Box<dyn St>>;
    fn block(&self, fork: u8, bytes: &[u8]) -> E<Box<dyn Blk>>;
    fn block_json(&self, fork: u8, s: &str) -> E<Box<dyn Blk>>;
    /// through the fork-spanning block type, which has to find the fork itself
    fn block_json_any(&self, s: &str) -> E<Box<dyn Blk>>;
    /// genesis state and whether it triggers; `deposits` and `header` in SSZ
    fn genesis(&self, fork: u8, hash: [u8; 32], time: u64, deposits: &[Vec<u8>], header: Option<&[u8]>, c: &Context) -> E<(Box<dyn St>, bool)>;
    /// the genesis block (message) of a state
    fn genesis_block_root(&self, s: &dyn St) -> E<[u8; 32]>;
    /// a relay's answer to a signed blinded block: the full block, if the payload is the one committed to
    fn unblind(&self, _fork: u8, _blinded: &[u8], _payload: &[u8]) -> E<Box<dyn Blk>> {
        Err("no blinded form".into())
    }
    /// through the fork-spanning blinded type
    fn blinded_json_any(&self, _s: &str) -> E<(u8, Vec<u8>)> {
        Err("no blinded form".into())
    }
    /// (body fork, sidecar bytes)
    fn sidecar_inclusion(&self, fork: u8, sidecar: &[u8]) -> E<()>;
}
pub fn s<T, X: std::fmt::Debug>(r: Result<T, X>) -> E<T> {
    r.map_err(|e| {
        let mut s = format!("{e:?}");
        s.truncate(s.char_indices().take_while(|(i, _)| *i < 300).last().map(|(i, c)| i + c.len_utf8()).unwrap_or(0));
        s
    })
}
pub fn r32<T: AsRef<[u8]>>(r: T) -> [u8; 32] {
    r.as_ref().try_into().unwrap()
}

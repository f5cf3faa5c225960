//! Several nodes with their validators on a faulty network, from genesis.
//!
//! Every node runs the code under test on its own copies of the states it stores. The model's state of every block
//! is known to the simulator. Time moves in ticks of a third of a slot; what is delivered in a tick, and in which
//! order, is drawn.
use crate::{check::*, gen::*, queries, solo, world::*};
use bridge_api::{St, Q, A};
use refspec::{Fork::*, *};
use simkit::Sim;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

struct Known {
    b: Option<Block>,
    parent: Root,
    slot: u64,
    post: State,
    enc: Vec<u8>,
}
#[derive(Clone)]
struct Vote {
    who: u64,
    committee: u64,
    data: AttData,
}
#[derive(Clone)]
enum Msg {
    Block(Root),
    Vote(Rc<Vote>),
    Sync { slot: u64, root: Root, who: u64 },
    /// a peer asks for the blocks it lacks
    Ask(usize),
}
enum Mem {
    Live(Box<dyn St>),
    Disk(Vec<u8>),
}
struct Peer {
    up: bool,
    byzantine: bool,
    group: u64,
    skew: i64,
    slow: bool,
    /// ticks until a crashed node is back
    down_for: u64,
    store: BTreeMap<Root, Mem>,
    /// stored, but lost in a crash
    unflushed: Vec<Root>,
    /// blocks whose parent is missing, or that lie in the node's future
    waiting: BTreeSet<Root>,
    refused: BTreeSet<Root>,
    last_slot: u64,
    attested: u64,
    votes: Vec<Vote>,
    /// per validator: its latest vote
    latest: BTreeMap<u64, (u64, Root)>,
    /// per validator: everything seen, to find equivocations
    said: BTreeMap<u64, Vec<AttData>>,
    evidence: Vec<(u64, AttData, AttData)>,
    headers: BTreeMap<(u64, u64), Root>,
    doubles: Vec<(Root, Root)>,
    syncs: BTreeSet<(u64, Root, u64)>,
    head: Root,
    fin: Checkpoint,
    deposits_seen: usize,
    /// slashing protection, survives crashes: last proposed slot, per validator the last target
    proposed: u64,
    protect: BTreeMap<u64, (u64, u64)>,
}
struct Net {
    w: W,
    known: BTreeMap<Root, Rc<Known>>,
    at: BTreeMap<(Root, u64), Rc<State>>,
    queue: BTreeMap<(u64, u64, u64), (usize, Msg)>,
    sent: u64,
    peers: Vec<Peer>,
    /// validator -> peer
    owner: Vec<usize>,
    genesis: Root,
    eth1: Eth1Chain,
    tick: u64,
    calm: bool,
    loss: u64,
    dup: u64,
    delay: u64,
    partition: bool,
    /// what each validator really signed
    signed: BTreeMap<u64, Vec<AttData>>,
    signed_blocks: BTreeMap<(u64, u64), Vec<Root>>,
    /// conflicting messages signed by
    guilty: BTreeSet<u64>,
    restarts: u64,
    reorgs: u64,
    /// (epoch, validator): votes slashing protection did not allow
    held: BTreeSet<(u64, u64)>,
}
const VALIDATORS: u64 = 20;

impl Net {
    fn ancestor(&self, mut r: Root, slot: u64) -> Root {
        while let Some(k) = self.known.get(&r) {
            if k.slot <= slot {
                return r;
            }
            r = k.parent;
        }
        r
    }
    fn descends(&self, r: Root, of: Root) -> bool {
        let Some(k) = self.known.get(&of) else { return false };
        self.ancestor(r, k.slot) == of
    }
    /// the model's state of a block, advanced to a slot
    fn state(&mut self, root: Root, slot: u64) -> Option<Rc<State>> {
        if let Some(s) = self.at.get(&(root, slot)) {
            return Some(s.clone());
        }
        let k = self.known[&root].clone();
        let mut s = k.post.clone();
        if s.slot < slot {
            model(|| process_slots(&mut s, slot, &self.w.p)).ok()?;
        }
        let s = Rc::new(s);
        if self.at.len() > 60 {
            self.at.pop_first();
        }
        self.at.insert((root, slot), s.clone());
        Some(s)
    }
    fn local_tick(&self, i: usize) -> u64 {
        (self.tick as i64 + self.peers[i].skew).max(0) as u64
    }
    fn send(&mut self, sim: &mut Sim, from: usize, to: usize, m: Msg) {
        if from == to {
            return;
        }
        if self.partition && self.peers[from].group != self.peers[to].group {
            sim.count_fault("message across a partition lost");
            return;
        }
        if !self.calm && sim.fault("message lost", self.loss, 100) {
            return;
        }
        let copies = if !self.calm && sim.fault("message duplicated", self.dup, 100) { 2 } else { 1 };
        for _ in 0..copies {
            let mut d = if self.calm { 0 } else { sim.choose(self.delay + 1) };
            if !self.calm && (self.peers[from].slow || self.peers[to].slow) {
                d += 1 + sim.choose(4);
                sim.count_fault("slow node");
            }
            if d > 0 {
                sim.count_fault("message delayed");
            }
            self.sent += 1;
            let order = sim.choose(1 << 16);
            self.queue.insert((self.tick + 1 + d, order, self.sent), (to, m.clone()));
        }
    }
    fn gossip(&mut self, sim: &mut Sim, from: usize, m: Msg) {
        for to in 0..self.peers.len() {
            self.send(sim, from, to, m.clone());
        }
    }
    /// the head the node follows: latest votes by weight, from the best justified checkpoint
    fn find_head(&mut self, i: usize) -> Root {
        let p = &self.peers[i];
        let mut best = Checkpoint::default();
        for r in p.store.keys() {
            let j = self.known[r].post.cur_just;
            if j.epoch > best.epoch && p.store.contains_key(&j.root) {
                best = j;
            }
        }
        let mut at = if best.epoch == 0 { self.genesis } else { best.root };
        let epoch = self.local_tick(i) / 3 / self.w.p.spe;
        let mut kids: BTreeMap<Root, Vec<Root>> = BTreeMap::new();
        let mut viable: BTreeSet<Root> = BTreeSet::new();
        let mut parents: BTreeSet<Root> = BTreeSet::new();
        for r in p.store.keys() {
            let k = &self.known[r];
            kids.entry(k.parent).or_default().push(*r);
            parents.insert(k.parent);
        }
        for r in p.store.keys().filter(|r| !parents.contains(*r)) {
            let j = self.known[r].post.cur_just.epoch;
            if j == best.epoch || j + 2 >= epoch {
                let mut x = *r;
                while let Some(k) = self.known.get(&x) {
                    if !viable.insert(x) {
                        break;
                    }
                    x = k.parent;
                }
            }
        }
        // every vote counts for the block it names and all its ancestors above the start
        let base = &self.known[&at].post;
        let floor = self.known[&at].slot;
        let mut weight: BTreeMap<Root, u64> = BTreeMap::new();
        for (v, (_, h)) in &p.latest {
            if self.guilty_seen(i, *v) {
                continue;
            }
            let eff = base.validators.get(*v as usize).map_or(0, |v| v.eff);
            let mut x = *h;
            while let Some(k) = self.known.get(&x).filter(|k| k.slot > floor) {
                *weight.entry(x).or_default() += eff;
                x = k.parent;
            }
        }
        loop {
            let Some(k) = kids.get(&at) else { return at };
            let ok: Vec<Root> = k.iter().copied().filter(|r| viable.contains(r)).collect();
            let Some(x) = ok.into_iter().map(|r| (weight.get(&r).copied().unwrap_or(0), r)).max() else { return at };
            at = x.1;
        }
    }
    fn guilty_seen(&self, i: usize, v: u64) -> bool {
        self.peers[i].evidence.iter().any(|e| e.0 == v)
    }
    fn live<'a>(&mut self, sim: &mut Sim, i: usize, root: &Root) -> Option<Box<dyn St>> {
        let k = self.known[root].clone();
        match self.peers[i].store.get(root)? {
            Mem::Live(s) => Some(s.dup()),
            Mem::Disk(b) => match real(|| self.w.lib(k.post.fork).state(k.post.fork as u8, b)) {
                Real::Ok(s) => {
                    sim.probe("state read back after a crash");
                    match real(|| s.encode()) {
                        Real::Ok(e) if e == k.enc => {}
                        x => report(sim, &["C14"], "stored state differs", x.what()),
                    }
                    let d = s.dup();
                    self.peers[i].store.insert(*root, Mem::Live(s));
                    Some(d)
                }
                x => {
                    report(sim, &["C14"], "stored state refused", x.what());
                    None
                }
            },
        }
    }
    /// a node meets a block
    fn import(&mut self, sim: &mut Sim, i: usize, root: Root) {
        let k = self.known[&root].clone();
        if self.peers[i].store.contains_key(&root) || self.peers[i].refused.contains(&root) {
            sim.probe("block known already");
            return;
        }
        if !self.peers[i].store.contains_key(&k.parent) || k.slot > self.local_tick(i) / 3 {
            self.peers[i].waiting.insert(root);
            sim.probe("block waits for its parent or its slot");
            return;
        }
        let b = k.b.as_ref().unwrap();
        let Some(st) = self.live(sim, i, &k.parent) else { return };
        let parent = self.known[&k.parent].clone();
        let (w, p) = (&self.w, &self.w.p);
        let mut modes = vec![Mode::InSlot];
        if parent.post.fork == b.fork && st.slot() < b.slot {
            modes.push(Mode::Whole);
        }
        if b.fork < Electra {
            modes.push(Mode::Executor);
        }
        let mode = *sim.pick(&modes);
        let blk = match real(|| w.block(b)) {
            Real::Ok(x) => x,
            x => return report(sim, &["C02", "C14"], "block does not decode", x.what()),
        };
        let got = match mode {
            Mode::InSlot => match real(|| w.advance(st.dup(), b.slot)) {
                Real::Ok(s) => run_block(w, &*s, &*blk, mode, true, Engine::Valid),
                Real::Err(e) => Real::Err(e),
                Real::Panic(e) => Real::Panic(e),
            },
            _ => run_block(w, &*st, &*blk, mode, true, Engine::Valid),
        };
        let same = match &got {
            Real::Ok(s) => matches!(real(|| s.encode()), Real::Ok(e) if e == k.enc),
            _ => false,
        };
        sim.probe("block imported");
        if !same {
            // find out what differs: the slots before the block, or the block itself
            let mut n = Node { m: parent.post.clone(), r: st.dup() };
            let lag = n.dup();
            if !advance(sim, w, &mut n, b.slot) {
                return;
            }
            let (at, m) = if mode == Mode::InSlot { (&n, Mode::InSlot) } else { (&lag, mode) };
            offer(sim, w, at, &n, b, m, true, Engine::Valid, &[], "block from a peer");
            if !sim.found() {
                report(sim, &["C01"], "import differs", format!("node {i} gets {} for the block of slot {} in {mode:?}", got.what(), b.slot));
            }
            return;
        }
        let Real::Ok(s) = got else { return };
        seen(sim, &k.post, p);
        let pp = &parent.post;
        if k.post.fin.epoch < pp.fin.epoch || k.post.cur_just.epoch < pp.cur_just.epoch {
            report(sim, &["C03"], "checkpoint moves back", format!("justified {} -> {}, finalized {} -> {}", pp.cur_just.epoch, k.post.cur_just.epoch, pp.fin.epoch, k.post.fin.epoch));
        }
        let peer = &mut self.peers[i];
        peer.store.insert(root, Mem::Live(s));
        peer.unflushed.push(root);
        // what the block carries counts as heard
        let key = (b.slot, b.proposer);
        match peer.headers.get(&key) {
            Some(o) if *o != root => {
                if !peer.doubles.contains(&(*o, root)) {
                    peer.doubles.push((*o, root));
                }
                sim.probe("double proposal seen");
            }
            _ => {
                peer.headers.insert(key, root);
            }
        }
        for (v, d) in voters(&k.post, b, p) {
            self.hear(sim, i, v, d);
        }
        let f = k.post.fin;
        if f.epoch > self.peers[i].fin.epoch {
            self.peers[i].fin = f;
            sim.probe("finality advanced at a node");
            self.safety(sim, i);
        }
        // descendants that waited for it
        let now: Vec<Root> = self.peers[i].waiting.iter().copied().filter(|r| self.known[r].parent == root).collect();
        for r in now {
            self.peers[i].waiting.remove(&r);
            self.import(sim, i, r);
        }
    }
    /// a vote reaches a node: fork choice and slashing detection
    fn hear(&mut self, sim: &mut Sim, i: usize, v: u64, d: AttData) {
        let p = &mut self.peers[i];
        let e = p.latest.entry(v).or_insert((d.target.epoch, d.head));
        if d.target.epoch > e.0 {
            *e = (d.target.epoch, d.head);
        }
        let said = p.said.entry(v).or_default();
        let data = AttData { index: 0, ..d };
        let double = said.iter().find(|o| slashable_data(o, &data) || slashable_data(&data, o)).copied();
        if !said.contains(&data) {
            said.push(data);
        }
        if let Some(o) = double {
            if !p.evidence.iter().any(|e| e.0 == v) {
                let (a, b) = if slashable_data(&o, &data) { (o, data) } else { (data, o) };
                p.evidence.push((v, a, b));
                sim.probe("equivocating voter found");
            }
        }
    }
    /// no two honest nodes finalize conflicting checkpoints unless a third of the stake is slashable
    fn safety(&mut self, sim: &mut Sim, i: usize) {
        let a = self.peers[i].fin;
        for j in 0..self.peers.len() {
            let b = self.peers[j].fin;
            if self.peers[j].byzantine || self.peers[i].byzantine || a.epoch == 0 || b.epoch == 0 {
                continue;
            }
            sim.probe("finalized checkpoints compared");
            if self.descends(a.root, b.root) || self.descends(b.root, a.root) {
                continue;
            }
            let s = &self.known[&self.genesis].post;
            let all: u64 = s.validators.iter().map(|v| v.eff).sum();
            let bad: u64 = self.guilty.iter().filter_map(|v| s.validators.get(*v as usize)).map(|v| v.eff).sum();
            // validators that left or joined on one branch only weaken the bound
            let n = |f: Checkpoint| self.known[&f.root].post.active(f.epoch).into_iter().collect::<BTreeSet<u64>>();
            let (x, y) = (n(a), n(b));
            let moved = x.symmetric_difference(&y).count() as u64 * 32 * GWEI;
            if (bad + moved) * 3 >= all {
                sim.probe("finality broken by a slashable third");
                continue;
            }
            report(sim, &["C03"], "conflicting finality", format!("nodes {i} and {j} finalized epochs {} and {} on different chains, while {} of {} stake is slashable", a.epoch, b.epoch, bad / GWEI, all / GWEI));
        }
    }
    fn crash(&mut self, sim: &mut Sim, i: usize) {
        sim.count_fault("node crash");
        let lost: Vec<Root> = {
            let u = std::mem::take(&mut self.peers[i].unflushed);
            let keep = sim.choose(u.len() as u64 + 1) as usize;
            u[keep..].to_vec()
        };
        if !lost.is_empty() {
            sim.count_fault("unflushed blocks lost");
        }
        let mut store = std::mem::take(&mut self.peers[i].store);
        let mut gone: BTreeSet<Root> = lost.into_iter().collect();
        for r in store.keys().copied().collect::<Vec<_>>() {
            // a block is stored after its parent: without it, it cannot be there
            let k = &self.known[&r];
            if gone.contains(&k.parent) {
                gone.insert(r);
            }
        }
        loop {
            let n = gone.len();
            for r in store.keys() {
                if gone.contains(&self.known[r].parent) {
                    gone.insert(*r);
                }
            }
            if gone.len() == n {
                break;
            }
        }
        store.retain(|r, _| !gone.contains(r));
        for (r, m) in store.iter_mut() {
            if let Mem::Live(s) = m {
                match real(|| s.encode()) {
                    Real::Ok(b) => *m = Mem::Disk(b),
                    x => report(sim, &["C14"], "state does not encode", format!("{} {r:?}", x.what())),
                }
            }
        }
        let g = self.genesis;
        let fin = store.keys().map(|r| self.known[r].post.fin).max_by_key(|f| f.epoch).unwrap_or_default();
        let p = &mut self.peers[i];
        p.store = store;
        p.waiting.clear();
        p.votes.clear();
        p.latest.clear();
        p.said.clear();
        p.evidence.clear();
        p.headers.clear();
        p.doubles.clear();
        p.syncs.clear();
        p.refused.clear();
        p.head = g;
        p.fin = fin;
        p.up = false;
        p.down_for = 1 + sim.choose(12);
        self.restarts += 1;
    }
    /// slot duties of a node
    fn duty(&mut self, sim: &mut Sim, i: usize, fl: &Flavour) {
        let lt = self.local_tick(i);
        let (slot, third) = (lt / 3, lt % 3);
        // held back blocks
        let now: Vec<Root> = self.peers[i].waiting.iter().copied().filter(|r| self.known[r].slot <= slot).collect();
        for r in now {
            self.peers[i].waiting.remove(&r);
            self.import(sim, i, r);
            if sim.found() {
                return;
            }
        }
        if slot == 0 || slot > self.tick / 3 + 2 {
            return;
        }
        let head = self.find_head(i);
        if head != self.peers[i].head {
            if !self.descends(head, self.peers[i].head) {
                self.reorgs += 1;
                sim.probe("reorganisation");
            }
            self.peers[i].head = head;
        }
        if slot > self.peers[i].last_slot {
            self.peers[i].last_slot = slot;
            self.propose(sim, i, slot, fl);
            // ask a peer for what is missing
            let to = sim.choose(self.peers.len() as u64) as usize;
            self.send(sim, i, to, Msg::Ask(i));
            if sim.chance(1, 4) {
                let keep: Vec<Root> = std::mem::take(&mut self.peers[i].unflushed);
                drop(keep);
                sim.probe("flush");
            }
        }
        if third >= 1 && slot > self.peers[i].attested && !sim.found() {
            self.peers[i].attested = slot;
            self.attest(sim, i, slot);
        }
        let lo = slot.saturating_sub(2 * self.w.p.spe);
        self.peers[i].votes.retain(|v| v.data.slot >= lo);
        self.peers[i].syncs.retain(|v| v.0 + 2 >= slot);
    }
    fn mine(&self, i: usize, v: u64) -> bool {
        self.owner.get(v as usize).copied().unwrap_or(0) == i
    }
    fn propose(&mut self, sim: &mut Sim, i: usize, slot: u64, fl: &Flavour) {
        let head = self.peers[i].head;
        if self.known[&head].slot >= slot {
            return;
        }
        let Some(s) = self.state(head, slot) else { return };
        let Ok(who) = s.proposer(&self.w.p) else { return };
        if !self.mine(i, who) || self.peers[i].proposed >= slot || s.validators[who as usize].slashed {
            return;
        }
        self.peers[i].proposed = slot;
        // the node asks its own state whether it proposes
        let Some(st) = self.live(sim, i, &head) else { return };
        let mut n = Node { m: self.known[&head].post.clone(), r: st };
        if !advance(sim, &self.w, &mut n, slot) {
            return;
        }
        let c = self.w.c.clone();
        match real(|| n.r.query(&Q::Proposer, &c)) {
            Real::Ok(A::U(x)) if x == who => {}
            x => return report(sim, &["C07"], "answer: proposer", format!("node {i} at slot {slot}: {} instead of {who}", x.what())),
        }
        if sim.chance(fl.queries, 40) {
            queries::check(sim, &self.w, &mut n, &mut Default::default());
        }
        if sim.chance(fl.byzantine, 60) {
            self.bad_block(sim, &n);
        }
        let body = self.body(sim, i, &s, fl);
        let Some((b, post, _)) = valid_block(sim, &self.w, &s, body) else { return };
        let root = self.publish(sim, i, b.clone(), post);
        if self.peers[i].byzantine && !self.calm && sim.fault("double proposal", 1, 3) {
            // another block for the same slot, for the other half of the network
            let mut body = b.body.clone();
            body.graffiti[0] ^= 0xff;
            if let Ok((b2, post2)) = make_block(&s, body, &self.w.p) {
                let r2 = self.add(b2, post2);
                for to in 0..self.peers.len() {
                    let r = if sim.chance(1, 2) { root } else { r2 };
                    self.send(sim, i, to, Msg::Block(r));
                }
                self.import(sim, i, r2);
                return;
            }
        }
        if self.peers[i].byzantine && !self.calm && sim.fault("block withheld", 1, 5) {
            let at = self.tick + 3 + sim.choose(18);
            for to in 0..self.peers.len() {
                if to != i {
                    self.sent += 1;
                    self.queue.insert((at, 0, self.sent), (to, Msg::Block(root)));
                }
            }
            return;
        }
        self.gossip(sim, i, Msg::Block(root));
    }
    /// a block with something wrong, offered to the node that is about to propose
    fn bad_block(&mut self, sim: &mut Sim, n: &Node) {
        let body = { let mut b = empty_body(&self.w.p); b.randao = [1; 96]; b };
        if let Ok((b, _)) = make_block(&n.m, Body { randao: randao_reveal(&n.m, key(&n.m, n.m.proposer(&self.w.p).unwrap_or(0)), &self.w.p), payload: if n.m.fork >= Bellatrix && (n.m.fork > Bellatrix || !n.m.exec.empty) { honest_payload(&n.m, &self.w.p, 1, vec![]) } else { Payload::default() }, eth1: n.m.eth1, ..body }, &self.w.p) {
            solo::mutant(sim, &self.w, n, n, &b);
        }
    }
    fn add(&mut self, b: Block, post: State) -> Root {
        let root = b.root(&self.w.p);
        let e = self.signed_blocks.entry((b.slot, b.proposer)).or_default();
        if !e.contains(&root) {
            e.push(root);
            if e.len() > 1 {
                self.guilty.insert(b.proposer);
            }
        }
        let enc = post.v(&self.w.p).encode();
        self.known.entry(root).or_insert_with(|| Rc::new(Known { parent: b.parent, slot: b.slot, b: Some(b), post, enc }));
        root
    }
    fn publish(&mut self, sim: &mut Sim, i: usize, b: Block, post: State) -> Root {
        sim.log(format!("node {i} proposes at slot {} ({:?}), {} attestations, justified epoch {}, finalized {}, {} of {} active slashed, {} voted for the last epoch's target", b.slot, b.fork, b.body.attestations.len(), post.cur_just.epoch, post.fin.epoch, post.validators.iter().filter(|v| v.slashed).count(), post.active(post.epoch(&self.w.p)).len(), post.prev_part.iter().filter(|f| **f & 2 != 0).count()));
        // punished are only those who signed conflicting messages
        for (v, x) in post.validators.iter().enumerate() {
            if x.slashed && !self.guilty.contains(&(v as u64)) {
                report(sim, &["C06"], "innocent slashed", format!("validator {v} at slot {}", b.slot));
            }
        }
        let root = self.add(b, post);
        self.import(sim, i, root);
        root
    }
    fn attest(&mut self, sim: &mut Sim, i: usize, slot: u64) {
        let head = self.peers[i].head;
        if self.known[&head].slot > slot {
            return;
        }
        let Some(s) = self.state(head, slot) else { return };
        let p = self.w.p.clone();
        if sim.chance(1, 24) {
            // the node works its duties out from its own state
            if let Some(st) = self.live(sim, i, &head) {
                let k = sim.choose(s.committees_per_slot(slot / p.spe, &p));
                let want = s.committee(slot, k, &p);
                let c = self.w.c.clone();
                let got = real(|| {
                    let mut st = self.w.advance(st, slot)?;
                    st.query(&Q::Committee { slot, index: k as usize }, &c)
                });
                match got {
                    Real::Ok(A::List(x)) if x == want => sim.probe("duty computed by a node"),
                    x => report(sim, &["C07"], "answer: committee", format!("node {i}, slot {slot}: {}", x.what())),
                }
            }
        }
        for k in 0..s.committees_per_slot(slot / p.spe, &p) {
            for who in s.committee(slot, k, &p) {
                if !self.mine(i, who) || s.validators[who as usize].slashed {
                    continue;
                }
                let d = attestation_data(&s, slot, k, head, &p);
                let byz = self.peers[i].byzantine && !self.calm;
                let last = self.peers[i].protect.get(&who).copied();
                if !byz && last.is_some_and(|(t, src)| d.target.epoch <= t || d.source.epoch < src) && d.target.epoch > 0 {
                    sim.probe("slashing protection holds a vote back");
                    self.held.insert((slot / p.spe, who));
                    continue;
                }
                if d.target.epoch == 0 && last.is_some() && !byz {
                    continue;
                }
                self.peers[i].protect.insert(who, (d.target.epoch, d.source.epoch));
                self.vote(sim, i, who, k, d);
                if byz && sim.fault("double vote", 1, 3) {
                    // for another head, or surrounding an earlier vote
                    let mut d2 = d;
                    let others: Vec<Root> = self.known.iter().filter(|(r, k)| **r != head && k.slot + p.spe >= slot && k.slot <= slot).map(|(r, _)| *r).collect();
                    if !others.is_empty() {
                        let h = *sim.pick(&others);
                        if let Some(s2) = self.state(h, slot) {
                            d2 = attestation_data(&s2, slot, k, h, &p);
                        }
                    } else if d2.source.epoch > 0 {
                        d2.source.epoch -= 1;
                        sim.count_fault("surround vote");
                    }
                    if d2 != d {
                        self.vote(sim, i, who, k, d2);
                    }
                }
            }
        }
        // sync committee
        if s.fork >= Altair {
            for v in 0..self.owner.len() as u64 {
                if self.mine(i, v) && s.validators.get(v as usize).is_some_and(|x| s.cur_sync.pks.contains(&x.pk)) {
                    self.peers[i].syncs.insert((slot, head, v));
                    self.gossip(sim, i, Msg::Sync { slot, root: head, who: v });
                }
            }
        }
    }
    fn vote(&mut self, sim: &mut Sim, i: usize, who: u64, committee: u64, data: AttData) {
        let flat = AttData { index: 0, ..data };
        let all = self.signed.entry(who).or_default();
        if all.iter().any(|o| slashable_data(o, &flat) || slashable_data(&flat, o)) {
            self.guilty.insert(who);
        }
        all.push(flat);
        let v = Rc::new(Vote { who, committee, data });
        self.peers[i].votes.push((*v).clone());
        self.hear(sim, i, who, data);
        self.gossip(sim, i, Msg::Vote(v));
    }
    /// what the proposer knows, in a block
    fn body(&mut self, sim: &mut Sim, i: usize, s: &State, fl: &Flavour) -> Body {
        let p = self.w.p.clone();
        let r = &mut Sub::new(sim);
        let mut b = empty_body(&p);
        let who = s.proposer(&p).unwrap_or(0);
        b.randao = randao_reveal(s, key(s, who), &p);
        b.graffiti = r.root();
        // execution chain
        if r.pct(fl.deposits) {
            self.eth1.grow(s, r, &p);
        }
        let all = self.eth1.tree.len();
        let seen = &mut self.peers[i].deposits_seen;
        *seen = (*seen).max(all.saturating_sub(r.below(4) as usize));
        let mine = self.eth1.data((*seen).max(s.deposit_index as usize).min(all));
        let mut best = (0, mine);
        for v in &s.eth1_votes {
            let n = s.eth1_votes.iter().filter(|x| *x == v).count();
            if n > best.0 && v.count >= s.deposit_index && v.count as usize <= *seen {
                best = (n, *v);
            }
        }
        b.eth1 = best.1;
        let (due, adopted) = due_deposits(s, &b.eth1, &p);
        if adopted.count as usize <= all {
            b.deposits = (0..due).map(|k| self.eth1.tree.deposit((s.deposit_index + k) as usize, adopted.count as usize)).collect();
        }
        // votes, newest first
        let me = &self.peers[i];
        let mut groups: BTreeMap<(u64, AttData), BTreeMap<u64, BTreeSet<u64>>> = BTreeMap::new();
        let back = if s.fork >= Deneb { s.slot - s.prev_epoch(&p) * p.spe } else { p.spe };
        for v in &me.votes {
            let d = v.data;
            if d.slot >= s.slot || d.slot + back < s.slot || d.target.epoch + 1 < s.epoch(&p) {
                continue;
            }
            let src = if d.target.epoch == s.epoch(&p) { s.cur_just } else { s.prev_just };
            if d.source != src {
                continue;
            }
            let d = if s.fork >= Electra { AttData { index: 0, ..d } } else { AttData { index: v.committee, ..d } };
            groups.entry((u64::MAX - d.slot, d)).or_default().entry(v.committee).or_default().insert(v.who);
        }
        let max = if s.fork >= Electra { p.max_attestations_electra } else { p.max_attestations } as usize;
        for ((_, d), cs) in groups {
            if b.attestations.len() >= max {
                break;
            }
            let (mut bits, mut members) = (vec![], vec![]);
            let mut cb = vec![false; p.max_committees_per_slot as usize];
            for (k, who) in cs {
                let c = s.committee(d.slot, k, &p);
                if !who.iter().all(|v| c.contains(v)) {
                    continue; // a vote for another shuffling
                }
                cb[k as usize] = true;
                bits.extend(c.iter().map(|v| who.contains(v)));
                members.extend(c);
            }
            if bits.contains(&true) {
                let sig = sign_bits(s, &d, &members, &bits, &p);
                b.attestations.push(Attestation { bits, data: d, committee_bits: if s.fork >= Electra { cb } else { vec![] }, sig });
            }
        }
        // evidence
        let e = s.epoch(&p);
        for (v, a, o) in &me.evidence {
            if s.validators[*v as usize].slashable(e) && b.attester_slashings.is_empty() {
                b.attester_slashings.push(AttesterSlashing { a: indexed(s, vec![*v], *a, &p), b: indexed(s, vec![*v], *o, &p) });
            }
        }
        for (x, y) in &me.doubles {
            let (x, y) = (self.known[x].b.as_ref().unwrap(), self.known[y].b.as_ref().unwrap());
            if s.validators[x.proposer as usize].slashable(e) && b.proposer_slashings.is_empty() {
                let h = |b: &Block| sign_header(s, b.header(&p), key(s, b.proposer), &p);
                b.proposer_slashings.push(ProposerSlashing { a: h(x), b: h(y) });
            }
        }
        if r.pct(fl.exits) && s.epoch(&p) >= p.shard_period {
            b.exits.push(some_exit(s, r, &p));
        }
        if s.fork >= Capella && r.pct(fl.changes * 2) {
            b.bls_changes.extend(some_change(s, r, &p));
        }
        if s.fork >= Altair {
            let prev = s.block_root_at(s.slot - 1, &p).unwrap_or_default();
            let bits = s.cur_sync.pks.iter().map(|k| {
                let v = s.validators.iter().position(|v| v.pk == *k).unwrap() as u64;
                me.syncs.contains(&(s.slot - 1, prev, v))
            }).collect();
            b.sync = sync_aggregate(s, bits, &p);
        }
        if s.fork >= Bellatrix && (s.fork > Bellatrix || !s.exec.empty || r.one_in(4)) {
            b.payload = honest_payload(s, &p, r.below(1000), vec![]);
        }
        if s.fork >= Deneb {
            b.commitments = (0..r.below(p.max_blobs + 1)).map(|_| { let mut c = [0; 48]; c[..32].copy_from_slice(&r.root()); c }).collect();
        }
        b
    }
    fn deliver(&mut self, sim: &mut Sim, to: usize, m: Msg) {
        if !self.peers[to].up {
            sim.count_fault("message to a crashed node lost");
            return;
        }
        match m {
            Msg::Block(r) => self.import(sim, to, r),
            Msg::Vote(v) => {
                if !self.peers[to].votes.iter().any(|x| x.who == v.who && x.data == v.data) {
                    self.peers[to].votes.push((*v).clone());
                }
                self.hear(sim, to, v.who, v.data);
            }
            Msg::Sync { slot, root, who } => {
                self.peers[to].syncs.insert((slot, root, who));
            }
            Msg::Ask(from) => {
                let head = self.peers[to].head;
                let mut miss = vec![];
                let mut x = head;
                while x != self.genesis && !self.peers[from].store.contains_key(&x) {
                    miss.push(x);
                    x = self.known[&x].parent;
                }
                miss.reverse();
                for r in miss.into_iter().take(24) {
                    sim.probe("block sent on request");
                    self.send(sim, to, from, Msg::Block(r));
                }
            }
        }
    }
}
/// validators and votes in a block, on its post state
fn voters(s: &State, b: &Block, p: &Params) -> Vec<(u64, AttData)> {
    let mut out = vec![];
    for a in &b.body.attestations {
        let mut at = 0;
        let ks: Vec<u64> = if b.fork >= Electra { (0..p.max_committees_per_slot).filter(|k| a.committee_bits[*k as usize]).collect() } else { vec![a.data.index] };
        for k in ks {
            for v in s.committee(a.data.slot, k, p) {
                if a.bits.get(at) == Some(&true) {
                    out.push((v, a.data));
                }
                at += 1;
            }
        }
    }
    out
}

pub fn run(sim: &mut Sim, fl: &Flavour) {
    let mut w = W::new(false);
    // where the chain begins, and which forks it will cross
    let f = fork(sim.range(fl.lo.min(4) as u64, fl.hi.min(4) as u64) as u8);
    let mut e = [0u64; 6];
    let mut cur = 0;
    for (k, x) in e.iter_mut().enumerate() {
        if k > f as usize {
            if cur != FAR && sim.chance(60, 100) {
                cur += sim.choose(3);
                cur = cur.max(1);
                *x = cur;
            } else {
                cur = FAR;
                *x = FAR;
            }
        }
    }
    w.set_epochs(e);
    w.p.shard_period = 2;
    w.c.shard_committee_period = 2;
    let mut eth1 = Eth1Chain { next_key: VALIDATORS as usize, ..Default::default() };
    let r = &mut Sub::new(sim);
    for k in 0..VALIDATORS as usize {
        let creds = if r.one_in(2) { bls_creds(k) } else { eth1_creds(r.below(4) as u8) };
        eth1.tree.push(deposit_data(k, creds, *r.pick(&[32 * GWEI, 32 * GWEI, 33 * GWEI]), &w.p));
    }
    let n = VALIDATORS as usize;
    let deposits: Vec<Deposit> = (0..n).map(|k| eth1.tree.deposit(k, k + 1)).collect();
    let time = 1_600_000_000;
    let exec = (f >= Bellatrix).then(|| {
        Payload { hash: [7; 32], ..Payload::default() }.header(&w.p, f)
    });
    let Ok(g) = genesis(f, [0x42; 32], time, &deposits, exec, &w.p) else { return };
    let st = match real(|| w.decode(&g)) {
        Real::Ok(s) => s,
        x => return report(sim, &["C14"], "state does not decode", x.what()),
    };
    let mut h = g.header.clone();
    h.state = g.root(&w.p);
    let groot = h.root();
    let nodes = 3 + sim.choose(3) as usize;
    // who runs which validators: even, or one large
    let owner: Vec<usize> = (0..VALIDATORS as usize + 40).map(|v| if r.one_in(6) { 0 } else { v % nodes }).collect();
    let peers = (0..nodes)
        .map(|_| Peer {
            up: true, byzantine: false, group: 0, skew: 0, slow: false, down_for: 0,
            store: [(groot, Mem::Live(st.dup()))].into(),
            unflushed: vec![], waiting: Default::default(), refused: Default::default(), last_slot: 0, attested: 0, votes: vec![],
            latest: Default::default(), said: Default::default(), evidence: vec![], headers: Default::default(), doubles: vec![], syncs: Default::default(),
            head: groot, fin: Checkpoint::default(), deposits_seen: n, proposed: 0, protect: Default::default(),
        })
        .collect();
    let enc = g.v(&w.p).encode();
    let genesis = Rc::new(Known { b: None, parent: [0; 32], slot: 0, post: g, enc });
    let mut net = Net {
        w, known: [(groot, genesis)].into(), at: Default::default(), queue: Default::default(), sent: 0, peers, owner, genesis: groot, eth1, tick: 0, calm: false,
        loss: *sim.pick(&[0, 5, 20]), dup: *sim.pick(&[0, 5, 20]), delay: *sim.pick(&[0, 1, 3, 8]), partition: false,
        signed: Default::default(), signed_blocks: Default::default(), guilty: Default::default(), restarts: 0, reorgs: 0, held: Default::default(),
    };
    for i in 0..nodes {
        if sim.chance(1, 5) {
            net.peers[i].byzantine = true;
        }
        if sim.fault("clock skew", 1, 5) {
            net.peers[i].skew = sim.choose(5) as i64 - 2;
        }
        net.peers[i].slow = sim.chance(1, 8);
    }
    let spe = net.w.p.spe;
    let stormy = (2 + sim.choose(5)) * spe * 3;
    let calm = 9 * spe * 3;
    for t in 1..=stormy + calm {
        net.tick = t;
        sim.advance(net.w.p.seconds_per_slot as u128 * 1_000_000_000 / 3);
        if t == stormy {
            // faults stop
            net.calm = true;
            net.partition = false;
            for p in net.peers.iter_mut() {
                p.skew = 0;
                p.up = true;
            }
            let fin_at_calm = net.peers.iter().map(|p| p.fin.epoch).max().unwrap_or(0);
            sim.log(format!("faults stop at slot {}, finalized epoch {fin_at_calm}, {} reorganisations, {} restarts", t / 3, net.reorgs, net.restarts));
        }
        if !net.calm {
            if t % 6 == 0 {
                if net.partition {
                    if sim.chance(1, 5) {
                        net.partition = false;
                        sim.log("partition heals");
                    }
                } else if sim.fault("partition", 1, 12) {
                    net.partition = true;
                    for p in net.peers.iter_mut() {
                        p.group = sim.choose(2);
                    }
                }
            }
            for i in 0..nodes {
                if net.peers[i].up {
                    if sim.chance(1, 150) {
                        net.crash(sim, i);
                    } else if sim.fault("clock jump", 1, 250) {
                        net.peers[i].skew = sim.choose(13) as i64 - 6;
                    }
                } else if net.peers[i].down_for == 0 {
                    net.peers[i].up = true;
                    sim.probe("node restarted");
                } else {
                    net.peers[i].down_for -= 1;
                }
            }
        }
        // messages of this tick, in drawn order
        while let Some(k) = net.queue.first_key_value().map(|x| *x.0).filter(|k| k.0 <= t) {
            let (to, m) = net.queue.remove(&k).unwrap();
            net.deliver(sim, to, m);
            if sim.found() {
                return;
            }
        }
        let mut order: Vec<usize> = (0..nodes).collect();
        sim.shuffle(&mut order);
        for i in order {
            if net.peers[i].up {
                net.duty(sim, i, fl);
            }
            if sim.found() {
                return;
            }
        }
    }
    sim.nontrivial = true;
    // progress after the faults stopped
    let honest: Vec<usize> = (0..nodes).filter(|i| !net.peers[*i].byzantine).collect();
    let last = (stormy + calm) / 3 / spe;
    // enough of the stake has to be able to vote, all the while: the slashed stay active until the queue lets them go
    let chain = net.peers[honest.first().copied().unwrap_or(0)].head;
    for e in last - 7..=last {
        let r = net.ancestor(chain, e * spe);
        let Some(s) = net.state(r, e * spe) else { return };
        let held = &net.held;
        let sum = |all: bool| s.active(e).iter().filter(|v| all || !s.validators[**v as usize].slashed && !held.contains(&(e, **v))).map(|v| s.validators[*v as usize].eff).sum::<u64>();
        if sum(false) * 100 < sum(true) * 70 {
            sim.probe("too few left to finalize");
            return;
        }
    }
    for i in &honest {
        let p = &net.peers[*i];
        if p.fin.epoch + 6 < last {
            report(sim, &["C03"], "finality stalls", format!("node {i} finalized epoch {} of {last} although faults stopped at epoch {} and two thirds of the stake vote", p.fin.epoch, stormy / 3 / spe));
        }
    }
    let heads: BTreeSet<Root> = honest.iter().map(|i| net.peers[*i].head).collect();
    if heads.len() == 1 {
        sim.probe("all nodes agree at the end");
    }
    let roots: BTreeSet<Vec<u8>> = honest
        .iter()
        .filter_map(|i| {
            let h = net.peers[*i].head;
            let mut s = net.live(sim, *i, &h)?;
            match real(|| net.w.root(&mut *s)) {
                Real::Ok(r) => Some([&h[..], &r[..]].concat()),
                x => {
                    report(sim, &["C01", "C14"], "state root", x.what());
                    None
                }
            }
        })
        .collect();
    if roots.len() > heads.len() {
        report(sim, &["C01"], "replicas differ", "same head, different state roots");
    }
    sim.probe("network run to the end");
}

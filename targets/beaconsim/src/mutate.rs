//! What a Byzantine proposer does to a block. The model decides what the result is worth: many of these
//! leave a block that is still valid.
use crate::gen::*;
use refspec::{Fork::*, *};

pub struct Mutation {
    pub name: &'static str,
    /// properties whose statement a wrong verdict contradicts (besides the general ones)
    pub props: &'static [&'static str],
    pub from: Fork,
    pub to: Fork,
    /// 0: execute and sign again, 1: sign again, 2: leave as it is
    pub after: u8,
    pub f: fn(&State, &mut Block, &mut Sub, &Params) -> bool,
}

macro_rules! muts {
    ($($name:literal $props:tt $from:ident $to:ident $after:literal |$s:pat_param, $b:ident, $r:ident, $p:pat_param| $e:expr;)*) => {
        pub static MUTATIONS: &[Mutation] = &[$(Mutation { name: $name, props: &$props, from: $from, to: $to, after: $after, f: |$s, $b, $r, $p| $e }),*];
    };
}
fn flip(r: &mut Sub, b: &mut [u8]) -> bool {
    let i = r.below(b.len() as u64) as usize;
    b[i] ^= 1 << r.below(8);
    true
}
fn any<'a, T>(r: &mut Sub, v: &'a mut [T]) -> Option<&'a mut T> {
    let n = v.len() as u64;
    if n == 0 {
        None
    } else {
        v.get_mut(r.below(n) as usize)
    }
}
/// put a freshly made operation in place of (or after) those in the list
fn put<T>(v: &mut Vec<T>, x: T, max: u64) -> bool {
    if v.len() as u64 >= max {
        v.pop();
    }
    v.push(x);
    true
}
fn bad_sig(s: &State, r: &mut Sub, sig: &mut Sig) -> bool {
    match r.below(5) {
        0 => flip(r, sig),
        1 => {
            *sig = [0; 96];
            true
        }
        2 => {
            *sig = infinity();
            true
        }
        3 => {
            *sig = sign(r.below(1024) as usize, &r.root());
            true
        }
        _ => {
            let k = key(s, r.below(s.validators.len() as u64));
            *sig = sign(k, &r.root());
            true
        }
    }
}
fn members_of(s: &State, a: &Attestation, p: &Params) -> Vec<u64> {
    if s.fork >= Electra {
        a.committee_bits.iter().enumerate().filter(|(_, b)| **b).flat_map(|(k, _)| s.committee(a.data.slot, k as u64, p)).collect()
    } else {
        s.committee(a.data.slot, a.data.index, p)
    }
}
fn resign_att(s: &State, a: &mut Attestation, p: &Params) -> bool {
    // the committees of the original data, whatever the data say now
    let m = members_of(s, a, p);
    if a.bits.contains(&true) && a.bits.len() == m.len() {
        a.sig = sign_bits(s, &a.data, &m, &a.bits, p);
    }
    true
}
/// change the data of an attestation and sign the result with the same validators
fn att_data(s: &State, b: &mut Block, r: &mut Sub, p: &Params, f: impl FnOnce(&mut AttData, &mut Sub)) -> bool {
    let Some(a) = any(r, &mut b.body.attestations) else { return false };
    let m = members_of(s, a, p);
    let mut i = 0;
    let _ = &mut i;
    f(&mut a.data, r);
    if a.bits.contains(&true) && a.bits.len() == m.len() {
        a.sig = sign_bits(s, &a.data, &m, &a.bits, p);
    }
    true
}
/// a vote of committee `k` of slot `t` for the checkpoint of epoch `te`, right in everything else
fn new_att(s: &State, b: &mut Block, r: &mut Sub, p: &Params, t: u64, k: u64, te: u64) -> bool {
    let c = s.committee(t, k, p);
    if c.is_empty() || (s.fork >= Electra && k >= p.max_committees_per_slot) {
        return false;
    }
    let mut d = vote(s, t, k, r, p, 0);
    d.target = Checkpoint { epoch: te, root: s.block_root(te, p).unwrap_or([7; 32]) };
    d.source = if te == s.epoch(p) { s.cur_just } else { s.prev_just };
    let full = r.one_in(2);
    let mut bits: Vec<bool> = c.iter().map(|_| full || r.one_in(2)).collect();
    bits[0] = true;
    let mut cb = vec![];
    if s.fork >= Electra {
        cb = vec![false; p.max_committees_per_slot as usize];
        cb[k as usize] = true;
    }
    let sig = sign_bits(s, &d, &c, &bits, p);
    let max = if s.fork >= Electra { p.max_attestations_electra } else { p.max_attestations };
    put(&mut b.body.attestations, Attestation { bits, data: d, committee_bits: cb, sig }, max.min(8))
}
fn reindex(s: &State, x: &mut Indexed, p: &Params) {
    if x.indices.iter().all(|i| (*i as usize) < s.validators.len()) && !x.indices.is_empty() {
        x.sig = sign_attestation(s, &x.data, &x.indices, p);
    }
}
fn pslash(s: &State, b: &mut Block, r: &mut Sub, p: &Params, f: impl FnOnce(&mut ProposerSlashing, &mut Sub)) -> bool {
    let mut x = some_proposer_slashing(s, r, p);
    f(&mut x, r);
    put(&mut b.body.proposer_slashings, x, p.max_proposer_slashings)
}
fn aslash(s: &State, b: &mut Block, r: &mut Sub, p: &Params, sign: bool, f: impl FnOnce(&mut AttesterSlashing, &mut Sub)) -> bool {
    let mut x = some_attester_slashing(s, r, p);
    f(&mut x, r);
    if sign {
        reindex(s, &mut x.a, p);
        reindex(s, &mut x.b, p);
    }
    put(&mut b.body.attester_slashings, x, if s.fork >= Electra { p.max_attester_slashings_electra } else { p.max_attester_slashings })
}
fn exit(s: &State, b: &mut Block, r: &mut Sub, p: &Params, f: impl FnOnce(&mut Exit, &mut Sub)) -> bool {
    let mut x = some_exit(s, r, p);
    f(&mut x, r);
    put(&mut b.body.exits, x, p.max_exits)
}
fn change(s: &State, b: &mut Block, r: &mut Sub, p: &Params, f: impl FnOnce(&mut BlsChange, &mut Sub)) -> bool {
    let Some(mut x) = some_change(s, r, p) else { return false };
    f(&mut x, r);
    put(&mut b.body.bls_changes, x, p.max_bls_changes)
}
fn sign_change(s: &State, x: &mut BlsChange, k: usize, p: &Params) {
    x.sig = sign(k, &signing_root(&x.msg().root(), &domain(D_BLS_CHANGE, p.versions[0], &s.gvr)));
}
fn consolidation(s: &State, b: &mut Block, r: &mut Sub, p: &Params, sign: bool, f: impl FnOnce(&mut Consolidation, &mut Sub)) -> bool {
    let n = s.validators.len() as u64;
    let mut x = b.body.consolidations.pop().unwrap_or(Consolidation { source: r.below(n), target: r.below(n), epoch: s.epoch(p), sig: [0; 96] });
    f(&mut x, r);
    if sign && x.source < n && x.target < n {
        sign_consolidation(s, &mut x, p);
    }
    put(&mut b.body.consolidations, x, p.max_consolidations)
}
/// a consolidation every rule but one lets through
fn bad_consolidation(s: &State, b: &mut Block, r: &mut Sub, p: &Params) -> bool {
    let n = s.validators.len() as u64;
    let e = s.epoch(p);
    let mut by: Vec<Vec<(u64, u64)>> = vec![vec![]; 8];
    for x in 0..n.min(80) {
        for y in 0..n.min(80) {
            let (a, c) = (&s.validators[x as usize], &s.validators[y as usize]);
            let rules = [x != y, a.active(e), c.active(e), a.exit == FAR, c.exit == FAR, a.exec_creds(), c.exec_creds(), a.address() == c.address()];
            if rules.iter().filter(|k| !**k).count() == 1 {
                by[rules.iter().position(|k| !*k).unwrap()].push((x, y));
            }
        }
    }
    by.retain(|v| !v.is_empty());
    if by.is_empty() {
        return false;
    }
    let rule = r.pick(&by).clone();
    let (source, target) = *r.pick(&rule);
    let mut x = Consolidation { source, target, epoch: e, sig: [0; 96] };
    sign_consolidation(s, &mut x, p);
    put(&mut b.body.consolidations, x, p.max_consolidations)
}
pub fn other_version(r: &mut Sub, s: &State, p: &Params) -> [u8; 4] {
    let mut v: Vec<[u8; 4]> = p.versions.iter().copied().filter(|v| *v != s.cur_version).collect();
    v.push([9, 9, 9, 9]);
    *r.pick(&v)
}
fn other_domain(s: &State, r: &mut Sub, kind: u32, p: &Params) -> Root {
    match r.below(3) {
        0 => domain((kind + 1 + r.below(10) as u32) % 12, s.cur_version, &s.gvr),
        1 => domain(kind, other_version(r, s, p), &s.gvr),
        _ => domain(kind, s.cur_version, &r.root()),
    }
}

muts! {
    "nothing" [] Phase0 Electra 0 |_, _b, _r, _| true;
    "graffiti" [] Phase0 Electra 0 |_, b, r, _| { b.body.graffiti = r.root(); true };
    "slot after" ["C13"] Phase0 Electra 1 |_, b, _r, _| { b.slot += 1; true };
    "proposer index" ["C07"] Phase0 Electra 1 |s, b, r, _| { b.proposer = r.below(s.validators.len() as u64 + 2); true };
    "proposer far out of range" ["C07"] Phase0 Electra 1 |_, b, r, _| { b.proposer = u64::MAX - r.below(2); true };
    "another validator proposes" ["C07"] Phase0 Electra 2 |s, b, r, p| {
        let i = r.below(s.validators.len() as u64);
        b.proposer = i;
        sign_block(b, s, key(s, i), p);
        true
    };
    "parent root" ["C13"] Phase0 Electra 1 |_, b, r, _| flip(r, &mut b.parent);
    "state root" ["C01"] Phase0 Electra 1 |_, b, r, _| flip(r, &mut b.state);
    "state root of another block" ["C01"] Phase0 Electra 1 |s, b, _r, _| { b.state = s.state_roots[0]; true };
    "block signature" ["C15"] Phase0 Electra 2 |s, b, r, _| bad_sig(s, r, &mut b.sig);
    "block signed by another key" ["C07"] Phase0 Electra 2 |s, b, r, p| { let k = key(s, r.below(s.validators.len() as u64)); sign_block(b, s, k, p); true };
    "block signed for another domain" ["C15"] Phase0 Electra 2 |s, b, r, p| {
        let k = key(s, b.proposer);
        let d = other_domain(s, r, D_PROPOSER, p);
        b.sig = sign(k, &signing_root(&b.root(p), &d));
        true
    };
    "body changed, signature kept" ["C15"] Phase0 Electra 2 |_, b, r, _| { b.body.graffiti = r.root(); true };
    "randao signature" ["C13"] Phase0 Electra 0 |s, b, r, _| bad_sig(s, r, &mut b.body.randao);
    "randao of another epoch" ["C13"] Phase0 Electra 0 |s, b, r, p| {
        let e = match r.below(3) { 0 => s.epoch(p) + 1, 1 => s.epoch(p).wrapping_sub(1), _ => s.slot };
        b.body.randao = sign(key(s, b.proposer), &signing_root(&V::U64(e).root(), &s.domain(D_RANDAO, None, p)));
        true
    };
    "randao in another domain" ["C15"] Phase0 Electra 0 |s, b, r, p| {
        let d = other_domain(s, r, D_RANDAO, p);
        b.body.randao = sign(key(s, b.proposer), &signing_root(&V::U64(s.epoch(p)).root(), &d));
        true
    };
    "randao of another validator" ["C13"] Phase0 Electra 0 |s, b, r, p| { b.body.randao = randao_reveal(s, key(s, r.below(s.validators.len() as u64)), p); true };
    "eth1 vote" ["C08"] Phase0 Electra 0 |s, b, r, _| { b.body.eth1 = Eth1 { root: r.root(), count: s.eth1.count + r.below(3), hash: r.root() }; true };
    "eth1 vote that adopts fewer deposits" ["C08"] Phase0 Electra 0 |s, b, r, _| { b.body.eth1 = Eth1 { root: r.root(), count: s.deposit_index.saturating_sub(1), hash: r.root() }; true };
    // deposits
    "deposit left out" ["C08"] Phase0 Electra 0 |_, b, r, _| { if b.body.deposits.is_empty() { return false } let i = r.below(b.body.deposits.len() as u64) as usize; b.body.deposits.remove(i); true };
    "last deposit left out" ["C08", "C17"] Phase0 Electra 0 |_, b, r, _| { let n = b.body.deposits.len() as u64; if n == 0 { return false } b.body.deposits.truncate(if r.one_in(2) { n - 1 } else { r.below(n) } as usize); true };
    "deposit twice" ["C08"] Phase0 Electra 0 |_, b, r, _| { let Some(d) = any(r, &mut b.body.deposits).map(|d| d.clone()) else { return false }; b.body.deposits.push(d); true };
    "deposit replayed in place of the next" ["C08"] Phase0 Electra 0 |_, b, _r, _| { if b.body.deposits.len() < 2 { return false } b.body.deposits[1] = b.body.deposits[0].clone(); true };
    "deposits reordered" ["C08"] Phase0 Electra 0 |_, b, _r, _| { if b.body.deposits.len() < 2 { return false } b.body.deposits.swap(0, 1); true };
    "deposit proof" ["C08"] Phase0 Electra 0 |_, b, r, _| { let Some(d) = any(r, &mut b.body.deposits) else { return false }; let k = r.below(33) as usize; flip(r, &mut d.proof[k]) };
    "deposit amount" ["C08"] Phase0 Electra 0 |_, b, r, _| { let Some(d) = any(r, &mut b.body.deposits) else { return false }; d.data.amount += 1; true };
    "deposit key" ["C08"] Phase0 Electra 0 |_, b, r, _| { let Some(d) = any(r, &mut b.body.deposits) else { return false }; d.data.pk = pk(1000); true };
    "deposit credentials" ["C08"] Phase0 Electra 0 |_, b, r, _| { let Some(d) = any(r, &mut b.body.deposits) else { return false }; flip(r, &mut d.data.creds) };
    "unexpected deposit" ["C08"] Phase0 Electra 0 |_, b, r, p| {
        b.body.deposits.push(Deposit { proof: vec![r.root(); 33], data: deposit_data(900, bls_creds(900), 32 * GWEI, p) });
        true
    };
    // proposer slashings
    "proposer slashing" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |_, _| ());
    "proposer slashing twice" ["C06"] Phase0 Electra 0 |s, b, r, p| {
        pslash(s, b, r, p, |_, _| ());
        let x = b.body.proposer_slashings.last().unwrap().clone();
        put(&mut b.body.proposer_slashings, x, p.max_proposer_slashings)
    };
    "proposer slashing of equal headers" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, _| x.b = x.a.clone());
    "proposer slashing of equal headers with other signatures" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, r| { x.b.msg = x.a.msg.clone(); flip(r, &mut x.b.sig); });
    "proposer slashing over two slots" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, _| { let mut h = x.b.msg.clone(); h.slot += 1; let k = key(s, h.proposer); x.b = sign_header(s, h, k, p); });
    "proposer slashing of two validators" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, r| {
        let mut h = x.b.msg.clone();
        h.proposer = (h.proposer + 1 + r.below(s.validators.len() as u64 - 1)) % s.validators.len() as u64;
        let k = key(s, h.proposer);
        x.b = sign_header(s, h, k, p);
    });
    "proposer slashing that names another validator" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, r| {
        // both headers are signed by one key, but one names someone else as its proposer
        let k = key(s, x.a.msg.proposer);
        let i = (x.a.msg.proposer + 1 + r.below(s.validators.len() as u64 - 1)) % s.validators.len() as u64;
        let h = if r.one_in(2) { &mut x.a } else { &mut x.b };
        let mut m = h.msg.clone();
        m.proposer = i;
        *h = sign_header(s, m, k, p);
    });
    "proposer slashing signature" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, r| { let g = if r.one_in(2) { &mut x.a.sig } else { &mut x.b.sig }; bad_sig(s, r, g); });
    "proposer slashing in another domain" ["C15", "C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, r| {
        let d = other_domain(s, r, D_PROPOSER, p);
        let k = key(s, x.a.msg.proposer);
        if r.one_in(2) {
            x.a.sig = sign(k, &signing_root(&x.a.msg.root(), &d));
        }
        x.b.sig = sign(k, &signing_root(&x.b.msg.root(), &d));
    });
    "proposer slashing of an unknown validator" ["C06"] Phase0 Electra 0 |s, b, r, p| pslash(s, b, r, p, |x, r| { let i = s.validators.len() as u64 + r.below(3) * (u64::MAX / 4); x.a.msg.proposer = i; x.b.msg.proposer = i; });
    "proposer slashing of a slashed or left validator" ["C06"] Phase0 Electra 0 |s, b, r, p| {
        let e = s.epoch(p);
        let c: Vec<u64> = (0..s.validators.len() as u64).filter(|i| !s.validators[*i as usize].slashable(e)).collect();
        if c.is_empty() { return false }
        let i = *r.pick(&c);
        pslash(s, b, r, p, |x, _| {
            for h in [&mut x.a, &mut x.b] {
                let mut m = h.msg.clone();
                m.proposer = i;
                *h = sign_header(s, m, key(s, i), p);
            }
        })
    };
    "proposer slashes itself" ["C06"] Phase0 Electra 0 |s, b, r, p| {
        let i = b.proposer;
        pslash(s, b, r, p, |x, _| {
            for h in [&mut x.a, &mut x.b] {
                let mut m = h.msg.clone();
                m.proposer = i;
                *h = sign_header(s, m, key(s, i), p);
            }
        })
    };
    // attester slashings
    "attester slashing" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |_, _| ());
    "attester slashing of equal votes" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| x.b = x.a.clone());
    "attester slashing of votes that do not conflict" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| { x.b.data = x.a.data; x.b.data.target.epoch += 1; x.b.data.source.epoch = x.a.data.target.epoch; });
    "attester slashing, surrounded first" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| std::mem::swap(&mut x.a, &mut x.b));
    "attester slashing, same source wider target" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| { x.b.data.source = x.a.data.source; x.a.data.target.epoch = x.b.data.target.epoch + 1; });
    "attester slashing unsorted" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| x.a.indices.reverse());
    "attester slashing unsorted in one place" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, r| {
        let y = if r.one_in(2) { &mut x.a.indices } else { &mut x.b.indices };
        let n = y.len();
        if n > 1 {
            let i = if r.one_in(2) { n - 2 } else { r.below(n as u64 - 1) as usize };
            if r.one_in(2) { y.swap(i, i + 1) } else { y[i + 1] = y[i] }
        }
    });
    "attester slashing with a repeated index" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| { let i = x.b.indices[0]; x.b.indices.insert(0, i); });
    "attester slashing without common validators" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| { let n = s.validators.len() as u64; let m = x.a.indices.clone(); x.b.indices = (0..n).filter(|i| !m.contains(i)).take(3).collect(); });
    "attester slashing with an unknown index" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, _| { let n = s.validators.len() as u64; x.a.indices.push(n); x.b.indices.push(n + 1); });
    "attester slashing empty" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, true, |x, r| { if r.one_in(2) { x.a.indices.clear() } else { x.b.indices.clear() } });
    "attester slashing signature" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, false, |x, r| { let g = if r.one_in(2) { &mut x.a.sig } else { &mut x.b.sig }; bad_sig(s, r, g); });
    "attester slashing, one signer missing" ["C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, false, |x, r| { let n = s.validators.len() as u64; let y = if r.one_in(2) { &mut x.a } else { &mut x.b }; let i = r.below(n); if !y.indices.contains(&i) { y.indices.push(i); y.indices.sort(); } });
    "attester slashing in another domain" ["C15", "C06"] Phase0 Electra 0 |s, b, r, p| aslash(s, b, r, p, false, |x, r| {
        let d = other_domain(s, r, D_ATTESTER, p);
        let keys: Vec<usize> = x.a.indices.iter().map(|i| key(s, *i)).collect();
        x.a.sig = sign_all(&keys, &signing_root(&x.a.data.v().root(), &d));
    });
    "attester slashing of everybody twice" ["C06"] Phase0 Deneb 0 |s, b, r, p| {
        aslash(s, b, r, p, true, |_, _| ());
        let x = b.body.attester_slashings.last().unwrap().clone();
        b.body.attester_slashings.truncate(1);
        b.body.attester_slashings.push(x);
        true
    };
    // attestations
    "attestation twice" ["C04"] Phase0 Electra 0 |_, b, r, p| { let Some(a) = any(r, &mut b.body.attestations).map(|a| a.clone()) else { return false }; put(&mut b.body.attestations, a, p.max_attestations.min(8)) };
    "attestation source epoch" ["C03"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| d.source.epoch = if r.one_in(2) { d.source.epoch + 1 } else { d.source.epoch.saturating_sub(1) });
    "attestation source root" ["C03"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| { flip(r, &mut d.source.root); });
    "attestation with the other justified source" ["C03"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, _| d.source = if d.source == s.cur_just { s.prev_just } else { s.cur_just });
    "attestation target epoch" ["C03"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| d.target.epoch = match r.below(4) { 0 => d.target.epoch + 1, 1 => d.target.epoch.saturating_sub(1), 2 => u64::MAX, _ => d.target.epoch.saturating_sub(2) });
    "attestation target root" ["C03"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| { flip(r, &mut d.target.root); });
    "attestation head root" ["C04"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| { flip(r, &mut d.head); });
    "attestation slot" ["C04"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| d.slot = match r.below(5) { 0 => d.slot + 1, 1 => d.slot.wrapping_sub(1), 2 => s.slot, 3 => u64::MAX, _ => d.slot.wrapping_sub(p.spe) });
    "attestation committee index" ["C07"] Phase0 Electra 0 |s, b, r, p| att_data(s, b, r, p, |d, r| d.index = match r.below(4) { 0 => d.index + 1, 1 => p.max_committees_per_slot, 2 => u64::MAX, _ => s.committees_per_slot(d.target.epoch, p) });
    "attestation of the current slot" ["C04"] Phase0 Electra 0 |s, b, r, p| {
        let c = s.committee(s.slot, 0, p);
        if c.is_empty() { return false }
        let d = vote(s, s.slot, 0, r, p, 0);
        let bits = vec![true; c.len()];
        let mut cb = vec![];
        if s.fork >= Electra { cb = vec![false; p.max_committees_per_slot as usize]; cb[0] = true; }
        let sig = sign_bits(s, &d, &c, &bits, p);
        put(&mut b.body.attestations, Attestation { bits, data: d, committee_bits: cb, sig }, 8)
    };
    "attestation of a committee past the last" ["C07"] Phase0 Electra 0 |s, b, r, p| {
        let t = s.slot - 1 - r.below(s.slot.min(p.spe) - 1);
        let n = s.committees_per_slot(t / p.spe, p);
        // its members would be those of a later slot's committee
        let k = n + if r.one_in(3) { r.below(n) } else { 0 };
        (t % p.spe) * n + k < n * p.spe && new_att(s, b, r, p, t, k, t / p.spe)
    };
    "attestation at the end of its time" ["C04"] Phase0 Electra 0 |s, b, r, p| {
        let t = s.slot - p.spe - r.below(4);
        let n = s.committees_per_slot(t / p.spe, p);
        { let k = r.below(n); new_att(s, b, r, p, t, k, t / p.spe) }
    };
    "attestation of the epoch before last" ["C03", "C04"] Phase0 Electra 0 |s, b, r, p| {
        let e = s.epoch(p) - 2;
        let t = e * p.spe + if r.one_in(2) { p.spe - 1 } else { r.below(p.spe) };
        let n = s.committees_per_slot(e, p);
        { let k = r.below(n); new_att(s, b, r, p, t, k, e) }
    };
    "attestation with the target of another epoch" ["C03"] Phase0 Electra 0 |s, b, r, p| {
        let e = s.epoch(p);
        let t = s.slot - 1 - r.below(p.spe);
        let te = if t / p.spe == e { e - 1 } else { e };
        let n = s.committees_per_slot(t / p.spe, p);
        { let k = r.below(n); new_att(s, b, r, p, t, k, te) }
    };
    "attestation of an early slot" ["C04"] Phase0 Electra 0 |s, b, r, p| {
        // of this epoch, but not yet due
        let t = s.slot + r.below(p.spe - s.slot % p.spe);
        let n = s.committees_per_slot(t / p.spe, p);
        { let k = r.below(n); new_att(s, b, r, p, t, k, t / p.spe) }
    };
    "attestation bits longer" ["C07"] Phase0 Electra 0 |_, b, r, _| { let Some(a) = any(r, &mut b.body.attestations) else { return false }; a.bits.push(r.one_in(2)); true };
    "attestation bits shorter" ["C07"] Phase0 Electra 0 |_, b, r, _| { let Some(a) = any(r, &mut b.body.attestations) else { return false }; a.bits.pop(); true };
    "attestation without bits" ["C04"] Phase0 Electra 0 |_, b, r, _| { let Some(a) = any(r, &mut b.body.attestations) else { return false }; a.bits.iter_mut().for_each(|x| *x = false); if r.one_in(2) { a.sig = infinity(); } true };
    "attestation claims one more" ["C04", "C07"] Phase0 Electra 0 |_, b, r, _| {
        let Some(a) = any(r, &mut b.body.attestations) else { return false };
        let z: Vec<usize> = (0..a.bits.len()).filter(|i| !a.bits[*i]).collect();
        if z.is_empty() { return false }
        a.bits[*r.pick(&z)] = true;
        true
    };
    "attestation hides one" ["C04", "C07"] Phase0 Electra 0 |_, b, r, _| {
        let Some(a) = any(r, &mut b.body.attestations) else { return false };
        let z: Vec<usize> = (0..a.bits.len()).filter(|i| a.bits[*i]).collect();
        if z.len() < 2 { return false }
        a.bits[*r.pick(&z)] = false;
        true
    };
    "attestation subset" ["C04"] Phase0 Electra 0 |s, b, r, p| {
        let Some(a) = any(r, &mut b.body.attestations) else { return false };
        let z: Vec<usize> = (0..a.bits.len()).filter(|i| a.bits[*i]).collect();
        if z.len() < 2 { return false }
        a.bits[*r.pick(&z)] = false;
        resign_att(s, a, p)
    };
    "attestation signature" ["C04"] Phase0 Electra 0 |s, b, r, _| { let Some(a) = any(r, &mut b.body.attestations) else { return false }; bad_sig(s, r, &mut a.sig) };
    "attestation in another domain" ["C15"] Phase0 Electra 0 |s, b, r, p| {
        let d = other_domain(s, r, D_ATTESTER, p);
        let Some(a) = any(r, &mut b.body.attestations) else { return false };
        let m = members_of(s, a, p);
        let keys: Vec<usize> = m.iter().zip(&a.bits).filter(|(_, x)| **x).map(|(i, _)| key(s, *i)).collect();
        a.sig = sign_all(&keys, &signing_root(&a.data.v().root(), &d));
        true
    };
    "attestation committee bits" ["C07"] Electra Electra 0 |_, b, r, p| {
        let Some(a) = any(r, &mut b.body.attestations) else { return false };
        let k = r.below(p.max_committees_per_slot) as usize;
        a.committee_bits[k] = !a.committee_bits[k];
        true
    };
    "attestation without committees" ["C07"] Electra Electra 0 |_, b, r, _| {
        let Some(a) = any(r, &mut b.body.attestations) else { return false };
        a.committee_bits.iter_mut().for_each(|x| *x = false);
        if r.one_in(2) { a.bits.clear(); a.sig = infinity(); }
        true
    };
    // exits
    "exit" ["C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |_, _| ());
    "exit of any validator" ["C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| *x = sign_exit(s, r.below(s.validators.len() as u64), s.epoch(p), p));
    "exit of a young validator" ["C05"] Phase0 Electra 0 |s, b, r, p| {
        let e = s.epoch(p);
        let c: Vec<u64> = (0..s.validators.len() as u64).filter(|i| { let v = &s.validators[*i as usize]; v.active(e) && v.activation + p.shard_period + 3 > e }).collect();
        if c.is_empty() { return false }
        let i = *r.pick(&c);
        exit(s, b, r, p, |x, _| *x = sign_exit(s, i, e, p))
    };
    "exit twice" ["C05"] Phase0 Electra 0 |s, b, r, p| { exit(s, b, r, p, |_, _| ()); let x = b.body.exits.last().unwrap().clone(); put(&mut b.body.exits, x, p.max_exits) };
    "exit in the future" ["C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| *x = sign_exit(s, x.index, if r.one_in(3) { u64::MAX } else { s.epoch(p) + 1 }, p));
    "exit signature" ["C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| { bad_sig(s, r, &mut x.sig); });
    "exit signed by another" ["C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| { let i = x.index; x.index = r.below(s.validators.len() as u64); let y = sign_exit(s, i, x.epoch, p); x.sig = y.sig; });
    "exit of an unknown validator" ["C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| x.index = s.validators.len() as u64 + r.below(2) * (u64::MAX / 2));
    "exit in another domain" ["C15", "C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| { let d = other_domain(s, r, D_EXIT, p); x.sig = sign(key(s, x.index), &signing_root(&x.msg().root(), &d)); });
    "exit signed for each fork" ["C15", "C05"] Phase0 Electra 0 |s, b, r, p| exit(s, b, r, p, |x, r| { let d = domain(D_EXIT, *r.pick(&p.versions), &s.gvr); x.sig = sign(key(s, x.index), &signing_root(&x.msg().root(), &d)); });
    "many exits" ["C05"] Phase0 Electra 0 |s, b, r, p| {
        let e = s.epoch(p);
        b.body.exits = (0..s.validators.len() as u64).filter(|i| { let v = &s.validators[*i as usize]; v.active(e) && v.exit == FAR && e >= v.activation + p.shard_period && (s.fork < Electra || s.pending_to_withdraw(*i) == 0) }).take(r.below(p.max_exits + 2) as usize).map(|i| sign_exit(s, i, e, p)).collect();
        b.body.proposer_slashings.clear();
        b.body.attester_slashings.clear();
        true
    };
    // sync aggregate
    "sync aggregate claims one more" ["C11"] Altair Electra 0 |_, b, r, _| { let n = b.body.sync.bits.len() as u64; let k = r.below(n) as usize; b.body.sync.bits[k] = !b.body.sync.bits[k]; true };
    "sync aggregate signature" ["C11"] Altair Electra 0 |s, b, r, _| bad_sig(s, r, &mut b.body.sync.sig);
    "sync aggregate of nobody" ["C11"] Altair Electra 0 |_, b, r, _| { b.body.sync.bits.iter_mut().for_each(|x| *x = false); b.body.sync.sig = if r.one_in(2) { infinity() } else { sign(3, &r.root()) }; true };
    "sync aggregate over another root" ["C11"] Altair Electra 0 |s, b, r, p| {
        let prev = s.slot.max(1) - 1;
        let root = match r.below(3) { 0 => r.root(), 1 => s.block_root_at(s.slot.saturating_sub(2), p).unwrap_or([1; 32]), _ => b.parent };
        let m = signing_root(&root, &s.domain(D_SYNC, Some(prev / p.spe), p));
        let keys: Vec<usize> = s.cur_sync.pks.iter().zip(&b.body.sync.bits).filter(|(_, x)| **x).map(|(k, _)| key_of(k).unwrap()).collect();
        b.body.sync.sig = sign_all(&keys, &m);
        true
    };
    "sync aggregate in another domain" ["C15", "C11"] Altair Electra 0 |s, b, r, p| {
        let prev = s.slot.max(1) - 1;
        let d = if r.one_in(3) { domain(D_SYNC, s.cur_version, &s.gvr) } else { other_domain(s, r, D_SYNC, p) };
        let m = signing_root(&s.block_root_at(prev, p).unwrap_or([0; 32]), &d);
        let keys: Vec<usize> = s.cur_sync.pks.iter().zip(&b.body.sync.bits).filter(|(_, x)| **x).map(|(k, _)| key_of(k).unwrap()).collect();
        b.body.sync.sig = sign_all(&keys, &m);
        true
    };
    "sync aggregate by the next committee" ["C11"] Altair Electra 0 |s, b, _r, p| {
        let root = sync_root(s, p);
        let keys: Vec<usize> = s.next_sync.pks.iter().zip(&b.body.sync.bits).filter(|(_, x)| **x).map(|(k, _)| key_of(k).unwrap()).collect();
        b.body.sync.sig = sign_all(&keys, &root);
        true
    };
    // payload
    "payload parent" ["C12"] Bellatrix Electra 0 |_, b, r, _| flip(r, &mut b.body.payload.parent);
    "payload randao" ["C12"] Bellatrix Electra 0 |_, b, r, _| flip(r, &mut b.body.payload.randao);
    "payload randao after the reveal" ["C12"] Bellatrix Electra 0 |s, b, _r, p| { let h = simcrypto::sha256(&[&b.body.randao]); let mut m = s.mix(s.epoch(p), p); m.iter_mut().zip(h).for_each(|(a, c)| *a ^= c); b.body.payload.randao = m; true };
    "payload timestamp" ["C12"] Bellatrix Electra 0 |_, b, r, p| { let t = &mut b.body.payload.timestamp; *t = match r.below(4) { 0 => t.wrapping_add(1), 1 => t.wrapping_sub(1), 2 => t.wrapping_add(p.seconds_per_slot), _ => u64::MAX }; true };
    "payload contents" ["C12"] Bellatrix Electra 0 |_, b, r, _| { let x = &mut b.body.payload; match r.below(6) { 0 => x.gas_used += 1, 1 => x.number += 5, 2 => x.txs.push(vec![1, 2, 3]), 3 => { flip(r, &mut x.hash); } 4 => x.extra = vec![5; r.below(34) as usize], _ => { flip(r, &mut x.bloom); } } true };
    "payload empty" ["C12"] Bellatrix Electra 0 |_, b, _r, _| { b.body.payload = Payload::default(); true };
    "too many blobs" ["C12"] Deneb Electra 0 |_, b, r, p| { b.body.commitments = vec![[5; 48]; (p.max_blobs + r.below(3)) as usize]; true };
    "more blobs than the list holds" ["C12"] Deneb Electra 0 |_, b, _r, p| { if p.mainnet { return false } b.body.commitments = vec![[5; 48]; p.max_commitments as usize + 1]; true };
    // withdrawals
    "withdrawal left out" ["C09"] Capella Electra 0 |_, b, _r, _| b.body.payload.withdrawals.pop().is_some();
    "withdrawal twice" ["C09"] Capella Electra 0 |_, b, _r, _| { let Some(w) = b.body.payload.withdrawals.last().cloned() else { return false }; b.body.payload.withdrawals.push(w); true };
    "withdrawal invented" ["C09"] Capella Electra 0 |s, b, r, _| { let i = r.below(s.validators.len() as u64); b.body.payload.withdrawals.push(Withdrawal { index: s.next_wd + b.body.payload.withdrawals.len() as u64, validator: i, address: [1; 20], amount: 1 }); true };
    "withdrawal amount" ["C09"] Capella Electra 0 |_, b, r, _| { let Some(w) = any(r, &mut b.body.payload.withdrawals) else { return false }; w.amount = if r.one_in(2) { w.amount + 1 } else { w.amount - 1 }; true };
    "withdrawal address" ["C09"] Capella Electra 0 |_, b, r, _| { let Some(w) = any(r, &mut b.body.payload.withdrawals) else { return false }; flip(r, &mut w.address) };
    "withdrawal index" ["C09"] Capella Electra 0 |_, b, r, _| { let Some(w) = any(r, &mut b.body.payload.withdrawals) else { return false }; w.index += 1; true };
    "withdrawal validator" ["C09"] Capella Electra 0 |_, b, r, _| { let Some(w) = any(r, &mut b.body.payload.withdrawals) else { return false }; w.validator += 1; true };
    "withdrawals reordered" ["C09"] Capella Electra 0 |_, b, _r, _| { if b.body.payload.withdrawals.len() < 2 { return false } b.body.payload.withdrawals.swap(0, 1); true };
    // credential changes
    "credential change" ["C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |_, _| ());
    "credential change twice" ["C09"] Capella Electra 0 |s, b, r, p| { if !change(s, b, r, p, |_, _| ()) { return false } let x = b.body.bls_changes.last().unwrap().clone(); put(&mut b.body.bls_changes, x, p.max_bls_changes) };
    "credential change signature" ["C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |x, r| { bad_sig(s, r, &mut x.sig); });
    "credential change by another key" ["C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |x, r| { let k = r.below(1000) as usize; x.from = pk(k); sign_change(s, x, k, p); });
    "credential change to another address" ["C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |x, r| { flip(r, &mut x.to); });
    "credential change of another validator" ["C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |x, r| { x.index = r.below(s.validators.len() as u64 + 1); if let Some(k) = key_of(&x.from) { sign_change(s, x, k, p); } });
    "credential change of an unknown validator" ["C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |x, r| { x.index = s.validators.len() as u64 + r.below(2) * r.below(3) * (u64::MAX / 4); if let Some(k) = key_of(&x.from) { sign_change(s, x, k, p); } });
    "credential change in another domain" ["C15", "C09"] Capella Electra 0 |s, b, r, p| change(s, b, r, p, |x, r| {
        let d = if r.one_in(3) { domain(D_BLS_CHANGE, s.cur_version, &s.gvr) } else { other_domain(s, r, D_BLS_CHANGE, p) };
        x.sig = sign(key_of(&x.from).unwrap(), &signing_root(&x.msg().root(), &d));
    });
    "credential change from an address" ["C09"] Capella Electra 0 |s, b, r, p| {
        let c: Vec<u64> = (0..s.validators.len() as u64).filter(|i| s.validators[*i as usize].creds[0] != 0).collect();
        if c.is_empty() { return false }
        let i = *r.pick(&c);
        let mut x = BlsChange { index: i, from: s.validators[i as usize].pk, to: [3; 20], sig: [0; 96] };
        let k = key(s, i);
        sign_change(s, &mut x, k, p);
        put(&mut b.body.bls_changes, x, p.max_bls_changes)
    };
    // electra
    "deposit receipts" ["C17"] Electra Electra 0 |s, b, r, p| {
        let mut k = 700 + r.below(100) as usize;
        let d = some_deposit(s, &mut k, r, p);
        put(&mut b.body.payload.deposit_receipts, DepositReceipt { data: d, index: r.below(1 << 20) }, p.max_deposit_receipts)
    };
    "deposit receipt twice" ["C17"] Electra Electra 0 |_, b, r, p| { let Some(x) = any(r, &mut b.body.payload.deposit_receipts).map(|x| x.clone()) else { return false }; put(&mut b.body.payload.deposit_receipts, x, p.max_deposit_receipts) };
    "withdrawal request by a stranger" ["C17"] Electra Electra 0 |s, b, r, p| { let v = &s.validators[r.below(s.validators.len() as u64) as usize]; put(&mut b.body.payload.withdrawal_requests, WithdrawalRequest { address: [0xee; 20], pk: v.pk, amount: r.below(2) * GWEI }, p.max_withdrawal_requests) };
    "withdrawal requests of one validator" ["C17"] Electra Electra 0 |s, b, r, p| {
        let c: Vec<&Validator> = s.validators.iter().filter(|v| v.compounding() && v.exit == FAR).collect();
        if c.is_empty() { return false }
        let v = *r.pick(&c);
        for a in [GWEI, *r.pick(&[0, 2 * GWEI, u64::MAX])] {
            put(&mut b.body.payload.withdrawal_requests, WithdrawalRequest { address: v.address(), pk: v.pk, amount: a }, p.max_withdrawal_requests);
        }
        true
    };
    "consolidation" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, true, |_, _| ());
    "consolidation reversed" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, true, |x, _| std::mem::swap(&mut x.source, &mut x.target));
    "consolidation onto itself" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, true, |x, _| x.target = x.source);
    "consolidation in the future" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, true, |x, _| x.epoch += 2);
    "consolidation of strangers" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, true, |x, r| x.target = r.below(s.validators.len() as u64));
    "consolidation of unknown validators" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, false, |x, r| if r.one_in(2) { x.source = s.validators.len() as u64 } else { x.target = u64::MAX });
    "consolidation that breaks one rule" ["C17"] Electra Electra 0 |s, b, r, p| bad_consolidation(s, b, r, p);
    "consolidation that breaks one other rule" ["C17"] Electra Electra 0 |s, b, r, p| bad_consolidation(s, b, r, p);
    "consolidation with the validator after the last" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, false, |x, r| { let n = s.validators.len() as u64; if r.one_in(2) { x.source = n } else { x.target = n } });
    "consolidation signature" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, false, |x, r| { bad_sig(s, r, &mut x.sig); });
    "consolidation signed by the source only" ["C17"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, false, |x, _| { let root = signing_root(&x.msg().root(), &domain(D_CONSOLIDATION, p.versions[0], &s.gvr)); x.sig = sign(key(s, x.source), &root); });
    "consolidation in another domain" ["C17", "C15"] Electra Electra 0 |s, b, r, p| consolidation(s, b, r, p, false, |x, r| { let d = other_domain(s, r, D_CONSOLIDATION, p); x.sig = sign_all(&[key(s, x.source), key(s, x.target)], &signing_root(&x.msg().root(), &d)); });
    "credentials of the deposit receipts start" ["C17"] Electra Electra 0 |_, b, r, _| { let Some(x) = any(r, &mut b.body.payload.deposit_receipts) else { return false }; x.index = u64::MAX - r.below(2); true };
}

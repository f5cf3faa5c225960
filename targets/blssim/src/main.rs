//! K01: signers, aggregators and verifiers over a faulty network, with byzantine members. The model knows every
//! key as a formal sum of base keys and every signature as a formal sum of (base key, message) pairs.
use ethereum_consensus::crypto::{
    aggregate, aggregate_verify, eth_aggregate_public_keys, eth_fast_aggregate_verify, fast_aggregate_verify, verify_signature, PublicKey, SecretKey, Signature,
};
use simcrypto::fr::Fr;
use simkit::{guard, Sim, Target};
use std::collections::BTreeMap;

const OWN: &str = "K01";
type Sum<K> = BTreeMap<K, i64>;
fn plus<K: Ord + Clone>(a: &mut Sum<K>, b: &Sum<K>, k: i64) {
    for (x, c) in b {
        *a.entry(x.clone()).or_default() += c * k;
    }
    a.retain(|_, c| *c != 0);
}
/// a public key as it travels, and what it stands for
#[derive(Clone)]
struct Key {
    bytes: [u8; 48],
    sum: Option<Sum<usize>>, // nothing: not a point of the curve
    off: u8,
}
impl Key {
    fn good(&self) -> bool {
        self.off == 0 && self.sum.as_ref().is_some_and(|s| !s.is_empty())
    }
    fn real(&self) -> PublicKey {
        PublicKey::try_from(&self.bytes[..]).unwrap()
    }
}
#[derive(Clone)]
struct Sig {
    bytes: [u8; 96],
    sum: Option<Sum<(usize, usize)>>,
    off: u8,
}
impl Sig {
    fn good(&self) -> bool {
        self.off == 0 && self.sum.is_some()
    }
    fn real(&self) -> Signature {
        Signature::try_from(&self.bytes[..]).unwrap()
    }
}
fn over(k: &Sum<usize>, m: usize) -> Sum<(usize, usize)> {
    k.iter().map(|(b, c)| ((*b, m), *c)).collect()
}
fn infinity<const N: usize>() -> [u8; N] {
    let mut o = [0; N];
    o[0] = 0xc0;
    o
}
struct World {
    base: Vec<Fr>,
    signers: Vec<(Sum<usize>, SecretKey, Key)>,
    msgs: Vec<Vec<u8>>,
}
fn scalar(base: &[Fr], s: &Sum<usize>) -> Fr {
    let mut x = Fr::ZERO;
    for (b, c) in s {
        let y = base[*b].mul(Fr::from_u64(c.unsigned_abs()));
        x = if *c < 0 { x.sub(y) } else { x.add(y) };
    }
    x
}
fn secret(x: Fr) -> Option<SecretKey> {
    SecretKey::try_from(&x.to_be()[..]).ok()
}
/// a result that must be as the model has it
fn judge(sim: &mut Sim, what: &str, want: bool, got: Result<Result<(), String>, simkit::Panic>, detail: String) {
    sim.log(format!("{what}: {} ({detail})", if want { "valid" } else { "invalid" }));
    sim.state_of(&format!("{what} {want} {detail}"));
    match got {
        Err(p) => sim.violate(OWN, format!("{what} panics"), format!("{detail}: {}", p.message)),
        Ok(r) if r.is_ok() != want => {
            sim.violate(OWN, format!("{what} {}", if want { "refuses" } else { "accepts" }), format!("{detail}: the model says {}, the code {:?}", if want { "valid" } else { "invalid" }, r))
        }
        Ok(_) => sim.probe(&format!("{what}: {}", if want { "accepted" } else { "refused" })),
    }
}
fn call<T>(f: impl FnOnce() -> Result<T, ethereum_consensus::crypto::BlsError>) -> Result<Result<T, String>, simkit::Panic> {
    guard(|| f().map_err(|e| format!("{e:?}")))
}
fn unit<T>(r: Result<Result<T, String>, simkit::Panic>) -> Result<Result<(), String>, simkit::Panic> {
    r.map(|x| x.map(|_| ()))
}

/// a random source that fails, repeats itself or gives out
struct Source {
    bytes: Vec<u8>,
    at: usize,
    fails: bool,
}
impl rand::RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.fails {
            panic!("no randomness");
        }
        for x in d {
            *x = self.bytes[self.at % self.bytes.len()];
            self.at += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        if self.fails {
            return Err(rand::Error::new("no randomness"));
        }
        self.fill_bytes(d);
        Ok(())
    }
}

fn keys(sim: &mut Sim) {
    // made from a random source
    let fails = sim.fault("random source fails", 1, 3);
    let bytes = match sim.choose(3) {
        0 => vec![sim.choose(256) as u8],
        1 => sim.bytes(32),
        _ => sim.bytes(64),
    };
    let mut src = Source { bytes: bytes.clone(), at: 0, fails };
    let got = call(|| SecretKey::random(&mut src));
    let ikm: Vec<u8> = bytes.iter().cycle().take(32).copied().collect();
    judge(sim, "key from randomness", !fails, unit(got.clone_result()), format!("source {}", if fails { "fails" } else { "works" }));
    if let Ok(Ok(k)) = got {
        let want = simcrypto::hkdf_mod_r(&ikm, &[], true).to_be();
        if k.clone().to_bytes() != want {
            sim.violate(OWN, "random key", "the key is not the one of its randomness");
        }
        let shown = format!("{k:?}");
        let hex: String = want.iter().map(|b| format!("{b:02x}")).collect();
        if shown.contains(&hex[..16]) {
            sim.violate(OWN, "secret shown", "formatting a secret key shows it");
        }
    }
    // from material
    let n = *sim.pick(&[0usize, 1, 16, 31, 32, 33, 48, 64]);
    let ikm = sim.bytes(n);
    for (what, want, got) in [("key from material", simcrypto::hkdf_mod_r(&ikm, &[], true), call(|| SecretKey::key_gen(&ikm))), ("key from seed", simcrypto::hkdf_mod_r(&ikm, &[], true), call(|| SecretKey::from_bytes(&ikm)))] {
        judge(sim, what, n >= 32, unit(got.clone_result()), format!("{n} bytes"));
        if let Ok(Ok(k)) = got {
            if k.to_bytes() != want.to_be() {
                sim.violate(OWN, format!("{what} differs"), format!("{n} bytes"));
            }
        }
    }
    // from their own encoding
    let r: [u8; 32] = [0x73, 0xed, 0xa7, 0x53, 0x29, 0x9d, 0x7d, 0x48, 0x33, 0x39, 0xd8, 0x08, 0x09, 0xa1, 0xd8, 0x05, 0x53, 0xbd, 0xa4, 0x02, 0xff, 0xfe, 0x5b, 0xfe, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x01];
    let (name, enc): (&str, Vec<u8>) = match sim.choose(6) {
        0 => ("zero", vec![0; 32]),
        1 => ("the order", r.to_vec()),
        2 => {
            let mut x = r;
            x[31] = 0;
            ("the greatest", x.to_vec())
        }
        3 => ("short", sim.bytes(31)),
        4 => ("long", sim.bytes(33)),
        _ => ("any", { let mut b = sim.bytes(32); b[0] &= 0x3f; b }),
    };
    let want = enc.len() == 32 && Fr::from_be(enc[..].try_into().unwrap()).is_some_and(|x| !x.is_zero());
    let got = call(|| SecretKey::try_from(&enc[..]));
    judge(sim, "key from encoding", want, unit(got.clone_result()), name.into());
    let hex: String = enc.iter().map(|b| format!("{b:02x}")).collect();
    let text = format!("\"0x{hex}\"");
    let json = guard(|| serde_json::from_str::<SecretKey>(&text).map_err(|e| e.to_string()));
    judge(sim, "key from JSON", want, json.as_ref().map(|r| r.as_ref().map(|_| ()).map_err(|e| e.clone())).map_err(|p| p.clone()), name.into());
    for k in [got.ok().and_then(|x| x.ok()), json.ok().and_then(|x| x.ok())].into_iter().flatten() {
        if k.to_bytes()[..] != enc[..] {
            sim.violate(OWN, "key encoding", format!("{name}: another key"));
        }
    }
}
trait CloneResult {
    fn clone_result(&self) -> Self;
}
impl<T: Clone> CloneResult for Result<Result<T, String>, simkit::Panic> {
    fn clone_result(&self) -> Self {
        match self {
            Ok(x) => Ok(x.clone()),
            Err(p) => Err(p.clone()),
        }
    }
}

fn world(sim: &mut Sim) -> World {
    let n = 1 + sim.choose(9) as usize;
    let base: Vec<Fr> = (0..n)
        .map(|_| {
            let mut b = sim.bytes(32);
            b[0] &= 0x3f;
            b[31] |= 1;
            Fr::from_be(b[..].try_into().unwrap()).unwrap()
        })
        .collect();
    let mut signers = vec![];
    let mut sums: Vec<Sum<usize>> = (0..n).map(|i| Sum::from([(i, 1)])).collect();
    if sim.fault("rogue key", 1, 3) {
        // a key chosen with others' keys in view: cancels some of them
        let mut s = Sum::new();
        if sim.chance(2, 3) {
            s.insert(0, 1);
        }
        for i in 1..n {
            if sim.chance(1, 2) {
                s.insert(i, -1);
            }
        }
        sums.push(s);
    }
    for s in sums {
        if let Some(k) = secret(scalar(&base, &s)) {
            let pk = k.public_key();
            let key = Key { bytes: pk.as_ref().try_into().unwrap(), sum: Some(s.clone()), off: 0 };
            signers.push((s, k, key));
        }
    }
    let msgs = (0..1 + sim.choose(3) as usize).map(|i| { let l = *sim.pick(&[0usize, 1, 32, 32, 32, 100]); let mut m = sim.bytes(l); m.push(i as u8); m }).collect();
    World { base, signers, msgs }
}
/// the same object after a trip in one of its encodings
fn travel(sim: &mut Sim, s: &Sig) -> Signature {
    if sim.chance(1, 3) {
        let text = serde_json::to_string(&s.real()).expect("harness: signature as JSON");
        match serde_json::from_str::<Signature>(&text) {
            Ok(x) if x == s.real() => x,
            _ => {
                sim.violate(OWN, "signature through JSON", text);
                s.real()
            }
        }
    } else {
        s.real()
    }
}
fn contribution(sim: &mut Sim, w: &World, who: usize, m: usize) -> Sig {
    let (sum, k, _) = &w.signers[who];
    let mut out = Sig { bytes: k.sign(&w.msgs[m]).as_ref().try_into().unwrap(), sum: Some(over(sum, m)), off: 0 };
    if !sim.chance(1, 4) {
        return out;
    }
    match sim.choose(7) {
        0 => {
            sim.count_fault("signature of another message");
            let x = sim.choose(w.msgs.len() as u64) as usize;
            out = Sig { bytes: k.sign(&w.msgs[x]).as_ref().try_into().unwrap(), sum: Some(over(sum, x)), off: 0 };
        }
        1 => {
            sim.count_fault("signature of another signer");
            let x = sim.choose(w.signers.len() as u64) as usize;
            let (sum, k, _) = &w.signers[x];
            out = Sig { bytes: k.sign(&w.msgs[m]).as_ref().try_into().unwrap(), sum: Some(over(sum, m)), off: 0 };
        }
        2 => {
            sim.count_fault("signature at infinity");
            out = Sig { bytes: infinity(), sum: Some(Sum::new()), off: 0 };
        }
        3 => {
            sim.count_fault("signature outside the group");
            let t = 1 + sim.choose(6) as u8;
            out.bytes = blst::off_group(&out.bytes, t).unwrap().try_into().unwrap();
            out.off = t;
        }
        4 => {
            sim.count_fault("signature bit flipped");
            let i = sim.choose(96 * 8) as usize;
            out.bytes[i / 8] ^= 1 << (i % 8);
            out.sum = None;
        }
        5 => {
            sim.count_fault("signature zeroed");
            out = Sig { bytes: [0; 96], sum: None, off: 0 };
        }
        _ => {
            sim.count_fault("signature negated");
            let mut neg = Sum::new();
            plus(&mut neg, sum, -1);
            let k = secret(scalar(&w.base, &neg)).unwrap();
            out = Sig { bytes: k.sign(&w.msgs[m]).as_ref().try_into().unwrap(), sum: Some(over(&neg, m)), off: 0 };
        }
    }
    out
}
fn damaged_key(sim: &mut Sim, k: &Key) -> Key {
    let mut o = k.clone();
    if !k.good() {
        return o;
    }
    match sim.choose(4) {
        0 => {
            sim.count_fault("key at infinity");
            o = Key { bytes: infinity(), sum: Some(Sum::new()), off: 0 };
        }
        1 => {
            sim.count_fault("key outside the group");
            o.off = 1 + sim.choose(6) as u8;
            o.bytes = blst::off_group(&o.bytes, o.off).unwrap().try_into().unwrap();
        }
        2 => {
            sim.count_fault("key bit flipped");
            let i = sim.choose(48 * 8) as usize;
            o.bytes[i / 8] ^= 1 << (i % 8);
            o.sum = None;
        }
        _ => {
            sim.count_fault("key zeroed");
            o = Key { bytes: [0; 48], sum: None, off: 0 };
        }
    }
    o
}
/// aggregation of what arrived, compared with the model; what the aggregator sends on
fn combine(sim: &mut Sim, w: &World, parts: &[Sig]) -> Option<Sig> {
    let want = !parts.is_empty() && parts.iter().all(|p| p.good());
    let real: Vec<Signature> = parts.iter().map(|p| travel(sim, p)).collect();
    let got = call(|| aggregate(&real));
    judge(sim, "aggregate", want, unit(got.clone_result()), format!("{} signatures, {} bad", parts.len(), parts.iter().filter(|p| !p.good()).count()));
    let got = got.ok()?.ok()?;
    if !want {
        return None;
    }
    let mut sum = Sum::new();
    parts.iter().for_each(|p| plus(&mut sum, p.sum.as_ref().unwrap(), 1));
    // in any order, and in any grouping, the same
    let mut other = real.clone();
    sim.shuffle(&mut other);
    let cut = sim.choose(other.len() as u64) as usize;
    let (a, b) = other.split_at(cut);
    let two = if a.is_empty() { aggregate(b) } else { aggregate(a).and_then(|a| aggregate(b).and_then(|b| aggregate(&[b, a]))) };
    match two {
        Ok(x) if x == got => {}
        x => sim.violate(OWN, "aggregate depends on order", format!("{} signatures regrouped at {cut}: {}", parts.len(), if x.is_ok() { "another aggregate" } else { "refused" })),
    }
    // the signature of the sum of the keys, where all signed one message
    let m = sum.keys().next().map(|k| k.1);
    if sum.is_empty() {
        if got.as_ref() != &infinity::<96>()[..] || !got.is_infinity() {
            sim.violate(OWN, "aggregate", "signatures that cancel do not give infinity");
        }
    } else if let Some(m) = m.filter(|m| sum.keys().all(|k| k.1 == *m)) {
        let s: Sum<usize> = sum.iter().map(|(k, c)| (k.0, *c)).collect();
        if let Some(k) = secret(scalar(&w.base, &s)) {
            if k.sign(&w.msgs[m]) != got {
                sim.violate(OWN, "aggregate", format!("{} signatures over one message: not their sum", parts.len()));
            }
        }
    }
    Some(Sig { bytes: got.as_ref().try_into().unwrap(), sum: Some(sum), off: 0 })
}
fn verifiers(sim: &mut Sim, w: &World, sig: &Sig, listed: &[(Key, usize)]) {
    let real = travel(sim, sig);
    let pks: Vec<PublicKey> = listed.iter().map(|x| x.0.real()).collect();
    let refs: Vec<&PublicKey> = pks.iter().collect();
    let good = listed.iter().all(|x| x.0.good());
    let bad = listed.iter().filter(|x| !x.0.good()).count();
    // one message for all
    let m = listed.first().map_or(0, |x| x.1);
    let mut ks = Sum::new();
    if good {
        listed.iter().for_each(|x| plus(&mut ks, x.0.sum.as_ref().unwrap(), 1));
    }
    let fast = !listed.is_empty() && good && sig.good() && !ks.is_empty() && sig.sum.as_ref() == Some(&over(&ks, m));
    let detail = format!("{} keys, {bad} bad, signature {}", listed.len(), if !sig.good() { "bad" } else if sig.sum.as_ref().unwrap().is_empty() { "at infinity" } else { "fine" });
    let got = call(|| fast_aggregate_verify(&refs, &w.msgs[m], &real));
    judge(sim, "fast aggregate verification", fast, got, detail.clone());
    let eth = fast || (listed.is_empty() && sig.bytes == infinity::<96>());
    let got = call(|| eth_fast_aggregate_verify(&refs, &w.msgs[m], &real));
    judge(sim, "sync aggregate verification", eth, got, detail.clone());
    // a message each
    let mut all = Sum::new();
    if good {
        listed.iter().for_each(|x| plus(&mut all, &over(x.0.sum.as_ref().unwrap(), x.1), 1));
    }
    let mut msgs: Vec<&[u8]> = listed.iter().map(|x| &w.msgs[x.1][..]).collect();
    let mut even = true;
    if sim.fault("message list of another length", 1, 8) {
        even = false;
        if msgs.is_empty() || sim.chance(1, 2) {
            msgs.push(&w.msgs[0]);
        } else {
            msgs.pop();
        }
    }
    let want = !listed.is_empty() && even && good && sig.good() && sig.sum.as_ref() == Some(&all);
    let got = call(|| aggregate_verify(&pks, &msgs, &real));
    judge(sim, "aggregate verification", want, got, format!("{detail}, {} messages", msgs.len()));
    // by the sum of the keys
    let got = call(|| eth_aggregate_public_keys(&pks));
    judge(sim, "key aggregation", !listed.is_empty() && good, unit(got.clone_result()), format!("{} keys, {bad} bad", listed.len()));
    if let (Ok(Ok(k)), true) = (got, good) {
        let expect = if ks.is_empty() { infinity::<48>().to_vec() } else { secret(scalar(&w.base, &ks)).unwrap().public_key().as_ref().to_vec() };
        if k.as_ref() != &expect[..] {
            sim.violate(OWN, "key aggregation", format!("{} keys: not their sum", listed.len()));
        }
        let got = call(|| verify_signature(&k, &w.msgs[m], &real));
        judge(sim, "verification under the sum", fast, got, detail);
    }
}
fn duties(sim: &mut Sim) {
    let w = world(sim);
    let rounds = 1 + sim.choose(3);
    for _ in 0..rounds {
        if sim.found() {
            return;
        }
        let agreed = sim.choose(w.msgs.len() as u64) as usize;
        let split = sim.chance(1, 3);
        // what reaches the aggregator
        let mut inbox: Vec<(usize, usize, Sig)> = vec![];
        for who in 0..w.signers.len() {
            if sim.fault("contribution lost", 1, 8) {
                continue;
            }
            let m = if split { sim.choose(w.msgs.len() as u64) as usize } else { agreed };
            let c = contribution(sim, &w, who, m);
            if sim.fault("contribution delivered twice", 1, 10) {
                inbox.push((who, m, c.clone()));
            }
            inbox.push((who, m, c));
        }
        sim.shuffle(&mut inbox);
        sim.advance(1_000_000_000);
        // each by itself
        let mut valid = vec![];
        for x in &inbox {
            let (who, m, s) = x;
            let key = if sim.chance(1, 12) { damaged_key(sim, &w.signers[*who].2) } else { w.signers[*who].2.clone() };
            let want = key.good() && s.good() && s.sum.as_ref() == Some(&over(key.sum.as_ref().unwrap(), *m));
            let r = travel(sim, s);
            let got = call(|| verify_signature(&key.real(), &w.msgs[*m], &r));
            judge(sim, "verification", want, got, format!("key {}, signature {}", if key.good() { "fine" } else { "bad" }, if s.good() { "fine" } else { "bad" }));
            if want {
                valid.push(x.clone());
            }
        }
        // an aggregator that looks, or one that does not
        let used = if sim.chance(2, 3) { valid } else { inbox };
        let parts: Vec<Sig> = used.iter().map(|x| x.2.clone()).collect();
        let made = combine(sim, &w, &parts);
        let mut listed: Vec<(Key, usize)> = used.iter().map(|x| (w.signers[x.0].2.clone(), x.1)).collect();
        let mut sig = match made {
            Some(x) => {
                sim.nontrivial = true;
                x
            }
            None if sim.chance(1, 2) => Sig { bytes: infinity(), sum: Some(Sum::new()), off: 0 },
            None => contribution(sim, &w, 0, agreed),
        };
        // the list of signers as a verifier gets it
        for _ in 0..sim.choose(3) {
            match sim.choose(8) {
                0 if !listed.is_empty() => {
                    sim.count_fault("list: one missing");
                    let i = sim.choose(listed.len() as u64) as usize;
                    listed.remove(i);
                }
                1 => {
                    sim.count_fault("list: one more");
                    let i = sim.choose(w.signers.len() as u64) as usize;
                    listed.push((w.signers[i].2.clone(), agreed));
                }
                2 if !listed.is_empty() => {
                    sim.count_fault("list: bad key");
                    let i = sim.choose(listed.len() as u64) as usize;
                    listed[i].0 = damaged_key(sim, &listed[i].0.clone());
                }
                3 => {
                    sim.count_fault("list: other order");
                    sim.shuffle(&mut listed);
                }
                4 => {
                    sim.count_fault("list: nobody");
                    listed.clear();
                }
                5 if sig.good() => {
                    sim.count_fault("aggregate outside the group");
                    let t = 1 + sim.choose(6) as u8;
                    sig.bytes = blst::off_group(&sig.bytes, t).unwrap().try_into().unwrap();
                    sig.off = t;
                }
                6 => {
                    sim.count_fault("aggregate replaced by infinity");
                    sig = Sig { bytes: infinity(), sum: Some(Sum::new()), off: 0 };
                }
                _ => {}
            }
        }
        verifiers(sim, &w, &sig, &listed);
    }
}
fn main() {
    let property = simkit::arg("--property").expect("--property");
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    simkit::main_for(Target {
        name: "blssim",
        property,
        run: Box::new(|sim| {
            if sim.chance(1, 6) {
                keys(sim);
            } else {
                duties(sim);
            }
        }),
        rule: "each run draws signers, rogue keys, messages, a faulty network between signers, aggregators and verifiers, and random sources; non-trivial: an aggregate was made".into(),
        state_measure: "distinct (operation, verdict, composition of its arguments)".into(),
        real: s(&["ethereum_consensus::crypto (keys, signatures, aggregation, verification, their encodings)"]),
        stubs: s(&["blst: algebraic stand-in in which points outside the group, at infinity and off the curve exist", "network, random sources: the simulator"]),
        assumptions: s(&["the pairing library itself is sound"]),
        required_probes: s(&["aggregate: accepted", "aggregate: refused", "verification: accepted", "fast aggregate verification: accepted", "aggregate verification: accepted", "sync aggregate verification: accepted", "key aggregation: refused", "key from randomness: refused", "verification under the sum: accepted"]),
        quick_s: 15.0,
        thorough_s: 600.0,
        min_runs: 500,
        max_runs_quick: 60_000,
    })
}

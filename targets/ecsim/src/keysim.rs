//! E02: keys and keystores from a mnemonic, under every worker schedule and source of randomness.
use crate::{
    stdio::{self, Weather},
    validator::{
        keys::{self, KeyPair},
        keystores, mnemonic,
    },
};
use ethereum_consensus::crypto::SecretKey;
use sha2::{Digest, Sha512};
use simcrypto::fr::Fr;
use simkit::{guard, os, Rng, Sim};
use std::collections::{BTreeSet, HashMap};
use unicode_normalization::UnicodeNormalization;

const P: &str = "E02";

// ---------------------------------------------------------------- the definitions

fn hmac512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut k = [0u8; 128];
    if key.len() > 128 {
        k[..64].copy_from_slice(&Sha512::digest(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let pad = |x: u8| k.map(|b| b ^ x);
    let inner = Sha512::new().chain_update(pad(0x36)).chain_update(data).finalize();
    Sha512::new().chain_update(pad(0x5c)).chain_update(inner).finalize().into()
}
/// BIP-39
fn seed_of(phrase: &str, passphrase: &str) -> [u8; 64] {
    let pw: String = phrase.nfkd().collect();
    let salt: String = format!("mnemonic{passphrase}").nfkd().collect();
    let mut u = hmac512(pw.as_bytes(), &[salt.as_bytes(), &1u32.to_be_bytes()].concat());
    let mut out = u;
    for _ in 1..2048 {
        u = hmac512(pw.as_bytes(), &u);
        out.iter_mut().zip(&u).for_each(|(a, b)| *a ^= b);
    }
    out
}
/// EIP-2333
fn hkdf_mod_r(ikm: &[u8]) -> Fr {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    loop {
        salt = simcrypto::sha256(&[&salt]).to_vec();
        let prk = simcrypto::hkdf_extract(&salt, &[ikm, &[0]].concat());
        let mut okm = [0u8; 48];
        simcrypto::hkdf_expand(&prk, &[0, 48], &mut okm).unwrap();
        let sk = Fr::reduce_be(&okm);
        if !sk.is_zero() {
            return sk;
        }
    }
}
fn child(parent: Fr, index: u32) -> Fr {
    let ikm = parent.to_be();
    let not: Vec<u8> = ikm.iter().map(|x| x ^ 0xff).collect();
    let mut lamport = vec![];
    for i in [&ikm[..], &not] {
        let prk = simcrypto::hkdf_extract(&index.to_be_bytes(), i);
        let mut okm = vec![0u8; 255 * 32];
        simcrypto::hkdf_expand(&prk, &[], &mut okm).unwrap();
        for c in okm.chunks(32) {
            lamport.extend(simcrypto::sha256(&[c]));
        }
    }
    hkdf_mod_r(&simcrypto::sha256(&[&lamport]))
}
/// keys by their EIP-2334 path
#[derive(Default)]
struct Tree(HashMap<Vec<u32>, Fr>);
impl Tree {
    fn at(&mut self, seed: &[u8], path: &[u32]) -> Fr {
        if let Some(k) = self.0.get(path) {
            return *k;
        }
        let k = match path.split_last() {
            None => hkdf_mod_r(seed),
            Some((i, up)) => {
                let up = self.at(seed, up);
                child(up, *i)
            }
        };
        self.0.insert(path.to_vec(), k);
        k
    }
}
/// EIP-2335: the secret, if the passphrase is right
fn open(keystore: &serde_json::Value, passphrase: &str) -> Result<Option<Vec<u8>>, String> {
    let at = |p: &str| keystore.pointer(p).ok_or(format!("{p} is missing"));
    let text = |p: &str| at(p)?.as_str().map(|s| s.to_string()).ok_or(format!("{p} is not a string"));
    let bytes = |p: &str| hex::decode(text(p)?).map_err(|e| format!("{p}: {e}"));
    let int = |p: &str| at(p)?.as_u64().ok_or(format!("{p} is not a number"));
    for (p, v) in [("/crypto/kdf/function", "scrypt"), ("/crypto/checksum/function", "sha256"), ("/crypto/cipher/function", "aes-128-ctr"), ("/crypto/kdf/message", "")] {
        if text(p)? != v {
            return Err(format!("{p} is {} instead of {v}", text(p)?));
        }
    }
    if int("/version")? != 4 {
        return Err("version is not 4".into());
    }
    if !at("/crypto/checksum/params")?.as_object().is_some_and(|o| o.is_empty()) {
        return Err("checksum parameters".into());
    }
    let (n, r, p, len) = (int("/crypto/kdf/params/n")?, int("/crypto/kdf/params/r")?, int("/crypto/kdf/params/p")?, int("/crypto/kdf/params/dklen")?);
    if !n.is_power_of_two() || len < 32 {
        return Err(format!("scrypt with n={n} dklen={len}"));
    }
    let params = scrypt::Params::new(n.trailing_zeros() as u8, r as u32, p as u32, len as usize).map_err(|e| e.to_string())?;
    let mut pw: String = passphrase.nfkd().collect();
    pw.retain(|c| !c.is_control());
    let mut dk = vec![0u8; len as usize];
    scrypt::scrypt(pw.as_bytes(), &bytes("/crypto/kdf/params/salt")?, &params, &mut dk).map_err(|_| "scrypt")?;
    let message = bytes("/crypto/cipher/message")?;
    if simcrypto::sha256(&[&dk[16..32], &message])[..] != bytes("/crypto/checksum/message")? {
        return Ok(None);
    }
    let iv: [u8; 16] = bytes("/crypto/cipher/params/iv")?.try_into().map_err(|_| "the iv is not 16 bytes")?;
    use aes::cipher::{BlockEncrypt16 as _, KeyInit};
    let aes = <aes::Aes128 as KeyInit>::new_from_slice(&dk[..16]).map_err(|e| e.to_string())?;
    let mut counter = u128::from_be_bytes(iv);
    let mut out = vec![];
    for c in message.chunks(16) {
        let mut b = counter.to_be_bytes();
        aes.encrypt16(&mut b);
        out.extend(c.iter().zip(b).map(|(a, b)| a ^ b));
        counter = counter.wrapping_add(1);
    }
    Ok(Some(out))
}
fn public_key(secret: &[u8]) -> Vec<u8> {
    SecretKey::try_from(secret).map(|k| k.public_key().as_ref().to_vec()).unwrap_or_default()
}

// ---------------------------------------------------------------- scenes

fn schedule(sim: &mut Sim) {
    // several schedules worth of order, one choice each
    let kind = sim.choose(4);
    let mut r = Rng::new(sim.choose(1 << 32));
    sim.count_fault(["workers in order", "workers last first", "workers in random order", "one worker starved"][kind as usize]);
    rayon::install_schedule(Some(Box::new(move |n| match kind {
        0 => 0,
        1 => n - 1,
        2 => r.below(n as u64) as usize,
        _ => (n > 1) as usize,
    })));
}
fn randomness(sim: &mut Sim) -> os::Source {
    let s = match sim.choose(8) {
        0 => os::Source::Stuck(0xff),
        1 => os::Source::Stuck(*sim.pick(&[0, 0x7f, 0x80])),
        2 | 3 => os::Source::Short,
        4 => os::Source::Fails(sim.choose(12)),
        _ => os::Source::Fair,
    };
    match s {
        os::Source::Stuck(_) => sim.count_fault("stuck random source"),
        os::Source::Short => sim.count_fault("short or interrupted random reads"),
        os::Source::Fails(_) => sim.count_fault("failing random source"),
        os::Source::Fair => {}
    }
    s
}
/// with the source in this state
fn with<R>(s: os::Source, f: impl FnOnce() -> R) -> R {
    let s = match s {
        os::Source::Fails(n) => os::Source::Fails(os::entropy_reads() + n),
        s => s,
    };
    os::set_source(s);
    let r = f();
    os::set_source(os::Source::Fair);
    r
}
fn phrase(sim: &mut Sim) -> bip39::Mnemonic {
    let bytes = *sim.pick(&[16, 32, 20, 24, 28]);
    let e = match sim.choose(6) {
        0 => vec![0; bytes],
        1 => vec![0xff; bytes],
        _ => sim.bytes(bytes),
    };
    bip39::Mnemonic::from_entropy(&e).unwrap()
}
fn range(sim: &mut Sim) -> (u32, u32) {
    let start = match sim.choose(5) {
        0 => 0,
        1 => sim.choose(300) as u32,
        2 => u32::MAX - sim.choose(6) as u32,
        _ => sim.choose(1 << 32) as u32,
    };
    let n = sim.choose(5) as u32;
    if sim.chance(1, 12) {
        // nothing asked for
        return (start, start.saturating_sub(n));
    }
    (start, start.saturating_add(n))
}
fn judge_key(sim: &mut Sim, k: &KeyPair, want: Fr, path: &str) {
    let w = want.to_be();
    let got = k.private_key.clone().to_bytes();
    if got[..] != w {
        sim.violate(P, "derived key", format!("{path}: secret key {} instead of {}", hex::encode(got), hex::encode(w)));
    } else if k.public_key.as_ref()[..] != public_key(&w)[..] {
        sim.violate(P, "public key", format!("{path}: public key is not that of the secret key"));
    } else if k.path != path {
        sim.violate(P, "path", format!("{path}: labelled {}", k.path));
    } else {
        sim.probe("key derived");
    }
}
fn derive(sim: &mut Sim, t: &mut Tree, seed: &[u8; 64]) -> Option<(u32, Vec<KeyPair>)> {
    let (start, end) = range(sim);
    schedule(sim);
    sim.log(format!("derive {start}..{end}"));
    let r = guard(|| keys::generate(seed, start, end));
    rayon::install_schedule(None);
    let (signing, withdrawal) = match r {
        Ok(x) => x,
        Err(p) => {
            sim.violate(P, "panic", format!("deriving {start}..{end}: {} at {}", p.message, p.location));
            return None;
        }
    };
    let n = end.saturating_sub(start) as usize;
    sim.state_of(&format!("{n} keys from {}", (start as u64).checked_ilog2().unwrap_or(0)));
    if signing.len() != n || withdrawal.len() != n {
        sim.violate(P, "number of keys", format!("{start}..{end}: {} signing and {} withdrawal keys", signing.len(), withdrawal.len()));
        return None;
    }
    for i in 0..n {
        let index = start + i as u32;
        let w = t.at(seed, &[12381, 3600, index, 0]);
        judge_key(sim, &withdrawal[i], w, &format!("m/12381/3600/{index}/0"));
        let s = t.at(seed, &[12381, 3600, index, 0, 0]);
        judge_key(sim, &signing[i], s, &format!("m/12381/3600/{index}/0/0"));
    }
    Some((start, signing))
}
/// what a keystore has to hold
struct Want {
    secret: Vec<u8>,
    path: String,
}
fn judge_keystores(sim: &mut Sim, text: &[u8], want: &[Want], source: os::Source) {
    let v: Vec<serde_json::Value> = match serde_json::from_slice(text) {
        Ok(v) => v,
        Err(e) => return sim.violate(P, "keystores", format!("not a list of keystores: {e}")),
    };
    if v.len() != want.len() {
        return sim.violate(P, "keystores", format!("{} keystores for {} keys", v.len(), want.len()));
    }
    let mut all = vec![];
    for (i, (k, w)) in v.iter().zip(want).enumerate() {
        let parts = (|| {
            let pw = k.get("voting_keystore_password")?.as_str()?.to_string();
            let ks: serde_json::Value = serde_json::from_str(k.get("voting_keystore")?.as_str()?).ok()?;
            Some((ks, pw))
        })();
        let Some((ks, pw)) = parts else { return sim.violate(P, "keystores", format!("keystore {i} has no readable keystore and passphrase")) };
        match open(&ks, &pw) {
            Err(e) => return sim.violate(P, "keystore format", format!("keystore {i}: {e}")),
            Ok(None) => return sim.violate(P, "keystore does not open", format!("keystore {i} ({}) does not open with its passphrase ({source:?})", w.path)),
            Ok(Some(s)) if s != w.secret => {
                return sim.violate(P, "keystore holds another key", format!("keystore {i} ({}) holds {} instead of {} ({source:?})", w.path, hex::encode(s), hex::encode(&w.secret)));
            }
            Ok(Some(_)) => sim.probe("keystore opened"),
        }
        let pk = ks.get("pubkey").and_then(|x| x.as_str()).map(|x| x.trim_start_matches("0x").to_lowercase());
        if pk != Some(hex::encode(public_key(&w.secret))) {
            return sim.violate(P, "public key", format!("keystore {i} ({}) carries {pk:?}", w.path));
        }
        if ks.get("path").and_then(|x| x.as_str()) != Some(&w.path) {
            return sim.violate(P, "path", format!("keystore {i} for {} says {:?}", w.path, ks.get("path")));
        }
        if ks.get("uuid").and_then(|x| x.as_str()).and_then(|x| uuid::Uuid::parse_str(x).ok()).is_none() {
            return sim.violate(P, "keystore format", format!("keystore {i} has no uuid"));
        }
        all.push((ks, pw));
    }
    // no other passphrase opens them
    let mut tries = 0;
    for i in 0..all.len() {
        let mut others: Vec<String> = vec![String::new(), all[i].1[..all[i].1.len() / 2].into(), format!("{}0", all[i].1), all[i].1.to_uppercase()];
        let mut near = all[i].1.clone();
        near.pop();
        near.push(if all[i].1.ends_with('0') { '1' } else { '0' });
        others.push(near);
        others.retain(|o| *o != all[i].1);
        if all.len() > 1 && !matches!(source, os::Source::Stuck(_)) {
            others.push(all[(i + 1) % all.len()].1.clone());
        }
        let pick = sim.choose(others.len() as u64) as usize;
        let other = if all.len() > 1 && sim.chance(1, 2) { others.last() } else { others.get(pick) }.unwrap();
        if tries < 3 && matches!(open(&all[i].0, other), Ok(Some(_))) {
            sim.violate(P, "keystore opens with another passphrase", format!("keystore {i} opens with {other:?} as well as {:?}", all[i].1));
        }
        tries += 1;
        sim.probe("wrong passphrase refused");
    }
    // and none is guessable: fresh randomness for each
    if !matches!(source, os::Source::Stuck(_)) {
        for what in ["passphrase", "salt", "iv", "uuid"] {
            let set: BTreeSet<String> = all
                .iter()
                .map(|(k, p)| match what {
                    "passphrase" => p.clone(),
                    "salt" => k.pointer("/crypto/kdf/params/salt").unwrap().to_string(),
                    "iv" => k.pointer("/crypto/cipher/params/iv").unwrap().to_string(),
                    _ => k.get("uuid").unwrap().to_string(),
                })
                .collect();
            if set.len() != all.len() {
                return sim.violate(P, "randomness reused", format!("two keystores share their {what}"));
            }
        }
        for (k, pw) in &all {
            let salt = k.pointer("/crypto/kdf/params/salt").and_then(|x| x.as_str()).map_or(0, |s| s.len());
            if pw.len() < 32 || salt < 32 {
                return sim.violate(P, "randomness reused", format!("passphrase of {} characters, salt of {}", pw.len(), salt / 2));
            }
        }
    }
}
fn store(sim: &mut Sim, keys: Vec<KeyPair>) {
    let want: Vec<Want> = keys.iter().map(|k| Want { secret: k.private_key.clone().to_bytes().to_vec(), path: k.path.clone() }).collect();
    let source = randomness(sim);
    schedule(sim);
    sim.log(format!("keystores for {} keys, randomness {source:?}", keys.len()));
    let r = with(source, || guard(|| keystores::generate(keys)));
    rayon::install_schedule(None);
    match r {
        Err(_) if matches!(source, os::Source::Fails(_)) => sim.probe("no keystore without randomness"),
        Err(p) => sim.violate(P, "panic", format!("keystores ({source:?}): {} at {}", p.message, p.location)),
        Ok(k) => {
            let text = serde_json::to_vec(&k).unwrap();
            judge_keystores(sim, &text, &want, source);
        }
    }
}
fn words(sim: &mut Sim) {
    let source = randomness(sim);
    os::record_entropy();
    let r = with(source, || guard(mnemonic::generate_random_from_system_entropy));
    let drawn: Vec<u8> = os::drawn().concat();
    sim.log(format!("new mnemonic, randomness {source:?}"));
    sim.state_of(&format!("words {source:?}"));
    match r {
        Err(_) if matches!(source, os::Source::Fails(_)) => sim.probe("no mnemonic without randomness"),
        Err(p) => sim.violate(P, "panic", format!("mnemonic: {} at {}", p.message, p.location)),
        Ok(Err(e)) => sim.violate(P, "mnemonic", format!("no mnemonic: {e}")),
        Ok(Ok(m)) => {
            let e = m.to_entropy();
            // all of it came from the source
            if e.len() != 32 || !(drawn.len() >= 32 && drawn.windows(32).any(|w| w == e)) {
                sim.violate(P, "mnemonic", format!("{} words hold {}, of which the random source gave {}", m.word_count(), hex::encode(&e), hex::encode(drawn)));
            }
            sim.probe("mnemonic generated");
            match guard(|| mnemonic::recover_from_phrase(&m.to_string())) {
                Ok(Ok(b)) if b == m => {}
                _ => sim.violate(P, "mnemonic", "the words of a new mnemonic are not accepted".to_string()),
            }
        }
    }
}
fn recover(sim: &mut Sim) -> Option<[u8; 64]> {
    let m = phrase(sim);
    let text = m.to_string();
    let pass = match sim.choose(6) {
        0 => Some("TREZOR".to_string()),
        1 => Some("".to_string()),
        2 => Some("\u{212b}ngstro\u{308}m \u{fb01} \u{1d52d}".to_string()),
        3 => Some(hex::encode(sim.bytes(70))),
        _ => None,
    };
    sim.log(format!("recover {} words, passphrase {pass:?}", m.word_count()));
    match guard(|| mnemonic::recover_from_phrase(&text).map(|m| mnemonic::to_seed(m, pass.as_deref()))) {
        Err(p) => sim.violate(P, "panic", format!("recovering {text}: {}", p.message)),
        Ok(Err(e)) => sim.violate(P, "mnemonic", format!("{text} is refused: {e}")),
        Ok(Ok(s)) => {
            let want = seed_of(&text, pass.as_deref().unwrap_or(""));
            if s != want {
                sim.violate(P, "seed", format!("{text} with {pass:?}: seed {}", hex::encode(s)));
                return None;
            }
            sim.probe("seed recovered");
            return Some(want);
        }
    }
    None
}
fn damaged_words(sim: &mut Sim) -> String {
    let m = phrase(sim).to_string();
    let mut w: Vec<String> = m.split(' ').map(|x| x.to_string()).collect();
    let i = sim.choose(w.len() as u64) as usize;
    let kind = sim.choose(4);
    match kind {
        0 => w[i].push('q'),
        1 => {
            w.remove(i);
        }
        2 => w.push("zoo".into()),
        _ => {
            // another word: the checksum notices most
            w[i] = if w[i] == "zoo" { "abandon".into() } else { "zoo".into() };
        }
    }
    sim.count_fault(["misspelt word", "word lost", "word too many", "wrong word"][kind as usize]);
    w.join(" ")
}
fn refuse(sim: &mut Sim) {
    let text = damaged_words(sim);
    let valid = bip39::Mnemonic::parse(&text).is_ok();
    match guard(|| mnemonic::recover_from_phrase(&text)) {
        Err(p) => sim.violate(P, "panic", format!("recovering {text}: {}", p.message)),
        Ok(r) => {
            if r.is_ok() != valid {
                sim.violate(P, "mnemonic", format!("{text}: accepted {} instead of {valid}", r.is_ok()));
            }
            sim.probe(if valid { "damaged words still valid" } else { "damaged words refused" });
        }
    }
}
fn command(sim: &mut Sim, t: &mut Tree) {
    let m = phrase(sim).to_string();
    let seed = seed_of(&m, "");
    let (start, end) = {
        let (s, e) = range(sim);
        (s, e.min(s.saturating_add(2)))
    };
    let source = randomness(sim);
    schedule(sim);
    sim.log(format!("ec validator generate-lighthouse-keystores <{m}> {start} {end}, randomness {source:?}"));
    let w = Weather { max: 1 << 20, ..Default::default() };
    let wo = Weather::draw(sim);
    let (s, e) = (start.to_string(), end.to_string());
    let ran = with(source, || stdio::run(&["validator", "generate-lighthouse-keystores", &m, &s, &e], &[], &w, &wo));
    rayon::install_schedule(None);
    sim.probe("command run");
    match ran.result {
        Err(_) if matches!(source, os::Source::Fails(_)) => sim.probe("no keystore without randomness"),
        Err(p) => sim.violate(P, "panic", format!("ec validator: {p}")),
        Ok(Err(e)) => sim.violate(P, "keystores", format!("ec validator: {e}")),
        Ok(Ok(())) => {
            let want: Vec<Want> = (start..end)
                .map(|i| Want { secret: t.at(&seed, &[12381, 3600, i, 0, 0]).to_be().to_vec(), path: format!("m/12381/3600/{i}/0/0") })
                .collect();
            judge_keystores(sim, &ran.output, &want, source);
        }
    }
}
fn new_words_command(sim: &mut Sim) {
    let w = Weather { max: 1 << 20, ..Default::default() };
    os::record_entropy();
    let ran = stdio::run(&["validator", "mnemonic"], &[], &w, &w);
    let drawn = os::drawn().concat();
    let text = String::from_utf8_lossy(&ran.output).into_owned();
    match ran.result {
        Ok(Ok(())) => match bip39::Mnemonic::parse(text.trim()) {
            Ok(m) if m.to_entropy().len() == 32 && drawn.windows(32).any(|w| w == m.to_entropy()) => sim.probe("mnemonic generated"),
            _ => sim.violate(P, "mnemonic", format!("ec validator mnemonic printed {text:?}")),
        },
        r => sim.violate(P, "mnemonic", format!("ec validator mnemonic: {r:?}")),
    }
}

/// published vectors: the definitions above are the standard's
pub fn self_test() {
    let words = "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";
    let seed = seed_of(words, "TREZOR");
    assert!(hex::encode(seed).starts_with("c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e"), "BIP-39");
    let dec = |s: &str| s.parse::<ruint::aliases::U256>().unwrap().to_be_bytes::<32>();
    let master = hkdf_mod_r(&seed);
    assert_eq!(master.to_be(), dec("6083874454709270928345386274498605044986640685124978867557563392430687146096"), "EIP-2333 master");
    assert_eq!(child(master, 0).to_be(), dec("20397789859736650942317412262472558107875392172444076792671091975210932703118"), "EIP-2333 child");
    // EIP-2335's scrypt test keystore
    let ks: serde_json::Value = serde_json::from_str(
        r#"{"crypto":{"kdf":{"function":"scrypt","params":{"dklen":32,"n":262144,"p":1,"r":8,"salt":"d4e56740f876aef8c010b86a40d5f56745a118d0906a34e69aec8c0db1cb8fa3"},"message":""},
        "checksum":{"function":"sha256","params":{},"message":"d2217fe5f3e9a1e34581ef8a78f7c9928e436d36dacc5e846690a5581e8ea484"},
        "cipher":{"function":"aes-128-ctr","params":{"iv":"264daa3f303d7259501c93d997d84fe6"},"message":"06ae90d55fe0a6e9c5c3bc5b170827b2e5cce3929ed3f116c2811e6366dfe20f"}},"version":4}"#,
    )
    .unwrap();
    scrypt::make_cheaper(0);
    let s = open(&ks, "\u{1d531}\u{1d522}\u{1d530}\u{1d531}\u{1d52d}\u{1d51e}\u{1d530}\u{1d530}\u{1d534}\u{1d52c}\u{1d52f}\u{1d521}\u{1f511}").unwrap();
    assert_eq!(s.map(hex::encode).as_deref(), Some("000000000019d6689c085ae165831e934ff763ae46a2a6c172b3f1b60a8ce26f"), "EIP-2335");
}

pub fn run(sim: &mut Sim) {
    sim.nontrivial = true;
    // rarely at full cost
    let cheap = if sim.run_index % 400 == 399 { 0 } else { 11 };
    scrypt::make_cheaper(cheap);
    let mut t = Tree::default();
    match sim.choose(10) {
        0 => words(sim),
        1 => refuse(sim),
        2 | 3 => command(sim, &mut t),
        4 => new_words_command(sim),
        _ => {
            let Some(seed) = recover(sim) else { return };
            // ranges that overlap, derived apart
            let mut kept = vec![];
            for _ in 0..1 + sim.choose(2) {
                let Some((_, k)) = derive(sim, &mut t, &seed) else { return };
                kept = k;
            }
            if sim.chance(2, 3) && sim.violations.is_empty() {
                store(sim, kept);
            }
        }
    }
}

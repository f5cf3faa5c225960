//! E01: payloads in and out of blobs.
use crate::{
    blobs::{self, framing::Mode},
    stdio::{self, SimReader, SimWriter, Weather},
};
use ethereum_consensus::{
    crypto::kzg::{kzg_settings_with_precompute_arc, KzgSettings},
    deneb::mainnet::{Blob, BlobsBundle},
};
use simkit::{guard, Sim};
use std::{
    io::BufWriter,
    sync::{Arc, OnceLock},
};

const P: &str = "E01";
const BLOB: usize = 131_072;
const ELEMENTS: usize = 4096;
/// whole bytes that fit in a blob: 4096 elements of 254 bits
const CAPACITY: usize = ELEMENTS * 254 / 8;

// ---------------------------------------------------------------- the definition

/// 254 bits of every element, the two high ones left out
fn unpack(blobs: &[Vec<u8>]) -> Vec<u8> {
    let mut out = Vec::with_capacity(blobs.len() * CAPACITY);
    let (mut acc, mut have) = (0u32, 0);
    for b in blobs {
        for (i, x) in b.iter().enumerate() {
            let bits = if i % 32 == 0 { 6 } else { 8 };
            acc = acc << bits | (*x as u32 & ((1 << bits) - 1));
            have += bits;
            if have >= 8 {
                have -= 8;
                out.push((acc >> have) as u8);
                acc &= (1 << have) - 1;
            }
        }
    }
    out
}
fn pack(data: &[u8]) -> Vec<Vec<u8>> {
    let count = data.len().div_ceil(CAPACITY).max(1);
    let mut bits = data.iter().flat_map(|x| (0..8).rev().map(move |k| x >> k & 1)).chain(std::iter::repeat(0));
    (0..count)
        .map(|_| {
            let mut b = vec![0u8; BLOB];
            for e in b.chunks_mut(32) {
                for k in 2..256 {
                    e[k / 8] |= bits.next().unwrap() << (7 - k % 8);
                }
            }
            b
        })
        .collect()
}
fn framed(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend((data.len() as u32).to_be_bytes());
    v.extend(data);
    v
}
/// `unpack` pads a decoded stream to whole blobs: up to a blob's worth of bits each
fn stream_of(blobs: &[Vec<u8>]) -> Vec<u8> {
    unpack(blobs)
}
fn payload(stream: &[u8]) -> Option<&[u8]> {
    if stream.len() < 5 || stream[0] != 0 {
        return None;
    }
    let n = u32::from_be_bytes(stream[1..5].try_into().unwrap()) as usize;
    stream[5..].get(..n)
}
fn canonical(b: &[u8]) -> bool {
    b.chunks(32).all(|e| simcrypto::fr::Fr::from_be(e.try_into().unwrap()).is_some())
}
fn blobs_of_json(text: &[u8]) -> Option<Vec<Vec<u8>>> {
    let v: Vec<String> = serde_json::from_slice(text).ok()?;
    v.iter().map(|s| hex::decode(s.strip_prefix("0x")?).ok().filter(|b| b.len() == BLOB)).collect()
}
fn json_of(blobs: &[Vec<u8>], pretty: bool) -> Vec<u8> {
    let v: Vec<String> = blobs.iter().map(|b| format!("0x{}", hex::encode(b))).collect();
    if pretty {
        serde_json::to_vec_pretty(&v).unwrap()
    } else {
        serde_json::to_vec(&v).unwrap()
    }
}
fn settings() -> Arc<KzgSettings> {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| kzg_settings_with_precompute_arc(0)).clone()
}

// ---------------------------------------------------------------- scenes

fn size(sim: &mut Sim, sized: bool) -> usize {
    let head = if sized { 5 } else { 0 };
    let blobs = 1 + sim.choose(if sim.thorough { 4 } else { 3 }) as usize;
    let edge = blobs * CAPACITY - head;
    match sim.choose(10) {
        0 => sim.choose(70) as usize,
        1 | 2 => edge + 1 + sim.choose(40) as usize,
        3 => edge - sim.choose(40) as usize,
        4 => edge,
        // around one element, and one blob's bytes rather than bits
        5 => (31 + sim.choose(3) as usize) * (1 + sim.choose(40) as usize),
        6 => BLOB * blobs - 4 + sim.choose(9) as usize,
        7 => edge.saturating_sub(sim.choose(300) as usize),
        _ => sim.choose(20_000) as usize,
    }
}
fn content(sim: &mut Sim, n: usize) -> Vec<u8> {
    match sim.choose(6) {
        0 => vec![0xff; n],
        1 => vec![0; n],
        2 => {
            // zeros at the end look like padding
            let mut v = sim.bytes(n);
            let k = sim.choose(n as u64 + 1) as usize;
            v[k..].fill(0);
            v
        }
        3 => {
            let mut v = vec![0; n];
            if n > 0 {
                v[n - 1] = 1;
            }
            v
        }
        _ => sim.bytes(n),
    }
}
fn short(b: &[u8]) -> String {
    format!("{} bytes {}", b.len(), hex::encode(&b[..b.len().min(12)]))
}
fn difference(a: &[u8], b: &[u8]) -> String {
    let at = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes instead of {}, first difference at byte {at}", a.len(), b.len())
}
fn mode(sized: bool) -> Mode {
    if sized {
        Mode::Sized
    } else {
        Mode::Raw
    }
}
/// check blobs that claim to hold the payload
fn judge_blobs(sim: &mut Sim, blobs: &[Vec<u8>], data: &[u8], sized: bool, how: &str) {
    for (i, b) in blobs.iter().enumerate() {
        if b.len() != BLOB || !canonical(b) {
            sim.violate(P, "invalid blob", format!("{how}: blob {i} of {} is not a valid blob ({} bytes)", blobs.len(), b.len()));
            return;
        }
    }
    let stream = stream_of(blobs);
    let got: Option<&[u8]> = if sized { payload(&stream) } else { stream.get(..data.len()) };
    let clean = sized || stream.get(data.len()..).is_some_and(|r| r.iter().all(|x| *x == 0));
    if got != Some(data) || !clean {
        let d = difference(got.unwrap_or(&[]), data);
        sim.violate(P, "payload lost", format!("{how}: {} encoded ({}) decode to something else: {d}, zero padding {clean}", short(data), if sized { "sized" } else { "raw" }));
    }
    sim.probe("blobs hold the payload");
    // no more blobs than needed
    let need = (data.len() + if sized { 5 } else { 0 }).div_ceil(CAPACITY).max(1);
    if blobs.len() != need {
        sim.violate(P, "number of blobs", format!("{how}: {} blobs for {} bytes, {need} needed", blobs.len(), data.len()));
    }
}
/// what decoding these bytes must give: `None` for an error
fn expected(text: &[u8], sized: bool) -> Option<Vec<u8>> {
    let blobs = blobs_of_json(text)?;
    let mut stream = stream_of(&blobs);
    // the tool hands out the stream at full blob size: bits it does not have are zero
    stream.resize(blobs.len() * BLOB, 0);
    if sized {
        if blobs.is_empty() {
            return None;
        }
        payload(&stream).map(|p| p.to_vec())
    } else {
        Some(stream)
    }
}
/// sizes between what blobs hold and what they measure: nothing is said about those
fn unspecified(text: &[u8], sized: bool) -> bool {
    let Some(b) = blobs_of_json(text) else { return false };
    let s = stream_of(&b);
    if !sized || s.len() < 5 || s[0] != 0 {
        return false;
    }
    let n = u32::from_be_bytes(s[1..5].try_into().unwrap()) as usize;
    n + 5 > s.len() && n + 5 <= b.len() * BLOB
}
fn judge_decoded(sim: &mut Sim, got: Option<&[u8]>, want: Option<&[u8]>, sized: bool, how: &str) {
    match (got, want) {
        (None, None) => sim.probe("refused"),
        (Some(_), None) => sim.violate(P, "malformed input accepted", format!("{how}: malformed blobs decoded")),
        (None, Some(w)) => sim.violate(P, "valid blobs refused", format!("{how}: {} refused", short(w))),
        (Some(g), Some(w)) => {
            // unframed, the padding may be of any length
            let ok = if sized {
                g == w
            } else {
                let n = g.len().min(w.len());
                g[..n] == w[..n] && g[n..].iter().chain(&w[n..]).all(|x| *x == 0)
            };
            if !ok {
                sim.violate(P, "decoded payload differs", format!("{how}: {}", difference(g, w)));
            }
            sim.probe("decoded");
        }
    }
}
fn encode(sim: &mut Sim, data: &[u8], sized: bool) -> Option<Vec<Vec<u8>>> {
    let mut w = Weather::draw(sim);
    let broken = sim.chance(1, 5);
    if broken {
        w.read_error(sim, data.len());
    }
    sim.log(format!("encode {} sized={sized} {:?}", short(data), w));
    let r = SimReader::new(data, &w);
    match guard(|| blobs::encode::from_reader(r, mode(sized))) {
        Err(p) => {
            let kind = if broken { "panic on a read error" } else { "panic" };
            sim.violate(P, kind, format!("encoding {}: {} at {}", short(data), p.message, p.location));
            None
        }
        Ok(Err(e)) => {
            if !broken {
                sim.violate(P, "payload refused", format!("encoding {}: {e}", short(data)));
            }
            sim.probe("read error reported");
            None
        }
        Ok(Ok(b)) => {
            let b: Vec<Vec<u8>> = b.iter().map(|b| b.as_ref().to_vec()).collect();
            if broken {
                sim.violate(P, "read error swallowed", format!("encoding {} gave {} blobs although reading failed {:?}", short(data), b.len(), w.fail_at));
                return None;
            }
            judge_blobs(sim, &b, data, sized, "encode");
            Some(b)
        }
    }
}
fn decode(sim: &mut Sim, text: &[u8], sized: bool, what: &str) {
    let want = expected(text, sized);
    if unspecified(text, sized) {
        let (w, mut out) = (Weather { max: 1 << 20, ..Default::default() }, SimWriter::new(&Weather { max: 1 << 20, ..Default::default() }));
        if let Err(p) = guard(|| blobs::decode::to_writer_from_json(SimReader::new(text, &w), &mut out, mode(sized))) {
            sim.violate(P, "panic", format!("decoding {what}: {} at {}", p.message, p.location));
        }
        return;
    }
    let (mut wi, mut wo) = (Weather::draw(sim), Weather::draw(sim));
    let broken = sim.chance(1, 6);
    if broken {
        wi.read_error(sim, text.len());
    }
    let n = want.as_ref().map_or(0, |w| w.len());
    let full = n > 0 && sim.chance(1, 4);
    if full {
        wo.write_error(sim, n);
    } else if sim.chance(1, 8) {
        wo.flush_fails = true;
        sim.count_fault("flush fails");
    }
    let buffered = sim.chance(1, 2);
    sim.log(format!("decode {what} sized={sized} in {wi:?} out {wo:?} buffered={buffered}"));
    let r = SimReader::new(text, &wi);
    let mut out = SimWriter::new(&wo);
    let cap = *sim.pick(&[8192, 64, 1 << 20]);
    let res = guard(|| if buffered { blobs::decode::to_writer_from_json(r, BufWriter::with_capacity(cap, &mut out), mode(sized)) } else { blobs::decode::to_writer_from_json(r, &mut out, mode(sized)) });
    match res {
        Err(p) => sim.violate(P, "panic", format!("decoding {what}: {} at {}", p.message, p.location)),
        Ok(Err(e)) => {
            sim.log(format!("  refused: {e}"));
            if broken {
                sim.probe("read error reported");
            } else if out.failed {
                sim.probe("write error reported");
                // what came out before is a prefix
                if want.as_ref().is_some_and(|w| !w.starts_with(&out.out) && !(!sized && out.out.starts_with(w))) {
                    sim.violate(P, "decoded payload differs", format!("decoding {what}: bytes written before the error are wrong"));
                }
            } else {
                judge_decoded(sim, None, want.as_deref(), sized, what);
            }
        }
        Ok(Ok(())) => {
            if broken {
                sim.violate(P, "read error swallowed", format!("decoding {what}: success although reading failed at {:?}", wi.fail_at));
            } else if full || (wo.flush_fails && out.failed) {
                if out.failed || out.out.len() < n {
                    sim.violate(P, "write error swallowed", format!("decoding {what}: success although writing failed, {} of {n} bytes written", out.out.len()));
                }
            } else {
                let got = out.out.clone();
                judge_decoded(sim, Some(&got), want.as_deref(), sized, what);
            }
        }
    }
}
fn damage(sim: &mut Sim, text: &mut Vec<u8>) -> &'static str {
    // somewhere in the few bytes of structure, or anywhere
    let n = text.len() as u64;
    let at = match sim.choose(3) {
        0 => sim.choose(n.min(12)),
        1 => n - 1 - sim.choose(n.min(12)),
        _ => sim.choose(n),
    } as usize;
    let name = match sim.choose(6) {
        0 => {
            text.truncate(at);
            "input cut short"
        }
        1 => {
            text[at] ^= 1 << sim.choose(8);
            "input bit flipped"
        }
        2 => {
            text.remove(at);
            "input byte lost"
        }
        3 => {
            let b = *sim.pick(b"0\"g],x");
            text.insert(at, b);
            "input byte added"
        }
        4 => {
            text.extend(sim.pick(&[&b"]"[..], b"x", b"[]", b"0", b"\0"]).iter());
            "input extended"
        }
        _ => {
            let k = (1 + sim.choose(64) as usize).min(text.len() - at);
            text.drain(at..at + k);
            "input bytes lost"
        }
    };
    sim.count_fault(name);
    name
}
/// blobs that no encoder wrote
fn foreign(sim: &mut Sim) -> (Vec<Vec<u8>>, &'static str) {
    let n = sim.choose(4) as usize;
    let mut b: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let mut b = sim.bytes(BLOB);
            b.iter_mut().step_by(32).for_each(|x| *x &= 0x3f);
            b
        })
        .collect();
    if n == 0 {
        return (b, "no blobs");
    }
    let total = n * BLOB;
    match sim.choose(7) {
        0 => return (b, "arbitrary blobs"),
        1 => {
            // a header over arbitrary blobs
            let len = sim.choose((n * CAPACITY) as u64 - 4) as u32;
            header(&mut b[0], 0, len);
            (b, "arbitrary blobs behind a header")
        }
        2 => {
            let v = 1 + sim.choose(255) as u8;
            header(&mut b[0], v, 3);
            (b, "unknown framing version")
        }
        3 => {
            // around what is there: nothing the encoder writes exceeds the capacity in bits
            let len = total as u64 - 5 + sim.choose(7);
            header(&mut b[0], 0, len as u32);
            (b, "size around the end of the stream")
        }
        4 => {
            let len = sim.range(total as u64 + 1, u32::MAX as u64);
            header(&mut b[0], 0, len as u32);
            (b, "size beyond the stream")
        }
        5 => {
            let i = sim.choose(n as u64) as usize;
            let k = *sim.pick(&[BLOB - 1, BLOB - 32, BLOB + 1, BLOB + 32, 0, BLOB * 2]);
            b[i].resize(k, 0);
            (b, "blob of the wrong size")
        }
        _ => {
            header(&mut b[0], 0, 0);
            (b, "empty payload")
        }
    }
}
fn header(b: &mut [u8], version: u8, len: u32) {
    let mut h = vec![version];
    h.extend(len.to_be_bytes());
    // 40 bits from bit 2 on
    for k in 0..40 {
        let bit = h[k / 8] >> (7 - k % 8) & 1;
        let at = k + 2;
        b[at / 8] = b[at / 8] & !(1 << (7 - at % 8)) | bit << (7 - at % 8);
    }
}
fn bundle(sim: &mut Sim, blobs: &[Vec<u8>]) {
    let mut text = json_of(blobs, sim.chance(1, 2));
    let damaged = sim.chance(1, 4).then(|| damage(sim, &mut text));
    let mut w = Weather::draw(sim);
    let broken = sim.chance(1, 5);
    if broken {
        w.read_error(sim, text.len());
    }
    let want = blobs_of_json(&text).filter(|b| b.iter().all(|b| canonical(b)));
    sim.log(format!("bundle {} blobs, damage {damaged:?}, {w:?}", blobs.len()));
    let r = SimReader::new(&text, &w);
    match guard(|| blobs::bundler::from_reader(r)) {
        Err(p) => sim.violate(P, "panic", format!("bundling: {} at {}", p.message, p.location)),
        Ok(Err(e)) => {
            sim.log(format!("  refused: {e}"));
            if broken {
                sim.probe("read error reported");
            } else if want.is_some() {
                sim.violate(P, "valid blobs refused", format!("bundling {} blobs: {e}", blobs.len()));
            } else {
                sim.probe("refused");
            }
        }
        Ok(Ok(b)) => {
            if broken {
                return sim.violate(P, "read error swallowed", "bundling succeeded although reading failed");
            }
            match want {
                None => sim.violate(P, "malformed input accepted", format!("bundling accepted bad blobs ({damaged:?})")),
                Some(want) => judge_bundle(sim, &b, &want, "bundle"),
            }
        }
    }
}
fn judge_bundle(sim: &mut Sim, b: &BlobsBundle, blobs: &[Vec<u8>], how: &str) {
    let same = b.blobs.len() == blobs.len() && b.blobs.iter().zip(blobs).all(|(a, b)| a.as_ref() == &b[..]);
    if !same || b.commitments.len() != blobs.len() || b.proofs.len() != blobs.len() {
        return sim.violate(P, "bundle", format!("{how}: {} commitments, {} proofs, {} blobs for {} blobs", b.commitments.len(), b.proofs.len(), b.blobs.len(), blobs.len()));
    }
    let s = settings();
    for i in 0..blobs.len() {
        let c = ethereum_consensus::crypto::kzg::blob_to_kzg_commitment(&Blob::try_from(&blobs[i][..]).unwrap(), &s);
        let p = c.as_ref().ok().map(|c| ethereum_consensus::crypto::kzg::compute_blob_kzg_proof(&Blob::try_from(&blobs[i][..]).unwrap(), c, &s));
        let ok = c.is_ok_and(|c| c.as_ref() == b.commitments[i].as_ref()) && matches!(p, Some(Ok(p)) if p.as_ref() == b.proofs[i].as_ref());
        if !ok {
            return sim.violate(P, "bundle", format!("{how}: commitment or proof {i} of {} is not that of its blob", blobs.len()));
        }
    }
    sim.probe("bundle checked");
}
/// whole commands over standard input and output
fn command(sim: &mut Sim) {
    let sized = sim.chance(2, 3);
    let n = size(sim, sized);
    let data = content(sim, n);
    let kind = sim.choose(3);
    let blobs = pack(&if sized { framed(&data) } else { data.clone() });
    let (args, mut input): (Vec<&str>, Vec<u8>) = match kind {
        0 => (vec!["blobs", "encode"], data.clone()),
        1 => (vec!["blobs", "decode"], json_of(&blobs, sim.chance(1, 2))),
        _ => (vec!["blobs", "bundle"], json_of(&blobs[..1], true)),
    };
    let mut args = args;
    if kind < 2 && (!sized || sim.chance(1, 2)) {
        args.push(if sized { "sized" } else { "raw" });
    }
    let damaged = (kind > 0 && sim.chance(1, 5)).then(|| damage(sim, &mut input));
    let (mut wi, mut wo) = (Weather::draw(sim), Weather::draw(sim));
    let broken = sim.chance(1, 6);
    if broken {
        wi.read_error(sim, input.len());
    }
    // the size of the output, as far as it is known
    let len = match kind {
        0 => blobs.len() * (2 * BLOB + 8),
        1 => expected(&input, sized).map_or(0, |x| x.len()),
        _ => 2 * BLOB,
    };
    let full = !broken && len > 0 && sim.chance(1, 4);
    if full {
        wo.write_error(sim, len);
    }
    sim.log(format!("ec {} with {} in {wi:?} out {wo:?} damage {damaged:?}", args.join(" "), short(&data)));
    let ran = stdio::run(&args, &input, &wi, &wo);
    sim.probe("command run");
    if kind == 1 && unspecified(&input, sized) && ran.result.is_ok() {
        return;
    }
    match ran.result {
        Err(p) => {
            let kind = if ran.write_failed { "panic on a write error" } else if broken { "panic on a read error" } else { "panic" };
            sim.violate(P, kind, format!("ec {}: {p}", args.join(" ")));
        }
        Ok(Err(e)) => {
            sim.log(format!("  refused: {e}"));
            if broken {
                sim.probe("read error reported");
            } else if ran.write_failed {
                sim.probe("write error reported");
            } else if match kind {
                0 => true,
                1 => expected(&input, sized).is_some(),
                _ => blobs_of_json(&input).is_some_and(|b| b.iter().all(|b| canonical(b))),
            } {
                sim.violate(P, "payload refused", format!("ec {}: {e}", args.join(" ")));
            }
        }
        Ok(Ok(())) => {
            if ran.write_failed {
                return sim.violate(P, "write error swallowed", format!("ec {}: success although writing failed after {} bytes", args.join(" "), ran.output.len()));
            }
            if broken {
                return sim.violate(P, "read error swallowed", format!("ec {}: success although reading failed", args.join(" ")));
            }
            match kind {
                0 => match blobs_of_json(&ran.output) {
                    Some(b) => judge_blobs(sim, &b, &data, sized, "ec blobs encode"),
                    None => sim.violate(P, "invalid blob", "ec blobs encode did not write a list of blobs".to_string()),
                },
                1 => {
                    let want = expected(&input, sized);
                    judge_decoded(sim, Some(&ran.output), want.as_deref(), sized, "ec blobs decode");
                }
                _ => {
                    let want = blobs_of_json(&input).filter(|b| b.iter().all(|b| canonical(b)));
                    match (serde_json::from_slice::<BlobsBundle>(&ran.output), want) {
                        (Ok(b), Some(want)) => judge_bundle(sim, &b, &want, "ec blobs bundle"),
                        (_, None) => sim.violate(P, "malformed input accepted", "ec blobs bundle accepted bad blobs".to_string()),
                        (Err(e), _) => sim.violate(P, "bundle", format!("ec blobs bundle wrote no bundle: {e}")),
                    }
                }
            }
        }
    }
}

pub fn run(sim: &mut Sim) {
    sim.nontrivial = true;
    let scene = sim.choose(if sim.thorough { 12 } else { 11 });
    match scene {
        // there and back again
        0..=4 => {
            let sized = sim.chance(2, 3);
            let n = size(sim, sized);
            let data = content(sim, n);
            sim.state_of(&format!("{} {sized} {}", n / CAPACITY, n % CAPACITY));
            if let Some(b) = encode(sim, &data, sized) {
                if sim.violations.is_empty() {
                    let text = json_of(&b, sim.chance(1, 2));
                    decode(sim, &text, sized, "what was encoded");
                    if sim.chance(1, 8) {
                        bundle(sim, &b[..1]);
                    }
                }
            }
        }
        5 => {
            let sized = sim.chance(2, 3);
            let n = size(sim, sized);
            let data = content(sim, n);
            let b = pack(&if sized { framed(&data) } else { data.clone() });
            let mut text = json_of(&b, sim.chance(1, 2));
            let d = damage(sim, &mut text);
            sim.state_of(d);
            decode(sim, &text, sized, d);
        }
        6 => {
            let (b, what) = foreign(sim);
            sim.state_of(what);
            let sized = sim.chance(3, 4);
            let text = json_of(&b, false);
            decode(sim, &text, sized, what);
        }
        7 => {
            let n = sim.choose(3) as usize;
            let mut b: Vec<Vec<u8>> = (0..n).map(|_| sim.bytes(BLOB)).collect();
            b.iter_mut().for_each(|b| b.iter_mut().step_by(32).for_each(|x| *x &= 0x3f));
            if n > 0 && sim.chance(1, 3) {
                // not a field element, somewhere
                let (i, e) = (sim.choose(n as u64) as usize, sim.choose(ELEMENTS as u64) as usize);
                let r = hex::decode("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001").unwrap();
                b[i][e * 32..e * 32 + 32].copy_from_slice(&r);
                if sim.chance(1, 2) {
                    // the largest that is
                    b[i][e * 32 + 31] = 0;
                }
                sim.count_fault("element at the modulus");
            }
            sim.state_of(&format!("bundle {n}"));
            bundle(sim, &b);
        }
        _ => {
            sim.state_of("command");
            command(sim)
        }
    }
}

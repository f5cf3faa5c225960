//! payloads come back from blobs as they were
include!(concat!(env!("OUT_DIR"), "/ec.rs"));
use blobs::{decode, encode, framing::Mode};
fn main() {
    for (len, zeros) in [(10, 0..0), (200, 0..0), (200, 40..160), (5000, 100..4000), (130_000, 31..90), (300_000, 1000..200_000), (64, 0..64), (70, 32..69)] {
        let mut payload: Vec<u8> = (0..len).map(|i| (i % 255) as u8 + 1).collect();
        payload[zeros.clone()].fill(0);
        let blobs = encode::from_reader(&payload[..], Mode::Sized).unwrap();
        let text = serde_json::to_vec(&blobs).unwrap();
        let mut out = vec![];
        let r = decode::to_writer_from_json(&text[..], &mut out, Mode::Sized);
        if r.is_err() || out != payload {
            println!("{len} bytes with zeros at {zeros:?} came back differently: {r:?}");
            std::process::exit(1);
        }
    }
}

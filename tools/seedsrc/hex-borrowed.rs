//! bytes decode alike from a buffer, a reader, a tree and escaped text
mod kit;
use ethereum_consensus::{primitives::ExecutionAddress, ssz::prelude::{ByteList, ByteVector}};
fn all<T: serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(s: &str) {
    let text = format!("\"{s}\"");
    let escaped = format!("\"\\u0030{}\"", &s[1..]);
    let a: T = serde_json::from_str(&text).unwrap();
    for (how, b) in [
        ("reader", serde_json::from_reader::<_, T>(text.as_bytes())),
        ("tree", serde_json::from_value(serde_json::Value::String(s.into()))),
        ("escaped", serde_json::from_str(&escaped)),
        ("reader, escaped", serde_json::from_reader(escaped.as_bytes())),
    ] {
        kit::check(b.as_ref().is_ok_and(|b| *b == a), &format!("{how}: {b:?}"));
    }
}
fn main() {
    all::<ByteVector<4>>("0x01020304");
    all::<ByteList<32>>("0x0102");
    all::<ExecutionAddress>(&format!("0x{}", "ab".repeat(20)));
}

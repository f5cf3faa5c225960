//! the signature at infinity stands only for an empty list
mod kit;
use ethereum_consensus::crypto::{eth_fast_aggregate_verify, PublicKey, SecretKey, Signature};
fn main() {
    let mut bytes = [0u8; 96];
    bytes[0] = 0xc0;
    let infinity = Signature::try_from(&bytes[..]).unwrap();
    let key = SecretKey::key_gen(&[7; 32]).unwrap().public_key();
    let nowhere = PublicKey::try_from(&bytes[..48]).unwrap();
    kit::check(eth_fast_aggregate_verify(&[], b"message", &infinity).is_ok(), "the empty list is refused");
    kit::check(eth_fast_aggregate_verify(&[&key], b"message", &infinity).is_err(), "nobody signed for a key, accepted");
    kit::check(eth_fast_aggregate_verify(&[&nowhere], b"message", &infinity).is_err(), "a key at infinity is accepted");
    kit::check(eth_fast_aggregate_verify(&[&nowhere, &nowhere], b"message", &infinity).is_err(), "keys at infinity are accepted");
}

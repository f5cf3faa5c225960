//! a key that holds two seats signs twice
mod kit;
use ethereum_consensus::crypto::{aggregate, fast_aggregate_verify, SecretKey};
fn main() {
    let keys: Vec<SecretKey> = (1..5u8).map(|i| SecretKey::key_gen(&[i; 32]).unwrap()).collect();
    let public: Vec<_> = keys.iter().map(|k| k.public_key()).collect();
    let signed: Vec<_> = keys.iter().map(|k| k.sign(b"message")).collect();
    let seats = [&public[0], &public[1], &public[1], &public[3]];
    let full = aggregate(&[signed[0].clone(), signed[1].clone(), signed[1].clone(), signed[3].clone()]).unwrap();
    let short = aggregate(&[signed[0].clone(), signed[1].clone(), signed[3].clone()]).unwrap();
    kit::check(fast_aggregate_verify(&seats, b"message", &full).is_ok(), "the aggregate of all seats is refused");
    kit::check(fast_aggregate_verify(&seats, b"message", &short).is_err(), "an aggregate that lacks a seat is accepted");
}

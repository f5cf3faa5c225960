//! a signature outside the group is not aggregated
mod kit;
use ethereum_consensus::crypto::{aggregate, verify_signature, SecretKey, Signature};
fn main() {
    let keys: Vec<SecretKey> = (1..5u8).map(|i| SecretKey::key_gen(&[i; 32]).unwrap()).collect();
    let mut signatures: Vec<Signature> = keys.iter().map(|k| k.sign(b"message")).collect();
    kit::check(aggregate(&signatures).is_ok(), "good signatures do not aggregate");
    let off = blst::off_group(signatures[2].as_ref(), 3).unwrap();
    signatures[2] = Signature::try_from(&off[..]).unwrap();
    kit::check(verify_signature(&keys[2].public_key(), b"message", &signatures[2]).is_err(), "a signature outside the group verifies");
    kit::check(aggregate(&signatures).is_err(), "a signature outside the group is aggregated");
}

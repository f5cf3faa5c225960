#![allow(dead_code)]
use ethereum_consensus::{
    crypto::SecretKey,
    phase0::Validator,
    primitives::{BlsPublicKey, Bytes32},
};
pub const GWEI: u64 = 1_000_000_000;
pub const FAR: u64 = u64::MAX;
pub fn key(i: u64) -> SecretKey {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&(i + 1).to_be_bytes());
    SecretKey::try_from(&b[..]).unwrap()
}
pub fn pk(i: u64) -> BlsPublicKey {
    key(i).public_key()
}
/// an active validator with 32 ether and an execution address
pub fn validator(i: u64) -> Validator {
    let mut c = [0u8; 32];
    c[0] = 1;
    c[31] = i as u8;
    Validator {
        public_key: pk(i),
        withdrawal_credentials: Bytes32::try_from(&c[..]).unwrap(),
        effective_balance: 32 * GWEI,
        slashed: false,
        activation_eligibility_epoch: 0,
        activation_epoch: 0,
        exit_epoch: FAR,
        withdrawable_epoch: FAR,
    }
}
pub fn check(x: bool, what: &str) {
    if !x {
        println!("{what}");
        std::process::exit(1);
    }
}
#[macro_export]
macro_rules! populate {
    ($state:ident, $n:expr) => {
        for i in 0..$n {
            $state.validators.push(kit::validator(i as u64));
            $state.balances.push(32 * kit::GWEI);
        }
    };
}

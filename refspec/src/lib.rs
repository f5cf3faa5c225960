//! Executable model of the consensus specification (phase0 to deneb v1.4, electra v1.5.0-alpha.2), written from
//! the specification, sharing no code with the crate under test.
pub mod block;
pub mod epoch;
pub mod help;
pub mod make;
pub mod ssz;
pub mod types;
pub use block::*;
pub use epoch::*;
pub use help::*;
pub use make::*;
pub use ssz::{Root, V};
pub use types::*;

/// why the specification refuses
#[derive(Clone, Debug, PartialEq)]
pub struct No(pub &'static str);
pub type R<T = ()> = Result<T, No>;
pub fn need(c: bool, why: &'static str) -> R {
    if c {
        Ok(())
    } else {
        Err(No(why))
    }
}

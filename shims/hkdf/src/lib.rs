//! Stand-in for `hkdf` over SHA-256.
use std::marker::PhantomData;
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct InvalidLength;
impl std::fmt::Display for InvalidLength {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid number of blocks, too large output")
    }
}
impl std::error::Error for InvalidLength {}
pub trait IsSha256 {}
impl IsSha256 for sha2::Sha256 {}
#[derive(Clone)]
pub struct Hkdf<H: IsSha256>([u8; 32], PhantomData<H>);
impl<H: IsSha256> Hkdf<H> {
    pub fn new(salt: Option<&[u8]>, ikm: &[u8]) -> Self {
        Self(simcrypto::hkdf_extract(salt.unwrap_or(&[0; 32]), ikm), PhantomData)
    }
    pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), InvalidLength> {
        simcrypto::hkdf_expand(&self.0, info, okm).map_err(|_| InvalidLength)
    }
    pub fn expand_multi_info(&self, info: &[&[u8]], okm: &mut [u8]) -> Result<(), InvalidLength> {
        self.expand(&info.concat(), okm)
    }
}

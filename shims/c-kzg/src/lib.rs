//! Stand-in for `c-kzg` (C sources not available offline): exact KZG algebra with the group
//! elements modelled by their discrete logarithms and a fixed, known `tau`.
use simcrypto::{fr::Fr, sha256};
use std::{
    fmt,
    ops::Deref,
    sync::{Arc, OnceLock},
};

pub const BYTES_PER_BLOB: usize = 131072;
pub const FIELD_ELEMENTS_PER_BLOB: usize = 4096;
pub const BYTES_PER_COMMITMENT: usize = 48;
pub const BYTES_PER_PROOF: usize = 48;
pub const BYTES_PER_FIELD_ELEMENT: usize = 32;

#[derive(Debug)]
pub enum Error {
    InvalidBytesLength(String),
    InvalidHexFormat(String),
    InvalidKzgProof(String),
    InvalidKzgCommitment(String),
    InvalidTrustedSetup(String),
    MismatchLength(String),
    CError(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

macro_rules! bytes {
    ($t:ident, $n:expr) => {
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $t([u8; $n]);
        impl $t {
            pub const fn new(b: [u8; $n]) -> Self {
                Self(b)
            }
            pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
                b.try_into().map(Self).map_err(|_| {
                    Error::InvalidBytesLength(format!("expected {} got {}", $n, b.len()))
                })
            }
            pub fn as_slice(&self) -> &[u8] {
                &self.0
            }
            pub fn into_inner(self) -> [u8; $n] {
                self.0
            }
        }
        impl Deref for $t {
            type Target = [u8; $n];
            fn deref(&self) -> &Self::Target {
                &self.0
            }
        }
        impl AsRef<[u8]> for $t {
            fn as_ref(&self) -> &[u8] {
                &self.0
            }
        }
        impl From<[u8; $n]> for $t {
            fn from(b: [u8; $n]) -> Self {
                Self(b)
            }
        }
    };
}
bytes!(Bytes32, 32);
bytes!(Bytes48, 48);
bytes!(KzgProof, 48);
bytes!(KzgCommitment, 48);
impl KzgProof {
    pub fn to_bytes(&self) -> Bytes48 {
        Bytes48(self.0)
    }
}
impl KzgCommitment {
    pub fn to_bytes(&self) -> Bytes48 {
        Bytes48(self.0)
    }
}

#[derive(Clone)]
pub struct Blob(Box<[u8]>);
impl Blob {
    pub fn new(b: [u8; BYTES_PER_BLOB]) -> Self {
        Blob(b.to_vec().into())
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        if b.len() != BYTES_PER_BLOB {
            return Err(Error::InvalidBytesLength(format!(
                "invalid byte length for blob: expected {BYTES_PER_BLOB} got {}",
                b.len()
            )));
        }
        Ok(Blob(b.into()))
    }
    fn elements(&self) -> Result<Vec<Fr>, Error> {
        self.0
            .chunks(32)
            .map(|c| {
                Fr::from_be(c.try_into().unwrap()).ok_or(Error::CError("C_KZG_BADARGS".into()))
            })
            .collect()
    }
}
impl Deref for Blob {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

pub struct KzgSettings {
    tau: Fr,
    roots: Vec<Fr>,
    lagrange: Vec<Fr>,
}
impl fmt::Debug for KzgSettings {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "KzgSettings")
    }
}

pub fn ethereum_kzg_settings_arc(_precompute: u64) -> Arc<KzgSettings> {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| Arc::new(KzgSettings::build())).clone()
}
pub fn ethereum_kzg_settings(precompute: u64) -> &'static KzgSettings {
    static S: OnceLock<Arc<KzgSettings>> = OnceLock::new();
    S.get_or_init(|| ethereum_kzg_settings_arc(precompute))
}

fn enc(s: &Fr) -> [u8; 48] {
    let mut o = [0u8; 48];
    if s.is_zero() {
        o[0] = 0xc0;
        return o;
    }
    let b = s.to_be();
    o[0] = 0x80;
    o[16..].copy_from_slice(&b);
    o[1..16].copy_from_slice(&sha256(&[b"kzg", &b])[..15]);
    o
}
fn dec(b: &[u8; 48]) -> Result<Fr, Error> {
    if b[0] == 0xc0 && b[1..].iter().all(|x| *x == 0) {
        return Ok(Fr::ZERO);
    }
    let s = Fr::from_be(b[16..].try_into().unwrap()).ok_or(Error::CError("C_KZG_BADARGS".into()))?;
    if enc(&s) != *b {
        return Err(Error::CError("C_KZG_BADARGS".into()));
    }
    Ok(s)
}
fn batch_inv(v: &[Fr]) -> Vec<Fr> {
    let mut acc = Fr::one();
    let mut pre = vec![];
    for x in v {
        pre.push(acc);
        acc = acc.mul(*x);
    }
    let mut inv = acc.inv();
    let mut out = vec![Fr::ZERO; v.len()];
    for i in (0..v.len()).rev() {
        out[i] = inv.mul(pre[i]);
        inv = inv.mul(v[i]);
    }
    out
}
impl KzgSettings {
    fn build() -> Self {
        let n = FIELD_ELEMENTS_PER_BLOB;
        // primitive root 7: w = 7^((r-1)/n)
        let mut e = simcrypto::fr::R;
        e[0] -= 1;
        for _ in 0..12 {
            for i in 0..4 {
                e[i] >>= 1;
                if i < 3 {
                    e[i] |= e[i + 1] << 63;
                }
            }
        }
        let w = Fr::from_u64(7).pow(&e);
        let mut nat = vec![Fr::one()];
        for i in 1..n {
            nat.push(nat[i - 1].mul(w));
        }
        let roots: Vec<Fr> =
            (0..n).map(|i| nat[(i as u32).reverse_bits() as usize >> (32 - 12)]).collect();
        let tau = Fr::reduce_be(&sha256(&[b"simulated trusted setup"]));
        let mut s = KzgSettings { tau, roots, lagrange: vec![] };
        s.lagrange = s.lagrange_at(tau);
        s
    }
    fn lagrange_at(&self, x: Fr) -> Vec<Fr> {
        let n = self.roots.len();
        if let Some(i) = self.roots.iter().position(|r| *r == x) {
            let mut v = vec![Fr::ZERO; n];
            v[i] = Fr::one();
            return v;
        }
        let mut xn = x;
        for _ in 0..12 {
            xn = xn.mul(xn);
        }
        let k = xn.sub(Fr::one()).mul(Fr::from_u64(n as u64).inv());
        let d: Vec<Fr> = self.roots.iter().map(|r| x.sub(*r)).collect();
        batch_inv(&d).iter().zip(&self.roots).map(|(i, r)| i.mul(*r).mul(k)).collect()
    }
    fn eval(&self, p: &[Fr], x: Fr) -> Fr {
        let l = self.lagrange_at(x);
        p.iter().zip(&l).fold(Fr::ZERO, |a, (p, l)| a.add(p.mul(*l)))
    }
    fn at_tau(&self, p: &[Fr]) -> Fr {
        p.iter().zip(&self.lagrange).fold(Fr::ZERO, |a, (p, l)| a.add(p.mul(*l)))
    }
    fn challenge(&self, blob: &Blob, c: &[u8]) -> Fr {
        Fr::reduce_be(&sha256(&[b"FSBLOBVERIFY_V1_", blob, c]))
    }
    fn scalar(b: &Bytes32) -> Result<Fr, Error> {
        Fr::from_be(&b.0).ok_or(Error::CError("C_KZG_BADARGS".into()))
    }
    pub fn blob_to_kzg_commitment(&self, blob: &Blob) -> Result<KzgCommitment, Error> {
        Ok(KzgCommitment(enc(&self.at_tau(&blob.elements()?))))
    }
    fn prove(&self, p: &[Fr], z: Fr) -> (Fr, Fr) {
        let y = self.eval(p, z);
        let q = self.at_tau(p).sub(y).mul(self.tau.sub(z).inv());
        (q, y)
    }
    pub fn compute_kzg_proof(&self, blob: &Blob, z: &Bytes32) -> Result<(KzgProof, Bytes32), Error> {
        let (q, y) = self.prove(&blob.elements()?, Self::scalar(z)?);
        Ok((KzgProof(enc(&q)), Bytes32(y.to_be())))
    }
    pub fn compute_blob_kzg_proof(&self, blob: &Blob, c: &Bytes48) -> Result<KzgProof, Error> {
        dec(&c.0)?;
        let z = self.challenge(blob, &c.0);
        Ok(KzgProof(enc(&self.prove(&blob.elements()?, z).0)))
    }
    pub fn verify_kzg_proof(
        &self,
        c: &Bytes48,
        z: &Bytes32,
        y: &Bytes32,
        proof: &Bytes48,
    ) -> Result<bool, Error> {
        let (c, z, y, q) = (dec(&c.0)?, Self::scalar(z)?, Self::scalar(y)?, dec(&proof.0)?);
        Ok(c.sub(y) == q.mul(self.tau.sub(z)))
    }
    pub fn verify_blob_kzg_proof(
        &self,
        blob: &Blob,
        c: &Bytes48,
        proof: &Bytes48,
    ) -> Result<bool, Error> {
        let (cc, q) = (dec(&c.0)?, dec(&proof.0)?);
        let z = self.challenge(blob, &c.0);
        let y = self.eval(&blob.elements()?, z);
        Ok(cc.sub(y) == q.mul(self.tau.sub(z)))
    }
    pub fn verify_blob_kzg_proof_batch(
        &self,
        blobs: &[Blob],
        cs: &[Bytes48],
        ps: &[Bytes48],
    ) -> Result<bool, Error> {
        if blobs.len() != cs.len() || blobs.len() != ps.len() {
            return Err(Error::MismatchLength("batch".into()));
        }
        let mut ok = true;
        for i in 0..blobs.len() {
            ok &= self.verify_blob_kzg_proof(&blobs[i], &cs[i], &ps[i])?;
        }
        Ok(ok)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn kzg() {
        let s = ethereum_kzg_settings(0);
        let mut b = vec![0u8; BYTES_PER_BLOB];
        for i in 0..4096 {
            b[i * 32 + 7] = i as u8;
            b[i * 32 + 30] = (i * 7) as u8;
        }
        let blob = Blob::from_bytes(&b).unwrap();
        let c = s.blob_to_kzg_commitment(&blob).unwrap().to_bytes();
        let p = s.compute_blob_kzg_proof(&blob, &c).unwrap().to_bytes();
        assert!(s.verify_blob_kzg_proof(&blob, &c, &p).unwrap());
        b[40] ^= 1;
        let blob = Blob::from_bytes(&b).unwrap();
        assert!(!s.verify_blob_kzg_proof(&blob, &c, &p).unwrap());
        // constant polynomial commits to the constant
        let one: Vec<Fr> = vec![Fr::one(); 4096];
        assert_eq!(s.at_tau(&one), Fr::one());
    }
}

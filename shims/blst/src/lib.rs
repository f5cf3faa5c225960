//! Stand-in for the `blst` crate (C sources not available offline).
//!
//! The groups are modelled by their discrete logarithms: a public key is the scalar `sk`, a
//! signature the scalar `sk * H(msg)`, aggregation is addition and the pairing check is the
//! equality `pk * H(msg) == sig`.  Points of the curve outside the prime-order group have a second
//! component of small order, which pairings do not see and only the group checks notice.  Every algebraic property the consensus code relies on
//! (aggregation, linearity, infinity handling, rejection of malformed encodings) is exact; secrecy
//! is of course absent, which the simulation does not need.
#![allow(non_camel_case_types)]
use simcrypto::{fr::Fr, sha256};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum BLST_ERROR {
    BLST_SUCCESS = 0,
    BLST_BAD_ENCODING = 1,
    BLST_POINT_NOT_ON_CURVE = 2,
    BLST_POINT_NOT_IN_GROUP = 3,
    BLST_AGGR_TYPE_MISMATCH = 4,
    BLST_VERIFY_FAIL = 5,
    BLST_PK_IS_INFINITY = 6,
    BLST_BAD_SCALAR = 7,
}
use BLST_ERROR::*;

fn h(msg: &[u8], dst: &[u8], aug: &[u8]) -> Fr {
    let a = sha256(&[&(dst.len() as u64).to_le_bytes(), dst, aug, msg, b"0"]);
    let b = sha256(&[&(dst.len() as u64).to_le_bytes(), dst, aug, msg, b"1"]);
    let mut v = a.to_vec();
    v.extend_from_slice(&b);
    let x = Fr::reduce_be(&v);
    if x.is_zero() {
        Fr::one()
    } else {
        x
    }
}
/// the order of the part of the curve outside the group
const SMALL: u8 = 7;
/// a point: its discrete logarithm and its component of small order
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Point(pub Fr, pub u8);
impl Point {
    fn add(self, o: Point) -> Point {
        Point(self.0.add(o.0), (self.1 + o.1) % SMALL)
    }
    fn is_inf(&self) -> bool {
        self.0.is_zero() && self.1 == 0
    }
    fn in_group(&self) -> Result<(), BLST_ERROR> {
        if self.1 == 0 {
            Ok(())
        } else {
            Err(BLST_POINT_NOT_IN_GROUP)
        }
    }
    fn scalar(s: Fr) -> Point {
        Point(s, 0)
    }
}
fn encode<const N: usize>(p: &Point, tag: u8) -> [u8; N] {
    let mut o = [0u8; N];
    if p.is_inf() {
        o[0] = 0xc0;
        return o;
    }
    let b = p.0.to_be();
    o[0] = 0x80;
    o[N - 32..].copy_from_slice(&b);
    let c = sha256(&[&[tag | p.1 << 4], &b]);
    let n = (N - 33).min(32);
    o[1..1 + n].copy_from_slice(&c[..n]);
    // like a real compressed point, use the sign bit too
    if c[31] & 1 == 1 {
        o[0] |= 0x20;
    }
    o
}
fn decode<const N: usize>(b: &[u8], tag: u8) -> Result<Point, BLST_ERROR> {
    if b.len() != N {
        return Err(BLST_BAD_ENCODING);
    }
    if b[0] & 0x80 == 0 {
        return Err(BLST_BAD_ENCODING);
    }
    if b[0] & 0x40 != 0 {
        if b[0] != 0xc0 || b[1..].iter().any(|x| *x != 0) {
            return Err(BLST_BAD_ENCODING);
        }
        return Ok(Point::default());
    }
    let s = Fr::from_be(b[N - 32..].try_into().unwrap()).ok_or(BLST_POINT_NOT_ON_CURVE)?;
    for t in 0..SMALL {
        let p = Point(s, t);
        if !p.is_inf() && encode::<N>(&p, tag)[..] == *b {
            return Ok(p);
        }
    }
    Err(BLST_POINT_NOT_ON_CURVE)
}
/// for simulations: a public key or signature with a component outside the group
pub fn off_group(b: &[u8], t: u8) -> Option<Vec<u8>> {
    match b.len() {
        48 => decode::<48>(b, 1).ok().map(|p| encode::<48>(&Point(p.0, t % SMALL), 1).to_vec()),
        96 => decode::<96>(b, 2).ok().map(|p| encode::<96>(&Point(p.0, t % SMALL), 2).to_vec()),
        _ => None,
    }
}

pub mod min_pk {
    use super::*;

    #[derive(Clone, Default, Debug, PartialEq, Eq)]
    pub struct SecretKey(Fr);
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct PublicKey(Point);
    #[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
    pub struct Signature(Point);
    #[derive(Clone, Copy, Debug)]
    pub struct AggregatePublicKey(Point);
    #[derive(Clone, Copy, Debug)]
    pub struct AggregateSignature(Point);

    impl SecretKey {
        pub fn key_gen(ikm: &[u8], info: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(SecretKey(simcrypto::hkdf_mod_r(ikm, info, true)))
        }
        pub fn derive_master_eip2333(ikm: &[u8]) -> Result<Self, BLST_ERROR> {
            if ikm.len() < 32 {
                return Err(BLST_BAD_ENCODING);
            }
            Ok(SecretKey(simcrypto::hkdf_mod_r(ikm, &[], true)))
        }
        pub fn sk_to_pk(&self) -> PublicKey {
            PublicKey(Point::scalar(self.0))
        }
        pub fn sign(&self, msg: &[u8], dst: &[u8], aug: &[u8]) -> Signature {
            Signature(Point::scalar(self.0.mul(h(msg, dst, aug))))
        }
        pub fn serialize(&self) -> [u8; 32] {
            self.0.to_be()
        }
        pub fn to_bytes(&self) -> [u8; 32] {
            self.0.to_be()
        }
        pub fn deserialize(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::from_bytes(b)
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let a: &[u8; 32] = b.try_into().map_err(|_| BLST_BAD_ENCODING)?;
            match Fr::from_be(a) {
                Some(x) if !x.is_zero() => Ok(SecretKey(x)),
                _ => Err(BLST_BAD_ENCODING),
            }
        }
    }
    impl PublicKey {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            if self.0.is_inf() {
                Err(BLST_PK_IS_INFINITY)
            } else {
                self.0.in_group()
            }
        }
        pub fn key_validate(b: &[u8]) -> Result<Self, BLST_ERROR> {
            let k = Self::from_bytes(b)?;
            k.validate()?;
            Ok(k)
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(PublicKey(decode::<48>(b, 1)?))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::uncompress(b)
        }
        pub fn compress(&self) -> [u8; 48] {
            encode::<48>(&self.0, 1)
        }
        pub fn to_bytes(&self) -> [u8; 48] {
            self.compress()
        }
        pub fn from_aggregate(a: &AggregatePublicKey) -> Self {
            PublicKey(a.0)
        }
    }
    impl AggregatePublicKey {
        pub fn from_public_key(p: &PublicKey) -> Self {
            Self(p.0)
        }
        pub fn to_public_key(&self) -> PublicKey {
            PublicKey(self.0)
        }
        pub fn aggregate(pks: &[&PublicKey], pks_validate: bool) -> Result<Self, BLST_ERROR> {
            if pks.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            let mut s = Point::default();
            for p in pks {
                if pks_validate {
                    p.validate()?;
                }
                s = s.add(p.0);
            }
            Ok(Self(s))
        }
        pub fn add_public_key(&mut self, p: &PublicKey, v: bool) -> Result<(), BLST_ERROR> {
            if v {
                p.validate()?;
            }
            self.0 = self.0.add(p.0);
            Ok(())
        }
    }
    impl Signature {
        pub fn validate(&self, sig_infcheck: bool) -> Result<(), BLST_ERROR> {
            if sig_infcheck && self.0.is_inf() {
                return Err(BLST_PK_IS_INFINITY);
            }
            self.0.in_group()
        }
        pub fn sig_validate(b: &[u8], inf: bool) -> Result<Self, BLST_ERROR> {
            let s = Self::from_bytes(b)?;
            s.validate(inf)?;
            Ok(s)
        }
        pub fn verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            aug: &[u8],
            pk: &PublicKey,
            pk_validate: bool,
        ) -> BLST_ERROR {
            self.aggregate_verify_aug(sig_groupcheck, &[msg], dst, aug, &[pk], pk_validate)
        }
        fn aggregate_verify_aug(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            aug: &[u8],
            pks: &[&PublicKey],
            pks_validate: bool,
        ) -> BLST_ERROR {
            if pks.is_empty() || msgs.len() != pks.len() {
                return BLST_VERIFY_FAIL;
            }
            if sig_groupcheck {
                if let Err(e) = self.validate(false) {
                    return e;
                }
            }
            let mut s = Fr::ZERO;
            for (m, p) in msgs.iter().zip(pks) {
                if pks_validate {
                    if let Err(e) = p.validate() {
                        return e;
                    }
                }
                // pairings refuse keys at infinity, validated or not
                if p.0.is_inf() {
                    return BLST_PK_IS_INFINITY;
                }
                s = s.add(p.0.0.mul(h(m, dst, aug)));
            }
            if s == self.0.0 {
                BLST_SUCCESS
            } else {
                BLST_VERIFY_FAIL
            }
        }
        pub fn aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msgs: &[&[u8]],
            dst: &[u8],
            pks: &[&PublicKey],
            pks_validate: bool,
        ) -> BLST_ERROR {
            self.aggregate_verify_aug(sig_groupcheck, msgs, dst, &[], pks, pks_validate)
        }
        pub fn fast_aggregate_verify(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pks: &[&PublicKey],
        ) -> BLST_ERROR {
            let agg = match AggregatePublicKey::aggregate(pks, false) {
                Ok(a) => a.to_public_key(),
                Err(e) => return e,
            };
            self.aggregate_verify(sig_groupcheck, &[msg], dst, &[&agg], false)
        }
        pub fn fast_aggregate_verify_pre_aggregated(
            &self,
            sig_groupcheck: bool,
            msg: &[u8],
            dst: &[u8],
            pk: &PublicKey,
        ) -> BLST_ERROR {
            self.aggregate_verify(sig_groupcheck, &[msg], dst, &[pk], false)
        }
        pub fn from_aggregate(a: &AggregateSignature) -> Self {
            Signature(a.0)
        }
        pub fn compress(&self) -> [u8; 96] {
            encode::<96>(&self.0, 2)
        }
        pub fn to_bytes(&self) -> [u8; 96] {
            self.compress()
        }
        pub fn uncompress(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Ok(Signature(decode::<96>(b, 2)?))
        }
        pub fn from_bytes(b: &[u8]) -> Result<Self, BLST_ERROR> {
            Self::uncompress(b)
        }
    }
    impl AggregateSignature {
        pub fn validate(&self) -> Result<(), BLST_ERROR> {
            self.0.in_group()
        }
        pub fn from_signature(s: &Signature) -> Self {
            Self(s.0)
        }
        pub fn to_signature(&self) -> Signature {
            Signature(self.0)
        }
        pub fn aggregate(sigs: &[&Signature], groupcheck: bool) -> Result<Self, BLST_ERROR> {
            if sigs.is_empty() {
                return Err(BLST_AGGR_TYPE_MISMATCH);
            }
            if groupcheck {
                for s in sigs {
                    s.0.in_group()?;
                }
            }
            Ok(Self(sigs.iter().fold(Point::default(), |a, s| a.add(s.0))))
        }
        pub fn add_signature(&mut self, s: &Signature, g: bool) -> Result<(), BLST_ERROR> {
            if g {
                s.0.in_group()?;
            }
            self.0 = self.0.add(s.0);
            Ok(())
        }
    }
}

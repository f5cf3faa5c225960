//! Shared primitives for the stand-in crypto crates: the BLS12-381 scalar field, HMAC, HKDF, PBKDF2.
use sha2::{Digest, Sha256};

pub mod fr {
    /// Scalar field of BLS12-381 in Montgomery form.
    #[derive(Clone, Copy, PartialEq, Eq, Default, Debug, Hash)]
    pub struct Fr([u64; 4]);
    pub const R: [u64; 4] =
        [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];
    const INV: u64 = 0xfffffffeffffffff;
    const R2: [u64; 4] =
        [0xc999e990f3f29c6d, 0x2b6cedcb87925c23, 0x05d314967254398f, 0x0748d9d99f59ff11];

    fn ge(a: &[u64; 4], b: &[u64; 4]) -> bool {
        for i in (0..4).rev() {
            if a[i] != b[i] {
                return a[i] > b[i];
            }
        }
        true
    }
    fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let mut r = [0u64; 4];
        let mut bo = 0u64;
        for i in 0..4 {
            let (x, c1) = a[i].overflowing_sub(b[i]);
            let (x, c2) = x.overflowing_sub(bo);
            r[i] = x;
            bo = (c1 | c2) as u64;
        }
        r
    }
    fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let v = t[j] as u128 + a[i] as u128 * b[j] as u128 + c;
                t[j] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[4] = v as u64;
            t[5] = (v >> 64) as u64;
            let m = t[0].wrapping_mul(INV);
            let mut c = (t[0] as u128 + m as u128 * R[0] as u128) >> 64;
            for j in 1..4 {
                let v = t[j] as u128 + m as u128 * R[j] as u128 + c;
                t[j - 1] = v as u64;
                c = v >> 64;
            }
            let v = t[4] as u128 + c;
            t[3] = v as u64;
            t[4] = t[5] + (v >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || ge(&r, &R) {
            sub_raw(&r, &R)
        } else {
            r
        }
    }
    impl Fr {
        pub const ZERO: Fr = Fr([0; 4]);
        pub fn from_u64(v: u64) -> Fr {
            Fr(mont(&[v, 0, 0, 0], &R2))
        }
        pub fn one() -> Fr {
            Self::from_u64(1)
        }
        /// canonical big-endian bytes; `None` when not less than the group order
        pub fn from_be(b: &[u8; 32]) -> Option<Fr> {
            let mut l = [0u64; 4];
            for i in 0..4 {
                l[3 - i] = u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
            }
            if ge(&l, &R) {
                None
            } else {
                Some(Fr(mont(&l, &R2)))
            }
        }
        pub fn to_be(self) -> [u8; 32] {
            let l = mont(&self.0, &[1, 0, 0, 0]);
            let mut b = [0u8; 32];
            for i in 0..4 {
                b[i * 8..i * 8 + 8].copy_from_slice(&l[3 - i].to_be_bytes());
            }
            b
        }
        /// big-endian bytes of any length, reduced
        pub fn reduce_be(b: &[u8]) -> Fr {
            let k = Fr::from_u64(256);
            b.iter().fold(Fr::ZERO, |a, x| a.mul(k).add(Fr::from_u64(*x as u64)))
        }
        pub fn is_zero(&self) -> bool {
            self.0 == [0; 4]
        }
        pub fn add(self, o: Fr) -> Fr {
            let mut r = [0u64; 4];
            let mut c = 0u128;
            for i in 0..4 {
                let v = self.0[i] as u128 + o.0[i] as u128 + c;
                r[i] = v as u64;
                c = v >> 64;
            }
            // both operands are below the 255-bit order: no carry out
            if ge(&r, &R) {
                Fr(sub_raw(&r, &R))
            } else {
                Fr(r)
            }
        }
        pub fn neg(self) -> Fr {
            if self.is_zero() {
                self
            } else {
                Fr(sub_raw(&R, &self.0))
            }
        }
        pub fn sub(self, o: Fr) -> Fr {
            self.add(o.neg())
        }
        pub fn mul(self, o: Fr) -> Fr {
            Fr(mont(&self.0, &o.0))
        }
        pub fn pow(self, e: &[u64; 4]) -> Fr {
            let mut r = Fr::one();
            for i in (0..256).rev() {
                r = r.mul(r);
                if e[i / 64] >> (i % 64) & 1 == 1 {
                    r = r.mul(self);
                }
            }
            r
        }
        pub fn inv(self) -> Fr {
            self.pow(&sub_raw(&R, &[2, 0, 0, 0]))
        }
    }
}

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn hmac(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let ik: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let ok: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut h = Sha256::new();
    h.update(&ik);
    for p in parts {
        h.update(p);
    }
    let i: [u8; 32] = h.finalize().into();
    sha256(&[&ok, &i])
}
pub fn hkdf_extract(salt: &[u8], ikm: &[u8]) -> [u8; 32] {
    hmac(salt, &[ikm])
}
pub fn hkdf_expand(prk: &[u8], info: &[u8], out: &mut [u8]) -> Result<(), ()> {
    if out.len() > 255 * 32 {
        return Err(());
    }
    let mut t: Vec<u8> = vec![];
    for (i, c) in out.chunks_mut(32).enumerate() {
        t = hmac(prk, &[&t, info, &[i as u8 + 1]]).to_vec();
        c.copy_from_slice(&t[..c.len()]);
    }
    Ok(())
}
pub fn pbkdf2(pw: &[u8], salt: &[u8], rounds: u32, out: &mut [u8]) {
    for (i, c) in out.chunks_mut(32).enumerate() {
        let mut u = hmac(pw, &[salt, &(i as u32 + 1).to_be_bytes()]);
        let mut t = u;
        for _ in 1..rounds {
            u = hmac(pw, &[&u]);
            for j in 0..32 {
                t[j] ^= u[j];
            }
        }
        c.copy_from_slice(&t[..c.len()]);
    }
}
/// `hkdf_mod_r` of EIP-2333 / the BLS key generation draft
pub fn hkdf_mod_r(ikm: &[u8], info: &[u8], hash_salt_first: bool) -> fr::Fr {
    let mut salt = b"BLS-SIG-KEYGEN-SALT-".to_vec();
    let mut first = true;
    loop {
        if hash_salt_first || !first {
            salt = sha256(&[&salt]).to_vec();
        }
        first = false;
        let mut i = ikm.to_vec();
        i.push(0);
        let prk = hkdf_extract(&salt, &i);
        let mut okm = [0u8; 48];
        let mut inf = info.to_vec();
        inf.extend_from_slice(&[0, 48]);
        hkdf_expand(&prk, &inf, &mut okm).unwrap();
        let k = fr::Fr::reduce_be(&okm);
        if !k.is_zero() {
            return k;
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn field() {
        let a = fr::Fr::reduce_be(&[7; 64]);
        assert_eq!(a.mul(a.inv()), fr::Fr::one());
        assert_eq!(a.sub(a), fr::Fr::ZERO);
        let b = fr::Fr::from_be(&a.to_be()).unwrap();
        assert_eq!(a, b);
        // 5 * 7 = 35
        assert_eq!(fr::Fr::from_u64(5).mul(fr::Fr::from_u64(7)), fr::Fr::from_u64(35));
        assert_eq!(fr::Fr::from_u64(35).to_be()[31], 35);
    }
}

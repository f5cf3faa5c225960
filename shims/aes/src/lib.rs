//! Stand-in for `aes`: AES-128 block encryption.
pub mod cipher {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct InvalidLength;
    impl std::fmt::Display for InvalidLength {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Invalid Length")
        }
    }
    impl std::error::Error for InvalidLength {}
    pub trait KeyIvInit: Sized {
        fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength>;
    }
    pub trait KeyInit: Sized {
        fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength>;
    }
    pub trait StreamCipher {
        fn apply_keystream(&mut self, buf: &mut [u8]);
    }
    pub trait BlockEncrypt16 {
        fn encrypt16(&self, b: &mut [u8; 16]);
    }
}
use cipher::*;
fn xt(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
fn sbox(x: u8) -> u8 {
    // multiplicative inverse by x^254 followed by the affine map
    let mut r = 1u8;
    let mut base = x;
    let mut e = 254u8;
    while e != 0 {
        if e & 1 == 1 {
            r = gmul(r, base);
        }
        base = gmul(base, base);
        e >>= 1;
    }
    let i = if x == 0 { 0 } else { r };
    i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63
}
#[derive(Clone)]
pub struct Aes128([[u8; 16]; 11]);
impl KeyInit for Aes128 {
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        let key: &[u8; 16] = key.try_into().map_err(|_| InvalidLength)?;
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&key[i * 4..i * 4 + 4]);
        }
        let mut rc = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t.rotate_left(1);
                for b in t.iter_mut() {
                    *b = sbox(*b);
                }
                t[0] ^= rc;
                rc = xt(rc);
            }
            for j in 0..4 {
                w[i][j] = w[i - 4][j] ^ t[j];
            }
        }
        let mut k = [[0u8; 16]; 11];
        for r in 0..11 {
            for c in 0..4 {
                k[r][c * 4..c * 4 + 4].copy_from_slice(&w[r * 4 + c]);
            }
        }
        Ok(Self(k))
    }
}
impl BlockEncrypt16 for Aes128 {
    fn encrypt16(&self, s: &mut [u8; 16]) {
        let ark = |s: &mut [u8; 16], k: &[u8; 16]| {
            for i in 0..16 {
                s[i] ^= k[i];
            }
        };
        ark(s, &self.0[0]);
        for r in 1..11 {
            for b in s.iter_mut() {
                *b = sbox(*b);
            }
            let o = *s;
            for c in 0..4 {
                for row in 0..4 {
                    s[c * 4 + row] = o[((c + row) % 4) * 4 + row];
                }
            }
            if r < 10 {
                for c in 0..4 {
                    let a = [s[c * 4], s[c * 4 + 1], s[c * 4 + 2], s[c * 4 + 3]];
                    for i in 0..4 {
                        s[c * 4 + i] = gmul(a[i], 2)
                            ^ gmul(a[(i + 1) % 4], 3)
                            ^ a[(i + 2) % 4]
                            ^ a[(i + 3) % 4];
                    }
                }
            }
            ark(s, &self.0[r]);
        }
    }
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn fips197() {
        let k: Vec<u8> = (0..16).collect();
        let c = Aes128::new_from_slice(&k).unwrap();
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = (i * 17) as u8;
        }
        c.encrypt16(&mut b);
        assert_eq!(b[..4], [0x69, 0xc4, 0xe0, 0xd8]);
    }
}

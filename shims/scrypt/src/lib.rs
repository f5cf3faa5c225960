//! Stand-in for `scrypt` (RFC 7914) with the small part of `password_hash` that is used.
use base64::{engine::general_purpose::STANDARD_NO_PAD, Engine};

#[derive(Clone, Copy, Debug)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
    len: usize,
}
impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Self, errors::InvalidParams> {
        if log_n == 0 || log_n > 40 || r == 0 || p == 0 || !(10..=64).contains(&len) {
            return Err(errors::InvalidParams);
        }
        Ok(Self { log_n, r, p, len })
    }
    pub fn recommended() -> Self {
        Self { log_n: 17, r: 8, p: 1, len: 32 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}
impl Default for Params {
    fn default() -> Self {
        Self::recommended()
    }
}
pub mod errors {
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidParams;
    #[derive(Debug, Clone, Copy)]
    pub struct InvalidOutputLen;
    impl std::fmt::Display for InvalidParams {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid scrypt parameters")
        }
    }
    impl std::error::Error for InvalidParams {}
}
fn salsa8(b: &mut [u32; 16]) {
    let mut x = *b;
    macro_rules! q { ($a:expr,$b:expr,$c:expr,$d:expr) => {
        x[$b] ^= x[$a].wrapping_add(x[$d]).rotate_left(7);
        x[$c] ^= x[$b].wrapping_add(x[$a]).rotate_left(9);
        x[$d] ^= x[$c].wrapping_add(x[$b]).rotate_left(13);
        x[$a] ^= x[$d].wrapping_add(x[$c]).rotate_left(18);
    } }
    for _ in 0..4 {
        q!(0, 4, 8, 12);
        q!(5, 9, 13, 1);
        q!(10, 14, 2, 6);
        q!(15, 3, 7, 11);
        q!(0, 1, 2, 3);
        q!(5, 6, 7, 4);
        q!(10, 11, 8, 9);
        q!(15, 12, 13, 14);
    }
    for i in 0..16 {
        b[i] = b[i].wrapping_add(x[i]);
    }
}
fn block_mix(b: &mut [u32], y: &mut [u32]) {
    let n = b.len() / 16;
    let mut x: [u32; 16] = b[(n - 1) * 16..].try_into().unwrap();
    for i in 0..n {
        for j in 0..16 {
            x[j] ^= b[i * 16 + j];
        }
        salsa8(&mut x);
        let k = if i % 2 == 0 { i / 2 } else { n / 2 + i / 2 };
        y[k * 16..k * 16 + 16].copy_from_slice(&x);
    }
    b.copy_from_slice(y);
}
thread_local! {
    static CHEAPER: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}
/// the simulator's knob: on this thread 2^k times fewer rounds than asked for, so that parameters that
/// differ still give different keys
pub fn make_cheaper(k: u8) {
    CHEAPER.with(|c| c.set(k));
}
pub fn scrypt(pw: &[u8], salt: &[u8], params: &Params, out: &mut [u8]) -> Result<(), errors::InvalidOutputLen> {
    let n = 1usize << params.log_n.saturating_sub(CHEAPER.with(|c| c.get())).max(1);
    let (r, p) = (params.r as usize, params.p as usize);
    let mut b = vec![0u8; p * 128 * r];
    simcrypto::pbkdf2(pw, salt, 1, &mut b);
    let w = 32 * r;
    let mut v = vec![0u32; w * n];
    let mut y = vec![0u32; w];
    for chunk in b.chunks_mut(128 * r) {
        let mut x: Vec<u32> =
            chunk.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        for i in 0..n {
            v[i * w..(i + 1) * w].copy_from_slice(&x);
            block_mix(&mut x, &mut y);
        }
        for _ in 0..n {
            let j = x[w - 16] as usize & (n - 1);
            for (a, b) in x.iter_mut().zip(&v[j * w..(j + 1) * w]) {
                *a ^= *b;
            }
            block_mix(&mut x, &mut y);
        }
        for (c, x) in chunk.chunks_mut(4).zip(&x) {
            c.copy_from_slice(&x.to_le_bytes());
        }
    }
    simcrypto::pbkdf2(pw, &b, 1, out);
    Ok(())
}

pub mod password_hash {
    pub use rand_core;
    use super::*;
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Error(pub String);
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for Error {}
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct SaltString(String);
    #[derive(Debug, Clone, Copy)]
    pub struct Salt<'a>(&'a str);
    impl<'a> From<&'a SaltString> for Salt<'a> {
        fn from(s: &'a SaltString) -> Self {
            Salt(&s.0)
        }
    }
    impl SaltString {
        pub fn generate(mut rng: impl rand_core::CryptoRng + rand_core::RngCore) -> Self {
            let mut b = [0u8; 16];
            rng.fill_bytes(&mut b);
            Self::encode_b64(&b).unwrap()
        }
        pub fn encode_b64(b: &[u8]) -> Result<Self, Error> {
            let s = STANDARD_NO_PAD.encode(b);
            if s.len() < 4 || s.len() > 64 {
                return Err(Error("salt length".into()));
            }
            Ok(Self(s))
        }
        pub fn from_b64(s: &str) -> Result<Self, Error> {
            STANDARD_NO_PAD.decode(s).map_err(|e| Error(e.to_string()))?;
            Ok(Self(s.to_string()))
        }
        pub fn decode_b64<'a>(&self, buf: &'a mut [u8]) -> Result<&'a [u8], Error> {
            let v = STANDARD_NO_PAD.decode(&self.0).map_err(|e| Error(e.to_string()))?;
            if buf.len() < v.len() {
                return Err(Error("buffer too small".into()));
            }
            buf[..v.len()].copy_from_slice(&v);
            Ok(&buf[..v.len()])
        }
        pub fn as_str(&self) -> &str {
            &self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Output(Vec<u8>);
    impl Output {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
    }
    #[derive(Debug, Clone)]
    pub struct PasswordHash {
        pub hash: Option<Output>,
    }
    pub trait PasswordHasher {
        fn hash_password_customized<'a>(
            &self,
            pw: &[u8],
            alg: Option<()>,
            version: Option<u32>,
            params: Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash, Error>;
    }
    impl PasswordHasher for super::Scrypt {
        fn hash_password_customized<'a>(
            &self,
            pw: &[u8],
            _: Option<()>,
            _: Option<u32>,
            params: Params,
            salt: impl Into<Salt<'a>>,
        ) -> Result<PasswordHash, Error> {
            let s = STANDARD_NO_PAD.decode(salt.into().0).map_err(|e| Error(e.to_string()))?;
            let mut out = vec![0u8; params.len];
            scrypt(pw, &s, &params, &mut out).map_err(|_| Error("output".into()))?;
            Ok(PasswordHash { hash: Some(Output(out)) })
        }
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Scrypt;
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn rfc7914() {
        let mut o = [0u8; 64];
        scrypt(b"password", b"NaCl", &Params { log_n: 10, r: 8, p: 16, len: 64 }, &mut o).unwrap();
        assert_eq!(o[..6], [0xfd, 0xba, 0xbe, 0x1c, 0x9d, 0x34]);
    }
}

//! Stand-in for `multihash`: varint code, varint length, digest (at most 64 bytes).
use std::fmt;
#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    UnsupportedCode(u64),
    InvalidSize(u64),
    Varint(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Code {
    Identity,
    Sha2_256,
    Sha2_512,
}
impl TryFrom<u64> for Code {
    type Error = Error;
    fn try_from(c: u64) -> Result<Self, Error> {
        match c {
            0 => Ok(Code::Identity),
            0x12 => Ok(Code::Sha2_256),
            0x13 => Ok(Code::Sha2_512),
            c => Err(Error::UnsupportedCode(c)),
        }
    }
}
impl From<Code> for u64 {
    fn from(c: Code) -> u64 {
        match c {
            Code::Identity => 0,
            Code::Sha2_256 => 0x12,
            Code::Sha2_512 => 0x13,
        }
    }
}
pub type Multihash = MultihashGeneric<64>;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MultihashGeneric<const S: usize> {
    code: u64,
    size: u8,
    digest: [u8; S],
}
impl<const S: usize> fmt::Debug for MultihashGeneric<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Multihash({}, {:?})", self.code, self.digest())
    }
}
fn read(b: &[u8], pos: &mut usize) -> Result<u64, Error> {
    let mut v = 0u64;
    for i in 0..9 {
        let x = *b.get(*pos).ok_or(Error::Varint("insufficient".into()))?;
        *pos += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            if x == 0 && i > 0 {
                return Err(Error::Varint("not minimal".into()));
            }
            return Ok(v);
        }
    }
    Err(Error::Varint("overflow".into()))
}
fn write(mut v: u64, o: &mut Vec<u8>) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}
impl<const S: usize> MultihashGeneric<S> {
    pub fn wrap(code: u64, d: &[u8]) -> Result<Self, Error> {
        if d.len() > S {
            return Err(Error::InvalidSize(d.len() as u64));
        }
        let mut digest = [0u8; S];
        digest[..d.len()].copy_from_slice(d);
        Ok(Self { code, size: d.len() as u8, digest })
    }
    pub fn code(&self) -> u64 {
        self.code
    }
    pub fn size(&self) -> u8 {
        self.size
    }
    pub fn digest(&self) -> &[u8] {
        &self.digest[..self.size as usize]
    }
    pub fn from_bytes(b: &[u8]) -> Result<Self, Error> {
        let mut p = 0;
        let code = read(b, &mut p)?;
        let size = read(b, &mut p)?;
        if size > S as u64 || size as usize != b.len() - p {
            return Err(Error::InvalidSize(size));
        }
        Self::wrap(code, &b[p..])
    }
    pub fn to_bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        write(self.code, &mut o);
        write(self.size as u64, &mut o);
        o.extend_from_slice(self.digest());
        o
    }
}

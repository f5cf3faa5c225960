use std::{fmt, str::FromStr};

/// 256-bit unsigned integer: only what the consensus types need.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct U256([u64; 4]);

impl U256 {
    pub const ZERO: U256 = U256([0; 4]);
    pub const MAX: U256 = U256([u64::MAX; 4]);
    pub fn zero() -> Self {
        Self::ZERO
    }
    pub const fn from_limbs(l: [u64; 4]) -> Self {
        U256(l)
    }
    pub const fn as_limbs(&self) -> &[u64; 4] {
        &self.0
    }
    pub const fn from_le_bytes(b: [u8; 32]) -> Self {
        let mut l = [0u64; 4];
        let mut i = 0;
        while i < 32 {
            l[i / 8] |= (b[i] as u64) << (8 * (i % 8));
            i += 1;
        }
        U256(l)
    }
    pub const fn from_be_bytes(b: [u8; 32]) -> Self {
        let mut r = [0u8; 32];
        let mut i = 0;
        while i < 32 {
            r[i] = b[31 - i];
            i += 1;
        }
        Self::from_le_bytes(r)
    }
    pub fn to_le_bytes(&self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for (i, l) in self.0.iter().enumerate() {
            b[i * 8..i * 8 + 8].copy_from_slice(&l.to_le_bytes());
        }
        b
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.to_le_bytes().to_vec()
    }
    pub fn try_from_bytes_le(b: &[u8]) -> Result<Self, std::array::TryFromSliceError> {
        Ok(Self::from_le_bytes(b.try_into()?))
    }
    fn mul_add(&mut self, m: u64, a: u64) -> bool {
        let mut carry = a as u128;
        for l in self.0.iter_mut() {
            let v = *l as u128 * m as u128 + carry;
            *l = v as u64;
            carry = v >> 64;
        }
        carry == 0
    }
    fn div_rem(&mut self, d: u64) -> u64 {
        let mut rem = 0u128;
        for l in self.0.iter_mut().rev() {
            let v = (rem << 64) | *l as u128;
            *l = (v / d as u128) as u64;
            rem = v % d as u128;
        }
        rem as u64
    }
}
impl Ord for U256 {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl PartialOrd for U256 {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl From<u64> for U256 {
    fn from(v: u64) -> Self {
        U256([v, 0, 0, 0])
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ParseError;
impl fmt::Display for ParseError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "invalid 256-bit integer")
    }
}
impl std::error::Error for ParseError {}
impl FromStr for U256 {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Self, ParseError> {
        let (radix, digits) = match s.strip_prefix("0x") {
            Some(h) => (16, h),
            None => (10, s),
        };
        let mut v = U256::ZERO;
        for c in digits.chars() {
            let d = c.to_digit(radix).ok_or(ParseError)?;
            if !v.mul_add(radix as u64, d as u64) {
                return Err(ParseError);
            }
        }
        Ok(v)
    }
}
impl fmt::Display for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if *self == Self::ZERO {
            return write!(f, "0");
        }
        let mut v = *self;
        let mut s = vec![];
        while v != Self::ZERO {
            s.push(b'0' + v.div_rem(10) as u8);
        }
        s.reverse();
        write!(f, "{}", std::str::from_utf8(&s).unwrap())
    }
}
impl fmt::Debug for U256 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl serde::Serialize for U256 {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}
impl<'de> serde::Deserialize<'de> for U256 {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = <String as serde::Deserialize>::deserialize(d)?;
        s.parse().map_err(serde::de::Error::custom)
    }
}

//! Stand-in for `ruint`: fixed-width unsigned integers with the operations a field-element or key
//! derivation routine needs.
use std::{cmp::Ordering, fmt, ops::*, str::FromStr};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Uint<const BITS: usize, const LIMBS: usize>([u64; LIMBS]);
pub mod aliases {
    pub type U64 = crate::Uint<64, 1>;
    pub type U128 = crate::Uint<128, 2>;
    pub type U256 = crate::Uint<256, 4>;
    pub type U384 = crate::Uint<384, 6>;
    pub type U512 = crate::Uint<512, 8>;
}
#[macro_export]
macro_rules! uint {
    ($l:literal) => {
        $crate::Uint::from_const_literal(stringify!($l))
    };
}
impl<const B: usize, const L: usize> Uint<B, L> {
    pub const ZERO: Self = Self([0; L]);
    pub const MAX: Self = Self([u64::MAX; L]);
    pub const ONE: Self = {
        let mut l = [0; L];
        l[0] = 1;
        Self(l)
    };
    pub const BITS: usize = B;
    pub const BYTES: usize = B / 8;
    #[doc(hidden)]
    pub const fn from_const_literal(s: &str) -> Self {
        let b = s.as_bytes();
        let mut l = [0u64; L];
        let mut i = 0;
        let mut radix = 10u128;
        if b.len() > 2 && b[0] == b'0' && b[1] == b'x' {
            radix = 16;
            i = 2;
        }
        while i < b.len() && b[i] != b'U' {
            let c = b[i];
            i += 1;
            if c == b'_' {
                continue;
            }
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("bad digit"),
            };
            let mut carry = d as u128;
            let mut j = 0;
            while j < L {
                let v = l[j] as u128 * radix + carry;
                l[j] = v as u64;
                carry = v >> 64;
                j += 1;
            }
            assert!(carry == 0);
        }
        Self(l)
    }
    pub const fn from_limbs(l: [u64; L]) -> Self {
        Self(l)
    }
    pub const fn as_limbs(&self) -> &[u64; L] {
        &self.0
    }
    pub fn from<T: ToUint<Self>>(v: T) -> Self {
        v.to_uint()
    }
    pub fn to<T: FromUint<Self>>(self) -> T {
        T::from_uint(self)
    }
    pub fn is_zero(&self) -> bool {
        *self == Self::ZERO
    }
    pub fn try_from_be_slice(b: &[u8]) -> Option<Self> {
        let mut s = Self::ZERO;
        for (i, x) in b.iter().rev().enumerate() {
            if i >= L * 8 {
                if *x != 0 {
                    return None;
                }
            } else {
                s.0[i / 8] |= (*x as u64) << (8 * (i % 8));
            }
        }
        Some(s)
    }
    pub fn try_from_le_slice(b: &[u8]) -> Option<Self> {
        let mut v = b.to_vec();
        v.reverse();
        Self::try_from_be_slice(&v)
    }
    pub fn from_be_slice(b: &[u8]) -> Self {
        Self::try_from_be_slice(b).expect("Value too large for Uint")
    }
    pub fn from_le_slice(b: &[u8]) -> Self {
        Self::try_from_le_slice(b).expect("Value too large for Uint")
    }
    pub fn from_be_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert_eq!(N, L * 8);
        Self::from_be_slice(&b)
    }
    pub fn from_le_bytes<const N: usize>(b: [u8; N]) -> Self {
        assert_eq!(N, L * 8);
        Self::from_le_slice(&b)
    }
    pub fn to_le_bytes<const N: usize>(&self) -> [u8; N] {
        assert_eq!(N, L * 8);
        let mut o = [0u8; N];
        for i in 0..N {
            o[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        o
    }
    pub fn to_be_bytes<const N: usize>(&self) -> [u8; N] {
        let mut o = self.to_le_bytes::<N>();
        o.reverse();
        o
    }
    pub fn to_be_bytes_vec(&self) -> Vec<u8> {
        let mut v = self.to_le_bytes_vec();
        v.reverse();
        v
    }
    pub fn to_le_bytes_vec(&self) -> Vec<u8> {
        self.0.iter().flat_map(|l| l.to_le_bytes()).collect()
    }
    pub fn bit(&self, i: usize) -> bool {
        i < L * 64 && self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn bit_len(&self) -> usize {
        (0..L * 64).rev().find(|i| self.bit(*i)).map_or(0, |i| i + 1)
    }
    pub fn overflowing_add(self, o: Self) -> (Self, bool) {
        let mut r = [0; L];
        let mut c = 0u128;
        for i in 0..L {
            let v = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = v as u64;
            c = v >> 64;
        }
        (Self(r), c != 0)
    }
    pub fn overflowing_sub(self, o: Self) -> (Self, bool) {
        let mut r = [0; L];
        let mut b = false;
        for i in 0..L {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(b as u64);
            r[i] = x;
            b = b1 | b2;
        }
        (Self(r), b)
    }
    pub fn overflowing_mul(self, o: Self) -> (Self, bool) {
        let mut r = vec![0u64; 2 * L];
        for i in 0..L {
            let mut c = 0u128;
            for j in 0..L {
                let v = r[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128 + c;
                r[i + j] = v as u64;
                c = v >> 64;
            }
            r[i + L] = c as u64;
        }
        let mut l = [0; L];
        l.copy_from_slice(&r[..L]);
        (Self(l), r[L..].iter().any(|x| *x != 0))
    }
    pub fn checked_add(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_add(o);
        (!c).then_some(r)
    }
    pub fn checked_sub(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_sub(o);
        (!c).then_some(r)
    }
    pub fn checked_mul(self, o: Self) -> Option<Self> {
        let (r, c) = self.overflowing_mul(o);
        (!c).then_some(r)
    }
    pub fn wrapping_add(self, o: Self) -> Self {
        self.overflowing_add(o).0
    }
    pub fn wrapping_sub(self, o: Self) -> Self {
        self.overflowing_sub(o).0
    }
    pub fn wrapping_mul(self, o: Self) -> Self {
        self.overflowing_mul(o).0
    }
    pub fn div_rem(self, d: Self) -> (Self, Self) {
        assert!(!d.is_zero(), "division by zero");
        let mut q = Self::ZERO;
        let mut r = Self::ZERO;
        for i in (0..L * 64).rev() {
            let top = r.bit(L * 64 - 1);
            for j in (1..L).rev() {
                r.0[j] = r.0[j] << 1 | r.0[j - 1] >> 63;
            }
            r.0[0] = r.0[0] << 1 | self.bit(i) as u64;
            if top || r >= d {
                r = r.wrapping_sub(d);
                q.0[i / 64] |= 1 << (i % 64);
            }
        }
        (q, r)
    }
    pub fn checked_rem(self, d: Self) -> Option<Self> {
        (!d.is_zero()).then(|| self.div_rem(d).1)
    }
    pub fn reduce_mod(self, d: Self) -> Self {
        if d.is_zero() {
            d
        } else {
            self.div_rem(d).1
        }
    }
}
pub trait ToUint<U> {
    fn to_uint(self) -> U;
}
pub trait FromUint<U> {
    fn from_uint(u: U) -> Self;
}
impl<const B: usize, const L: usize, const B2: usize, const L2: usize> ToUint<Uint<B, L>>
    for Uint<B2, L2>
{
    fn to_uint(self) -> Uint<B, L> {
        Uint::from_be_slice(&self.to_be_bytes_vec())
    }
}
impl<const B: usize, const L: usize, const B2: usize, const L2: usize> FromUint<Uint<B, L>>
    for Uint<B2, L2>
{
    fn from_uint(u: Uint<B, L>) -> Self {
        Uint::from_be_slice(&u.to_be_bytes_vec())
    }
}
macro_rules! prim { ($($t:ty),*) => { $(
    impl<const B: usize, const L: usize> ToUint<Uint<B, L>> for $t {
        fn to_uint(self) -> Uint<B, L> { Uint::from_be_slice(&self.to_be_bytes()) }
    }
    impl<const B: usize, const L: usize> FromUint<Uint<B, L>> for $t {
        fn from_uint(u: Uint<B, L>) -> $t {
            assert!(u.bit_len() <= <$t>::BITS as usize);
            (u.0[0] as u128 | (*u.0.get(1).unwrap_or(&0) as u128) << 64) as $t
        }
    }
)* } }
prim!(u8, u16, u32, u64, u128, usize);
impl<const B: usize, const L: usize> Default for Uint<B, L> {
    fn default() -> Self {
        Self::ZERO
    }
}
impl<const B: usize, const L: usize> Ord for Uint<B, L> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}
impl<const B: usize, const L: usize> PartialOrd for Uint<B, L> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
macro_rules! op { ($($tr:ident $f:ident $e:expr;)*) => { $(
    impl<const B: usize, const L: usize> $tr for Uint<B, L> {
        type Output = Self;
        fn $f(self, o: Self) -> Self { let f: fn(Self, Self) -> Self = $e; f(self, o) }
    }
)* } }
op! {
    Add add |a, b| a.wrapping_add(b);
    Sub sub |a, b| a.wrapping_sub(b);
    Mul mul |a, b| a.wrapping_mul(b);
    Rem rem |a, b| a.div_rem(b).1;
    Div div |a, b| a.div_rem(b).0;
}
impl<const B: usize, const L: usize> AddAssign for Uint<B, L> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o;
    }
}
impl<const B: usize, const L: usize> SubAssign for Uint<B, L> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o;
    }
}
impl<const B: usize, const L: usize> RemAssign for Uint<B, L> {
    fn rem_assign(&mut self, o: Self) {
        *self = *self % o;
    }
}
impl<const B: usize, const L: usize> fmt::Display for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let ten = Self::from(10u64);
        let mut v = *self;
        let mut s = vec![];
        loop {
            let (q, r) = v.div_rem(ten);
            s.push(b'0' + r.0[0] as u8);
            v = q;
            if v.is_zero() {
                break;
            }
        }
        s.reverse();
        f.write_str(std::str::from_utf8(&s).unwrap())
    }
}
impl<const B: usize, const L: usize> fmt::Debug for Uint<B, L> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
impl<const B: usize, const L: usize> FromStr for Uint<B, L> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
            return Err("invalid digit".into());
        }
        let mut v = Self::ZERO;
        for b in s.bytes() {
            v = v
                .checked_mul(Self::from(10u64))
                .and_then(|v| v.checked_add(Self::from((b - b'0') as u64)))
                .ok_or("overflow")?;
        }
        Ok(v)
    }
}
#[cfg(test)]
mod tests {
    use super::aliases::U256;
    #[test]
    fn arith() {
        const M: U256 = uint!(52435875175126190479447740508185965837690552500527637822603658699938581184513_U256);
        assert_eq!(M.to_string(), "52435875175126190479447740508185965837690552500527637822603658699938581184513");
        let a = U256::from_be_slice(&[0xab; 32]);
        let (q, r) = a.div_rem(M);
        assert_eq!(q * M + r, a);
        assert!(r < M);
    }
}

//! Stand-in for `integer-sqrt`: exact floor square root.
pub trait IntegerSquareRoot: Sized {
    fn integer_sqrt(&self) -> Self;
    fn integer_sqrt_checked(&self) -> Option<Self>;
}
macro_rules! imp { ($($t:ty),*) => { $(impl IntegerSquareRoot for $t {
    fn integer_sqrt(&self) -> Self {
        let n = *self;
        let (mut lo, mut hi): ($t, $t) = (0, n / 2 + 1);
        while lo < hi {
            let mid = lo + (hi - lo).div_ceil(2);
            if mid <= n / mid { lo = mid } else { hi = mid - 1 }
        }
        lo
    }
    fn integer_sqrt_checked(&self) -> Option<Self> { Some(self.integer_sqrt()) }
})* } }
imp!(u8, u16, u32, u64, u128, usize);

//! Stand-in for `ctr`: big-endian counter modes over a 16-byte block cipher.
use aes::cipher::*;
pub struct CtrBe<C, const COUNTER_BYTES: usize> {
    c: C,
    block: [u8; 16],
    ks: [u8; 16],
    pos: usize,
}
pub type Ctr32BE<C> = CtrBe<C, 4>;
pub type Ctr64BE<C> = CtrBe<C, 8>;
pub type Ctr128BE<C> = CtrBe<C, 16>;
impl<C: KeyInit, const N: usize> KeyIvInit for CtrBe<C, N> {
    fn new_from_slices(key: &[u8], iv: &[u8]) -> Result<Self, InvalidLength> {
        Ok(Self {
            c: C::new_from_slice(key)?,
            block: iv.try_into().map_err(|_| InvalidLength)?,
            ks: [0; 16],
            pos: 16,
        })
    }
}
impl<C: BlockEncrypt16, const N: usize> StreamCipher for CtrBe<C, N> {
    fn apply_keystream(&mut self, buf: &mut [u8]) {
        for b in buf {
            if self.pos == 16 {
                self.ks = self.block;
                self.c.encrypt16(&mut self.ks);
                self.pos = 0;
                for i in (16 - N..16).rev() {
                    self.block[i] = self.block[i].wrapping_add(1);
                    if self.block[i] != 0 {
                        break;
                    }
                }
            }
            *b ^= self.ks[self.pos];
            self.pos += 1;
        }
    }
}

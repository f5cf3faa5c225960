//! Stand-in for `bs58`: Bitcoin alphabet.
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        InvalidCharacter { character: char, index: usize },
        NonAsciiCharacter { index: usize },
        BufferTooSmall,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
    pub type Result<T> = std::result::Result<T, Error>;
}
pub struct DecodeBuilder(Vec<u8>);
pub struct EncodeBuilder(Vec<u8>);
pub fn decode<I: AsRef<[u8]>>(i: I) -> DecodeBuilder {
    DecodeBuilder(i.as_ref().to_vec())
}
pub fn encode<I: AsRef<[u8]>>(i: I) -> EncodeBuilder {
    EncodeBuilder(i.as_ref().to_vec())
}
impl DecodeBuilder {
    pub fn into_vec(self) -> decode::Result<Vec<u8>> {
        let mut out: Vec<u8> = vec![];
        let mut zeros = 0;
        let mut leading = true;
        for (index, c) in self.0.iter().enumerate() {
            if *c >= 128 {
                return Err(decode::Error::NonAsciiCharacter { index });
            }
            let mut v = A.iter().position(|a| a == c).ok_or(decode::Error::InvalidCharacter {
                character: *c as char,
                index,
            })? as u32;
            if leading && v == 0 {
                zeros += 1;
                continue;
            }
            leading = false;
            for b in out.iter_mut() {
                v += *b as u32 * 58;
                *b = v as u8;
                v >>= 8;
            }
            while v > 0 {
                out.push(v as u8);
                v >>= 8;
            }
        }
        out.extend(std::iter::repeat(0).take(zeros));
        out.reverse();
        Ok(out)
    }
}
impl EncodeBuilder {
    pub fn into_vec(self) -> Vec<u8> {
        let zeros = self.0.iter().take_while(|b| **b == 0).count();
        let mut d: Vec<u8> = vec![];
        for b in &self.0[zeros..] {
            let mut c = *b as u32;
            for x in d.iter_mut() {
                c += (*x as u32) << 8;
                *x = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                d.push((c % 58) as u8);
                c /= 58;
            }
        }
        d.extend(std::iter::repeat(0).take(zeros));
        d.reverse();
        d.iter().map(|x| A[*x as usize]).collect()
    }
    pub fn into_string(self) -> String {
        String::from_utf8(self.into_vec()).unwrap()
    }
}

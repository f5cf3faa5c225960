//! SSZ as the consensus specification defines it, over a small dynamic value type. Written apart from the
//! stand-in the code under test uses.
use simcrypto::sha256;

pub type Root = [u8; 32];

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    U8(u8),
    Bool(bool),
    U64(u64),
    /// fixed-size bytes (ByteVector, uint256, keys, signatures)
    Bytes(Vec<u8>),
    /// List[byte, N] and List[uint8, N]
    ByteList(Vec<u8>, u64),
    Bitvec(Vec<bool>),
    Bitlist(Vec<bool>, u64),
    Vector(Vec<V>),
    List(Vec<V>, u64),
    /// packed uint64: vector without a limit, list with one
    U64s(Vec<u64>, Option<u64>),
    Roots(Vec<Root>, Option<u64>),
    C(Vec<(&'static str, V)>),
}
use V::*;

pub fn h2(a: &Root, b: &Root) -> Root {
    sha256(&[a, b])
}
fn zero(d: usize) -> Root {
    static Z: std::sync::OnceLock<Vec<Root>> = std::sync::OnceLock::new();
    Z.get_or_init(|| {
        let mut v = vec![[0u8; 32]];
        for i in 0..64 {
            let x = v[i];
            v.push(h2(&x, &x));
        }
        v
    })[d]
}
/// merkle root of `chunks`, virtually padded to `limit` chunks
pub fn merkleize(mut chunks: Vec<Root>, limit: u64) -> Root {
    let limit = limit.max(1);
    let depth = 64 - (limit - 1).leading_zeros() as usize;
    let depth = if limit == 1 { 0 } else { depth };
    assert!(chunks.len() as u64 <= limit, "list over its limit");
    if chunks.is_empty() {
        return zero(depth);
    }
    for d in 0..depth {
        if chunks.len() % 2 == 1 {
            chunks.push(zero(d));
        }
        let n = chunks.len() / 2;
        for i in 0..n {
            chunks[i] = h2(&chunks[2 * i], &chunks[2 * i + 1]);
        }
        chunks.truncate(n);
    }
    chunks[0]
}
fn mix_len(r: Root, n: usize) -> Root {
    let mut l = [0u8; 32];
    l[..8].copy_from_slice(&(n as u64).to_le_bytes());
    h2(&r, &l)
}
fn pack(b: &[u8]) -> Vec<Root> {
    b.chunks(32)
        .map(|c| {
            let mut o = [0u8; 32];
            o[..c.len()].copy_from_slice(c);
            o
        })
        .collect()
}
fn bits(b: &[bool]) -> Vec<u8> {
    let mut o = vec![0u8; b.len().div_ceil(8)];
    for (i, x) in b.iter().enumerate() {
        if *x {
            o[i / 8] |= 1 << (i % 8);
        }
    }
    o
}
impl V {
    pub fn b32(r: &Root) -> V {
        Bytes(r.to_vec())
    }
    /// length of the encoding when it does not depend on the value
    pub fn fixed(&self) -> Option<usize> {
        Some(match self {
            U8(_) | Bool(_) => 1,
            U64(_) => 8,
            Bytes(b) => b.len(),
            Bitvec(b) => b.len().div_ceil(8),
            Vector(v) => v.iter().map(|x| x.fixed()).sum::<Option<usize>>()?,
            U64s(v, None) => v.len() * 8,
            Roots(v, None) => v.len() * 32,
            C(f) => f.iter().map(|(_, x)| x.fixed()).sum::<Option<usize>>()?,
            _ => return None,
        })
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![];
        self.write(&mut o);
        o
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            U8(x) => o.push(*x),
            Bool(x) => o.push(*x as u8),
            U64(x) => o.extend_from_slice(&x.to_le_bytes()),
            Bytes(b) | ByteList(b, _) => o.extend_from_slice(b),
            Bitvec(b) => o.extend(bits(b)),
            Bitlist(b, _) => {
                let mut b = b.clone();
                b.push(true);
                o.extend(bits(&b))
            }
            U64s(v, _) => v.iter().for_each(|x| o.extend_from_slice(&x.to_le_bytes())),
            Roots(v, _) => v.iter().for_each(|x| o.extend_from_slice(x)),
            Vector(v) | List(v, _) => sequence(v.iter(), o),
            C(f) => sequence(f.iter().map(|(_, x)| x), o),
        }
    }
    pub fn root(&self) -> Root {
        match self {
            U8(x) => pack(&[*x])[0],
            Bool(x) => pack(&[*x as u8])[0],
            U64(x) => pack(&x.to_le_bytes())[0],
            Bytes(b) => merkleize(pack(b), b.len().div_ceil(32) as u64),
            ByteList(b, l) => mix_len(merkleize(pack(b), l.div_ceil(32)), b.len()),
            Bitvec(b) => merkleize(pack(&bits(b)), b.len().div_ceil(256) as u64),
            Bitlist(b, l) => mix_len(merkleize(pack(&bits(b)), l.div_ceil(256)), b.len()),
            U64s(v, l) => {
                let mut c = vec![[0u8; 32]; v.len().div_ceil(4)];
                for (i, x) in v.iter().enumerate() {
                    c[i / 4][i % 4 * 8..][..8].copy_from_slice(&x.to_le_bytes());
                }
                match l {
                    None => {
                        let n = c.len() as u64;
                        merkleize(c, n)
                    }
                    Some(l) => mix_len(merkleize(c, l.div_ceil(4)), v.len()),
                }
            }
            Roots(v, None) => merkleize(v.clone(), v.len() as u64),
            Roots(v, Some(l)) => mix_len(merkleize(v.clone(), *l), v.len()),
            Vector(v) => merkleize(v.iter().map(|x| x.root()).collect(), v.len() as u64),
            List(v, l) => mix_len(merkleize(v.iter().map(|x| x.root()).collect(), *l), v.len()),
            C(f) => merkleize(f.iter().map(|(_, x)| x.root()).collect(), f.len() as u64),
        }
    }
    pub fn fields(&self) -> &[(&'static str, V)] {
        match self {
            C(f) => f,
            _ => panic!("not a container"),
        }
    }
    pub fn set(&mut self, name: &str, v: V) {
        match self {
            C(f) => f.iter_mut().find(|(n, _)| *n == name).unwrap().1 = v,
            _ => panic!("not a container"),
        }
    }
    /// merkle branch of the `i`-th field, leaf to root
    pub fn field_branch(&self, name: &str) -> (Vec<Root>, usize) {
        let f = self.fields();
        let i = f.iter().position(|(n, _)| *n == name).unwrap();
        let leaves: Vec<Root> = f.iter().map(|(_, x)| x.root()).collect();
        let n = leaves.len() as u64;
        (branch(leaves, n, i), i)
    }
}
/// merkle branch of leaf `i` in the tree of `leaves` padded to `limit`
pub fn branch(mut level: Vec<Root>, limit: u64, mut i: usize) -> Vec<Root> {
    let depth = if limit <= 1 { 0 } else { 64 - (limit - 1).leading_zeros() as usize };
    let mut out = vec![];
    for d in 0..depth {
        out.push(level.get(i ^ 1).copied().unwrap_or(zero(d)));
        if level.len() % 2 == 1 {
            level.push(zero(d));
        }
        level = level.chunks(2).map(|c| h2(&c[0], &c[1])).collect();
        i /= 2;
    }
    out
}
pub fn branch_root(leaf: Root, branch: &[Root], index: usize) -> Root {
    let mut r = leaf;
    for (d, s) in branch.iter().enumerate() {
        r = if (index >> d) & 1 == 1 { h2(s, &r) } else { h2(&r, s) };
    }
    r
}
fn sequence<'a>(it: impl Iterator<Item = &'a V> + Clone, o: &mut Vec<u8>) {
    let head: usize = it.clone().map(|x| x.fixed().unwrap_or(4)).sum();
    let mut tail = vec![];
    for x in it {
        if x.fixed().is_some() {
            x.write(o);
        } else {
            o.extend_from_slice(&((head + tail.len()) as u32).to_le_bytes());
            x.write(&mut tail);
        }
    }
    o.extend(tail);
}
/// the slices of a container's fields in `bytes`, laid out like `like`
pub fn split<'a>(bytes: &'a [u8], like: &V) -> Option<Vec<(&'static str, &'a [u8])>> {
    let f = like.fields();
    let mut at = 0;
    let mut spans: Vec<(usize, &'static str, Option<usize>)> = vec![];
    let mut offs = vec![];
    for (n, v) in f {
        match v.fixed() {
            Some(l) => {
                spans.push((at, n, Some(l)));
                at += l;
            }
            None => {
                let o = u32::from_le_bytes(bytes.get(at..at + 4)?.try_into().ok()?) as usize;
                offs.push(o);
                spans.push((o, n, None));
                at += 4;
            }
        }
    }
    offs.push(bytes.len());
    let mut k = 0;
    spans
        .into_iter()
        .map(|(o, n, l)| {
            let end = match l {
                Some(l) => o + l,
                None => {
                    k += 1;
                    offs[k]
                }
            };
            Some((n, bytes.get(o..end)?))
        })
        .collect()
}

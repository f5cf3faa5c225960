//! Stand-in for the `ssz_rs` crate (not available offline).  Real SSZ serialization and
//! merkleization semantics, written independently from the consensus specification's SSZ document.
extern crate self as ssz_rs;

use bitvec::{prelude::Lsb0, vec::BitVec};
use sha2::{Digest, Sha256};
use std::{
    fmt,
    hash::{Hash, Hasher},
    ops::{Deref, DerefMut, Index, IndexMut},
    slice::SliceIndex,
    str::FromStr,
    sync::OnceLock,
};

mod error;
mod u256;
pub mod proofs;
pub use error::*;
pub use u256::U256;
pub use ssz_rs_derive::{GeneralizedIndexable, HashTreeRoot, Merkleized, Prove, Serializable, SimpleSerialize};

pub const BYTES_PER_CHUNK: usize = 32;
pub const BYTES_PER_LENGTH_OFFSET: usize = 4;

pub trait Serializable: Serialize + Deserialize {
    fn is_variable_size() -> bool;
    fn size_hint() -> usize;
}
pub trait Serialize {
    fn serialize(&self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError>;
}
pub trait Deserialize: Sized {
    fn deserialize(encoding: &[u8]) -> Result<Self, DeserializeError>;
}
pub trait HashTreeRoot {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError>;
    fn is_composite_type() -> bool {
        true
    }
    /// roots of a basic-type sequence may be packed; non-basic types return `None`
    #[doc(hidden)]
    fn __pack(_items: &[Self], _out: &mut Vec<u8>) -> bool
    where
        Self: Sized,
    {
        false
    }
}
pub trait SimpleSerialize: Serializable + HashTreeRoot + GeneralizedIndexable {
    fn is_composite() -> bool {
        Self::is_composite_type()
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum PathElement {
    Length,
    Field(String),
    Index(usize),
}
impl From<usize> for PathElement {
    fn from(i: usize) -> Self {
        Self::Index(i)
    }
}
impl From<&str> for PathElement {
    fn from(i: &str) -> Self {
        Self::Field(i.to_string())
    }
}
impl From<String> for PathElement {
    fn from(i: String) -> Self {
        Self::Field(i)
    }
}
pub type Path<'a> = &'a [PathElement];
pub type GeneralizedIndex = usize;

pub trait GeneralizedIndexable {
    fn chunk_count() -> usize {
        1
    }
    fn item_length() -> usize {
        BYTES_PER_CHUNK
    }
    fn generalized_index(path: Path) -> Result<GeneralizedIndex, MerkleizationError> {
        Self::compute_generalized_index(1, path)
    }
    fn compute_generalized_index(
        parent: GeneralizedIndex,
        path: Path,
    ) -> Result<GeneralizedIndex, MerkleizationError> {
        match path.first() {
            None => Ok(parent),
            Some(e) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}

pub fn serialize<T: Serialize + ?Sized>(value: &T) -> Result<Vec<u8>, SerializeError> {
    let mut v = vec![];
    value.serialize(&mut v)?;
    Ok(v)
}
pub fn deserialize<T: Deserialize>(encoding: &[u8]) -> Result<T, DeserializeError> {
    T::deserialize(encoding)
}

pub mod prelude {
    pub use crate::{
        deserialize,
        proofs::{is_valid_merkle_branch, is_valid_merkle_branch_for_generalized_index},
        serialize, Bitlist, Bitvector, Deserialize, DeserializeError, GeneralizedIndex,
        GeneralizedIndexable, HashTreeRoot, InstanceError, List, MerkleizationError, Node, Path,
        PathElement, Serializable, Serialize, SerializeError, SimpleSerialize,
        SimpleSerializeError, Vector, U256,
    };
}

// ---------------------------------------------------------------- hashing

fn hash2(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut buf = [0u8; 64];
    buf[..32].copy_from_slice(a);
    buf[32..].copy_from_slice(b);
    Sha256::digest(buf).into()
}
fn zero_hashes() -> &'static [[u8; 32]; 66] {
    static Z: OnceLock<[[u8; 32]; 66]> = OnceLock::new();
    Z.get_or_init(|| {
        let mut z = [[0u8; 32]; 66];
        for i in 1..66 {
            z[i] = hash2(&z[i - 1], &z[i - 1]);
        }
        z
    })
}
fn log2_ceil(n: u64) -> u32 {
    if n <= 1 {
        0
    } else {
        64 - (n - 1).leading_zeros()
    }
}

#[doc(hidden)]
pub mod __internal {
    use super::*;
    /// Merkleize `chunks` under a tree able to hold `limit` chunks (or exactly the chunks given).
    pub fn merkleize_chunks(mut chunks: Vec<[u8; 32]>, limit: Option<u64>) -> Node {
        let limit = limit.unwrap_or(chunks.len() as u64).max(1);
        let depth = log2_ceil(limit);
        let z = zero_hashes();
        if chunks.is_empty() {
            return Node(z[depth as usize]);
        }
        for level in 0..depth {
            if chunks.len() % 2 == 1 {
                chunks.push(z[level as usize]);
            }
            let n = chunks.len() / 2;
            for i in 0..n {
                chunks[i] = if chunks[2 * i] == z[level as usize] && chunks[2 * i + 1] == z[level as usize] {
                    z[level as usize + 1]
                } else {
                    hash2(&chunks[2 * i], &chunks[2 * i + 1])
                };
            }
            chunks.truncate(n);
        }
        Node(chunks[0])
    }
    pub fn mix_in_length(root: Node, len: usize) -> Node {
        let mut l = [0u8; 32];
        l[..8].copy_from_slice(&(len as u64).to_le_bytes());
        Node(hash2(&root.0, &l))
    }
    pub fn pack(bytes: &[u8]) -> Vec<[u8; 32]> {
        bytes
            .chunks(32)
            .map(|c| {
                let mut a = [0u8; 32];
                a[..c.len()].copy_from_slice(c);
                a
            })
            .collect()
    }

    #[derive(Default)]
    pub struct Serializer {
        fixed: Vec<u8>,
        // (position of the offset in `fixed`, start of the data in `variable`)
        offsets: Vec<(usize, usize)>,
        variable: Vec<u8>,
    }
    impl Serializer {
        pub fn field<T: Serializable>(&mut self, v: &T) -> Result<(), SerializeError> {
            if T::is_variable_size() {
                self.offsets.push((self.fixed.len(), self.variable.len()));
                self.fixed.extend_from_slice(&[0u8; 4]);
                v.serialize(&mut self.variable)?;
            } else {
                v.serialize(&mut self.fixed)?;
            }
            Ok(())
        }
        pub fn finish(mut self, buffer: &mut Vec<u8>) -> Result<usize, SerializeError> {
            let f = self.fixed.len();
            let total = f + self.variable.len();
            if total > u32::MAX as usize {
                return Err(SerializeError::MaximumEncodedLengthExceeded(total));
            }
            for (pos, start) in &self.offsets {
                self.fixed[*pos..*pos + 4].copy_from_slice(&((f + start) as u32).to_le_bytes());
            }
            buffer.extend_from_slice(&self.fixed);
            buffer.extend_from_slice(&self.variable);
            Ok(total)
        }
    }

    fn read_offset(e: &[u8], pos: usize) -> Result<usize, DeserializeError> {
        let b = e
            .get(pos..pos + 4)
            .ok_or(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: pos + 4 })?;
        Ok(u32::from_le_bytes(b.try_into().unwrap()) as usize)
    }

    pub fn split_container<'a>(
        e: &'a [u8],
        layout: &[(bool, usize)],
    ) -> Result<Vec<&'a [u8]>, DeserializeError> {
        let fixed: usize = layout.iter().map(|(v, s)| if *v { 4 } else { *s }).sum();
        if e.len() < fixed {
            return Err(DeserializeError::ExpectedFurtherInput {
                provided: e.len(),
                expected: fixed,
            });
        }
        let mut offs = vec![];
        let mut pos = 0;
        for (v, s) in layout {
            if *v {
                offs.push(read_offset(e, pos)?);
                pos += 4;
            } else {
                pos += s;
            }
        }
        if offs.is_empty() {
            if e.len() != fixed {
                return Err(DeserializeError::AdditionalInput { provided: e.len(), expected: fixed });
            }
        } else if offs[0] != fixed {
            return Err(DeserializeError::InvalidOffset(offs[0]));
        }
        let mut prev = fixed;
        for o in &offs {
            if *o < prev || *o > e.len() {
                return Err(DeserializeError::InvalidOffset(*o));
            }
            prev = *o;
        }
        let mut out = vec![];
        pos = 0;
        let mut vi = 0;
        for (v, s) in layout {
            if *v {
                let end = offs.get(vi + 1).copied().unwrap_or(e.len());
                out.push(&e[offs[vi]..end]);
                vi += 1;
                pos += 4;
            } else {
                out.push(&e[pos..pos + s]);
                pos += s;
            }
        }
        Ok(out)
    }

    pub fn deserialize_seq<T: Serializable>(e: &[u8]) -> Result<Vec<T>, DeserializeError> {
        if e.is_empty() {
            return Ok(vec![]);
        }
        if T::is_variable_size() {
            let first = read_offset(e, 0)?;
            if first % 4 != 0 || first == 0 || first > e.len() {
                return Err(DeserializeError::InvalidOffset(first));
            }
            let n = first / 4;
            let mut offs = Vec::with_capacity(n + 1);
            let mut prev = first;
            for i in 0..n {
                let o = read_offset(e, i * 4)?;
                if o < prev || o > e.len() {
                    return Err(DeserializeError::InvalidOffset(o));
                }
                prev = o;
                offs.push(o);
            }
            offs.push(e.len());
            (0..n).map(|i| T::deserialize(&e[offs[i]..offs[i + 1]])).collect()
        } else {
            let s = T::size_hint();
            if e.len() % s != 0 {
                return Err(DeserializeError::AdditionalInput {
                    provided: e.len(),
                    expected: e.len() / s * s,
                });
            }
            e.chunks(s).map(T::deserialize).collect()
        }
    }
    pub fn serialize_seq<T: Serializable>(
        items: &[T],
        buffer: &mut Vec<u8>,
    ) -> Result<usize, SerializeError> {
        let mut s = Serializer::default();
        for i in items {
            s.field(i)?;
        }
        s.finish(buffer)
    }
    /// chunks of a homogeneous sequence and the number of chunks needed for `capacity` elements
    pub fn seq_chunks<T: Serializable + HashTreeRoot>(
        items: &[T],
        capacity: u64,
    ) -> Result<(Vec<[u8; 32]>, u64), MerkleizationError> {
        if T::is_composite_type() {
            let v = items
                .iter()
                .map(|i| Ok(i.hash_tree_root()?.0))
                .collect::<Result<Vec<_>, MerkleizationError>>()?;
            Ok((v, capacity))
        } else {
            let mut b = vec![];
            if !T::__pack(items, &mut b) {
                for i in items {
                    i.serialize(&mut b)?;
                }
            }
            let per = 32 / T::size_hint() as u64;
            Ok((pack(&b), capacity.div_ceil(per)))
        }
    }
}
use __internal::*;

// ---------------------------------------------------------------- basic types

macro_rules! uint {
    ($t:ty, $n:expr) => {
        impl Serializable for $t {
            fn is_variable_size() -> bool {
                false
            }
            fn size_hint() -> usize {
                $n
            }
        }
        impl Serialize for $t {
            fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
                b.extend_from_slice(&self.to_le_bytes());
                Ok($n)
            }
        }
        impl Deserialize for $t {
            fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
                exact(e, $n)?;
                Ok(<$t>::from_le_bytes(e.try_into().unwrap()))
            }
        }
        impl HashTreeRoot for $t {
            fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
                let mut a = [0u8; 32];
                a[..$n].copy_from_slice(&self.to_le_bytes());
                Ok(Node(a))
            }
            fn is_composite_type() -> bool {
                false
            }
        }
        impl GeneralizedIndexable for $t {
            fn item_length() -> usize {
                $n
            }
        }
        impl SimpleSerialize for $t {}
    };
}
fn exact(e: &[u8], n: usize) -> Result<(), DeserializeError> {
    if e.len() < n {
        Err(DeserializeError::ExpectedFurtherInput { provided: e.len(), expected: n })
    } else if e.len() > n {
        Err(DeserializeError::AdditionalInput { provided: e.len(), expected: n })
    } else {
        Ok(())
    }
}
uint!(u16, 2);
uint!(u32, 4);
uint!(u64, 8);
uint!(u128, 16);
uint!(usize, 8);
uint!(U256, 32);

impl Serializable for u8 {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl Serialize for u8 {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.push(*self);
        Ok(1)
    }
}
impl Deserialize for u8 {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, 1)?;
        Ok(e[0])
    }
}
impl HashTreeRoot for u8 {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let mut a = [0u8; 32];
        a[0] = *self;
        Ok(Node(a))
    }
    fn is_composite_type() -> bool {
        false
    }
    fn __pack(items: &[Self], out: &mut Vec<u8>) -> bool {
        out.extend_from_slice(items);
        true
    }
}
impl GeneralizedIndexable for u8 {
    fn item_length() -> usize {
        1
    }
}
impl SimpleSerialize for u8 {}

impl Serializable for bool {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        1
    }
}
impl Serialize for bool {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.push(*self as u8);
        Ok(1)
    }
}
impl Deserialize for bool {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, 1)?;
        match e[0] {
            0 => Ok(false),
            1 => Ok(true),
            b => Err(DeserializeError::InvalidByte(b)),
        }
    }
}
impl HashTreeRoot for bool {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        (*self as u8).hash_tree_root()
    }
    fn is_composite_type() -> bool {
        false
    }
}
impl GeneralizedIndexable for bool {
    fn item_length() -> usize {
        1
    }
}
impl SimpleSerialize for bool {}

impl Serializable for () {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        0
    }
}
impl Serialize for () {
    fn serialize(&self, _: &mut Vec<u8>) -> Result<usize, SerializeError> {
        Ok(0)
    }
}
impl Deserialize for () {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, 0)
    }
}

// ---------------------------------------------------------------- Node

#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node(pub [u8; 32]);
impl Hash for Node {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.0[..].hash(s)
    }
}
impl fmt::Debug for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl fmt::LowerHex for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            write!(f, "0x")?;
        }
        write!(f, "{}", hex::encode(self.0))
    }
}
impl fmt::Display for Node {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x{}", hex::encode(self.0))
    }
}
impl Deref for Node {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl DerefMut for Node {
    fn deref_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl AsRef<[u8]> for Node {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Node {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl From<[u8; 32]> for Node {
    fn from(a: [u8; 32]) -> Self {
        Node(a)
    }
}
impl From<Node> for [u8; 32] {
    fn from(a: Node) -> Self {
        a.0
    }
}
impl TryFrom<&[u8]> for Node {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
        Node::deserialize(b)
    }
}
impl Serializable for Node {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        32
    }
}
impl Serialize for Node {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        b.extend_from_slice(&self.0);
        Ok(32)
    }
}
impl Deserialize for Node {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, 32)?;
        Ok(Node(e.try_into().unwrap()))
    }
}
impl HashTreeRoot for Node {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(*self)
    }
}
impl GeneralizedIndexable for Node {}
impl SimpleSerialize for Node {}

fn hex_ser<S: serde::Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(&format!("0x{}", hex::encode(b)))
}
fn hex_de<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
    let s = <String as serde::Deserialize>::deserialize(d)?;
    let s2 = s
        .strip_prefix("0x")
        .ok_or_else(|| serde::de::Error::custom("missing hex prefix `0x`"))?;
    hex::decode(s2).map_err(serde::de::Error::custom)
}
impl serde::Serialize for Node {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        hex_ser(&self.0, s)
    }
}
impl<'de> serde::Deserialize<'de> for Node {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Node::try_from(hex_de(d)?.as_ref()).map_err(serde::de::Error::custom)
    }
}


// ---------------------------------------------------------------- arrays (SSZ vectors)
impl<T: Serializable, const N: usize> Serializable for [T; N] {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        if T::is_variable_size() {
            0
        } else {
            T::size_hint() * N
        }
    }
}
impl<T: Serializable, const N: usize> Serialize for [T; N] {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        serialize_seq(self, b)
    }
}
impl<T: Serializable, const N: usize> Deserialize for [T; N] {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() {
            exact(e, T::size_hint() * N)?;
        }
        let v = deserialize_seq::<T>(e)?;
        let n = v.len();
        v.try_into().map_err(|_| {
            DeserializeError::InvalidInstance(InstanceError::Exact { required: N, provided: n })
        })
    }
}
impl<T: Serializable + HashTreeRoot, const N: usize> HashTreeRoot for [T; N] {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let (c, l) = seq_chunks(self, N as u64)?;
        Ok(merkleize_chunks(c, Some(l)))
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for [T; N] {
    fn chunk_count() -> usize {
        (N * T::item_length()).div_ceil(32)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        Vector::<T, N>::compute_generalized_index(parent, path)
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for [T; N] {}

// ---------------------------------------------------------------- Vector

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Vector<T, const N: usize> {
    data: Vec<T>,
}
impl<T: fmt::Debug, const N: usize> fmt::Debug for Vector<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(&self.data).finish()
    }
}
impl<T: Default, const N: usize> Default for Vector<T, N> {
    fn default() -> Self {
        assert!(N > 0);
        Self { data: (0..N).map(|_| T::default()).collect() }
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for Vector<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() != N {
            let provided = data.len();
            Err((data, InstanceError::Exact { required: N, provided }.into()))
        } else {
            Ok(Self { data })
        }
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for Vector<T, N> {
    type Error = SimpleSerializeError;
    fn try_from(data: &[T]) -> Result<Self, Self::Error> {
        Self::try_from(data.to_vec()).map_err(|e| e.1)
    }
}
impl<T, const N: usize> From<[T; N]> for Vector<T, N> {
    fn from(a: [T; N]) -> Self {
        Self { data: a.into() }
    }
}
impl<T, const N: usize> AsRef<[T]> for Vector<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.data
    }
}
impl<T, const N: usize> AsMut<[T]> for Vector<T, N> {
    fn as_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
impl<T, const N: usize> Deref for Vector<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.data
    }
}
impl<T, const N: usize> DerefMut for Vector<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.data
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for Vector<T, N> {
    type Output = I::Output;
    fn index(&self, i: I) -> &I::Output {
        &self.data[i]
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for Vector<T, N> {
    fn index_mut(&mut self, i: I) -> &mut I::Output {
        &mut self.data[i]
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a Vector<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter()
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a mut Vector<T, N> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter_mut()
    }
}
impl<T, const N: usize> IntoIterator for Vector<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.into_iter()
    }
}
impl<T: Serializable, const N: usize> Serializable for Vector<T, N> {
    fn is_variable_size() -> bool {
        T::is_variable_size()
    }
    fn size_hint() -> usize {
        if T::is_variable_size() {
            0
        } else {
            T::size_hint() * N
        }
    }
}
impl<T: Serializable, const N: usize> Serialize for Vector<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        serialize_seq(&self.data, b)
    }
}
impl<T: Serializable, const N: usize> Deserialize for Vector<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        if !T::is_variable_size() {
            exact(e, T::size_hint() * N)?;
        }
        let v = deserialize_seq::<T>(e)?;
        let n = v.len();
        Self::try_from(v).map_err(|_| DeserializeError::InvalidInstance(InstanceError::Exact { required: N, provided: n }))
    }
}
impl<T: Serializable + HashTreeRoot, const N: usize> HashTreeRoot for Vector<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        let (c, l) = seq_chunks(&self.data, N as u64)?;
        Ok(merkleize_chunks(c, Some(l)))
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for Vector<T, N> {
    fn chunk_count() -> usize {
        (N * T::item_length()).div_ceil(32)
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Index(i), rest)) if *i < N => T::compute_generalized_index(
                parent * Self::chunk_count().next_power_of_two() + i * T::item_length() / 32,
                rest,
            ),
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for Vector<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for Vector<T, N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.data.serialize(s)
    }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for Vector<T, N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<T>::deserialize(d)?;
        Self::try_from(v).map_err(|e| serde::de::Error::custom(e.1))
    }
}

// ---------------------------------------------------------------- List

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct List<T, const N: usize> {
    data: Vec<T>,
}
impl<T: fmt::Debug, const N: usize> fmt::Debug for List<T, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(&self.data).finish()
    }
}
impl<T, const N: usize> Default for List<T, N> {
    fn default() -> Self {
        Self { data: vec![] }
    }
}
impl<T, const N: usize> List<T, N> {
    pub fn push(&mut self, element: T) {
        assert!(self.data.len() < N, "list is full");
        self.data.push(element);
    }
    pub fn into_inner(self) -> Vec<T> {
        self.data
    }
}
impl<T, const N: usize> TryFrom<Vec<T>> for List<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(data: Vec<T>) -> Result<Self, Self::Error> {
        if data.len() > N {
            let provided = data.len();
            Err((data, InstanceError::Bounded { bound: N, provided }.into()))
        } else {
            Ok(Self { data })
        }
    }
}
impl<T: Clone, const N: usize> TryFrom<&[T]> for List<T, N> {
    type Error = SimpleSerializeError;
    fn try_from(data: &[T]) -> Result<Self, Self::Error> {
        Self::try_from(data.to_vec()).map_err(|e| e.1)
    }
}
impl<T, const N: usize, const M: usize> TryFrom<[T; M]> for List<T, N> {
    type Error = (Vec<T>, SimpleSerializeError);
    fn try_from(a: [T; M]) -> Result<Self, Self::Error> {
        Self::try_from(Vec::from(a))
    }
}
impl<T, const N: usize> FromIterator<T> for List<T, N> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let data: Vec<T> = iter.into_iter().collect();
        assert!(data.len() <= N);
        Self { data }
    }
}
impl<T, const N: usize> AsRef<[T]> for List<T, N> {
    fn as_ref(&self) -> &[T] {
        &self.data
    }
}
impl<T, const N: usize> AsMut<[T]> for List<T, N> {
    fn as_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
impl<T, const N: usize> Deref for List<T, N> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.data
    }
}
impl<T, const N: usize> DerefMut for List<T, N> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.data
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> Index<I> for List<T, N> {
    type Output = I::Output;
    fn index(&self, i: I) -> &I::Output {
        &self.data[i]
    }
}
impl<T, I: SliceIndex<[T]>, const N: usize> IndexMut<I> for List<T, N> {
    fn index_mut(&mut self, i: I) -> &mut I::Output {
        &mut self.data[i]
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a List<T, N> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter()
    }
}
impl<'a, T, const N: usize> IntoIterator for &'a mut List<T, N> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter_mut()
    }
}
impl<T, const N: usize> IntoIterator for List<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.into_iter()
    }
}
impl<T: Serializable, const N: usize> Serializable for List<T, N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<T: Serializable, const N: usize> Serialize for List<T, N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        if self.data.len() > N {
            return Err(SerializeError::InvalidInstance(InstanceError::Bounded {
                bound: N,
                provided: self.data.len(),
            }));
        }
        serialize_seq(&self.data, b)
    }
}
impl<T: Serializable, const N: usize> Deserialize for List<T, N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let v = deserialize_seq::<T>(e)?;
        let n = v.len();
        Self::try_from(v).map_err(|_| DeserializeError::InvalidInstance(InstanceError::Bounded { bound: N, provided: n }))
    }
}
impl<T: Serializable + HashTreeRoot, const N: usize> HashTreeRoot for List<T, N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.data.len() > N {
            return Err(MerkleizationError::InputExceedsLimit(N));
        }
        let (c, l) = seq_chunks(&self.data, N as u64)?;
        Ok(mix_in_length(merkleize_chunks(c, Some(l)), self.data.len()))
    }
}
impl<T: GeneralizedIndexable, const N: usize> GeneralizedIndexable for List<T, N> {
    fn chunk_count() -> usize {
        ((N as u128 * T::item_length() as u128).div_ceil(32)) as usize
    }
    fn compute_generalized_index(parent: usize, path: Path) -> Result<usize, MerkleizationError> {
        match path.split_first() {
            None => Ok(parent),
            Some((PathElement::Length, [])) => Ok(parent * 2 + 1),
            Some((PathElement::Index(i), rest)) if *i < N => T::compute_generalized_index(
                parent * 2 * Self::chunk_count().next_power_of_two() + i * T::item_length() / 32,
                rest,
            ),
            Some((e, _)) => Err(MerkleizationError::InvalidPathElement(e.clone())),
        }
    }
}
impl<T: SimpleSerialize, const N: usize> SimpleSerialize for List<T, N> {}
impl<T: serde::Serialize, const N: usize> serde::Serialize for List<T, N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.data.serialize(s)
    }
}
impl<'de, T: serde::Deserialize<'de>, const N: usize> serde::Deserialize<'de> for List<T, N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = Vec::<T>::deserialize(d)?;
        Self::try_from(v).map_err(|e| serde::de::Error::custom(e.1))
    }
}

// ---------------------------------------------------------------- bitfields

type Bits = BitVec<u8, Lsb0>;

fn bits_bytes(b: &Bits) -> Vec<u8> {
    let mut out = vec![0u8; b.len().div_ceil(8)];
    for i in b.iter_ones() {
        out[i / 8] |= 1 << (i % 8);
    }
    out
}

#[derive(Clone, PartialEq, Eq)]
pub struct Bitvector<const N: usize>(Bits);
impl<const N: usize> Hash for Bitvector<N> {
    fn hash<H: Hasher>(&self, s: &mut H) {
        bits_bytes(&self.0).hash(s)
    }
}
impl<const N: usize> Default for Bitvector<N> {
    fn default() -> Self {
        Self(Bits::repeat(false, N))
    }
}
impl<const N: usize> fmt::Debug for Bitvector<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Bitvector<len={N}>[")?;
        for b in self.0.iter() {
            write!(f, "{}", *b as u8)?;
        }
        write!(f, "]")
    }
}
impl<const N: usize> Deref for Bitvector<N> {
    type Target = Bits;
    fn deref(&self) -> &Bits {
        &self.0
    }
}
impl<const N: usize> DerefMut for Bitvector<N> {
    fn deref_mut(&mut self) -> &mut Bits {
        &mut self.0
    }
}
impl<const N: usize> FromIterator<bool> for Bitvector<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(iter: I) -> Self {
        let mut s = Self::default();
        for (i, b) in iter.into_iter().take(N).enumerate() {
            s.0.set(i, b);
        }
        s
    }
}
impl<const N: usize> TryFrom<&[u8]> for Bitvector<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
        <Self as Deserialize>::deserialize(b)
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitvector<N> {
    type Error = InstanceError;
    fn try_from(b: &[bool]) -> Result<Self, Self::Error> {
        if b.len() != N {
            return Err(InstanceError::Exact { required: N, provided: b.len() });
        }
        Ok(b.iter().copied().collect())
    }
}
impl<const N: usize> Serializable for Bitvector<N> {
    fn is_variable_size() -> bool {
        false
    }
    fn size_hint() -> usize {
        N.div_ceil(8)
    }
}
impl<const N: usize> Serialize for Bitvector<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let v = bits_bytes(&self.0);
        b.extend_from_slice(&v);
        Ok(v.len())
    }
}
impl<const N: usize> Deserialize for Bitvector<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        exact(e, N.div_ceil(8))?;
        for i in N..e.len() * 8 {
            if e[i / 8] >> (i % 8) & 1 == 1 {
                return Err(DeserializeError::InvalidByte(e[i / 8]));
            }
        }
        Ok((0..N).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect())
    }
}
impl<const N: usize> HashTreeRoot for Bitvector<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        Ok(merkleize_chunks(pack(&bits_bytes(&self.0)), Some((N as u64).div_ceil(256))))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitvector<N> {}
impl<const N: usize> SimpleSerialize for Bitvector<N> {}
impl<const N: usize> serde::Serialize for Bitvector<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        hex_ser(&crate::serialize(self).map_err(serde::ser::Error::custom)?, s)
    }
}
impl<'de, const N: usize> serde::Deserialize<'de> for Bitvector<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <Self as Deserialize>::deserialize(&hex_de(d)?).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, PartialEq, Eq, Default)]
pub struct Bitlist<const N: usize>(Bits);
impl<const N: usize> Hash for Bitlist<N> {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.0.len().hash(s);
        bits_bytes(&self.0).hash(s)
    }
}
impl<const N: usize> fmt::Debug for Bitlist<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Bitlist<len={}, cap={N}>[", self.0.len())?;
        for b in self.0.iter() {
            write!(f, "{}", *b as u8)?;
        }
        write!(f, "]")
    }
}
impl<const N: usize> Bitlist<N> {
    pub fn with_length(length: usize) -> Self {
        Self(Bits::repeat(false, length))
    }
    pub fn get(&self, index: usize) -> Option<bool> {
        self.0.get(index).map(|b| *b)
    }
    pub fn set(&mut self, index: usize, value: bool) -> Option<bool> {
        self.0.get_mut(index).map(|mut b| std::mem::replace(&mut *b, value))
    }
    pub fn capacity(&self) -> usize {
        N
    }
}
impl<const N: usize> Deref for Bitlist<N> {
    type Target = Bits;
    fn deref(&self) -> &Bits {
        &self.0
    }
}
impl<const N: usize> DerefMut for Bitlist<N> {
    fn deref_mut(&mut self) -> &mut Bits {
        &mut self.0
    }
}
impl<const N: usize> FromIterator<bool> for Bitlist<N> {
    fn from_iter<I: IntoIterator<Item = bool>>(iter: I) -> Self {
        let b: Bits = iter.into_iter().collect();
        assert!(b.len() <= N);
        Self(b)
    }
}
impl<const N: usize> TryFrom<&[u8]> for Bitlist<N> {
    type Error = DeserializeError;
    fn try_from(b: &[u8]) -> Result<Self, Self::Error> {
        <Self as Deserialize>::deserialize(b)
    }
}
impl<const N: usize> TryFrom<&[bool]> for Bitlist<N> {
    type Error = InstanceError;
    fn try_from(b: &[bool]) -> Result<Self, Self::Error> {
        if b.len() > N {
            return Err(InstanceError::Bounded { bound: N, provided: b.len() });
        }
        Ok(b.iter().copied().collect())
    }
}
impl<const N: usize> Serializable for Bitlist<N> {
    fn is_variable_size() -> bool {
        true
    }
    fn size_hint() -> usize {
        0
    }
}
impl<const N: usize> Serialize for Bitlist<N> {
    fn serialize(&self, b: &mut Vec<u8>) -> Result<usize, SerializeError> {
        let n = self.0.len();
        if n > N {
            return Err(SerializeError::InvalidInstance(InstanceError::Bounded { bound: N, provided: n }));
        }
        let mut v = bits_bytes(&self.0);
        v.resize(n / 8 + 1, 0);
        v[n / 8] |= 1 << (n % 8);
        b.extend_from_slice(&v);
        Ok(v.len())
    }
}
impl<const N: usize> Deserialize for Bitlist<N> {
    fn deserialize(e: &[u8]) -> Result<Self, DeserializeError> {
        let last = *e
            .last()
            .ok_or(DeserializeError::ExpectedFurtherInput { provided: 0, expected: 1 })?;
        if last == 0 {
            return Err(DeserializeError::InvalidByte(0));
        }
        let n = (e.len() - 1) * 8 + 7 - last.leading_zeros() as usize;
        if n > N {
            return Err(DeserializeError::InvalidInstance(InstanceError::Bounded {
                bound: N,
                provided: n,
            }));
        }
        Ok((0..n).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect())
    }
}
impl<const N: usize> HashTreeRoot for Bitlist<N> {
    fn hash_tree_root(&self) -> Result<Node, MerkleizationError> {
        if self.0.len() > N {
            return Err(MerkleizationError::InputExceedsLimit(N));
        }
        Ok(mix_in_length(
            merkleize_chunks(pack(&bits_bytes(&self.0)), Some((N as u64).div_ceil(256))),
            self.0.len(),
        ))
    }
}
impl<const N: usize> GeneralizedIndexable for Bitlist<N> {}
impl<const N: usize> SimpleSerialize for Bitlist<N> {}
impl<const N: usize> serde::Serialize for Bitlist<N> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        hex_ser(&crate::serialize(self).map_err(serde::ser::Error::custom)?, s)
    }
}
impl<'de, const N: usize> serde::Deserialize<'de> for Bitlist<N> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <Self as Deserialize>::deserialize(&hex_de(d)?).map_err(serde::de::Error::custom)
    }
}

impl FromStr for Node {
    type Err = DeserializeError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let b = hex::decode(s.strip_prefix("0x").unwrap_or(s))
            .map_err(|_| DeserializeError::InvalidByte(0))?;
        Node::deserialize(&b)
    }
}

use crate::PathElement;
use std::fmt;

macro_rules! err {
    ($t:ident) => {
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{self:?}")
            }
        }
        impl std::error::Error for $t {}
    };
}
#[derive(Debug, Clone)]
pub enum InstanceError {
    Exact { required: usize, provided: usize },
    Bounded { bound: usize, provided: usize },
}
#[derive(Debug, Clone)]
pub enum SerializeError {
    MaximumEncodedLengthExceeded(usize),
    InvalidInstance(InstanceError),
    InvalidType(&'static str),
}
#[derive(Debug, Clone)]
pub enum DeserializeError {
    ExpectedFurtherInput { provided: usize, expected: usize },
    AdditionalInput { provided: usize, expected: usize },
    InvalidByte(u8),
    InvalidOffset(usize),
    InvalidInstance(InstanceError),
}
#[derive(Debug, Clone)]
pub enum MerkleizationError {
    SerializationError(SerializeError),
    InputExceedsLimit(usize),
    InvalidGeneralizedIndex,
    InvalidPathElement(PathElement),
    InvalidPath(Vec<PathElement>),
    InvalidDepth,
    NoInnerElement,
    NotChunked,
    InvalidProof,
    InvalidInstance(InstanceError),
}
#[derive(Debug, Clone)]
pub enum SimpleSerializeError {
    Serialize(SerializeError),
    Deserialize(DeserializeError),
    Merkleization(MerkleizationError),
    Instance(InstanceError),
}
err!(InstanceError);
err!(SerializeError);
err!(DeserializeError);
err!(MerkleizationError);
err!(SimpleSerializeError);
impl From<SerializeError> for SimpleSerializeError {
    fn from(e: SerializeError) -> Self {
        Self::Serialize(e)
    }
}
impl From<DeserializeError> for SimpleSerializeError {
    fn from(e: DeserializeError) -> Self {
        Self::Deserialize(e)
    }
}
impl From<MerkleizationError> for SimpleSerializeError {
    fn from(e: MerkleizationError) -> Self {
        Self::Merkleization(e)
    }
}
impl From<InstanceError> for SimpleSerializeError {
    fn from(e: InstanceError) -> Self {
        Self::Instance(e)
    }
}
impl From<InstanceError> for DeserializeError {
    fn from(e: InstanceError) -> Self {
        Self::InvalidInstance(e)
    }
}
impl From<InstanceError> for SerializeError {
    fn from(e: InstanceError) -> Self {
        Self::InvalidInstance(e)
    }
}
impl From<SerializeError> for MerkleizationError {
    fn from(e: SerializeError) -> Self {
        Self::SerializationError(e)
    }
}
impl From<InstanceError> for MerkleizationError {
    fn from(e: InstanceError) -> Self {
        Self::InvalidInstance(e)
    }
}

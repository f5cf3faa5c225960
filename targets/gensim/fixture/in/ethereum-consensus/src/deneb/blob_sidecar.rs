use crate::{
    crypto::{KzgCommitment, KzgProof},
    deneb::SignedBeaconBlockHeader,
    primitives::{BlobIndex, Bytes32, Root},
    ssz::prelude::*,
    Error,
};
use ssz_rs::proofs::get_subtree_index;

pub const VERSIONED_HASH_VERSION_KZG: u8 = 1;
pub type VersionedHash = Bytes32;

pub type Blob<const BYTES_PER_BLOB: usize> = ByteVector<BYTES_PER_BLOB>;

#[derive(
    Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize,
)]
pub struct BlobIdentifier {
    pub block_root: Root,
    #[serde(with = "crate::serde::as_str")]
    pub index: BlobIndex,
}

#[derive(Default, Debug, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct BlobsBundle<const BYTES_PER_BLOB: usize> {
    pub commitments: Vec<KzgCommitment>,
    pub proofs: Vec<KzgProof>,
    pub blobs: Vec<Blob<BYTES_PER_BLOB>>,
}

#[derive(
    Default, Debug, Clone, SimpleSerialize, PartialEq, Eq, serde::Serialize, serde::Deserialize,
)]
pub struct BlobSidecar<
    const BYTES_PER_BLOB: usize,
    const KZG_COMMITMENT_INCLUSION_PROOF_DEPTH: usize,
> {
    #[serde(with = "crate::serde::as_str")]
    pub index: BlobIndex,
    pub blob: Blob<BYTES_PER_BLOB>,
    pub kzg_commitment: KzgCommitment,
    pub kzg_proof: KzgProof,
    pub signed_block_header: SignedBeaconBlockHeader,
    pub kzg_commitment_inclusion_proof: Vector<Node, KZG_COMMITMENT_INCLUSION_PROOF_DEPTH>,
}

pub fn verify_blob_sidecar_inclusion_proof<
    const KZG_COMMITMENT_INCLUSION_PROOF_DEPTH: usize,
    const BYTES_PER_BLOB: usize,
    BlockBody: SimpleSerialize,
>(
    blob_sidecar: &BlobSidecar<BYTES_PER_BLOB, KZG_COMMITMENT_INCLUSION_PROOF_DEPTH>,
) -> Result<(), Error> {
    let path = &["blob_kzg_commitments".into(), blob_sidecar.index.into()];
    let g_index = BlockBody::generalized_index(path)?;
    let subtree_index = get_subtree_index(g_index)?;

    let leaf = blob_sidecar.kzg_commitment.hash_tree_root()?;
    let branch = blob_sidecar.kzg_commitment_inclusion_proof.as_ref();
    let root = blob_sidecar.signed_block_header.message.body_root;

    is_valid_merkle_branch(leaf, branch, KZG_COMMITMENT_INCLUSION_PROOF_DEPTH, subtree_index, root)
        .map_err(Into::into)
}


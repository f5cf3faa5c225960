use crate::{hash2, GeneralizedIndex, MerkleizationError, Node};

pub fn log_2(x: usize) -> Option<u32> {
    if x == 0 {
        None
    } else {
        Some(usize::BITS - 1 - x.leading_zeros())
    }
}
pub fn get_depth(g: GeneralizedIndex) -> Result<u32, MerkleizationError> {
    log_2(g).ok_or(MerkleizationError::InvalidGeneralizedIndex)
}
pub fn get_subtree_index(g: GeneralizedIndex) -> Result<usize, MerkleizationError> {
    Ok(g % (1usize << get_depth(g)?))
}
pub fn is_valid_merkle_branch<T: AsRef<[u8]>>(
    leaf: Node,
    branch: &[T],
    depth: usize,
    index: usize,
    root: Node,
) -> Result<(), MerkleizationError> {
    if branch.len() < depth {
        return Err(MerkleizationError::InvalidProof);
    }
    let mut v = leaf.0;
    for (i, node) in branch.iter().enumerate().take(depth) {
        let n: [u8; 32] =
            node.as_ref().try_into().map_err(|_| MerkleizationError::InvalidProof)?;
        v = if i < 64 && (index >> i) & 1 == 1 { hash2(&n, &v) } else { hash2(&v, &n) };
    }
    if v == root.0 {
        Ok(())
    } else {
        Err(MerkleizationError::InvalidProof)
    }
}
pub fn is_valid_merkle_branch_for_generalized_index<T: AsRef<[u8]>>(
    leaf: Node,
    branch: &[T],
    g: GeneralizedIndex,
    root: Node,
) -> Result<(), MerkleizationError> {
    let depth = get_depth(g)? as usize;
    if branch.len() != depth {
        return Err(MerkleizationError::InvalidProof);
    }
    is_valid_merkle_branch(leaf, branch, depth, get_subtree_index(g)?, root)
}

//! a batch of blobs verifies only with one proof for each blob
mod kit;
use ethereum_consensus::{crypto::kzg, deneb::mainnet as spec, state_transition::Context};
fn main() {
    let context = Context::for_mainnet();
    let settings = &context.kzg_settings;
    let mut blobs = vec![];
    let (mut commitments, mut proofs) = (vec![], vec![]);
    for i in 0..3u8 {
        let mut b = vec![0u8; spec::BYTES_PER_BLOB];
        b[31] = i + 1;
        let blob = spec::Blob::try_from(b.as_ref()).unwrap();
        let c = kzg::blob_to_kzg_commitment(&blob, settings).unwrap();
        proofs.push(kzg::compute_blob_kzg_proof(&blob, &c, settings).unwrap());
        commitments.push(c);
        blobs.push(blob);
    }
    for (b, c, p) in [(3, 3, 3), (2, 2, 3), (2, 3, 2), (3, 2, 3), (3, 3, 2), (1, 1, 3), (0, 0, 1)] {
        let ok = kzg::verify_blob_kzg_proof_batch(&blobs[..b], &commitments[..c], &proofs[..p], settings).is_ok();
        kit::check(ok == (b == c && c == p), &format!("{b} blobs, {c} commitments, {p} proofs: {ok}"));
    }
}

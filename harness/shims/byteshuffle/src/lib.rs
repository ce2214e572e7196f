//! Offline stand-in for `byteshuffle`: transposes an array of fixed-size
//! elements so that the k'th bytes of all elements are adjacent.  A trailing
//! partial element is copied unchanged.
pub fn shuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = Vec::with_capacity(src.len());
    for b in 0..typesize { for e in 0..n { out.push(src[e * typesize + b]); } }
    out.extend_from_slice(&src[n * typesize..]);
    out
}
pub fn unshuffle(typesize: usize, src: &[u8]) -> Vec<u8> {
    let n = src.len() / typesize;
    let mut out = vec![0u8; src.len()];
    for b in 0..typesize { for e in 0..n { out[e * typesize + b] = src[b * n + e]; } }
    out[n * typesize..].copy_from_slice(&src[n * typesize..]);
    out
}

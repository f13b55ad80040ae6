use super::*;
/// SHA-512 of data absorbed in the given pieces.
pub fn sha512(pieces: &[&[u8]]) -> [u8; 64] {
    let mut h = Hash::new();
    for p in pieces { h.update(p); }
    h.finalize()
}

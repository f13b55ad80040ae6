use super::*;
pub fn blake2b(outlen: usize, pieces: &[&[u8]]) -> Vec<u8> {
    let mut h = Blake2b::new(outlen);
    for p in pieces { h.update(p); }
    let mut o = vec![0; outlen];
    h.finalize(&mut o);
    o
}

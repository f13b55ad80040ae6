use super::*;
pub type L = [u64; 5];
#[derive(Clone, Copy)]
pub struct P3(GeP3);
/// -P for the point with this encoding, or None.
pub fn decode_negated(b: &[u8; 32]) -> Option<P3> { GeP3::from_bytes_negate_vartime(b).map(P3) }
pub fn coords(x: L, y: L, z: L, t: L) -> P3 { P3(GeP3 { x: Fe(x), y: Fe(y), z: Fe(z), t: Fe(t) }) }
pub fn encode(p: &P3) -> [u8; 32] { p.0.to_bytes() }
pub fn encode2(p: &P3) -> [u8; 32] { p.0.to_p2().to_bytes() }
pub fn double(p: &P3) -> P3 { P3(p.0.dbl().to_p3()) }
pub fn double2(p: &P3) -> [u8; 32] { p.0.to_p2().dbl().to_p2().to_bytes() }
pub fn add(p: &P3, q: &P3) -> P3 { P3((p.0 + q.0.to_cached()).to_p3()) }
pub fn sub(p: &P3, q: &P3) -> P3 { P3((p.0 - q.0.to_cached()).to_p3()) }
pub fn base_mult(s: &[u8; 32]) -> P3 { P3(ge_scalarmult_base(s)) }
/// a*A + b*B
pub fn double_mult(a: &[u8; 32], p: &P3, b: &[u8; 32]) -> [u8; 32] { GeP2::double_scalarmult_vartime(a, p.0, b).to_bytes() }
pub fn neutral(b: &[u8; 32]) -> bool { is_identity(b) }
pub fn select(p: &P3, q: &P3, c: u8) -> P3 { let mut r = p.0; r.maybe_set(&q.0, c); P3(r) }

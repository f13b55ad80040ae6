use super::*;
pub type L = [u64; 5];
pub fn fiat_mul(a: &L, b: &L) -> L { let mut o = [0; 5]; fiat_25519_carry_mul(&mut o, a, b); o }
pub fn fiat_square(a: &L) -> L { let mut o = [0; 5]; fiat_25519_carry_square(&mut o, a); o }
pub fn fiat_carry(a: &L) -> L { let mut o = [0; 5]; fiat_25519_carry(&mut o, a); o }
pub fn fiat_add(a: &L, b: &L) -> L { let mut o = [0; 5]; fiat_25519_add(&mut o, a, b); o }
pub fn fiat_sub(a: &L, b: &L) -> L { let mut o = [0; 5]; fiat_25519_sub(&mut o, a, b); o }
pub fn fiat_opp(a: &L) -> L { let mut o = [0; 5]; fiat_25519_opp(&mut o, a); o }
pub fn fiat_select(c: u8, a: &L, b: &L) -> L { let mut o = [0; 5]; fiat_25519_selectznz(&mut o, c, a, b); o }
pub fn fiat_bytes(a: &L) -> [u8; 32] { let mut o = [0; 32]; fiat_25519_to_bytes(&mut o, a); o }
pub fn from_bytes(b: &[u8; 32]) -> L { Fe::from_bytes(b).0 }
pub fn to_bytes(a: &L) -> [u8; 32] { Fe(*a).to_bytes() }
pub fn add(a: &L, b: &L) -> L { (Fe(*a) + Fe(*b)).0 }
pub fn sub(a: &L, b: &L) -> L { (Fe(*a) - Fe(*b)).0 }
pub fn mul(a: &L, b: &L) -> L { (Fe(*a) * Fe(*b)).0 }
pub fn neg(a: &L) -> L { Fe(*a).neg().0 }
pub fn square(a: &L) -> L { Fe(*a).square().0 }
pub fn square_and_double(a: &L) -> L { Fe(*a).square_and_double().0 }
pub fn invert(a: &L) -> L { Fe(*a).invert().0 }
pub fn pow25523(a: &L) -> L { Fe(*a).pow25523().0 }
pub fn is_nonzero(a: &L) -> bool { Fe(*a).is_nonzero() }
pub fn is_negative(a: &L) -> bool { Fe(*a).is_negative() }

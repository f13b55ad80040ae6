use super::*;
pub fn reduce(s: &[u8; 64]) -> [u8; 32] { let mut t = *s; sc_reduce(&mut t); t[..32].try_into().unwrap() }
pub fn muladd(a: &[u8; 32], b: &[u8; 32], c: &[u8; 32]) -> [u8; 32] { let mut o = [0u8; 32]; sc_muladd(&mut o, a, b, c); o }

use super::*;
pub fn below_order(s: &[u8; 32]) -> bool { check_s_lt_l(s) }

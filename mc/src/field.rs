//! Reference arithmetic modulo p = 2^255-19 and on 256-bit integers, written
//! for obviousness; used to judge the library's field and curve code.
pub type F = [u64; 4];
pub const P: F = [0xffff_ffff_ffff_ffed, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ffff];

pub fn geq(a: &[u64], b: &[u64]) -> bool {
    for i in (0..a.len()).rev() { if a[i] != b[i] { return a[i] > b[i]; } }
    true
}
pub fn sub_n<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut r = [0; N];
    let mut c = false;
    for i in 0..N { let (x, c1) = a[i].overflowing_sub(b[i]); let (y, c2) = x.overflowing_sub(c as u64); r[i] = y; c = c1 | c2; }
    (r, c)
}
pub fn add_n<const N: usize>(a: &[u64; N], b: &[u64; N]) -> ([u64; N], bool) {
    let mut r = [0; N];
    let mut c = false;
    for i in 0..N { let (x, c1) = a[i].overflowing_add(b[i]); let (y, c2) = x.overflowing_add(c as u64); r[i] = y; c = c1 | c2; }
    (r, c)
}
/// Value of 8 words modulo p.
pub fn reduce(w: &[u64; 8]) -> F {
    // 2^256 = 38
    let mut r = [0u64; 5];
    let mut c = 0u128;
    for i in 0..4 { c += w[i] as u128 + 38 * w[i + 4] as u128; r[i] = c as u64; c >>= 64; }
    r[4] = c as u64;
    let mut f = [r[0], r[1], r[2], r[3]];
    let mut c = 38 * r[4] as u128;
    for x in f.iter_mut() { c += *x as u128; *x = c as u64; c >>= 64; }
    if c > 0 { f[0] = f[0].wrapping_add(38); }
    while geq(&f, &P) { f = sub_n(&f, &P).0; }
    f
}
pub fn small(x: u64) -> F { [x, 0, 0, 0] }
pub fn add(a: &F, b: &F) -> F { let (r, _) = add_n(a, b); if geq(&r, &P) { sub_n(&r, &P).0 } else { r } }
pub fn sub(a: &F, b: &F) -> F { let (r, c) = sub_n(a, b); if c { add_n(&r, &P).0 } else { r } }
pub fn neg(a: &F) -> F { sub(&[0; 4], a) }
pub fn wide(a: &[u64; 4], b: &[u64; 4]) -> [u64; 8] {
    let mut w = [0u64; 8];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 { c += w[i + j] as u128 + a[i] as u128 * b[j] as u128; w[i + j] = c as u64; c >>= 64; }
        w[i + 4] = c as u64;
    }
    w
}
pub fn mul(a: &F, b: &F) -> F { reduce(&wide(a, b)) }
pub fn pow(a: &F, e: &[u64; 4]) -> F {
    let mut r = small(1);
    for i in (0..256).rev() { r = mul(&r, &r); if e[i / 64] >> (i % 64) & 1 == 1 { r = mul(&r, a); } }
    r
}
pub fn invert(a: &F) -> F { pow(a, &sub_n(&P, &small(2)).0) }
pub const E5_8: [u64; 4] = [0xffff_ffff_ffff_fffd, u64::MAX, u64::MAX, 0x0fff_ffff_ffff_ffff];
/// A square root, if there is one.
pub fn sqrt(a: &F) -> Option<F> {
    // candidates a^((p+3)/8), times sqrt(-1) = 2^((p-1)/4)
    let e = [0xffff_ffff_ffff_fffe, u64::MAX, u64::MAX, 0x0fff_ffff_ffff_ffff];
    let r = pow(a, &e);
    if mul(&r, &r) == *a { return Some(r); }
    let i = pow(&small(2), &[0xffff_ffff_ffff_fffb, u64::MAX, u64::MAX, 0x1fff_ffff_ffff_ffff]);
    let r = mul(&r, &i);
    (mul(&r, &r) == *a).then_some(r)
}
pub fn d() -> F { mul(&neg(&small(121665)), &invert(&small(121666))) }
pub fn to_bytes(a: &F) -> [u8; 32] { let mut b = [0; 32]; for i in 0..4 { b[8 * i..8 * i + 8].copy_from_slice(&a[i].to_le_bytes()); } b }
pub fn words(b: &[u8; 32]) -> [u64; 4] { std::array::from_fn(|i| u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap())) }
/// Value of five limbs of weight 2^51 (any 64-bit limbs).
pub fn of_limbs(l: &[u64; 5]) -> F {
    let mut w = [0u64; 8];
    for i in 0..5 {
        let (q, s) = (51 * i / 64, 51 * i % 64);
        let v = (l[i] as u128) << s;
        let (lo, hi) = (v as u64, (v >> 64) as u64);
        let mut t = [0u64; 8];
        t[q] = lo;
        t[q + 1] = hi;
        w = add_n(&w, &t).0;
    }
    reduce(&w)
}
/// The reduced limbs of a value.
pub fn limbs(a: &F) -> [u64; 5] {
    let m = (1u64 << 51) - 1;
    let bit = |i: usize| { let (q, s) = (i / 64, i % 64); let mut v = a[q] >> s; if s > 13 && q < 3 { v |= a[q + 1] << (64 - s); } v & m };
    [bit(0), bit(51), bit(102), bit(153), bit(204)]
}
pub fn selftest() -> Result<(), String> {
    let x = [0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0x0f0f_f0f0_1234_5678, 0x7abc_def0_1122_3344];
    if mul(&x, &invert(&x)) != small(1) { return Err("field inversion".into()); }
    if of_limbs(&limbs(&x)) != x { return Err("limbs".into()); }
    if sqrt(&mul(&x, &x)).map(|r| r == x || r == neg(&x)) != Some(true) { return Err("square root".into()); }
    if to_bytes(&d())[..8] != [0xa3, 0x78, 0x59, 0x13, 0xca, 0x4d, 0xeb, 0x75] { return Err("curve constant".into()); }
    if sub(&small(3), &small(5)) != neg(&small(2)) || add(&neg(&small(2)), &small(5)) != small(3) { return Err("addition".into()); }
    Ok(())
}

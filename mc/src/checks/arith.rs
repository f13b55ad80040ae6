//! C24: hash and curve arithmetic.
#![allow(unused_imports, dead_code)]
use crate::engine::*;
use crate::env::*;
use crate::field::{self, F};
use crate::refm::*;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use minisign::{sign, verify, KeyPair, PublicKey, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::sync::Arc;

pub fn checks() -> Vec<CheckDef> {
    vec![CheckDef { id: "C24", level: "model_checking", rule: "operands built from boundary alphabets for every limb (field), every 21-bit digit, multiples of the order and their neighbours (scalars), extreme representations and all torsion components (points), every length and splitting (hashes); each result compared with an exact reference; the internal functions are called directly where the tree still has them, and the public API always", assumptions: &["field operands are within the bounds the functions document (any reduced value is)", "hash inputs of at least 2^61 bytes are out of scope"], parts: c24 }]
}

const M51: u64 = (1 << 51) - 1;
pub type L5 = [u64; 5];
/// All five-limb values over an alphabet, by index.
fn limb(i: usize, alphabet: &[u64]) -> L5 { let n = alphabet.len(); std::array::from_fn(|k| alphabet[i / n.pow(k as u32) % n]) }
const TIGHT: u64 = 0x8cccccccccccc;
const LOOSE: u64 = 0x1a666666666664;

fn words_of(v: &[u64]) -> [u64; 8] { std::array::from_fn(|i| v.get(i).copied().unwrap_or(0)) }
fn bytes32(w: &[u64; 4]) -> [u8; 32] { field::to_bytes(w) }
/// 256-bit integers around everything that matters to arithmetic modulo L.
fn scalar_alphabet(dense: usize) -> Vec<[u8; 32]> {
    let l = field::words(&L_LE);
    let mut v: Vec<[u64; 4]> = vec![[0; 4], [u64::MAX; 4]];
    let mut near = |c: [u64; 4], k: u64| {
        for e in 0..=k { v.push(field::add_n(&c, &[e, 0, 0, 0]).0); v.push(field::sub_n(&c, &[e, 0, 0, 0]).0); }
    };
    let mut m = [0u64; 4];
    for _ in 0..=15 { near(m, 2); m = field::add_n(&m, &l).0; }
    for i in (0..256).step_by(dense) { let mut c = [0u64; 4]; c[i / 64] = 1 << (i % 64); near(c, 1); }
    for (lo, hi) in [(0, 21), (21, 42), (105, 126), (126, 128), (231, 252), (252, 253), (128, 252), (0, 252), (63, 64), (0, 255), (0, 253)] {
        let mut c = [0u64; 4];
        for i in lo..hi { c[i / 64] |= 1 << (i % 64); }
        near(c, 1);
    }
    for pat in [0x5555_5555_5555_5555u64, 0xaaaa_aaaa_aaaa_aaaa, 0x0f0f_0f0f_0f0f_0f0f, 0x8888_8888_8888_8888, 0xffff_ffff_0000_0000, 0x0000_0000_ffff_ffff, 0x1111_1111_1111_1111, 0x7777_7777_7777_7777, 0xefef_efef_efef_efef] { v.push([pat; 4]); v.push([pat & 0x7fff_ffff_ffff_ffff, pat, pat, pat >> 4]); }
    // 2^255-19 and its neighbours
    for e in 0..4 { v.push(field::add_n(&field::P, &[e, 0, 0, 0]).0); v.push(field::sub_n(&field::P, &[e, 0, 0, 0]).0); }
    let mut b: Vec<[u8; 32]> = v.iter().map(bytes32).collect();
    b.sort();
    b.dedup();
    b
}
/// 512-bit integers for reduction modulo L.
fn wide_alphabet(dense: usize) -> Vec<[u8; 64]> {
    let l = words_of(&field::words(&L_LE));
    let mut v: Vec<[u64; 8]> = vec![];
    let mut near = |c: [u64; 8], k: u64| { for e in 0..=k { let e = words_of(&[e]); v.push(field::add_n(&c, &e).0); v.push(field::sub_n(&c, &e).0); } };
    near([0; 8], 3);
    for i in (0..512).step_by(dense) { let mut c = [0u64; 8]; c[i / 64] = 1 << (i % 64); near(c, 1); }
    // multiples k*L for k = 2^j, 2^j-1, small k, and the largest
    let mul_l = |k: &[u64; 4]| field::wide(k, &field::words(&L_LE));
    for k in 0..300u64 { near(mul_l(&[k, 0, 0, 0]), 1); }
    for j in (0..256).step_by(dense) {
        let mut k = [0u64; 4];
        k[j / 64] = 1 << (j % 64);
        near(mul_l(&k), 2);
        near(mul_l(&field::sub_n(&k, &[1, 0, 0, 0]).0), 2);
        near(mul_l(&field::add_n(&k, &[1, 0, 0, 0]).0), 2);
    }
    near(mul_l(&[u64::MAX; 4]), 2);
    // shifted multiples of L (digits above 252 folded several times)
    for s in (1..259).step_by(dense) { let mut c = l; for _ in 0..s { let mut t = [0u64; 8]; for i in (0..8).rev() { t[i] = c[i] << 1 | if i > 0 { c[i - 1] >> 63 } else { 0 }; } c = t; } near(c, 2); }
    // every 21-bit digit at its extremes, alone and complemented, and pairs
    let digit = |c: &mut [u64; 8], d: usize, x: u64| for b in 0..21 { let p = 21 * d + b; if p < 512 { let m = 1u64 << (p % 64); if x >> b & 1 == 1 { c[p / 64] |= m } else { c[p / 64] &= !m } } };
    for d in 0..25 { for x in [1u64, 0xfffff, 0x100000, 0x1fffff, 0x1ffffe] {
        for base in [0, u64::MAX] { let mut c = [base; 8]; digit(&mut c, d, x); v.push(c); for e in 0..25 { for y in [0u64, 0x100000, 0x1fffff] { let mut f = c; digit(&mut f, e, y); v.push(f); } } }
    } }
    let mut b: Vec<[u8; 64]> = v.iter().map(|w| { let mut o = [0u8; 64]; for i in 0..8 { o[8 * i..8 * i + 8].copy_from_slice(&w[i].to_le_bytes()); } o }).collect();
    b.sort();
    b.dedup();
    b
}
/// k times a point, k any 256-bit integer (also for points with torsion).
fn times(k: &[u8; 32], p: &EdwardsPoint) -> EdwardsPoint {
    let mut r = EdwardsPoint::identity();
    for i in (0..256).rev() { r = r + r; if k[i / 8] >> (i % 8) & 1 == 1 { r += p; } }
    r
}
fn points(n: u64) -> Vec<EdwardsPoint> {
    let mut v: Vec<EdwardsPoint> = curve25519_dalek::constants::EIGHT_TORSION.to_vec();
    for i in 0..n {
        let p = EdwardsPoint::mul_base(&if i < 3 { Scalar::from(i + 1) } else { Scalar::from_bytes_mod_order_wide(&sha512(&[b"point", &i.to_le_bytes()])) });
        v.push(p);
        for t in [1, 4, 7] { v.push(p + curve25519_dalek::constants::EIGHT_TORSION[t]); }
        v.push(-p);
    }
    v
}
/// Field elements y whose encodings are worth decoding.
fn encodings(n: u64) -> Vec<[u8; 32]> {
    let mut v = vec![];
    for i in 0..n {
        v.push(bytes32(&field::small(i)));
        v.push(bytes32(&field::add_n(&field::P, &field::small(i)).0));
        v.push(bytes32(&field::sub_n(&field::P, &field::small(i)).0));
    }
    for i in 0..255 { let mut w = [0u64; 4]; w[i / 64] = 1 << (i % 64); v.push(bytes32(&w)); v.push(bytes32(&field::sub_n(&w, &field::small(1)).0)); v.push(bytes32(&field::sub_n(&field::P, &w).0)); }
    for i in 0..n { v.push(sha512(&[b"y", &i.to_le_bytes()])[..32].try_into().unwrap()); }
    for p in points(8) { v.push(p.compress().to_bytes()); }
    let top: Vec<[u8; 32]> = v.iter().map(|e| { let mut e = *e; e[31] ^= 0x80; e }).collect();
    v.extend(top);
    v.sort();
    v.dedup();
    v
}

/// On-curve points in projective coordinates chosen so that the squares taken
/// when doubling have extreme limbs: X^2, Y^2 just below 2^51 modulo 2^51 and
/// (X+Y)^2 = 0 modulo 2^51, and other extremes.
pub fn extreme_points(n: u64) -> Vec<([F; 3], [u8; 32])> {
    let mut out = vec![];
    let mut push = |x: F, y: F| {
        // (y^2-x^2) z^2 = z^4 + d x^2 y^2
        let (xx, yy) = (field::mul(&x, &x), field::mul(&y, &y));
        let b = field::sub(&yy, &xx);
        let disc = field::sub(&field::mul(&b, &b), &field::mul(&field::small(4), &field::mul(&field::d(), &field::mul(&xx, &yy))));
        let Some(s) = field::sqrt(&disc) else { return };
        let half = field::invert(&field::small(2));
        for w in [field::add(&b, &s), field::sub(&b, &s)] {
            let zz = field::mul(&w, &half);
            if zz == [0; 4] { continue; }
            if let Some(z) = field::sqrt(&zz) {
                let zi = field::invert(&z);
                let (ax, ay) = (field::mul(&x, &zi), field::mul(&y, &zi));
                let mut e = field::to_bytes(&ay);
                e[31] |= (field::to_bytes(&ax)[0] & 1) << 7;
                out.push(([x, y, z], e));
            }
        }
    };
    // square roots of -7-8j modulo 2^51
    let mut roots = vec![];
    for j in 0..8u64 {
        let want = (0u64.wrapping_sub(7 + 8 * j)) & M51;
        let mut r = 1u64;
        for bit in 1..51 { if (r.wrapping_mul(r) ^ want) & ((1 << (bit + 2)) - 1).min(M51) != 0 { r ^= 1 << bit; } }
        if r.wrapping_mul(r) & M51 == want { roots.push(r); }
    }
    for r in &roots { for k in 1..=n {
        let y = field::sub_n(&[k << 51, k >> 13, 0, 0], &field::small(*r)).0;
        push(field::small(*r), y);
        push(y, field::small(*r));
        push(field::small(*r), field::small((1 << 51) + r));
    } }
    // both squares with chosen extreme limbs
    let ext: Vec<F> = (0..32u64).filter_map(|i| {
        let l: L5 = std::array::from_fn(|k| if i >> k & 1 == 1 { M51 } else { 0 });
        (0..40).find_map(|e| field::sqrt(&field::of_limbs(&[l[0] ^ e, l[1], l[2], l[3], l[4]])))
    }).collect();
    for a in &ext { for b in &ext { push(*a, *b); push(*a, field::neg(b)); } }
    out
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, args: String, got: T, want: T) -> Res {
    if got == want { Ok(()) } else { fail(what.to_string(), format!("{what}({args}) = {got:x?}, exactly {want:x?}")) }
}

fn c24(cfg: &Cfg) -> Vec<Part> {
    let mut parts = vec![];
    #[cfg(feature = "wb_field")] field_parts(cfg, &mut parts);
    #[cfg(feature = "wb_scalar")] scalar_parts(cfg, &mut parts);
    #[cfg(feature = "wb_group")] group_parts(cfg, &mut parts);
    #[cfg(feature = "wb_hash")] hash_parts(cfg, &mut parts);
    extra_max("groups of internal functions called directly (of 4)", cfg!(feature = "wb_field") as u64 + cfg!(feature = "wb_scalar") as u64 + cfg!(feature = "wb_group") as u64 + cfg!(feature = "wb_hash") as u64);
    outer_parts(cfg, &mut parts);
    parts
}

#[cfg(feature = "wb_field")]
fn field_parts(cfg: &Cfg, parts: &mut Vec<Part>) {
    use wb::mc_a_field as w;
    let a: Vec<u64> = cfg.t(vec![0, 1, M51, TIGHT], vec![0, 1, 19, M51 - 18, M51, TIGHT]);
    let n = a.len().pow(5);
    let al = a.clone();
    parts.push(part("field: pairs of operands", 0, move |cx| {
        let x = limb(cx.choose("first operand", n), &al);
        let fx = field::of_limbs(&x);
        for i in 0..n {
            let y = limb(i, &al);
            let fy = field::of_limbs(&y);
            let s = |o: &str| format!("{o} {x:x?}, {y:x?}");
            let m = w::fiat_mul(&x, &y);
            eq("multiplication", s("limbs"), field::of_limbs(&m), field::mul(&fx, &fy))?;
            eq("Fe multiplication", s("limbs"), field::of_limbs(&w::mul(&x, &y)), field::mul(&fx, &fy))?;
            eq("addition", s("limbs"), field::of_limbs(&w::fiat_add(&x, &y)), field::add(&fx, &fy))?;
            let ad = w::add(&x, &y);
            eq("Fe addition", s("limbs"), field::of_limbs(&ad), field::add(&fx, &fy))?;
            eq("subtraction", s("limbs"), field::of_limbs(&w::fiat_sub(&x, &y)), field::sub(&fx, &fy))?;
            let sb = w::sub(&x, &y);
            eq("Fe subtraction", s("limbs"), field::of_limbs(&sb), field::sub(&fx, &fy))?;
            eq("encoding of sum", s("limbs"), w::to_bytes(&ad), field::to_bytes(&field::add(&fx, &fy)))?;
            eq("encoding of difference", s("limbs"), w::to_bytes(&sb), field::to_bytes(&field::sub(&fx, &fy)))?;
            // results are usable as operands
            eq("product of sum and difference", s("limbs"), field::of_limbs(&w::mul(&ad, &sb)), field::mul(&field::add(&fx, &fy), &field::sub(&fx, &fy)))?;
            eq("square of sum", s("limbs"), field::of_limbs(&w::square(&ad)), { let t = field::add(&fx, &fy); field::mul(&t, &t) })?;
            eq("select", s("limbs"), (w::fiat_select(0, &x, &y), w::fiat_select(1, &x, &y)), (x, y))?;
        }
        cx.bulk(n as u64);
        Ok(())
    }));
    let a: Vec<u64> = cfg.t(vec![0, 1, 18, 19, M51 - 18, M51 - 1, M51, TIGHT], vec![0, 1, 2, 18, 19, 20, 1 << 50, M51 - 19, M51 - 18, M51 - 1, M51, M51 + 1, TIGHT]);
    let n = a.len();
    parts.push(part("field: single operands", 0, move |cx| {
        let hi = cx.choose("upper limbs", n * n);
        for i in 0..n.pow(3) {
            let x = limb(hi * n.pow(3) + i, &a);
            let fx = field::of_limbs(&x);
            let s = || format!("limbs {x:x?}");
            eq("square", s(), field::of_limbs(&w::fiat_square(&x)), field::mul(&fx, &fx))?;
            eq("Fe square", s(), field::of_limbs(&w::square(&x)), field::mul(&fx, &fx))?;
            eq("double of square", s(), field::of_limbs(&w::square_and_double(&x)), { let t = field::mul(&fx, &fx); field::add(&t, &t) })?;
            eq("carry", s(), field::of_limbs(&w::fiat_carry(&x)), fx)?;
            eq("negation", s(), field::of_limbs(&w::fiat_opp(&x)), field::neg(&fx))?;
            eq("Fe negation", s(), field::of_limbs(&w::neg(&x)), field::neg(&fx))?;
            eq("encoding", s(), w::fiat_bytes(&x), field::to_bytes(&fx))?;
            eq("Fe encoding", s(), w::to_bytes(&x), field::to_bytes(&fx))?;
            eq("is_nonzero", s(), w::is_nonzero(&x), fx != [0; 4])?;
            eq("is_negative", s(), w::is_negative(&x), fx[0] & 1 == 1)?;
            eq("encoding of negation", s(), w::to_bytes(&w::neg(&x)), field::to_bytes(&field::neg(&fx)))?;
        }
        cx.bulk(n.pow(3) as u64);
        Ok(())
    }));
    // unreduced limbs as additions, subtractions and negations leave them
    let b: Vec<u64> = vec![0, 1, M51, M51 + 1, TIGHT, 1 << 52, (1 << 52) + 18, LOOSE];
    parts.push(part("field: unreduced operands", 0, move |cx| {
        let n = b.len();
        let hi = cx.choose("upper limbs", n * n);
        for i in 0..n.pow(3) {
            let x = limb(hi * n.pow(3) + i, &b);
            let fx = field::of_limbs(&x);
            let s = || format!("limbs {x:x?}");
            eq("square", s(), field::of_limbs(&w::fiat_square(&x)), field::mul(&fx, &fx))?;
            eq("multiplication", s(), field::of_limbs(&w::fiat_mul(&x, &[LOOSE; 5])), field::mul(&fx, &field::of_limbs(&[LOOSE; 5])))?;
            let c = w::fiat_carry(&x);
            eq("carry", s(), field::of_limbs(&c), fx)?;
            if c.iter().any(|l| *l > TIGHT) { return fail("carry bounds", format!("carry({x:x?}) = {c:x?}")); }
        }
        cx.bulk(n.pow(3) as u64);
        Ok(())
    }));
    let span = cfg.t(600u64, 6000);
    parts.push(part("field: around multiples of p", 0, move |cx| {
        let k = cx.choose("multiple", 3) as u64;
        let down = cx.flag("below");
        for e in 0..span {
            if k == 0 && down && e > 0 { continue; }
            let mut kp = [0u64; 4];
            for _ in 0..k { kp = field::add_n(&kp, &field::P).0; }
            let v = if down { field::sub_n(&kp, &field::small(e)).0 } else { field::add_n(&kp, &field::small(e)).0 };
            let fx = field::reduce(&words_of(&v));
            // limbs of the unreduced value; the last takes what is left
            let m = |i: usize| { let (q, s) = (i / 64, i % 64); let mut x = v[q] >> s; if s > 13 && q < 3 { x |= v[q + 1] << (64 - s); } x };
            let l = [m(0) & M51, m(51) & M51, m(102) & M51, m(153) & M51, v[3] >> 12];
            // and the same value with carries pushed back down
            for c in 0..32u32 {
                let mut x = l;
                if (0..4).any(|i| c >> i & 1 == 1 && x[i + 1] == 0) || (c >> 4 & 1 == 1) { continue; }
                for i in 0..4 { if c >> i & 1 == 1 && x[i + 1] > 0 { x[i + 1] -= 1; x[i] += 1 << 51; } }
                if x.iter().any(|l| *l > TIGHT) { continue; }
                eq("encoding", format!("limbs {x:x?}"), w::to_bytes(&x), field::to_bytes(&fx))?;
                if x.iter().all(|l| *l <= TIGHT) { eq("direct encoding", format!("limbs {x:x?}"), w::fiat_bytes(&x), field::to_bytes(&fx))?; }
                eq("is_nonzero", format!("limbs {x:x?}"), w::is_nonzero(&x), fx != [0; 4])?;
                eq("is_negative", format!("limbs {x:x?}"), w::is_negative(&x), fx[0] & 1 == 1)?;
                cx.bulk(1);
            }
            if v[3] >> 63 == 0 {
                let b = bytes32(&v);
                for top in [0u8, 0x80] { let mut b = b; b[31] |= top; eq("decoding", hex(&b), field::of_limbs(&w::from_bytes(&b)), fx)?; }
            }
        }
        Ok(())
    }));
    let n = cfg.t(64, 1000);
    parts.push(part("field: powers and decoding", 0, move |cx| {
        let i = cx.choose("value", n + 256 + 64);
        let f: F = if i < n { field::words(&sha512(&[b"pow", &(i as u64).to_le_bytes()])[..32].try_into().unwrap()) } else if i < n + 256 { let mut w = [0u64; 4]; w[(i - n) / 64] = 1 << ((i - n) % 64); w } else { field::small((i - n - 256) as u64) };
        let f = field::reduce(&words_of(&f));
        for (neg, f) in [(false, f), (true, field::neg(&f))] {
            let x = field::limbs(&f);
            let s = || format!("{neg} {x:x?}");
            eq("inversion", s(), field::of_limbs(&w::invert(&x)), field::invert(&f))?;
            eq("power (p-5)/8", s(), field::of_limbs(&w::pow25523(&x)), field::pow(&f, &field::E5_8))?;
            eq("decoding", s(), field::of_limbs(&w::from_bytes(&field::to_bytes(&f))), f)?;
            cx.bulk(1);
        }
        Ok(())
    }));
    parts.push(part("field: every byte of an encoding", 0, move |cx| {
        let i = cx.choose("byte", 32);
        let base = *cx.pick("others", &[0u8, 0xff, 0x55]);
        for v in 0..=255u8 {
            let mut b = [base; 32];
            b[i] = v;
            let mut c = b;
            c[31] &= 0x7f;
            eq("decoding", hex(&b), field::of_limbs(&w::from_bytes(&b)), field::reduce(&words_of(&field::words(&c))))?;
        }
        cx.bulk(256);
        Ok(())
    }));
}

#[cfg(feature = "wb_scalar")]
fn scalar_parts(cfg: &Cfg, parts: &mut Vec<Part>) {
    let v = Arc::new(wide_alphabet(cfg.t(3, 1)));
    let n = v.len().div_ceil(500);
    parts.push(part("scalars: reduction modulo the order", 0, move |cx| {
        let k = cx.choose("block", n);
        for x in v.iter().skip(k * 500).take(500) {
            eq("reduction", hex(x), wb::mc_a_scalar::reduce(x), Scalar::from_bytes_mod_order_wide(x).to_bytes())?;
            cx.bulk(1);
        }
        Ok(())
    }));
    let s = Arc::new(scalar_alphabet(cfg.t(16, 4)));
    let (s1, s2) = (s.clone(), Arc::new(scalar_alphabet(1)));
    parts.push(part("scalars: a*b+c modulo the order", 0, move |cx| {
        let a = cx.pick("a", &s);
        for b in s.iter() {
            let p = Scalar::from_bytes_mod_order(*a) * Scalar::from_bytes_mod_order(*b);
            for c in s.iter() {
                let want = p + Scalar::from_bytes_mod_order(*c);
                let got = wb::mc_a_scalar::muladd(a, b, c);
                if got != want.to_bytes() { return eq("multiply-add", format!("{}, {}, {}", hex(a), hex(b), hex(c)), got, want.to_bytes()); }
            }
        }
        cx.bulk((s.len() * s.len()) as u64);
        Ok(())
    }));
    let s3 = s1.clone();
    parts.push(part("scalars: all powers of two", 0, move |cx| {
        let a = cx.pick("a", &s2);
        for b in s2.iter() {
            for c in [&s3[0], &s3[s3.len() / 2], &s3[s3.len() - 1]] {
                let want = Scalar::from_bytes_mod_order(*a) * Scalar::from_bytes_mod_order(*b) + Scalar::from_bytes_mod_order(*c);
                let got = wb::mc_a_scalar::muladd(a, b, c);
                if got != want.to_bytes() { return eq("multiply-add", format!("{}, {}, {}", hex(a), hex(b), hex(c)), got, want.to_bytes()); }
            }
            cx.bulk(1);
        }
        Ok(())
    }));
    let s4 = Arc::new(scalar_alphabet(1));
    parts.push(part("scalars: range test", 0, move |cx| {
        let i = cx.choose("block", 1 + 32);
        // (the function may answer either question, as long as it always answers the same)
        let yes = wb::mc_a_ed25519::below_order(&[0; 32]);
        if i == 0 {
            for x in s4.iter() { eq("below the order", hex(x), wb::mc_a_ed25519::below_order(x) == yes, s_is_canonical(x))?; cx.bulk(1); }
        } else {
            for v in 0..=255u8 { for j in 0..32 { for d in [0u8, 1, 0xff, 0x80] {
                let mut x = L_LE;
                x[i - 1] = v;
                x[j] = x[j].wrapping_add(d);
                eq("below the order", hex(&x), wb::mc_a_ed25519::below_order(&x) == yes, s_is_canonical(&x))?;
            } } }
            cx.bulk(256 * 32 * 4);
        }
        Ok(())
    }));
}

#[cfg(feature = "wb_group")]
fn group_parts(cfg: &Cfg, parts: &mut Vec<Part>) {
    use wb::mc_a_group as w;
    let enc = |p: &EdwardsPoint| p.compress().to_bytes();
    let e = Arc::new(encodings(cfg.t(300, 3000)));
    let n = e.len().div_ceil(64);
    parts.push(part("points: decoding", 0, move |cx| {
        let k = cx.choose("block", n);
        for b in e.iter().skip(k * 64).take(64) {
            let want = CompressedEdwardsY(*b).decompress().map(|p| enc(&-p));
            let got = w::decode_negated(b).map(|p| w::encode(&p));
            if got.is_some() != want.is_some() { return fail("decoding", format!("{} decodes: {}, exactly {}", hex(b), got.is_some(), want.is_some())); }
            if let (Some(g), Some(x)) = (got, want) { eq("decoding", hex(b), g, x)?; }
            // (whether the neutral element is refused here or later is not prescribed)
            if w::neutral(b) && CompressedEdwardsY(*b).decompress().is_some_and(|p| !p.is_small_order()) { return fail("is_identity", format!("{} is not the neutral element", hex(b))); }
            cx.bulk(1);
        }
        Ok(())
    }));
    let pts = Arc::new(points(cfg.t(4, 24)));
    let reps: Vec<F> = [field::small(1), field::neg(&field::small(1)), field::small(2), [u64::MAX, u64::MAX, u64::MAX, 0x7fff_ffff_ffff_ff00], field::of_limbs(&[M51, 0, M51, 0, M51]), field::of_limbs(&[0, M51, 0, M51, 0]), field::of_limbs(&[1, 0, 0, 0, 0])].to_vec();
    let lift = |p: &EdwardsPoint, z: &F| -> w::P3 {
        let b = p.compress().to_bytes();
        let mut yb = b;
        yb[31] &= 0x7f;
        let y = field::words(&yb);
        let yy = field::mul(&y, &y);
        let u = field::sub(&yy, &field::small(1));
        let v = field::add(&field::mul(&field::d(), &yy), &field::small(1));
        let mut x = field::sqrt(&field::mul(&u, &field::invert(&v))).expect("on the curve");
        if (x[0] & 1) as u8 != b[31] >> 7 { x = field::neg(&x); }
        let l = |a: &F| field::limbs(a);
        w::coords(l(&field::mul(&x, z)), l(&field::mul(&y, z)), l(z), l(&field::mul(&field::mul(&x, &y), z)))
    };
    let p2 = pts.clone();
    parts.push(part("points: addition, subtraction, doubling", 0, move |cx| {
        let i = cx.choose("first point", p2.len());
        let z = cx.pick("representation", &reps);
        let (p, a) = (&p2[i], lift(&p2[i], z));
        let s = || format!("point {i}, z {z:x?}");
        eq("encoding", s(), w::encode(&a), enc(p))?;
        eq("encoding", s(), w::encode2(&a), enc(p))?;
        eq("doubling", s(), w::encode(&w::double(&a)), enc(&(p + p)))?;
        eq("doubling", s(), w::double2(&a), enc(&(p + p)))?;
        for (j, q) in p2.iter().enumerate() { for zz in &reps {
            let b = lift(q, zz);
            let s = || format!("points {i} and {j}, z {z:x?} and {zz:x?}");
            eq("point addition", s(), w::encode(&w::add(&a, &b)), enc(&(p + q)))?;
            eq("point subtraction", s(), w::encode(&w::sub(&a, &b)), enc(&(p - q)))?;
            eq("select", s(), (w::encode(&w::select(&a, &b, 0)), w::encode(&w::select(&a, &b, 1))), (enc(p), enc(q)))?;
            cx.bulk(1);
        } }
        Ok(())
    }).timeout(120));
    let ext = Arc::new(extreme_points(cfg.t(40, 400)));
    let n = ext.len();
    parts.push(part("points: extreme representations", 0, move |cx| {
        let i = cx.choose("point", n);
        let ([x, y, z], e) = &ext[i];
        let Some(p) = CompressedEdwardsY(*e).decompress() else { return Ok(()) };
        let l = |a: &F| field::limbs(a);
        // extended coordinates need xy/z; the projective doubling does not use it
        let t = field::mul(&field::mul(x, y), &field::invert(z));
        let a = w::coords(l(x), l(y), l(z), l(&t));
        let s = || format!("x {x:x?}, y {y:x?}, z {z:x?}");
        cx.saw(i);
        eq("doubling", s(), w::double2(&a), enc(&(p + p)))?;
        eq("doubling", s(), w::encode(&w::double(&a)), enc(&(p + p)))?;
        let b = w::double(&w::double(&a));
        let p4 = p + p + p + p;
        eq("doubling twice", s(), w::encode(&b), enc(&p4))?;
        eq("point addition", s(), w::encode(&w::add(&a, &b)), enc(&(p + p4)))?;
        eq("point addition", s(), w::encode(&w::add(&b, &a)), enc(&(p + p4)))?;
        eq("point addition", s(), w::encode(&w::add(&a, &a)), enc(&(p + p)))?;
        eq("point subtraction", s(), w::encode(&w::sub(&a, &b)), enc(&(p - p4)))?;
        Ok(())
    }));
    // (scalars of keys and signatures are below 2^255)
    let sc = Arc::new(scalar_alphabet(cfg.t(1, 1)).into_iter().filter(|s| s[31] < 0x80).collect::<Vec<_>>());
    let n = sc.len();
    parts.push(part("points: multiples of the base point", 0, move |cx| {
        let k = &sc[cx.choose("scalar", n)];
        cx.saw(k);
        eq("base multiplication", hex(k), w::encode(&w::base_mult(k)), enc(&EdwardsPoint::mul_base(&Scalar::from_bytes_mod_order(*k))))
    }));
    let sc = Arc::new(scalar_alphabet(cfg.t(48, 8)));
    let pts3: Vec<EdwardsPoint> = pts.iter().copied().take(cfg.t(14, 60)).collect();
    // double_scalarmult takes scalars below 2^253 (its caller guarantees less than the order)
    let sc: Vec<[u8; 32]> = sc.iter().filter(|s| s_is_canonical(&s[..])).copied().collect();
    parts.push(part("points: a*A + b*B", 0, move |cx| {
        let a = cx.pick("a", &sc);
        let i = cx.choose("A", pts3.len());
        let p = &pts3[i];
        let ap = times(a, p);
        let Some(neg) = w::decode_negated(&enc(p)) else { return fail("decoding", format!("point {i}")) };
        for b in &sc {
            let want = EdwardsPoint::mul_base(&Scalar::from_bytes_mod_order(*b)) - ap;
            let got = w::double_mult(a, &neg, b);
            if got != enc(&want) { return eq("double multiplication", format!("{}, point {i}, {}", hex(a), hex(b)), got, enc(&want)); }
        }
        cx.bulk(sc.len() as u64);
        Ok(())
    }));
    let all = Arc::new(scalar_alphabet(1).into_iter().filter(|s| s_is_canonical(&s[..])).collect::<Vec<_>>());
    let n = all.len();
    let p5 = pts.clone();
    parts.push(part("points: a*A + b*B, every scalar on either side", 0, move |cx| {
        let k = &all[cx.choose("scalar", n)];
        let o = &all[(cx.choose("other", 3) * 7 + 1) % n];
        let p = &p5[8 + cx.choose("A", 2)];
        let neg = w::decode_negated(&enc(p)).ok_or(Fail { key: "decoding".into(), msg: "point".into() })?;
        cx.saw((k, o));
        for (a, b) in [(k, o), (o, k), (k, k)] {
            let want = EdwardsPoint::mul_base(&Scalar::from_bytes_mod_order(*b)) - times(a, p);
            eq("double multiplication", format!("{}, {}", hex(a), hex(b)), w::double_mult(a, &neg, b), enc(&want))?;
        }
        Ok(())
    }));
}

#[cfg(feature = "wb_hash")]
fn hash_parts(cfg: &Cfg, parts: &mut Vec<Part>) {
    let max = cfg.t(700usize, 2100);
    parts.push(part("SHA-512: every length and split", 0, move |cx| {
        let n = cx.choose("length", max);
        let kind = cx.choose("content", 3);
        let d = match kind { 0 => data(24, n), 1 => vec![0; n], _ => vec![0xff; n] };
        let want = sha512(&[&d]);
        for s in (0..=n).filter(|s| n < 300 || s % 128 < 3 || s % 128 > 125 || *s == n) {
            let got = wb::mc_a_sha512::sha512(&[&d[..s], &d[s..]]);
            if got != want { return eq("SHA-512", format!("{n} bytes in pieces of {s} and {}", n - s), got, want); }
            if kind == 0 { for r in [1usize, 64, 127, 128, 129] { if s + r <= n {
                let got = wb::mc_a_sha512::sha512(&[&d[..s], &d[s..s + r], &d[s + r..]]);
                if got != want { return eq("SHA-512", format!("{n} bytes in pieces of {s}, {r}, {}", n - s - r), got, want); }
            } } }
            cx.bulk(1);
        }
        Ok(())
    }));
    parts.push(part("BLAKE2b: every length and split", 0, move |cx| {
        let n = cx.choose("length", max);
        let kind = cx.choose("content", 3);
        let d = match kind { 0 => data(25, n), 1 => vec![0; n], _ => vec![0xff; n] };
        let want = blake2b(64, &d);
        let w32 = blake2b(32, &d);
        for s in (0..=n).filter(|s| n < 300 || s % 128 < 3 || s % 128 > 125 || *s == n) {
            let got = wb::mc_a_blake2b::blake2b(64, &[&d[..s], &d[s..]]);
            if got != want { return eq("BLAKE2b", format!("{n} bytes in pieces of {s} and {}", n - s), got, want.clone()); }
            if kind == 0 { for r in [1usize, 127, 128, 129, 255, 256, 257] { if s + r <= n {
                let got = wb::mc_a_blake2b::blake2b(32, &[&d[..s], &d[s..s + r], &d[s + r..]]);
                if got != w32 { return eq("BLAKE2b", format!("{n} bytes in pieces of {s}, {r}, {}", n - s - r), got, w32.clone()); }
            } } }
            cx.bulk(1);
        }
        Ok(())
    }));
    parts.push(part("BLAKE2b: every output length", 0, move |cx| {
        let o = 1 + cx.choose("output length", 64);
        for n in [0usize, 1, 64, 127, 128, 129, 200, 255, 256, 257, 512, 1000] {
            let d = data(26, n);
            let got = wb::mc_a_blake2b::blake2b(o, &[&d]);
            if got != blake2b(o, &d) { return eq("BLAKE2b", format!("{n} bytes to {o}"), got, blake2b(o, &d)); }
            cx.bulk(1);
        }
        Ok(())
    }));
}

/// So many times the same byte.
struct Fill { n: u64, at: u64 }
impl std::io::Read for Fill {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let k = (b.len() as u64).min(self.n - self.at) as usize;
        b[..k].fill(0x5a);
        self.at += k as u64;
        Ok(k)
    }
}
impl std::io::Seek for Fill {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match p { std::io::SeekFrom::Start(x) => x as i64, std::io::SeekFrom::End(x) => self.n as i64 + x, std::io::SeekFrom::Current(x) => self.at as i64 + x };
        self.at = (to.max(0) as u64).min(self.n);
        Ok(self.at)
    }
}

/// The same through the public API only.
fn outer_parts(cfg: &Cfg, parts: &mut Vec<Part>) {
    let max = cfg.t(400usize, 1500);
    parts.push(part("API: hash of the data, every length", 0, move |cx| {
        let n = cx.choose("length", max);
        let d = data(27, n);
        let k = Key::nth(24);
        // a reference signature over the reference hash is accepted, so the hashes agree
        for alg in [ALG_PREHASHED, ALG_LEGACY] {
            let f = SigFile::make(&k, alg, &d, "u", "t", b"");
            cx.saw((n, alg));
            if let Err(e) = verdict_text(&pk_of(&k)?, &f.text(), &d, true) { return fail("hash", format!("{n} bytes, {}: {e}", if alg == ALG_LEGACY { "SHA-512" } else { "BLAKE2b" })); }
        }
        Ok(())
    }));
    // where a length, a bit count or a block count outgrows 29, 31, 32 or 33 bits
    let mut long: Vec<([u8; 2], u64)> = vec![(ALG_LEGACY, (1 << 29) + 17), (ALG_PREHASHED, (1 << 29) + 17), (ALG_PREHASHED, (1 << 32) + 128), (ALG_PREHASHED, (1 << 32) + 17)];
    if cfg.thorough { long.extend([(ALG_LEGACY, (1 << 28) + 111), (ALG_LEGACY, (1 << 31) + 5), (ALG_LEGACY, (1 << 32) + 120), (ALG_PREHASHED, 1 << 32), (ALG_PREHASHED, (1 << 31) - 1), (ALG_PREHASHED, 5 << 32), (ALG_PREHASHED, (1 << 33) + 1)]); }
    parts.push(part("API: hash of very long data", 0, move |cx| {
        let &(alg, n) = cx.pick("length", &long);
        let k = Key::nth(24);
        let (f, r) = if alg == ALG_PREHASHED {
            let f = SigFile::over(&k, alg, &blake2b_long(64, n, 0x5a), "u", "t", b"");
            (f.text(), verify(&pk_of(&k)?, &SignatureBox::from_string(&f.text()).must("loading")?, Fill { n, at: 0 }, true, false, true))
        } else {
            let d = vec![0x5a; n as usize];
            let f = SigFile::over(&k, alg, &d, "u", "t", b"");
            (f.text(), verify(&pk_of(&k)?, &SignatureBox::from_string(&f.text()).must("loading")?, std::io::Cursor::new(&d), true, false, true))
        };
        cx.saw((n, alg));
        if let Err(e) = r { return fail("hash", format!("{n} bytes, {}: {e}\n{f}", if alg == ALG_LEGACY { "SHA-512" } else { "BLAKE2b" })); }
        Ok(())
    }).timeout(250));
    let seeds = cfg.t(500usize, 6000);
    parts.push(part("API: key derivation", 0, move |cx| {
        let i = cx.choose("seed", seeds);
        let seed: [u8; 32] = if i < 256 { let mut s = [0u8; 32]; s[i / 8] = 1 << (i % 8); s } else { sha512(&[b"seed", &(i as u64).to_le_bytes()])[..32].try_into().unwrap() };
        // whatever the draws are, the stored seed and the public key have to match
        let (_g, _) = rng(move |b: &mut [u8]| { for (k, x) in b.iter_mut().enumerate() { *x = seed[k % 32]; } Ok(()) });
        let kp = KeyPair::generate_unencrypted_keypair().must("generating")?;
        let raw = kp.sk.to_bytes();
        let k = Key::new(raw[62..94].try_into().unwrap(), [7; 8]);
        cx.saw(k.seed);
        eq("public key", hex(&k.seed), hex(&kp.pk.to_bytes()[10..]), hex(&k.pk))
    }));
    let s = scalar_alphabet(cfg.t(4, 1)).into_iter().filter(|s| s_is_canonical(&s[..])).collect::<Vec<_>>();
    parts.push(part("API: verification equation", 0, move |cx| {
        // for chosen s, R = sB - hA does not exist in closed form (h depends on R); with
        // A of order dividing 8 plus a known multiple the equation is solved by s = r + h*a
        let k = Key::nth(24);
        let (a, _) = secret_scalar(&k.seed);
        let r = Scalar::from_bytes_mod_order(*cx.pick("nonce", &s));
        let t = cx.choose("torsion", 3) * 3;
        let pk = (EdwardsPoint::mul_base(&a) + curve25519_dalek::constants::EIGHT_TORSION[t]).compress().to_bytes();
        let rb = EdwardsPoint::mul_base(&r).compress().to_bytes();
        let d = b"equation";
        let sg = r + hram(&rb, &pk, d) * a;
        let sig = [&rb[..], sg.as_bytes()].concat();
        let p = PublicKey::from_bytes(&[&b"Ed"[..], &k.keynum, &pk].concat()).must("loading")?;
        let b = SignatureBones::from_bytes(&[&b"Ed"[..], &k.keynum, &sig].concat()).must("loading")?;
        let want = ed_verify(&pk, d, &sig);
        cx.saw((r.to_bytes(), t, want));
        eq("verification", format!("nonce {}, torsion {t}", hex(r.as_bytes())), vbox(&p, &b.into(), d, true).is_ok(), want)
    }));
    let e = Arc::new(encodings(cfg.t(200, 2000)));
    let n = e.len();
    parts.push(part("API: signing arithmetic", 0, move |cx| {
        // the secret seed is arbitrary: the produced signature must satisfy the equation
        let seed = e[cx.choose("seed", n)];
        let k = Key::new(seed, [9; 8]);
        let sk = SecretKeyBox::from(k.sk_plain_box()).into_unencrypted_secret_key().must("loading")?;
        let (_g, _) = rng_seed(24);
        let b = sign(None, &sk, &b"arithmetic"[..], Some("t"), None).must("signing")?;
        cx.saw(seed);
        let Ok(Some(f)) = SigFile::parse(&b.to_string()) else { return fail("format", "unparsable".to_string()) };
        if !f.verifies(&k, b"arithmetic", false) { return fail("signature", format!("seed {}", hex(&seed))); }
        Ok(())
    }));
}

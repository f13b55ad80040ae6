//! Reference model: an independent, boring implementation of the Minisign
//! formats and algorithms (curve arithmetic and SHA-512 come from
//! curve25519-dalek / sha2; everything else is written here from the
//! specifications).  Nothing in this file uses the code under test.
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::IsIdentity;
use sha2::{Digest, Sha512};

// ------------------------------------------------------------------ BLAKE2b
const B2_IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const B2_SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn b2_compress(h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool) {
    let mut m = [0u64; 16];
    for i in 0..16 { m[i] = u64::from_le_bytes(block[8 * i..8 * i + 8].try_into().unwrap()); }
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&B2_IV);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last { v[14] = !v[14]; }
    fn g(v: &mut [u64; 16], a: usize, b: usize, c: usize, d: usize, x: u64, y: u64) {
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
        v[d] = (v[d] ^ v[a]).rotate_right(32);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(24);
        v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
        v[d] = (v[d] ^ v[a]).rotate_right(16);
        v[c] = v[c].wrapping_add(v[d]);
        v[b] = (v[b] ^ v[c]).rotate_right(63);
    }
    for r in 0..12 {
        let s = &B2_SIGMA[r % 10];
        g(&mut v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
        g(&mut v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
        g(&mut v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
        g(&mut v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
        g(&mut v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
        g(&mut v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
        g(&mut v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
        g(&mut v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
    }
    for i in 0..8 { h[i] ^= v[i] ^ v[i + 8]; }
}

/// RFC 7693, unkeyed, one shot.
pub fn blake2b(outlen: usize, data: &[u8]) -> Vec<u8> {
    let mut h = B2_IV;
    h[0] ^= 0x0101_0000 ^ outlen as u64;
    let nblocks = if data.is_empty() { 1 } else { data.len().div_ceil(128) };
    for i in 0..nblocks {
        let start = i * 128;
        let end = data.len().min(start + 128);
        let mut block = [0u8; 128];
        block[..end - start].copy_from_slice(&data[start..end]);
        b2_compress(&mut h, &block, end as u128, i + 1 == nblocks);
    }
    let mut out = Vec::with_capacity(64);
    for w in h { out.extend(w.to_le_bytes()); }
    out.truncate(outlen);
    out
}

/// The same in pieces.
pub struct B2 { h: [u64; 8], buf: Vec<u8>, n: u128, outlen: usize }
impl B2 {
    pub fn new(outlen: usize) -> B2 { let mut h = B2_IV; h[0] ^= 0x0101_0000 ^ outlen as u64; B2 { h, buf: vec![], n: 0, outlen } }
    pub fn update(&mut self, d: &[u8]) {
        self.buf.extend(d);
        let mut at = 0;
        // the last block, even a full one, waits for the end
        while self.buf.len() - at > 128 {
            self.n += 128;
            b2_compress(&mut self.h, self.buf[at..at + 128].try_into().unwrap(), self.n, false);
            at += 128;
        }
        self.buf.drain(..at);
    }
    pub fn end(mut self) -> Vec<u8> {
        self.n += self.buf.len() as u128;
        self.buf.resize(128, 0);
        b2_compress(&mut self.h, self.buf[..].try_into().unwrap(), self.n, true);
        let mut out = Vec::with_capacity(64);
        for w in self.h { out.extend(w.to_le_bytes()); }
        out.truncate(self.outlen);
        out
    }
}
/// `n` times the byte `fill`.
pub fn blake2b_long(outlen: usize, n: u64, fill: u8) -> Vec<u8> {
    let mut h = B2::new(outlen);
    let piece = vec![fill; 1 << 16];
    let mut left = n;
    while left > 0 { let k = left.min(1 << 16); h.update(&piece[..k as usize]); left -= k; }
    h.end()
}

pub fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts { h.update(p); }
    h.finalize().into()
}

// ------------------------------------------------------------------ Ed25519
pub const L_LE: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];

pub fn clamp(h: &[u8; 64]) -> [u8; 32] {
    let mut a: [u8; 32] = h[..32].try_into().unwrap();
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    a
}

pub fn secret_scalar(seed: &[u8; 32]) -> (Scalar, [u8; 32]) {
    let h = sha512(&[seed]);
    (Scalar::from_bytes_mod_order(clamp(&h)), h[32..].try_into().unwrap())
}

pub fn public_from_seed(seed: &[u8; 32]) -> [u8; 32] {
    let (a, _) = secret_scalar(seed);
    EdwardsPoint::mul_base(&a).compress().to_bytes()
}

pub fn hram(r: &[u8], a: &[u8], m: &[u8]) -> Scalar {
    Scalar::from_bytes_mod_order_wide(&sha512(&[r, a, m]))
}

/// Sign with an explicit extra nonce input (empty: RFC 8032 deterministic).
pub fn ed_sign(seed: &[u8; 32], tweak: &[u8], msg: &[u8]) -> [u8; 64] {
    let (a, prefix) = secret_scalar(seed);
    let pk = EdwardsPoint::mul_base(&a).compress().to_bytes();
    let r = Scalar::from_bytes_mod_order_wide(&sha512(&[&prefix, tweak, msg]));
    let rp = EdwardsPoint::mul_base(&r).compress().to_bytes();
    let s = r + hram(&rp, &pk, msg) * a;
    let mut sig = [0u8; 64];
    sig[..32].copy_from_slice(&rp);
    sig[32..].copy_from_slice(s.as_bytes());
    sig
}

pub fn s_is_canonical(s: &[u8]) -> bool {
    let b: [u8; 32] = s.try_into().unwrap();
    bool::from(Scalar::from_canonical_bytes(b).is_some())
}

/// Strict cofactorless verification: canonical S, decodable public key that is
/// not of small order, and the recomputed R equal to the given bytes.
pub fn ed_verify(pk: &[u8; 32], msg: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 { return false; }
    let s: Option<Scalar> = Scalar::from_canonical_bytes(sig[32..].try_into().unwrap()).into();
    let Some(s) = s else { return false };
    let Some(a) = CompressedEdwardsY(*pk).decompress() else { return false };
    if a.is_small_order() { return false; }
    let h = hram(&sig[..32], pk, msg);
    let r = EdwardsPoint::vartime_double_scalar_mul_basepoint(&h, &(-a), &s);
    r.compress().to_bytes() == sig[..32]
}

/// Add k times the group order to a little-endian 256-bit integer; None on overflow.
pub fn add_l(s: &[u8], k: u32) -> Option<[u8; 32]> {
    let mut out: [u8; 32] = s.try_into().unwrap();
    for _ in 0..k {
        let mut carry = 0u16;
        for i in 0..32 {
            let t = out[i] as u16 + L_LE[i] as u16 + carry;
            out[i] = t as u8;
            carry = t >> 8;
        }
        if carry != 0 { return None; }
    }
    Some(out)
}

#[allow(dead_code)]
pub fn is_identity(p: &EdwardsPoint) -> bool { p.is_identity() }

// ------------------------------------------------------------------- Base64
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn b64(data: &[u8]) -> String {
    let mut s = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() { s.push(B64[(v >> (18 - 6 * i)) as usize & 63] as char); } else { s.push('='); }
        }
    }
    s
}

/// Strict RFC 4648 decoding: padded, canonical trailing bits, nothing else.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let s = s.as_bytes();
    if s.len() % 4 != 0 { return None; }
    let mut out = Vec::new();
    for (i, q) in s.chunks(4).enumerate() {
        let last = (i + 1) * 4 == s.len();
        let pad = q.iter().rev().take_while(|&&c| c == b'=').count();
        if pad > 2 || (pad > 0 && !last) { return None; }
        let mut v = 0u32;
        for &c in &q[..4 - pad] {
            v = v << 6 | B64.iter().position(|&x| x == c)? as u32;
        }
        v <<= 6 * pad as u32;
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if bytes[3 - pad..].iter().any(|&b| b != 0) { return None; }
        out.extend(&bytes[..3 - pad]);
    }
    Some(out)
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

// --------------------------------------------------------------------- Keys
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Key { pub seed: [u8; 32], pub keynum: [u8; 8], pub pk: [u8; 32] }

impl Key {
    pub fn new(seed: [u8; 32], keynum: [u8; 8]) -> Key { Key { seed, keynum, pk: public_from_seed(&seed) } }
    /// n-th key of a deterministic family
    pub fn nth(n: u64) -> Key {
        let h = sha512(&[b"mc key family", &n.to_le_bytes()]);
        Key::new(h[..32].try_into().unwrap(), h[32..40].try_into().unwrap())
    }
    pub fn with_keynum(&self, keynum: [u8; 8]) -> Key { Key { keynum, ..self.clone() } }
    pub fn sk64(&self) -> [u8; 64] {
        let mut o = [0u8; 64];
        o[..32].copy_from_slice(&self.seed);
        o[32..].copy_from_slice(&self.pk);
        o
    }
    pub fn pk_bytes(&self) -> Vec<u8> { [&b"Ed"[..], &self.keynum, &self.pk].concat() }
    pub fn pk_b64(&self) -> String { b64(&self.pk_bytes()) }
    pub fn keyid_hex(&self) -> String { format!("{:016X}", u64::from_le_bytes(self.keynum)) }
    pub fn pk_box(&self) -> String {
        format!("untrusted comment: minisign public key: {}\n{}\n", self.keyid_hex(), self.pk_b64())
    }
    pub fn checksum(&self) -> Vec<u8> { blake2b(32, &[&b"Ed"[..], &self.keynum, &self.sk64()].concat()) }
    /// keynum || sk || checksum
    pub fn payload(&self) -> Vec<u8> { [&self.keynum[..], &self.sk64(), &self.checksum()].concat() }
    /// unprotected secret key, as stored
    pub fn sk_plain_bytes(&self) -> Vec<u8> {
        [&b"Ed"[..], &[0, 0], b"B2", &[0u8; 32], &[0u8; 8], &[0u8; 8], &self.payload()].concat()
    }
    pub fn sk_plain_box(&self) -> String { format!("untrusted comment: rsign encrypted secret key\n{}\n", b64(&self.sk_plain_bytes())) }
    pub fn sk_enc_bytes(&self, kdf: KdfKind, password: &str, salt: &[u8; 32], ops: u64, mem: u64) -> Option<Vec<u8>> {
        let p = pick_params(ops, mem)?;
        let mut stream = [0u8; 104];
        kdf.derive(password.as_bytes(), salt, p, &mut stream);
        let body: Vec<u8> = self.payload().iter().zip(stream).map(|(a, b)| a ^ b).collect();
        Some([&b"Ed"[..], b"Sc", b"B2", salt, &ops.to_le_bytes(), &mem.to_le_bytes(), &body].concat())
    }
    pub fn sk_enc_box(&self, kdf: KdfKind, password: &str, salt: &[u8; 32], ops: u64, mem: u64) -> Option<String> {
        Some(format!("untrusted comment: minisign encrypted secret key\n{}\n", b64(&self.sk_enc_bytes(kdf, password, salt, ops, mem)?)))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ScryptParams { pub log_n: u8, pub r: u32, pub p: u32 }

/// libsodium's pickparams() (used by the reference Minisign), in wide integers.
pub fn pick_params_raw(ops: u64, mem: u64) -> ScryptParams {
    let ops = ops.max(32768);
    let r = 8u64;
    if ops < mem / 32 {
        let maxn = ops / (r * 4);
        let mut n = 1u8;
        while n < 63 { if 1u64 << n > maxn / 2 { break; } n += 1; }
        ScryptParams { log_n: n, r: 8, p: 1 }
    } else {
        let maxn = mem / (r * 128);
        let mut n = 1u8;
        while n < 63 { if 1u64 << n > maxn / 2 { break; } n += 1; }
        let maxrp = ((ops / 4) / (1u64 << n)).min(0x3fff_ffff);
        ScryptParams { log_n: n, r: 8, p: (maxrp / r) as u32 }
    }
}

pub const MEM_MAX: u64 = 1 << 30;
pub const OPS_MAX: u64 = 1 << 25;

/// Parameters for settings within the supported limits (None: outside them).
pub fn pick_params(ops: u64, mem: u64) -> Option<ScryptParams> {
    if mem > MEM_MAX || ops > OPS_MAX { return None; }
    let p = pick_params_raw(ops, mem);
    if p.p == 0 || p.log_n > 20 { return None; }
    Some(p)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum KdfKind { Ideal, Real }
impl KdfKind {
    pub fn derive(self, pw: &[u8], salt: &[u8], p: ScryptParams, out: &mut [u8]) {
        match self {
            KdfKind::Ideal => scrypt::ideal(
                &scrypt::Request { password: pw.to_vec(), salt: salt.to_vec(), log_n: p.log_n, r: p.r, p: p.p, out_len: out.len() }, out),
            KdfKind::Real => {
                let old = scrypt::mc_set_mode(scrypt::Mode::Real);
                let obs = scrypt::mc_set_observer(None);
                scrypt::scrypt(pw, salt, &scrypt::Params::new(p.log_n, p.r, p.p, 32).unwrap(), out).unwrap();
                scrypt::mc_set_observer(obs);
                scrypt::mc_set_mode(old);
            }
        }
    }
}

/// Decode a stored secret key with a password; None: must be refused.
pub fn open_sk_bytes(b: &[u8], password: Option<&str>, kdf: KdfKind) -> Option<Key> {
    if b.len() != 158 { return None; }
    let ops = u64::from_le_bytes(b[38..46].try_into().unwrap());
    let mem = u64::from_le_bytes(b[46..54].try_into().unwrap());
    let mut body = b[54..].to_vec();
    match (&b[2..4], password) {
        (b"Sc", Some(pw)) => {
            let p = pick_params(ops, mem)?;
            let mut stream = [0u8; 104];
            kdf.derive(pw.as_bytes(), &b[6..38], p, &mut stream);
            for (x, s) in body.iter_mut().zip(stream) { *x ^= s; }
        }
        ([0, 0], None) => {}
        _ => return None,
    }
    let chk = blake2b(32, &[&b[..2], &body[..72]].concat());
    if chk != body[72..] { return None; }
    Some(Key {
        keynum: body[..8].try_into().unwrap(),
        seed: body[8..40].try_into().unwrap(),
        pk: body[40..72].try_into().unwrap(),
    })
}

// --------------------------------------------------------------- Signatures
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SigFile {
    pub untrusted: String,
    pub alg: [u8; 2],
    pub keynum: [u8; 8],
    pub sig: [u8; 64],
    pub trusted: String,
    pub global: Vec<u8>,
}

pub const ALG_PREHASHED: [u8; 2] = *b"ED";
pub const ALG_LEGACY: [u8; 2] = *b"Ed";

impl SigFile {
    pub fn make(key: &Key, alg: [u8; 2], data: &[u8], untrusted: &str, trusted: &str, tweak: &[u8]) -> SigFile {
        if alg == ALG_PREHASHED { Self::over(key, alg, &blake2b(64, data), untrusted, trusted, tweak) } else { Self::over(key, alg, data, untrusted, trusted, tweak) }
    }
    /// The message is already hashed, where it has to be.
    pub fn over(key: &Key, alg: [u8; 2], msg: &[u8], untrusted: &str, trusted: &str, tweak: &[u8]) -> SigFile {
        let sig = ed_sign(&key.seed, tweak, msg);
        let global = ed_sign(&key.seed, tweak, &[&sig[..], trusted.as_bytes()].concat()).to_vec();
        SigFile { untrusted: untrusted.into(), alg, keynum: key.keynum, sig, trusted: trusted.into(), global }
    }
    pub fn sig_bytes(&self) -> Vec<u8> { [&self.alg[..], &self.keynum, &self.sig].concat() }
    pub fn lines(&self) -> [String; 4] {
        [format!("untrusted comment: {}", self.untrusted), b64(&self.sig_bytes()), format!("trusted comment: {}", self.trusted), b64(&self.global)]
    }
    pub fn text(&self) -> String { self.lines().map(|l| l + "\n").concat() }

    /// Parse text the way the format is specified.  `Ok(None)`: refused.
    /// `Err(())`: a corner where acceptance is not specified (blanks around
    /// base64 fields).
    pub fn parse(text: &str) -> Result<Option<SigFile>, ()> {
        let mut lines = split_lines(text).into_iter();
        let (Some(u), Some(s), Some(t), Some(g)) = (lines.next(), lines.next(), lines.next(), lines.next()) else { return Ok(None) };
        let Some(u) = u.strip_prefix("untrusted comment: ") else { return Ok(None) };
        let Some(t) = t.strip_prefix("trusted comment: ") else { return Ok(None) };
        if s.trim() != s || g.trim() != g { return Err(()); }
        let (Some(s), Some(g)) = (unb64(s), unb64(g)) else { return Ok(None) };
        if s.len() != 74 || g.len() != 64 { return Ok(None); }
        let alg = [s[0], s[1]];
        if alg != ALG_LEGACY && alg != ALG_PREHASHED { return Ok(None); }
        Ok(Some(SigFile {
            untrusted: u.into(), alg, keynum: s[2..10].try_into().unwrap(), sig: s[10..].try_into().unwrap(),
            trusted: t.into(), global: g,
        }))
    }

    /// Full verification verdict.
    pub fn verifies(&self, pk: &Key, data: &[u8], allow_legacy: bool) -> bool {
        if self.keynum != pk.keynum { return false; }
        let ok = match self.alg {
            ALG_PREHASHED => ed_verify(&pk.pk, &blake2b(64, data), &self.sig),
            ALG_LEGACY => allow_legacy && ed_verify(&pk.pk, data, &self.sig),
            _ => false,
        };
        ok && ed_verify(&pk.pk, &[&self.sig[..], self.trusted.as_bytes()].concat(), &self.global)
    }
}

/// Lines ended by LF or CRLF; a final unterminated line counts.
pub fn split_lines(text: &str) -> Vec<&str> {
    let mut v: Vec<&str> = Vec::new();
    let mut rest = text;
    while !rest.is_empty() {
        match rest.find('\n') {
            Some(i) => {
                let l = &rest[..i];
                v.push(l.strip_suffix('\r').unwrap_or(l));
                rest = &rest[i + 1..];
            }
            None => { v.push(rest); rest = ""; }
        }
    }
    v
}

// ----------------------------------------------------------------- selftest
pub fn selftest() -> Result<(), String> {
    crate::field::selftest()?;
    let ck = |n: &str, a: &[u8], b: &str| if hex(a) == b { Ok(()) } else { Err(format!("{n}: {} != {b}", hex(a))) };
    ck("blake2b-512(abc)", &blake2b(64, b"abc"), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923")?;
    ck("blake2b-512()", &blake2b(64, b""), "786a02f742015903c6c6fd852552d272912f4740e15847618a86e217f71f5419d25e1031afee585313896444934eb04b903a685b1448b755d56f701afe9be2ce")?;
    ck("sha512(abc)", &sha512(&[b"abc"]), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")?;
    // RFC 8032, 7.1
    for (seed, pk, msg, sig) in [
        ("9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60", "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", "",
         "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"),
        ("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb", "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c", "72",
         "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"),
    ] {
        let s: [u8; 32] = unhex(seed).try_into().unwrap();
        ck("rfc8032 pk", &public_from_seed(&s), pk)?;
        ck("rfc8032 sig", &ed_sign(&s, b"", &unhex(msg)), sig)?;
        if !ed_verify(&unhex(pk).try_into().unwrap(), &unhex(msg), &unhex(sig)) { return Err("rfc8032 verify".into()); }
    }
    // RFC 7914, 12
    let mut out = [0u8; 64];
    scrypt::real(b"password", b"NaCl", 10, 8, 16, &mut out);
    ck("rfc7914", &out, "fdbabe1c9d3472007856e7190d01e9fe7c6ad7cbc8237830e77376634b3731622eaf30d92e22a3886ff109279d9830dac727afb94a83ee6d8360cbdfa2cc0640")?;
    scrypt::real(b"", b"", 4, 1, 1, &mut out);
    ck("rfc7914-0", &out, "77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906")?;
    // the vectors of the repository (made by the C implementation)
    let pk = unb64("RWQf6LRCGA9i53mlYecO4IzT51TGPpvWucNSCh1CBM0QTaLn73Y7GFO3").ok_or("b64")?;
    let k = Key { seed: [0; 32], keynum: pk[2..10].try_into().unwrap(), pk: pk[10..].try_into().unwrap() };
    let txt = "untrusted comment: signature from minisign secret key\nRUQf6LRCGA9i559r3g7V1qNyJDApGip8MfqcadIgT9CuhV3EMhHoN1mGTkUidF/z7SrlQgXdy8ofjb7bNJJylDOocrCo8KLzZwo=\ntrusted comment: timestamp:1556193335\tfile:test\ny/rUw2y8/hOUYjZU71eHp/Wo1KZ40fGy2VJEDl34XMJM+TX48Ss/17u3IvIfbVR1FkZZSNCisQbuQY+bHwhEBg==\n";
    let f = SigFile::parse(txt).map_err(|_| "parse")?.ok_or("parse")?;
    if f.text() != txt || !f.verifies(&k, b"test", false) || f.verifies(&k, b"tesu", false) { return Err("minisign vector".into()); }
    for n in 0..200usize { let d: Vec<u8> = (0..n).map(|i| (i * 7 + n) as u8).collect(); if unb64(&b64(&d)).as_deref() != Some(&d[..]) { return Err("b64".into()); } }
    Ok(())
}

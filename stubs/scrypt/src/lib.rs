//! Stand-in for the `scrypt` crate (API of 0.11 without the `simple` feature).
//!
//! Two modes, chosen per thread by the model checker:
//!  * `Real`: RFC 7914 scrypt, own implementation, memoised;
//!  * `Ideal`: a fast injective-for-all-purposes keyed function of every
//!    argument (SHA-256 based) that allocates nothing: scrypt seen as a random
//!    function.  This makes "every password pair" affordable and lets hostile
//!    cost parameters be *recorded* instead of suffered.
//! Every request is passed to the thread's observer, which may fail the harness
//! or yield to its scheduler.
use sha2::{Digest, Sha256};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::sync::Mutex;

pub mod errors {
    use std::fmt;
    #[derive(Debug, Copy, Clone, Eq, PartialEq)]
    pub struct InvalidOutputLen;
    #[derive(Debug, Copy, Clone, Eq, PartialEq)]
    pub struct InvalidParams;
    impl fmt::Display for InvalidOutputLen {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid output buffer length") }
    }
    impl std::error::Error for InvalidOutputLen {}
    impl fmt::Display for InvalidParams {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid scrypt parameters") }
    }
    impl std::error::Error for InvalidParams {}
}
use errors::{InvalidOutputLen, InvalidParams};

#[derive(Clone, Copy, Debug)]
pub struct Params { log_n: u8, r: u32, p: u32 }

impl Params {
    pub const RECOMMENDED_LOG_N: u8 = 17;
    pub const RECOMMENDED_R: u32 = 8;
    pub const RECOMMENDED_P: u32 = 1;
    pub const RECOMMENDED_LEN: usize = 32;

    /// Same acceptance conditions as the real crate.
    pub fn new(log_n: u8, r: u32, p: u32, len: usize) -> Result<Params, InvalidParams> {
        let cond1 = (log_n as usize) < usize::BITS as usize;
        let cond4 = (10..=64).contains(&len);
        if !(r > 0 && p > 0 && cond1 && cond4) { return Err(InvalidParams); }
        let r = r as usize;
        let p = p as usize;
        let n: usize = 1 << log_n;
        let r128 = r.checked_mul(128).ok_or(InvalidParams)?;
        r128.checked_mul(n).ok_or(InvalidParams)?;
        r128.checked_mul(p).ok_or(InvalidParams)?;
        if (log_n as usize) >= r * 16 { return Err(InvalidParams); }
        if r * p >= 0x4000_0000 { return Err(InvalidParams); }
        Ok(Params { log_n, r: r as u32, p: p as u32 })
    }
    pub fn recommended() -> Params {
        Params { log_n: Self::RECOMMENDED_LOG_N, r: Self::RECOMMENDED_R, p: Self::RECOMMENDED_P }
    }
    pub fn log_n(&self) -> u8 { self.log_n }
    pub fn r(&self) -> u32 { self.r }
    pub fn p(&self) -> u32 { self.p }
}
impl Default for Params { fn default() -> Params { Params::recommended() } }

/// One derivation request as seen by the observer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Request { pub password: Vec<u8>, pub salt: Vec<u8>, pub log_n: u8, pub r: u32, pub p: u32, pub out_len: usize }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Ideal, Real }

pub type Observer = Box<dyn FnMut(&Request)>;
thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::Ideal) };
    static OBSERVER: RefCell<Option<Observer>> = const { RefCell::new(None) };
}
pub fn mc_set_mode(m: Mode) -> Mode { MODE.with(|c| c.replace(m)) }
pub fn mc_set_observer(o: Option<Observer>) -> Option<Observer> { OBSERVER.with(|c| c.replace(o)) }

pub fn scrypt(password: &[u8], salt: &[u8], params: &Params, output: &mut [u8]) -> Result<(), InvalidOutputLen> {
    if output.is_empty() || output.len() / 32 > 0xffff_ffff { return Err(InvalidOutputLen); }
    let req = Request { password: password.to_vec(), salt: salt.to_vec(), log_n: params.log_n, r: params.r, p: params.p, out_len: output.len() };
    let mut o = OBSERVER.with(|c| c.borrow_mut().take());
    if let Some(f) = o.as_mut() { f(&req); }
    if o.is_some() { OBSERVER.with(|c| *c.borrow_mut() = o); }
    match MODE.with(|c| c.get()) {
        Mode::Ideal => ideal(&req, output),
        Mode::Real => real_memo(&req, output),
    }
    Ok(())
}

pub fn ideal(req: &Request, output: &mut [u8]) {
    for (i, chunk) in output.chunks_mut(32).enumerate() {
        let mut h = Sha256::new();
        h.update(b"ideal-kdf");
        h.update((i as u64).to_le_bytes());
        h.update((req.password.len() as u64).to_le_bytes());
        h.update(&req.password);
        h.update((req.salt.len() as u64).to_le_bytes());
        h.update(&req.salt);
        h.update([req.log_n]);
        h.update(req.r.to_le_bytes());
        h.update(req.p.to_le_bytes());
        chunk.copy_from_slice(&h.finalize()[..chunk.len()]);
    }
}

static MEMO: Mutex<Option<HashMap<Vec<u8>, Vec<u8>>>> = Mutex::new(None);

fn real_memo(req: &Request, output: &mut [u8]) {
    let mut key = Vec::new();
    key.extend((req.password.len() as u64).to_le_bytes());
    key.extend(&req.password);
    key.extend((req.salt.len() as u64).to_le_bytes());
    key.extend(&req.salt);
    key.push(req.log_n);
    key.extend(req.r.to_le_bytes());
    key.extend(req.p.to_le_bytes());
    key.extend((output.len() as u64).to_le_bytes());
    if let Some(v) = MEMO.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        output.copy_from_slice(v);
        return;
    }
    real(&req.password, &req.salt, req.log_n, req.r, req.p, output);
    MEMO.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, output.to_vec());
}

// ---- RFC 7914, written from the specification -------------------------------

fn hmac_sha256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 { k[..32].copy_from_slice(&Sha256::digest(key)); } else { k[..key.len()].copy_from_slice(key); }
    let mut i = Sha256::new();
    i.update(k.map(|b| b ^ 0x36));
    for p in parts { i.update(p); }
    let inner = i.finalize();
    let mut o = Sha256::new();
    o.update(k.map(|b| b ^ 0x5c));
    o.update(inner);
    o.finalize().into()
}

fn pbkdf2_1(password: &[u8], salt: &[u8], out: &mut [u8]) {
    for (i, chunk) in out.chunks_mut(32).enumerate() {
        let t = hmac_sha256(password, &[salt, &((i as u32) + 1).to_be_bytes()]);
        chunk.copy_from_slice(&t[..chunk.len()]);
    }
}

fn salsa20_8(b: &mut [u32; 16]) {
    let mut x = *b;
    macro_rules! qr { ($a:expr,$b:expr,$c:expr,$d:expr) => {
        x[$b] ^= x[$a].wrapping_add(x[$d]).rotate_left(7);
        x[$c] ^= x[$b].wrapping_add(x[$a]).rotate_left(9);
        x[$d] ^= x[$c].wrapping_add(x[$b]).rotate_left(13);
        x[$a] ^= x[$d].wrapping_add(x[$c]).rotate_left(18);
    } }
    for _ in 0..4 {
        qr!(0, 4, 8, 12); qr!(5, 9, 13, 1); qr!(10, 14, 2, 6); qr!(15, 3, 7, 11);
        qr!(0, 1, 2, 3); qr!(5, 6, 7, 4); qr!(10, 11, 8, 9); qr!(15, 12, 13, 14);
    }
    for i in 0..16 { b[i] = b[i].wrapping_add(x[i]); }
}

fn block_mix(input: &[u32], out: &mut [u32], r: usize) {
    let mut x = [0u32; 16];
    x.copy_from_slice(&input[(2 * r - 1) * 16..]);
    for i in 0..2 * r {
        for j in 0..16 { x[j] ^= input[i * 16 + j]; }
        salsa20_8(&mut x);
        let pos = if i % 2 == 0 { i / 2 } else { r + i / 2 };
        out[pos * 16..pos * 16 + 16].copy_from_slice(&x);
    }
}

pub fn real(password: &[u8], salt: &[u8], log_n: u8, r: u32, p: u32, out: &mut [u8]) {
    let (n, r, p) = (1usize << log_n, r as usize, p as usize);
    let mut b = vec![0u8; p * 128 * r];
    pbkdf2_1(password, salt, &mut b);
    let w = 32 * r;
    let mut v = vec![0u32; n * w];
    for blk in b.chunks_mut(128 * r) {
        let mut x: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
        let mut t = vec![0u32; w];
        for i in 0..n {
            v[i * w..(i + 1) * w].copy_from_slice(&x);
            block_mix(&x, &mut t, r);
            std::mem::swap(&mut x, &mut t);
        }
        for _ in 0..n {
            let j = (x[(2 * r - 1) * 16] as u64 | ((x[(2 * r - 1) * 16 + 1] as u64) << 32)) as usize & (n - 1);
            for k in 0..w { x[k] ^= v[j * w + k]; }
            block_mix(&x, &mut t, r);
            std::mem::swap(&mut x, &mut t);
        }
        for (c, wd) in blk.chunks_mut(4).zip(&x) { c.copy_from_slice(&wd.to_le_bytes()); }
    }
    pbkdf2_1(password, &b, out);
}

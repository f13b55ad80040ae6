//! The operations of property C19, in a crate of their own so that the
//! library's generic functions are instantiated here and can be compiled with
//! access tracing (see ../../tools/tracewrap.sh).  Every operation is a closed
//! program: fixed inputs, its own randomness, and a textual outcome.
pub mod secret;
use minisign::*;
use std::io::{self, Read, Seek, SeekFrom, Write};

/// Called at each input/output point of an operation (may switch threads or run
/// another operation).
pub type Hook = fn(&'static str);
pub static mut HOOK: Option<Hook> = None;
#[inline(never)]
fn point(what: &'static str) {
    let h = unsafe { std::ptr::read(std::ptr::addr_of!(HOOK)) };
    if let Some(h) = h { h(what) }
}

/// What the operations work on; built by the reference model, not the library.
pub struct Fix {
    pub pk: Vec<Vec<u8>>,
    pub sk: Vec<String>,
    pub sk_enc: Vec<(String, String)>,
    pub sig: Vec<String>,
    pub legacy: String,
    pub data: Vec<Vec<u8>>,
    pub weak_pk: Vec<u8>,
    pub weak_sig: String,
    /// Objects shared by all operations of one execution, loaded once.
    pub shared: Option<Shared>,
}
pub struct Shared { pub pk: PublicKey, pub sk: SecretKey, pub sig: SignatureBox }
impl Fix {
    pub fn load_shared(&mut self) {
        self.shared = Some(Shared {
            pk: PublicKey::from_bytes(&self.pk[0]).expect("pk"),
            sk: SecretKeyBox::from(self.sk[0].clone()).into_unencrypted_secret_key().expect("sk"),
            sig: SignatureBox::from_string(&self.sig[0]).expect("sig"),
        });
    }
}

struct Rd<'a> { d: &'a [u8], pos: usize, chunk: usize, fail_at: usize }
const PANIC: usize = 1 << 40;
impl Read for Rd<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        point("read");
        if self.fail_at > PANIC && self.fail_at < usize::MAX && self.pos >= self.fail_at - PANIC { panic!("the source panics"); }
        if self.pos >= self.fail_at { return Err(io::Error::new(io::ErrorKind::Other, "read failure")); }
        let n = b.len().min(self.chunk).min(self.d.len() - self.pos);
        b[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Rd<'_> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        point("seek");
        let p = match to { SeekFrom::Start(p) => p as i64, SeekFrom::Current(d) => self.pos as i64 + d, SeekFrom::End(d) => self.d.len() as i64 + d };
        if p < 0 || p as usize > self.d.len() { return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")); }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
fn rd(d: &[u8], chunk: usize) -> Rd<'_> { Rd { d, pos: 0, chunk, fail_at: usize::MAX } }
struct Wr<'a> { v: &'a mut Vec<u8>, fail_at: usize }
impl Write for Wr<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        point("write");
        if self.fail_at == PANIC { panic!("the writer panics"); }
        if self.v.len() >= self.fail_at { return Err(io::Error::new(io::ErrorKind::Other, "write failure")); }
        let n = b.len().min(50);
        self.v.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { point("flush"); Ok(()) }
}

struct Env { rng: Option<getrandom::Source>, typist: Option<rpassword::Typist>, obs: Option<scrypt::Observer> }
impl Drop for Env {
    fn drop(&mut self) {
        getrandom::mc_set_source(self.rng.take());
        rpassword::mc_set_typist(self.typist.take());
        scrypt::mc_set_observer(self.obs.take());
    }
}
fn env(seed: u64, fail_after: usize, typed: &'static [&'static str]) -> Env {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut calls = 0;
    let mut t = typed.iter();
    Env {
        rng: getrandom::mc_set_source(Some(Box::new(move |b| {
            point("random");
            calls += 1;
            if fail_after >= PANIC && calls > fail_after - PANIC { panic!("the generator panics"); }
            if calls > fail_after { return Err(5); }
            for v in b.iter_mut() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *v = (x >> 24) as u8; }
            Ok(())
        }))),
        typist: rpassword::mc_set_typist(Some(Box::new(move |_| { point("prompt"); t.next().map(|s| { if *s == "!" { panic!("the prompt panics"); } s.to_string() }).ok_or_else(|| io::Error::new(io::ErrorKind::Other, "no answer")) }))),
        obs: scrypt::mc_set_observer(Some(Box::new(|_| point("derivation")))),
    }
}

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn pk(f: &Fix, i: usize) -> Result<PublicKey> { PublicKey::from_bytes(&f.pk[i]) }
fn sk(f: &Fix, i: usize) -> Result<SecretKey> { SecretKeyBox::from(f.sk[i].clone()).into_unencrypted_secret_key() }
fn vrf(f: &Fix, k: usize, sig: &str, d: &[u8], chunk: usize, legacy: bool) -> Result<String> {
    let b = SignatureBox::from_string(sig)?;
    verify(&pk(f, k)?, &b, rd(d, chunk), true, false, legacy)?;
    Ok(format!("verified: {}", b.trusted_comment()?))
}

pub const OPS: [&str; 32] = [
    "sign", "sign another key, same identifier", "sign large data with public key", "sign with failing randomness", "sign with failing data source", "sign with wrong public key", "sign with bad comment",
    "verify", "verify wrong data", "verify another key, same identifier", "verify signature of another key", "verify large data", "verify legacy", "verify legacy unrequested", "verify weak key", "verify with failing data source",
    "generate", "generate protected", "generate with failing randomness", "generate and write with failing writer", "generate interactively, mismatch",
    "open protected", "open protected, wrong password", "open another, same salt", "open interactively", "parse damaged", "convert keys",
    "sign with panicking data source", "verify with panicking data source", "generate with panicking randomness", "open with panicking prompt", "generate and write with panicking writer",
];
/// The ones that matter most, for the deeper explorations.
pub const CORE: [usize; 13] = [0, 1, 4, 7, 8, 9, 11, 12, 17, 22, 23, 26, 27];
pub const SHARED: [&str; 4] = ["sign with shared key", "verify shared", "box shared", "verify shared, wrong data"];

/// Run one operation; the outcome as text.
pub fn run(f: &Fix, op: usize) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| inner(f, op))) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => format!("error: {e}"),
        Err(p) => format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    }
}
fn inner(f: &Fix, op: usize) -> Result<String> {
    point("start");
    let e = |fail| env(op as u64 + 1, fail, &[]);
    if op >= OPS.len() {
        let _e = e(99);
        let s = f.shared.as_ref().expect("shared");
        return match op - OPS.len() {
            0 => Ok(sign(Some(&s.pk), &s.sk, rd(&f.data[0], 3), Some("tcs"), Some("ucs"))?.to_string()),
            1 => { verify(&s.pk, &s.sig, rd(&f.data[0], 4), true, false, false)?; Ok(format!("{} {}", s.sig.trusted_comment()?, s.sig.untrusted_comment()?)) }
            2 => Ok(format!("{} {} {} {} {}", s.sk.to_box(None)?.into_string(), s.pk.to_box()?.into_string(), s.sig.to_string(), PublicKey::from_secret_key(&s.sk)?.to_base64(), hex(s.pk.keynum()))),
            _ => { verify(&s.pk, &s.sig, rd(&f.data[1], 40), true, false, false)?; Ok("verified".into()) }
        };
    }
    match op {
        0 => { let _e = e(99); Ok(sign(None, &sk(f, 0)?, rd(&f.data[0], 4), Some("tc0"), Some("uc0"))?.to_string()) }
        1 => { let _e = e(99); Ok(sign(None, &sk(f, 1)?, rd(&f.data[1], 100), Some("tc1"), None)?.to_string()) }
        2 => { let _e = e(99); let s = sign(Some(&pk(f, 2)?), &sk(f, 2)?, rd(&f.data[2], 70000), Some("tc2"), Some("uc2"))?; Ok(s.to_string()) }
        3 => { let _e = e(1); Ok(sign(None, &sk(f, 0)?, rd(&f.data[0], 100), Some("tc"), None)?.to_string()) }
        4 => { let _e = e(99); Ok(sign(None, &sk(f, 2)?, Rd { d: &f.data[1], pos: 0, chunk: 50, fail_at: 100 }, Some("tc"), None)?.to_string()) }
        5 => { let _e = e(99); Ok(sign(Some(&pk(f, 1)?), &sk(f, 0)?, rd(&f.data[0], 100), Some("tc"), None)?.to_string()) }
        6 => { let _e = e(99); Ok(sign(None, &sk(f, 0)?, rd(&f.data[1], 100), Some("two\nlines"), None)?.to_string()) }
        7 => { let _e = e(99); vrf(f, 0, &f.sig[0], &f.data[0], 4, false) }
        8 => { let _e = e(99); vrf(f, 0, &f.sig[0], &f.data[1], 100, false) }
        9 => { let _e = e(99); vrf(f, 1, &f.sig[1], &f.data[0], 100, false) }
        10 => { let _e = e(99); vrf(f, 0, &f.sig[1], &f.data[0], 100, false) }
        11 => { let _e = e(99); vrf(f, 2, &f.sig[2], &f.data[2], 70000, false) }
        12 => { let _e = e(99); vrf(f, 0, &f.legacy, &f.data[1], 100, true) }
        13 => { let _e = e(99); vrf(f, 0, &f.legacy, &f.data[1], 200, false) }
        14 => {
            let _e = e(99);
            let b = SignatureBox::from_string(&f.weak_sig)?;
            verify(&PublicKey::from_bytes(&f.weak_pk)?, &b, rd(&f.data[0], 100), true, false, true)?;
            Ok("verified".into())
        }
        15 => {
            let _e = e(99);
            let b = SignatureBox::from_string(&f.sig[2])?;
            verify(&pk(f, 2)?, &b, Rd { d: &f.data[2], pos: 0, chunk: 60000, fail_at: 60000 }, true, false, true)?;
            Ok("verified".into())
        }
        16 => { let _e = e(99); let k = KeyPair::generate_unencrypted_keypair()?; Ok(format!("{} {}", hex(&k.pk.to_bytes()), hex(&k.sk.to_bytes()))) }
        17 => { let _e = e(99); let k = KeyPair::generate_encrypted_keypair(Some("pw17".into()))?; Ok(format!("{} {}", hex(&k.pk.to_bytes()), hex(&k.sk.to_bytes()))) }
        18 => { let _e = e(1); let k = KeyPair::generate_unencrypted_keypair()?; Ok(hex(&k.pk.to_bytes())) }
        19 => {
            let _e = e(99);
            let (mut a, mut b) = (vec![], vec![]);
            let r = KeyPair::generate_and_write_encrypted_keypair(Wr { v: &mut a, fail_at: usize::MAX }, Wr { v: &mut b, fail_at: 100 }, Some("c19"), Some("pw19".into())).map(|_| ());
            Ok(format!("{:?} {} {}", r.map_err(|e| e.to_string()), hex(&a), hex(&b)))
        }
        20 => { let _e = env(21, 99, &["one", "other"]); let k = KeyPair::generate_encrypted_keypair(None)?; Ok(hex(&k.pk.to_bytes())) }
        21 => { let _e = e(99); let k = SecretKeyBox::from(f.sk_enc[0].0.clone()).into_secret_key(Some(f.sk_enc[0].1.clone()))?; Ok(hex(&k.to_bytes())) }
        22 => { let _e = e(99); let k = SecretKeyBox::from(f.sk_enc[0].0.clone()).into_secret_key(Some("not it".into()))?; Ok(hex(&k.to_bytes())) }
        23 => { let _e = e(99); let k = SecretKeyBox::from(f.sk_enc[1].0.clone()).into_secret_key(Some(f.sk_enc[1].1.clone()))?; Ok(hex(&k.to_bytes())) }
        24 => { let _e = env(25, 99, &["pw\u{e9}"]); let k = SecretKeyBox::from(f.sk_enc[2].0.clone()).into_secret_key(None)?; Ok(hex(&k.to_bytes())) }
        25 => {
            let _e = e(99);
            let mut o = String::new();
            for cut in [20, 60, 130, 200] { o += &format!("{:?};", SignatureBox::from_string(&f.sig[0][..cut.min(f.sig[0].len())]).map(|s| s.to_string()).map_err(|e| e.to_string())); }
            o += &format!("{:?};", PublicKey::from_bytes(&f.pk[0][..30]).map(|p| p.to_bytes()).map_err(|e| e.to_string()));
            o += &format!("{:?};", SecretKeyBox::from(f.sk[0].replace('R', "S")).into_unencrypted_secret_key().map(|p| p.to_bytes()).map_err(|e| e.to_string()));
            o += &format!("{:?};", SignatureBones::from_bytes(&[9; 73]).map(|p| p.to_bytes()).map_err(|e| e.to_string()));
            Ok(o)
        }
        27 => { let _e = e(99); Ok(sign(None, &sk(f, 1)?, Rd { d: &f.data[1], pos: 0, chunk: 50, fail_at: PANIC + 100 }, Some("tc"), None)?.to_string()) }
        28 => {
            let _e = e(99);
            let b = SignatureBox::from_string(&f.sig[2])?;
            verify(&pk(f, 2)?, &b, Rd { d: &f.data[2], pos: 0, chunk: 60000, fail_at: PANIC + 60000 }, true, false, true)?;
            Ok("verified".into())
        }
        29 => { let _e = e(PANIC + 1); let k = KeyPair::generate_encrypted_keypair(Some("pw29".into()))?; Ok(hex(&k.pk.to_bytes())) }
        30 => { let _e = env(31, 99, &["!"]); let k = SecretKeyBox::from(f.sk_enc[2].0.clone()).into_secret_key(None)?; Ok(hex(&k.to_bytes())) }
        31 => {
            let _e = e(99);
            let (mut a, mut b) = (vec![], vec![]);
            let r = KeyPair::generate_and_write_encrypted_keypair(Wr { v: &mut a, fail_at: usize::MAX }, Wr { v: &mut b, fail_at: PANIC }, Some("c31"), Some("pw31".into())).map(|_| ());
            Ok(format!("{:?}", r.map_err(|e| e.to_string())))
        }
        _ => {
            let _e = e(99);
            let s = sk(f, 2)?;
            point("between");
            let p = PublicKey::from_secret_key(&s)?;
            point("between");
            let q = PublicKeyBox::from_string(&p.to_box()?.into_string())?.into_public_key()?;
            point("between");
            Ok(format!("{} {} {} {}", s.to_box(Some("c"))?.into_string(), p.to_base64(), hex(&q.to_bytes()), q == pk(f, 0)?))
        }
    }
}

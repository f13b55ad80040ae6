//! C27: effort and memory stay in proportion.
use crate::conc::{heap_peak, heap_watch};
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use minisign::{sign, verify, KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::cell::Cell;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;

pub fn checks() -> Vec<CheckDef> {
    vec![CheckDef { id: "C27", level: "model_checking", rule: "product of operations, verdicts, algorithms, lengths (doubling up to the bound) and chunk sizes; the source counts what it delivers, the allocator keeps the largest amount of memory in use at once; parsing over texts of doubling sizes and of every shape", assumptions: &["memory is what is requested from the allocator; the thread's stack is 16 MiB"], parts: c27 }]
}

const KB: usize = 1 << 10;
/// Room for buffers, whatever the length of the data.
const FIXED: usize = 4 << 20;

/// Data computed from its position.
struct Far { n: u64, pos: u64, chunk: usize, delivered: Rc<Cell<u64>>, calls: Rc<Cell<u64>>, flip: Option<u64> }
fn byte_at(i: u64) -> u8 { (i ^ i >> 8 ^ i >> 16) as u8 ^ 0x39 }
impl Read for Far {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let k = (b.len() as u64).min(self.chunk as u64).min(self.n - self.pos) as usize;
        for (i, x) in b[..k].iter_mut().enumerate() { *x = byte_at(self.pos + i as u64); }
        if let Some(f) = self.flip { if f >= self.pos && f < self.pos + k as u64 { b[(f - self.pos) as usize] ^= 1; } }
        self.pos += k as u64;
        self.delivered.set(self.delivered.get() + k as u64);
        self.calls.set(self.calls.get() + 1);
        Ok(k)
    }
}
impl Seek for Far {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let to = match p { SeekFrom::Start(x) => x as i64, SeekFrom::End(x) => self.n as i64 + x, SeekFrom::Current(x) => self.pos as i64 + x };
        if to < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek")); }
        self.pos = (to as u64).min(self.n);
        Ok(self.pos)
    }
}
fn far(n: u64, chunk: usize) -> (Far, Rc<Cell<u64>>) {
    let d = Rc::new(Cell::new(0));
    (Far { n, pos: 0, chunk, delivered: d.clone(), calls: Default::default(), flip: None }, d)
}

/// With the writes of this thread to standard error swallowed.
fn unheard<T>(f: impl FnOnce() -> T) -> T {
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    let fd = std::os::fd::AsRawFd::as_raw_fd(&null);
    let _g = sys(move |w, to, n| if w && to == 2 { Sys::Elsewhere(fd) } else { Sys::Upto(n) });
    f()
}
fn c27(cfg: &Cfg) -> Vec<Part> {
    let top = cfg.t(24u32, 31);
    let mut sizes: Vec<u64> = (0..=top).flat_map(|b| [(1u64 << b) - 1, 1 << b, (1 << b) + 1]).collect();
    sizes.dedup();
    let s1 = sizes.clone();
    let p1 = part("signing", 0, move |cx| {
        let n = *cx.pick("length", &s1);
        let chunk = *cx.pick("chunk", &[usize::MAX, 65536, 1000]);
        let with_pk = cx.flag("public key given");
        let k = Key::nth(27);
        let (sk, pk) = (sk_of(&k)?, pk_of(&k)?);
        let (_g, _) = rng_seed(27);
        let (f, got) = far(n, chunk);
        heap_watch();
        let r = sign(with_pk.then_some(&pk), &sk, f, Some("t"), Some("u"));
        let peak = heap_peak();
        cx.saw((n, chunk, with_pk));
        r.must("signing")?;
        extra_max("largest memory in use while signing (bytes)", peak as u64);
        if got.get() != n { return fail("reading-effort", format!("signing {n} bytes read {} bytes from the source", got.get())); }
        if peak > FIXED { return fail("memory", format!("signing {n} bytes had {peak} bytes of memory in use at once")); }
        Ok(())
    }).timeout(300);
    let s2 = sizes.clone();
    let p2 = part("verifying", 0, move |cx| {
        let n = *cx.pick("length", &s2);
        let (legacy, altered, out, quiet) = (cx.flag("legacy"), cx.flag("altered"), cx.flag("output"), !cx.flag("not quiet"));
        let chunk = *cx.pick("chunk", &[usize::MAX, 1000]);
        if legacy && n > 1 << 24 { return Ok(()); }
        let k = Key::nth(27);
        let pk = pk_of(&k)?;
        let d: Vec<u8> = if n <= 1 << 24 { (0..n).map(byte_at).collect() } else { vec![] };
        let f = if legacy || n <= 1 << 24 { SigFile::make(&k, if legacy { ALG_LEGACY } else { ALG_PREHASHED }, &d, "u", "t", b"27") } else {
            let mut h = B2::new(64);
            let mut buf = vec![0u8; 1 << 16];
            let (mut src, _) = far(n, usize::MAX);
            loop { let k = src.read(&mut buf).unwrap(); if k == 0 { break; } h.update(&buf[..k]); }
            SigFile::over(&k, ALG_PREHASHED, &h.end(), "u", "t", b"27")
        };
        drop(d);
        let b = SignatureBox::from_string(&f.text()).must("parsing")?;
        let (mut src, got) = far(n, chunk);
        if altered { if n == 0 { return Ok(()); } src.flip = Some(n / 2); }
        // (standard output and standard error of the explorer are the null device here)
        heap_watch();
        let r = if quiet { verify(&pk, &b, src, true, out, true) } else { unheard(|| verify(&pk, &b, src, false, out, true)) };
        let peak = heap_peak();
        cx.saw((n, legacy, altered, out, quiet, chunk));
        if r.is_ok() == altered { return fail("verdict", format!("{n} bytes, altered {altered}: {:?}", r.err().map(|e| e.to_string()))); }
        let passes = if out && !altered { 2 } else { 1 };
        if got.get() > passes * n { return fail("reading-effort", format!("verifying {n} bytes (output {out}, altered {altered}) read {} bytes from the source", got.get())); }
        let room = FIXED + if legacy { 4 * n as usize } else { 0 };
        if !legacy { extra_max("largest memory in use while verifying (bytes)", peak as u64); }
        if peak > room { return fail("memory", format!("verifying {n} bytes (legacy {legacy}) had {peak} bytes of memory in use at once")); }
        Ok(())
    }).timeout(300);
    // what a hostile file can make the parser use
    let tops = cfg.t(20u32, 24);
    let p3 = part("parsing", 0, move |cx| {
        let n = 1usize << cx.choose("size", tops as usize + 1);
        let what = cx.choose("as", 5);
        let k = Key::nth(27);
        let base = match what { 0 => SigFile::make(&k, ALG_PREHASHED, b"x", "u", "t", b"").text(), 1 => format!("untrusted comment: c\n{}\n", k.pk_b64()), 2 => k.sk_plain_box(), 3 => k.pk_b64(), _ => String::new() };
        let shape = cx.choose("shape", 9);
        let lines: Vec<&str> = base.lines().collect();
        let put = |i: usize, s: String| -> String { lines.iter().enumerate().map(|(j, l)| if j == i { s.clone() } else { l.to_string() } + "\n").collect() };
        let text = match shape {
            0 => "A".repeat(n),
            1 => "\n".repeat(n),
            2 => "\r\n".repeat(n / 2),
            3 => put(0, format!("untrusted comment: {}", "x".repeat(n))),
            4 => put(1.min(lines.len().max(1) - 1), "A".repeat(n / 4 * 4)),
            5 => put(2, format!("trusted comment: {}", "\u{e9}".repeat(n / 2))),
            6 => put(3, "A".repeat(n / 4 * 4)),
            7 => base.clone() + &"more\n".repeat(n / 5),
            _ => base.clone() + &" ".repeat(n),
        };
        let len = text.len();
        let copy = text.clone();
        heap_watch();
        let ok = match what {
            0 => SignatureBox::from_string(&copy).is_ok(),
            1 => PublicKeyBox::from_string(&copy).and_then(|b| b.into_public_key()).is_ok(),
            2 => SecretKeyBox::from_string(&copy).and_then(|b| b.into_unencrypted_secret_key()).is_ok(),
            3 => PublicKey::from_base64(&copy).is_ok(),
            _ => SignatureBones::from_bytes(copy.as_bytes()).is_ok() | PublicKey::from_bytes(copy.as_bytes()).is_ok() | SecretKey::from_bytes(copy.as_bytes()).is_ok(),
        };
        let peak = heap_peak();
        cx.saw((what, shape, n, ok));
        extra_max("largest memory in use while parsing, per byte of text (beyond 64 KiB)", (peak.saturating_sub(64 * KB) / len.max(1)) as u64);
        if peak > 64 * KB + 16 * len { return fail("memory", format!("parsing {len} bytes had {peak} bytes of memory in use at once")); }
        Ok(())
    });
    // nothing is left behind: using the library for long costs no memory
    let reps = cfg.t(300usize, 3000);
    let tier = cfg.t("quick", "thorough");
    let p4 = part("memory after many operations", 0, move |cx| {
        let op = cx.choose("operation", 24);
        // in this process, after all that went before, and in a new one
        if cx.flag("new process") {
            let spec = serde_json::json!({"part": "memory after many operations", "choices": [[24, op], [2, 0]]});
            cx.saw((op, true));
            return match crate::run_case_process("C27", tier, &spec, 100) {
                crate::CaseEnd::Ok => Ok(()),
                crate::CaseEnd::Violation => fail("memory-kept", format!("operation {op} in a new process")),
                _ => panic!("the new process failed"),
            };
        }
        let k = Key::nth(27);
        let (sk, pk) = (sk_of(&k)?, pk_of(&k)?);
        let (_g, log) = rng_seed(27);
        let d = data(27, 300);
        let f = SigFile::make(&k, ALG_PREHASHED, &d, "u", "t", b"");
        let (old, other) = (SigFile::make(&k, ALG_LEGACY, &d, "u", "t", b""), data(28, 300));
        let (pk2, pk3) = (pk_of(&k.with_keynum([1; 8]))?, pk_of(&Key::nth(28).with_keynum(k.keynum))?);
        let bad = f.text().replace("trusted comment: t", "trusted comment: s");
        let enc = k.sk_enc_box(KdfKind::Ideal, "pw", &[1; 32], 1 << 20, 1 << 25).unwrap();
        let one = |i: usize| match op {
            0 => { sign(Some(&pk), &sk, &d[..i % 300], Some("t"), None).is_ok() }
            1 => verdict_text(&pk, &f.text(), &d, false).is_ok(),
            2 => verdict_text(&pk, &bad, &d, false).is_err(),
            3 => KeyPair::generate_unencrypted_keypair().is_ok(),
            4 => SecretKeyBox::from(enc.clone()).into_secret_key(Some("pw".into())).is_ok(),
            5 => SecretKeyBox::from(enc.clone()).into_secret_key(Some(format!("wrong {i}"))).is_err(),
            6 => SignatureBox::from_string(&f.text()[..i % 200]).is_err(),
            7 => PublicKeyBox::from_string(&format!("untrusted comment: {i}\n{}\n", k.pk_b64())).and_then(|b| b.into_public_key()).is_ok(),
            8 => sk.to_box(Some(&i.to_string())).is_ok(),
            9 => verdict_text(&pk, &f.text(), &other, false).is_err(),
            10 => verdict_text(&pk, &old.text(), &d, true).is_ok(),
            11 => verdict_text(&pk, &old.text(), &other, true).is_err(),
            12 => verdict_text(&pk, &old.text(), &d, false).is_err(),
            13 => verdict_text(&pk2, &f.text(), &d, false).is_err(),
            14 => verdict_text(&pk3, &f.text(), &d, false).is_err(),
            15 => SignatureBones::from_bytes(&f.sig_bytes()).and_then(|b| verify(&pk, &b.into(), io::Cursor::new(&d), true, false, false)).is_ok(),
            16 => sign(None, &sk, io::Cursor::new(&d[..i % 300]), None, None).and_then(|b| b.trusted_comment().map(|_| ())).is_ok(),
            17 => sign(Some(&pk3), &sk, &d[..], None, None).is_err(),
            18 => PublicKey::from_base64(&k.pk_b64()).is_ok() && PublicKey::from_base64(&k.pk_b64()[..i % 50]).is_err(),
            19 => SecretKey::from_bytes(&k.sk_plain_bytes()).is_ok() && SecretKey::from_bytes(&k.sk_plain_bytes()[..i % 150]).is_err(),
            20 => KeyPair::generate_encrypted_keypair(Some(format!("password {i}"))).is_ok(),
            21 => KeyPair::generate_and_write_encrypted_keypair(io::sink(), io::sink(), Some("c"), Some("p".into())).is_ok() && KeyPair::generate_and_write_unencrypted_keypair(io::sink(), io::sink()).is_ok(),
            22 => sk.clone() == sk && pk.clone() == pk && PublicKey::from_secret_key(&sk).is_ok() && pk.to_box().is_ok(),
            _ => verify(&pk, &SignatureBox::from_string(&f.text()).unwrap(), io::Cursor::new(&d), true, true, false).is_ok(),
        };
        // (growth by doubling shows in every doubling of the number of operations)
        let (mut grown, mut done) = (vec![], 0);
        for n in [reps, reps, 2 * reps, 4 * reps] {
            heap_watch();
            for i in done..done + n {
                if !one(i) { return fail("outcome", format!("operation {op}, repetition {i}")); }
                log.0.borrow_mut().clear();
            }
            done += n;
            grown.push((n, crate::conc::heap_now()));
        }
        cx.saw((op, false));
        cx.bulk(done as u64);
        if grown[2..].iter().all(|(n, g)| *g > 1024 + (*n * 4) as i64) { return fail("memory-kept", format!("operation {op}: (repetitions, bytes kept) {grown:?}")); }
        Ok(())
    });
    vec![p1, p2, p3, p4]
}

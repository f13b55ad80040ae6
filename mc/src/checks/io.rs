//! C12, C13, C14: data sources, standard streams, writers.
use crate::checks::keys::box_bytes;
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use minisign::{sign, verify, KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

pub fn checks() -> Vec<CheckDef> {
    vec![
        CheckDef { id: "C12", level: "fault_enumeration", rule: "every schedule of read answers (full, short, interrupted, failing) with up to the bound of deviations, at every read including the one that reports the end; constant chunk sizes and all split points; outcome compared with the undisturbed one, or an error after a failure", assumptions: &["a read that returns 0 bytes means the end of the data"], parts: c12 },
        CheckDef { id: "C13", level: "fault_enumeration", rule: "product of verdicts, flags, algorithms, sizes and initial positions, then every schedule of re-read answers and failing output descriptors; captured descriptors 1 and 2 compared with the specification", assumptions: &["the data source yields the same bytes when it is read again"], parts: c13 },
        CheckDef { id: "C14", level: "fault_enumeration", rule: "every schedule of write and flush answers of both writers with up to the bound of deviations; success implies complete, flushed and readable", assumptions: &[], parts: c14 },
    ]
}

// ---------------------------------------------------------------------- C12
const HARD: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::InvalidData];
#[derive(Default)]
struct Fault { hard: bool }
/// A script with a deviation choice at each read.
fn scripted(cx: &Cx, len: usize, fault: Rc<RefCell<Fault>>) -> impl FnMut(usize, usize) -> Answer {
    let cx = cx.clone();
    let mut dead = 0; // 1: at the end for ever, 2: failing for ever
    let mut reads = 0u32;
    move |pos, buf| {
        reads += 1;
        if reads > 400_000 { panic!("reading without end"); }
        if dead == 1 { return Answer::Data(0); }
        if dead == 2 { return Answer::Err(ErrorKind::Other); }
        let n = buf.min(len.saturating_sub(pos));
        match cx.dev("read", 5 + HARD.len() + 2) {
            0 => Answer::Data(n),
            1 => Answer::Data(n.min(1)),
            2 => Answer::Data(if n > 1 { n / 2 } else { n }),
            3 => Answer::Data(if n > 1 { n - 1 } else { n }),
            4 => Answer::Err(ErrorKind::Interrupted),
            i => {
                fault.borrow_mut().hard = true;
                let i = i - 5;
                if i < HARD.len() { Answer::Err(HARD[i]) } else { dead = 1 + (i - HARD.len()); Answer::Err(ErrorKind::Other) }
            }
        }
    }
}
struct Fix12 { k: Key, sk: SecretKey, pk: PublicKey }
fn fix12() -> Result<Fix12, Fail> { let k = Key::nth(12); Ok(Fix12 { sk: sk_of(&k)?, pk: pk_of(&k)?, k }) }
const OPS12: [&str; 6] = ["sign", "sign-with-pk", "verify", "verify-altered", "verify-legacy", "verify-legacy-altered"];
/// Outcome of an operation on a source: Ok(signature text or "") or Err.
fn op12<R: Read + io::Seek>(f: &Fix12, op: usize, d: &[u8], src: R) -> Result<String, String> {
    let (_g, _) = rng_seed(12);
    let e = |x: minisign::PError| x.to_string();
    let mut other = d.to_vec();
    if let Some(x) = other.last_mut() { *x ^= 1 } else { other.push(0) }
    let sb = |alg, data: &[u8]| -> Result<SignatureBox, String> { SignatureBox::from_string(&SigFile::make(&f.k, alg, data, "u", "t", b"12").text()).map_err(e) };
    match OPS12[op] {
        "sign" => sign(None, &f.sk, src, Some("t"), Some("u")).map(|b| b.to_string()).map_err(e),
        "sign-with-pk" => sign(Some(&f.pk), &f.sk, src, Some("t"), Some("u")).map(|b| b.to_string()).map_err(e),
        "verify" => verify(&f.pk, &sb(ALG_PREHASHED, d)?, src, true, false, true).map(|_| String::new()).map_err(e),
        "verify-altered" => verify(&f.pk, &sb(ALG_PREHASHED, &other)?, src, true, false, true).map(|_| String::new()).map_err(e),
        "verify-legacy" => verify(&f.pk, &sb(ALG_LEGACY, d)?, src, true, false, true).map(|_| String::new()).map_err(e),
        _ => verify(&f.pk, &sb(ALG_LEGACY, &other)?, src, true, false, true).map(|_| String::new()).map_err(e),
    }
}
thread_local! { static BASE12: RefCell<HashMap<(usize, Vec<u8>), Result<String, String>>> = RefCell::default(); }
fn judge12(cx: &Cx, f: &Fix12, op: usize, d: &[u8], r: Result<String, String>, hard: bool, how: &str) -> Res {
    let base = BASE12.with(|m| m.borrow().get(&(op, d.to_vec())).cloned()).unwrap_or_else(|| op12(f, op, d, io::Cursor::new(d)));
    BASE12.with(|m| { let mut m = m.borrow_mut(); if m.len() > 64 { m.clear(); } m.insert((op, d.to_vec()), base.clone()); });
    if base.is_ok() == OPS12[op].ends_with("altered") { return fail("baseline", format!("{} of {} bytes undisturbed: {base:?}", OPS12[op], d.len())); }
    cx.saw((op, d.len(), hard, r.is_ok(), cx.trace().iter().map(|t| t.c).collect::<Vec<_>>(), how));
    if hard {
        if r.is_ok() { return fail("read-failure-ignored", format!("{} of {} bytes succeeded although a read failed ({how})", OPS12[op], d.len())); }
        return Ok(());
    }
    if r.is_ok() != base.is_ok() || (r.is_ok() && r != base) {
        return fail("delivery-matters", format!("{} of {} bytes: {} when delivered {how}, {} in one piece", OPS12[op], d.len(), if r.is_ok() { "succeeds (another result)".into() } else { format!("fails ({})", r.unwrap_err()) }, if base.is_ok() { "succeeds" } else { "fails" }));
    }
    Ok(())
}
fn c12(cfg: &Cfg) -> Vec<Part> {
    let lens: Vec<usize> = cfg.t(vec![5, 0, 1, 127, 128, 129, 256, 65536, 65537, 131072], vec![5, 0, 1, 2, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537, 65664, 131071, 131072, 131073, 200_000]);
    let p1 = part("schedules", cfg.t(2, 3), move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let d = data(12, *cx.pick("length", &lens));
        let fault = Rc::new(RefCell::new(Fault::default()));
        let src = Src::new(&d, scripted(cx, d.len(), fault.clone()));
        let r = op12(&f, op, &d, src);
        let hard = fault.borrow().hard;
        judge12(cx, &f, op, &d, r, hard, "in scripted pieces")
    });
    let lens2: Vec<usize> = cfg.t(vec![1, 128, 129, 300, 512, 1000], vec![1, 127, 128, 129, 300, 512, 1000, 4097, 65537, 131073]);
    let cmax = cfg.t(300, 1100);
    let p2 = part("constant chunks", 0, move |cx| {
        let f = fix12()?;
        let op = *cx.pick("operation", &[0usize, 2, 3, 4]);
        let d = data(12, *cx.pick("length", &lens2));
        let c = 1 + cx.choose("chunk", cmax);
        if d.len() > 20000 && c % 16 > 1 { return Ok(()); }
        let alt = cx.flag("interrupted before each");
        let mut flip = false;
        let r = op12(&f, op, &d, Src::new(&d, move |_, _| { flip = !flip; if alt && flip { Answer::Err(ErrorKind::Interrupted) } else { Answer::Data(c) } }));
        judge12(cx, &f, op, &d, r, false, &format!("in pieces of {c}"))
    });
    let l3 = cfg.t(280, 420);
    let p3 = part("all pairs of split points", 0, move |cx| {
        let f = fix12()?;
        let op = if cx.flag("legacy") { 4 } else { 0 };
        let d = data(12, l3);
        let a = cx.choose("first", l3);
        let b = a + cx.choose("second", l3 - a);
        if op == 4 && (a + b) % 8 > 1 { return Ok(()); }
        let r = op12(&f, op, &d, Src::new(&d, move |pos, _| Answer::Data(if pos < a { a - pos } else if pos < b { b - pos } else { usize::MAX })));
        judge12(cx, &f, op, &d, r, false, &format!("split at {a} and {b}"))
    });
    // a source that is not at its beginning: what it still yields counts
    let p4 = part("initial position", 0, move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let d = data(12, *cx.pick("length", &[5usize, 128, 300, 65537, 131073]));
        let at = *cx.pick("position", &[0usize, 1, 2, 5, 128, 299, 65536]);
        if at > d.len() { return Ok(()); }
        let mut c = io::Cursor::new(&d[..]);
        c.set_position(at as u64);
        let r = op12(&f, op, &d[at..], c);
        judge12(cx, &f, op, &d[at..], r, false, &format!("from position {at}"))
    });
    // a failure at every single read of a finely chopped source
    let p5 = part("failure at every read", 0, move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let chunk = *cx.pick("chunk", &[1usize, 7, 64, 128, 129]);
        let d = data(12, 260);
        let reads = d.len().div_ceil(chunk) + 1;
        let at = cx.choose("read", reads);
        let kind = *cx.pick("kind", &HARD);
        let mut i = 0;
        let hit = Rc::new(RefCell::new(false));
        let h = hit.clone();
        let r = op12(&f, op, &d, Src::new(&d, move |_, _| { i += 1; if i - 1 == at { *h.borrow_mut() = true; Answer::Err(kind) } else { Answer::Data(chunk) } }));
        let hard = *hit.borrow();
        judge12(cx, &f, op, &d, r, hard, &format!("in pieces of {chunk}, failing at read {at}"))
    });
    // any number of interruptions, in a row or spread, is no failure
    let top = cfg.t(17, 21);
    let p6 = part("long runs of interruptions and short reads", 0, move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let run = *cx.pick("run", &doublings(1, top));
        let at = *cx.pick("before read", &[0usize, 1, 2]);
        let d = data(12, 65536 + 100);
        let (mut reads, mut left) = (0usize, run);
        let r = op12(&f, op, &d, Src::new(&d, move |_, _| {
            if reads == at && left > 0 { left -= 1; return Answer::Err(ErrorKind::Interrupted); }
            reads += 1;
            Answer::Data(40_000)
        }));
        judge12(cx, &f, op, &d, r, false, &format!("with {run} interruptions in a row before read {at}"))
    }).timeout(200);
    let tb = cfg.t(20, 24);
    let p7 = part("long data in small pieces", 0, move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let n = *cx.pick("length", &doublings(16, tb));
        let c = *cx.pick("piece", &[1usize, 3, 127, 128, 1000, 4096, 8191, 8192, 16384, 32768, 65535, 65536, 65537, 100_000]);
        let alt = cx.flag("interrupted now and then");
        let d = data(12, n);
        let mut i = 0u64;
        let r = op12(&f, op, &d, Src::new(&d, move |_, _| { i += 1; if alt && i % 3 == 2 { Answer::Err(ErrorKind::Interrupted) } else { Answer::Data(c) } }));
        judge12(cx, &f, op, &d, r, false, &format!("in pieces of {c}"))
    }).timeout(200);
    // a failure after a long stretch of good data
    let p8 = part("late failures", 0, move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let n = *cx.pick("length", &doublings(16, tb));
        let at = match cx.choose("position", 4) { 0 => n, 1 => n - 1, 2 => n / 2, _ => 65536 };
        let kind = *cx.pick("kind", &HARD);
        let d = data(12, n);
        let mut done = false;
        let again = cx.flag("goes on afterwards");
        let hit = Rc::new(RefCell::new(false));
        let h = hit.clone();
        let r = op12(&f, op, &d, Src::new(&d, move |pos, _| {
            if pos < at { return Answer::Data(at - pos); }
            if done && again { return Answer::Data(usize::MAX); }
            done = true;
            *h.borrow_mut() = true;
            Answer::Err(kind)
        }));
        let hard = *hit.borrow();
        judge12(cx, &f, op, &d, r, hard, &format!("failing at byte {at}"))
    }).timeout(200);
    // every error there is, at every read
    let p9 = part("every error", 0, move |cx| {
        let f = fix12()?;
        let op = cx.choose("operation", OPS12.len());
        let e = cx.choose("error", ERRORS);
        let at = cx.choose("read", 4);
        let again = cx.flag("goes on afterwards");
        let d = data(12, 300);
        let mut i = 0;
        let hit = Rc::new(RefCell::new(false));
        let h = hit.clone();
        let r = op12(&f, op, &d, Src::new(&d, move |_, _| {
            i += 1;
            if i == at + 1 || (i > at + 1 && !again && !soft(e)) { *h.borrow_mut() = true; if i > 1000 { panic!("reading without end"); } return Answer::Nth(e); }
            Answer::Data(100)
        }));
        let hard = *hit.borrow() && !soft(e);
        judge12(cx, &f, op, &d, r, hard, &format!("with {:?} at read {at}", nth_error(e)))
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9]
}

// ---------------------------------------------------------------------- C13
/// Descriptors 1 and 2 redirected for the duration of one operation.
struct Capture { saved: [i32; 2], out: i32, err: i32, drain: Option<i32> }
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum OutTo { Memory, Full, BrokenPipe, SmallPipe }
fn c(r: i32) -> i32 { assert!(r >= 0, "system call failed: {}", io::Error::last_os_error()); r }
fn memfd() -> i32 { c(unsafe { libc::memfd_create(c"mc".as_ptr(), libc::MFD_CLOEXEC) }) }
fn slurp(fd: i32) -> Vec<u8> {
    let mut v = vec![];
    let mut b = [0u8; 65536];
    loop {
        let n = unsafe { libc::pread(fd, b.as_mut_ptr() as *mut _, b.len(), v.len() as i64) };
        if n <= 0 { return v; }
        v.extend(&b[..n as usize]);
    }
}
impl Capture {
    fn new(to: OutTo) -> Capture {
        unsafe {
            io::stdout().flush().ok();
            let saved = [c(libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10)), c(libc::fcntl(2, libc::F_DUPFD_CLOEXEC, 10))];
            let err = memfd();
            let mut drain = None;
            let out = match to {
                OutTo::Memory => memfd(),
                OutTo::Full => c(libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC)),
                OutTo::BrokenPipe | OutTo::SmallPipe => {
                    let mut p = [0i32; 2];
                    c(libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC | libc::O_NONBLOCK));
                    if to == OutTo::BrokenPipe { libc::close(p[0]); } else { libc::fcntl(p[1], libc::F_SETPIPE_SZ, 4096); drain = Some(p[0]); }
                    p[1]
                }
            };
            c(libc::dup2(out, 1));
            c(libc::dup2(err, 2));
            Capture { saved, out, err, drain }
        }
    }
    /// What has arrived by now (nothing is flushed on the library's behalf).
    fn end(self) -> (Vec<u8>, Vec<u8>) {
        unsafe {
            let out = match self.drain {
                Some(p) => { let mut v = vec![]; let mut b = [0u8; 65536]; loop { let n = libc::read(p, b.as_mut_ptr() as *mut _, b.len()); if n <= 0 { break; } v.extend(&b[..n as usize]); } v }
                None => slurp(self.out),
            };
            let err = slurp(self.err);
            // what the library left in the stdout buffer must not leak into the next case
            let null = c(libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC));
            c(libc::dup2(null, 1));
            io::stdout().flush().ok();
            c(libc::dup2(self.saved[0], 1));
            c(libc::dup2(self.saved[1], 2));
            for f in [null, self.out, self.err, self.saved[0], self.saved[1]].into_iter().chain(self.drain) { libc::close(f); }
            (out, err)
        }
    }
}
const VERD: [&str; 8] = ["valid", "data altered", "comment altered", "other key", "other identifier", "signature altered", "global signature altered", "not the data"];
#[derive(Clone)]
struct Case13 { k: Key, b: SignatureBox, pk: PublicKey, d: Vec<u8>, full: bool, comment: &'static str, valid: bool, legacy: bool }
/// Data with and without line breaks, of a given length.
fn shape(len: usize, kind: usize) -> Vec<u8> {
    let mut d = data(13, len);
    match kind {
        0 => {}
        1 => for (i, x) in d.iter_mut().enumerate() { *x = if i % 61 == 60 { b'\n' } else { b'a' + (i % 26) as u8 } },
        _ => for (i, x) in d.iter_mut().enumerate() { *x = b'A' + (i % 26) as u8 },
    }
    d
}
thread_local! { static CASES13: RefCell<HashMap<(usize, bool, bool, Vec<u8>), Rc<Case13>>> = RefCell::default(); }
/// Fixtures are memoised: they come from the reference model.
fn case13(verd: usize, legacy: bool, bones: bool, d: Vec<u8>) -> Result<Case13, Fail> {
    let key = (verd, legacy, bones, d);
    if let Some(c) = CASES13.with(|m| m.borrow().get(&key).cloned()) { return Ok((*c).clone()); }
    let c = make13(verd, legacy, bones, key.3.clone())?;
    CASES13.with(|m| { let mut m = m.borrow_mut(); if m.len() > 100 { m.clear(); } m.insert(key, Rc::new(c.clone())); });
    Ok(c)
}
fn make13(verd: usize, legacy: bool, bones: bool, d: Vec<u8>) -> Result<Case13, Fail> {
    let k = Key::nth(13);
    let comment = "shown-only-when-verified-7731";
    let alg = if legacy { ALG_LEGACY } else { ALG_PREHASHED };
    let mut f = SigFile::make(&k, alg, &d, "unt", comment, b"13");
    let mut pk = pk_of(&k)?;
    let mut valid = VERD[verd] == "valid";
    let mut seen = d.clone();
    match VERD[verd] {
        "data altered" => { if let Some(x) = seen.last_mut() { *x ^= 0x20 } else { seen.push(b'x') } }
        "comment altered" => { f = SigFile::make(&k, alg, &d, "unt", "other", b"13"); f.trusted = comment.into(); valid = bones; }
        "other key" => pk = pk_of(&Key::nth(14).with_keynum(k.keynum))?,
        "other identifier" => pk = pk_of(&k.with_keynum([9; 8]))?,
        "signature altered" => f.sig[3] ^= 1,
        "global signature altered" => { f.global[40] ^= 1; valid = bones; }
        "not the data" => { seen = data(99, d.len() + 3); }
        _ => {}
    }
    let mut b = SignatureBox::from_string(&f.text()).must("parsing a signature")?;
    if bones { b = SignatureBox::from(SignatureBones::from(b)); }
    Ok(Case13 { k, b, pk, d: seen, full: !bones, comment, valid, legacy })
}
fn has(hay: &[u8], needle: &str) -> bool { hay.windows(needle.len()).any(|w| w == needle.as_bytes()) }
fn head(b: &[u8]) -> String { format!("{} bytes{}", b.len(), if b.is_empty() { String::new() } else { format!(" ({:?}...)", String::from_utf8_lossy(&b[..b.len().min(40)])) }) }
/// Verdict and captured streams against the specification; `hard`: the source or output failed.
#[allow(clippy::too_many_arguments)]
fn judge13(k: &Case13, at: usize, quiet: bool, output: bool, allow: bool, r: &Result<(), minisign::PError>, out: &[u8], err: &[u8], hard: bool, how: &str) -> Res {
    let verified = k.valid && (allow || !k.legacy);
    let want = &k.d[at..];
    let what = || format!("{how}: {} bytes from {at}, legacy {}, full {}, genuine {}, quiet {quiet}, output {output}, allow {allow}", k.d.len(), k.legacy, k.full, k.valid);
    let _ = &k.k;
    if !verified {
        if r.is_ok() { return fail("verdict", format!("{}: accepted", what())); }
        if !out.is_empty() { return fail("unverified-data-shown", format!("{}: {} on standard output", what(), head(out))); }
        if has(err, k.comment) { return fail("unverified-comment-shown", format!("{}: {:?}", what(), String::from_utf8_lossy(err))); }
        return Ok(());
    }
    if !output && !out.is_empty() { return fail("unrequested-output", format!("{}: {} on standard output", what(), head(out))); }
    if quiet && has(err, k.comment) { return fail("not-quiet", format!("{}: {:?}", what(), String::from_utf8_lossy(err))); }
    if hard {
        if r.is_ok() { return fail("failure-ignored", format!("{}: success reported", what())); }
        if !want.starts_with(out) { return fail("wrong-output", format!("{}: {} is not a prefix of the verified data", what(), head(out))); }
        return Ok(());
    }
    if let Err(e) = r { return fail("verdict", format!("{}: refused: {e}", what())); }
    if output && out != want { return fail("wrong-output", format!("{}: {} instead of {}", what(), head(out), head(want))); }
    if !quiet && k.full && !has(err, k.comment) { return fail("comment-not-shown", format!("{}: standard error {:?}", what(), String::from_utf8_lossy(err))); }
    Ok(())
}
fn c13(cfg: &Cfg) -> Vec<Part> {
    let lens: Vec<usize> = cfg.t(vec![0, 1, 5, 1024, 65535, 65536, 65537, 140_000], vec![0, 1, 2, 5, 1023, 1024, 1025, 65535, 65536, 65537, 131072, 131073, 200_000, 1_000_003]);
    let l1 = lens.clone();
    let p1 = part("verdicts and flags", 0, move |cx| {
        let (verd, legacy, bones) = (cx.choose("verdict", VERD.len()), cx.flag("legacy"), cx.flag("bones"));
        let (quiet, output, allow) = (cx.flag("quiet"), cx.flag("output"), cx.flag("allow"));
        let len = *cx.pick("length", &l1);
        let k = case13(verd, legacy, bones, shape(len, cx.choose("shape", 3)))?;
        let cap = Capture::new(OutTo::Memory);
        let r = verify(&k.pk, &k.b, io::Cursor::new(&k.d[..]), quiet, output, allow);
        let (out, err) = cap.end();
        cx.saw((verd, legacy, bones, quiet, output, allow, len, r.is_ok()));
        judge13(&k, 0, quiet, output, allow, &r, &out, &err, false, VERD[verd])
    }).serial();
    let l2 = lens.clone();
    let p2 = part("initial positions", 0, move |cx| {
        let (valid, legacy, output) = (cx.flag("altered"), cx.flag("legacy"), cx.flag("no output"));
        let len = *cx.pick("length", &l2);
        let at = *cx.pick("position", &[0, 1, 4, 1000, 65536]);
        if at > len { return Ok(()); }
        let d = shape(len, 1);
        let mut k = case13(valid as usize, legacy, false, d[at..].to_vec())?;
        let mut whole = d[..at].to_vec();
        whole.extend(&k.d);
        k.d = whole;
        let file = cx.flag("file");
        let cap = Capture::new(OutTo::Memory);
        let r = if file {
            use std::io::Seek;
            let t = TempFile::new(&k.d);
            let mut f = std::fs::File::open(&t.0).expect("scratch");
            f.seek(io::SeekFrom::Start(at as u64)).expect("seek");
            verify(&k.pk, &k.b, f, false, !output, true)
        } else {
            let mut c = io::Cursor::new(&k.d[..]);
            c.set_position(at as u64);
            verify(&k.pk, &k.b, c, false, !output, true)
        };
        let (out, err) = cap.end();
        cx.saw((valid, legacy, output, len, at, file, r.is_ok()));
        judge13(&k, at, false, !output, true, &r, &out, &err, false, "initial position")
    }).serial();
    let lens3: Vec<usize> = cfg.t(vec![5, 65537, 140_000], vec![0, 5, 2000, 65536, 65537, 131073, 200_000]);
    let p3 = part("re-read and output faults", cfg.t(2, 3), move |cx| {
        let (verd, legacy, quiet) = (cx.choose("verdict", 3), cx.flag("legacy"), cx.flag("quiet"));
        let to = *cx.devpick("output to", &[OutTo::Memory, OutTo::Full, OutTo::BrokenPipe, OutTo::SmallPipe]);
        let len = *cx.pick("length", &lens3);
        let at = *cx.devpick("position", &[0usize, 3]);
        if at > len { return Ok(()); }
        let d = shape(len, cx.dev("shape", 3));
        let mut k = case13(verd, legacy, false, d[at..].to_vec())?;
        let mut whole = d[..at].to_vec();
        whole.extend(&k.d);
        k.d = whole;
        let fault = Rc::new(RefCell::new(Fault::default()));
        // the first reading is C12's subject: only a few answers there
        let second = Rc::new(std::cell::Cell::new(false));
        let (s2, cx3, n) = (second.clone(), cx.clone(), k.d.len());
        let mut rest = scripted(cx, n, fault.clone());
        let f3 = fault.clone();
        let mut src = Src::new(&k.d, move |pos, buf| {
            if s2.get() { return rest(pos, buf); }
            match cx3.dev("first reading", 3) {
                0 => Answer::Data(buf),
                1 => Answer::Data(buf.min(n.saturating_sub(pos)) / 2 + 1),
                _ => { f3.borrow_mut().hard = true; Answer::Err(ErrorKind::Other) }
            }
        });
        src.pos = at;
        let (cx2, f2) = (cx.clone(), fault.clone());
        let mut seeks = 0;
        src.seek = Box::new(move |_| {
            seeks += 1;
            second.set(true);
            if seeks > 50 { panic!("seeking without end"); }
            if cx2.dev("seek", 2) == 1 { f2.borrow_mut().hard = true; return Err(io::Error::new(ErrorKind::Other, "scripted seek failure")); }
            Ok(())
        });
        let cap = Capture::new(to);
        let r = verify(&k.pk, &k.b, src, quiet, true, true);
        let (out, err) = cap.end();
        let full_out = match to { OutTo::Memory => false, OutTo::SmallPipe => k.d.len() - at > 4096, _ => k.d.len() > at };
        let hard = fault.borrow().hard || full_out;
        cx.saw((verd, legacy, quiet, format!("{to:?}"), len, at, hard, r.is_ok(), out.len(), cx.trace().iter().map(|t| (t.label, t.c)).collect::<Vec<_>>()));
        judge13(&k, at, quiet, true, true, &r, &out, &err, hard, &format!("output to {to:?}"))
    }).serial();
    // many signatures in a row through the same standard output buffer
    let n = cfg.t(3, 4);
    let p4 = part("sequences", 0, move |cx| {
        let mut total = vec![];
        let cap = Capture::new(OutTo::Memory);
        let mut verdicts = vec![];
        for _ in 0..n {
            let (verd, out) = (cx.choose("verdict", 3), cx.flag("output"));
            let d = shape(*cx.pick("length", &[3usize, 1500, 70_000]), if verd == 0 { 2 } else { 1 });
            let k = case13(verd, false, false, d);
            let k = match k { Ok(k) => k, Err(e) => { cap.end(); return Err(e) } };
            let r = verify(&k.pk, &k.b, io::Cursor::new(&k.d[..]), true, out, false);
            verdicts.push(r.is_ok() == k.valid);
            if k.valid && out { total.extend(&k.d); }
        }
        let (out, _) = cap.end();
        cx.saw((total.len(), cx.trace().len(), &out));
        if verdicts.contains(&false) { return fail("verdict", format!("verdicts {verdicts:?} as expected?")); }
        if out != total { return fail("wrong-output", format!("{} instead of {}", head(&out), head(&total))); }
        Ok(())
    }).serial();
    // where the last line end lies matters to a line-buffered standard output
    let steps: Vec<usize> = cfg.t(vec![0, 1, 2, 100, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 5000, 8191, 8192, 8193, 65535, 65536, 65537], (0..40).chain(1000..1060).chain([2047, 2048, 2049, 3000, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 131073, 262145]).collect());
    let p5 = part("line ends", 0, move |cx| {
        let (before, after) = (*cx.pick("before the last line end", &steps), *cx.pick("after it", &steps));
        let ending = cx.choose("line end", 3);
        let mut d = shape(before, 2);
        if ending == 1 { d.push(b'\r'); }
        if ending < 2 { d.push(b'\n'); }
        d.extend(shape(after, 2));
        if cx.flag("another line at the start") { d.insert(0, b'\n'); }
        let len = d.len();
        let k = case13(0, false, false, d)?;
        let cap = Capture::new(OutTo::Memory);
        let r = verify(&k.pk, &k.b, io::Cursor::new(&k.d[..]), true, true, false);
        let (out, err) = cap.end();
        cx.saw((before, after, ending, len, r.is_ok()));
        judge13(&k, 0, true, true, false, &r, &out, &err, false, "line ends")
    }).serial();
    let top = cfg.t(22, 26);
    let mut sizes = doublings(10, top);
    sizes.extend(multiples(cfg.t(2_000_000, 70_000_000)));
    let p6 = part("sizes around powers of two and multiples of round sizes", 0, move |cx| {
        let n = *cx.pick("length", &sizes);
        let (verd, legacy, out) = (cx.choose("verdict", 3), cx.flag("legacy"), cx.flag("output"));
        let k = make13(verd, legacy, false, shape(n, cx.choose("shape", 2)))?;
        let cap = Capture::new(OutTo::Memory);
        let r = verify(&k.pk, &k.b, io::Cursor::new(&k.d[..]), false, out, true);
        let (got, err) = cap.end();
        cx.saw((n, verd, legacy, out, r.is_ok()));
        judge13(&k, 0, false, out, true, &r, &got, &err, false, "sizes")
    }).serial().timeout(200);
    // comments of every kind appear on standard error after success only, and never when quiet
    let coms = comments();
    let p7 = part("comments shown", 0, move |cx| {
        let i = cx.choose("comment", coms.len() + 30);
        let c = if i < coms.len() { coms[i].clone() } else { long_line(doublings(7, 16)[i - coms.len()]) };
        let (quiet, out, legacy, bad) = (cx.flag("quiet"), cx.flag("output"), cx.flag("legacy"), cx.flag("altered"));
        let k = Key::nth(13);
        let d = shape(200, 1);
        let mut f = SigFile::make(&k, if legacy { ALG_LEGACY } else { ALG_PREHASHED }, &d, "unt", &c, b"13");
        match cx.choose("altered part", 3) { 0 => if bad { f.sig[40] ^= 1 }, 1 => if bad { f.global[40] ^= 1 }, _ => if bad { f.trusted.push('!') } }
        let b = SignatureBox::from_string(&f.text()).must("parsing a signature")?;
        let cap = Capture::new(OutTo::Memory);
        let r = verify(&pk_of(&k)?, &b, io::Cursor::new(&d[..]), quiet, out, true);
        let (got, err) = cap.end();
        cx.saw((&c, quiet, out, legacy, bad, r.is_ok()));
        if r.is_ok() == bad { return fail("verdict", format!("comment {c:?}, altered {bad}: {}", r.is_ok())); }
        if got != if out && !bad { &d[..] } else { &[] } { return fail("wrong-output", format!("comment {c:?}: {} on standard output", head(&got))); }
        if quiet && !err.is_empty() || bad && !f.trusted.is_empty() && has(&err, &f.trusted) && f.trusted.trim().len() > 3 { return fail("comment-shown", format!("comment {c:?}: standard error has {}", head(&err))); }
        if !quiet && !bad && !c.is_empty() && !has(&err, &c) { return fail("comment-not-shown", format!("comment {c:?}: standard error has {}", head(&err))); }
        Ok(())
    }).serial();
    // every error there is, when the data are read again
    let p8 = part("every error when reading again", 0, move |cx| {
        let (e, at) = (cx.choose("error", ERRORS), cx.choose("at", 5));
        let legacy = cx.flag("legacy");
        let k = case13(0, legacy, false, shape(*cx.pick("length", &[5usize, 70_000]), 1))?;
        let (second, hit) = (Rc::new(std::cell::Cell::new(false)), Rc::new(std::cell::Cell::new(false)));
        let (s2, h2, h3, mut i) = (second.clone(), hit.clone(), hit.clone(), 0);
        let n = k.d.len();
        let mut src = Src::new(&k.d, move |_, buf| {
            if !s2.get() { return Answer::Data(buf); }
            i += 1;
            if i > 1000 { panic!("reading without end"); }
            if i == at { h2.set(true); return Answer::Nth(e); }
            Answer::Data(n.div_ceil(2))
        });
        let mut seeks = 0;
        src.seek = Box::new(move |_| {
            second.set(true);
            seeks += 1;
            if at == 0 && seeks == 1 { h3.set(true); return Err(nth_error(e)); }
            Ok(())
        });
        let cap = Capture::new(OutTo::Memory);
        let r = verify(&k.pk, &k.b, src, true, true, true);
        let (out, err) = cap.end();
        // an interrupted seek may be repeated or reported
        if soft(e) && at == 0 { return Ok(()); }
        cx.saw((e, at, legacy, n, r.is_ok(), out.len()));
        judge13(&k, 0, true, true, true, &r, &out, &err, hit.get() && !soft(e), &format!("{:?} at read {at} of the second pass", nth_error(e)))
    }).serial();
    // what the descriptor of standard output may answer
    let p9 = part("answers of standard output", cfg.t(2, 3), move |cx| {
        const ERRNO: [i32; 10] = [libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::EFBIG, libc::EINVAL, libc::EDQUOT, libc::EPERM, libc::ENXIO, libc::ECONNRESET];
        let (verd, legacy) = (cx.choose("verdict", 2), cx.flag("legacy"));
        let len = *cx.pick("length", &[5usize, 1500, 70_000, 140_000]);
        let k = case13(verd, legacy, false, shape(len, cx.choose("shape", 2)))?;
        let steady = *cx.devpick("every write at most", &[usize::MAX, 1000, 4096]);
        let hard = Rc::new(std::cell::Cell::new(false));
        let (h, cx2, mut calls) = (hard.clone(), cx.clone(), 0);
        let cap = Capture::new(OutTo::Memory);
        let g = sys(move |w, fd, n| {
            if !w || fd != 1 { return Sys::Upto(n); }
            calls += 1;
            if calls > 10_000 { panic!("writing without end"); }
            match cx2.dev("write", 5 + ERRNO.len()) {
                0 => Sys::Upto(steady),
                1 => Sys::Upto(1),
                2 => Sys::Upto(n.div_ceil(2)),
                3 => Sys::Errno(libc::EINTR),
                4 => { if n > 0 { h.set(true); } Sys::Upto(0) }
                i => { h.set(true); Sys::Errno(ERRNO[i - 5]) }
            }
        });
        let r = verify(&k.pk, &k.b, io::Cursor::new(&k.d[..]), true, true, true);
        drop(g);
        let (out, err) = cap.end();
        cx.saw((verd, legacy, len, hard.get(), r.is_ok(), out.len(), cx.trace().iter().map(|t| t.c).collect::<Vec<_>>()));
        judge13(&k, 0, true, true, true, &r, &out, &err, hard.get(), "scripted standard output")
    }).serial();
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9]
}

// ---------------------------------------------------------------------- C14
const WERR: [ErrorKind; 5] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied];
#[derive(Default)]
struct WState { hard: bool, soft: bool, calls: usize }
fn writer(cx: &Cx, st: Rc<RefCell<WState>>) -> (Dst, Rc<RefCell<Vec<u8>>>, Rc<RefCell<usize>>) {
    let (acc, fl) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(usize::MAX)));
    let cx = cx.clone();
    let script = move |flush: bool, n: usize| {
        let mut s = st.borrow_mut();
        s.calls += 1;
        if s.calls > 10_000 { panic!("writing without end"); }
        if flush {
            match cx.dev("flush", 2 + WERR.len()) {
                0 => W::Full,
                1 => { s.soft = true; W::Err(ErrorKind::Interrupted) }
                i => { s.hard = true; W::Err(WERR[i - 2]) }
            }
        } else {
            match cx.dev("write", 6 + WERR.len()) {
                0 => W::Full,
                1 => W::Short(1),
                2 => W::Short(n.div_ceil(2)),
                3 => W::Short(n.saturating_sub(1).max(1)),
                4 => W::Err(ErrorKind::Interrupted),
                5 => { if n > 0 { s.soft = true; } W::Zero }
                i => { s.hard = true; W::Err(WERR[i - 6]) }
            }
        }
    };
    (Dst { accepted: acc.clone(), flushed: fl.clone(), script: Box::new(script) }, acc, fl)
}
/// What was written is the returned pair.
fn read_back(kp: &KeyPair, protected: bool, pk: &[u8], sk: &[u8], pw: &str, comment: Option<&str>) -> Res {
    let t = |b: &[u8]| String::from_utf8(b.to_vec()).must("written key as text");
    let (rpk, rsk) = if protected {
        let p = PublicKeyBox::from_string(&t(pk)?).and_then(|b| b.into_public_key());
        let s = SecretKeyBox::from(t(sk)?).into_secret_key(Some(pw.into()));
        let c = t(sk)?;
        let line = split_lines(&c).first().map(|s| s.to_string()).unwrap_or_default();
        if let Some(cm) = comment { if line != format!("untrusted comment: {cm}") { return fail("written-keys-differ", format!("first line {line:?}")); } }
        if box_bytes(&c)? != kp.sk.to_bytes() { return fail("written-keys-differ", "the stored secret key is not the returned one".to_string()); }
        if box_bytes(&t(pk)?)? != kp.pk.to_bytes() { return fail("written-keys-differ", "the stored public key is not the returned one".to_string()); }
        (p, s)
    } else {
        (PublicKey::from_bytes(pk), SecretKey::from_bytes(sk))
    };
    let (Ok(rpk), Ok(rsk)) = (rpk, rsk) else { return fail("written-keys-unreadable", format!("{} + {} bytes written", pk.len(), sk.len())) };
    if rpk.to_bytes() != kp.pk.to_bytes() || PublicKey::from_secret_key(&rsk).must("public key")?.to_bytes() != kp.pk.to_bytes() { return fail("written-keys-differ", "the written keys are not the returned pair".to_string()); }
    let (_g, _) = rng_seed(1);
    let b = sign(None, &rsk, &b"x"[..], None, None).must("signing with the written key")?;
    vbox(&rpk, &b, b"x", false).must("verifying with the written key")?;
    Ok(())
}
fn c14(cfg: &Cfg) -> Vec<Part> {
    let p1 = part("write and flush schedules", cfg.t(3, 4), move |cx| {
        let protected = cx.flag("protected");
        let comment = if protected { *cx.devpick("comment", &[None, Some("a comment"), Some("")]) } else { None };
        let st = Rc::new(RefCell::new(WState::default()));
        let (pw, pacc, pfl) = writer(cx, st.clone());
        let (sw, sacc, sfl) = writer(cx, st.clone());
        let (_g, _) = rng_seed(14);
        let r = if protected { KeyPair::generate_and_write_encrypted_keypair(pw, sw, comment, Some("pw".into())) } else { KeyPair::generate_and_write_unencrypted_keypair(pw, sw) };
        drop(_g);
        let st = st.borrow();
        let (p, s) = (pacc.borrow().clone(), sacc.borrow().clone());
        cx.saw((protected, comment, st.hard, st.soft, r.is_ok(), p.len(), s.len(), st.calls, cx.trace().iter().map(|t| (t.label, t.c)).collect::<Vec<_>>()));
        match r {
            Err(e) => {
                if !st.hard && !st.soft { return fail("spurious-failure", format!("only short or interrupted writes, yet: {e}")); }
                Ok(())
            }
            Ok(kp) => {
                if st.hard { return fail("failure-ignored", format!("a write or flush failed, yet success was reported ({} + {} bytes arrived)", p.len(), s.len())); }
                if *pfl.borrow() != p.len() { return fail("not-flushed", "the public key was not flushed after it was written".to_string()); }
                if *sfl.borrow() != s.len() { return fail("not-flushed", "the secret key was not flushed after it was written".to_string()); }
                read_back(&kp, protected, &p, &s, "pw", comment)
            }
        }
    });
    // real destinations
    let p2 = part("real destinations", 0, move |cx| {
        let protected = cx.flag("protected");
        let (wp, ws) = (cx.choose("public to", 5), cx.choose("secret to", 5));
        let _tp = TempFile::new(b"");
        let _ts = TempFile::new(b"");
        let open = |w: usize, t: &TempFile| -> Box<dyn Write> {
            match w {
                0 => Box::new(std::fs::File::create(&t.0).expect("scratch")),
                1 => Box::new(io::BufWriter::new(std::fs::File::create(&t.0).expect("scratch"))),
                2 => Box::new(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
                3 => Box::new(io::BufWriter::new(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"))),
                _ => Box::new(io::LineWriter::new(std::fs::File::create(&t.0).expect("scratch"))),
            }
        };
        let (_g, _) = rng_seed(14);
        let (pw, sw) = (open(wp, &_tp), open(ws, &_ts));
        // destinations are leaked, so that nothing but the library's own flush delivers the data
        let (pw, sw) = (Box::leak(Box::new(pw)), Box::leak(Box::new(sw)));
        let r = if protected { KeyPair::generate_and_write_encrypted_keypair(pw, sw, Some("c"), Some("pw".into())) } else { KeyPair::generate_and_write_unencrypted_keypair(pw, sw) };
        drop(_g);
        let bad = [2, 3].contains(&wp) || [2, 3].contains(&ws);
        cx.saw((protected, wp, ws, r.is_ok()));
        match r {
            Ok(_) if bad => fail("failure-ignored", "keys written to a full device".to_string()),
            Err(e) if !bad => fail("spurious-failure", format!("{e}")),
            Err(_) => Ok(()),
            Ok(kp) => read_back(&kp, protected, &std::fs::read(&_tp.0).expect("scratch"), &std::fs::read(&_ts.0).expect("scratch"), "pw", Some("c")),
        }
    });
    // byte-limited destinations: full after every number of bytes
    let p3 = part("full after every byte count", 0, move |cx| {
        let protected = cx.flag("protected");
        let secret = cx.flag("secret writer");
        let cap = cx.choose("capacity", 400);
        let step = *cx.pick("step", &[usize::MAX, 1, 50]);
        let mk = |limit: Option<usize>| {
            let (acc, fl) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(usize::MAX)));
            let a2 = acc.clone();
            let d = Dst { accepted: acc.clone(), flushed: fl.clone(), script: Box::new(move |flush, _| {
                if flush { return W::Full; }
                match limit { Some(l) => { let have = a2.borrow().len(); if have >= l { W::Err(ErrorKind::Other) } else { W::Short((l - have).min(step)) } } None => W::Full }
            }) };
            (d, acc, fl)
        };
        let (pw, pacc, _) = mk((!secret).then_some(cap));
        let (sw, sacc, _) = mk(secret.then_some(cap));
        let (_g, _) = rng_seed(14);
        let r = if protected { KeyPair::generate_and_write_encrypted_keypair(pw, sw, None, Some("pw".into())) } else { KeyPair::generate_and_write_unencrypted_keypair(pw, sw) };
        drop(_g);
        cx.saw((protected, secret, cap, step, r.is_ok()));
        match r { Ok(kp) => read_back(&kp, protected, &pacc.borrow(), &sacc.borrow(), "pw", None), Err(_) => {
            let size = match (protected, secret) { (false, false) => 42, (false, true) => 158, (true, false) => 113, _ => 260 };
            if cap > size + 8 { return fail("spurious-failure", format!("failed with room for {cap} bytes")); }
            Ok(())
        } }
    });
    // any number of interruptions; a failure after them still counts
    let top = cfg.t(14, 18);
    let p4 = part("long runs of interruptions", 0, move |cx| {
        let (protected, secret) = (cx.flag("protected"), cx.flag("secret writer"));
        let run = *cx.pick("run", &doublings(1, top));
        let then = cx.choose("then", 4); // goes on, fails, writes byte by byte, interrupted before each byte
        let at = cx.choose("before call", 3);
        let hard = Rc::new(std::cell::Cell::new(false));
        let mk = |on: bool| {
            let (acc, fl) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(usize::MAX)));
            let (mut calls, mut left, mut flip) = (0usize, run, false);
            let h = hard.clone();
            let d = Dst { accepted: acc.clone(), flushed: fl.clone(), script: Box::new(move |flush, _| {
                if !on || flush { return W::Full; }
                if calls == at && left > 0 { left -= 1; return W::Err(ErrorKind::Interrupted); }
                calls += 1;
                match then {
                    1 if calls > at => { h.set(true); W::Err(ErrorKind::Other) }
                    2 => W::Short(1),
                    3 => { flip = !flip; if flip { W::Err(ErrorKind::Interrupted) } else { W::Short(1) } }
                    _ => W::Short(20),
                }
            }) };
            (d, acc, fl)
        };
        let (pw, pacc, pfl) = mk(!secret);
        let (sw, sacc, sfl) = mk(secret);
        let (_g, _) = rng_seed(14);
        let r = if protected { KeyPair::generate_and_write_encrypted_keypair(pw, sw, None, Some("pw".into())) } else { KeyPair::generate_and_write_unencrypted_keypair(pw, sw) };
        drop(_g);
        cx.saw((protected, secret, run, then, at, r.is_ok()));
        match r {
            Err(e) => if hard.get() { Ok(()) } else { fail("spurious-failure", format!("only {run} interrupted and some short writes, yet: {e}")) },
            Ok(kp) => {
                if hard.get() { return fail("failure-ignored", format!("a write failed after {run} interruptions, yet success was reported")); }
                if *pfl.borrow() != pacc.borrow().len() || *sfl.borrow() != sacc.borrow().len() { return fail("not-flushed", "success without a final flush"); }
                read_back(&kp, protected, &pacc.borrow(), &sacc.borrow(), "pw", None)
            }
        }
    });
    // every error there is, at every call
    let p5 = part("every error", 0, move |cx| {
        let (protected, secret) = (cx.flag("protected"), cx.flag("secret writer"));
        let (e, at, flush) = (cx.choose("error", ERRORS), cx.choose("call", 4), cx.flag("flushing"));
        let again = cx.flag("goes on afterwards");
        let hit = Rc::new(std::cell::Cell::new(false));
        let mk = |on: bool| {
            let (acc, fl) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(usize::MAX)));
            let (mut calls, h, mut all) = (0usize, hit.clone(), 0);
            let d = Dst { accepted: acc.clone(), flushed: fl.clone(), script: Box::new(move |f, _| {
                all += 1;
                if all > 10_000 { panic!("writing without end"); }
                if !on || f != flush { return if f { W::Full } else { W::Short(20) }; }
                calls += 1;
                if calls == at + 1 || (calls > at + 1 && !again && !soft(e)) { h.set(true); return W::Nth(e); }
                if f { W::Full } else { W::Short(20) }
            }) };
            (d, acc, fl)
        };
        let (pw, pacc, pfl) = mk(!secret);
        let (sw, sacc, sfl) = mk(secret);
        let (_g, _) = rng_seed(14);
        let r = if protected { KeyPair::generate_and_write_encrypted_keypair(pw, sw, None, Some("pw".into())) } else { KeyPair::generate_and_write_unencrypted_keypair(pw, sw) };
        drop(_g);
        cx.saw((protected, secret, e, at, flush, again, r.is_ok()));
        let what = || format!("{:?} at {} {at} of the {} key", nth_error(e), if flush { "flush" } else { "write" }, if secret { "secret" } else { "public" });
        match r {
            Err(x) => if hit.get() && (!soft(e) || flush) { Ok(()) } else { fail("spurious-failure", format!("{}: {x}", what())) },
            Ok(kp) => {
                if hit.get() && !soft(e) { return fail("failure-ignored", format!("{}: success reported", what())); }
                if *pfl.borrow() != pacc.borrow().len() || *sfl.borrow() != sacc.borrow().len() { return fail("not-flushed", format!("{}: success without a final flush", what())); }
                read_back(&kp, protected, &pacc.borrow(), &sacc.borrow(), "pw", None)
            }
        }
    });
    vec![p1, p2, p3, p4, p5]
}

//! C29: operations have no hidden inputs or effects.  Every operation runs in a
//! process whose system calls are recorded (strace), between marks.
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use minisign::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::ffi::CStr;
use std::io::{self, Cursor};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

pub fn checks() -> Vec<CheckDef> {
    vec![CheckDef { id: "C29", level: "model_checking", rule: "every operation with every kind of outcome, in every environment, first, repeatedly and after every other operation, and over sizes (doubling); all its system calls are recorded and compared with what the operation may do; outcomes are compared between environments; all texts are searched for secrets", assumptions: &["calls that only manage memory, locks, time or identity are no effects", "the stand-ins for the random source, prompt and derivation make no system calls"], parts: c29 }]
}

const PW: &str = "C29-a secret password";
const VARS: [&str; 26] = ["MINISIGN_PASSWORD", "MINISIGN_CONFIG_DIR", "MINISIGN_DEBUG", "MINISIGN_KEY", "MINISIGN_TRUSTED", "MINISIGN_LEGACY", "MINISIGN_SKIP_VERIFY", "RSIGN_PASSWORD", "PASSWORD", "SOURCE_DATE_EPOCH", "RUST_LOG", "DEBUG", "VERBOSE", "CI", "TEST", "HOME", "USER", "LANG", "LC_ALL", "TZ", "TMPDIR", "XDG_CONFIG_HOME", "NO_COLOR", "PATH", "PAGER", "LD_DEBUG_X"];

// ------------------------------------------------------------- observed side
static ASKED: AtomicBool = AtomicBool::new(false);
extern "C" { static environ: *const *const libc::c_char; }
/// Questions about environment variables show up between the marks.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = CStr::from_ptr(name).to_bytes();
    if ASKED.load(SeqCst) { mark(&[b"getenv ", n].concat()); }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > n.len() && e[n.len()] == b'=' && e.starts_with(n) { return (*p).add(n.len() + 1) as *mut libc::c_char; }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
fn mark(b: &[u8]) { unsafe { libc::syscall(libc::SYS_write, -1, b.as_ptr(), b.len()); } }

/// What an operation may do beyond computing.
#[derive(Clone, Copy, PartialEq)]
enum May { Nothing, ShowVerified, Output, Converse, Open(&'static str) }
struct Op { name: &'static str, may: May }
const OPS: [Op; 58] = {
    const fn o(name: &'static str, may: May) -> Op { Op { name, may } }
    use May::*;
    [o("sign", Nothing), o("sign, public key given", Nothing), o("sign, wrong public key", Nothing), o("sign, default comments", Nothing), o("sign, bad comment", Nothing), o("sign, no randomness", Nothing), o("sign, unreadable data", Nothing),
     o("verify", Nothing), o("verify aloud", ShowVerified), o("verify and output", Output), o("verify aloud and output", Output), o("verify altered data", Nothing), o("verify altered data aloud with output", Nothing), o("verify altered comment aloud with output", Nothing), o("verify with another key", Nothing), o("verify another identifier", Nothing),
     o("verify legacy", Nothing), o("verify legacy aloud with output", Output), o("verify legacy unrequested aloud with output", Nothing), o("verify bare signature", Nothing), o("verify unreadable data", Nothing), o("verify altered signature", Nothing),
     o("generate", Nothing), o("generate protected", Nothing), o("generate interactively", Converse), o("generate interactively, mismatch", Converse), o("generate interactively, empty", Converse), o("generate, no randomness", Nothing), o("generate protected, no randomness", Nothing), o("generate and write", Nothing), o("generate and write protected", Nothing), o("generate and write, failing", Nothing),
     o("open unprotected", Nothing), o("open protected", Nothing), o("open protected, wrong password", Nothing), o("open interactively", Converse), o("open interactively, wrong password", Converse), o("open damaged", Nothing), o("open, absurd settings", Nothing),
     o("signature file", Open("sig")), o("signature file missing", Open("missing")), o("signature file damaged", Open("damaged")), o("public key file", Open("pub")), o("public key file missing", Open("missing")), o("public key file damaged", Open("damaged")), o("secret key file", Open("key")), o("secret key file, wrong password", Open("key")), o("secret key file missing", Open("missing")), o("secret key file damaged", Open("damaged")),
     o("parse signature", Nothing), o("parse damaged signature", Nothing), o("parse public key", Nothing), o("parse damaged public key", Nothing), o("convert public key", Nothing), o("store secret key", Nothing), o("copy and compare", Nothing), o("bare signature", Nothing), o("small order key", Nothing)]
};
fn passwords() -> Vec<String> {
    let b = "correct horse";
    let mut v: Vec<String> = ["", " ", "x", b, "correct horse ", " correct horse", "\tcorrect horse\t", "correct horse\n", "correct horse\r\n", "correct horse\0", "\0correct horse", "correct\0horse", "\"correct horse\"", "correct'horse", "correct{}horse", "correct%shorse", "correct\\horse", "12345678", "letmein", "caf\u{e9}-correct", "cafe\u{301}-correct", "\u{1f511}\u{1f511}\u{1f511}", "\u{feff}correct horse", "correct\u{a0}horse", "1234567890", "correct horse battery staple", "-correct horse", "$HOME correct", "~/correct", "@correct", "file:correct", "env:CORRECT", "pass:correct"].iter().map(|s| s.to_string()).collect();
    for n in [15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 1023, 1024] { v.push(long_line(n)); }
    v
}
struct Broken;
impl io::Read for Broken { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Err(io::ErrorKind::Other.into()) } }
impl io::Seek for Broken { fn seek(&mut self, _: io::SeekFrom) -> io::Result<u64> { Ok(0) } }
struct Full;
impl io::Write for Full { fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::ErrorKind::StorageFull.into()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }

struct Fix { k: Key, sk: SecretKey, pk: PublicKey, other: PublicKey, otherid: PublicKey, d: Vec<u8>, wrong: Vec<u8>, sig: SignatureBox, sig_text: String, bad_comment: SignatureBox, bad_sig: SignatureBox, legacy: SignatureBox, enc: String, plain: String, comment: String, pw: String, wrong_pw: String, dir: PathBuf }
fn damaged(s: &str) -> String { s.replace("RW", "R-").replace("RU", "R-") }
fn fixture(v: &Value) -> Fix {
    let k = Key::nth(29);
    let d = match &v["data"] { Value::String(h) => unhex(h), n => data(29, n.as_u64().expect("data") as usize) };
    let c = v["comment"].as_u64().unwrap_or(0) as usize;
    let mut wrong = d.clone();
    if let Some(x) = wrong.last_mut() { *x ^= 1 } else { wrong.push(1) }
    let comment = match &v["comment"] { Value::String(t) => t.clone(), _ if c == 0 => "a trusted comment".to_string(), _ => long_line(c) };
    let f = SigFile::make(&k, ALG_PREHASHED, &d, "u", &comment, b"29");
    let sb = |f: &SigFile| SignatureBox::from_string(&f.text()).expect("fixture");
    let (mut g, mut h) = (f.clone(), f.clone());
    g.trusted.push('!');
    h.sig[2] ^= 4;
    let pw = match &v["pw"] { Value::String(t) => t.clone(), _ if c == 0 => PW.to_string(), _ => long_line(c) };
    let wrong_pw = match &v["wrong"] { Value::String(t) => t.clone(), _ => format!("{pw}x") };
    Fix {
        sk: sk_of(&k).ok().expect("sk"), pk: pk_of(&k).ok().expect("pk"), other: pk_of(&Key::nth(30).with_keynum(k.keynum)).ok().expect("pk"), otherid: pk_of(&k.with_keynum([3; 8])).ok().expect("pk"),
        sig: sb(&f), sig_text: f.text(), bad_comment: sb(&g), bad_sig: sb(&h), legacy: sb(&SigFile::make(&k, ALG_LEGACY, &d, "u", &comment, b"29")),
        enc: k.sk_enc_box(KdfKind::Ideal, &pw, &[7; 32], 1 << 20, 1 << 25).unwrap(), plain: k.sk_plain_box(), k, d, wrong, comment, pw, wrong_pw, dir: std::env::current_dir().expect("directory"),
    }
}
/// The outcome as text (never with key material the caller did not ask for), and an error's texts.
fn run(f: &Fix, op: &str) -> (String, Option<PError>) {
    let mut t = match op { "generate interactively" => vec![&f.pw, &f.pw], "generate interactively, mismatch" => vec![&f.pw, &f.wrong_pw], "open interactively" => vec![&f.pw], "open interactively, wrong password" => vec![&f.wrong_pw], _ => vec![] }.into_iter().cloned().collect::<Vec<String>>().into_iter();
    if op == "generate interactively, empty" { t = vec![String::new(); 2].into_iter(); }
    rpassword::mc_set_typist(Some(Box::new(move |_| t.next().ok_or_else(|| io::ErrorKind::Other.into()))));
    let no_rng = op.ends_with("no randomness");
    let (_g, _l) = rng(if no_rng { Box::new(|_: &mut [u8]| Err(5)) as Box<dyn FnMut(&mut [u8]) -> Result2> } else { Box::new(stream(29)) });
    let cur = |d: &Vec<u8>| Cursor::new(d.clone());
    let unit = |r: Result<()>| r.map(|_| "verified".to_string());
    let sg = |r: Result<SignatureBox>| r.map(|b| b.to_string());
    let keys = |r: Result<KeyPair>| r.map(|k| hex(&k.pk.to_bytes()));
    let skr = |r: Result<SecretKey>| r.map(|k| PublicKey::from_secret_key(&k).map(|p| p.to_base64()).unwrap_or_default());
    let (tc, uc) = (Some(&f.comment[..]), Some("u"));
    let file = |n: &str| f.dir.join(n);
    let r = match op {
        "sign" | "sign, no randomness" => sg(sign(None, &f.sk, cur(&f.d), tc, uc)),
        "sign, public key given" => sg(sign(Some(&f.pk), &f.sk, cur(&f.d), tc, uc)),
        "sign, wrong public key" => sg(sign(Some(&f.other), &f.sk, cur(&f.d), tc, uc)),
        "sign, default comments" => sign(None, &f.sk, cur(&f.d), None, None).map(|b| format!("{:?} {:?}", b.trusted_comment().map(|c| c.trim_end_matches(|x: char| x.is_ascii_digit()).to_string()).map_err(|e| e.to_string()), b.untrusted_comment().map_err(|e| e.to_string()))),
        "sign, bad comment" => sg(sign(None, &f.sk, cur(&f.d), Some("a\nb"), uc)),
        "sign, unreadable data" => sg(sign(None, &f.sk, Broken, tc, uc)),
        "verify" => unit(verify(&f.pk, &f.sig, cur(&f.d), true, false, false)),
        "verify aloud" => unit(verify(&f.pk, &f.sig, cur(&f.d), false, false, false)),
        "verify and output" => unit(verify(&f.pk, &f.sig, cur(&f.d), true, true, false)),
        "verify aloud and output" => unit(verify(&f.pk, &f.sig, cur(&f.d), false, true, false)),
        "verify altered data" => unit(verify(&f.pk, &f.sig, cur(&f.wrong), true, false, false)),
        "verify altered data aloud with output" => unit(verify(&f.pk, &f.sig, cur(&f.wrong), false, true, false)),
        "verify altered comment aloud with output" => unit(verify(&f.pk, &f.bad_comment, cur(&f.d), false, true, false)),
        "verify altered signature" => unit(verify(&f.pk, &f.bad_sig, cur(&f.d), false, true, false)),
        "verify with another key" => unit(verify(&f.other, &f.sig, cur(&f.d), false, true, false)),
        "verify another identifier" => unit(verify(&f.otherid, &f.sig, cur(&f.d), false, true, false)),
        "verify legacy" => unit(verify(&f.pk, &f.legacy, cur(&f.d), true, false, true)),
        "verify legacy aloud with output" => unit(verify(&f.pk, &f.legacy, cur(&f.d), false, true, true)),
        "verify legacy unrequested aloud with output" => unit(verify(&f.pk, &f.legacy, cur(&f.d), false, true, false)),
        "verify bare signature" => unit(verify(&f.pk, &SignatureBones::from(f.sig.clone()).into(), cur(&f.d), true, false, false)),
        "verify unreadable data" => unit(verify(&f.pk, &f.sig, Broken, false, true, false)),
        "generate" | "generate, no randomness" => keys(KeyPair::generate_unencrypted_keypair()),
        "generate protected" | "generate protected, no randomness" => keys(KeyPair::generate_encrypted_keypair(Some(f.pw.clone()))),
        "generate interactively" | "generate interactively, mismatch" | "generate interactively, empty" => keys(KeyPair::generate_encrypted_keypair(None)),
        "generate and write" => keys(KeyPair::generate_and_write_unencrypted_keypair(io::sink(), io::sink())),
        "generate and write protected" => keys(KeyPair::generate_and_write_encrypted_keypair(io::sink(), io::sink(), Some("c"), Some(f.pw.clone()))),
        "generate and write, failing" => keys(KeyPair::generate_and_write_encrypted_keypair(io::sink(), Full, None, Some(f.pw.clone()))),
        "open unprotected" => skr(SecretKeyBox::from(f.plain.clone()).into_unencrypted_secret_key()),
        "open protected" => skr(SecretKeyBox::from(f.enc.clone()).into_secret_key(Some(f.pw.clone()))),
        "open protected, wrong password" => skr(SecretKeyBox::from(f.enc.clone()).into_secret_key(Some(f.wrong_pw.clone()))),
        "open interactively" | "open interactively, wrong password" => skr(SecretKeyBox::from(f.enc.clone()).into_secret_key(None)),
        "open damaged" => skr(SecretKeyBox::from(damaged(&f.enc)).into_secret_key(Some(f.pw.clone()))),
        "open, absurd settings" => { let mut b = unb64(f.enc.lines().nth(1).unwrap()).unwrap(); b[38 + 6] = 0xff; skr(SecretKeyBox::from(format!("untrusted comment: c\n{}\n", b64(&b))).into_secret_key(Some(f.pw.clone()))) }
        "signature file" => sg(SignatureBox::from_file(file("sig"))),
        "signature file missing" => sg(SignatureBox::from_file(file("missing"))),
        "signature file damaged" => sg(SignatureBox::from_file(file("damaged"))),
        "public key file" => PublicKey::from_file(file("pub")).map(|p| p.to_base64()),
        "public key file missing" => PublicKey::from_file(file("missing")).map(|p| p.to_base64()),
        "public key file damaged" => PublicKey::from_file(file("damaged")).map(|p| p.to_base64()),
        "secret key file" => skr(SecretKey::from_file(file("key"), Some(PW.into()))),
        "secret key file, wrong password" => skr(SecretKey::from_file(file("key"), Some(f.wrong_pw.clone()))),
        "secret key file missing" => skr(SecretKey::from_file(file("missing"), Some(PW.into()))),
        "secret key file damaged" => skr(SecretKey::from_file(file("damaged"), Some(PW.into()))),
        "parse signature" => SignatureBox::from_string(&f.sig_text).and_then(|b| Ok(format!("{} {} {} {}", b.to_string(), b.trusted_comment()?, b.untrusted_comment()?, hex(b.keynum())))),
        "parse damaged signature" => sg(SignatureBox::from_string(&damaged(&f.sig_text))),
        "parse public key" => PublicKeyBox::from_string(&f.k.pk_box()).and_then(|b| b.into_public_key()).map(|p| p.to_base64()),
        "parse damaged public key" => PublicKey::from_base64(&damaged(&f.k.pk_b64())).map(|p| p.to_base64()),
        "convert public key" => f.pk.to_box().map(|b| format!("{} {} {} {:?}", b.into_string(), f.pk.to_base64(), hex(&f.pk.to_bytes()), f.pk.keynum())),
        "store secret key" => f.sk.to_box(Some("c")).map(|b| (b.into_string() == f.plain).to_string() + &(f.sk.to_bytes() == f.k.sk_plain_bytes()).to_string()),
        "copy and compare" => Ok(format!("{} {} {}", f.sk.clone() == f.sk, f.pk.clone() == f.other, PublicKey::from_secret_key(&f.sk).is_ok_and(|p| p == f.pk))),
        "bare signature" => SignatureBones::from_bytes(&SignatureBones::from(f.sig.clone()).to_bytes()).map(|b| hex(&b.to_bytes())),
        "small order key" => PublicKey::from_bytes(&[&b"Ed"[..], &[1; 8], &[0; 32]].concat()).map(|p| p.to_base64()).or_else(|_| Ok("refused".into())),
        _ => unreachable!("{op}"),
    };
    match r { Ok(s) => (s, None), Err(e) => (String::new(), Some(e)) }
}
type Result2 = std::result::Result<(), i32>;
/// The observed process.
pub fn child(spec: &str) {
    let v: Value = serde_json::from_str(spec).expect("spec");
    if let Some(n) = v["cpus"].as_u64() {
        let mut set: libc::cpu_set_t = unsafe { std::mem::zeroed() };
        for i in 0..n as usize { unsafe { libc::CPU_SET(i, &mut set) } }
        unsafe { libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set) };
    }
    for (what, res) in [("memory", libc::RLIMIT_AS), ("files", libc::RLIMIT_NOFILE)] {
        if let Some(n) = v[what].as_u64() { unsafe { libc::setrlimit(res, &libc::rlimit { rlim_cur: n, rlim_max: n }) }; }
    }
    match &v["thread"] {
        Value::Null => inner(v),
        t => {
            let mut b = std::thread::Builder::new().stack_size(8 << 20);
            if let Some(n) = t.as_str() { b = b.name(n.into()); }
            b.spawn(move || inner(v)).expect("thread").join().ok();
            unsafe { libc::_exit(101) }
        }
    }
}
fn inner(v: Value) {
    if let Some(s) = v["clock"].as_i64() { set_clock(Some((s, 5))); }
    let f = fixture(&v);
    if let Some(i) = v["exit"].as_u64() {
        let (_, e) = run(&f, OPS[i as usize].name);
        let e = e.expect("an error");
        std::fs::write(v["out"].as_str().unwrap(), e.to_string()).expect("out");
        mark(b"begin 0");
        e.exit();
    }
    let ops: Vec<usize> = v["ops"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    // everything the harness itself does lazily
    fixture(&json!({"data": 10}));
    io::Write::flush(&mut io::stdout()).ok();
    let mut outcomes = vec![];
    for (i, o) in ops.iter().enumerate() {
        let name = OPS[*o].name;
        mark(format!("begin {i}").as_bytes());
        ASKED.store(true, SeqCst);
        let (s, e) = run(&f, name);
        let e = e.map(|e| (format!("{e}"), format!("{e:?}")));
        ASKED.store(false, SeqCst);
        mark(format!("end {i}").as_bytes());
        outcomes.push(json!([s, e.as_ref().map(|e| &e.0), e.as_ref().map(|e| &e.1)]));
    }
    std::fs::write(v["out"].as_str().unwrap(), Value::Array(outcomes).to_string()).expect("out");
    unsafe { libc::_exit(0) }
}

// ------------------------------------------------------------- observing side
struct Seen { calls: Vec<Vec<String>>, outcomes: Vec<Value>, stdout: Vec<u8>, stderr: Vec<u8>, code: Option<i32>, dir_after: Vec<String> }
struct Rm(PathBuf);
impl Drop for Rm { fn drop(&mut self) { if self.0.starts_with("/tmp") || self.0.to_string_lossy().contains("mc-scratch") { std::fs::remove_dir_all(&self.0).ok(); } } }
fn listing(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).expect("scratch").map(|e| { let e = e.unwrap(); format!("{} {}", e.file_name().to_string_lossy(), e.metadata().map(|m| m.len()).unwrap_or(0)) }).collect();
    v.sort();
    v
}
/// A terminal whose output is collected.
struct Terminal { slave: std::os::fd::OwnedFd, reader: std::thread::JoinHandle<Vec<u8>> }
impl Terminal {
    fn new() -> std::result::Result<Terminal, String> {
        use std::os::fd::FromRawFd;
        let (mut m, mut s) = (0, 0);
        let mut t: libc::termios = unsafe { std::mem::zeroed() };
        unsafe { libc::cfmakeraw(&mut t) };
        t.c_cflag |= libc::CS8 | libc::CREAD;
        if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), &t, std::ptr::null()) } != 0 { return Err(format!("openpty: {}", io::Error::last_os_error())); }
        for fd in [m, s] { unsafe { libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC) }; }
        let (slave, mut m) = unsafe { (std::os::fd::OwnedFd::from_raw_fd(s), std::fs::File::from_raw_fd(m)) };
        let reader = std::thread::spawn(move || { let mut v = vec![]; let mut b = [0; 4096]; while let Ok(n) = io::Read::read(&mut m, &mut b) { if n == 0 { break; } v.extend(&b[..n]); } v });
        Ok(Terminal { slave, reader })
    }
    fn slave(&self) -> std::result::Result<std::os::fd::OwnedFd, String> { self.slave.try_clone().map_err(|e| e.to_string()) }
    fn end(self) -> Vec<u8> { drop(self.slave); self.reader.join().unwrap_or_default() }
}
/// Settings of the process that operations have no business with.
fn surroundings() -> Vec<Value> {
    let mut v = vec![];
    for a in ["--allow-legacy", "--legacy", "-l", "-H", "--quiet", "-q", "-Q", "--output", "-o", "--force", "-f", "--insecure", "--no-verify", "--skip-verify", "--verbose", "-v", "--debug", "--test", "-W", "-V", "-S", "-G", "-R", "-x", "-m", "-P", "-c", "-t", "--trusted", "--untrusted", "--password", "password", "secret", "--help", "-h", "--version", "--", "", "verify", "sign", "generate", "1", "y", "yes"] { v.push(json!({"args": [a]})); }
    v.push(json!({"args": ["-V", "-q", "-o", "-H", "--allow-legacy", "--force", "--password", PW]}));
    for n in ["rsign", "minisign", "minisign-legacy", "signify", "test", "cargo", "mc-test", "main", "fips", "sudo"] { v.push(json!({"called": n})); }
    v.push(json!({"thread": 0}));
    for n in ["main", "worker", "tokio-runtime-worker", "rayon", "test", "tests::verify", "fips", "legacy", "", "a name of more than fifteen bytes"] { v.push(json!({"thread": n})); }
    for k in 0..48 { v.push(json!({"clock": (1i64 << k) - 1})); v.push(json!({"clock": 1i64 << k})); }
    for s in [0i64, 1_556_193_335, 1_600_000_000, 1_700_000_000, 1_735_689_600, 1_767_225_600, 1_800_000_000, 1_893_456_000, 2_000_000_000, 2_147_483_646, 2_147_483_648, 2_524_608_000, 4_102_444_800, 253_402_300_800] { v.push(json!({"clock": s})); }
    for m in 1..=60 { v.push(json!({"clock": 1_763_596_800i64 + m * 30 * 86_400})); }
    if Terminal::new().map(|t| t.end()).is_ok() { v.push(json!({"terminal": true})); } else { extra_add("no terminals to be had", 1); }
    for n in [1, 2, 3] { v.push(json!({"cpus": n})); }
    for n in [1u64 << 30, 4 << 30] { v.push(json!({"memory": n})); }
    for n in [8, 16, 64] { v.push(json!({"files": n})); }
    v
}
/// Whether system calls can be recorded here; without, only outcomes, streams and files are judged.
static RECORDED: AtomicBool = AtomicBool::new(true);
fn observe(env: usize, mut spec: Value) -> std::result::Result<Seen, String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let base = PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned()));
    let top = Rm(base.join(format!("mc-effects-{}-{}", std::process::id(), N.fetch_add(1, SeqCst))));
    let (home, out, log) = (top.0.join("home"), top.0.join("outcomes"), top.0.join("calls"));
    std::fs::create_dir_all(&home).map_err(|e| e.to_string())?;
    let k = Key::nth(29);
    let f = SigFile::make(&k, ALG_PREHASHED, b"x", "u", "t", b"29").text();
    let w = |n: &str, b: &str| std::fs::write(home.join(n), b).expect("scratch");
    w("sig", &f);
    w("pub", &k.pk_box());
    w("key", &k.sk_enc_box(KdfKind::Ideal, PW, &[7; 32], 1 << 20, 1 << 25).unwrap());
    w("damaged", &damaged(&f)[..40]);
    // what a helpful program might look for
    if env == 3 {
        for n in ["minisign.pub", "minisign.key", ".minisign", "trusted-keys", "known_keys", "minisign.conf", ".minisignrc"] { w(n, &k.pk_box()); }
        std::fs::create_dir_all(home.join(".config/minisign")).ok();
    }
    let before = listing(&home);
    spec["out"] = json!(out.to_str().unwrap());
    let (so, se) = (top.0.join("stdout"), top.0.join("stderr"));
    let rec = RECORDED.load(SeqCst);
    let mut exe = std::env::current_exe().map_err(|e| e.to_string())?;
    if let Some(n) = spec["called"].as_str() {
        std::fs::create_dir_all(top.0.join("bin")).map_err(|e| e.to_string())?;
        std::os::unix::fs::symlink(&exe, top.0.join("bin").join(n)).map_err(|e| e.to_string())?;
        exe = top.0.join("bin").join(n);
    }
    let mut c = Command::new(if rec { "strace".into() } else { exe.clone() });
    if rec { c.args(["-f", "-y", "-s", "80", "-o"]).arg(&log).arg(&exe); }
    c.args(["effects", &spec.to_string()]);
    for a in spec["args"].as_array().into_iter().flatten() { c.arg(a.as_str().unwrap()); }
    let terminals = if spec["terminal"].as_bool() == Some(true) { Some((Terminal::new()?, Terminal::new()?)) } else { None };
    c.current_dir(&home);
    match &terminals {
        None => { c.stdin(Stdio::null()).stdout(std::fs::File::create(&so).map_err(|e| e.to_string())?).stderr(std::fs::File::create(&se).map_err(|e| e.to_string())?); }
        Some((o, e)) => { c.stdin(o.slave()?).stdout(o.slave()?).stderr(e.slave()?); }
    }
    if env > 0 { c.env_clear(); }
    match env {
        0 | 1 => {}
        2 => for v in VARS { c.env(v, "1"); },
        _ => for v in VARS { c.env(v, if v == "HOME" || v.contains("DIR") || v.contains("XDG") { home.to_string_lossy().into_owned() } else { "true".into() }); },
    }
    // strace itself must be found
    if env > 0 { c.env("PATH", std::env::var_os("PATH").unwrap_or_else(|| "/usr/bin:/bin".into())); }
    let st = c.status().map_err(|e| format!("strace: {e}"))?;
    drop(c);
    if let Some((o, e)) = terminals { std::fs::write(&so, o.end()).map_err(|e| e.to_string())?; std::fs::write(&se, e.end()).map_err(|e| e.to_string())?; }
    if let Some(s) = st.signal() { return Err(format!("ended by signal {s}")); }
    let text = if rec { std::fs::read(&log).map_err(|e| e.to_string())? } else { (0..spec["ops"].as_array().map_or(1, |v| v.len())).map(|i| format!("0 write(-1, \"begin {i}\"\n0 write(-1, \"end {i}\"\n")).collect::<String>().into_bytes() };
    let text = String::from_utf8_lossy(&text);
    let (mut calls, mut cur): (Vec<Vec<String>>, Option<usize>) = (vec![], None);
    for l in text.lines() {
        let l = l.split_once(' ').map_or(l, |x| x.1.trim_start());
        if let Some(m) = l.strip_prefix("write(-1, \"") {
            let m = m.split('"').next().unwrap_or("");
            if m.starts_with("begin ") { calls.push(vec![]); cur = Some(calls.len() - 1); } else if m.starts_with("end ") { cur = None; } else if let Some(i) = cur { calls[i].push(m.to_string()); }
            continue;
        }
        if let Some(i) = cur { calls[i].push(l.to_string()); }
    }
    let outcomes = std::fs::read_to_string(&out).unwrap_or_default();
    let after = listing(&home);
    let dir_after = after.iter().filter(|x| !before.contains(x)).cloned().chain(before.iter().filter(|x| !after.contains(x)).map(|x| format!("(was) {x}"))).collect();
    Ok(Seen { calls, outcomes: serde_json::from_str::<Value>(&outcomes).ok().and_then(|v| v.as_array().cloned()).unwrap_or_else(|| vec![json!(outcomes)]), stdout: std::fs::read(&so).unwrap_or_default(), stderr: std::fs::read(&se).unwrap_or_default(), code: st.code(), dir_after })
}
/// Calls that manage the process's own memory, locks and time, or ask who it is.
const NEUTRAL: [&str; 42] = ["brk", "mmap", "munmap", "mremap", "madvise", "mprotect", "mincore", "futex", "sched_yield", "rt_sigprocmask", "sigaltstack", "getrandom", "clock_gettime", "clock_getres", "gettimeofday", "time", "getpid", "gettid", "getppid", "getuid", "geteuid", "getgid", "getegid", "uname", "rseq", "set_robust_list", "set_tid_address", "prlimit64", "getrlimit", "sched_getaffinity", "membarrier", "arch_prctl", "restart_syscall", "getcpu", "sysinfo", "getrusage", "times", "rt_sigreturn", "clone3", "clone", "exit", "getcwd"];
fn judge(o: &Op, calls: &[String]) -> Res {
    let mut open: HashSet<String> = HashSet::new();
    let mut shown = 0;
    for l in calls {
        let bad = |what: &str| fail(&format!("{what}:{}", o.name), format!("`{}`: {l}", o.name));
        if let Some(n) = l.strip_prefix("getenv ") { if n.starts_with("RUST_") { continue; } return bad("consults-environment"); }
        if l.starts_with("+++") || l.starts_with("---") || l.starts_with("<...") { continue; }
        let Some((name, args)) = l.split_once('(') else { continue };
        let fd = args.split(['<', ',', ')']).next().unwrap_or("");
        let path = args.split_once('<').and_then(|x| x.1.split_once('>')).map_or("", |x| x.0);
        let ours = |p: &str| if let May::Open(n) = o.may { p.ends_with(&format!("/home/{n}")) || p == n } else { false };
        if matches!(name, "clone" | "clone3") && !l.contains("CLONE_THREAD") { return bad("starts-a-process"); }
        if name == "mmap" && l.contains("MAP_SHARED") || name == "mmap" && !l.contains("MAP_ANONYMOUS") && !calls.iter().any(|c| c.starts_with("open")) { return bad("maps"); }
        if NEUTRAL.contains(&name) { continue; }
        match name {
            "write" | "writev" if fd == "1" && matches!(o.may, May::Output | May::Converse) => {}
            "write" | "writev" if fd == "2" && matches!(o.may, May::ShowVerified | May::Converse) || fd == "2" && o.may == May::Output && o.name.contains("aloud") => shown += 1,
            // asking about the standard streams
            "ioctl" | "fcntl" | "fstat" | "newfstatat" | "statx" | "lseek" | "poll" if matches!(fd, "0" | "1" | "2") && (name != "ioctl" || l.contains("TCGETS") || l.contains("TIOCGWINSZ")) && (name != "fcntl" || l.contains("F_GET")) => {}
            "open" | "openat" => {
                let p = args.split('"').nth(1).unwrap_or("");
                if !ours(p) || !l.contains("O_RDONLY") || l.contains("O_CREAT") || l.contains("O_TRUNC") { return bad("opens"); }
                if !l.contains("= -1") { open.insert(l.rsplit_once("= ").map_or("", |x| x.1).split('<').next().unwrap_or("").trim().to_string()); }
            }
            "stat" | "lstat" | "access" | "faccessat" | "faccessat2" | "readlink" | "readlinkat" | "newfstatat" | "statx" if ours(args.split('"').nth(1).unwrap_or("")) || ours(path) => {}
            "read" | "pread64" | "readv" | "preadv" | "fstat" | "lseek" | "fadvise64" | "fcntl" | "ioctl" | "newfstatat" | "statx" if ours(path) => {}
            "close" if ours(path) => { open.remove(fd); }
            _ => return bad("effect"),
        }
    }
    if !open.is_empty() { return fail(&format!("left-open:{}", o.name), format!("`{}` left descriptors {open:?} open", o.name)); }
    if shown == 0 && o.may == May::ShowVerified && RECORDED.load(SeqCst) { return fail("not-shown", format!("`{}` showed nothing", o.name)); }
    Ok(())
}
/// Forms in which a secret could appear.
fn secrets(pws: &[&str]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    for p in pws.iter().map(|p| p.trim()).filter(|p| p.len() > 5) { if p.len() >= 15 { v.push(b64(p.as_bytes())[..20].as_bytes().to_vec()); } v.push(p.as_bytes().to_vec()); v.push(hex(p.as_bytes()).into_bytes()); v.push(format!("{:?}", p.as_bytes()).trim_matches(['[', ']']).as_bytes().to_vec()); }
    let k = Key::nth(29);
    // what the generating operations make
    let gen = { let (_g, _l) = rng(Box::new(stream(29))); KeyPair::generate_unencrypted_keypair().map(|p| p.sk.to_bytes()).unwrap_or_default() };
    for s in [&k.seed[..], gen.get(62..94).unwrap_or(&[7; 32])] {
        for i in 0..=s.len() - 8 {
            let w = &s[i..i + 8];
            v.push(w.to_vec());
            v.push(hex(w).into_bytes());
            v.push(hex(w).to_uppercase().into_bytes());
            v.push(w.iter().map(|b| format!("{b:x}")).collect::<String>().into_bytes());
            v.push(format!("{w:?}").trim_matches(['[', ']']).as_bytes().to_vec());
            v.push(format!("{w:x?}").trim_matches(['[', ']']).as_bytes().to_vec());
            if i + 9 <= s.len() { v.push(b64(&s[i..i + 9]).into_bytes()); }
        }
    }
    v
}
fn leaks(secrets: &[Vec<u8>], hay: &[u8]) -> bool { secrets.iter().any(|s| hay.len() >= s.len() && hay.windows(s.len()).any(|w| w == &s[..])) }
fn run_and_judge(cx: &Cx, ops: &[usize], env: usize, spec: Value, sec: &[Vec<u8>]) -> std::result::Result<Vec<Value>, Fail> { observe_and_judge(cx, ops, env, spec, sec).map(|s| s.outcomes) }
fn observe_and_judge(cx: &Cx, ops: &[usize], env: usize, mut spec: Value, sec: &[Vec<u8>]) -> std::result::Result<Seen, Fail> {
    spec["ops"] = json!(ops);
    let s = observe(env, spec).unwrap_or_else(|e| panic!("{e}"));
    if s.outcomes.len() != ops.len() || s.calls.len() != ops.len() || s.code != Some(0) {
        if s.calls.is_empty() { panic!("nothing was recorded: status {:?}, {}", s.code, String::from_utf8_lossy(&s.stderr)); }
        return Err(Fail { key: "ended".into(), msg: format!("`{}` ended the process with status {:?}: {}", OPS[ops[s.calls.len() - 1]].name, s.code, String::from_utf8_lossy(&s.stderr)) });
    }
    for (i, o) in ops.iter().enumerate() {
        judge(&OPS[*o], &s.calls[i])?;
        extra_add("system calls judged", s.calls[i].len() as u64);
    }
    if !s.dir_after.is_empty() { fail("files-changed", format!("after {:?}: {:?}", ops.iter().map(|o| OPS[*o].name).collect::<Vec<_>>(), s.dir_after))?; }
    let texts = s.outcomes.iter().map(|o| format!("{}\n{}\n{}\n", o[0].as_str().unwrap_or(""), o[1].as_str().unwrap_or(""), o[2].as_str().unwrap_or(""))).collect::<String>();
    for (what, t) in [("standard output", &s.stdout[..]), ("standard error", &s.stderr), ("a result or error message", texts.as_bytes())] {
        if leaks(sec, t) { fail("secret-shown", format!("{what} shows a secret after {:?}", ops.iter().map(|o| OPS[*o].name).collect::<Vec<_>>()))?; }
    }
    if ops.iter().all(|o| matches!(OPS[*o].may, May::Nothing | May::Open(_))) && !(s.stdout.is_empty() && s.stderr.is_empty()) {
        fail("printed", format!("{:?} printed {:?} {:?}", ops.iter().map(|o| OPS[*o].name).collect::<Vec<_>>(), String::from_utf8_lossy(&s.stdout), String::from_utf8_lossy(&s.stderr)))?;
    }
    cx.bulk(ops.len() as u64 - 1);
    Ok(s)
}
fn c29(cfg: &Cfg) -> Vec<Part> {
    // is recording possible here at all?
    let can = match observe(0, json!({"ops": [0], "data": 10})) {
        Ok(s) if s.code == Some(0) && s.calls.len() == 1 => Ok(()),
        Ok(s) => Err(format!("status {:?}, {}", s.code, String::from_utf8_lossy(&s.stderr))),
        Err(e) => Err(e),
    };
    if let Err(e) = can {
        eprintln!("NOTE: system calls cannot be recorded here ({e}); only outcomes, streams and files are judged");
        extra_add("system calls could not be recorded", 1);
        RECORDED.store(false, SeqCst);
    }
    let sec = std::sync::Arc::new(secrets(&[PW]));
    let s1 = sec.clone();
    let p1 = part("each operation in each environment", 0, move |cx| {
        let o = cx.choose("operation", OPS.len());
        let base = run_and_judge(cx, &[o, o, o], 0, json!({"data": 100}), &s1)?;
        // failing operations fail, the others succeed (or the observation would be empty)
        cx.saw((o, format!("{:?}", base[0])));
        for b in &base[1..] { if *b != base[0] { return fail("repetition-matters", format!("`{}`: {b} after {}", OPS[o].name, base[0])); } }
        for env in 1..4 {
            let r = run_and_judge(cx, &[o], env, json!({"data": 100}), &s1)?;
            cx.saw((o, env));
            if r[0] != base[0] { return fail("environment-matters", format!("`{}`: {} instead of {} (environment {env})", OPS[o].name, r[0], base[0])); }
        }
        Ok(())
    });
    let s2 = sec.clone();
    let p2 = part("after one another", 0, move |cx| {
        let a = cx.choose("first", OPS.len());
        let env = *cx.pick("environment", &[0usize, 3]);
        let ops: Vec<usize> = (0..OPS.len()).flat_map(|b| [a, b]).collect();
        let r = run_and_judge(cx, &ops, env, json!({"data": 100}), &s2)?;
        cx.saw((a, env));
        for i in (2..ops.len()).step_by(2) { if r[i] != r[0] { return fail("history-matters", format!("`{}` after `{}`: {} instead of {}", OPS[a].name, OPS[ops[i - 1]].name, r[i], r[0])); } }
        Ok(())
    });
    let s3 = sec.clone();
    let (top, ctop) = (cfg.t(22u32, 26), cfg.t(16u32, 20));
    let szs: Vec<usize> = (0..4).chain((2..=top).flat_map(|i| [1 << i, (1 << i) + 1])).collect();
    let p3 = part("sizes", 0, move |cx| {
        let o = cx.choose("operation", OPS.len());
        let (n, c) = if cx.flag("long texts") { (10, 1usize << (4 + cx.choose("length", ctop as usize - 3))) } else { (*cx.pick("length", &szs), 0) };
        if c > 1024 && OPS[o].name.contains("interactively") { return Ok(()); }
        if n > 10 && !OPS[o].name.contains("sign,") && OPS[o].name != "sign" && !OPS[o].name.starts_with("verify") { return Ok(()); }
        run_and_judge(cx, &[o], 0, json!({"data": n, "comment": c}), &s3)?;
        cx.saw((o, n, c));
        Ok(())
    });
    let p5 = part("texts", 0, move |cx| {
        let everything: Vec<usize> = (0..OPS.len()).collect();
        let mut spec = json!({"data": 100});
        let mut pws = vec![PW.to_string()];
        match cx.choose("what", 3) {
            0 => spec["data"] = json!(hex(cx.pick("data", &texts()))),
            1 => spec["comment"] = json!(cx.pick("comment", &comments())),
            _ => {
                let p = cx.pick("password", &passwords()).clone();
                let wrong = [format!("{p}x"), format!("{p} "), p.trim().to_string(), p.to_uppercase(), p.chars().rev().collect(), format!("{p}\n"), "different thing".to_string(), "different thing ".to_string(), String::new(), p.chars().skip(1).collect()];
                let w = cx.pick("wrong password", &wrong).clone();
                if w == p { return Ok(()); }
                spec["pw"] = json!(p);
                spec["wrong"] = json!(w);
                pws = vec![p, w];
            }
        }
        let sec = secrets(&pws.iter().map(|s| &s[..]).collect::<Vec<_>>());
        run_and_judge(cx, &everything, 0, spec.clone(), &sec)?;
        cx.saw(spec.to_string());
        Ok(())
    });
    let p4 = part("ending the process on an error", 0, move |cx| {
        let o = cx.choose("operation", OPS.len());
        let s = observe(0, json!({"exit": o, "data": 100})).unwrap_or_else(|e| panic!("{e}"));
        let msg = s.outcomes.first().and_then(|v| v.as_str().map(|s| s.to_string())).unwrap_or_default();
        // (operations that succeed have no error to exit with)
        if s.calls.is_empty() || msg.is_empty() && s.code == Some(101) { return Ok(()); }
        let err = s.stderr;
        cx.saw((o, s.code));
        if s.code != Some(1) { return fail("exit-status", format!("exit() after `{}` ended with status {:?}", OPS[o].name, s.code)); }
        if msg.is_empty() || !err.windows(msg.len()).any(|w| w == msg.as_bytes()) { return fail("exit-message", format!("exit() after `{}` printed {:?}, the error is {msg:?}", OPS[o].name, String::from_utf8_lossy(&err))); }
        Ok(())
    });
    // whatever is wrong with a key file, what is said about it is no secret
    let wrong = "C29-another secret password";
    let sec = secrets(&[PW, wrong]);
    let p6 = part("what is said about damaged keys", 0, move |cx| {
        let k = Key::nth(29);
        let plain = cx.flag("unprotected");
        let orig = if plain { k.sk_plain_bytes() } else { k.sk_enc_bytes(KdfKind::Ideal, PW, &[3; 32], 1 << 20, 1 << 25).unwrap() };
        let way = cx.choose("opened", 6);
        let mut b = orig.clone();
        let what = cx.choose("damage", 6);
        let text = |b: &[u8]| format!("untrusted comment: c\n{}\n", b64(b));
        let t = match what {
            0 => { let i = cx.choose("byte", b.len()); b[i] ^= [1, 2, 4, 8, 16, 32, 64, 128, 255, orig[i], orig[i] ^ 255, 0][cx.choose("change", 12)]; text(&b) }
            1 => { b.truncate(cx.choose("length", b.len())); text(&b) }
            2 => { b.extend(vec![0; 1 + cx.choose("more", 20)]); text(&b) }
            3 => { let (i, n) = (cx.choose("from", b.len()), 1 + cx.choose("zeroed", 32)); for x in b.iter_mut().skip(i).take(n) { *x = 0; } text(&b) }
            4 => { let f = text(&b); let i = cx.choose("character", f.len()); let mut f: Vec<u8> = f.into_bytes(); match cx.choose("how", 5) { 0 => { f.remove(i); } 1 => f[i] = b'!', 2 => f[i] = b'\n', 3 => f[i] = b' ', _ => f.truncate(i) } String::from_utf8(f).unwrap() }
            _ => { let l = b64(&b); [l.clone(), format!("{l}\n{l}\n"), format!("\n{l}"), format!("untrusted comment: c\n{l}={l}"), format!("x\n{}\n", k.pk_b64()), format!("untrusted comment: c\n\n{l}")][cx.choose("text", 6)].clone() }
        };
        let written = std::rc::Rc::new(std::cell::RefCell::new(vec![0usize; 3]));
        let w2 = written.clone();
        let (asked, right) = (way > 2, way != 1 && way != 4);
        let typed = if right { PW } else { wrong };
        if asked { rpassword::mc_set_typist(Some(Box::new(move |_| Ok(typed.to_string())))); }
        let g = sys(move |w, fd, n| { if w && (fd == 1 || fd == 2) { w2.borrow_mut()[fd as usize] += n; } Sys::Upto(n) });
        let r = match way {
            2 => SecretKeyBox::from(t).into_unencrypted_secret_key(),
            5 => SecretKey::from_bytes(&b),
            _ => SecretKeyBox::from(t).into_secret_key((!asked).then(|| typed.to_string())),
        };
        drop(g);
        cx.saw((plain, way, what, cx.trace().iter().map(|t| t.c).collect::<Vec<_>>(), r.is_ok()));
        let said = match &r {
            Err(e) => {
                let mut s = format!("{e} {e:?} {e:#?}");
                let mut src = std::error::Error::source(e);
                while let Some(x) = src { s += &format!(" {x} {x:?}"); src = x.source(); }
                s
            }
            // (what an opened key shows about itself is another matter)
            Ok(sk) => PublicKey::from_secret_key(sk).map(|p| format!("{p:?} {:?}", p.to_box().map(|b| b.to_string()))).unwrap_or_default(),
        };
        if leaks(&sec, said.as_bytes()) { return fail("secret-shown", format!("a key file damaged so, opened in way {way}: {said:?}")); }
        let w = written.borrow();
        if w[2] > 0 || !asked && w[1] > 0 { return fail("printed", format!("{} and {} bytes while opening in way {way}", w[1], w[2])); }
        Ok(())
    });
    // all operations, in every surroundings, end and show themselves the same
    let s7 = std::sync::Arc::new(secrets(&[PW]));
    let (sur, coms) = (surroundings(), ["a trusted comment", "timestamp:1556193335\tfile:test", "timestamp:99999999999", "timestamp:1893456000\tfile:x\tprehashed", "expires:1600000000", "timestamp:0"]);
    let p7 = part("all operations in every surroundings", 0, move |cx| {
        let s = cx.pick("surroundings", &sur).clone();
        let everything: Vec<usize> = (0..OPS.len()).collect();
        let n = if s.get("clock").is_some() { coms.len() } else { 2 };
        let mut spec = json!({"data": 100, "comment": coms[cx.choose("comment", n)]});
        let base = observe_and_judge(cx, &everything, 0, spec.clone(), &s7)?;
        for (k, v) in s.as_object().unwrap() { spec[k] = v.clone(); }
        let got = observe_and_judge(cx, &everything, 0, spec.clone(), &s7)?;
        cx.saw(spec.to_string());
        for (i, o) in OPS.iter().enumerate() { if base.outcomes[i] != got.outcomes[i] { return fail("surroundings-matter", format!("`{}`: {} instead of {} given {s}", o.name, got.outcomes[i], base.outcomes[i])); } }
        for (what, a, b) in [("standard output", &base.stdout, &got.stdout), ("standard error", &base.stderr, &got.stderr)] {
            if a != b { return fail("surroundings-matter", format!("{what}: {:?} instead of {:?} given {s}", String::from_utf8_lossy(b), String::from_utf8_lossy(a))); }
        }
        Ok(())
    });
    vec![p1, p2, p3, p5, p4, p6, p7]
}

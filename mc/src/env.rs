//! Environment stand-ins used by the checks: scripted randomness, readers,
//! writers, passwords.
use crate::engine::*;
#[allow(unused_imports)]
use minisign::{sign, verify, KeyPair, PError, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::cell::RefCell;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

// -------------------------------------------------------------- randomness
/// Deterministic byte stream with the requests logged.
#[derive(Clone, Default)]
pub struct RngLog(pub Rc<RefCell<Vec<Vec<u8>>>>);
impl RngLog {
    pub fn bytes(&self) -> Vec<u8> { self.0.borrow().concat() }
    pub fn calls(&self) -> usize { self.0.borrow().len() }
}
pub struct RngGuard(Option<getrandom::Source>);
impl Drop for RngGuard { fn drop(&mut self) { getrandom::mc_set_source(self.0.take()); } }

pub fn rng(mut f: impl FnMut(&mut [u8]) -> Result<(), i32> + 'static) -> (RngGuard, RngLog) {
    let log = RngLog::default();
    let l = log.clone();
    let old = getrandom::mc_set_source(Some(Box::new(move |b| {
        f(b)?;
        l.0.borrow_mut().push(b.to_vec());
        Ok(())
    })));
    (RngGuard(old), log)
}
pub fn stream(seed: u64) -> impl FnMut(&mut [u8]) -> Result<(), i32> + 'static {
    let mut pos = 0u64;
    move |b| {
        for x in b.iter_mut() { *x = stream_byte(seed, pos); pos += 1; }
        Ok(())
    }
}
pub fn stream_byte(seed: u64, pos: u64) -> u8 {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ pos.wrapping_mul(0xd6e8_feb8_6659_fd93);
    x ^= x >> 32; x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
    x ^= x >> 32; x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
    (x ^ (x >> 32)) as u8
}
pub fn rng_seed(seed: u64) -> (RngGuard, RngLog) { rng(stream(seed)) }

// ------------------------------------------------------------------ errors
/// Every kind of error the standard library names, bare and with a payload, then
/// the system's error numbers; `None` past the end.
const KINDS: [io::ErrorKind; 39] = { use io::ErrorKind::*; [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown, BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero, StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, CrossesDevices, TooManyLinks, InvalidFilename, ArgumentListTooLong, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other] };
pub const ERRORS: usize = 2 * KINDS.len() + 133;
pub fn nth_error(i: usize) -> io::Error {
    match i / KINDS.len() {
        0 => KINDS[i].into(),
        1 => io::Error::new(KINDS[i - KINDS.len()], "scripted failure"),
        _ => io::Error::from_raw_os_error((i - 2 * KINDS.len() + 1) as i32),
    }
}
pub fn soft(i: usize) -> bool { nth_error(i).kind() == io::ErrorKind::Interrupted }

// ---------------------------------------------------------------- readers
/// A data source whose answers are computed by a script: given the position and
/// the buffer length it says what this read does.
pub enum Answer { Data(usize), Err(io::ErrorKind), Nth(usize) }
pub struct Src<F: FnMut(usize, usize) -> Answer> { pub data: Rc<Vec<u8>>, pub pos: usize, pub script: F, pub seek: Box<dyn FnMut(usize) -> io::Result<()>> }
impl<F: FnMut(usize, usize) -> Answer> Src<F> {
    pub fn new(data: &[u8], script: F) -> Self { Src { data: Rc::new(data.to_vec()), pos: 0, script, seek: Box::new(|_| Ok(())) } }
}
impl<F: FnMut(usize, usize) -> Answer> Read for Src<F> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match (self.script)(self.pos, buf.len()) {
            Answer::Err(k) => Err(io::Error::new(k, "scripted read failure")),
            Answer::Nth(i) => Err(nth_error(i)),
            Answer::Data(n) => {
                let n = n.min(buf.len()).min(self.data.len().saturating_sub(self.pos));
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
        }
    }
}
impl<F: FnMut(usize, usize) -> Answer> Seek for Src<F> {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if p < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "negative seek")); }
        if !matches!(to, SeekFrom::Current(0)) { (self.seek)(p as usize)?; }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

// ---------------------------------------------------------------- writers
/// What happens to one write or flush call.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum W { Full, Short(usize), Zero, Err(io::ErrorKind), Nth(usize) }
/// Writer with scripted answers; bytes become durable only when flushed.
pub struct Dst {
    pub accepted: Rc<RefCell<Vec<u8>>>,
    pub flushed: Rc<RefCell<usize>>,
    pub script: Box<dyn FnMut(bool, usize) -> W>,
}
impl Write for Dst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        match (self.script)(false, b.len()) {
            W::Full => { self.accepted.borrow_mut().extend(b); Ok(b.len()) }
            W::Short(n) => { let n = n.min(b.len()); self.accepted.borrow_mut().extend(&b[..n]); Ok(n) }
            W::Zero => Ok(0),
            W::Err(k) => Err(io::Error::new(k, "scripted write failure")),
            W::Nth(i) => Err(nth_error(i)),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        match (self.script)(true, 0) {
            W::Err(k) => Err(io::Error::new(k, "scripted flush failure")),
            W::Nth(i) => Err(nth_error(i)),
            _ => { *self.flushed.borrow_mut() = self.accepted.borrow().len(); Ok(()) }
        }
    }
}

// --------------------------------------------------------------- shortcuts
use crate::refm::{Key, SigFile};
pub fn pk_of(k: &Key) -> Result<PublicKey, Fail> { PublicKey::from_bytes(&k.pk_bytes()).must("loading a public key") }
pub fn sk_of(k: &Key) -> Result<SecretKey, Fail> {
    SecretKeyBox::from_string(&k.sk_plain_box()).must("boxing a secret key")?.into_unencrypted_secret_key().must("loading an unprotected secret key")
}
thread_local! {
    static ASKED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static SPLIT: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// A disagreement between verdicts since the last time.
pub fn split_verdict() -> Option<String> {
    ASKED.with(|c| c.set(0));
    SPLIT.with(|s| s.borrow_mut().take())
}
/// The library's verdict on text + data.
pub fn verdict_text(pk: &PublicKey, text: &str, data: &[u8], legacy: bool) -> Result<(), String> {
    let b = SignatureBox::from_string(text).map_err(|e| format!("parse: {e}"))?;
    vbox(pk, &b, data, legacy).map_err(|e| format!("verify: {e}"))
}
pub fn accepts(pk: &PublicKey, f: &SigFile, data: &[u8], legacy: bool) -> bool { verdict_text(pk, &f.text(), data, legacy).is_ok() }
/// Verification with standard error swallowed (standard output goes to /dev/null).
pub fn verify_as(pk: &PublicKey, b: &SignatureBox, data: &[u8], quiet: bool, output: bool, legacy: bool) -> Result<(), PError> {
    let _g = (!quiet).then(|| sys(|w, fd, n| if w && fd == 2 { Sys::Swallow } else { Sys::Upto(n) }));
    verify(pk, b, io::Cursor::new(data), quiet, output, legacy)
}
pub fn vbox(pk: &PublicKey, b: &SignatureBox, data: &[u8], legacy: bool) -> Result<(), PError> {
    let r = verify(pk, b, io::Cursor::new(data), true, false, legacy);
    // neither reporting nor output may change it, nor, unless it is needed, the
    // leave for legacy signatures (what is written is not looked at here)
    let (quiet, output, other) = [(false, true, false), (true, true, true), (false, false, true), (false, true, true), (true, false, true)][ASKED.with(|c| { c.set(c.get() + 1); c.get() }) % 5];
    let legacy = legacy ^ (other && b.is_prehashed());
    let loud = verify_as(pk, b, data, quiet, output, legacy);
    if r.is_ok() != loud.is_ok() {
        let text = |r: &Result<(), PError>| r.as_ref().map_or_else(|e| e.to_string(), |_| "accepted".into());
        SPLIT.with(|s| *s.borrow_mut() = Some(format!("quietly: {}; with quiet={quiet} output={output} legacy={legacy}: {}", text(&r), text(&loud))));
    }
    r
}
/// Deterministic data of a given length (every length has different content).
pub fn data(seed: u64, len: usize) -> Vec<u8> { (0..len as u64).map(|i| stream_byte(seed ^ (len as u64) << 20, i)).collect() }

// --------------------------------------------------------------- alphabets
/// Single-line comments with every shape that matters to a line format.
pub fn comments() -> Vec<String> {
    let mut v: Vec<String> = ["plain comment", "", " ", "  leading", "trailing  ", "\ttab\t", "\u{a0}nbsp\u{a0}", "\u{2028}ls\u{2029}", "a\rb", "\rstart",
        "caf\u{e9} \u{6f22}\u{5b57} \u{1f511}", "trusted comment: nested", "untrusted comment: nested", "\u{feff}bom", "\u{85}nel\u{85}", "\u{0b}vt\u{0c}ff", "\u{3000}wide\u{3000}",
        "RUQf6LRCGA9i559r3g7V1qNyJDApGip8MfqcadIgT9CuhV3EMhHoN1mGTkUidF/z7SrlQgXdy8ofjb7bNJJylDOocrCo8KLzZwo=", "\0nul\0", "timestamp:1556193335\tfile:test", "=", "\u{200b}zw\u{200b}"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(5000));
    v.push("\u{e9}".repeat(600));
    v
}
pub fn keynums() -> Vec<[u8; 8]> {
    vec![[0x1f, 0xe8, 0xb4, 0x42, 0x18, 0x0f, 0x62, 0xe7], [0; 8], [0xff; 8], [1, 0, 0, 0, 0, 0, 0, 0], [0, 0, 0, 0, 0, 0, 0, 0x80], [0, 0, 0, 0, 0, 0, 0, 1], [0x80, 0, 0, 0, 0, 0, 0, 0], *b"\n\n\r\n \t\0\n"]
}
/// Data lengths at the block and buffer boundaries of the hash functions and the reader.
pub fn lengths(big: bool) -> Vec<usize> {
    let mut v = vec![5, 0, 1, 2, 47, 48, 63, 64, 65, 79, 80, 111, 112, 113, 127, 128, 129, 239, 240, 241, 255, 256, 257, 383, 384, 385, 511, 512, 513, 1000, 4096, 8192, 65535, 65536, 65537];
    if big { v.extend([65536 + 128, 131071, 131072, 131073, 200_000]); }
    v
}

/// A base64 field with something else around or within it: never the same field.
pub fn around(t: &str, other: &str) -> Vec<String> {
    let mut v = vec![];
    let junk = [t, other, &t[..t.len() / 2], "A", "AAAA", "x", "==", "=", "0", "-", "untrusted comment: x", ""];
    for sep in ["", " ", "  ", "\t", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{200b}", ",", ";", ":", "#", "=", "\0", "|", "-", "\\n", "%0A", "&", "\"", "\'", "(", "<!--", "//"] {
        for j in junk {
            v.push(format!("{t}{sep}{j}"));
            v.push(format!("{j}{sep}{t}"));
            v.push(format!("{j}{sep}{t}{sep}{j}"));
        }
        // folded
        for n in [4usize, 5, 8, 40, 64, 76] { if n < t.len() {
            v.push(format!("{}{sep}{}", &t[..n], &t[n..]));
            v.push(t.as_bytes().chunks(n).map(|c| std::str::from_utf8(c).unwrap()).collect::<Vec<_>>().join(sep));
        } }
    }
    v.extend([format!("\"{t}\""), format!("'{t}'"), format!("<{t}>"), format!("({t})"), t.trim_end_matches('=').to_string(), t.to_lowercase(), t.to_uppercase(), t.chars().rev().collect(), t.replace('+', "-").replace('/', "_")]);
    v.retain(|x| x.trim() != t);
    v.sort();
    v.dedup();
    v
}

/// 2^k - 1, 2^k and 2^k + 1 for every k of the range.
pub fn doublings(lo: u32, hi: u32) -> Vec<usize> { (lo..=hi).flat_map(|k| { let n = 1usize << k; [n - 1, n, n + 1] }).collect() }
/// Multiples of round sizes (binary and decimal) and their neighbours, up to `max`.
pub fn multiples(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for z in [1000usize, 1024, 1500, 4096, 8192, 10_000, 16384, 32768, 65536, 100_000, 131_072, 262_144, 1_000_000, 1 << 20, 10_000_000] {
        for k in (1..=12).chain([15, 16, 20, 24, 31, 32, 50, 63, 64, 100]) {
            if z * k < max { v.extend([z * k - 1, z * k, z * k + 1]); }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// Characters explored one at a time: all of Unicode, or the regions that text
/// processing treats specially.
pub fn nchars(all: bool) -> usize { if all { 0x11_0000 } else { 0x3100 + 0x700 + 0x100 } }
pub fn nth_char(all: bool, i: usize) -> Option<char> {
    let i = i as u32;
    char::from_u32(if all || i < 0x3100 { i } else if i < 0x3800 { 0xf900 + i - 0x3100 } else { 0xe_0000 + i - 0x3800 })
}
/// The characters of Unicode in packs of 256 (without line breaks).
pub const PACKS: usize = 0x1100;
pub fn pack(i: usize) -> String { (0..256).filter_map(|j| char::from_u32((i * 256 + j) as u32)).filter(|c| *c != '\n' && *c != '\r').collect() }
/// Every run of two characters of a wide alphabet and of three characters of the
/// special ones, in lines of some 400 characters (de Bruijn sequences).
pub fn runs() -> Vec<String> {
    fn de_bruijn(a: &[char], n: usize) -> Vec<char> {
        fn go(t: usize, p: usize, n: usize, k: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
            if t > n { if n % p == 0 { out.extend(&a[1..=p]); } return }
            a[t] = a[t - p];
            go(t + 1, p, n, k, a, out);
            for j in a[t - p] + 1..k { a[t] = j; go(t + 1, t, n, k, a, out); }
        }
        let mut out = vec![];
        go(1, 1, n, a.len(), &mut vec![0; n + 1], &mut out);
        out.extend(out[..n - 1].to_vec());
        out.into_iter().map(|i| a[i]).collect()
    }
    let wide: Vec<char> = (1u8..128).map(|b| b as char).filter(|c| !"\n\r".contains(*c)).chain("\u{85}\u{a0}\u{e9}\u{301}\u{2028}\u{200b}\u{feff}\u{6f22}\u{1f511}\u{130}\u{df}".chars()).collect();
    let special: Vec<char> = "\t \u{b}\u{1b}:/\\\"'%$#&;=,.-_+*?!<>()[]{}|~@^`0aZ\u{a0}\u{301}".chars().collect();
    let mut v = vec![];
    for (s, n) in [(de_bruijn(&wide, 2), 2), (de_bruijn(&special, 3), 3)] {
        let mut i = 0;
        while i + n <= s.len() { v.push(s[i..(i + 400).min(s.len())].iter().collect()); i += 401 - n; }
    }
    v
}
/// A line of `n` bytes without repetition of any short period.
pub fn long_line(n: usize) -> String { (0..n as u64).map(|i| (b'a' + stream_byte(77, i) % 26) as char).collect() }
/// Contents that a text-minded implementation may treat specially.
pub fn texts() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["plain text", "", "\n", "\r\n", "a line\n", "a line\r\n", "two\nlines\n", "two\r\nlines", "mixed\r\nline\nends\r", "\u{feff}with a mark\n", "tab\tand  spaces \n", " leading and trailing ", "caf\u{e9}", "cafe\u{301}", "UPPER lower", "nul\0inside\0", "ctrl-z\x1a", "\x1b[0m", "$Id: x $", "{\"a\": 1, \"b\": 2}", "<a b=\"c\"/>", "%41%20", "a=b&c=d", "../x", "#!/bin/sh\n", "untrusted comment: x\nRWQ=\ntrusted comment: y\nAAAA\n", "\u{1f511}"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(vec![0xff, 0xfe, b'a', 0, b'\n', 0]);
    v.push(vec![0xfe, 0xff, 0, b'a']);
    v.push(vec![0, 0, 0xfe, 0xff]);
    v.push((0..=255).collect());
    v.push(vec![0xff; 40]);
    v.push(vec![0; 40]);
    v.push(vec![b' '; 40]);
    v.push(b"\x1f\x8b\x08\0\0\0\0\0".to_vec());
    v.push(b"PK\x03\x04".to_vec());
    v.push([&b"line one\r\nline two\n"[..], &data(3, 300)].concat());
    v
}
/// What text-minded processing might do to contents.
pub fn normalised(d: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let marks: Vec<(&str, Vec<u8>)> = vec![("UTF-8 mark", b"\xef\xbb\xbf".to_vec()), ("UTF-16LE mark", vec![0xff, 0xfe]), ("UTF-16BE mark", vec![0xfe, 0xff]), ("UTF-32BE mark", vec![0, 0, 0xfe, 0xff]), ("NUL", vec![0]), ("line feed", vec![b'\n']), ("carriage return", vec![b'\r']), ("CRLF", b"\r\n".to_vec()), ("blank", vec![b' ']), ("tab", vec![b'\t']), ("ctrl-z", vec![0x1a]), ("ctrl-d", vec![4]), ("0x80", vec![0x80]), ("0xff", vec![0xff]), ("blank line", b"\n\n".to_vec()), ("vertical tab", vec![0x0b]), ("form feed", vec![0x0c]), ("NEL", "\u{85}".as_bytes().to_vec()), ("NBSP", "\u{a0}".as_bytes().to_vec()), ("ZWSP", "\u{200b}".as_bytes().to_vec())];
    for (n, m) in &marks {
        v.push((format!("{n} before"), [&m[..], d].concat()));
        v.push((format!("{n} after"), [d, &m[..]].concat()));
        if let Some(x) = d.strip_prefix(&m[..]) { v.push((format!("{n} removed from the start"), x.to_vec())); }
        if let Some(x) = d.strip_suffix(&m[..]) { v.push((format!("{n} removed from the end"), x.to_vec())); }
        v.push((format!("every {n} removed"), replaced(d, m, b"")));
    }
    for (a, b) in [(&b"\n"[..], &b"\r\n"[..]), (b"\r\n", b"\n"), (b"\r", b"\n"), (b"\n", b"\r"), (b"\t", b" "), (b"  ", b" "), (b"\xc3\xa9", b"e\xcc\x81"), (b"e\xcc\x81", b"\xc3\xa9"), (b"\xc3\xa9", b"\xe9"), (b"\0", b" "), (b"\xff", b"\xef\xbf\xbd"), (b"\x80", b"\xef\xbf\xbd"), (b"%20", b" ")] {
        v.push((format!("{:?} replaced by {:?}", String::from_utf8_lossy(a), String::from_utf8_lossy(b)), replaced(d, a, b)));
    }
    v.push(("upper case".into(), d.to_ascii_uppercase()));
    v.push(("lower case".into(), d.to_ascii_lowercase()));
    v.push(("blanks trimmed".into(), d.trim_ascii().to_vec()));
    v.push(("end trimmed".into(), d.trim_ascii_end().to_vec()));
    v.push(("start trimmed".into(), d.trim_ascii_start().to_vec()));
    v.push(("up to the first NUL".into(), d.split(|b| *b == 0).next().unwrap_or(b"").to_vec()));
    v.push(("up to the first line end".into(), d.split(|b| *b == b'\n').next().unwrap_or(b"").to_vec()));
    v.push(("up to the first ctrl-z".into(), d.split(|b| *b == 0x1a).next().unwrap_or(b"").to_vec()));
    v.push(("trailing zeros removed".into(), { let n = d.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1); d[..n].to_vec() }));
    v.push(("seven bits".into(), d.iter().map(|b| b & 0x7f).collect()));
    v.push(("lossy UTF-8".into(), String::from_utf8_lossy(d).as_bytes().to_vec()));
    v.push(("reversed".into(), d.iter().rev().copied().collect()));
    v.push(("base64".into(), crate::refm::b64(d).into_bytes()));
    v.push(("hexadecimal".into(), crate::refm::hex(d).into_bytes()));
    v
}
pub fn replaced(d: &[u8], a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < d.len() { if d[i..].starts_with(a) { v.extend(b); i += a.len(); } else { v.push(d[i]); i += 1; } }
    v
}

// ------------------------------------------------------------------ clock
thread_local! { static CLOCK: std::cell::Cell<Option<(i64, i64)>> = const { std::cell::Cell::new(None) }; }
/// What the wall clock answers on this thread (seconds, nanoseconds); None: the truth.
pub fn set_clock(t: Option<(i64, i64)>) { CLOCK.with(|c| c.set(t)) }
/// The standard library asks libc; this definition takes precedence in the checker.
#[no_mangle]
pub extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n))) = CLOCK.try_with(|c| c.get()) {
            unsafe { (*tp).tv_sec = s; (*tp).tv_nsec = n; }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, tp) as libc::c_int }
}

// ---------------------------------------------------------- system calls
/// What one read or write of a descriptor does: at most so many bytes, or an error.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sys { Upto(usize), Errno(i32), Elsewhere(i32), Swallow }
type SysScript = Box<dyn FnMut(bool, i32, usize) -> Sys>;
thread_local! {
    static SYS_ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static SYS: RefCell<Option<SysScript>> = const { RefCell::new(None) };
}
pub struct SysGuard;
impl Drop for SysGuard { fn drop(&mut self) { SYS_ON.with(|c| c.set(false)); SYS.with(|s| s.borrow_mut().take()); } }
/// While the guard lives, this thread's reads and writes of descriptors are
/// answered by the script (write?, descriptor, length).
pub fn sys(f: impl FnMut(bool, i32, usize) -> Sys + 'static) -> SysGuard {
    SYS.with(|s| *s.borrow_mut() = Some(Box::new(f)));
    SYS_ON.with(|c| c.set(true));
    SysGuard
}
fn sys_ask(w: bool, fd: i32, n: usize) -> Sys {
    if !SYS_ON.try_with(|c| c.get()).unwrap_or(false) { return Sys::Upto(n); }
    SYS_ON.with(|c| c.set(false));
    let r = SYS.with(|s| s.borrow_mut().as_mut().map(|f| f(w, fd, n)).unwrap_or(Sys::Upto(n)));
    SYS_ON.with(|c| c.set(true));
    r
}
fn sys_do(w: bool, fd: i32, b: *const libc::c_void, n: usize) -> isize {
    match sys_ask(w, fd, n) {
        Sys::Upto(k) => unsafe { libc::syscall(if w { libc::SYS_write } else { libc::SYS_read }, fd, b, k.min(n)) as isize },
        Sys::Elsewhere(to) => unsafe { libc::syscall(if w { libc::SYS_write } else { libc::SYS_read }, to, b, n) as isize },
        Sys::Swallow => n as isize,
        Sys::Errno(e) => { unsafe { *libc::__errno_location() = e; } -1 }
    }
}
// (these definitions take precedence in the checker)
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut libc::c_void, n: usize) -> isize { sys_do(false, fd, b, n) }
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const libc::c_void, n: usize) -> isize { sys_do(true, fd, b, n) }
#[no_mangle]
pub extern "C" fn writev(fd: i32, v: *const libc::iovec, k: i32) -> isize {
    if !SYS_ON.try_with(|c| c.get()).unwrap_or(false) { return unsafe { libc::syscall(libc::SYS_writev, fd, v, k) as isize }; }
    // (a short answer is always allowed: the first piece only)
    for i in 0..k.max(0) as usize { let x = unsafe { &*v.add(i) }; if x.iov_len > 0 { return sys_do(true, fd, x.iov_base, x.iov_len); } }
    0
}

// ------------------------------------------------------------------ files
pub struct TempFile(pub std::path::PathBuf);
impl TempFile {
    pub fn new(content: &[u8]) -> TempFile {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let dir = std::env::var("MC_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned());
        let p = std::path::PathBuf::from(dir).join(format!("mc-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::write(&p, content).expect("scratch file");
        TempFile(p)
    }
}
impl Drop for TempFile { fn drop(&mut self) { std::fs::remove_file(&self.0).ok(); } }

// ----------------------------------------------------------------- routes
pub const SIG_ROUTES: [&str; 13] = ["direct", "to_string", "into_string", "String::from", "to_bytes", "file", "file-crlf", "no-final-newline", "crlf-no-final-newline", "bones", "bones-bytes", "twice", "clone"];
/// Pass a signature box through one storage route.
pub fn route(b: SignatureBox, r: usize) -> Result<SignatureBox, Fail> {
    let w = SIG_ROUTES[r];
    let what = format!("reading back a signature stored as {w}");
    let p = |s: &str| SignatureBox::from_string(s).must(&what);
    Ok(match w {
        "direct" => b,
        "to_string" => p(&b.to_string())?,
        "into_string" => p(&b.into_string())?,
        "String::from" => SignatureBox::from(String::from(b)),
        "to_bytes" => p(std::str::from_utf8(&b.to_bytes()).must("signature bytes as UTF-8")?)?,
        "file" => { let f = TempFile::new(&b.to_bytes()); SignatureBox::from_file(&f.0).must(&what)? }
        "file-crlf" => { let f = TempFile::new(crlf(&b.to_string()).as_bytes()); SignatureBox::from_file(&f.0).must(&what)? }
        "no-final-newline" => { let t = b.to_string(); p(t.strip_suffix('\n').unwrap_or(&t))? }
        "crlf-no-final-newline" => { let t = crlf(&b.to_string()); p(t.strip_suffix("\r\n").unwrap_or(&t))? }
        "bones" => SignatureBox::from(SignatureBones::from(b)),
        "bones-bytes" => SignatureBox::from(SignatureBones::from_bytes(&SignatureBones::from(b).to_bytes()).must(&what)?),
        "twice" => p(&p(&b.to_string())?.to_string())?,
        _ => b.clone(),
    })
}
pub fn crlf(s: &str) -> String { s.replace('\n', "\r\n") }

pub const SK_ROUTES: [&str; 7] = ["plain-box", "plain-bytes", "encrypted-box", "encrypted-file", "clone", "rebox", "plain-crlf"];
pub fn sk_via(k: &Key, r: usize) -> Result<SecretKey, Fail> {
    let enc = || k.sk_enc_box(crate::refm::KdfKind::Ideal, "pass word", &[7; 32], 1 << 20, 1 << 25).unwrap();
    match SK_ROUTES[r] {
        "plain-box" => sk_of(k),
        "plain-bytes" => SecretKey::from_bytes(&k.sk_plain_bytes()).must("loading secret key bytes"),
        "encrypted-box" => SecretKeyBox::from(enc()).into_secret_key(Some("pass word".into())).must("opening a protected key"),
        "encrypted-file" => { let f = TempFile::new(enc().as_bytes()); SecretKey::from_file(&f.0, Some("pass word".into())).must("opening a protected key file") }
        "clone" => Ok(sk_of(k)?.clone()),
        "rebox" => sk_of(k)?.to_box(Some("again")).must("boxing")?.into_unencrypted_secret_key().must("reopening"),
        _ => SecretKeyBox::from(crlf(&k.sk_plain_box())).into_unencrypted_secret_key().must("loading a CRLF key"),
    }
}
pub const PK_ROUTES: [&str; 7] = ["bytes", "base64", "box", "box-crlf", "file", "from-secret", "rebox"];
pub fn pk_via(k: &Key, r: usize) -> Result<PublicKey, Fail> {
    let b = |s: String| PublicKeyBox::from_string(&s).must("boxing")?.into_public_key().must("loading a boxed public key");
    match PK_ROUTES[r] {
        "bytes" => pk_of(k),
        "base64" => PublicKey::from_base64(&k.pk_b64()).must("loading a base64 public key"),
        "box" => b(k.pk_box()),
        "box-crlf" => b(crlf(&k.pk_box())),
        "file" => { let f = TempFile::new(k.pk_box().as_bytes()); PublicKey::from_file(&f.0).must("loading a public key file") }
        "from-secret" => PublicKey::from_secret_key(&sk_of(k)?).must("recomputing the public key"),
        _ => b(pk_of(k)?.to_box().must("boxing")?.into_string()),
    }
}

/// The key object is exactly this key (as far as its raw form and public key tell).
pub fn check_same_key(sk: &SecretKey, k: &Key, what: &str) -> Res {
    if sk.keynum() != k.keynum { return fail("key-changed", format!("{what}: identifier {} instead of {}", crate::refm::hex(sk.keynum()), crate::refm::hex(&k.keynum))); }
    let b = sk.to_bytes();
    if b.len() != 158 || b[54..62] != k.keynum || b[62..126] != k.sk64() { return fail("key-changed", format!("{what}: raw form {} is not that key", crate::refm::hex(&b))); }
    let pk = PublicKey::from_secret_key(sk).must("recomputing the public key")?;
    if pk.to_bytes() != k.pk_bytes() { return fail("key-changed", format!("{what}: public key {} instead of {}", crate::refm::hex(&pk.to_bytes()), crate::refm::hex(&k.pk_bytes()))); }
    Ok(())
}
/// The object is that key, or (quietly) not; for damage checks.
pub fn is_same_key(sk: &SecretKey, k: &Key) -> bool { check_same_key(sk, k, "").is_ok() }

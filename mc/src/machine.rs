//! The course of the machine code (C28): cases run by ../mcm under valgrind,
//! whose trace of superblocks (every branch taken) or of all instructions and
//! memory accesses is cut at the marks and compared case by case.
use crate::refm::hex;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone)]
pub struct Build { pub name: String, pub bin: PathBuf, marks: (u64, u64) }
#[derive(Clone, Copy, PartialEq)]
pub enum Trace { Branches, Memory }
pub struct Segment { pub h: (u64, u64), pub n: u64, pub class: u8 }

fn scratch() -> PathBuf { std::env::var("MC_SCRATCH").map(Into::into).unwrap_or_else(|_| std::env::temp_dir()) }
fn temp(ext: &str) -> PathBuf {
    static N: AtomicU64 = AtomicU64::new(0);
    scratch().join(format!("machine-{}-{}.{ext}", std::process::id(), N.fetch_add(1, Relaxed)))
}
struct Rm(PathBuf);
impl Drop for Rm { fn drop(&mut self) { let _ = std::fs::remove_file(&self.0); } }

/// Runs the cases; `seg(case, words)` is called with every piece of a segment.
fn run(bin: &PathBuf, trace: Option<Trace>, marks: (u64, u64), op: &str, cases: &[Vec<Vec<u8>>], mut seg: impl FnMut(usize, u64)) -> Result<((u64, u64), Vec<u8>), String> {
    let (jobs, out) = (Rm(temp("jobs")), Rm(temp("out")));
    let mut t = format!("{op}\n");
    for c in cases {
        t += &c.iter().map(|a| if a.is_empty() { "-".into() } else { hex(a) }).collect::<Vec<_>>().join(" ");
        t.push('\n');
    }
    std::fs::write(&jobs.0, t).map_err(|e| e.to_string())?;
    let tool: &[&str] = match trace { None => &["--tool=none"], Some(Trace::Branches) => &["--tool=lackey", "--trace-superblocks=yes"], Some(Trace::Memory) => &["--tool=lackey", "--trace-mem=yes"] };
    let mut child = Command::new("sh").args(["-c", "exec valgrind \"$@\" 9>&1 1>/dev/null 2>/dev/null", "sh", "--vex-guest-chase=no", "--log-fd=9"]).args(tool).arg(bin).arg(&jobs.0).arg(&out.0)
        .env_remove("LD_PRELOAD").stdin(Stdio::null()).stdout(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    let mut pipe = child.stdout.take().unwrap();
    unsafe { libc::fcntl(std::os::fd::AsRawFd::as_raw_fd(&pipe), libc::F_SETPIPE_SZ, 1 << 20); }
    let (mut buf, mut have) = (vec![0u8; 1 << 20], 0);
    let mut cur: Option<usize> = None;
    let mut next = 0;
    loop {
        let n = pipe.read(&mut buf[have..]).map_err(|e| e.to_string())?;
        if n == 0 { break; }
        have += n;
        let mut at = 0;
        while let Some(e) = buf[at..have].iter().position(|c| *c == b'\n') {
            let l = &buf[at..at + e];
            at += e + 1;
            // "SB 0012ef", "I  0012ef,3", " L 1ffe,8", " S 1ffe,8", " M 1ffe,8"
            let (kind, rest) = match l { [b'S', b'B', b' ', r @ ..] => (0u64, r), [b'I', b' ', b' ', r @ ..] => (0, r), [b' ', k @ (b'L' | b'S' | b'M'), b' ', r @ ..] => (*k as u64, r), _ => continue };
            let mut v = 0u64;
            for c in rest { match c { b'0'..=b'9' => v = v << 4 | (c - b'0') as u64, b'a'..=b'f' => v = v << 4 | (c - b'a' + 10) as u64, _ => break } }
            if kind == 0 && v == marks.0 { cur = Some(next); next += 1; }
            if kind == 0 && v == marks.1 { cur = None; }
            if let Some(i) = cur { seg(i, kind << 56 | v); }
        }
        buf.copy_within(at..have, 0);
        have -= at;
        // the writer writes line by line: let it fill the pipe
        if n < 1 << 18 { std::thread::sleep(std::time::Duration::from_millis(3)); }
    }
    if !child.wait().map_err(|e| e.to_string())?.success() { return Err(format!("{op}: the observed program failed")); }
    let o = std::fs::read_to_string(&out.0).map_err(|e| e.to_string())?;
    let mut l = o.lines();
    let m: Vec<u64> = l.next().unwrap_or("").split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect();
    if m.len() != 2 { return Err("no marks".into()); }
    let classes: Vec<u8> = l.filter_map(|x| x.parse().ok()).collect();
    if classes.len() != cases.len() || (trace.is_some() && next != cases.len()) { return Err(format!("{op}: {} cases, {} outcomes, {next} segments", cases.len(), classes.len())); }
    Ok(((m[0], m[1]), classes))
}
impl Build {
    /// None: this build (or valgrind) is not available.
    pub fn open(name: &str, bin: PathBuf) -> Option<Build> {
        if !bin.exists() { return None; }
        let (marks, _) = run(&bin, None, (0, 0), "load", &[vec![vec![1]]], |_, _| ()).map_err(|e| eprintln!("note: {name}: {e}")).ok()?;
        Some(Build { name: name.into(), bin, marks })
    }
    /// The first case only warms up.
    pub fn courses(&self, t: Trace, op: &str, cases: &[Vec<Vec<u8>>]) -> Result<Vec<Segment>, String> {
        let mut v: Vec<Segment> = cases.iter().map(|_| Segment { h: (0, 0), n: 0, class: 0 }).collect();
        let (_, classes) = run(&self.bin, Some(t), self.marks, op, cases, |i, w| {
            let s = &mut v[i];
            s.h.0 = (s.h.0 ^ w).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
            s.h.1 = (s.h.1.rotate_left(7) ^ w).wrapping_mul(0xd6e8_feb8_6659_fd93);
            s.n += 1;
        })?;
        for (s, c) in v.iter_mut().zip(classes) { s.class = c; }
        v.remove(0);
        Ok(v)
    }
    /// Where two cases part.
    pub fn parting(&self, t: Trace, op: &str, warm: &[Vec<u8>], a: &[Vec<u8>], b: &[Vec<u8>]) -> String {
        let (mut first, mut k, mut at, mut last) = (vec![], 0usize, None, 0u64);
        let r = run(&self.bin, Some(t), self.marks, op, &[warm.to_vec(), a.to_vec(), b.to_vec()], |i, w| match i {
            1 => first.push(w),
            2 => {
                if at.is_none() && first.get(k) != Some(&w) { at = Some((last, w)); }
                if w >> 56 == 0 && at.is_none() { last = w; }
                k += 1;
            }
            _ => {}
        });
        if let Err(e) = r { return e; }
        let Some((last, w)) = at else { return "the length of the course".into() };
        // valgrind loads position-independent programs at 0x108000 (first segment at 0x108000)
        let sym = |v: u64| -> String {
            let o = Command::new("addr2line").args(["-f", "-C", "-i", "-e"]).arg(&self.bin).arg(format!("{:x}", v.wrapping_sub(0x108000))).output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
            let l: Vec<&str> = o.lines().collect();
            l.chunks(2).filter(|c| c.len() == 2).map(|c| format!("{} ({})", c[0], c[1].split(" (disc").next().unwrap())).take(3).collect::<Vec<_>>().join(", in ")
        };
        format!("{} after the code at {last:#x} {}", match (w >> 56) as u8 { b'L' => "an address read", b'S' | b'M' => "an address written", _ => "a branch" }, sym(last))
    }
}

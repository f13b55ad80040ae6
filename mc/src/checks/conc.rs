//! C19: operations do not influence one another.
use crate::engine::*;
use crate::env::data;
use crate::refm::*;
use mcops::{Fix, CORE, OPS, SHARED};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Arc;

pub fn checks() -> Vec<CheckDef> {
    vec![CheckDef { id: "C19", level: "model_checking", rule: "operation sequences up to a depth in a fresh process each; every operation nested at every input/output point of every other; two and three threads under a cooperative scheduler, preempted at input/output points and at accesses to memory that two operations share (traced), up to a preemption bound; every outcome equal to the operation's outcome alone in a fresh process", assumptions: &["scheduling points are the operations' reads, seeks, writes, random requests, prompts and derivations, and accesses to memory observed to be shared", "accesses made inside the standard library are not traced"], parts: c19 }]
}

pub fn fixtures() -> Fix {
    let kn = [[1u8, 2, 3, 4, 5, 6, 7, 8], [1, 2, 3, 4, 5, 6, 7, 8], [0xff, 0, 0, 0, 0, 0, 0, 1]];
    let k: Vec<Key> = (0..3).map(|i| Key::nth(1900 + i as u64).with_keynum(kn[i])).collect();
    let d = vec![b"0123456789".to_vec(), data(19, 200), data(19, 100_000)];
    let sig = |i: usize, j: usize, t: &str| SigFile::make(&k[i], ALG_PREHASHED, &d[j], &format!("u{i}"), t, b"").text();
    let weak = [1u8; 1].iter().copied().chain([0u8; 31]).collect::<Vec<u8>>();
    let mut w = SigFile::make(&k[0], ALG_LEGACY, &d[0], "weak", "weak", b"");
    w.sig = [&weak[..], &[0; 32]].concat().try_into().unwrap();
    w.global = w.sig.to_vec();
    let enc = |i: usize, pw: &str, salt: u8| (k[i].sk_enc_box(KdfKind::Ideal, pw, &[salt; 32], 1 << 20, 1 << 25).unwrap(), pw.to_string());
    Fix {
        pk: k.iter().map(|k| k.pk_bytes()).collect(),
        sk: k.iter().map(|k| k.sk_plain_box()).collect(),
        sk_enc: vec![enc(0, "password", 5), enc(1, "another", 5), enc(2, "pw\u{e9}", 6)],
        sig: vec![sig(0, 0, "t0"), sig(1, 0, "t1"), sig(2, 2, "t2")],
        legacy: SigFile::make(&k[0], ALG_LEGACY, &d[1], "ul", "tl", b"").text(),
        data: d,
        weak_pk: [&b"Ed"[..], &kn[0], &weak].concat(),
        weak_sig: w.text(),
        shared: None,
    }
}
pub fn name(o: usize) -> &'static str { if o < OPS.len() { OPS[o] } else { SHARED[o - OPS.len()] } }

struct Server { proc: Child, to: ChildStdin, from: ChildStdout }
impl Drop for Server { fn drop(&mut self) { self.proc.kill().ok(); self.proc.wait().ok(); } }
impl Server {
    fn start(traced: bool) -> Server {
        let me = std::env::current_exe().unwrap();
        let exe = match std::env::var("MC_TRACED") { Ok(p) if traced && std::path::Path::new(&p).exists() => p.into(), _ => me };
        let mut proc = Command::new(exe).arg("server").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("server");
        let (to, from) = (proc.stdin.take().unwrap(), proc.stdout.take().unwrap());
        Server { proc, to, from }
    }
    /// Next line, or None if nothing came for too long.
    fn line(&mut self) -> Option<String> {
        use std::os::unix::io::AsRawFd;
        let mut v = vec![];
        let mut b = [0u8; 1];
        loop {
            let mut p = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if v.is_empty() && unsafe { libc::poll(&mut p, 1, 30_000) } <= 0 { return None; }
            match self.from.read(&mut b) { Ok(1) => if b[0] == b'\n' { return String::from_utf8(v).ok() } else { v.push(b[0]) }, _ => return Some("X -1".into()) }
        }
    }
    fn send(&mut self, s: &str) { self.to.write_all(format!("{s}\n").as_bytes()).ok(); }
}
thread_local! { static SRV: RefCell<[Option<Server>; 2]> = const { RefCell::new([None, None]) }; }

pub struct Exec { pub out: Vec<(usize, String)>, pub blocked: bool, pub accesses: u64, pub shared: u64, trail: Value }
/// Run one execution; its choices are `cx`'s.
fn execute(cx: Option<&Cx>, req: &Value) -> Result<Exec, Fail> {
    let traced = req["mode"] == "threads";
    let mut srv = SRV.with(|s| s.borrow_mut()[traced as usize].take()).unwrap_or_else(|| Server::start(traced));
    srv.send(&req.to_string());
    let mut ex = Exec { out: vec![], blocked: false, accesses: 0, shared: 0, trail: Value::Null };
    let mut got = false;
    loop {
        let Some(l) = srv.line() else { return fail("stuck", format!("the operations did not finish: {req}")) };
        let mut w = l.splitn(3, ' ');
        match w.next().unwrap_or("") {
            k @ ("D" | "C") => {
                let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(1);
                let label: &'static str = match w.next().unwrap_or("") { "preempt" => "preempt", "next thread" => "next thread", "first thread" => "first thread", "nested operation" => "nested operation", _ => "choice" };
                let c = match cx { Some(cx) if k == "D" => cx.dev(label, n), Some(cx) => cx.choose(label, n), None => 0 };
                srv.send(&c.to_string());
            }
            "P" => { ex.accesses = w.next().and_then(|x| x.parse().ok()).unwrap_or(0); ex.shared = w.next().and_then(|x| x.parse().ok()).unwrap_or(0); }
            "B" => ex.blocked = true,
            "R" => {
                let v: Value = serde_json::from_str(l.strip_prefix("R ").unwrap_or("")).unwrap_or(Value::Null);
                ex.out = v["out"].as_array().map(|a| a.iter().map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_str().unwrap().to_string())).collect()).unwrap_or_default();
                ex.trail = v["trail"].clone();
                got = true;
            }
            _ => {
                if !got { return fail("died", format!("the process died ({l}) running {req}")); }
                SRV.with(|s| s.borrow_mut()[traced as usize] = Some(srv));
                return Ok(ex);
            }
        }
    }
}
fn judge(ex: &Exec, alone: &[String], what: &str) -> Res {
    for (o, r) in &ex.out {
        if *r != alone[*o] { return fail("influenced", format!("{what}: `{}` gives {r:?}, alone {:?} {}", name(*o), alone[*o], ex.trail)); }
    }
    Ok(())
}
fn names(v: &[usize]) -> String { v.iter().map(|o| name(*o)).collect::<Vec<_>>().join(", then ") }

fn c19(cfg: &Cfg) -> Vec<Part> {
    let all: Vec<usize> = (0..OPS.len() + SHARED.len()).collect();
    let core: Vec<usize> = CORE.iter().copied().chain(OPS.len()..OPS.len() + SHARED.len()).collect();
    let alone: Arc<Vec<String>> = Arc::new(all.iter().map(|o| execute(None, &json!({"mode": "seq", "ops": [o]})).ok().and_then(|e| e.out.into_iter().next()).map(|x| x.1).unwrap_or_else(|| "died".into())).collect());
    let mut parts = vec![];
    let al = alone.clone();
    parts.push(part("alone", 0, move |cx| {
        let o = cx.choose("operation", OPS.len() + SHARED.len());
        let bin = cx.choose("build", 2);
        let ex = if bin == 0 { execute(Some(cx), &json!({"mode": "seq", "ops": [o]}))? } else { execute(Some(cx), &json!({"mode": "threads", "threads": [[o]]}))? };
        cx.saw((o, bin));
        cx.note(|| format!("{} -> {}", name(o), al[o]));
        judge(&ex, &al, "alone again")
    }));
    let mut seq = |title: &str, ops: Vec<usize>, depth: usize| {
        let al = alone.clone();
        parts.push(part(format!("{title}, depth {depth}"), 0, move |cx| {
            let v: Vec<usize> = (0..depth).map(|_| *cx.pick("operation", &ops)).collect();
            let ex = execute(Some(cx), &json!({"mode": "seq", "ops": v}))?;
            cx.saw(&v);
            if ex.out.len() != depth { return fail("died", format!("{} outcomes", ex.out.len())); }
            judge(&ex, &al, &names(&v))
        }));
    };
    seq("sequences of all operations", all.clone(), 2);
    if cfg.thorough { seq("sequences of all operations", all.clone(), 3); seq("sequences of core operations", core.clone(), 4); } else { seq("sequences of core operations", core.clone(), 3); }
    let al = alone.clone();
    let a2 = all.clone();
    let reps = cfg.t(12, 120);
    parts.push(part("long histories", 0, move |cx| {
        let rot = cx.choose("rotation", a2.len());
        let v: Vec<usize> = if cx.flag("one operation only") { vec![rot] } else { let mut v = a2.clone(); v.rotate_left(rot); v };
        let n = if v.len() == 1 { reps * 100 } else { reps };
        let ex = execute(Some(cx), &json!({"mode": "seq", "ops": v, "reps": n}))?;
        cx.saw((rot, v.len()));
        judge(&ex, &al, "a long history")
    }).timeout(300));
    let mut nest = |title: &str, outer: Vec<usize>, menu: Vec<usize>, depth: usize, bound: usize| {
        let al = alone.clone();
        parts.push(part(format!("{title}, up to {bound} nested"), bound, move |cx| {
            let o = *cx.pick("outer operation", &outer);
            let ex = execute(Some(cx), &json!({"mode": "nest", "ops": [o, o], "menu": menu, "depth": depth}))?;
            cx.saw((o, ex.out.iter().map(|x| x.0).collect::<Vec<_>>(), cx.devs()));
            judge(&ex, &al, &format!("`{}` with nested operations", name(o)))
        }));
    };
    nest("nesting of all operations", all.clone(), all.clone(), 1, 1);
    nest("nesting of core operations", core.clone(), cfg.t(vec![0, 4, 8, 22, OPS.len()], core.clone()), 2, 2);
    let mut thr = |title: &str, ops: Vec<usize>, n: usize, len: usize, bound: usize| {
        let al = alone.clone();
        parts.push(part(format!("{title}, {n} threads of {len}, preemption bound {bound}"), bound, move |cx| {
            let mut t: Vec<Vec<usize>> = vec![];
            let mut lo = 0;
            for _ in 0..n {
                let mut v = vec![];
                for j in 0..len {
                    if j == 0 { let i = lo + cx.choose("operation", ops.len() - lo); lo = i; v.push(ops[i]); } else { v.push(*cx.pick("operation", &ops)); }
                }
                t.push(v);
            }
            let ex = execute(Some(cx), &json!({"mode": "threads", "threads": t}))?;
            extra_max("memory accesses traced in one pair of operations", ex.accesses);
            extra_max("8-byte words of memory shared by a pair of operations, one writing", ex.shared);
            extra_add("executions given up because a thread waited for a lock", ex.blocked as u64);
            cx.note(|| format!("{} traced accesses, {} shared words, trail {}", ex.accesses, ex.shared, ex.trail));
            cx.saw((&t, ex.out.len(), ex.trail.to_string(), ex.shared, ex.accesses > 0));
            if ex.blocked { cx.abandon(); }
            judge(&ex, &al, &t.iter().map(|v| names(v)).collect::<Vec<_>>().join(" || "))
        }));
    };
    thr("threads over core operations", core.clone(), 2, 1, cfg.t(2, 3));
    thr("threads over all operations", all.clone(), 2, 1, cfg.t(1, 2));
    if cfg.thorough {
        thr("threads over few operations", vec![0, 4, 8, 12, 22, OPS.len(), OPS.len() + 1], 3, 1, 2);
        thr("threads over few operations", vec![0, 8, 22, OPS.len()], 2, 2, 2);
    } else {
        thr("threads over few operations", vec![0, 8, 22, OPS.len() + 1], 3, 1, 1);
    }
    parts.push(near());
    parts
}
/// Right after something genuine, its near misses: what was established before must
/// not count for them.
fn near() -> Part {
    part("near misses after genuine operations", 0, move |cx| {
        let kind = cx.choose("operation", 4);
        let (k, o) = (Key::nth(1919), Key::nth(1920).with_keynum(Key::nth(1919).keynum));
        // every way to be nearly `a`: another bit, or some of `b` from or up to a position
        let ways = |n: usize| 8 * n + 2 * n;
        let nearly = |a: &[u8], b: &[u8], w: usize| -> Vec<u8> {
            let (n, mut v) = (a.len(), a.to_vec());
            if w < 8 * n { v[w / 8] ^= 1 << (w % 8); } else if w < 9 * n { v[w - 8 * n..].copy_from_slice(&b[w - 8 * n..]); } else { v[..=w - 9 * n].copy_from_slice(&b[..=w - 9 * n]); }
            v
        };
        let text = |r: std::result::Result<String, minisign::PError>| r.unwrap_or_else(|e| format!("error: {e}"));
        match kind {
            0 | 1 => {
                let alg = [ALG_PREHASHED, ALG_LEGACY][kind];
                let (d, e) = (data(1, 150), data(2, 150));
                let (tc, uc) = ("the trusted comment of the first", "the other comment, of the second");
                let f = SigFile::make(&k, alg, &d, "u", tc, b"1");
                let g = SigFile::make(&o, alg, &e, "u", uc, b"2");
                let check = |pk: &[u8], f: &SigFile, d: &[u8]| -> std::result::Result<(), minisign::PError> {
                    let pk = minisign::PublicKey::from_bytes(pk)?;
                    minisign::verify(&pk, &minisign::SignatureBox::from_string(&f.text())?, std::io::Cursor::new(d), true, false, true)
                };
                let bones = |pk: &[u8], f: &SigFile, d: &[u8]| -> std::result::Result<(), minisign::PError> {
                    let pk = minisign::PublicKey::from_bytes(pk)?;
                    minisign::verify(&pk, &minisign::SignatureBones::from_bytes(&f.sig_bytes())?.into(), std::io::Cursor::new(d), true, false, true)
                };
                let part = cx.choose("altered", 5);
                let len = [42, 74, 64, d.len(), tc.len()][part];
                let w = cx.choose("way", ways(len));
                let (mut pk, mut f2, mut d2) = (k.pk_bytes(), f.clone(), d.clone());
                match part {
                    0 => pk = nearly(&pk, &o.pk_bytes(), w),
                    1 => { let b = nearly(&f.sig_bytes(), &g.sig_bytes(), w); f2.alg = [b[0], b[1]]; f2.keynum = b[2..10].try_into().unwrap(); f2.sig = b[10..].try_into().unwrap(); }
                    2 => f2.global = nearly(&f.global, &g.global, w),
                    3 => d2 = nearly(&d, &e, w),
                    _ => match String::from_utf8(nearly(tc.as_bytes(), uc.as_bytes(), w)) { Ok(t) if !t.contains(['\n', '\r']) => f2.trusted = t, _ => return Ok(()) },
                }
                // (the algorithm identifier of a public key is not examined when verifying)
                if pk[2..] == k.pk_bytes()[2..] && f2 == f && d2 == d { return Ok(()); }
                cx.saw((kind, part, w));
                for round in 0..2 {
                    if let Err(e) = check(&k.pk_bytes(), &f, &d) { return fail("influenced", format!("the genuine signature is refused in round {round} (part {part}, way {w}): {e}")); }
                    if check(&pk, &f2, &d2).is_ok() { return fail("influenced", format!("a near miss is accepted after the genuine verification (algorithm {alg:?}, part {part}, way {w})")); }
                    // and refused first, asked again
                    if check(&pk, &f2, &d2).is_ok() { return fail("influenced", format!("a near miss is accepted when asked again (algorithm {alg:?}, part {part}, way {w})")); }
                    if part != 2 && part != 4 {
                        if let Err(e) = bones(&k.pk_bytes(), &f, &d) { return fail("influenced", format!("the genuine bare signature is refused in round {round} (part {part}, way {w}): {e}")); }
                        if bones(&pk, &f2, &d2).is_ok() { return fail("influenced", format!("a near miss without comment is accepted after the genuine verification (algorithm {alg:?}, part {part}, way {w})")); }
                    }
                }
                Ok(())
            }
            2 => {
                // opening a key with nearly the right password or from nearly the same file
                let pw = "the right password, 32 bytes long";
                let b = k.sk_enc_bytes(KdfKind::Ideal, pw, &[7; 32], 1 << 20, 1 << 25).unwrap();
                let c = o.sk_enc_bytes(KdfKind::Ideal, "another", &[9; 32], 1 << 20, 1 << 25).unwrap();
                let in_pw = cx.flag("password altered");
                let w = cx.choose("way", if in_pw { ways(pw.len()) } else { ways(b.len()) });
                let (mut b2, mut pw2) = (b.clone(), pw.to_string());
                if in_pw { match String::from_utf8(nearly(pw.as_bytes(), b"the wrong password, 32 byte sHORT", w)) { Ok(p) => pw2 = p, _ => return Ok(()) } } else { b2 = nearly(&b, &c, w); }
                if b2 == b && pw2 == pw { return Ok(()); }
                cx.saw((kind, in_pw, w));
                let open = |b: &[u8], p: &str| text(minisign::SecretKeyBox::from(format!("untrusted comment: c\n{}\n", b64(b))).into_secret_key(Some(p.into())).map(|s| hex(&s.to_bytes()[..158])));
                let expected = open_sk_bytes(&b2, Some(&pw2), KdfKind::Ideal).is_some();
                for round in 0..2 {
                    let good = open(&b, pw);
                    if good.starts_with("error") { return fail("influenced", format!("the right password is refused in round {round} (way {w}): {good}")); }
                    for again in 0..2 {
                        let bad = open(&b2, &pw2);
                        if bad.starts_with("error") == expected { return fail("influenced", format!("after the right one, a near miss ({}, way {w}, asked {} times) gives {bad}", if in_pw { "password" } else { "file" }, again + 1)); }
                    }
                }
                Ok(())
            }
            _ => {
                // signing with nearly the same secret key, for nearly the same data
                let d = data(1, 150);
                let part = cx.choose("altered", 3);
                let len = [32, d.len(), 24][part];
                let w = cx.choose("way", ways(len));
                let tc = "a comment of 24 bytes...";
                let (mut k2, mut d2, mut tc2) = (k.clone(), d.clone(), tc.to_string());
                match part {
                    0 => k2 = Key::new(nearly(&k.seed, &o.seed, w).try_into().unwrap(), k.keynum),
                    1 => d2 = nearly(&d, &data(2, 150), w),
                    _ => match String::from_utf8(nearly(tc.as_bytes(), b"another, also 24 bytes..", w)) { Ok(t) if !t.contains(['\n', '\r']) => tc2 = t, _ => return Ok(()) },
                }
                cx.saw((kind, part, w));
                let sign = |k: &Key, d: &[u8], t: &str| -> std::result::Result<SigFile, Fail> {
                    let (_g, _l) = crate::env::rng_seed(19);
                    let s = text(minisign::sign(None, &crate::env::sk_of(k)?, std::io::Cursor::new(d), Some(t), Some("u")).map(|b| b.to_string()));
                    match SigFile::parse(&s) { Ok(Some(f)) => Ok(f), _ => fail("influenced", format!("signing gives {s:?}"))? }
                };
                for (who, key, dd, t) in [("first", &k, &d, tc), ("near miss", &k2, &d2, &tc2[..]), ("first again", &k, &d, tc)] {
                    let f = sign(key, dd, t)?;
                    if f.keynum != key.keynum || f.trusted != t || !f.verifies(key, dd, false) { return fail("influenced", format!("the {who} signature is wrong (part {part}, way {w}): {}", f.text())); }
                }
                Ok(())
            }
        }
    }).serial().timeout(300)
}

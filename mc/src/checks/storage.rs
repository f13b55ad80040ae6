//! C07, C08, C10, C11, C25, C26: formats, damage, hostile input, metadata, comparison.
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use minisign::{sign, verify, KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;

pub fn checks() -> Vec<CheckDef> {
    vec![
        CheckDef { id: "C07", level: "model_checking", rule: "every byte value at every position of both signatures, deviation-bounded product of metadata, and a complete line grammar; parsed fields, refusals and re-stored text compared with the reference parser", assumptions: &["text after the fourth line and blanks around base64 fields are outside the property"], parts: c07 },
        CheckDef { id: "C08", level: "model_checking", rule: "every byte value at every position of public and secret keys through every stored form; every input length; every character edit; compared with the reference encoder", assumptions: &[], parts: c08 },
        CheckDef { id: "C10", level: "model_checking", rule: "every single-byte change, paired changes, truncation, extension, splice and text edit of stored keys; the result must be an error or the original key", assumptions: &["the checksum of unprotected keys is not a MAC: deliberate recomputation of it is outside the property"], parts: c10 },
        CheckDef { id: "C11", level: "model_checking", rule: "hostile texts/bytes from complete edit grammars through each parser, then every operation on what was parsed; non-trivial: distinct inputs, parsed or refused", assumptions: &["conversions documented as panicking (From<String> for SignatureBox, From<PublicKeyBox> for PublicKey, to_string of a comment-less container) are not parsers of hostile input", "resource use is bounded by C18"], parts: c11 },
        CheckDef { id: "C25", level: "model_checking", rule: "every comment of the alphabet and every character at each end, for signing and for storing; defaults against the clock read before and after", assumptions: &["the system clock is read around the call; a signature's time must lie between the two readings"], parts: c25 },
        CheckDef { id: "C26", level: "model_checking", rule: "every byte value difference at each position and pairs of positions with cancelling differences; equality iff material equal, symmetric, for all loading routes", assumptions: &[], parts: c26 },
    ]
}

// ---------------------------------------------------------------------- C07
fn same_fields(b: &SignatureBox, f: &SigFile, what: &str) -> Res {
    let (u, t) = (b.untrusted_comment().must("untrusted comment")?, b.trusted_comment().must("trusted comment")?);
    if u != f.untrusted { return fail("field-changed", format!("{what}: untrusted comment {u:?} instead of {:?}", f.untrusted)); }
    if t != f.trusted { return fail("field-changed", format!("{what}: trusted comment {t:?} instead of {:?}", f.trusted)); }
    if b.keynum() != f.keynum { return fail("field-changed", format!("{what}: identifier {}", hex(b.keynum()))); }
    if b.is_prehashed() != (f.alg == ALG_PREHASHED) { return fail("field-changed", format!("{what}: algorithm")); }
    let bones = SignatureBones::from(b.clone());
    if bones.to_bytes() != f.sig_bytes() || bones.is_prehashed() != b.is_prehashed() { return fail("field-changed", format!("{what}: signature bytes {}", hex(&bones.to_bytes()))); }
    if b.to_string() != f.text() { return fail("text-changed", format!("{what}: stored again as {:?} instead of {:?}", b.to_string(), f.text())); }
    Ok(())
}
fn c07_round(cx: &Cx, f: &SigFile, files: bool) -> Res {
    let text = f.text();
    let b = SignatureBox::from_string(&text).must("reading a well-formed signature")?;
    cx.saw((&text, files));
    same_fields(&b, f, "from text")?;
    same_fields(&SignatureBox::from_string(&crlf(&text)).must("reading CRLF text")?, f, "from CRLF text")?;
    same_fields(&SignatureBox::from_string(text.strip_suffix('\n').unwrap()).must("reading text without final newline")?, f, "without final newline")?;
    if b.to_bytes() != text.as_bytes() || b.clone().into_string() != text || String::from(b.clone()) != text { return fail("text-changed", "the text forms of a container differ"); }
    same_fields(&SignatureBox::from(text.clone()), f, "From<String>")?;
    if files {
        for t in [text.clone(), crlf(&text)] {
            let tf = TempFile::new(t.as_bytes());
            same_fields(&SignatureBox::from_file(&tf.0).must("reading a signature file")?, f, "from file")?;
        }
    }
    let bones = SignatureBones::from_bytes(&f.sig_bytes()).must("reading the comment-less form")?;
    if bones.to_bytes() != f.sig_bytes() || bones.is_prehashed() != (f.alg == ALG_PREHASHED) { return fail("field-changed", "comment-less form"); }
    let bb = SignatureBox::from(bones);
    if bb.keynum() != f.keynum || SignatureBones::from(bb).to_bytes() != f.sig_bytes() { return fail("field-changed", "comment-less form"); }
    Ok(())
}
/// Reads of files answered with pieces, interruptions and errors.
fn disturbed_reads(cx: &Cx) -> (SysGuard, Rc<Cell<bool>>) {
    const ERRNO: [i32; 8] = [libc::EIO, libc::EAGAIN, libc::EISDIR, libc::EBADF, libc::EINVAL, libc::ENOMEM, libc::ESTALE, libc::ETIMEDOUT];
    let hard = Rc::new(Cell::new(false));
    let (h, cx2) = (hard.clone(), cx.clone());
    let steady = *cx.devpick("every read at most", &[usize::MAX, 1, 7, 100]);
    let (mut calls, mut quiet) = (0, 0);
    let g = sys(move |w, _, n| {
        if w { return Sys::Upto(n); }
        calls += 1;
        if calls > 200_000 { panic!("reading without end"); }
        // (decisions at the first reads, then at every hundredth)
        quiet += 1;
        let c = if calls <= 6 || quiet % 100 == 0 { cx2.dev("read", 4 + ERRNO.len()) } else { 0 };
        match c {
            0 => Sys::Upto(steady),
            1 => Sys::Upto(1),
            2 => Sys::Upto((n / 2).clamp(1, 50)),
            3 => Sys::Errno(libc::EINTR),
            i => { h.set(true); Sys::Errno(ERRNO[i - 4]) }
        }
    });
    (g, hard)
}
fn judge_file(cx: &Cx, what: usize, hard: bool, ok: bool) -> Res {
    cx.saw((what, hard, ok, cx.trace().iter().map(|t| t.c).collect::<Vec<_>>()));
    if hard && ok { return fail("failure-ignored", "a file that could not be read completely was accepted".to_string()); }
    if !hard && !ok { return fail("delivery-matters", "a file delivered in pieces was refused".to_string()); }
    Ok(())
}
fn c07(cfg: &Cfg) -> Vec<Part> {
    let (coms, kns) = (comments(), keynums());
    let p1 = part("metadata product", cfg.t(2, 4), move |cx| {
        let pat = |i: usize| match i { 0 => data(7, 64), 1 => vec![0; 64], 2 => vec![0xff; 64], _ => (0..64u8).collect() };
        let f = SigFile {
            untrusted: cx.devpick("untrusted", &coms).clone(), trusted: cx.devpick("trusted", &coms).clone(),
            alg: *cx.devpick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]), keynum: *cx.devpick("keynum", &kns),
            sig: pat(cx.dev("signature", 4)).try_into().unwrap(), global: pat(cx.dev("comment-signature", 4)),
        };
        c07_round(cx, &f, true)
    });
    let p2 = part("every byte value", 0, move |cx| {
        let mut f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        let pos = cx.choose("position", 8 + 64 + 64);
        let x = cx.choose("value", 256) as u8;
        match pos { 0..=7 => f.keynum[pos] = x, 8..=71 => f.sig[pos - 8] = x, _ => f.global[pos - 72] = x }
        c07_round(cx, &f, false)
    });
    let full = cfg.thorough;
    let p10 = part("every character of Unicode", 0, move |cx| {
        let i = cx.choose("pack", PACKS);
        let mut f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        f.trusted = pack(i);
        f.untrusted = pack(PACKS - 1 - i);
        c07_round(cx, &f, i % 16 == 0)
    });
    let p3 = part("every character", 0, move |cx| {
        let Some(c) = nth_char(full, cx.choose("char", nchars(full))) else { return Ok(()) };
        let pos = cx.choose("position", 3);
        if c == '\n' || c == '\r' && pos == 2 { return Ok(()) }
        let s = match pos { 0 => format!("{c}ab"), 1 => format!("a{c}b"), _ => format!("ab{c}") };
        let mut f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        if cx.flag("untrusted") { f.untrusted = s } else { f.trusted = s }
        c07_round(cx, &f, false)
    });
    let p4 = part("line grammar", 0, move |cx| {
        let f = SigFile::make(&Key::nth(7), *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]), b"d", "u", "t", b"");
        let g = f.lines();
        let sb = f.sig_bytes();
        let l1 = [g[0].as_str(), "untrusted comment: ", "untrusted comment:", "Untrusted comment: u", "trusted comment: t", "", " untrusted comment: u", "u"];
        let mut bad_alg = sb.clone(); bad_alg[0] = b'e';
        let l2 = [g[1].clone(), b64(&sb[..73]), b64(&[&sb[..], b"x"].concat()), b64(&[&sb[..], b"xyz"].concat()), b64(&bad_alg), g[1].replace('=', ""), format!("{}=", g[1]), g[1].replacen('U', "-", 1).replacen('W', "-", 1), String::new(), "!".repeat(100), b64(&sb[..10]), g[0].clone()];
        let l3 = [g[2].as_str(), "trusted comment: ", "trusted comment:", "Trusted comment: t", "untrusted comment: u", "", " trusted comment: t"];
        let gl = &f.global;
        let l4 = [g[3].clone(), b64(&gl[..63]), b64(&gl[..32]), b64(&[&gl[..], b"x"].concat()), b64(&[&gl[..], &gl[..]].concat()), String::new(), g[3].replace('=', ""), "*".repeat(88), b64(b"")];
        let mut ls = vec![cx.pick("line1", &l1).to_string(), cx.pick("line2", &l2).clone(), cx.pick("line3", &l3).to_string(), cx.pick("line4", &l4).clone()];
        let ending = cx.choose("ending", 4);
        let shape = cx.choose("shape", 13);
        match shape {
            0 => {}
            1..=4 => { ls.remove(shape - 1); }
            5..=7 => { ls.swap(shape - 5, shape - 4); }
            8..=11 => { ls.insert(shape - 8, String::new()); }
            _ => ls.truncate(1),
        }
        let text = match ending { 0 => ls.join("\n") + "\n", 1 => ls.join("\r\n") + "\r\n", 2 => ls.join("\n"), _ => ls.join("\r") + "\r" };
        let Ok(want) = SigFile::parse(&text) else { return Ok(()) };
        let got = SignatureBox::from_string(&text);
        cx.saw((&text, got.is_ok()));
        match (got, want) {
            (Ok(b), Some(w)) => same_fields(&b, &w, "from grammar text"),
            (Err(_), None) => Ok(()),
            (Ok(_), None) => fail("malformed-accepted", format!("malformed text was read as a signature: {text:?}")),
            (Err(e), Some(_)) => fail("wellformed-refused", format!("well-formed text refused ({e}): {text:?}")),
        }
    });
    // files: same as memory; unreadable ones are errors
    let p5 = part("files", 0, move |cx| {
        let f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        let mut t = f.text().into_bytes();
        let kind = cx.choose("kind", 6);
        match kind {
            0 => { let n = cx.choose("truncate", t.len() + 1); t.truncate(n) }
            1 => { let i = cx.choose("position", t.len()); t[i] = 0xff }
            2 => t.clear(),
            3 => { let i = cx.choose("position", t.len()); t[i] = b'\n' }
            _ => {}
        }
        if kind == 4 {
            cx.saw("missing");
            return if SignatureBox::from_file("/nonexistent/minisign/file").is_ok() { fail("malformed-accepted", "a missing file was read") } else { Ok(()) };
        }
        if kind == 5 {
            cx.saw("directory");
            return if SignatureBox::from_file("/").is_ok() { fail("malformed-accepted", "a directory was read") } else { Ok(()) };
        }
        let tf = TempFile::new(&t);
        let got = SignatureBox::from_file(&tf.0);
        let mem = std::str::from_utf8(&t).ok().map(SignatureBox::from_string);
        cx.saw((&t, got.is_ok()));
        match (got, mem) {
            (Ok(_), None) => fail("malformed-accepted", "a file that is not text was read as a signature"),
            (Err(_), None) | (Err(_), Some(Err(_))) => Ok(()),
            (Ok(a), Some(Ok(b))) if a.to_string() == b.to_string() => Ok(()),
            _ => fail("file-differs", format!("file and memory disagree on {:?}", String::from_utf8_lossy(&t))),
        }
    });
    let p9 = part("files that are delivered in pieces or fail", cfg.t(2, 3), move |cx| {
        let mut f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        match cx.choose("size", 3) { 0 => {} 1 => f.trusted = long_line(300), _ => f.untrusted = long_line(9000) }
        let tf = TempFile::new(f.text().as_bytes());
        let (g, hard) = disturbed_reads(cx);
        let r = SignatureBox::from_file(&tf.0);
        drop(g);
        judge_file(cx, f.text().len(), hard.get(), r.is_ok())?;
        match r { Ok(b) => same_fields(&b, &f, "read from a file in pieces"), Err(_) => Ok(()) }
    });
    // the library's own containers
    let (coms, lens) = (comments(), lengths(false));
    let p6 = part("own signatures", 2, move |cx| {
        let (_g, _) = rng_seed(cx.dev("randomness", 20) as u64);
        let (u, t) = (cx.devpick("untrusted", &coms), cx.devpick("trusted", &coms));
        let d = data(1, *cx.devpick("length", &lens));
        let b = sign(None, &sk_of(&Key::nth(8))?, &d[..], Some(t), Some(u)).must("signing")?;
        let text = b.to_string();
        cx.saw(&text);
        let f = match SigFile::parse(&text) { Ok(Some(f)) => f, _ => return fail("text-changed", format!("own text is not well-formed: {text:?}")) };
        if f.trusted != *t || f.untrusted != *u { return fail("field-changed", format!("stored comments {:?}/{:?} instead of {u:?}/{t:?}", f.untrusted, f.trusted)); }
        same_fields(&b, &f, "fresh")?;
        c07_round(cx, &f, true)
    });
    let top = cfg.t(18, 22);
    let p7 = part("long comments", 0, move |cx| {
        let mut f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        let l = long_line(*cx.pick("length", &doublings(9, top)));
        match cx.choose("which", 3) { 0 => f.untrusted = l, 1 => f.trusted = l, _ => { f.untrusted = l.clone(); f.trusted = l } }
        c07_round(cx, &f, true)
    });
    // comments that look like the other lines of the file, under each prefix
    let p8 = part("comments that look like other parts", 0, move |cx| {
        let f0 = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        let g = f0.lines();
        let mut v: Vec<String> = vec![g[0].clone(), g[1].clone(), g[2].clone(), g[3].clone(), "untrusted comment: ".into(), "trusted comment: ".into(), "untrusted comment:".into(), "trusted comment:".into(), "trusted comment".into(), "comment: x".into(), "\u{feff}untrusted comment: x".into(), "signature from rsign secret key".into(), "timestamp:0".into(), "-----BEGIN".into(), "#".into(), "\\n".into(), "\\".into(), "\"".into(), "'".into(), "%s%n".into()];
        for i in 1..16 { v.push("untrusted comment: x"[..i].to_string()); v.push("trusted comment: x"[..i].to_string()); v.push("untrusted comment: x"[20 - i..].to_string()); }
        let mut f = f0.clone();
        let (i, j) = (cx.choose("untrusted", v.len()), cx.choose("trusted", v.len()));
        f.untrusted = v[i].clone();
        f.trusted = v[j].clone();
        c07_round(cx, &f, false)
    });
    let rs = runs();
    let p11 = part("runs of characters", 0, move |cx| {
        let i = cx.choose("line", rs.len());
        let mut f = SigFile::make(&Key::nth(7), ALG_PREHASHED, b"d", "u", "t", b"");
        f.trusted = rs[i].clone();
        f.untrusted = rs[rs.len() - 1 - i].clone();
        c07_round(cx, &f, i % 8 == 0)
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11]
}

// ---------------------------------------------------------------------- C08
fn pk_forms(cx: &Cx, k: &Key) -> Res {
    let b = k.pk_bytes();
    let pk = PublicKey::from_bytes(&b).must("reading public key bytes")?;
    cx.saw(&b);
    let same = |p: &PublicKey, w: &str| -> Res {
        if p.to_bytes() != b || p.keynum() != k.keynum { return fail("pk-changed", format!("{w}: {} instead of {}", hex(&p.to_bytes()), hex(&b))); }
        Ok(())
    };
    same(&pk, "bytes")?;
    same(&pk.clone(), "clone")?;
    if pk.to_base64() != k.pk_b64() { return fail("pk-form", format!("base64 {} instead of {}", pk.to_base64(), k.pk_b64())); }
    same(&PublicKey::from_base64(&k.pk_b64()).must("reading base64")?, "base64")?;
    let bx = pk.to_box().must("boxing")?;
    if bx.to_string() != k.pk_box() || bx.to_bytes() != k.pk_box().as_bytes() || bx.clone().into_string() != k.pk_box() || String::from(bx.clone()) != k.pk_box() {
        return fail("pk-form", format!("box {:?} instead of {:?}", bx.to_string(), k.pk_box()));
    }
    same(&bx.clone().into_public_key().must("reading a box")?, "box")?;
    same(&PublicKey::from_box(bx.clone()).must("reading a box")?, "box")?;
    same(&PublicKey::from(bx), "box")?;
    for t in [k.pk_box(), crlf(&k.pk_box()), k.pk_box().trim_end().to_string()] {
        same(&PublicKeyBox::from_string(&t).must("boxing")?.into_public_key().must("reading a box")?, "box text")?;
    }
    Ok(())
}
fn usable_pk(pk: &[u8; 32]) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(*pk).decompress().is_some_and(|p| !p.is_small_order())
}
fn sk_forms(cx: &Cx, k: &Key, comment: Option<&str>) -> Res {
    let b = k.sk_plain_bytes();
    let sk = SecretKey::from_bytes(&b).must("reading secret key bytes")?;
    cx.saw((&b, comment));
    let same = |s: &SecretKey, w: &str| -> Res {
        if s.to_bytes() != b || s.keynum() != k.keynum { return fail("sk-changed", format!("{w}: {} instead of {}", hex(&s.to_bytes()), hex(&b))); }
        Ok(())
    };
    same(&sk, "bytes")?;
    same(&sk.clone(), "clone")?;
    let want = format!("untrusted comment: {}\n{}\n", comment.unwrap_or("rsign encrypted secret key"), b64(&b));
    let bx = sk.to_box(comment).must("boxing")?;
    if bx.to_string() != want || bx.to_bytes() != want.as_bytes() || bx.clone().into_string() != want || String::from(bx.clone()) != want { return fail("sk-form", format!("box {:?} instead of {want:?}", bx.to_string())); }
    same(&bx.clone().into_unencrypted_secret_key().must("reading a box")?, "box")?;
    same(&SecretKey::from_unencrypted_box(bx).must("reading a box")?, "box")?;
    for t in [want.clone(), crlf(&want), want.trim_end().to_string()] {
        same(&SecretKeyBox::from_string(&t).must("boxing")?.into_unencrypted_secret_key().must("reading a box")?, "box text")?;
        same(&SecretKeyBox::from(t).into_unencrypted_secret_key().must("reading a box")?, "box text")?;
    }
    Ok(())
}
fn c08(cfg: &Cfg) -> Vec<Part> {
    let p1 = part("public keys, every byte value", 0, |cx| {
        let mut k = Key::nth(80);
        let (pos, x) = (cx.choose("position", 40), cx.choose("value", 256) as u8);
        if pos < 8 { k.keynum[pos] = x } else { k.pk[pos - 8] = x }
        // refusing what is no usable key at all would be fine
        if !usable_pk(&k.pk) && PublicKey::from_bytes(&k.pk_bytes()).is_err() { cx.saw((pos, x)); return Ok(()) }
        pk_forms(cx, &k)
    });
    let kns = keynums();
    let nk = cfg.t(200, 4000);
    let kns1 = kns.clone();
    let p2 = part("keys and identifiers", 0, move |cx| {
        let k = Key::nth(cx.choose("key", nk) as u64);
        let k = match cx.choose("keynum", kns1.len() + 1) { 0 => k, i => k.with_keynum(kns1[i - 1]) };
        pk_forms(cx, &k)?;
        sk_forms(cx, &k, None)
    });
    let p3 = part("secret keys, every byte value", 0, |cx| {
        let mut b = Key::nth(81).sk_plain_bytes();
        let (pos, x) = (cx.choose("position", 158), cx.choose("value", 256) as u8);
        b[pos] = x;
        let r = SecretKey::from_bytes(&b);
        cx.saw((pos, x, r.is_ok()));
        let Ok(sk) = r else { return if (6..158).contains(&pos) { fail("sk-changed", "raw secret key refused") } else { Ok(()) } };
        if sk.to_bytes() != b { return fail("sk-changed", format!("byte {pos} = {x:#x}: stored again as {}", hex(&sk.to_bytes()))); }
        if sk.keynum() != &b[54..62] { return fail("sk-changed", "identifier"); }
        let t = sk.to_box(Some("c")).must("boxing")?.into_string();
        if t != format!("untrusted comment: c\n{}\n", b64(&b)) { return fail("sk-form", t); }
        Ok(())
    });
    let coms = [comments(), runs()].concat();
    let p4 = part("box comments", 0, move |cx| {
        let i = cx.choose("comment", coms.len() + 256 + PACKS);
        let c = if i < coms.len() { coms[i].clone() } else if i < coms.len() + 256 { format!("x{}y", (i - coms.len()) as u8 as char) } else { pack(i - coms.len() - 256) };
        if c.contains('\n') { return Ok(()) }
        let k = Key::nth(82);
        sk_forms(cx, &k, Some(&c))?;
        // public keys under any comment line
        for t in [format!("untrusted comment: {c}\n{}\n", k.pk_b64()), format!("untrusted comment: {c}\r\n{}\r\n", k.pk_b64())] {
            let p = PublicKeyBox::from_string(&t).must("boxing")?.into_public_key().must("reading a commented public key")?;
            if p.to_bytes() != k.pk_bytes() { return fail("pk-changed", format!("under comment {c:?}")); }
            let tf = TempFile::new(t.as_bytes());
            if PublicKey::from_file(&tf.0).must("reading a public key file")?.to_bytes() != k.pk_bytes() { return fail("pk-changed", format!("file with comment {c:?}")); }
        }
        let enc = k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap();
        for t in [format!("untrusted comment: {c}\n{}\n", b64(&enc)), format!("untrusted comment: {c}\r\n{}\r\n", b64(&enc))] {
            let tf = TempFile::new(t.as_bytes());
            check_same_key(&SecretKey::from_file(&tf.0, Some("pw".into())).must("opening a protected key file")?, &k, "protected file")?;
        }
        Ok(())
    });
    let p5 = part("every input length", 0, |cx| {
        let k = Key::nth(83);
        let n = cx.choose("length", 230);
        let fill = *cx.pick("fill", &[0u8, 0xff, b'=', b'A']);
        let mut b = k.pk_bytes();
        b.resize(n, fill);
        let r = PublicKey::from_bytes(&b).is_ok();
        let r64 = PublicKey::from_base64(&b64(&b)).is_ok();
        let rbox = PublicKeyBox::from(format!("untrusted comment: c\n{}\n", b64(&b))).into_public_key().is_ok();
        let mut s = k.sk_plain_bytes();
        s.resize(n, fill);
        let sr = SecretKey::from_bytes(&s).is_ok();
        let sbox = SecretKeyBox::from(format!("untrusted comment: c\n{}\n", b64(&s))).into_unencrypted_secret_key().is_ok();
        cx.saw((n, fill, r, r64, rbox, sr, sbox));
        if [r, r64, rbox] != [n == 42; 3] { return fail("wrong-size", format!("public key of {n} bytes: bytes {r}, base64 {r64}, box {rbox}")); }
        if [sr, sbox] != [n == 158; 2] { return fail("wrong-size", format!("secret key of {n} bytes: bytes {sr}, box {sbox}")); }
        Ok(())
    });
    let p6 = part("every character of the base64 form", 0, |cx| {
        let k = Key::nth(84);
        let t = k.pk_b64();
        let kind = cx.choose("edit", 3);
        let pos = cx.choose("position", t.len() + 1);
        let ch = match cx.choose("char", 130) { 128 => '\u{e9}', 129 => '\u{a0}', c => c as u8 as char };
        let mut cs: Vec<char> = t.chars().collect();
        match kind { 0 => { if pos == cs.len() { return Ok(()) } cs[pos] = ch } 1 => cs.insert(pos, ch), _ => { if pos == cs.len() { return Ok(()) } cs.remove(pos); } }
        let s: String = cs.into_iter().collect();
        if s.trim() != s || s.contains(['\n', '\r']) { return Ok(()) }
        let want = unb64(&s).filter(|b| b.len() == 42);
        let got = PublicKey::from_base64(&s).ok();
        let gbox = PublicKeyBox::from(format!("untrusted comment: c\n{s}\n")).into_public_key().ok();
        cx.saw((&s, got.is_some()));
        for g in [got, gbox] {
            match (g, &want) {
                (None, None) => {}
                (Some(g), Some(w)) if g.to_bytes() == *w => {}
                (None, Some(w)) if w[..2] != *b"Ed" || !usable_pk(w[10..].try_into().unwrap()) => {}
                (g, w) => return fail("pk-base64", format!("{s:?} read as {:?}, expected {:?}", g.map(|g| hex(&g.to_bytes())), w.as_ref().map(|w| hex(w)))),
            }
        }
        Ok(())
    });
    let p7 = part("text shapes", 0, |cx| {
        let k = Key::nth(85);
        let (pk, sk) = (k.pk_b64(), b64(&k.sk_plain_bytes()));
        let enc = |x: &str, i: usize| match i { 0 => format!("untrusted comment: c\n{x}\n"), 1 => format!("{x}\n"), 2 => String::new(), 3 => "untrusted comment: c\n".into(), 4 => "untrusted comment: c".into(), 5 => format!("untrusted comment: c\n\n{x}\n"), 6 => "\n".into(), 7 => "\n\n".into(), 8 => format!("untrusted comment: c {x}\n"), _ => format!("untrusted comment: c\n{}\n", &x[..x.len() - 4]) };
        let i = cx.choose("shape", 10);
        let p = PublicKeyBox::from(enc(&pk, i)).into_public_key().is_ok();
        let s = SecretKeyBox::from(enc(&sk, i)).into_unencrypted_secret_key().is_ok();
        let e = SecretKeyBox::from(enc(&b64(&k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap()), i)).into_secret_key(Some("pw".into())).is_ok();
        cx.saw((i, p, s, e));
        if [p, s, e] != [i == 0; 3] { return fail("shape", format!("shape {i}: public {p}, secret {s}, protected {e}")); }
        Ok(())
    });
    let top = cfg.t(18, 22);
    let p8 = part("long box comments", 0, move |cx| {
        let k = Key::nth(86);
        let c = long_line(*cx.pick("length", &doublings(9, top)));
        sk_forms(cx, &k, Some(&c))?;
        let t = format!("untrusted comment: {c}\n{}\n", k.pk_b64());
        let tf = TempFile::new(t.as_bytes());
        for p in [PublicKeyBox::from_string(&t).must("boxing")?.into_public_key().must("reading a commented public key")?, PublicKey::from_file(&tf.0).must("reading a public key file")?] {
            if p.to_bytes() != k.pk_bytes() { return fail("pk-changed", format!("under a comment of {} bytes", c.len())); }
        }
        let t = format!("untrusted comment: {c}\n{}\n", b64(&k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap()));
        let tf = TempFile::new(t.as_bytes());
        check_same_key(&SecretKey::from_file(&tf.0, Some("pw".into())).must("opening a protected key file")?, &k, "protected file")
    });
    let p9 = part("text around and within the fields", 0, move |cx| {
        let (k, o) = (Key::nth(87), Key::nth(88));
        let enc = |k: &Key| b64(&k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap());
        let kind = cx.choose("kind", 4);
        let (t, u) = match kind { 0 | 1 => (k.pk_b64(), o.pk_b64()), 2 => (b64(&k.sk_plain_bytes()), b64(&o.sk_plain_bytes())), _ => (enc(&k), enc(&o)) };
        let v = around(&t, &u);
        let c = cx.choose("text", v.len());
        let end = *cx.pick("line end", &["\n", "\r\n", ""]);
        if kind == 0 && !end.is_empty() { return Ok(()); }
        // what is base64 nonetheless is another property's matter
        if unb64(&v[c]).is_some_and(|b| b.len() == if kind < 2 { 42 } else { 158 }) { return Ok(()); }
        let text = format!("untrusted comment: c{}{}{end}", if end.is_empty() { "\n" } else { end }, v[c]);
        let ok = match kind {
            0 => PublicKey::from_base64(&v[c]).is_ok(),
            1 => PublicKeyBox::from(text).into_public_key().is_ok(),
            2 => SecretKeyBox::from(text).into_unencrypted_secret_key().is_ok(),
            _ => SecretKeyBox::from(text).into_secret_key(Some("pw".into())).is_ok(),
        };
        cx.saw((kind, &v[c], end, ok));
        if ok { return fail("non-base64-accepted", format!("kind {kind}: {:?} was read as a key", v[c])); }
        Ok(())
    });
    let p10 = part("files that are delivered in pieces or fail", cfg.t(2, 3), move |cx| {
        let k = Key::nth(89);
        let kind = cx.choose("kind", 2);
        let c = match cx.choose("comment", 3) { 0 => "c".to_string(), 1 => long_line(300), _ => long_line(9000) };
        let t = if kind == 0 { format!("untrusted comment: {c}\n{}\n", k.pk_b64()) } else { format!("untrusted comment: {c}\n{}\n", b64(&k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap())) };
        let tf = TempFile::new(t.as_bytes());
        let (g, hard) = disturbed_reads(cx);
        let r = if kind == 0 { PublicKey::from_file(&tf.0).map(|p| (Some(p), None)) } else { SecretKey::from_file(&tf.0, Some("pw".into())).map(|s| (None, Some(s))) };
        drop(g);
        judge_file(cx, kind, hard.get(), r.is_ok())?;
        match r {
            Ok((Some(p), _)) if p.to_bytes() != k.pk_bytes() => fail("pk-changed", "read from a file in pieces".to_string()),
            Ok((_, Some(s))) => check_same_key(&s, &k, "file read in pieces"),
            _ => Ok(()),
        }
    });
    // several keys and comments in one text: the key is the one on the second line
    let depth = cfg.t(6, 7);
    let p11 = part("texts of several keys and comments", 0, move |cx| {
        let (k, o) = (Key::nth(90), Key::nth(91));
        let kind = cx.choose("kind", 3);
        let body = |k: &Key| match kind { 0 => k.pk_b64(), 1 => b64(&k.sk_plain_bytes()), _ => b64(&k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap()) };
        let (kb, ob) = (body(&k), body(&o));
        let lines = ["untrusted comment: c", "untrusted comment: minisign key", &kb, &ob, "", "# a remark", "trusted comment: t"];
        let n = cx.choose("lines", depth + 1);
        let ix: Vec<usize> = (0..n).map(|_| cx.choose("line", lines.len())).collect();
        let mut text = ix.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n");
        if cx.flag("ends with a line end") { text += "\n" }
        let r = match kind {
            0 => PublicKeyBox::from(text.clone()).into_public_key().ok().map(|p| (Some(p), None)),
            1 => SecretKeyBox::from(text.clone()).into_unencrypted_secret_key().ok().map(|s| (None, Some(s))),
            _ => SecretKeyBox::from(text.clone()).into_secret_key(Some("pw".into())).ok().map(|s| (None, Some(s))),
        };
        cx.saw((kind, &text, r.is_some()));
        let want = match ix.get(1) { Some(2) => Some(&k), Some(3) => Some(&o), _ => None };
        match (r, want) {
            // what follows the key may be ignored or refused
            (None, Some(_)) if n == 2 && ix[0] < 2 => fail("refused", format!("{text:?}")),
            (None, _) => Ok(()),
            (Some(_), None) => fail("shape", format!("a key read from {text:?}")),
            (Some(b), Some(w)) => {
                let same = match b { (Some(p), _) => p.to_bytes() == w.pk_bytes(), (_, Some(s)) => is_same_key(&s, w), _ => false };
                if same { Ok(()) } else { fail("another-key", format!("{text:?}: not the key of the second line")) }
            }
        }
    });
    // whatever label a key was read with, every form carries the key as it is
    let p12 = part("algorithm labels", 0, move |cx| {
        let (hi, lo) = (cx.choose("first", 256) as u8, cx.choose("second", 256) as u8);
        let k = Key::nth(92);
        let mut b = k.pk_bytes();
        b[0] = hi; b[1] = lo;
        let r = PublicKey::from_bytes(&b);
        cx.saw((hi, lo, r.is_ok()));
        if let Ok(pk) = r {
            let t = pk.to_box().must("boxing")?.to_string();
            let again = [("bytes", PublicKey::from_bytes(&pk.to_bytes())), ("base64", PublicKey::from_base64(&pk.to_base64())), ("box", PublicKeyBox::from(t).into_public_key())];
            for (w, a) in again {
                let a = a.map_err(|e| Fail { key: "pk-changed".into(), msg: format!("label {hi:02x}{lo:02x}: {w} refused: {e}") })?;
                if a.to_bytes() != b || a != pk || a.keynum() != k.keynum { return fail("pk-changed", format!("label {hi:02x}{lo:02x}: {w}: {} instead of {}", hex(&a.to_bytes()), hex(&b))); }
            }
        } else if b[..2] == *b"Ed" { return fail("refused", "the genuine label"); }
        if hi == 0 {
            let mut b = k.sk_plain_bytes();
            b[0] = [b'E', b'e', 0, 0xff, 1, b'S', b'B'][lo as usize % 7]; b[1] = lo;
            if let Ok(sk) = SecretKey::from_bytes(&b) {
                let t = sk.to_box(None).must("boxing")?.to_string();
                if sk.to_bytes() != b || t != format!("untrusted comment: rsign encrypted secret key\n{}\n", b64(&b)) { return fail("sk-changed", format!("label {:02x?}", &b[..2])); }
            }
        }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12]
}

// ---------------------------------------------------------------------- C10
/// Every way to open a stored text; none may yield a foreign key.
fn open_all(cx: &Cx, text: &str, k: &Key, pw: &str, file: bool, fp: u64) -> Res {
    let mut outs = vec![
        ("protected", SecretKeyBox::from(text.to_string()).into_secret_key(Some(pw.into()))),
        ("unprotected", SecretKeyBox::from(text.to_string()).into_unencrypted_secret_key()),
    ];
    if file { let tf = TempFile::new(text.as_bytes()); outs.push(("file", SecretKey::from_file(&tf.0, Some(pw.into())))); }
    cx.saw((fp, outs.iter().map(|o| o.1.is_ok()).collect::<Vec<_>>()));
    for (w, o) in outs {
        if let Ok(sk) = o { if !is_same_key(&sk, k) { return fail("different-key", format!("opened as {w}: another key came out: {}", hex(&sk.to_bytes()))); } }
    }
    Ok(())
}
fn c10(cfg: &Cfg) -> Vec<Part> {
    let k = Key::nth(10);
    let mk = {
        let k = k.clone();
        move |kind: usize| -> Vec<u8> { match kind { 0 => k.sk_plain_bytes(), 1 => k.sk_enc_bytes(KdfKind::Ideal, "pw", &[5; 32], 1 << 20, 1 << 25).unwrap(), _ => k.sk_enc_bytes(KdfKind::Ideal, "pw", &[6; 32], 1 << 15, 1 << 20).unwrap() } }
    };
    let mk = Arc::new(mk);
    let boxed = |b: &[u8]| format!("untrusted comment: c\n{}\n", b64(b));
    let (k1, m) = (k.clone(), mk.clone());
    let p1 = part("every byte value", 0, move |cx| {
        let kind = cx.choose("kind", 3);
        let mut b = m(kind);
        let (pos, x) = (cx.choose("position", 158), cx.choose("xor", 256) as u8);
        b[pos] ^= x;
        let t = boxed(&b);
        open_all(cx, &t, &k1, "pw", false, (kind as u64) << 32 | (pos as u64) << 8 | x as u64)?;
        if x == 0 {
            let o = if kind == 0 { SecretKeyBox::from(t).into_unencrypted_secret_key() } else { SecretKeyBox::from(t).into_secret_key(Some("pw".into())) };
            check_same_key(&o.must("opening the undamaged key")?, &k1, "undamaged")?;
        }
        Ok(())
    });
    let (k1, m) = (k.clone(), mk.clone());
    let xs = cfg.t(vec![0x01u8, 0x80], (0..8).map(|i| 1u8 << i).collect());
    let p2 = part("pairs of bytes", 0, move |cx| {
        let kind = cx.choose("kind", 2);
        let mut b = m(kind);
        let i = cx.choose("first", 158);
        let j = cx.choose("second", 158);
        let x = *cx.pick("xor", &xs);
        if j <= i { return Ok(()) }
        match cx.choose("edit", 3) { 0 => { b[i] ^= x; b[j] ^= x; } 1 => { b[i] = b[i].wrapping_add(x); b[j] = b[j].wrapping_sub(x); } _ => b.swap(i, j) }
        open_all(cx, &boxed(&b), &k1, "pw", false, (kind as u64) << 60 | (i as u64) << 40 | (j as u64) << 20 | x as u64)
    });
    let (k1, m) = (k.clone(), mk.clone());
    let p3 = part("lengths and splices", 0, move |cx| {
        let kind = cx.choose("kind", 3);
        let b = m(kind);
        let other = Key::nth(11);
        let o = if kind == 0 { other.sk_plain_bytes() } else { other.sk_enc_bytes(KdfKind::Ideal, "pw", &[5; 32], 1 << 20, 1 << 25).unwrap() };
        let n = cx.choose("at", 159);
        let e = cx.choose("edit", 7);
        let x = match e {
            0 => b[..n].to_vec(),
            1 => [&b[..n], &o[n..]].concat(),
            2 => [&b[..n], &[0][..], &b[n..]].concat(),
            3 => { let mut v = b.clone(); if n < 158 { v.remove(n); } v }
            4 => [&b[n..], &b[..n]].concat(),
            5 => { let mut v = b.clone(); v[n.min(157)..].fill(0); v }
            _ => { let mut v = b.clone(); v[..n].fill(0); v }
        };
        // the whole other key, or the other payload whose checksum is its own, is no damage of this one
        if e == 1 && (n <= 2 || kind == 0 && n <= 54 || kind == 1 && n <= 54 || kind == 2 && n <= 6) { cx.saw(n); return Ok(()) }
        open_all(cx, &boxed(&x), &k1, "pw", true, (kind as u64) << 32 | (n as u64) << 8 | e as u64)
    });
    let (k1, m) = (k.clone(), mk.clone());
    let chars: Vec<char> = cfg.t("A/+=z0 \n\r\t\0\u{e9}-_".chars().collect(), (0u8..128).map(|c| c as char).chain(['\u{e9}', '\u{a0}']).collect());
    let p4 = part("every character of the file", 0, move |cx| {
        let kind = cx.choose("kind", 2);
        let t: Vec<char> = boxed(&m(kind)).chars().collect();
        let pos = cx.choose("position", t.len());
        let e = cx.choose("edit", 3);
        let mut v = t;
        match e { 0 => v[pos] = *cx.pick("char", &chars), 1 => v.insert(pos, *cx.pick("char", &chars)), _ => { v.remove(pos); } }
        let t: String = v.into_iter().collect();
        open_all(cx, &t, &k1, "pw", false, { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() })
    });
    let (k1, m) = (k, mk);
    let p5 = part("lines", 0, move |cx| {
        let kind = cx.choose("kind", 2);
        let t = boxed(&m(kind));
        let l: Vec<&str> = t.lines().collect();
        let v = [vec![l[1]], vec![l[0]], vec![], vec![l[1], l[0]], vec![l[0], l[0]], vec![l[1], l[1]], vec![l[0], "", l[1]], vec![l[0], &l[1][..100], &l[1][100..]], vec!["", l[1]], vec![l[0], l[1], l[1]]];
        let i = cx.choose("shape", v.len());
        let sep = *cx.pick("separator", &["\n", "\r\n", "\r", " ", "\0", "\u{85}", "\u{2028}", "\x0b"]);
        let end = *cx.pick("end", &["", "\n", "\r\n", " ", "\0"]);
        open_all(cx, &(v[i].join(sep) + end), &k1, "pw", true, (kind * 1000 + i * 100) as u64 + sep.len() as u64 * 10 + end.len() as u64)
    });
    // keys whose fields have special values: their checksum counts as well
    let odd = odd_keys();
    let n2 = cfg.t(3, 8);
    let p6 = part("every byte of unusual keys", 0, move |cx| {
        let k = cx.pick("key", &odd);
        let kind = cx.choose("kind", 4);
        let mut b = match kind {
            0 => k.sk_plain_bytes(),
            n => k.sk_enc_bytes(KdfKind::Ideal, ["pw", "", "\u{e9}"][n - 1], &[[0; 32], [255; 32], [1; 32]][n - 1], [1 << 20, 1 << 15, 1 << 21][n - 1], [1 << 25, 1 << 20, 1 << 23][n - 1]).unwrap(),
        };
        let pw = ["pw", "pw", "", "\u{e9}"][kind];
        let (pos, x) = (cx.choose("position", 158), [0x80u8, 0xff, 1, 0x10, 2, 4, 0x40, 0x20][cx.choose("xor", n2)]);
        b[pos] ^= x;
        open_all(cx, &boxed(&b), k, pw, false, { use std::hash::*; let mut h = std::collections::hash_map::DefaultHasher::new(); b.hash(&mut h); h.finish() })
    });
    // texts put together from the lines of several files
    let depth = cfg.t(4, 5);
    let p7 = part("lines of several files", 0, move |cx| {
        let (k, o) = (Key::nth(10), Key::nth(11));
        let kind = cx.choose("kind", 2);
        let body = |k: &Key| if kind == 0 { b64(&k.sk_plain_bytes()) } else { b64(&k.sk_enc_bytes(KdfKind::Ideal, "pw", &[5; 32], 1 << 20, 1 << 25).unwrap()) };
        let (kb, ob, pb) = (body(&k), body(&o), k.pk_b64());
        let lines = ["untrusted comment: c", &kb, &ob, "", "x", "trusted comment: t", &pb];
        let n = cx.choose("lines", depth + 1);
        let ix: Vec<usize> = (0..n).map(|_| cx.choose("line", lines.len())).collect();
        let text = ix.iter().map(|i| lines[*i]).collect::<Vec<_>>().join("\n") + *cx.pick("end", &["", "\n"]);
        match ix.get(1) {
            Some(1) => open_all(cx, &text, &k, "pw", false, { let mut h = 0u64; for i in &ix { h = h * 8 + *i as u64 + 1; } h }),
            Some(2) => open_all(cx, &text, &o, "pw", false, { let mut h = 0u64; for i in &ix { h = h * 8 + *i as u64 + 1; } h }),
            _ => {
                cx.saw(&text);
                for r in [SecretKeyBox::from(text.clone()).into_secret_key(Some("pw".into())), SecretKeyBox::from(text.clone()).into_unencrypted_secret_key()] {
                    if r.is_ok() { return fail("different-key", format!("a key was read from {text:?}, whose second line holds none")); }
                }
                Ok(())
            }
        }
    });
    vec![p1, p2, p3, p4, p5, p6, p7]
}
/// Keys with extreme identifiers and secrets.
pub fn odd_keys() -> Vec<Key> {
    let a = Key::nth(10);
    let mut v: Vec<Key> = keynums().into_iter().map(|n| a.with_keynum(n)).collect();
    for s in [[0u8; 32], [0xff; 32], { let mut s = [0; 32]; s[0] = 1; s }, { let mut s = [0; 32]; s[31] = 0x80; s }] { v.push(Key::new(s, a.keynum)); v.push(Key::new(s, [0; 8])); }
    v
}

// ---------------------------------------------------------------------- C11
fn exercise_sig(b: &SignatureBox, pk: &PublicKey, full: bool) {
    let _ = (b.is_prehashed(), b.untrusted_comment(), b.trusted_comment(), b.keynum().len());
    if full { let _ = (b.to_string(), b.to_bytes(), b.clone().into_string()); }
    let _ = SignatureBones::from(b.clone()).to_bytes();
    for legacy in [false, true] { for (quiet, output) in [(true, false), (false, false), (true, true), (false, true)] {
        if let Err(e) = verify_as(pk, b, b"data", quiet, output, legacy) { let _ = (e.to_string(), format!("{e:?}")); }
    } }
}
fn exercise_pk(pk: &PublicKey) {
    let _ = (pk.to_bytes(), pk.to_base64(), pk.to_box().map(|b| b.to_string()), pk.keynum().len(), format!("{pk:?}"), *pk == pk.clone());
    let mut kn = [0u8; 8];
    kn.copy_from_slice(pk.keynum());
    for alg in [ALG_PREHASHED, ALG_LEGACY] {
        let f = SigFile { untrusted: "u".into(), alg, keynum: kn, sig: [9; 64], trusted: "t".into(), global: vec![9; 64] };
        if let Ok(b) = SignatureBox::from_string(&f.text()) { let _ = verify(pk, &b, std::io::Cursor::new(b"data"), true, false, true); }
    }
}
fn exercise_sk(sk: &SecretKey) {
    let _ = (sk.to_bytes(), sk.keynum().len(), sk.to_box(None).map(|b| b.to_string()), format!("{sk:?}"), *sk == sk.clone());
    if let Ok(pk) = PublicKey::from_secret_key(sk) { exercise_pk(&pk); let _ = sign(Some(&pk), sk, &b"x"[..], None, None); }
    let _ = sign(None, sk, &b"x"[..], Some("t"), Some("u")).map(|b| b.to_string());
}
fn c11(cfg: &Cfg) -> Vec<Part> {
    let k = Key::nth(12);
    let f = SigFile::make(&k, ALG_PREHASHED, b"data", "u", "trusted", b"");
    let k0 = k.clone();
    let f0 = f.clone();
    let chars: Vec<char> = cfg.t("\n\r \0=\u{e9}A\u{1f511}~".chars().collect(), (0u8..128).map(|c| c as char).chain(['\u{e9}', '\u{a0}', '\u{1f511}', '\u{2028}']).collect());
    let ch1 = chars.clone();
    let p1 = part("signature text edits", 0, move |cx| {
        let t: Vec<char> = f0.text().chars().collect();
        let pos = cx.choose("position", t.len() + 1);
        let e = cx.choose("edit", 4);
        let mut v = t;
        match e { 0 => v.truncate(pos), 1 => { v.drain(..pos); } 2 => v.insert(pos, *cx.pick("char", &ch1)), _ => { if pos == v.len() { return Ok(()) } v[pos] = *cx.pick("char", &ch1) } }
        let t: String = v.into_iter().collect();
        let r = SignatureBox::from_string(&t);
        cx.saw((&t, r.is_ok()));
        if let Ok(b) = r { exercise_sig(&b, &pk_of(&k0)?, true); }
        Ok(())
    });
    let (k0, f0) = (k.clone(), f.clone());
    let p2 = part("signature fields of every length", 0, move |cx| {
        let (n, m) = (*cx.pick("signature-length", &[74usize, 0, 1, 2, 9, 10, 41, 42, 73, 75, 76, 77, 138, 200]), cx.choose("comment-signature-length", 140));
        let fill = *cx.pick("fill", &[0u8, 0xff, 0x10]);
        let mut s = f0.sig_bytes(); s.resize(n, fill);
        let mut g = f0.global.clone(); g.resize(m, fill);
        let comment = *cx.pick("comment", &["trusted", "", " "]);
        let t = format!("untrusted comment: u\n{}\ntrusted comment: {comment}\n{}\n", b64(&s), b64(&g));
        let r = SignatureBox::from_string(&t);
        cx.saw((&t, r.is_ok()));
        if let Ok(b) = r { exercise_sig(&b, &pk_of(&k0)?, true); }
        Ok(())
    });
    let k0 = k.clone();
    let f0 = f.clone();
    let p3 = part("hostile values", 0, move |cx| {
        // extreme values in R, S and the key
        let pat = |i: usize| -> [u8; 32] { match i { 0 => [0; 32], 1 => [0xff; 32], 2 => L_LE, 3 => { let mut l = L_LE; l[0] -= 1; l } 4 => { let mut l = [0xff; 32]; l[0] = 0xed; l[31] = 0x7f; l } 5 => { let mut l = [0; 32]; l[0] = 1; l } 6 => [0x80; 32], _ => { let mut l = [0; 32]; l[31] = 0x80; l } } };
        let mut f = f0.clone();
        let (r, s, gs, p) = (cx.choose("R", 8), cx.choose("S", 8), cx.choose("global-S", 8), cx.choose("key", 9));
        f.sig[..32].copy_from_slice(&pat(r));
        f.sig[32..].copy_from_slice(&pat(s));
        f.global[32..].copy_from_slice(&pat(gs));
        let mut k = k0.clone();
        if p < 8 { k.pk = pat(p); }
        f.alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        cx.saw((r, s, gs, p, f.alg));
        if let (Ok(b), Ok(pk)) = (SignatureBox::from_string(&f.text()), PublicKey::from_bytes(&k.pk_bytes())) {
            exercise_sig(&b, &pk, true);
            exercise_pk(&pk);
            exercise_sig(&SignatureBox::from(SignatureBones::from(b)), &pk, false);
        }
        Ok(())
    });
    let k0 = k.clone();
    let p4 = part("comment-less containers", 0, move |cx| {
        let n = cx.choose("length", 200);
        let pat = cx.choose("pattern", 5);
        let mut b: Vec<u8> = match pat { 0 => vec![0; n], 1 => vec![0xff; n], 2 => (0..n).map(|i| i as u8).collect(), 3 => b"ED".iter().copied().cycle().take(n).collect(), _ => b"Ed".iter().copied().cycle().take(n).collect() };
        if pat >= 3 && n >= 10 { b[2..10].copy_from_slice(&k0.keynum); }
        let r = SignatureBones::from_bytes(&b);
        cx.saw((n, pat, r.is_ok()));
        if let Ok(s) = r { let _ = (s.to_bytes(), s.is_prehashed()); exercise_sig(&s.into(), &pk_of(&k0)?, false); }
        Ok(())
    });
    let k0 = k.clone();
    let ch1 = chars.clone();
    let p5 = part("public key input", 0, move |cx| {
        let what = cx.choose("form", 3);
        let t = if what == 2 { k0.pk_box() } else { k0.pk_b64() };
        let mut v: Vec<char> = t.chars().collect();
        let pos = cx.choose("position", v.len() + 1);
        match cx.choose("edit", 4) { 0 => v.truncate(pos), 1 => { v.drain(..pos); } 2 => v.insert(pos, *cx.pick("char", &ch1)), _ => { if pos == v.len() { return Ok(()) } v[pos] = *cx.pick("char", &ch1) } }
        let t: String = v.into_iter().collect();
        let r = match what { 0 => PublicKey::from_base64(&t), 1 => PublicKey::from_bytes(t.as_bytes()), _ => PublicKeyBox::from_string(&t).and_then(|b| b.into_public_key()) };
        cx.saw((what, &t, r.is_ok()));
        if let Ok(pk) = r { exercise_pk(&pk); }
        Ok(())
    });
    let k0 = k.clone();
    let p6 = part("secret key text edits", 0, move |cx| {
        let enc = cx.flag("protected");
        let t = if enc { k0.sk_enc_box(KdfKind::Ideal, "pw", &[1; 32], 1 << 20, 1 << 25).unwrap() } else { k0.sk_plain_box() };
        let mut v: Vec<char> = t.chars().collect();
        let pos = cx.choose("position", v.len() + 1);
        match cx.choose("edit", 4) { 0 => v.truncate(pos), 1 => { v.drain(..pos); } 2 => v.insert(pos, *cx.pick("char", &chars)), _ => { if pos == v.len() { return Ok(()) } v[pos] = *cx.pick("char", &chars) } }
        let t: String = v.into_iter().collect();
        for pw in ["pw", ""] {
            let r = SecretKeyBox::from(t.clone()).into_secret_key(Some(pw.into()));
            cx.saw((&t, pw, r.is_ok()));
            if let Ok(sk) = r { exercise_sk(&sk); }
        }
        if let Ok(sk) = SecretKeyBox::from(t).into_unencrypted_secret_key() { exercise_sk(&sk); }
        Ok(())
    });
    let vals: Vec<u64> = {
        let mut v = vec![0, 1, 2, 3, 32767, 32768, 33_554_432, 33_554_433, u64::MAX, u64::MAX - 1, 1 << 30, (1 << 30) + 1];
        for i in 3..64 { v.extend([1u64 << i, (1u64 << i) - 1, (1u64 << i) + 1]); }
        v.sort(); v.dedup(); v
    };
    let v1 = vals.clone();
    let p7 = part("hostile derivation settings", 0, move |cx| {
        let (o, m) = (*cx.pick("opslimit", &v1), *cx.pick("memlimit", &v1));
        let mut b = k.sk_plain_bytes();
        b[2..4].copy_from_slice(b"Sc");
        b[38..46].copy_from_slice(&o.to_le_bytes());
        b[46..54].copy_from_slice(&m.to_le_bytes());
        let r = SecretKeyBox::from(format!("untrusted comment: c\n{}\n", b64(&b))).into_secret_key(Some("pw".into()));
        cx.saw((o, m, r.is_ok()));
        if let Ok(sk) = r { exercise_sk(&sk); }
        Ok(())
    });
    let p8 = part("secret keys of any content", 0, move |cx| {
        let n = cx.choose("length", 200);
        let pat = cx.choose("pattern", 8);
        let b: Vec<u8> = match pat { 0 => vec![0; n], 1 => vec![0xff; n], 2 => (0..n).map(|i| i as u8).collect(), p => data(p as u64, n) };
        let r = SecretKey::from_bytes(&b);
        cx.saw((n, pat, r.is_ok()));
        if let Ok(sk) = r { exercise_sk(&sk); }
        if let Ok(pk) = PublicKey::from_bytes(&b) { exercise_pk(&pk); }
        let t = format!("untrusted comment: c\n{}\n", b64(&b));
        let _ = SecretKeyBox::from(t.clone()).into_secret_key(Some("x".into())).map(|s| exercise_sk(&s));
        let _ = SecretKeyBox::from(t.clone()).into_unencrypted_secret_key().map(|s| exercise_sk(&s));
        let _ = PublicKeyBox::from(t).into_public_key().map(|p| exercise_pk(&p));
        Ok(())
    });
    let f0 = f;
    let p9 = part("whole texts", 0, move |cx| {
        let toks = ["untrusted comment: x", "trusted comment: y", "", &b64(&f0.sig_bytes()), &b64(&f0.global), "\u{1f511}untrusted comment: ", "AAAA", "====", "\0"];
        let n = cx.choose("lines", 6);
        let t = (0..n).map(|_| *cx.pick("line", &toks)).collect::<Vec<_>>().join(*cx.pick("separator", &["\n", "\r\n"]));
        let t = t + *cx.pick("end", &["", "\n"]);
        let r = SignatureBox::from_string(&t);
        cx.saw((&t, r.is_ok()));
        if let Ok(b) = r { exercise_sig(&b, &pk_of(&Key::nth(12))?, true); }
        let _ = PublicKeyBox::from(t.clone()).into_public_key().map(|p| exercise_pk(&p));
        let _ = SecretKeyBox::from(t.clone()).into_secret_key(Some("x".into())).map(|s| exercise_sk(&s));
        let _ = SecretKeyBox::from(t).into_unencrypted_secret_key().map(|s| exercise_sk(&s));
        Ok(())
    });
    let p10 = part("very long inputs", 0, move |cx| {
        let n = *cx.pick("size", &[10_000usize, 100_000, 3_000_000]);
        let c = *cx.pick("char", &["A", "\n", "=", "\u{e9}", " ", "untrusted comment: ", "untrusted comment: x\n"]);
        let t = c.repeat(n / c.len());
        let r = SignatureBox::from_string(&t);
        cx.saw((n, c, r.is_ok()));
        let _ = PublicKeyBox::from(t.clone()).into_public_key();
        let _ = PublicKey::from_base64(&t);
        let _ = PublicKey::from_bytes(t.as_bytes());
        let _ = SecretKey::from_bytes(t.as_bytes());
        let _ = SignatureBones::from_bytes(t.as_bytes());
        let _ = SecretKeyBox::from(t.clone()).into_secret_key(Some(t.clone()));
        let _ = SecretKeyBox::from(Key::nth(1).sk_enc_box(KdfKind::Ideal, "x", &[0; 32], 1 << 20, 1 << 25).unwrap()).into_secret_key(Some(t.clone()));
        let g = format!("untrusted comment: {}\nA\ntrusted comment: {}\nA", t.replace('\n', ""), t.replace('\n', ""));
        let _ = SignatureBox::from_string(&g);
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10]
}

// ---------------------------------------------------------------------- C25
pub fn storable(c: &str) -> bool { !c.contains('\n') && !c.ends_with('\r') }
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
fn c25_case(cx: &Cx, k: &Key, d: &[u8], t: Option<&str>, u: Option<&str>, pk: Option<&PublicKey>) -> Res {
    let (_g, _) = rng_seed(3);
    let before = now();
    let r = sign(pk, &sk_of(k)?, d, t, u);
    let after = now();
    let want = t.is_none_or(storable) && u.is_none_or(storable);
    cx.saw((t, u, d.len(), k.keynum, r.is_ok()));
    let b = match r {
        Ok(b) if want => b,
        Ok(_) => return fail("unstorable-comment-accepted", format!("trusted {t:?}, untrusted {u:?} accepted")),
        Err(e) if want => return fail("storable-comment-refused", format!("trusted {t:?}, untrusted {u:?}: {e}")),
        Err(_) => return Ok(()),
    };
    if b.keynum() != k.keynum { return fail("metadata", format!("identifier {} instead of {}", hex(b.keynum()), hex(&k.keynum))); }
    for b in [b.clone(), SignatureBox::from_string(&b.to_string()).must("reading back")?] {
        let (gt, gu) = (b.trusted_comment().must("trusted comment")?, b.untrusted_comment().must("untrusted comment")?);
        if gu != u.unwrap_or(minisign::DEFAULT_COMMENT) || u.is_none() && gu != "signature from rsign secret key" { return fail("metadata", format!("untrusted comment {gu:?} for {u:?}")); }
        match t {
            Some(t) => if gt != t { return fail("metadata", format!("trusted comment {gt:?} for {t:?}")); },
            None => {
                let ts = gt.strip_prefix("timestamp:").and_then(|x| x.parse::<u64>().ok());
                if !ts.is_some_and(|x| (before..=after).contains(&x)) || gt != format!("timestamp:{}", ts.unwrap()) { return fail("metadata", format!("default trusted comment {gt:?}, time {before}..{after}")); }
            }
        }
    }
    Ok(())
}
fn c25(cfg: &Cfg) -> Vec<Part> {
    let coms = {
        let mut v = comments();
        v.extend(["a\nb", "\n", "a\n", "\na", "a\r\nb", "a\r", "\r", "a\r\r", "x\ntrusted comment: y", "\r\n"].map(String::from));
        v
    };
    let (kns, lens) = (keynums(), lengths(false));
    let c1 = coms.clone();
    let p1 = part("metadata product", cfg.t(2, 4), move |cx| {
        let opt = |i: usize| if i == 0 { None } else { Some(c1[i - 1].as_str()) };
        let t = opt(cx.dev("trusted", c1.len() + 1));
        let u = opt(cx.dev("untrusted", c1.len() + 1));
        let k = Key::nth(25 + cx.dev("key", 3) as u64).with_keynum(*cx.devpick("keynum", &kns));
        let d = data(1, *cx.devpick("length", &lens));
        let pk = pk_of(&k)?;
        let give = cx.dev("give-pk", 2) == 1;
        c25_case(cx, &k, &d, t, u, give.then_some(&pk))
    });
    let c1 = coms.clone();
    let p2 = part("all comment pairs", 0, move |cx| {
        let opt = |i: usize| if i == 0 { None } else { Some(c1[i - 1].as_str()) };
        let (t, u) = (opt(cx.choose("trusted", c1.len() + 1)), opt(cx.choose("untrusted", c1.len() + 1)));
        c25_case(cx, &Key::nth(28), b"data", t, u, None)
    });
    let full = cfg.thorough;
    let p7 = part("every character of Unicode", 0, move |cx| {
        let i = cx.choose("pack", PACKS);
        c25_case(cx, &Key::nth(28), b"data", Some(&pack(i)), Some(&pack(PACKS - 1 - i)), None)?;
        let c = pack(i);
        let b = sk_of(&Key::nth(28))?.to_box(Some(&c)).must("boxing under a comment")?.to_string();
        if b != format!("untrusted comment: {c}\n{}\n", b64(&Key::nth(28).sk_plain_bytes())) { return fail("secret-key-comment", format!("stored under another comment than {c:?}")); }
        Ok(())
    });
    let p3 = part("every character", 0, move |cx| {
        let Some(c) = nth_char(full, cx.choose("char", nchars(full))) else { return Ok(()) };
        let s = match cx.choose("position", 4) { 0 => format!("{c}ab"), 1 => format!("a{c}b"), 2 => format!("ab{c}"), _ => c.to_string() };
        let (t, u) = if cx.flag("untrusted") { (Some("t"), Some(s.as_str())) } else { (Some(s.as_str()), Some("u")) };
        c25_case(cx, &Key::nth(28), b"data", t, u, None)
    });
    let p4 = part("secret key comments", 0, move |cx| {
        let i = cx.choose("comment", coms.len() + 512);
        let c = if i < coms.len() { coms[i].clone() } else { let j = i - coms.len(); let ch = (j % 256) as u8 as char; if j < 256 { format!("a{ch}b") } else { format!("ab{ch}") } };
        let k = Key::nth(29);
        let writing = cx.flag("while-generating");
        if writing {
            let (_g, _) = rng_seed(4);
            let (mut p, mut s) = (vec![], vec![]);
            let r = KeyPair::generate_and_write_encrypted_keypair(&mut p, &mut s, Some(&c), Some("pw".into()));
            cx.saw((&c, writing, r.is_ok()));
            if r.is_ok() != storable(&c) { return fail("secret-key-comment", format!("generating with comment {c:?}: {}", r.is_ok())); }
            if r.is_ok() && split_lines(&String::from_utf8(s).unwrap_or_default()).first().copied() != Some(format!("untrusted comment: {c}").as_str()) { return fail("secret-key-comment", format!("comment {c:?} not stored")); }
            return Ok(());
        }
        let r = sk_of(&k)?.to_box(Some(&c));
        cx.saw((&c, writing, r.is_ok()));
        if r.is_ok() != storable(&c) { return fail("secret-key-comment", format!("storing with comment {c:?}: {}", r.is_ok())); }
        if let Ok(b) = r {
            let t = b.to_string();
            if split_lines(&t) != vec![format!("untrusted comment: {c}"), b64(&k.sk_plain_bytes())] { return fail("secret-key-comment", format!("comment {c:?} stored as {t:?}")); }
        }
        Ok(())
    });
    // histories of signing under a scripted wall clock
    let (depth, later) = cfg.t((3, 4), (4, 6));
    let p5 = part("clock histories", 0, move |cx| {
        const T: [(i64, i64); 10] = [(1_700_000_000, 0), (1_700_000_001, 999_999_999), (0, 0), (1, 1), (999_999_999, 5), (0x7fff_ffff, 999_999_999), (0x8000_0000, 0), (0xffff_ffff, 1), (0x1_0000_0000, 0), (253_402_300_800, 7)];
        let k = Key::nth(27);
        let (pk, sk) = (pk_of(&k)?, sk_of(&k)?);
        for _ in 0..depth {
            let first = cx.trace().is_empty();
            let &(s, n) = cx.pick("time", &T[..if first { 10 } else { later }]);
            let explicit = cx.flag("explicit comment");
            set_clock(Some((s, n)));
            if crate::checks::storage::now() != s as u64 { set_clock(None); panic!("the wall clock is not under control"); }
            let (_g, _) = rng_seed(3);
            let r = sign(cx.flag("give-pk").then_some(&pk), &sk, &b"data"[..], explicit.then_some("t"), None);
            set_clock(None);
            let b = r.must("signing")?;
            let (got, want) = (b.trusted_comment().must("trusted comment")?, if explicit { "t".to_string() } else { format!("timestamp:{s}") });
            cx.saw((s, n, explicit, cx.trace().iter().map(|t| t.c).collect::<Vec<_>>()));
            if got != want { return fail("metadata", format!("trusted comment {got:?} at time {s}.{n:09}, expected {want:?}")); }
            vbox(&pk, &b, b"data", false).must("verifying")?;
        }
        Ok(())
    });
    let top = cfg.t(20, 24);
    let p6 = part("long comments and data", 0, move |cx| {
        let k = Key::nth(28);
        let n = *cx.pick("length", &doublings(9, top));
        let l = long_line(n);
        // an unstorable character far into a long comment
        let bad = match cx.choose("line end", 4) { 0 => l.clone(), 1 => l[..n - 1].to_string() + "\n", 2 => l[..n - 1].to_string() + "\r", _ => format!("{}\n{}", &l[..n - 3], &l[n - 2..]) };
        let d = data(1, if cx.flag("long data") { n } else { 4 });
        let (t, u) = match cx.choose("which", 3) { 0 => (Some(&bad[..]), None), 1 => (None, Some(&bad[..])), _ => (Some(&l[..]), Some(&bad[..])) };
        c25_case(cx, &k, &d, t, u, None)?;
        if d.len() > 4 { return Ok(()); }
        let r = sk_of(&k)?.to_box(Some(&bad));
        if r.is_ok() != storable(&bad) { return fail("secret-key-comment", format!("storing with a comment of {n} bytes: {}", r.is_ok())); }
        if let Ok(b) = r { if b.to_string() != format!("untrusted comment: {bad}\n{}\n", b64(&k.sk_plain_bytes())) { return fail("secret-key-comment", format!("comment of {n} bytes stored otherwise")); } }
        Ok(())
    });
    let rs = runs();
    let p8 = part("runs of characters", 0, move |cx| {
        let i = cx.choose("line", rs.len());
        c25_case(cx, &Key::nth(28), b"data", Some(&rs[i]), Some(&rs[rs.len() - 1 - i]), None)
    });
    // comments made of pieces of one another, of the data and of the defaults
    let p9 = part("comments that resemble each other", 0, move |cx| {
        let k = Key::nth(28);
        let pieces = ["t", "about", "u", "signature from rsign secret key", "timestamp:1", "file:a", "comment: ", "data", "untrusted comment: ", "trusted comment: ", &k.keyid_hex(), &hex(&k.keynum)].map(String::from);
        let seps = ["", ": ", ":", " ", "\t", ", ", "=", "/", " - "];
        let a = cx.pick("first", &pieces);
        let b = cx.pick("second", &pieces);
        let s = cx.pick("separator", &seps);
        let both = format!("{a}{s}{b}");
        for (t, u) in [(a, &both), (b, &both), (&both, a), (&both, b), (&both, &both), (a, b), (&format!("{both}{s}{a}"), &both)] {
            c25_case(cx, &k, b"data", Some(t), Some(u), None)?;
            c25_case(cx, &k, t.as_bytes(), None, Some(u), None)?;
        }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9]
}

// ---------------------------------------------------------------------- C26
fn c26(_cfg: &Cfg) -> Vec<Part> {
    fn cmp_pk(cx: &Cx, a: &PublicKey, b: &PublicKey, want: bool, what: impl Fn() -> String) -> Res {
        cx.saw((a.to_bytes(), b.to_bytes(), a == b));
        #[allow(clippy::eq_op)]
        let r = [a == b, b == a, !(a != b), !(b != a)];
        if r != [want; 4] { return fail("pk-equality", format!("{}: {r:?}, expected {want}", what())); }
        if a != a || b != b || *a != a.clone() { return fail("pk-reflexive", what()); }
        Ok(())
    }
    fn cmp_sk(cx: &Cx, a: &SecretKey, b: &SecretKey, want: bool, what: impl Fn() -> String) -> Res {
        cx.saw((a.to_bytes(), b.to_bytes(), a == b));
        let r = [a == b, b == a, !(a != b), !(b != a)];
        if r != [want; 4] { return fail("sk-equality", format!("{}: {r:?}, expected {want}", what())); }
        if a != a || b != b || *a != a.clone() { return fail("sk-reflexive", what()); }
        Ok(())
    }
    let sk = |k: &Key| SecretKey::from_bytes(&k.sk_plain_bytes()).must("loading a secret key");
    let p1 = part("every byte difference", 0, move |cx| {
        let k = Key::nth(26);
        let (pos, x) = (cx.choose("position", 96), cx.choose("xor", 256) as u8);
        let mut j = k.clone();
        if pos < 32 { j.pk[pos] ^= x;
            let Ok(b) = PublicKey::from_bytes(&j.pk_bytes()) else { return Ok(()) };
            return cmp_pk(cx, &pk_of(&k)?, &b, x == 0, || format!("public key byte {pos} xor {x:#x}"));
        }
        if pos < 64 { j.seed[pos - 32] ^= x } else { j.pk[pos - 64] ^= x }
        cmp_sk(cx, &sk(&k)?, &sk(&j)?, x == 0, || format!("secret key byte {} xor {x:#x}", pos - 32))
    });
    let p2 = part("pairs of differences", 0, move |cx| {
        let k = Key::nth(27);
        let (i, j) = (cx.choose("first", 64), cx.choose("second", 64));
        let x = *cx.pick("xor", &[1u8, 0x80, 0xff, 0x55]);
        if j <= i { return Ok(()) }
        let mut m = k.sk64();
        match cx.choose("edit", 3) { 0 => { m[i] ^= x; m[j] ^= x; } 1 => { m[i] = m[i].wrapping_add(x); m[j] = m[j].wrapping_sub(x); } _ => m.swap(i, j) }
        let k2 = Key { seed: m[..32].try_into().unwrap(), pk: m[32..].try_into().unwrap(), ..k.clone() };
        cmp_sk(cx, &sk(&k)?, &sk(&k2)?, m == k.sk64(), || format!("secret key bytes {i} and {j}"))?;
        if i >= 32 {
            let Ok(b) = PublicKey::from_bytes(&k2.pk_bytes()) else { return Ok(()) };
            cmp_pk(cx, &pk_of(&k)?, &b, k.pk == k2.pk, || format!("public key bytes {} and {}", i - 32, j - 32))?;
        }
        Ok(())
    });
    let kns = keynums();
    let p3 = part("loading routes", 0, move |cx| {
        let (i, j) = (cx.choose("route", PK_ROUTES.len()), cx.choose("other-route", PK_ROUTES.len()));
        let (a, b) = (cx.choose("key", 3), cx.choose("other-key", 3));
        let n = cx.choose("keynum", 3);
        let (ka, kb) = (Key::nth(a as u64 + 40), Key::nth(b as u64 + 40));
        // the identifier is not key material
        let kb = if n == 0 { kb.with_keynum(ka.keynum) } else { kb.with_keynum(kns[n]) };
        cmp_pk(cx, &pk_via(&ka, i)?, &pk_via(&kb, j)?, a == b, || format!("keys {a}/{b} via {}/{}", PK_ROUTES[i], PK_ROUTES[j]))?;
        if i < SK_ROUTES.len() && j < SK_ROUTES.len() {
            cmp_sk(cx, &sk_via(&ka, i)?, &sk_via(&kb, j)?, a == b, || format!("keys {a}/{b} via {}/{}", SK_ROUTES[i], SK_ROUTES[j]))?;
        }
        Ok(())
    });
    // every value of two neighbouring bytes, for several contents
    let p4 = part("neighbouring bytes", 0, move |cx| {
        let i = cx.choose("first", 63);
        let base = *cx.pick("base", &[[0x01u8, 0x23], [0x12, 0x03], [0, 0], [0xff, 0xff], [0x10, 0x01], [0x7f, 0x80]]);
        let k = Key::nth(26);
        let with = |v: [u8; 2]| { let mut m = k.sk64(); m[i] = v[0]; m[i + 1] = v[1]; Key { seed: m[..32].try_into().unwrap(), pk: m[32..].try_into().unwrap(), ..k.clone() } };
        let (a, pa) = (sk(&with(base))?, pk_of(&with(base))?);
        for v in 0..=65535u16 {
            let v = v.to_be_bytes();
            let j = with(v);
            let b = sk(&j)?;
            if (a == b) != (v == base) || (b == a) != (v == base) { return fail("sk-equality", format!("secret key bytes {i}, {}: {base:02x?} and {v:02x?} compare {}", i + 1, a == b)); }
            if i >= 32 { let b = pk_of(&j)?; if (pa == b) != (v == base) || (b == pa) != (v == base) { return fail("pk-equality", format!("public key bytes {}, {}: {base:02x?} and {v:02x?} compare {}", i - 32, i - 31, pa == b)); } }
        }
        cx.bulk(65535);
        cx.saw((i, base));
        Ok(())
    });
    // every pair of a pool of contents that are rearrangements of one another
    let pool: Vec<[u8; 32]> = {
        let mut v: Vec<[u8; 32]> = vec![];
        for base in [Key::nth(26).seed, Key::nth(26).pk, std::array::from_fn(|i| i as u8), std::array::from_fn(|i| (i as u8 % 16) * 0x11), { let mut x = [0; 32]; x[31] = 1; x }] {
            for b in 0..256usize { v.push(std::array::from_fn(|i| { let p = b / 8 + i; let (h, l) = (base[p % 32], base[(p + 1) % 32]); let s = b % 8; if s == 0 { h } else { h << s | l >> (8 - s) } })); }
            let mut r = base; r.reverse(); v.push(r);
            for w in [2, 4, 8, 16] { let mut r = base; for c in r.chunks_mut(w) { c.reverse(); } v.push(r); }
            v.push(base.map(|b| !b)); v.push(base.map(|b| b.reverse_bits())); v.push(base.map(|b| b.rotate_left(4))); v.push(base.map(|b| b & 0x7f)); v.push(base.map(|b| b ^ 0x20));
            let mut r = base; r.sort(); v.push(r);
            for n in 1..32 { let mut r = base; r[n..].fill(0); v.push(r); let mut r = base; r[..n].fill(0); v.push(r); let mut r = base; r[n..].fill(0xff); v.push(r); }
        }
        v.sort(); v.dedup(); v
    };
    let pool6 = pool.clone();
    let p5 = part("rearranged contents", 0, move |cx| {
        let i = cx.choose("content", pool.len());
        let half = cx.choose("half", 2);
        let k = Key::nth(26);
        let key = |c: [u8; 32]| if half == 0 { Key { seed: c, ..k.clone() } } else { Key { pk: c, ..k.clone() } };
        let (a, pa) = (sk(&key(pool[i]))?, PublicKey::from_bytes(&key(pool[i]).pk_bytes()));
        for (j, c) in pool.iter().enumerate() {
            let (b, pb) = (sk(&key(*c))?, PublicKey::from_bytes(&key(*c).pk_bytes()));
            if (a == b) != (i == j) { return fail("sk-equality", format!("contents {} and {} compare {}", hex(&pool[i]), hex(c), a == b)); }
            if let (1, Ok(pa), Ok(pb)) = (half, &pa, &pb) { if (pa == pb) != (i == j) { return fail("pk-equality", format!("contents {} and {} compare {}", hex(&pool[i]), hex(c), pa == pb)); } }
        }
        cx.bulk(pool.len() as u64 - 1);
        cx.saw((i, half));
        Ok(())
    });
    // the same key under other identifiers
    let p6 = part("other identifiers", 0, move |cx| {
        let c = pool6[cx.choose("content", pool6.len())];
        let half = cx.choose("half", 2);
        let k0 = Key { keynum: *b"\x01\x02\x03\x04\x05\x06\x07\x08", ..Key::nth(26) };
        let k = if half == 0 { Key { seed: c, ..k0 } } else { Key { pk: c, ..k0 } };
        let (a, pa) = (sk(&k)?, PublicKey::from_bytes(&k.pk_bytes()));
        for n in keynums() {
            let j = k.with_keynum(n);
            cmp_sk(cx, &a, &sk(&j)?, true, || format!("the key {} under identifiers {} and {}", hex(&k.sk64()), hex(&k.keynum), hex(&n)))?;
            if let (Ok(pa), Ok(pb)) = (&pa, &PublicKey::from_bytes(&j.pk_bytes())) { cmp_pk(cx, pa, pb, true, || format!("the key {} under identifiers {} and {}", hex(&k.pk), hex(&k.keynum), hex(&n)))?; }
        }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6]
}

//! C09, C15, C17, C18, C22: generation, protection and life of keys.
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use minisign::{sign, KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox};
use std::cell::RefCell;
use std::collections::HashSet;
use std::io;
use std::rc::Rc;
use std::sync::Arc;

pub fn checks() -> Vec<CheckDef> {
    vec![
        CheckDef { id: "C09", level: "model_checking", rule: "all ordered pairs (password set, password tried) of a boundary alphabet x creation route x opening route, all one-character neighbours, protection labels x body kinds; opens iff equal; stored form searched for the secret", assumptions: &["scrypt is an ideal function (real scrypt in a few cases)", "real scrypt cannot tell passwords apart that differ only in trailing NUL characters (HMAC pads short keys with NULs)"], parts: c09 },
        CheckDef { id: "C15", level: "fault_enumeration", rule: "every failing request x error code x operation; every single bit of the randomness of each operation flipped; sequences of generations", assumptions: &[], parts: c15 },
        CheckDef { id: "C17", level: "model_checking", rule: "every sequence of prompt answers over an alphabet (passwords, over-long ones, failures) for generation and opening; compared with the specified outcome", assumptions: &["the terminal library itself (rpassword) is replaced by a scripted typist"], parts: c17 },
        CheckDef { id: "C18", level: "model_checking", rule: "grid of (opslimit, memlimit) over powers of two +-1, truncation and limit boundaries, and dense ranges; derivation requests observed and compared with the reference parameters", assumptions: &["work of one derivation is measured as 4*N*r*p, memory as 128*N*r"], parts: c18 },
        CheckDef { id: "C22", level: "model_checking", rule: "every history of storing, reading, opening, converting and copying operations up to the depth bound, from every kind of starting key; compared with a model of the key's state at each step", assumptions: &["scrypt is an ideal function"], parts: c22 },
    ]
}

/// Bytes of a box's second line.
pub fn box_bytes(text: &str) -> Result<Vec<u8>, Fail> {
    match split_lines(text).get(1).and_then(|l| unb64(l)) { Some(b) => Ok(b), None => fail("stored-form", format!("not a key box: {text:?}")) }
}
fn pw_alphabet() -> Vec<String> {
    let mut v: Vec<String> = ["a", "", "b", "A", " ", "a ", " a", "a\n", "a\r\n", "a\t", "aa", "ab", "ba", "password", "Password", "passwor", "password1", "\u{e9}", "e\u{301}", "\u{c9}", "\u{212b}", "\u{e5}", "\u{fb01}", "fi", "\u{1f511}", "\u{6f22}\u{5b57}", "0", "00", "a\0", "\0a", "a\0b", "a\0c", "\0", "\0\0", "\\", "\u{feff}a", "\u{200b}a", "\u{ff41}"].iter().map(|s| s.to_string()).collect();
    for n in [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2000, 4096] { v.push("x".repeat(n)); }
    for n in [64, 1024] { v.push("x".repeat(n - 1) + "y"); v.push("x".repeat(n) + "y"); v.push("y".to_string() + &"x".repeat(n - 1)); }
    v.push("\u{e9}".repeat(512)); v.push("\u{e9}".repeat(513));
    v
}
/// No 8 consecutive bytes of the secret seed in what is stored.
fn no_secret(what: &str, stored: &[u8], k: &Key) -> Res {
    for w in k.seed.windows(8) {
        if stored.windows(8).any(|s| s == w) { return fail("secret-in-the-clear", format!("{what}: stored form contains the secret {}", hex(w))); }
    }
    Ok(())
}
/// Create a key protected by `pw`; the stored text and the key it should hold.
const CREATE: [&str; 4] = ["reference", "generate", "generate-and-write", "raw-bytes"];
fn create(route: usize, pw: &str, k: &Key) -> Result<(String, Key), Fail> {
    let from_pk = |pk: &PublicKey, log: &RngLog| -> Result<Key, Fail> {
        // the seed is what reproduces the public key among the random bytes
        let all = log.bytes();
        for w in all.windows(32) {
            let s: [u8; 32] = w.try_into().unwrap();
            if public_from_seed(&s)[..] == pk.to_bytes()[10..] { return Ok(Key::new(s, pk.keynum().try_into().unwrap())); }
        }
        fail("generated-key", "the key is not a function of the random bytes drawn")
    };
    Ok(match CREATE[route] {
        "reference" => (k.sk_enc_box(KdfKind::Ideal, pw, &[9; 32], 1 << 20, 1 << 25).unwrap(), k.clone()),
        "generate" => {
            let (_g, log) = rng_seed(90);
            let kp = KeyPair::generate_encrypted_keypair(Some(pw.into())).must("generating a key pair")?;
            (kp.sk.to_box(None).must("boxing")?.to_string(), from_pk(&kp.pk, &log)?)
        }
        "generate-and-write" => {
            let (_g, log) = rng_seed(91);
            let (mut p, mut s) = (vec![], vec![]);
            let kp = KeyPair::generate_and_write_encrypted_keypair(&mut p, &mut s, Some("c"), Some(pw.into())).must("generating a key pair")?;
            (String::from_utf8(s).must("stored key as text")?, from_pk(&kp.pk, &log)?)
        }
        _ => {
            let (_g, log) = rng_seed(92);
            let kp = KeyPair::generate_encrypted_keypair(Some(pw.into())).must("generating a key pair")?;
            let again = SecretKey::from_bytes(&kp.sk.to_bytes()).must("reading back raw bytes")?;
            (again.to_box(Some("raw")).must("boxing")?.into_string(), from_pk(&kp.pk, &log)?)
        }
    })
}
const OPEN: [&str; 4] = ["into_secret_key", "from_box", "from_file", "crlf"];
fn open(route: usize, text: &str, pw: Option<&str>) -> Result<SecretKey, minisign::PError> {
    let p = pw.map(String::from);
    match OPEN[route] {
        "into_secret_key" => SecretKeyBox::from_string(text).and_then(|b| b.into_secret_key(p)),
        "from_box" => SecretKey::from_box(SecretKeyBox::from(text.to_string()), p),
        "from_file" => { let f = TempFile::new(text.as_bytes()); SecretKey::from_file(&f.0, p) }
        _ => SecretKeyBox::from(crlf(text)).into_secret_key(p),
    }
}
fn short(s: &str) -> String { if s.len() <= 40 { format!("{s:?}") } else { format!("{:?}... ({} bytes)", s.chars().take(8).collect::<String>(), s.len()) } }

// ---------------------------------------------------------------------- C09
fn c09_pair(cx: &Cx, croute: usize, set: &str, tried: &str, oroute: usize, k: &Key) -> Res {
    let (text, k) = create(croute, set, k)?;
    let r = open(oroute, &text, Some(tried));
    cx.saw((croute, oroute, set, tried, k.keynum, r.is_ok()));
    match r {
        Ok(sk) => {
            if set != tried { return fail("wrong-password-accepted", format!("key created ({}) with password {} opens ({}) with {}", CREATE[croute], short(set), OPEN[oroute], short(tried))); }
            check_same_key(&sk, &k, "opened with its password")?;
        }
        Err(e) => if set == tried { return fail("right-password-refused", format!("key created ({}) with password {} does not open ({}): {e}", CREATE[croute], short(set), OPEN[oroute])); },
    }
    if set == tried {
        if SecretKeyBox::from(text.clone()).into_unencrypted_secret_key().is_ok() || SecretKey::from_unencrypted_box(SecretKeyBox::from(text.clone())).is_ok() { return fail("protected-opened-as-unprotected", format!("key with password {} opened as unprotected", short(set))); }
        let raw = box_bytes(&text)?;
        no_secret("raw", &raw, &k)?;
        no_secret("text", text.as_bytes(), &k)?;
        if text.contains(&b64(&k.seed)[..40]) || text.contains(&hex(&k.seed)) { return fail("secret-in-the-clear", "the stored text contains the secret".to_string()); }
        if &raw[2..4] != b"Sc" { return fail("protection-label", format!("protected key labelled {:?}", &raw[2..4])); }
    }
    Ok(())
}
fn c09(cfg: &Cfg) -> Vec<Part> {
    let pws = Arc::new(pw_alphabet());
    let all = cfg.thorough;
    let p = pws.clone();
    let p1 = part("password pairs", 0, move |cx| {
        let (i, j) = (cx.choose("set", p.len()), cx.choose("tried", p.len()));
        let c = if all || i == j { cx.choose("create", CREATE.len()) } else { cx.choose("create", 2) };
        let o = if all || i == j { cx.choose("open", OPEN.len()) } else { 0 };
        c09_pair(cx, c, &p[i], &p[j], o, &Key::nth(9))
    });
    let p2 = part("neighbouring passwords", 0, move |cx| {
        let bases = ["correct horse", "", "x", "P\u{e4}ssw\u{f6}rt 1", "tab\there"];
        let base = *cx.pick("base", &bases);
        let cs: Vec<char> = base.chars().collect();
        let kind = cx.choose("edit", 4);
        let mut v = cs.clone();
        match kind {
            0 => { let i = cx.choose("at", cs.len() + 1); v.insert(i, char::from_u32(cx.choose("char", 256) as u32).unwrap()); }
            1 => { if cs.is_empty() { return Ok(()); } let i = cx.choose("at", cs.len()); v[i] = char::from_u32(cx.choose("char", 256) as u32).unwrap(); }
            2 => { if cs.is_empty() { return Ok(()); } v.remove(cx.choose("at", cs.len())); }
            _ => { if cs.len() < 2 { return Ok(()); } let i = cx.choose("at", cs.len() - 1); v.swap(i, i + 1); }
        }
        let tried: String = v.into_iter().collect();
        c09_pair(cx, 0, base, &tried, 0, &Key::nth(9))
    });
    let p3 = part("keys, salts and settings", cfg.t(2, 4), move |cx| {
        let kns = keynums();
        let k = Key::nth(90 + cx.dev("key", 4) as u64).with_keynum(*cx.devpick("keynum", &kns));
        let pw = ["secret", "", "\u{e9}", &"x".repeat(70)][cx.dev("password", 4)].to_string();
        let tried = [pw.as_str(), "other", "", "secret "][cx.dev("tried", 4)].to_string();
        let salt = [[7u8; 32], [0; 32], [255; 32]][cx.dev("salt", 3)];
        let (ops, mem) = [(1u64 << 20, 1u64 << 25), (1 << 25, 1 << 30), (32768, 1 << 20), (1 << 20, 1 << 26), (0, 1 << 20)][cx.dev("settings", 5)];
        let Some(raw) = k.sk_enc_bytes(KdfKind::Ideal, &pw, &salt, ops, mem) else { return Ok(()) };
        let text = format!("untrusted comment: x\n{}\n", b64(&raw));
        let r = open(cx.dev("open", OPEN.len()), &text, Some(&tried));
        cx.saw((k.keynum, k.seed, &pw, &tried, salt, ops, mem, r.is_ok()));
        match r {
            Ok(_) if pw != tried => fail("wrong-password-accepted", format!("set {} tried {}", short(&pw), short(&tried))),
            Ok(sk) => check_same_key(&sk, &k, "opened with its password"),
            Err(e) if pw == tried => fail("right-password-refused", format!("{}: {e}", short(&pw))),
            Err(_) => Ok(()),
        }
    });
    // every label on every kind of body
    let p4 = part("protection labels", 0, move |cx| {
        let label = cx.choose("label", 65536) as u16;
        let k = Key::nth(9);
        let body = cx.choose("body", 3);
        let mut raw = match body { 0 => k.sk_plain_bytes(), 1 => k.sk_enc_bytes(KdfKind::Ideal, "pw", &[1; 32], 1 << 20, 1 << 25).unwrap(), _ => k.sk_enc_bytes(KdfKind::Ideal, "", &[0; 32], 0, 0).unwrap_or_else(|| k.sk_plain_bytes()) };
        let orig = [raw[2], raw[3]];
        raw[2..4].copy_from_slice(&label.to_le_bytes());
        let text = format!("untrusted comment: x\n{}\n", b64(&raw));
        let pw = if body == 1 { "pw" } else { "" };
        let prot = open(0, &text, Some(pw));
        let plain = SecretKeyBox::from(text).into_unencrypted_secret_key();
        cx.saw((label, body, prot.is_ok(), plain.is_ok()));
        if prot.is_ok() && !(label.to_le_bytes() == *b"Sc" && orig == *b"Sc") { return fail("unprotected-accepted-as-protected", format!("body of kind {orig:?} labelled {label:#06x} opened with a password")); }
        if plain.is_ok() && !(label == 0 && orig == [0, 0]) { return fail("protected-opened-as-unprotected", format!("body of kind {orig:?} labelled {label:#06x} opened as unprotected")); }
        if label.to_le_bytes() == orig && prot.is_err() && plain.is_err() { return fail("right-password-refused", "the genuine key does not open".to_string()); }
        Ok(())
    });
    // unprotected keys of this library with any password
    let p = pws.clone();
    let p5 = part("unprotected keys with a password", 0, move |cx| {
        let pw = cx.pick("password", &p);
        let (_g, _) = rng_seed(93);
        let kp = KeyPair::generate_unencrypted_keypair().must("generating")?;
        let text = kp.sk.to_box(None).must("boxing")?.to_string();
        let r = open(cx.choose("open", OPEN.len()), &text, Some(pw));
        cx.saw((pw, r.is_ok()));
        if r.is_ok() { return fail("unprotected-accepted-as-protected", format!("an unprotected key opens with password {}", short(pw))); }
        SecretKeyBox::from(text).into_unencrypted_secret_key().must("opening an unprotected key as such")?;
        Ok(())
    });
    let n = cfg.t(3, 8);
    let p6 = part("real scrypt", 0, move |cx| {
        scrypt::mc_set_mode(scrypt::Mode::Real);
        let v = ["", "a", "b", "A", " a", "password", "x", "y"];
        let (i, j) = (cx.choose("set", n), cx.choose("tried", n));
        let (_g, log) = rng_seed(94);
        let kp = KeyPair::generate_encrypted_keypair(Some(v[i].into())).must("generating")?;
        drop(log);
        let r = open(0, &kp.sk.to_box(None).must("boxing")?.to_string(), Some(v[j]));
        cx.saw((i, j, r.is_ok()));
        if r.is_ok() != (i == j) { return fail("password-verdict", format!("set {:?}, tried {:?}: opens {}", v[i], v[j], r.is_ok())); }
        Ok(())
    }).timeout(120);
    let top = cfg.t(20, 24);
    let p7 = part("long passwords", 0, move |cx| {
        let n = *cx.pick("length", &doublings(5, top));
        let set = long_line(n);
        let tried = match cx.choose("tried", 9) {
            0 => set.clone(),
            1 => set[..n - 1].to_string(),
            2 => set.clone() + "x",
            3 => set[..n - 1].to_string() + "#",
            4 => "#".to_string() + &set[1..],
            5 => set[..n / 2].to_string() + "#" + &set[n / 2 + 1..],
            6 => set[..n / 2].to_string(),
            7 => set.clone() + &set,
            _ => set[1..].to_string(),
        };
        c09_pair(cx, if cx.flag("generate") { 1 } else { 0 }, &set, &tried, 0, &Key::nth(9))
    });
    // every ordered pair of what a text-minded implementation may identify
    let tx: Vec<String> = texts().into_iter().flat_map(|t| { let mut v = vec![t.clone()]; v.extend(normalised(&t).into_iter().map(|x| x.1)); v }).filter_map(|b| String::from_utf8(b).ok()).collect::<HashSet<_>>().into_iter().collect();
    let mut tx = tx;
    tx.sort();
    let groups: Vec<(String, Vec<String>)> = texts().into_iter().filter_map(|t| { let s = String::from_utf8(t.clone()).ok()?; Some((s, normalised(&t).into_iter().filter_map(|x| String::from_utf8(x.1).ok()).collect())) }).collect();
    let p8 = part("text-like passwords", 0, move |cx| {
        let (set, forms) = cx.pick("set", &groups);
        let (a, b) = if cx.flag("tried is the normalised one") { (true, cx.choose("form", forms.len())) } else { (false, cx.choose("form", forms.len())) };
        let (s, t) = if a { (set, &forms[b]) } else { (&forms[b], set) };
        // scrypt cannot tell trailing NULs apart (see the assumptions)
        c09_pair(cx, 0, s, t, 0, &Key::nth(9))
    });
    // every character, in packs and alone: opens what the reference protected
    let full = cfg.thorough;
    let rs = runs();
    let p9 = part("every character of Unicode, every run", 0, move |cx| {
        let i = cx.choose("pack", PACKS + rs.len());
        let c = if i < PACKS { pack(i) } else { rs[i - PACKS].clone() };
        c09_pair(cx, cx.choose("create", 2), &c, &c, cx.choose("open", 4), &Key::nth(9))
    });
    let p10 = part("every character at every end", 0, move |cx| {
        let Some(c) = nth_char(full, cx.choose("char", nchars(full))) else { return Ok(()) };
        if c == '\0' { return Ok(()) }
        let s = match cx.choose("position", 4) { 0 => format!("{c}ab"), 1 => format!("a{c}b"), 2 => format!("ab{c}"), _ => c.to_string() };
        let k = Key::nth(9);
        c09_pair(cx, 0, &s, &s, 0, &k)?;
        // ... and not what was protected without it, or with its neighbour
        let d = char::from_u32(c as u32 ^ 1).map_or("ab".to_string(), |d| s.replace(c, &d.to_string()));
        for t in ["ab".to_string(), d] { if s != t { c09_pair(cx, 0, &t, &s, 0, &k)?; } }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10]
}

// ---------------------------------------------------------------------- C15
const OPS15: [&str; 7] = ["generate", "generate-protected", "generate-and-write", "generate-and-write-protected", "sign", "sign-with-pk", "generate-empty-password"];
struct Out15 { ok: bool, parts: Vec<Vec<u8>>, written: usize }
/// Run an operation; the parts of its result (key, identifier, salt, stored forms).
fn op15(op: usize) -> Result<Out15, Fail> {
    let (mut p, mut s) = (vec![], vec![]);
    let kp = |kp: KeyPair| {
        let sk = kp.sk.to_bytes();
        vec![kp.pk.to_bytes()[10..].to_vec(), kp.pk.keynum().to_vec(), sk[6..38].to_vec(), sk[54..].to_vec()]
    };
    let k = Key::nth(15);
    let r: Result<Vec<Vec<u8>>, minisign::PError> = match OPS15[op] {
        "generate" => KeyPair::generate_unencrypted_keypair().map(kp),
        "generate-protected" => KeyPair::generate_encrypted_keypair(Some("pw".into())).map(kp),
        "generate-empty-password" => KeyPair::generate_encrypted_keypair(Some(String::new())).map(kp),
        "generate-and-write" => KeyPair::generate_and_write_unencrypted_keypair(&mut p, &mut s).map(kp),
        "generate-and-write-protected" => KeyPair::generate_and_write_encrypted_keypair(&mut p, &mut s, None, Some("pw".into())).map(kp),
        "sign" => sign(None, &sk_of(&k)?, &b"data"[..], Some("t"), None).map(|b| vec![b.to_string().into_bytes()]),
        _ => sign(Some(&pk_of(&k)?), &sk_of(&k)?, &b"data"[..], Some("t"), None).map(|b| vec![b.to_string().into_bytes()]),
    };
    let written = s.len();
    Ok(match r {
        Ok(mut parts) => { parts.push(p); parts.push(s); Out15 { ok: true, parts, written } }
        Err(_) => Out15 { ok: false, parts: vec![], written },
    })
}
fn c15(cfg: &Cfg) -> Vec<Part> {
    let p1 = part("failure at each request", 0, move |cx| {
        let op = cx.choose("operation", OPS15.len());
        let at = cx.choose("request", 9);
        let code = *cx.pick("code", &[1, 4, 5, 11, 22, 38, i32::MAX]);
        let once = cx.flag("later requests succeed");
        let dirty = cx.flag("buffer partly filled");
        let mut n = 0;
        let failed = Rc::new(RefCell::new(false));
        let f2 = failed.clone();
        let mut st = stream(15);
        let (_g, _) = rng(move |b| {
            let i = n; n += 1;
            if i == at || i > at && !once {
                if dirty { let h = b.len() / 2; b[..h].fill(0x5a); }
                *f2.borrow_mut() = true;
                return Err(code);
            }
            st(b)
        });
        let o = op15(op)?;
        let failed = *failed.borrow();
        cx.saw((op, at, code, once, dirty, failed, o.ok));
        if failed && o.ok { return fail("random-failure-ignored", format!("{}: request {at} failed with code {code}, yet the operation succeeded", OPS15[op])); }
        if failed && o.written > 0 { return fail("random-failure-ignored", format!("{}: request {at} failed, yet {} bytes of a secret key were written", OPS15[op], o.written)); }
        if !failed && !o.ok { return fail("operation-failed", format!("{} failed although randomness was available", OPS15[op])); }
        Ok(())
    });
    // every bit of what was drawn
    let bits = |op: usize, seed: u64, flip: Option<usize>| -> Result<(Out15, usize), Fail> {
        let mut pos = 0usize;
        let (_g, log) = rng(move |b| {
            for x in b.iter_mut() {
                *x = stream_byte(seed, pos as u64);
                if let Some(f) = flip { if f / 8 == pos { *x ^= 1 << (f % 8); } }
                pos += 1;
            }
            Ok(())
        });
        let o = op15(op)?;
        let n = log.bytes().len();
        Ok((o, n))
    };
    let nseeds = cfg.t(2, 12);
    let p2 = part("every bit of the randomness matters", 0, move |cx| {
        let op = *cx.pick("operation", &[0, 1, 2, 3, 6]);
        let seed = 150 + cx.choose("stream", nseeds) as u64;
        let (base, n) = bits(op, seed, None)?;
        let prot = op != 0 && op != 2;
        if !base.ok { return fail("operation-failed", format!("{} failed", OPS15[op])); }
        let (again, _) = bits(op, seed, None)?;
        if again.parts != base.parts { return fail("not-determined-by-randomness", format!("{}: the same randomness gave two results", OPS15[op])); }
        let mut seen: [HashSet<Vec<u8>>; 3] = Default::default();
        let mut count = [0usize; 3];
        let mut all: HashSet<Vec<Vec<u8>>> = HashSet::new();
        all.insert(base.parts.clone());
        for f in 0..n * 8 {
            let (o, m) = bits(op, seed, Some(f))?;
            cx.saw((op, seed, f));
            if !o.ok || m != n { return fail("operation-failed", format!("{}: flipping random bit {f} changed the outcome or the number of bytes drawn", OPS15[op])); }
            if !all.insert(o.parts.clone()) { return fail("randomness-ignored", format!("{}: flipping random bit {f} gave a result already seen", OPS15[op])); }
            for c in 0..3 {
                if o.parts[c] != base.parts[c] { count[c] += 1; if !seen[c].insert(o.parts[c].clone()) { return fail("randomness-ignored", format!("{}: two different random inputs gave the same {}", OPS15[op], ["key", "identifier", "salt"][c])); } }
            }
        }
        for (c, want) in [256, 64, if prot { 256 } else { 0 }].iter().enumerate() {
            if count[c] < *want { return fail("too-little-randomness", format!("{}: the {} depends on only {} random bits", OPS15[op], ["key", "identifier", "salt"][c], count[c])); }
        }
        if n < if prot { 72 } else { 40 } { return fail("too-little-randomness", format!("{}: only {n} random bytes drawn", OPS15[op])); }
        Ok(())
    });
    let depth = cfg.t(3, 5);
    let p3 = part("sequences of generations", 0, move |cx| {
        let (_g, log) = match cx.choose("generator", 2) {
            0 => rng_seed(151),
            _ => { let mut c = 0u32; rng(move |b: &mut [u8]| { for x in b.chunks_mut(4) { c += 1; x.copy_from_slice(&c.to_le_bytes()[..x.len()]); } Ok(()) }) }
        };
        let mut seen: [HashSet<Vec<u8>>; 3] = Default::default();
        for _ in 0..depth {
            let op = cx.choose("operation", OPS15.len());
            let before = log.bytes().len();
            let o = op15(op)?;
            if !o.ok { return fail("operation-failed", format!("{} failed", OPS15[op])); }
            if OPS15[op].starts_with("sign") { continue; }
            let prot = op != 0 && op != 2;
            let drawn = log.bytes().len() - before;
            if drawn < if prot { 72 } else { 40 } { return fail("too-little-randomness", format!("{}: only {drawn} fresh random bytes drawn", OPS15[op])); }
            for c in 0..3 { if (c < 2 || prot) && !seen[c].insert(o.parts[c].clone()) { return fail("value-reused", format!("{} produced a {} seen before", OPS15[op], ["key", "identifier", "salt"][c])); } }
            cx.saw((&o.parts, log.calls()));
        }
        Ok(())
    });
    vec![p1, p2, p3]
}

// ---------------------------------------------------------------------- C17
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Typed { Text(String), Fails(u8) }
const FAILS: [io::ErrorKind; 5] = [io::ErrorKind::Other, io::ErrorKind::Interrupted, io::ErrorKind::UnexpectedEof, io::ErrorKind::NotFound, io::ErrorKind::BrokenPipe];
fn typed_alphabet(big: bool) -> Vec<Typed> {
    let mut v: Vec<String> = ["pw", "", "Pw", "pw ", " pw", "pw\n", "\u{e9}", "e\u{301}", "\u{1f511}", "\u{212b}", "\t"].iter().map(|s| s.to_string()).collect();
    for n in [63, 64, 65, 1023, 1024, 1025, 1026, 2048, 5000] { v.push("x".repeat(n)); }
    for n in [511, 512, 513, 1024] { v.push("\u{e9}".repeat(n)); }
    v.push("x".repeat(1023) + "\u{e9}"); v.push("x".repeat(1022) + "\u{e9}"); v.push("x".repeat(1023) + "y"); v.push("x".repeat(1024) + "\n");
    if big { for n in [255, 256, 257, 1021, 1022, 1027, 4096, 65536, 1 << 20] { v.push("z".repeat(n)); } }
    let mut v: Vec<Typed> = v.into_iter().map(Typed::Text).collect();
    v.extend((0..FAILS.len() as u8).map(Typed::Fails));
    v
}
fn show(t: &Typed) -> String { match t { Typed::Text(s) => short(s), Typed::Fails(k) => format!("<{:?}>", FAILS[*k as usize]) } }
struct TypistGuard;
impl Drop for TypistGuard { fn drop(&mut self) { rpassword::mc_set_typist(None); } }
/// Answers prompts in order; afterwards prompts fail. Returns the prompts seen.
fn typist(answers: Vec<Typed>) -> (TypistGuard, Rc<RefCell<Vec<String>>>) {
    let seen = Rc::new(RefCell::new(vec![]));
    let s = seen.clone();
    rpassword::mc_set_typist(Some(Box::new(move |p| {
        let i = s.borrow().len();
        s.borrow_mut().push(p.to_string());
        match answers.get(i) {
            Some(Typed::Text(t)) => Ok(t.clone()),
            Some(Typed::Fails(k)) => Err(io::Error::new(FAILS[*k as usize], "typist failure")),
            None => Err(io::Error::new(io::ErrorKind::Other, "no more answers")),
        }
    })));
    (TypistGuard, seen)
}
fn usable(t: &Typed) -> Option<&str> { match t { Typed::Text(s) if s.len() <= 1024 => Some(s), _ => None } }
fn c17(cfg: &Cfg) -> Vec<Part> {
    let al = Arc::new(typed_alphabet(cfg.thorough));
    let a = al.clone();
    let p1 = part("generation: all pairs of answers", 0, move |cx| {
        let (t1, t2) = (cx.pick("first", &a).clone(), cx.pick("second", &a).clone());
        let writing = cx.flag("writing");
        let (tg, prompts) = typist(vec![t1.clone(), t2.clone(), t1.clone(), t2.clone()]);
        let (_g, _) = rng_seed(17);
        let (mut p, mut s) = (vec![], vec![]);
        let r = if writing { KeyPair::generate_and_write_encrypted_keypair(&mut p, &mut s, None, None) } else { KeyPair::generate_encrypted_keypair(None) };
        drop(tg);
        let want = t1 == t2 && usable(&t1).is_some();
        cx.saw((&t1, &t2, writing, r.is_ok(), prompts.borrow().len()));
        let what = format!("answers {} then {}", show(&t1), show(&t2));
        match r {
            Err(e) => {
                if want { return fail("confirmed-password-refused", format!("{what}: {e}")); }
                if !s.is_empty() || !p.is_empty() { return fail("written-without-password", format!("{what}: {} + {} bytes written although generation failed", p.len(), s.len())); }
            }
            Ok(kp) => {
                if !want { return fail("bad-password-accepted", format!("{what}: a key was generated")); }
                if prompts.borrow().len() < 2 { return fail("not-confirmed", format!("{what}: only {} prompts", prompts.borrow().len())); }
                let pw = usable(&t1).unwrap();
                let text = if writing { String::from_utf8(s).must("stored key as text")? } else { kp.sk.to_box(None).must("boxing")?.to_string() };
                let supplied = open(0, &text, Some(pw));
                match supplied {
                    Ok(sk) => if PublicKey::from_secret_key(&sk).must("public key")?.to_bytes() != kp.pk.to_bytes() { return fail("typed-password", format!("{what}: another key came out")); },
                    Err(e) => return fail("typed-password", format!("{what}: the key does not open with the typed password: {e}")),
                }
                let (_t, _) = typist(vec![t1.clone()]);
                if let Err(e) = open(1, &text, None) { return fail("typed-password", format!("{what}: the key does not open when the password is typed: {e}")); }
                for other in ["", "pw", "x", &pw.to_lowercase(), pw.trim()] {
                    if other != pw && open(0, &text, Some(other)).is_ok() { return fail("typed-password", format!("{what}: the key opens with {}", short(other))); }
                }
            }
        }
        Ok(())
    });
    let a = al.clone();
    let all = cfg.thorough;
    let p2 = part("opening: typed versus supplied", 0, move |cx| {
        let set = loop { match cx.pick("set", &a) { Typed::Text(s) => break s.clone(), _ => return Ok(()) } };
        let typed = cx.pick("typed", &a).clone();
        let (text, k) = create(if all { cx.choose("create", CREATE.len()) } else { 0 }, &set, &Key::nth(17))?;
        let route = cx.choose("open", OPEN.len());
        let (tg, prompts) = typist(vec![typed.clone(), Typed::Text(set.clone())]);
        let r = open(route, &text, None);
        drop(tg);
        let np = prompts.borrow().len();
        let supplied = usable(&typed).map(|t| open(route, &text, Some(t)));
        cx.saw((&set, &typed, route, r.is_ok(), np));
        let want = supplied.as_ref().is_some_and(|s| s.is_ok());
        let what = format!("password {}, typed {}, {}", short(&set), show(&typed), OPEN[route]);
        if r.is_ok() != want { return fail("typed-versus-supplied", format!("{what}: opens {} when typed, {want} when supplied", r.is_ok())); }
        if want != (usable(&typed) == Some(set.as_str())) { return fail("typed-versus-supplied", format!("{what}: opens {want}")); }
        if let Ok(sk) = &r { check_same_key(sk, &k, &what)?; }
        if np != 1 { return fail("prompts", format!("{what}: {np} prompts")); }
        Ok(())
    });
    let a = al.clone();
    let p3 = part("a supplied password is never asked for", 0, move |cx| {
        let Typed::Text(set) = cx.pick("set", &a).clone() else { return Ok(()) };
        let c = cx.choose("operation", CREATE.len());
        let (_t, prompts) = typist(vec![Typed::Text("intruder".into()); 4]);
        let (text, k) = create(c, &set, &Key::nth(17))?;
        let r = open(cx.choose("open", OPEN.len()), &text, Some(&set));
        cx.saw((&set, c, r.is_ok()));
        if !prompts.borrow().is_empty() { return fail("prompts", format!("asked {:?} although a password was supplied", prompts.borrow())); }
        match r { Ok(sk) => check_same_key(&sk, &k, "supplied password"), Err(e) => fail("typed-versus-supplied", format!("supplied password {} refused: {e}", short(&set))) }
    });
    // an unprotected key is refused whatever is typed; damaged files do not matter
    let a = al.clone();
    let p4 = part("unprotected and unsupported files", 0, move |cx| {
        let typed = cx.pick("typed", &a).clone();
        let k = Key::nth(17);
        let mut raw = k.sk_plain_bytes();
        let label = *cx.pick("label", &[[0u8, 0], *b"Sc", *b"sc", [0, 1]]);
        raw[2..4].copy_from_slice(&label);
        let text = format!("untrusted comment: x\n{}\n", b64(&raw));
        let route = cx.choose("open", OPEN.len());
        let (_t, _) = typist(vec![typed.clone(); 3]);
        let r = open(route, &text, None);
        cx.saw((&typed, label, route, r.is_ok()));
        if r.is_ok() { return fail("unprotected-accepted-as-protected", format!("label {label:?}, typed {}", show(&typed))); }
        Ok(())
    });
    // every character typed, in packs and alone
    let full = cfg.thorough;
    let typed = move |cx: &Cx, s: &str| -> Res {
        let k = Key::nth(17);
        let text = k.sk_enc_box(KdfKind::Ideal, s, &[9; 32], 1 << 20, 1 << 25).unwrap();
        let (tg, prompts) = typist(vec![Typed::Text(s.to_string())]);
        let r = open(0, &text, None);
        drop(tg);
        cx.saw((s, r.is_ok(), prompts.borrow().len()));
        let want = s.len() <= 1024;
        match r {
            Ok(_) if !want => fail("bad-password-accepted", format!("{} bytes typed", s.len())),
            Ok(sk) => check_same_key(&sk, &k, "opened with the typed password"),
            Err(e) if want => fail("typed-password", format!("the key protected with {} does not open when that is typed: {e}", short(s))),
            Err(_) => Ok(()),
        }
    };
    let rs = runs();
    let p5 = part("every character of Unicode, every run", 0, move |cx| {
        let i = cx.choose("pack", PACKS + rs.len());
        let c = if i < PACKS { pack(i) } else { rs[i - PACKS].clone() };
        // two halves, as four-byte characters would exceed the limit
        for s in [c.chars().take(128).collect::<String>(), c.chars().skip(128).collect(), c.clone()] { typed(cx, &s)?; }
        let s: String = c.chars().take(250).collect();
        let (_tg, _) = typist(vec![Typed::Text(s.clone()), Typed::Text(s.clone())]);
        let (_g, _) = rng_seed(17);
        let kp = KeyPair::generate_encrypted_keypair(None).must("generating with a typed password")?;
        open(0, &kp.sk.to_box(None).must("boxing")?.to_string(), Some(&s)).map_err(|e| Fail { key: "typed-password".into(), msg: format!("a key generated with {} typed does not open: {e}", short(&s)) })?;
        Ok(())
    });
    let p6 = part("every character at every end", 0, move |cx| {
        let Some(c) = nth_char(full, cx.choose("char", nchars(full))) else { return Ok(()) };
        if c == '\0' { return Ok(()) }
        typed(cx, &match cx.choose("position", 4) { 0 => format!("{c}ab"), 1 => format!("a{c}b"), 2 => format!("ab{c}"), _ => c.to_string() })
    });
    vec![p1, p2, p3, p4, p5, p6]
}

// ---------------------------------------------------------------------- C18
pub struct ObsGuard;
impl Drop for ObsGuard { fn drop(&mut self) { scrypt::mc_set_observer(None); } }
pub fn observe() -> (ObsGuard, Rc<RefCell<Vec<scrypt::Request>>>) {
    let v = Rc::new(RefCell::new(vec![]));
    let w = v.clone();
    scrypt::mc_set_observer(Some(Box::new(move |r| w.borrow_mut().push(r.clone()))));
    (ObsGuard, v)
}
fn c18_case(cx: &Cx, ops: u64, mem: u64, pw: &str, route: usize) -> Res {
    let k = Key::nth(18);
    let salt = [0x51; 32];
    let want = pick_params(ops, mem);
    // body valid for the reference parameters, if any, else for the unlimited computation
    let pp = want.unwrap_or_else(|| pick_params_raw(ops, mem));
    let mut stream = [0u8; 104];
    if pp.p > 0 { KdfKind::Ideal.derive(pw.as_bytes(), &salt, pp, &mut stream); }
    let body: Vec<u8> = k.payload().iter().zip(stream).map(|(a, b)| a ^ b).collect();
    let raw = [&b"Ed"[..], b"Sc", b"B2", &salt, &ops.to_le_bytes(), &mem.to_le_bytes(), &body].concat();
    let text = format!("untrusted comment: x\n{}\n", b64(&raw));
    let (og, reqs) = observe();
    let r = open(route, &text, Some(pw));
    drop(og);
    let reqs = reqs.borrow().clone();
    cx.saw((ops, mem, r.is_ok(), reqs.len(), reqs.first().map(|q| (q.log_n, q.p))));
    let what = format!("opslimit {ops}, memlimit {mem}");
    let raw = pick_params_raw(ops, mem);
    for q in &reqs {
        if (q.log_n, q.r, q.p) != (raw.log_n, raw.r, raw.p) { return fail("wrong-parameters", format!("{what}: a derivation with N=2^{} r={} p={}, the settings call for N=2^{} r={} p={}", q.log_n, q.r, q.p, raw.log_n, raw.r, raw.p)); }
        let (m, w) = (128u128 * (1u128 << q.log_n) * q.r as u128, 4u128 * (1u128 << q.log_n) * q.r as u128 * q.p as u128);
        if m > (1 << 30) + (1 << 20) { return fail("memory-unbounded", format!("{what}: a derivation with N=2^{} r={} p={} needs {m} bytes", q.log_n, q.r, q.p)); }
        if w > 1 << 25 { return fail("work-unbounded", format!("{what}: a derivation with N=2^{} r={} p={} does {w} steps", q.log_n, q.r, q.p)); }
    }
    if reqs.len() > 1 { return fail("several-derivations", format!("{what}: {} derivations", reqs.len())); }
    if let Some(p) = want {
        let Some(q) = reqs.first() else { return fail("settings-refused", format!("{what}: refused ({}) although within the limits", r.err().map(|e| e.to_string()).unwrap_or_default())) };
        if (q.log_n, q.r, q.p) != (p.log_n, p.r, p.p) { return fail("wrong-parameters", format!("{what}: N=2^{} r={} p={} instead of N=2^{} r={} p={}", q.log_n, q.r, q.p, p.log_n, p.r, p.p)); }
        if q.password != pw.as_bytes() || q.salt != salt { return fail("wrong-parameters", format!("{what}: wrong password or salt derived from")); }
        match r { Ok(sk) => check_same_key(&sk, &k, &what)?, Err(e) => return fail("settings-refused", format!("{what}: {e}")) }
    }
    Ok(())
}
fn c18(cfg: &Cfg) -> Vec<Part> {
    let mut grid: Vec<u64> = vec![];
    for b in 0..64 { for d in [-1i64, 0, 1] { grid.push((1u64 << b).wrapping_add_signed(d)); } grid.push((1u64 << b) / 2 * 3); }
    for v in [32768u64, 1 << 20, 1 << 25, 1 << 30] { for f in [3u64, 5, 7, 12, 31, 33, 100] { grid.push(v / f); grid.push(v.saturating_mul(f)); } for d in 0..5 { grid.push(v + d); grid.push(v - d); } }
    for v in [524288u64, 1048576, 33554432, 1073741824, 16777216, 134217728] { for hi in [1u64 << 32, 1 << 33, 1 << 40, 1 << 63, 0xffff_ffff_0000_0000] { grid.push(v | hi); } }
    for v in [u64::MAX, u64::MAX - 1, i64::MAX as u64, 0x3fff_ffff * 4, 0x3fff_ffff * 8, 0x4000_0000 * 4 - 1] { grid.push(v); }
    grid.sort(); grid.dedup();
    let grid = Arc::new(grid);
    let g = grid.clone();
    let p1 = part("boundary grid", 0, move |cx| {
        let (o, m) = (*cx.pick("opslimit", &g), *cx.pick("memlimit", &g));
        c18_case(cx, o, m, "pw", 0)
    });
    let span = cfg.t(4000, 40000);
    let p2 = part("dense ranges", 0, move |cx| {
        let which = cx.choose("range", 6);
        let i = cx.choose("value", span) as u64;
        let (o, m) = match which {
            0 => (1 << 20, i * 1024 + i % 7),
            1 => (32768 - 200 + i, 1 << 20),
            2 => (1048576 - span as u64 / 2 + i, 33554432),
            3 => (1048576, 33554432 - span as u64 / 2 + i),
            4 => (i * 8191 + 17, 1 << 30),
            _ => ((1 << 25) - span as u64 / 2 + i, (1 << 30) - span as u64 / 2 + i),
        };
        c18_case(cx, o, m, "pw", 0)
    });
    let p3 = part("routes and passwords", 0, move |cx| {
        let sets = [(1u64 << 20, 1u64 << 25), (1 << 25, 1 << 30), (524288, 16777216), (0, 0), (u64::MAX, u64::MAX), (1 << 32 | 1 << 20, 1 << 25), (1 << 20, 1 << 32 | 1 << 25), (1 << 26, 1 << 30), (32768, 1 << 20), (1 << 33, 0)];
        let (o, m) = *cx.pick("settings", &sets);
        let pws = pw_alphabet();
        let pw = cx.pick("password", &pws);
        c18_case(cx, o, m, pw, cx.choose("open", OPEN.len()))
    });
    // no derivation for keys that need none
    let g = grid.clone();
    let p4 = part("unprotected keys derive nothing", 0, move |cx| {
        let (o, m) = (*cx.pick("opslimit", &g), *cx.pick("memlimit", &[0u64, 1 << 25, 1 << 40, u64::MAX]));
        let k = Key::nth(18);
        let mut raw = k.sk_plain_bytes();
        raw[38..46].copy_from_slice(&o.to_le_bytes());
        raw[46..54].copy_from_slice(&m.to_le_bytes());
        let text = format!("untrusted comment: x\n{}\n", b64(&raw));
        let (og, reqs) = observe();
        let a = SecretKeyBox::from(text.clone()).into_unencrypted_secret_key();
        let b = open(0, &text, Some("pw"));
        drop(og);
        cx.saw((o, m, a.is_ok(), b.is_ok()));
        if !reqs.borrow().is_empty() || b.is_ok() { return fail("needless-derivation", format!("opslimit {o}, memlimit {m}")); }
        Ok(())
    });
    // a wrong password costs one derivation as well, with the settings of the file
    let p5 = part("wrong passwords", 0, move |cx| {
        let k = Key::nth(18);
        let pws = pw_alphabet();
        let (set, tried) = (cx.pick("set", &pws), cx.pick("tried", &pws));
        let (o, m) = *cx.pick("settings", &[(1u64 << 20, 1u64 << 25), (32768, 1 << 20)]);
        let text = k.sk_enc_box(KdfKind::Ideal, set, &[0x51; 32], o, m).unwrap();
        let (og, reqs) = observe();
        let r = open(cx.choose("open", 2), &text, Some(tried));
        drop(og);
        let reqs = reqs.borrow().clone();
        cx.saw((set, tried, o, r.is_ok(), reqs.len()));
        let p = pick_params(o, m).unwrap();
        if reqs.len() != 1 { return fail("several-derivations", format!("set {}, tried {}: {} derivations", short(set), short(tried), reqs.len())); }
        let q = &reqs[0];
        if (q.log_n, q.r, q.p) != (p.log_n, p.r, p.p) || q.password != tried.as_bytes() || q.salt != [0x51; 32] { return fail("wrong-parameters", format!("set {}, tried {}: derived from something else", short(set), short(tried))); }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5]
}

// ---------------------------------------------------------------------- C22
#[derive(Clone)]
enum Obj { Box(SecretKeyBox), Key(SecretKey), Raw(Vec<u8>) }
struct Life { obj: Obj, protected: bool, k: Key, pw: String, history: String }
impl Life {
    fn check(&self, step: &str) -> Res {
        let raw = match &self.obj {
            Obj::Box(b) => box_bytes(&b.to_string())?,
            Obj::Key(s) => s.to_bytes(),
            Obj::Raw(b) => b.clone(),
        };
        let h = || format!("after {}{step}", self.history);
        if raw.len() != 158 { return fail("stored-form", format!("{}: {} bytes", h(), raw.len())); }
        let label = &raw[2..4];
        let want: &[u8] = if self.protected { b"Sc" } else { &[0, 0] };
        if label != want { return fail("protection-changed", format!("{}: labelled {label:?} while {}", h(), if self.protected { "protected" } else { "unprotected" })); }
        let got = open_sk_bytes(&raw, self.protected.then_some(self.pw.as_str()), KdfKind::Ideal);
        match got {
            Some(g) if g.seed == self.k.seed && g.pk == self.k.pk && g.keynum == self.k.keynum => Ok(()),
            Some(_) => fail("key-changed", format!("{}: holds another key", h())),
            None => fail("key-lost", format!("{}: what is stored cannot be opened", h())),
        }
    }
    fn step(&mut self, cx: &Cx) -> Res {
        let h = self.history.clone();
        let e = |what: &str, x: minisign::PError| Fail { key: "key-lost".into(), msg: format!("after {h}{what}: {x}") };
        let (name, obj, prot): (&str, Obj, bool) = match &self.obj {
            Obj::Box(b) => {
                let text = b.to_string();
                match cx.choose("box op", 7) {
                    0 => {
                        let k = if self.protected { b.clone().into_secret_key(Some(self.pw.clone())) } else { b.clone().into_unencrypted_secret_key() }.map_err(|x| e("open", x))?;
                        ("open", Obj::Key(k), false)
                    }
                    1 => {
                        let k = if self.protected { SecretKey::from_box(b.clone(), Some(self.pw.clone())) } else { SecretKey::from_unencrypted_box(b.clone()) }.map_err(|x| e("from_box", x))?;
                        ("from_box", Obj::Key(k), false)
                    }
                    2 => {
                        let f = TempFile::new(&b.to_bytes());
                        let wrong = if self.protected { SecretKeyBox::from(text).into_unencrypted_secret_key() } else { SecretKey::from_file(&f.0, Some(self.pw.clone())) };
                        if wrong.is_ok() { return fail("protection-changed", format!("after {h}: opens in the wrong way")); }
                        let t = std::fs::read_to_string(&f.0).must("reading the file back")?;
                        if self.protected { let k = SecretKey::from_file(&f.0, Some(self.pw.clone())).map_err(|x| e("file-open", x))?; ("file-open", Obj::Key(k), false) }
                        else { ("file", Obj::Box(SecretKeyBox::from(t)), self.protected) }
                    }
                    3 => ("text", Obj::Box(SecretKeyBox::from_string(&text).map_err(|x| e("text", x))?), self.protected),
                    4 => ("crlf", Obj::Box(SecretKeyBox::from(crlf(&text.replace("\r\n", "\n")))), self.protected),
                    5 => ("clone", Obj::Box(b.clone()), self.protected),
                    _ => ("into-string", Obj::Box(SecretKeyBox::from(b.clone().into_string())), self.protected),
                }
            }
            Obj::Key(s) => match cx.choose("key op", 6) {
                0 => ("box", Obj::Box(s.to_box(None).map_err(|x| e("box", x))?), self.protected),
                1 => ("box-commented", Obj::Box(s.to_box(Some("my key \u{e9}")).map_err(|x| e("box", x))?), self.protected),
                2 => ("raw", Obj::Raw(s.to_bytes()), self.protected),
                3 => ("clone", Obj::Key(s.clone()), self.protected),
                4 => {
                    // a throw-away use in between
                    if !self.protected {
                        let b = sign(None, s, &b"use"[..], None, None).map_err(|x| e("sign", x))?;
                        vbox(&pk_of(&self.k)?, &b, b"use", false).map_err(|x| e("sign+verify", x))?;
                    } else { drop(s.to_box(None)); }
                    ("use", Obj::Key(s.clone()), self.protected)
                }
                _ => {
                    if !self.protected {
                        let pk = PublicKey::from_secret_key(s).map_err(|x| e("public", x))?;
                        let back = PublicKeyBox::from_string(&pk.to_box().map_err(|x| e("public box", x))?.to_string()).and_then(|b| b.into_public_key()).map_err(|x| e("public back", x))?;
                        if pk.to_bytes() != self.k.pk_bytes() || back.to_bytes() != self.k.pk_bytes() { return fail("public-key-changed", format!("after {h}: recomputed public key {}", hex(&pk.to_bytes()))); }
                    }
                    ("public", Obj::Key(s.clone()), self.protected)
                }
            },
            Obj::Raw(b) => ("from-raw", Obj::Key(SecretKey::from_bytes(b).map_err(|x| e("from-raw", x))?), self.protected),
        };
        self.obj = obj;
        self.protected = prot;
        self.check(name)?;
        self.history += name;
        self.history += "; ";
        Ok(())
    }
}
const BIRTHS: [&str; 7] = ["generate", "generate-protected", "generate-and-write", "generate-and-write-protected", "reference-plain", "reference-protected", "generate-protected-empty"];
fn birth(w: usize, k0: &Key) -> Result<Life, Fail> {
    let (_g, _) = rng_seed(22);
    born(w, k0, if BIRTHS[w].ends_with("empty") { "" } else { "open sesame \u{e9}" })
}
fn born(w: usize, k0: &Key, pw: &str) -> Result<Life, Fail> {
    let pw = pw.to_string();
    let (mut p, mut s) = (vec![], vec![]);
    // seed and identifier of generated keys come from their unprotected form
    let of = |sk: &SecretKey, pk: &PublicKey, prot: bool, pw: &str| -> Result<Key, Fail> {
        match open_sk_bytes(&sk.to_bytes(), prot.then_some(pw), KdfKind::Ideal) {
            Some(k) if pk.to_bytes() == k.pk_bytes() && public_from_seed(&k.seed) == k.pk => Ok(k),
            _ => fail("key-lost", format!("a freshly generated key ({}) cannot be opened by the reference or does not match its public key", if prot { "protected" } else { "unprotected" })),
        }
    };
    let (obj, protected, k) = match BIRTHS[w] {
        "generate" => { let kp = KeyPair::generate_unencrypted_keypair().must("generating")?; let k = of(&kp.sk, &kp.pk, false, &pw)?; (Obj::Key(kp.sk), false, k) }
        "generate-protected" | "generate-protected-empty" => { let kp = KeyPair::generate_encrypted_keypair(Some(pw.clone())).must("generating")?; let k = of(&kp.sk, &kp.pk, true, &pw)?; (Obj::Key(kp.sk), true, k) }
        "generate-and-write" => { let kp = KeyPair::generate_and_write_unencrypted_keypair(&mut p, &mut s).must("generating")?; let k = of(&kp.sk, &kp.pk, false, &pw)?; (Obj::Raw(s), false, k) }
        "generate-and-write-protected" => {
            let kp = KeyPair::generate_and_write_encrypted_keypair(&mut p, &mut s, Some("c"), Some(pw.clone())).must("generating")?;
            let k = of(&kp.sk, &kp.pk, true, &pw)?;
            (Obj::Box(SecretKeyBox::from(String::from_utf8(s).must("stored key as text")?)), true, k)
        }
        "reference-plain" => (Obj::Box(SecretKeyBox::from(k0.sk_plain_box())), false, k0.clone()),
        _ => (Obj::Box(SecretKeyBox::from(k0.sk_enc_box(KdfKind::Ideal, &pw, &[3; 32], 524288, 1 << 24).unwrap())), true, k0.clone()),
    };
    Ok(Life { obj, protected, k, pw, history: format!("{}; ", BIRTHS[w]) })
}
fn c22(cfg: &Cfg) -> Vec<Part> {
    let depth = cfg.t(5, 7);
    let p1 = part("histories", 0, move |cx| {
        let w = cx.choose("birth", BIRTHS.len());
        let (_g, _) = rng_seed(221);
        let mut l = birth(w, &Key::nth(22))?;
        l.check("birth")?;
        for _ in 0..depth {
            l.step(cx)?;
            cx.saw(&l.history);
        }
        // it still is the same, working key
        let text = match &l.obj {
            Obj::Box(b) => b.to_string(),
            Obj::Key(s) => s.to_box(None).must("boxing")?.to_string(),
            Obj::Raw(b) => SecretKey::from_bytes(b).must("raw")?.to_box(None).must("boxing")?.to_string(),
        };
        let b = SecretKeyBox::from(text);
        let sk = if l.protected { b.into_secret_key(Some(l.pw.clone())) } else { b.into_unencrypted_secret_key() };
        let sk = match sk { Ok(s) => s, Err(e) => return fail("key-lost", format!("after {}: does not open any more: {e}", l.history)) };
        check_same_key(&sk, &l.k, &format!("after {}", l.history))?;
        let (_g, _) = rng_seed(222);
        let a = sign(None, &sk, &b"final"[..], Some("t"), None).must("signing")?;
        drop(_g);
        let (_g, _) = rng_seed(222);
        let c = sign(None, &sk_of(&l.k)?, &b"final"[..], Some("t"), None).must("signing")?;
        if a.to_string() != c.to_string() { return fail("signs-differently", format!("after {}", l.history)); }
        vbox(&pk_of(&l.k)?, &a, b"final", false).must("verifying")?;
        Ok(())
    });
    let d2 = cfg.t(3, 4);
    let p2 = part("histories of unusual keys", 0, move |cx| {
        let w = 4 + cx.choose("birth", 2);
        let kns = keynums();
        let k = Key::nth(220 + cx.choose("key", 3) as u64).with_keynum(*cx.pick("keynum", &kns));
        let (_g, _) = rng_seed(223);
        let mut l = birth(w, &k)?;
        for _ in 0..d2 { l.step(cx)?; cx.saw((&l.history, k.keynum, k.seed)); }
        Ok(())
    });
    // keys born from degenerate randomness, with extreme secrets, salts and passwords
    let d3 = cfg.t(3, 5);
    let p3 = part("histories of degenerate keys", 0, move |cx| {
        let odd = crate::checks::storage::odd_keys();
        let pws = ["pw", "", " ", "\u{feff}x", "x\n"];
        let mut l = if cx.flag("made here") {
            let w = cx.choose("birth", 4);
            let g = cx.choose("randomness", 5);
            let mut n = 0u8;
            let (_g, _) = rng(move |b: &mut [u8]| { match g { 0 => b.fill(0), 1 => b.fill(0xff), 2 => b.fill(b'\n'), 3 => { for x in b.iter_mut() { n = n.wrapping_add(1); *x = n; } } _ => { b.fill(0); b[0] = 1; } } Ok(()) });
            born(w, &odd[0], *cx.pick("password", &pws))?
        } else {
            let k = cx.pick("key", &odd);
            let pw = *cx.pick("password", &pws);
            let salt = [[0u8; 32], [0xff; 32], [b'\n'; 32]][cx.choose("salt", 3)];
            let (o, m) = [(1u64 << 20, 1u64 << 25), (32768, 1 << 20), (0, 1 << 20)][cx.choose("settings", 3)];
            let Some(raw) = k.sk_enc_bytes(KdfKind::Ideal, pw, &salt, o, m) else { return Ok(()) };
            Life { obj: if cx.flag("raw") { Obj::Raw(raw) } else { Obj::Box(SecretKeyBox::from(format!("untrusted comment: x\n{}\n", b64(&raw)))) }, protected: true, k: k.clone(), pw: pw.into(), history: "degenerate; ".into() }
        };
        let (_g, _) = rng_seed(224);
        l.check("birth")?;
        for _ in 0..d3 { l.step(cx)?; cx.saw((&l.history, l.k.keynum, l.k.seed, &l.pw)); }
        Ok(())
    });
    // stored under every comment, and opened again
    let coms = [comments(), runs(), ["untrusted comment: x", "untrusted comment: ", "trusted comment: x", "minisign encrypted secret key", "rsign encrypted secret key", "unencrypted", "no password", "x y", "RWRTY0Iy", "encrypted", "plain"].map(String::from).to_vec()].concat();
    let p4 = part("stored under every comment", 0, move |cx| {
        let c = cx.pick("comment", &coms);
        let prot = cx.flag("protected");
        let twice = cx.flag("twice");
        let k = Key::nth(22);
        let b = if prot { k.sk_enc_bytes(KdfKind::Ideal, "pw", &[3; 32], 1 << 20, 1 << 25).unwrap() } else { k.sk_plain_bytes() };
        let sk = SecretKey::from_bytes(&b).must("raw")?;
        let mut t = sk.to_box(Some(c)).must("boxing under a comment")?.to_string();
        if twice { t = SecretKey::from_bytes(&box_bytes(&t)?).must("raw")?.to_box(Some(c)).must("boxing again")?.to_string(); }
        cx.saw((c, prot, twice, t.len()));
        if box_bytes(&t)? != b { return fail("stored-form", format!("stored under {c:?}: other contents")); }
        let r = if prot { SecretKeyBox::from(t).into_secret_key(Some("pw".into())) } else { SecretKeyBox::from(t).into_unencrypted_secret_key() };
        check_same_key(&r.map_err(|e| Fail { key: "key-lost".into(), msg: format!("stored under {c:?}: {e}") })?, &k, "stored under a comment")
    });
    // every header byte of an unprotected key: it stays the same key, with the same public key
    let p5 = part("unusual header fields", 0, move |cx| {
        let k = Key::nth(22);
        let mut b = k.sk_plain_bytes();
        let (pos, x) = (6 + cx.choose("position", 49), [0u8, 1, 0x80, 0xff][cx.choose("value", 4)]);
        let to = cx.choose("up to", 2);
        if pos < 54 { if to == 0 { b[pos] = x } else { b[pos..54].fill(x) } }
        let Ok(sk) = SecretKey::from_bytes(&b) else { return fail("key-lost", format!("raw bytes refused (byte {pos} = {x:#x})")) };
        let boxed = sk.to_box(None).must("boxing")?;
        let opened = boxed.clone().into_unencrypted_secret_key();
        cx.saw((pos, x, to, opened.is_ok()));
        let mut keys = vec![("read from raw bytes", sk)];
        match opened { Ok(s) => keys.push(("stored and opened", s)), Err(e) => return fail("key-lost", format!("byte {pos} = {x:#x}: does not open any more: {e}")) }
        for (w, s) in keys {
            // (opening may clear header fields that mean nothing any more)
            if w == "read from raw bytes" && s.to_bytes() != b { return fail("key-changed", format!("byte {pos} = {x:#x}: {w}: other bytes")); }
            let p = PublicKey::from_secret_key(&s).must("deriving the public key")?;
            if p.to_bytes() != k.pk_bytes() { return fail("key-changed", format!("byte {pos} = {x:#x}: {w}: the public key is {}", hex(&p.to_bytes()))); }
            let (_g, _) = rng_seed(222);
            let a = sign(None, &s, &b"final"[..], Some("t"), None).must("signing")?;
            vbox(&pk_of(&k)?, &a, b"final", false).map_err(|e| Fail { key: "signs-differently".into(), msg: format!("byte {pos} = {x:#x}: {w}: the signature is refused: {e}") })?;
        }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5]
}

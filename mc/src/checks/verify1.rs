//! C01-C06, C23: what verification accepts.
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use curve25519_dalek::constants::EIGHT_TORSION;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
#[allow(unused_imports)]
use minisign::{sign, verify, KeyPair, PError, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::sync::Arc;

pub fn checks() -> Vec<CheckDef> {
    vec![
        CheckDef { id: "C01", level: "model_checking", rule: "sign with the library over each combination (deviation-bounded product) of key, identifier, data length, comments, randomness, key route, storage route and flags; non-trivial: verification was reached with a distinct combination", assumptions: &[], parts: c01 },
        CheckDef { id: "C02", level: "model_checking", rule: "for reference-made signatures, every edit of the data from a complete edit grammar; non-trivial: data really differs and the signature was parsed", assumptions: &["second preimages of BLAKE2b and SHA-512 are not among the edits"], parts: c02 },
        CheckDef { id: "C03", level: "model_checking", rule: "every byte value at every position, every truncation/extension, every S+kL, every splice; non-trivial: the altered container differs from the original", assumptions: &[], parts: c03 },
        CheckDef { id: "C04", level: "model_checking", rule: "every single-character edit of trusted comments, every line splice of three signatures, every untrusted comment of the alphabet; verdict and reported comments compared with the reference", assumptions: &[], parts: c04 },
        CheckDef { id: "C05", level: "model_checking", rule: "every bit of key and identifier, all pairs of keys and identifiers, both algorithms, both container kinds; compared with equality", assumptions: &[], parts: c05 },
        CheckDef { id: "C06", level: "model_checking", rule: "all 65536 algorithm identifiers x both genuine algorithms x the legacy flag x container kind; compared with the reference", assumptions: &[], parts: c06 },
        CheckDef { id: "C23", level: "model_checking", rule: "every small-order and non-canonical encoding and off-curve values as public key x forged signatures satisfying the group equation x both algorithms x container kinds; always refused", assumptions: &[], parts: c23 },
    ]
}

// ---------------------------------------------------------------------- C01
fn c01_case(cx: &Cx, k: &Key, data: &[u8], tc: Option<&str>, uc: Option<&str>, rngk: usize, skr: usize, pkr: usize, give_pk: bool, sroute: usize, legacy: bool) -> Res {
    let sk = sk_via(k, skr)?;
    let pk = pk_via(k, pkr)?;
    let (_g, _) = rng(rng_kind(rngk));
    let b = sign(give_pk.then_some(&pk), &sk, data, tc, uc).must("signing")?;
    let direct = vbox(&pk, &b, data, legacy);
    cx.saw((data.len(), tc, uc, rngk, skr, pkr, sroute, legacy, k.keynum, direct.is_ok()));
    if let Err(e) = direct { return fail("genuine-refused", format!("a fresh signature was refused: {e}")); }
    let b = route(b, sroute)?;
    if let Err(e) = vbox(&pk, &b, data, legacy) { return fail("genuine-refused-after-storage", format!("a genuine signature stored via {} was refused: {e}", SIG_ROUTES[sroute])); }
    Ok(())
}
pub fn rng_kind(k: usize) -> Box<dyn FnMut(&mut [u8]) -> Result<(), i32>> {
    match k {
        0 => Box::new(stream(11)),
        1 => Box::new(|b: &mut [u8]| { b.fill(0); Ok(()) }),
        2 => Box::new(|b: &mut [u8]| { b.fill(255); Ok(()) }),
        n => Box::new(stream(1000 + n as u64)),
    }
}
fn c01(cfg: &Cfg) -> Vec<Part> {
    let seed = cfg.seed;
    let (coms, kns, lens) = (comments(), keynums(), lengths(true));
    let keys: Vec<Key> = (0..6).map(Key::nth).collect();
    let p1 = part("combinations", cfg.t(2, 3), move |cx| {
        let k = cx.devpick("key", &keys).with_keynum(*cx.devpick("keynum", &kns));
        let d = data(seed, *cx.devpick("length", &lens));
        let tc = match cx.dev("trusted", coms.len() + 1) { 0 => Some(coms[0].as_str()), 1 => None, i => Some(coms[i - 1].as_str()) };
        let uc = match cx.dev("untrusted", coms.len() + 1) { 0 => Some(coms[0].as_str()), 1 => None, i => Some(coms[i - 1].as_str()) };
        let r = cx.dev("randomness", 5);
        let (skr, pkr) = (cx.dev("sk-route", SK_ROUTES.len()), cx.dev("pk-route", PK_ROUTES.len()));
        let sroute = cx.dev("sig-route", SIG_ROUTES.len());
        c01_case(cx, &k, &d, tc, uc, r, skr, pkr, cx.dev("give-pk", 2) == 1, sroute, cx.dev("legacy", 2) == 1)
    });
    let max = cfg.t(20_000, 70_000);
    let p2 = part("every data length", 0, move |cx| {
        let n = cx.choose("length", max);
        c01_case(cx, &Key::nth(50), &data(seed, n), Some("c"), None, 0, 0, 0, false, 1, false)
    });
    let max = cfg.t(3000, 20_000);
    let p3 = part("every comment length", 0, move |cx| {
        let n = cx.choose("length", max);
        let c: String = "abcdefghij".chars().cycle().take(n).collect();
        c01_case(cx, &Key::nth(51), b"data", Some(&c), Some(&c), 0, 0, 0, false, 1, false)
    });
    let full = cfg.thorough;
    let rs = runs();
    let p12 = part("every character of Unicode, every run", 0, move |cx| {
        let i = cx.choose("pack", PACKS + rs.len());
        let c = if i < PACKS { pack(i) } else { rs[i - PACKS].clone() };
        c01_case(cx, &Key::nth(52), b"data", Some(&c), Some(&c), 0, 0, 0, false, 1, false)
    });
    let p4 = part("every character at every end", 0, move |cx| {
        let Some(ch) = nth_char(full, cx.choose("char", nchars(full))) else { return Ok(()) };
        let pos = cx.choose("position", 4);
        if ch == '\n' || ch == '\r' && pos >= 2 { return Ok(()) }
        let c = match pos { 0 => format!("{ch}abc"), 1 => format!("ab{ch}c"), 2 => format!("abc{ch}"), _ => ch.to_string() };
        c01_case(cx, &Key::nth(52), b"data", Some(&c), Some(&c), 0, 0, 0, false, 1, false)
    });
    let nk = cfg.t(6000, 60_000);
    let p5 = part("many keys", 0, move |cx| {
        let k = Key::nth(cx.choose("key", nk) as u64 + 100);
        c01_case(cx, &k, b"some data", Some("c"), None, 3 + (k.seed[0] & 3) as usize, 0, 0, true, 1, false)
    });
    // keys and signatures of rare shapes (pairs of extreme bytes)
    let p7 = part("rare keys", 0, move |cx| {
        let k = crate::tables::key_of(*cx.pick("key", &crate::tables::KEYS));
        let (r, give) = (cx.choose("randomness", 4), cx.flag("give-pk"));
        c01_case(cx, &k, b"some data", Some("c"), None, r + 3, 0, cx.choose("pk-route", PK_ROUTES.len()), give, cx.choose("sig-route", SIG_ROUTES.len()), false)
    });
    let p8 = part("rare signatures", 0, move |cx| {
        use crate::tables::*;
        let i = cx.choose("signature", SIGS_R.len() + SIGS_S.len());
        let f = sig_of(if i < SIGS_R.len() { SIGS_R[i] } else { SIGS_S[i - SIGS_R.len()] });
        let r = cx.choose("route", SIG_ROUTES.len());
        let b = route(SignatureBox::from_string(&f.text()).must("reading a genuine signature")?, r)?;
        let pk = pk_of(&sig_key())?;
        let v = vbox(&pk, &b, SIG_DATA, false);
        cx.saw((i, r, v.is_ok()));
        if let Err(e) = v { return fail("genuine-refused", format!("signature {} was refused: {e}", hex(&f.sig))); }
        let mut g = f.clone();
        g.sig[63] ^= 0x08;
        if accepts(&pk, &g, SIG_DATA, false) { return fail("setup:altered", "an altered signature was accepted"); }
        Ok(())
    });
    // legacy signatures made elsewhere also verify whatever their length
    let max = cfg.t(5000, 70_000);
    let p6 = part("legacy, every length", 0, move |cx| {
        let k = Key::nth(53);
        let d = data(seed, cx.choose("length", max));
        let f = SigFile::make(&k, ALG_LEGACY, &d, "u", "t", b"");
        let v = verdict_text(&pk_of(&k)?, &f.text(), &d, true);
        cx.saw((d.len(), v.is_ok()));
        if let Err(e) = v { return fail("genuine-refused", format!("legacy signature over {} bytes: {e}", d.len())); }
        Ok(())
    });
    let top = cfg.t(20, 26);
    let p9 = part("long comments and data", 0, move |cx| {
        let k = Key::nth(55);
        let which = cx.choose("what is long", 4);
        let n = *cx.pick("length", &doublings(9, if which == 3 { top + 2 } else { top }));
        let (l, short) = (long_line(if which == 3 { 0 } else { n }), "c");
        let (t, u) = match which { 0 => (&l[..], short), 1 => (short, &l[..]), 2 => (&l[..], &l[..]), _ => (short, short) };
        let d = data(seed, if which == 3 { n } else { 10 });
        c01_case(cx, &k, &d, Some(t), Some(u), 0, 0, 0, n % 2 == 0, if which == 3 { 0 } else { cx.choose("sig-route", SIG_ROUTES.len()) }, false)
    }).timeout(300);
    let tx = texts();
    let p10 = part("text-like data", 0, move |cx| {
        let d = cx.pick("data", &tx);
        let legacy = cx.flag("legacy");
        let k = Key::nth(56);
        let what = cx.choose("form", 2);
        let mut forms = normalised(d);
        forms.push((String::new(), d.clone()));
        for (_, x) in &forms {
            if what == 0 { c01_case(cx, &k, x, Some("t"), None, 0, 0, 0, false, 1, legacy)?; continue; }
            let f = SigFile::make(&k, if legacy { ALG_LEGACY } else { ALG_PREHASHED }, x, "u", "t", b"");
            if let Err(e) = verdict_text(&pk_of(&k)?, &f.text(), x, true) { return fail("genuine-refused", format!("a genuine signature over {:?} was refused: {e}", String::from_utf8_lossy(x))); }
            cx.saw((x, legacy));
        }
        Ok(())
    });
    let sizes = multiples(cfg.t(2_000_000, 70_000_000));
    let p11 = part("multiples of round sizes", 0, move |cx| {
        let d = data(seed, *cx.pick("length", &sizes));
        let k = Key::nth(57);
        if !cx.flag("legacy") { return c01_case(cx, &k, &d, Some("c"), None, 0, 0, 0, false, 1, false); }
        let f = SigFile::make(&k, ALG_LEGACY, &d, "u", "t", b"");
        let v = verdict_text(&pk_of(&k)?, &f.text(), &d, true);
        cx.saw((d.len(), v.is_ok()));
        if let Err(e) = v { return fail("genuine-refused", format!("legacy signature over {} bytes: {e}", d.len())); }
        Ok(())
    }).timeout(300);
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11, p12]
}

// ---------------------------------------------------------------------- C02
/// The i-th edit of `d` from a complete grammar of single edits; None when exhausted.
fn edit_count(n: usize) -> usize { 8 * n + n + n + (n + 1) * 3 + 256 + 2 * n.saturating_sub(1) + 10 }
fn edit(d: &[u8], mut i: usize) -> Vec<u8> {
    let n = d.len();
    let mut v = d.to_vec();
    if i < 8 * n { v[i / 8] ^= 1 << (i % 8); return v; }
    i -= 8 * n;
    if i < n { v.truncate(i); return v; }
    i -= n;
    if i < n { v.remove(i); return v; }
    i -= n;
    for x in [0u8, 0x80, b'\n'] { if i < n + 1 { v.insert(i, x); return v; } i -= n + 1; }
    if i < 256 { v.push(i as u8); return v; }
    i -= 256;
    if i < n.saturating_sub(1) { v.swap(i, i + 1); return v; }
    i -= n.saturating_sub(1);
    if i < n.saturating_sub(1) { v.rotate_left(i + 1); return v; }
    i -= n.saturating_sub(1);
    match i {
        0 => v.reverse(),
        1 => v.resize(n.div_ceil(128).max(1) * 128, 0),
        2 => v = blake2b(64, d),
        3 => v = sha512(&[d]).to_vec(),
        4 => v.extend(d),
        5 => v.clear(),
        6 => v.resize(n + 128, 0),
        7 => v.resize(n + 65536, 0),
        8 => { v = vec![0; n]; }
        _ => { v.insert(0, 0xff); }
    }
    v
}
/// Container kinds: full box from text, comment-less from bytes.
fn load(f: &SigFile, bones: bool) -> Option<SignatureBox> {
    if bones { SignatureBones::from_bytes(&f.sig_bytes()).ok().map(Into::into) } else { SignatureBox::from_string(&f.text()).ok() }
}
fn c02(cfg: &Cfg) -> Vec<Part> {
    let seed = cfg.seed;
    let k = Key::nth(2);
    let lens = cfg.t(vec![0, 1, 2, 3, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257], vec![0, 1, 2, 3, 31, 32, 63, 64, 65, 111, 112, 127, 128, 129, 200, 255, 256, 257, 384, 511, 512, 513, 700, 1024]);
    let fx: Arc<Vec<(Vec<u8>, [SigFile; 2])>> = Arc::new(lens.iter().map(|&n| {
        let d = data(seed, n);
        let f = [ALG_PREHASHED, ALG_LEGACY].map(|a| SigFile::make(&k, a, &d, "u", "t", b"x"));
        (d, f)
    }).collect());
    let k1 = k.clone();
    let p1 = part("every single edit", 0, move |cx| {
        let (d, f) = cx.pick("length", &fx);
        let f = &f[cx.choose("algorithm", 2)];
        let bones = cx.flag("bones");
        let b = load(f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let e = cx.choose("edit", edit_count(d.len()) + 1);
        let x = if e == 0 { d.clone() } else { edit(d, e - 1) };
        let ok = vbox(&pk_of(&k1)?, &b, &x, true).is_ok();
        cx.saw((d.len(), f.alg, bones, &x, ok));
        if ok != (x == *d) { return fail("data", format!("{}: {} bytes signed, {} bytes verified: {}", if ok { "altered data accepted" } else { "genuine refused" }, d.len(), x.len(), ok)); }
        Ok(())
    });
    // long data: positions around buffer boundaries (all of them in the thorough tier)
    let big = 65536 * 2 + 300;
    let d = Arc::new(data(seed, big));
    let f = Arc::new([ALG_PREHASHED, ALG_LEGACY].map(|a| SigFile::make(&k, a, &d, "u", "t", b"x")));
    let mut pos: Vec<usize> = vec![];
    for i in 0..big {
        let near = [0usize, 65536, 131072, big].iter().any(|&c| i.abs_diff(c) <= 140);
        if near || i % cfg.t(331, 3) == 0 { pos.push(i); }
    }
    let k1 = k.clone();
    let p2 = part("positions in long data", 0, move |cx| {
        let i = *cx.pick("position", &pos);
        let f = &f[cx.choose("algorithm", 2)];
        let mut x = d.to_vec();
        let kind = cx.choose("edit", 3);
        match kind { 0 => x[i] ^= 0x10, 1 => { x.remove(i); } _ => x.truncate(i) }
        let b = load(f, false).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let ok = vbox(&pk_of(&k1)?, &b, &x, true).is_ok();
        cx.saw((i, kind, f.alg, ok));
        if ok { return fail("data", format!("altered long data accepted (edit {kind} at {i})")); }
        Ok(())
    });
    // matrix of different data under every flag combination
    let ds: Arc<Vec<Vec<u8>>> = Arc::new({
        let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0; 2], vec![0; 64], vec![0; 127], vec![0; 128], vec![0; 129], vec![0; 256], b"a".to_vec(), b"a\n".to_vec(), b"a\r\n".to_vec(), b"a\0".to_vec(), b"A".to_vec(), b" a".to_vec()];
        let base = data(seed, 128);
        v.push(base.clone());
        v.push(blake2b(64, &base));
        v.push(base[..64].to_vec());
        v.push([&base[..], &base[..]].concat());
        v.push(data(seed, 65536));
        v.push([&data(seed, 65536)[..], b"\0"].concat());
        v
    });
    let fs: Arc<Vec<[SigFile; 2]>> = Arc::new(ds.iter().map(|d| [ALG_PREHASHED, ALG_LEGACY].map(|a| SigFile::make(&k, a, d, "u", "t", b"y"))).collect());
    let p3 = part("cross matrix, all flags", 0, move |cx| {
        let (i, j) = (cx.choose("signed", ds.len()), cx.choose("verified", ds.len()));
        let f = &fs[i][cx.choose("algorithm", 2)];
        let (bones, legacy, quiet, output) = (cx.flag("bones"), cx.flag("legacy"), cx.flag("quiet"), cx.flag("output"));
        let b = load(f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let ok = verify_as(&pk_of(&k)?, &b, &ds[j], quiet, output, legacy).is_ok();
        let want = i == j && (legacy || f.alg == ALG_PREHASHED);
        cx.saw((i, j, f.alg, bones, legacy, quiet, output, ok));
        if ok != want { return fail("data", format!("signed #{i}, verified #{j}: {ok}, expected {want}")); }
        Ok(())
    });
    // beyond every size at which an implementation may be tempted to stop reading
    let k1 = Key::nth(2);
    let top = cfg.t(26, 30);
    let p4 = part("sizes around every power of two", 0, move |cx| {
        let n = (1usize << (17 + cx.choose("log size", top - 16))) + cx.choose("excess", 2);
        let mut x: Vec<u8> = Vec::with_capacity(n + 1);
        x.extend((0..n as u32).map(|i| (i.wrapping_mul(0x9e37_79b1) >> 24) as u8));
        let legacy = cx.flag("legacy");
        let f = SigFile::make(&k1, if legacy { ALG_LEGACY } else { ALG_PREHASHED }, &x, "u", "t", b"x");
        let pk = pk_of(&k1)?;
        let b = load(&f, false).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        for edit in 0..6 {
            let i = match edit { 1 | 5 => n - 1, 2 => 65536, 3 => n / 2 + 1, _ => 0 };
            match edit { 0 => {} 4 => x.push(0), 5 => { x.truncate(i) } _ => x[i] ^= 4 }
            let ok = vbox(&pk, &b, &x, true).is_ok();
            cx.saw((n, legacy, edit, ok));
            if ok != (edit == 0) { return fail("data", format!("{}: {n} bytes signed (legacy {legacy}), edit {edit} at {i}", if ok { "altered data accepted" } else { "genuine refused" })); }
            match edit { 0 => {} 4 => { x.pop(); } 5 => {} _ => x[i] ^= 4 }
        }
        Ok(())
    }).timeout(300);
    let tx = texts();
    let p5 = part("text-like contents and what text processing does to them", 0, move |cx| {
        let d = cx.pick("data", &tx);
        let k = Key::nth(2);
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let f = SigFile::make(&k, alg, d, "u", "t", b"x");
        let bones = cx.flag("bones");
        let b = load(&f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let pk = pk_of(&k)?;
        let forms = normalised(d);
        if vbox(&pk, &b, d, true).is_err() { return fail("data", format!("genuine refused: {:?}", String::from_utf8_lossy(d))); }
        for (how, x) in &forms {
            if x == d { continue; }
            let ok = vbox(&pk, &b, x, true).is_ok();
            cx.saw((d, x, alg, bones, ok));
            if ok { return fail("data", format!("altered data accepted: {:?} with {how}", String::from_utf8_lossy(d))); }
            // and the other way round
            let g = SigFile::make(&k, alg, x, "u", "t", b"x");
            let c = load(&g, bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
            if vbox(&pk, &c, d, true).is_ok() { return fail("data", format!("altered data accepted: {how} undone, {:?}", String::from_utf8_lossy(d))); }
        }
        // all ordered pairs of contents
        for x in &tx { if x != d && vbox(&pk, &b, x, true).is_ok() { return fail("data", format!("{:?} accepted for {:?}", String::from_utf8_lossy(x), String::from_utf8_lossy(d))); } }
        Ok(())
    });
    // data made of blocks: exchanging, repeating, dropping and reordering whole blocks
    let kb = Key::nth(2);
    let sizes = [1usize, 2, 4, 8, 16, 64, 128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536];
    let p6 = part("arrangements of whole blocks", 0, move |cx| {
        let z = *cx.pick("block size", &sizes);
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let (n, many) = (3usize, if z > 8192 { 3 } else { 4 });
        let total: usize = (0..=many).map(|l| n.pow(l as u32)).sum();
        let arrangement = |mut i: usize| -> Vec<u8> {
            let mut len = 0;
            while i >= n.pow(len as u32) { i -= n.pow(len as u32); len += 1; }
            let mut x = vec![];
            for _ in 0..len { match i % n { 0 => x.resize(x.len() + z, 0), b => x.extend((0..z).map(|j| stream_byte(b as u64, j as u64))) } i /= n; }
            x
        };
        let i = cx.choose("signed", total);
        let d = arrangement(i);
        let f = SigFile::make(&kb, alg, &d, "u", "t", b"x");
        let b = load(&f, false).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let pk = pk_of(&kb)?;
        for j in 0..total {
            let x = arrangement(j);
            let ok = vbox(&pk, &b, &x, true).is_ok();
            cx.saw((z, alg, i, j, ok));
            if ok != (x == d) { return fail("data", format!("{}: blocks of {z} bytes, arrangement {i} signed, {j} verified", if ok { "altered data accepted" } else { "genuine refused" })); }
        }
        Ok(())
    });
    // the signature made over another message than the format says
    let kn = cfg.t(3usize, 4);
    let p7 = part("signatures over other messages", 0, move |cx| {
        let k = Key::nth(2);
        let d: &[u8] = [&b"the data"[..], b"", b"abc\n"][cx.choose("data", 3)];
        let (h, h32, sh, pkb) = (blake2b(64, d), blake2b(32, d), sha512(&[d]).to_vec(), k.pk_bytes());
        let pieces: [&[u8]; 14] = [b"", d, &h, &h32, &sh, b"t", b"u", b"ED", b"Ed", &k.keynum, &k.pk, &pkb, b"\n", &(d.len() as u64).to_le_bytes()];
        let n = 1 + cx.choose("pieces", kn);
        let msg: Vec<u8> = (0..n).flat_map(|_| pieces[cx.choose("piece", pieces.len())].to_vec()).collect();
        let pk = pk_of(&k)?;
        for form in 0..6 {
            let m = match form { 0 => msg.clone(), 1 => blake2b(64, &msg), 2 => blake2b(32, &msg), 3 => sha512(&[&msg]).to_vec(), 4 => hex(&msg).into_bytes(), _ => b64(&msg).into_bytes() };
            for alg in [ALG_PREHASHED, ALG_LEGACY] {
                let f = SigFile::over(&k, alg, &m, "u", "t", b"x");
                let right = if alg == ALG_PREHASHED { m == h } else { m == d };
                for bones in [false, true] {
                    let b = load(&f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
                    for legacy in [false, true] {
                        let ok = vbox(&pk, &b, d, legacy).is_ok();
                        let want = right && (legacy || alg == ALG_PREHASHED);
                        cx.saw((d, &m, alg, bones, legacy, ok));
                        if ok != want { return fail("data", format!("{}: the key signed {} for the data {} (algorithm {alg:?}, comment-less {bones}, legacy {legacy})", if ok { "accepted" } else { "refused" }, hex(&m), hex(d))); }
                    }
                }
            }
        }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7]
}

// ---------------------------------------------------------------------- C03
fn text_with(sigb: &[u8], global: &[u8], f: &SigFile) -> String {
    format!("untrusted comment: {}\n{}\ntrusted comment: {}\n{}\n", f.untrusted, b64(sigb), f.trusted, b64(global))
}
fn c03(cfg: &Cfg) -> Vec<Part> {
    let k = Key::nth(3);
    let d: Arc<Vec<u8>> = Arc::new(data(cfg.seed, 100));
    let nfix = cfg.t(1, 4);
    let fx: Arc<Vec<SigFile>> = Arc::new((0..nfix).flat_map(|i| [ALG_PREHASHED, ALG_LEGACY].map(|a| SigFile::make(&k, a, &d, "u", "trusted", &[i as u8]))).collect());
    let verdict = {
        let (k, d) = (k.clone(), d.clone());
        move |f: &SigFile, sigb: &[u8], global: &[u8], bones: bool| -> Result<bool, Fail> {
            let b = if bones { SignatureBones::from_bytes(sigb).ok().map(SignatureBox::from) } else { SignatureBox::from_string(&text_with(sigb, global, f)).ok() };
            Ok(match b { Some(b) => vbox(&pk_of(&k)?, &b, &d, true).is_ok(), None => false })
        }
    };
    let v1 = Arc::new(verdict);
    let judge = |cx: &Cx, what: String, ok: bool, same: bool, fp: u64| -> Res {
        cx.saw((fp, ok, same));
        if ok != same { return fail(if ok { "altered-accepted" } else { "genuine-refused" }, what); }
        Ok(())
    };
    let (fx1, v) = (fx.clone(), v1.clone());
    let p1 = part("every value of every signature byte", 0, move |cx| {
        let f = cx.pick("fixture", &fx1);
        let (pos, x) = (cx.choose("position", 74), cx.choose("xor", 256) as u8);
        let bones = cx.flag("bones");
        let mut s = f.sig_bytes();
        s[pos] ^= x;
        let ok = v(f, &s, &f.global, bones)?;
        judge(cx, format!("byte {pos} xor {x:#x} (bones {bones})"), ok, x == 0, (pos as u64) << 16 | (x as u64) << 8 | bones as u64 | (f.alg[1] as u64) << 32)
    });
    let (fx1, v) = (fx.clone(), v1.clone());
    let p2 = part("every value of every comment-signature byte", 0, move |cx| {
        let f = cx.pick("fixture", &fx1);
        let (pos, x) = (cx.choose("position", 64), cx.choose("xor", 256) as u8);
        let mut g = f.global.clone();
        g[pos] ^= x;
        let ok = v(f, &f.sig_bytes(), &g, false)?;
        judge(cx, format!("global signature byte {pos} xor {x:#x}"), ok, x == 0, (pos as u64) << 16 | (x as u64) | (f.alg[1] as u64) << 32)
    });
    let (fx1, v) = (fx.clone(), v1.clone());
    let p3 = part("other representations of S", 0, move |cx| {
        let f = cx.pick("fixture", &fx1);
        let (ks, kg) = (cx.choose("k-signature", 16), cx.choose("k-comment", 16));
        let bones = cx.flag("bones");
        if bones && kg > 0 { return Ok(()); }
        let mut f2 = f.clone();
        let Some(s) = add_l(&f.sig[32..], ks as u32) else { return Ok(()) };
        f2.sig[32..].copy_from_slice(&s);
        let Some(s) = add_l(&f.global[32..], kg as u32) else { return Ok(()) };
        f2.global[32..].copy_from_slice(&s);
        let ok = v(f, &f2.sig_bytes(), &f2.global, bones)?;
        judge(cx, format!("S + {ks}L, global S + {kg}L (bones {bones})"), ok, ks == 0 && kg == 0, ks as u64 | (kg as u64) << 8 | (bones as u64) << 16 | (f.alg[1] as u64) << 32)
    });
    let (fx1, v) = (fx.clone(), v1.clone());
    let p4 = part("every length", 0, move |cx| {
        let f = cx.pick("fixture", &fx1);
        let which = cx.choose("field", 3);
        let n = cx.choose("length", 161);
        let fill = *cx.pick("fill", &[0u8, 0xff, 0x3d]);
        let (mut s, mut g) = (f.sig_bytes(), f.global.clone());
        let want = if which < 2 { s.resize(n, fill); n == 74 } else { g.resize(n, fill); n == 64 };
        let ok = v(f, &s, &g, which == 1)?;
        judge(cx, format!("field {which} resized to {n}"), ok, want, (which as u64) << 32 | (n as u64) << 8 | fill as u64 | (f.alg[1] as u64) << 40)
    });
    let (fx1, k1, d1) = (fx.clone(), k.clone(), d.clone());
    let p5 = part("every character of the base64 lines", 0, move |cx| {
        let f = cx.pick("fixture", &fx1);
        let line = *cx.pick("line", &[1usize, 3]);
        let mut l = f.lines();
        let pos = cx.choose("position", l[line].len());
        let kind = cx.choose("edit", 2);
        let ch = cx.choose("char", 130);
        let ch: char = match ch { 128 => '\u{e9}', 129 => '\u{a0}', c => c as u8 as char };
        let mut cs: Vec<char> = l[line].chars().collect();
        if kind == 0 { cs[pos] = ch } else { cs.insert(pos, ch) }
        let orig = l[line].clone();
        l[line] = cs.into_iter().collect();
        // blanks around the field carry no information
        if l[line].trim() == orig || ch == '\n' || ch == '\r' { return Ok(()) }
        let t = l.map(|x| x + "\n").concat();
        let ok = verdict_text(&pk_of(&k1)?, &t, &d1, true).is_ok();
        cx.saw((line, pos, kind, ch, ok));
        if ok { return fail("altered-accepted", format!("line {line}: {ch:?} at {pos} (edit {kind})")); }
        Ok(())
    });
    // splice two valid signatures of the same key
    let (k1, d1) = (k.clone(), d.clone());
    let p6 = part("splices", 0, move |cx| {
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let d2 = data(99, 77);
        let same_data = cx.flag("same-data");
        let a = SigFile::make(&k1, alg, &d1, "u", "comment a", b"a");
        let b = SigFile::make(&k1, alg, if same_data { &d1 } else { &d2 }, "u", if cx.flag("same-comment") { "comment a" } else { "comment b" }, b"b");
        let m = cx.choose("mask", 32);
        let p = |bit: usize| if m >> bit & 1 == 1 { &b } else { &a };
        let mut f = a.clone();
        f.sig[..32].copy_from_slice(&p(0).sig[..32]);
        f.sig[32..].copy_from_slice(&p(1).sig[32..]);
        f.trusted = p(2).trusted.clone();
        f.global[..32].copy_from_slice(&p(3).global[..32]);
        f.global[32..].copy_from_slice(&p(4).global[32..]);
        let want = f.verifies(&k1, &d1, true);
        let ok = accepts(&pk_of(&k1)?, &f, &d1, true);
        cx.saw((alg, m, same_data, &a.trusted, &b.trusted, ok));
        if ok != want || (want && f != a && !(f == b && same_data) && !(f.sig == a.sig && f.global == a.global) ) { return fail("splice", format!("mask {m:05b}: {ok}, expected {want}")); }
        Ok(())
    });
    // swap halves, exchange data and comment signature
    let (fx1, v) = (fx, v1);
    let (k2, d2) = (k.clone(), d.clone());
    let p7 = part("swapped parts", 0, move |cx| {
        let f = cx.pick("fixture", &fx1);
        let o = SigFile::make(&k2, f.alg, &d2, "u", "trusted", b"another");
        let mut one = [0u8; 32];
        one[0] = 1;
        let parts = [&f.sig[..32], &f.sig[32..], &f.global[..32], &f.global[32..], &o.sig[..32], &o.sig[32..], &o.global[..32], &o.global[32..], &[0; 32], &one, &k2.pk[..]];
        // (the parts of another signature of the same data and comment are valid together)
        let ix: Vec<usize> = (0..4).map(|_| cx.choose("part", parts.len())).collect();
        let s = [&f.sig_bytes()[..10], parts[ix[0]], parts[ix[1]]].concat();
        let g = [parts[ix[2]], parts[ix[3]]].concat();
        let same = ix == [0, 1, 2, 3] || ix == [4, 5, 6, 7];
        let ok = v(f, &s, &g, false)?;
        judge(cx, format!("parts {ix:?}"), ok, same, ix.iter().fold(f.alg[1] as u64, |a, b| a * 11 + *b as u64))
    });
    // many signatures: what depends on the value of S shows up in some of them
    let (k1, d1) = (k.clone(), d.clone());
    let ns = cfg.t(1500, 30_000);
    let p8 = part("other representations of S, many signatures", 0, move |cx| {
        let i = cx.choose("signature", ns) as u32;
        let alg = if i % 8 == 7 { ALG_LEGACY } else { ALG_PREHASHED };
        let f = SigFile::make(&k1, alg, &d1, "u", "t", &i.to_le_bytes());
        let pk = pk_of(&k1)?;
        if !accepts(&pk, &f, &d1, true) { return fail("genuine-refused", format!("signature {i}")); }
        for ks in 1..16 {
            for (w, bones) in [(0, false), (0, true), (1, false)] {
                let mut g = f.clone();
                let part = if w == 0 { &f.sig[32..] } else { &f.global[32..] };
                let Some(s) = add_l(part, ks) else { continue };
                if w == 0 { g.sig[32..].copy_from_slice(&s) } else { g.global[32..].copy_from_slice(&s) }
                let ok = match load(&g, bones) { Some(b) => vbox(&pk, &b, &d1, true).is_ok(), None => false };
                cx.saw((i, ks, w, bones, ok));
                if ok { return fail("altered-accepted", format!("signature {i}: {} S + {ks}L accepted (bones {bones})", ["data", "comment"][w])); }
            }
        }
        // the negated, the shifted and the complemented scalar
        for e in 0..6 {
            let mut g = f.clone();
            let neg = |b: &[u8]| -> Vec<u8> { let s: Scalar = Option::<Scalar>::from(Scalar::from_canonical_bytes(b.try_into().unwrap())).unwrap_or(Scalar::ZERO); (-s).to_bytes().to_vec() };
            match e {
                0 => { let s = neg(&f.sig[32..]); g.sig[32..].copy_from_slice(&s) }
                1 => { let s = neg(&f.global[32..]); g.global[32..].copy_from_slice(&s) }
                2 => g.sig[31] ^= 0x80,
                3 => { g.sig[31] ^= 0x80; let s = neg(&f.sig[32..]); g.sig[32..].copy_from_slice(&s) }
                4 => g.global[31] ^= 0x80,
                _ => { g.sig[63] |= 0xe0; g.global[63] |= 0xe0; }
            }
            let ok = accepts(&pk, &g, &d1, true);
            cx.saw((i, e, ok, "shape"));
            if ok { return fail("altered-accepted", format!("signature {i}: edit {e}")); }
        }
        Ok(())
    });
    // rare shapes of R and S
    let p9 = part("rare signatures, every bit", 0, move |cx| {
        use crate::tables::*;
        let i = cx.choose("signature", SIGS_R.len() + SIGS_S.len());
        let f = sig_of(if i < SIGS_R.len() { SIGS_R[i] } else { SIGS_S[i - SIGS_R.len()] });
        let pk = pk_of(&sig_key())?;
        for bit in 0..512 {
            let mut g = f.clone();
            g.sig[bit / 8] ^= 1 << (bit % 8);
            let ok = match load(&g, true) { Some(b) => vbox(&pk, &b, SIG_DATA, true).is_ok(), None => false };
            cx.saw((i, bit, ok));
            if ok { return fail("altered-accepted", format!("{}: bit {bit}", hex(&f.sig))); }
        }
        for ks in 1..16 { if let Some(s) = add_l(&f.sig[32..], ks) {
            let mut g = f.clone();
            g.sig[32..].copy_from_slice(&s);
            let ok = match load(&g, true) { Some(b) => vbox(&pk, &b, SIG_DATA, true).is_ok(), None => false };
            cx.saw((i, 512 + ks, ok));
            if ok { return fail("altered-accepted", format!("{}: S + {ks}L", hex(&f.sig))); }
        } }
        Ok(())
    });
    let (k1, d1) = (k.clone(), d.clone());
    let p10 = part("text around and within the fields", 0, move |cx| {
        let f = SigFile::make(&k1, if cx.flag("legacy") { ALG_LEGACY } else { ALG_PREHASHED }, &d1, "u", "trusted", b"around");
        let other = SigFile::make(&k1, f.alg, b"other data", "u", "trusted", b"2");
        let which = *cx.pick("line", &[1usize, 3]);
        let (mut l, o) = (f.lines(), other.lines());
        let v = around(&l[which], &o[if cx.flag("the other field") { 4 - which } else { which }]);
        let c = cx.choose("text", v.len());
        l[which] = v[c].clone();
        let end = *cx.pick("line end", &["\n", "\r\n"]);
        let ok = verdict_text(&pk_of(&k1)?, &l.map(|x| x + end).concat(), &d1, true).is_ok();
        cx.saw((f.alg, which, &v[c], end, ok));
        if ok { return fail("altered-accepted", format!("line {which} replaced by {:?}", v[c])); }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10]
}

// ---------------------------------------------------------------------- C04
fn c04(cfg: &Cfg) -> Vec<Part> {
    let k = Key::nth(4);
    let d = b"the data".to_vec();
    let coms = {
        let mut v = vec!["trusted text", "", " ", "x", " padded ", "tab\t", "caf\u{e9}", "timestamp:1556193335\tfile:test", "trusted comment: trusted comment: "];
        if cfg.thorough { v.extend(["a somewhat longer trusted comment that spans more than one hash block together with the sixty-four bytes of the signature that precede it", "\u{a0}\u{2003}", "a\rb"]); }
        v
    };
    let (k1, d1, c1) = (k.clone(), d.clone(), coms.clone());
    let judge = |cx: &Cx, k: &Key, d: &[u8], text: &str, signed: &[&str]| -> Res {
        let want = match SigFile::parse(text) { Ok(Some(f)) => Some(f), Ok(None) => None, Err(()) => return Ok(()) };
        let want_ok = want.as_ref().is_some_and(|f| f.verifies(k, d, true));
        let got = SignatureBox::from_string(text);
        let ok = match &got { Ok(b) => vbox(&pk_of(k)?, b, d, true).is_ok(), Err(_) => false };
        cx.saw((text, ok));
        if ok != want_ok { return fail(if ok { "foreign-comment-accepted" } else { "genuine-comment-refused" }, format!("verdict {ok}, expected {want_ok}, text {text:?}")); }
        if ok {
            let b = got.unwrap();
            let w = want.unwrap();
            let t = b.trusted_comment().must("reading the trusted comment")?;
            if t != w.trusted || !signed.contains(&t.as_str()) { return fail("wrong-comment-reported", format!("trusted comment reported as {t:?}, signed {:?}", w.trusted)); }
            let u = b.untrusted_comment().must("reading the untrusted comment")?;
            if u != w.untrusted { return fail("wrong-untrusted", format!("untrusted comment reported as {u:?}, stored {:?}", w.untrusted)); }
        }
        Ok(())
    };
    let p1 = part("every edit of the comment", 0, move |cx| {
        let c = *cx.pick("comment", &c1);
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let mut f = SigFile::make(&k1, alg, &d1, "u", c, b"");
        let mut cs: Vec<char> = c.chars().collect();
        let kind = cx.choose("edit", 3);
        let pos = cx.choose("position", cs.len() + 1);
        match kind {
            0 => { let x = cx.choose("char", 129); cs.insert(pos, if x == 128 { '\u{a0}' } else { x as u8 as char }); }
            1 => { if pos < cs.len() { let x = cx.choose("char", 128); cs[pos] = x as u8 as char; } }
            _ => { if pos < cs.len() { cs.remove(pos); } }
        }
        f.trusted = cs.into_iter().collect();
        judge(cx, &k1, &d1, &f.text(), &[c])
    });
    let (k1, d1, c1) = (k.clone(), d.clone(), coms.clone());
    let p2 = part("comments of other signatures", 0, move |cx| {
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let (i, j) = (cx.choose("signed", c1.len()), cx.choose("shown", c1.len()));
        let with_global = cx.flag("with-its-signature");
        let mut f = SigFile::make(&k1, alg, &d1, "u", c1[i], b"1");
        let g = SigFile::make(&k1, alg, b"other data", "v", c1[j], b"2");
        f.trusted = g.trusted.clone();
        if with_global { f.global = g.global.clone(); }
        judge(cx, &k1, &d1, &f.text(), &[c1[i]])
    });
    let (k1, d1) = (k.clone(), d.clone());
    let p3 = part("line splices of three signatures", 0, move |cx| {
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let s = [SigFile::make(&k1, alg, &d1, "ua", "ta", b"1"), SigFile::make(&k1, alg, &d1, "ub", "tb", b"2"), SigFile::make(&k1, alg, b"other", "uc", "tc", b"3")];
        let mut t = String::new();
        for l in 0..4 { t += &s[cx.choose("line-from", 3)].lines()[l]; t.push('\n'); }
        judge(cx, &k1, &d1, &t, &["ta", "tb"])
    });
    let (k1, d1) = (k.clone(), d.clone());
    let ucs = comments();
    let p4 = part("untrusted comments have no influence", 0, move |cx| {
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let mut f = SigFile::make(&k1, alg, &d1, "u", "trusted", b"1");
        let x = cx.choose("untrusted", ucs.len() + 256);
        f.untrusted = if x < ucs.len() { ucs[x].clone() } else { format!("a{}b", (x - ucs.len()) as u8 as char) };
        if f.untrusted.contains('\n') { return Ok(()) }
        let good = cx.flag("altered");
        if good { f.sig[3] ^= 1; }
        judge(cx, &k1, &d1, &f.text(), &["trusted"])
    });
    // the library's own signatures report the comments they were given
    let coms = comments();
    let p5 = part("own signatures report their comments", 2, move |cx| {
        let t = cx.devpick("trusted", &coms).clone();
        let u = cx.devpick("untrusted", &coms).clone();
        let (_g, _) = rng_seed(5);
        let b = sign(None, &sk_of(&k)?, &d[..], Some(&t), Some(&u)).must("signing")?;
        let r = cx.devpick("route", &[0usize, 1, 6, 8, 11]);
        let b = route(b, *r)?;
        let ok = vbox(&pk_of(&k)?, &b, &d, false).is_ok();
        cx.saw((&t, &u, r, ok));
        if !ok { return fail("genuine-comment-refused", format!("comment {t:?}")); }
        if b.trusted_comment().must("trusted comment")? != t || b.untrusted_comment().must("untrusted comment")? != u {
            return fail("wrong-comment-reported", format!("signed {t:?}/{u:?}, reported {:?}/{:?}", b.trusted_comment().ok(), b.untrusted_comment().ok()));
        }
        Ok(())
    });
    // every character, within the text and added to it
    let full = cfg.thorough;
    let (k1, k2, d1) = (Key::nth(4), Key::nth(4), b"the data".to_vec());
    let rs = runs();
    let p9 = part("every character of Unicode, every run", 0, move |cx| {
        let i = cx.choose("pack", PACKS + rs.len());
        let c = if i < PACKS { pack(i) } else { rs[i - PACKS].clone() };
        let mut f = SigFile::make(&k1, ALG_PREHASHED, b"the data", "u", &c, b"");
        judge(cx, &k1, b"the data", &f.text(), &[&c])?;
        f.untrusted = c.clone();
        judge(cx, &k1, b"the data", &f.text(), &[&c])?;
        f.trusted.pop();
        judge(cx, &k1, b"the data", &f.text(), &[&c])
    });
    let p10 = part("every character added to the comment", 0, move |cx| {
        let Some(c) = nth_char(full, cx.choose("char", nchars(full))) else { return Ok(()) };
        let mut f = SigFile::make(&k2, ALG_PREHASHED, &d1, "u", "ab", b"");
        f.trusted = match cx.choose("position", 3) { 0 => format!("{c}ab"), 1 => format!("a{c}b"), _ => format!("ab{c}") };
        judge(cx, &k2, &d1, &f.text(), &["ab"])
    });
    // the prefixes are part of the format
    let k1 = Key::nth(4);
    let p6 = part("prefixes", 0, move |cx| {
        let f = SigFile::make(&k1, ALG_PREHASHED, b"the data", "u", "t", b"1");
        let mut l = f.lines();
        let line = *cx.pick("line", &[0usize, 2]);
        let n = if line == 0 { 19 } else { 17 };
        let pos = cx.choose("position", n);
        let kind = cx.choose("edit", 3);
        let mut cs: Vec<char> = l[line].chars().collect();
        match kind { 0 => { cs.remove(pos); } 1 => { cs[pos] = *cx.pick("char", &['X', ' ', '\t', '\0', '\u{e9}', '\u{a0}', 't', 'T']); } _ => cs.insert(pos, *cx.pick("char", &['X', ' ', '\t', '\u{feff}', '\u{e9}'])) }
        l[line] = cs.into_iter().collect();
        judge(cx, &k1, b"the data", &l.map(|x| x + "\n").concat(), &["t"])
    });
    let top = cfg.t(20, 24);
    let p7 = part("long comments", 0, move |cx| {
        let k = Key::nth(4);
        let n = *cx.pick("length", &doublings(9, top));
        let c = long_line(n);
        let own = cx.flag("own signature");
        let (_g, _) = rng_seed(5);
        let f = if own {
            let b = sign(None, &sk_of(&k)?, &b"the data"[..], Some(&c), Some("u")).must("signing")?;
            if b.trusted_comment().must("trusted comment")? != c { return fail("wrong-comment-reported", format!("a comment of {n} bytes is reported otherwise")); }
            match SigFile::parse(&b.to_string()) { Ok(Some(f)) if f.trusted == c => f, _ => return fail("wrong-comment-reported", format!("a comment of {n} bytes is stored otherwise")) }
        } else { SigFile::make(&k, ALG_PREHASHED, b"the data", "u", &c, b"") };
        let pk = pk_of(&k)?;
        for e in 0..9 {
            let mut g = f.clone();
            match e {
                0 => {}
                1 => { g.trusted.pop(); }
                2 => g.trusted.push('x'),
                3 => g.trusted.replace_range(..1, "#"),
                4 => g.trusted.replace_range(n / 2..n / 2 + 1, "#"),
                5 => g.trusted.replace_range(n - 1.., "#"),
                6 => g.trusted.push(' '),
                7 => g.trusted.truncate(n / 2),
                _ => g.trusted += &f.trusted,
            }
            let r = SignatureBox::from_string(&g.text());
            let ok = match &r { Ok(b) => vbox(&pk, b, b"the data", false).is_ok(), Err(_) => false };
            cx.saw((n, own, e, ok));
            if ok != (e == 0) { return fail(if ok { "foreign-comment-accepted" } else { "genuine-comment-refused" }, format!("comment of {n} bytes, edit {e}: {ok}")); }
            if e == 0 && r.must("parsing")?.trusted_comment().must("trusted comment")? != c { return fail("wrong-comment-reported", format!("comment of {n} bytes")); }
        }
        Ok(())
    });
    // the comment signature put together from halves of others
    let p8 = part("comment signatures made of other halves", 0, move |cx| {
        let k = Key::nth(4);
        let d = b"the data";
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let f = SigFile::make(&k, alg, d, "u", "signed text", b"1");
        let o = SigFile::make(&k, alg, d, "u", "other text", b"2");
        let mut one = [0u8; 32];
        one[0] = 1;
        let pool = [&f.global[..32], &f.global[32..], &f.sig[..32], &f.sig[32..], &o.global[..32], &o.global[32..], &o.sig[..32], &o.sig[32..], &[0; 32], &one, &k.pk[..], &[0xff; 32], &L_LE[..]];
        let mut g = f.clone();
        g.trusted = cx.pick("comment", &["signed text", "other text", "", "forged text", "signed text "]).to_string();
        g.global = [pool[cx.choose("first half", pool.len())], pool[cx.choose("second half", pool.len())]].concat();
        judge(cx, &k, d, &g.text(), &["signed text"])
    });
    // the comment signature made over another message
    let kn = cfg.t(3usize, 4);
    let p11 = part("comment signatures over other messages", 0, move |cx| {
        let k = Key::nth(4);
        let d = b"the data";
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let t = *cx.pick("comment", &["signed text", ""]);
        let f = SigFile::make(&k, alg, d, "u", t, b"1");
        let prefixed = format!("trusted comment: {t}");
        let line = format!("trusted comment: {t}\n");
        let (sb, b64sig, h, pkb) = (f.sig_bytes(), b64(&f.sig_bytes()), blake2b(64, d), k.pk_bytes());
        let pieces: [&[u8]; 15] = [b"", &f.sig, &sb, &f.sig[..32], &f.sig[32..], t.as_bytes(), prefixed.as_bytes(), line.as_bytes(), d, &h, b"u", &k.keynum, &k.pk, &pkb, b64sig.as_bytes()];
        let n = 1 + cx.choose("pieces", kn);
        let msg: Vec<u8> = (0..n).flat_map(|_| pieces[cx.choose("piece", pieces.len())].to_vec()).collect();
        for form in 0..6 {
            let m = match form { 0 => msg.clone(), 1 => blake2b(64, &msg), 2 => blake2b(32, &msg), 3 => sha512(&[&msg]).to_vec(), 4 => hex(&msg).into_bytes(), _ => b64(&msg).into_bytes() };
            let mut g = f.clone();
            g.global = ed_sign(&k.seed, b"2", &m).to_vec();
            judge(cx, &k, d, &g.text(), &[t])?;
        }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6, p7, p8, p9, p10, p11]
}

// ---------------------------------------------------------------------- C05
fn c05(cfg: &Cfg) -> Vec<Part> {
    let d = data(cfg.seed, 33);
    let keys: Vec<Key> = (0..cfg.t(4, 10)).map(|i| Key::nth(500 + i)).collect();
    let kns = keynums();
    let all: Arc<Vec<Key>> = Arc::new(keys.iter().flat_map(|k| kns.iter().map(|n| k.with_keynum(*n)).chain([k.clone()]).collect::<Vec<_>>()).collect());
    let sigs: Arc<Vec<[SigFile; 2]>> = Arc::new(all.iter().map(|k| [ALG_PREHASHED, ALG_LEGACY].map(|a| SigFile::make(k, a, &d, "u", "t", b""))).collect());
    let (a1, s1, d1) = (all.clone(), sigs.clone(), d.clone());
    let p1 = part("all pairs", 0, move |cx| {
        let (i, j) = (cx.choose("signer", a1.len()), cx.choose("verifier", a1.len()));
        let alg = cx.choose("algorithm", 2);
        let bones = cx.flag("bones");
        let b = load(&s1[i][alg], bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let ok = vbox(&pk_of(&a1[j])?, &b, &d1, true).is_ok();
        let want = a1[i].pk == a1[j].pk && a1[i].keynum == a1[j].keynum;
        cx.saw((i, j, alg, bones, ok));
        if ok != want { return fail("wrong-key", format!("signed by #{i}, verified with #{j}: {ok}, expected {want}")); }
        Ok(())
    });
    let (a1, s1, d1) = (all, sigs, d.clone());
    let p2 = part("every byte of the public key", 0, move |cx| {
        let i = cx.choose("signer", 2) * (a1.len() / 2);
        let alg = cx.choose("algorithm", 2);
        let bones = cx.flag("bones");
        let (pos, x) = (cx.choose("position", 40), cx.choose("xor", 256) as u8);
        let mut pb = a1[i].pk_bytes();
        pb[2 + pos] ^= x;
        let Ok(pk) = PublicKey::from_bytes(&pb) else { return if x == 0 { fail("setup:pk", "genuine key refused") } else { Ok(()) } };
        let b = load(&s1[i][alg], bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        let ok = vbox(&pk, &b, &d1, true).is_ok();
        cx.saw((i, pos, x, alg, bones, ok));
        if ok != (x == 0) { return fail("wrong-key", format!("byte {pos} of the public key xor {x:#x}: {ok}")); }
        Ok(())
    });
    // identifiers differing in several bytes at once, and permutations
    let d1 = d.clone();
    let p3 = part("pairs of identifier bytes", 0, move |cx| {
        let k = Key::nth(520);
        let (i, j) = (cx.choose("i", 8), cx.choose("j", 8));
        let kind = cx.choose("edit", 4);
        let mut n = k.keynum;
        match kind { 0 => n.swap(i, j), 1 => { n[i] ^= 1; n[j] ^= 1; } 2 => { n[i] = n[i].wrapping_add(1); n[j] = n[j].wrapping_sub(1); } _ => { n[i] ^= 0x80; n[j] ^= 0x80; n.reverse(); } }
        let f = SigFile::make(&k, ALG_PREHASHED, &d1, "u", "t", b"");
        let side = cx.flag("signature-side");
        let k2 = k.with_keynum(n);
        let f2 = SigFile { keynum: if side { n } else { k.keynum }, ..f };
        let pk = if side { &k } else { &k2 };
        let ok = accepts(&pk_of(pk)?, &f2, &d1, true);
        cx.saw((i, j, kind, side, ok));
        if ok != (n == k.keynum) { return fail("wrong-key", format!("identifier {} against {}: {ok}", hex(&n), hex(&k.keynum))); }
        Ok(())
    });
    // the library's own signatures
    let d2 = d.clone();
    let p4 = part("own signatures, all pairs", 0, move |cx| {
        let keys: Vec<Key> = (0..3).map(|i| Key::nth(530 + i)).collect();
        let (i, j, n, m) = (cx.choose("signer", 3), cx.choose("verifier", 3), cx.choose("signer-id", 3), cx.choose("verifier-id", 3));
        let (a, b) = (keys[i].with_keynum(keys[n].keynum), keys[j].with_keynum(keys[m].keynum));
        let (_g, _) = rng_seed(9);
        let s = sign(None, &sk_of(&a)?, &d[..], Some("t"), Some("u")).must("signing")?;
        let ok = vbox(&pk_of(&b)?, &s, &d, false).is_ok();
        cx.saw((i, j, n, m, ok));
        if ok != (i == j && n == m) { return fail("wrong-key", format!("key {i} id {n} verified with key {j} id {m}: {ok}")); }
        Ok(())
    });
    let top = cfg.t(20, 24);
    let p5 = part("sizes of data and comment", 0, move |cx| {
        let a = Key::nth(540);
        let b = Key::nth(541);
        let long = cx.flag("long comment");
        let n = *cx.pick("length", &doublings(7, top));
        let d = if long { b"d".to_vec() } else { data(5, n) };
        let c = long_line(if long { n } else { 3 });
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let f = SigFile::make(&a, alg, &d, "u", &c, b"");
        for (i, (k, want)) in [(a.clone(), true), (b.clone(), false), (b.with_keynum(a.keynum), false), (a.with_keynum(b.keynum), false)].iter().enumerate() {
            for bones in [false, true] {
                let s = load(&f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
                let ok = vbox(&pk_of(k)?, &s, &d, true).is_ok();
                cx.saw((long, n, alg, i, bones, ok));
                if ok != *want { return fail("wrong-key", format!("{n} bytes (long comment {long}): verdict {ok} under key variant {i}")); }
            }
        }
        Ok(())
    }).timeout(300);
    // identifiers that some way of writing them down might confuse
    let p6 = part("identifiers that look alike when written", 0, move |cx| {
        let k = Key::nth(520);
        let i = cx.choose("position", 7);
        let vals: Vec<[u8; 2]> = (0..81u32).map(|v| [(v / 27 * 16 + v / 9 % 3) as u8, (v / 3 % 3 * 16 + v % 3) as u8]).chain([[0x0a, 0x0d], [0x0d, 0x0a], [0xff, 0xff], [0x7f, 0xff], [0x61, 0x41], [0x41, 0x61], [0x41, 0x41], [0x61, 0x61], [0xc3, 0xa9], [0x80, 0x00], [0xef, 0xbf], [0x0a, 0x01], [0x01, 0x0a], [0x64, 0x01], [0x01, 0x64]]).collect();
        let with = |v: [u8; 2]| { let mut n = k.keynum; n[i] = v[0]; n[i + 1] = v[1]; n };
        let a = cx.choose("signer's", vals.len());
        let f = SigFile::make(&k.with_keynum(with(vals[a])), ALG_PREHASHED, &d2, "u", "t", b"");
        let s = load(&f, false).ok_or(()).or_else(|_| fail("setup:parse", "a genuine signature was not parsed"))?;
        for (b, v) in vals.iter().enumerate() {
            let ok = vbox(&pk_of(&k.with_keynum(with(*v)))?, &s, &d2, false).is_ok();
            if ok != (a == b) { return fail("wrong-key", format!("identifier {} against {}: {ok}", hex(&with(vals[a])), hex(&with(*v)))); }
        }
        cx.bulk(vals.len() as u64 - 1);
        cx.saw((i, a));
        Ok(())
    });
    vec![p1, p2, p3, p4, p5, p6]
}

// ---------------------------------------------------------------------- C06
fn c06(cfg: &Cfg) -> Vec<Part> {
    let k = Key::nth(6);
    let seed = cfg.seed;
    let ds: Arc<Vec<Vec<u8>>> = Arc::new([0usize, 10, 64, 200].iter().map(|&n| data(seed, n)).collect());
    let fx: Arc<Vec<[SigFile; 2]>> = Arc::new(ds.iter().map(|d| [ALG_PREHASHED, ALG_LEGACY].map(|a| SigFile::make(&k, a, d, "u", "t", b""))).collect());
    let (k1, ds1, fx1) = (k.clone(), ds.clone(), fx.clone());
    let nd = cfg.t(1, 4);
    let p1 = part("all algorithm identifiers", 0, move |cx| {
        let di = cx.choose("data", nd) ;
        let di = if nd == 1 { 1 } else { di };
        let (hi, lo) = (cx.choose("first", 256) as u8, cx.choose("second", 256) as u8);
        for base in 0..2 { for bones in [false, true] { for legacy in [false, true] {
            let mut f = fx1[di][base].clone();
            f.alg = [hi, lo];
            let b = load(&f, bones);
            let known = f.alg == ALG_PREHASHED || f.alg == ALG_LEGACY;
            if b.is_some() != known { return fail("identifier", format!("identifier {:02x}{:02x}: parsed {}, supported {known}", hi, lo, b.is_some())); }
            let want = f.alg == fx1[di][base].alg && (legacy || f.alg == ALG_PREHASHED);
            let ok = match &b { Some(b) => {
                if b.is_prehashed() != (f.alg == ALG_PREHASHED) { return fail("announced", "is_prehashed disagrees with the identifier"); }
                vbox(&pk_of(&k1)?, b, &ds1[di], legacy).is_ok()
            } None => false };
            cx.saw((di, hi, lo, base, bones, legacy, ok));
            if ok != want { return fail("policy", format!("{:02x}{:02x} on a {} signature, legacy allowed {legacy}, bones {bones}: {ok}, expected {want}", hi, lo, ["prehashed", "legacy"][base])); }
        } } }
        Ok(())
    });
    let k1 = k.clone();
    let p2 = part("policy", 0, move |cx| {
        let di = cx.choose("data", ds.len());
        let base = cx.choose("algorithm", 2);
        let (bones, legacy, quiet, output) = (cx.flag("bones"), cx.flag("legacy"), cx.flag("quiet"), cx.flag("output"));
        let damage = cx.choose("damage", 4);
        let mut f = fx[di][base].clone();
        match damage { 0 => {} 1 => f.sig[5] ^= 1, 2 => f.keynum[0] ^= 1, _ => { if bones { return Ok(()) } f.global[40] ^= 1 } }
        let b = load(&f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a signature was not parsed"))?;
        let ok = verify_as(&pk_of(&k1)?, &b, &ds[di], quiet, output, legacy).is_ok();
        let want = damage == 0 && (base == 0 || legacy);
        cx.saw((di, base, bones, legacy, quiet, output, damage, ok));
        if ok != want { return fail("policy", format!("data {di} alg {base} bones {bones} legacy {legacy} damage {damage}: {ok}, expected {want}")); }
        Ok(())
    });
    let lens = lengths(false);
    let coms = comments();
    let p3 = part("new signatures are prehashed", 2, move |cx| {
        let d = data(seed, *cx.devpick("length", &lens));
        let c = cx.devpick("comment", &coms);
        let (_g, _) = rng(super::verify1::rng_kind(cx.dev("randomness", 4)));
        let pk = pk_of(&k)?;
        let give = cx.dev("give-pk", 2) == 1;
        let b = sign(give.then_some(&pk), &sk_via(&k, cx.dev("sk-route", SK_ROUTES.len()))?, &d[..], Some(c), None).must("signing")?;
        let ok = vbox(&pk, &b, &d, false).is_ok();
        let bytes = SignatureBones::from(b.clone()).to_bytes();
        cx.saw((d.len(), c, give, ok));
        if !b.is_prehashed() || bytes[..2] != ALG_PREHASHED || !ok { return fail("new-not-prehashed", format!("identifier {:?}, prehashed {}, accepted without legacy {ok}", &bytes[..2], b.is_prehashed())); }
        Ok(())
    });
    let top = cfg.t(22, 26);
    let p4 = part("policy for every size", 0, move |cx| {
        let k = Key::nth(6);
        let long = cx.flag("long comment");
        let n = *cx.pick("length", &doublings(7, if long { 20 } else { top }));
        let d = if long { b"d".to_vec() } else { data(6, n) };
        let c = long_line(if long { n } else { 3 });
        let pk = pk_of(&k)?;
        for (base, alg) in [ALG_PREHASHED, ALG_LEGACY].into_iter().enumerate() {
            let f = SigFile::make(&k, alg, &d, "u", &c, b"");
            for relabel in [false, true] { for bones in [false, true] {
                let mut g = f.clone();
                if relabel { g.alg = if base == 0 { ALG_LEGACY } else { ALG_PREHASHED }; }
                let b = load(&g, bones).ok_or(()).or_else(|_| fail("setup:parse", "a signature was not parsed"))?;
                for legacy in [false, true] {
                    let ok = vbox(&pk, &b, &d, legacy).is_ok();
                    let want = !relabel && (base == 0 || legacy);
                    cx.saw((long, n, base, relabel, bones, legacy, ok));
                    if ok != want { return fail("policy", format!("{n} bytes (long comment {long}), alg {base} relabelled {relabel}, bones {bones}, legacy {legacy}: {ok}, expected {want}")); }
                }
            } }
        }
        let (_g, _) = rng_seed(6);
        let b = sign(None, &sk_of(&k)?, &d[..], Some(&c), None).must("signing")?;
        if !b.is_prehashed() || vbox(&pk, &b, &d, false).is_err() { return fail("new-not-prehashed", format!("signing {n} bytes (long comment {long})")); }
        Ok(())
    }).timeout(300);
    // neither comment says anything about the algorithm
    let p5 = part("comments that speak of the algorithm", 0, move |cx| {
        let k = Key::nth(6);
        let words = ["", "t", "timestamp:1556193335\tfile:x", "timestamp:1\tfile:x\thashed", "timestamp:1\tfile:x\tprehashed", "hashed", "\thashed", "prehashed", "pre-hashed", "prehash", "legacy", "\tlegacy", "allow-legacy", "allow_legacy=true", "ED", "Ed", "\tED", "algorithm:ED", "algorithm: Ed", "alg=ED", "signature from minisign secret key", "signature from rsign secret key", "version:1", "version:0", "minisign 0.1", "-H", "-l", "BLAKE2b", "blake2b-512", "ed25519", "ed25519ph", "hash:blake2b", "HASHED", "timestamp:0", "not hashed", "unhashed", "RUQf6LRCGA9i55", "RWQf6LRCGA9i55"];
        let (t, u) = (*cx.pick("trusted", &words), *cx.pick("untrusted", &words));
        let pk = pk_of(&k)?;
        for (base, alg) in [ALG_PREHASHED, ALG_LEGACY].into_iter().enumerate() {
            let f = SigFile::make(&k, alg, b"the data", u, t, b"");
            for relabel in [false, true] {
                let mut g = f.clone();
                if relabel { g.alg = if base == 0 { ALG_LEGACY } else { ALG_PREHASHED }; }
                let b = load(&g, false).ok_or(()).or_else(|_| fail("setup:parse", "a signature was not parsed"))?;
                if b.is_prehashed() != (g.alg == ALG_PREHASHED) { return fail("announced", format!("is_prehashed disagrees with the identifier under comments {t:?}, {u:?}")); }
                for legacy in [false, true] {
                    let ok = vbox(&pk, &b, b"the data", legacy).is_ok();
                    let want = !relabel && (base == 0 || legacy);
                    cx.saw((t, u, base, relabel, legacy, ok));
                    if ok != want { return fail("policy", format!("comments {t:?}, {u:?}: alg {base} relabelled {relabel}, legacy {legacy}: {ok}, expected {want}")); }
                }
            }
        }
        let (_g, _) = rng_seed(6);
        let b = sign(None, &sk_of(&k)?, &b"the data"[..], Some(t), Some(u)).must("signing")?;
        if !b.is_prehashed() || vbox(&pk, &b, b"the data", false).is_err() { return fail("new-not-prehashed", format!("signing under comments {t:?}, {u:?}")); }
        Ok(())
    });
    vec![p1, p2, p3, p4, p5]
}

// ---------------------------------------------------------------------- C23
/// Encodings that are no usable key: small order in any encoding, or undecodable.
fn degenerate() -> Vec<([u8; 32], Option<EdwardsPoint>)> {
    let mut v: Vec<([u8; 32], Option<EdwardsPoint>)> = vec![];
    let mut add = |b: [u8; 32], p: Option<EdwardsPoint>| if !v.iter().any(|x| x.0 == b) { v.push((b, p)) };
    for t in EIGHT_TORSION.iter() {
        let b = t.compress().to_bytes();
        add(b, Some(*t));
        let mut c = b; c[31] ^= 0x80; // x = 0 with the sign bit
        if t.compress().decompress() == CompressedEdwardsY(c).decompress() { add(c, Some(*t)); }
    }
    // y + p for y < 19, both signs
    for y in 0u8..19 {
        let mut b = [0xff; 32];
        b[0] = 0xed + y;
        b[31] = 0x7f;
        for s in [0x7f, 0xff] {
            b[31] = s;
            let p = CompressedEdwardsY(b).decompress();
            match p { Some(p) if p.is_small_order() => add(b, Some(p)), None => add(b, None), _ => {} }
        }
    }
    // p - 1, p + 1 etc. are above; off-curve small y
    for y in 0u8..60 {
        for s in [0, 0x80] {
            let mut b = [0; 32];
            b[0] = y;
            b[31] = s;
            let p = CompressedEdwardsY(b).decompress();
            match p { None => add(b, None), Some(p) if p.is_small_order() => add(b, Some(p)), _ => {} }
        }
    }
    // the x = 0 encodings with the sign bit, which some decoders accept
    for (b, p) in [([1u8, 0x80], 0), ([0xec, 0xff], 4)] {
        let mut e = if b[0] == 1 { [0; 32] } else { [0xff; 32] };
        e[0] = b[0];
        e[31] = b[1];
        add(e, Some(EIGHT_TORSION[p]));
    }
    v
}
fn c23(cfg: &Cfg) -> Vec<Part> {
    let keys = Arc::new(degenerate());
    let nd = cfg.t(12, 64);
    let k1 = keys.clone();
    // forge: R = sB - hA for a guessed h mod 8, so that one of eight guesses satisfies the equation
    let forge = |pk: &[u8; 32], a: EdwardsPoint, msg: &[u8], s: u64, guess: u64| -> ([u8; 64], bool) {
        let sc = Scalar::from(s);
        let r = EdwardsPoint::mul_base(&sc) - a * Scalar::from(guess);
        let rb = r.compress().to_bytes();
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(&rb);
        sig[32..].copy_from_slice(sc.as_bytes());
        let h = hram(&rb, pk, msg);
        let eq = EdwardsPoint::mul_base(&sc) - a * h;
        (sig, eq.compress().to_bytes() == rb)
    };
    let p1 = part("forgeries", 0, move |cx| {
        let (pk, a) = cx.pick("key", &k1);
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let bones = cx.flag("bones");
        let d = vec![cx.choose("data", nd) as u8; 3];
        let s = *cx.pick("s", &[0u64, 1, 5]);
        let m = if alg == ALG_PREHASHED { blake2b(64, &d) } else { d.clone() };
        let g = cx.choose("guess", 8) as u64;
        let (sig, eq) = forge(pk, a.unwrap_or(EIGHT_TORSION[0]), &m, s, g);
        let mut f = SigFile { untrusted: "u".into(), alg, keynum: [1; 8], sig, trusted: String::new(), global: vec![0; 64] };
        // find a comment whose signature can be forged too
        let mut both = false;
        if !bones {
            for c in 0..32 {
                f.trusted = format!("c{c}");
                let (gs, geq) = forge(pk, a.unwrap_or(EIGHT_TORSION[0]), &[&f.sig[..], f.trusted.as_bytes()].concat(), s, g);
                f.global = gs.to_vec();
                if geq { both = true; break; }
            }
        }
        let key = Key { seed: [0; 32], keynum: [1; 8], pk: *pk };
        let Ok(p) = PublicKey::from_bytes(&key.pk_bytes()) else { cx.saw((pk, "unusable")); return Ok(()) };
        let b = load(&f, bones).ok_or(()).or_else(|_| fail("setup:parse", "a well-formed signature was not parsed"))?;
        let ok = vbox(&p, &b, &d, true).is_ok();
        cx.saw((pk, alg, bones, eq, both, ok));
        if ok { return fail("degenerate-accepted", format!("public key {} accepted a forgery (s={s}, guess {g}, bones {bones})", hex(pk))); }
        Ok(())
    });
    // R = A, S = 0 and other trivial values
    let k1 = keys.clone();
    let p2 = part("trivial signatures", 0, move |cx| {
        let (pk, _) = cx.pick("key", &k1);
        let (r, _) = cx.pick("r", &k1);
        let alg = *cx.pick("algorithm", &[ALG_PREHASHED, ALG_LEGACY]);
        let bones = cx.flag("bones");
        let si = cx.choose("s", 4);
        let mut sig = [0u8; 64];
        sig[..32].copy_from_slice(r);
        match si { 0 => {} 1 => sig[32..].copy_from_slice(&L_LE), 2 => sig[32] = 1, _ => sig[32..].fill(0xff) }
        let d = [cx.choose("data", 6) as u8];
        let f = SigFile { untrusted: "u".into(), alg, keynum: [1; 8], sig, trusted: "c".into(), global: sig.to_vec() };
        let key = Key { seed: [0; 32], keynum: [1; 8], pk: *pk };
        let Ok(p) = PublicKey::from_bytes(&key.pk_bytes()) else { cx.saw((pk, "unusable")); return Ok(()) };
        let Some(b) = load(&f, bones) else { return Ok(()) };
        let ok = vbox(&p, &b, &d, true).is_ok();
        cx.saw((pk, r, si, alg, bones, ok));
        if ok { return fail("degenerate-accepted", format!("public key {} accepted R={} S#{si}", hex(pk), hex(r))); }
        Ok(())
    });
    // signing with a degenerate public key supplied never succeeds
    let p3 = part("as supplied key when signing", 0, move |cx| {
        let (pk, _) = cx.pick("key", &keys);
        let k = Key::nth(23);
        let key = Key { seed: [0; 32], keynum: k.keynum, pk: *pk };
        let Ok(p) = PublicKey::from_bytes(&key.pk_bytes()) else { return Ok(()) };
        let (_g, _) = rng_kind_guard(cx.choose("randomness", 4));
        let r = sign(Some(&p), &sk_of(&k)?, &b"x"[..], Some("t"), None);
        cx.saw((pk, r.is_ok()));
        if r.is_ok() { return fail("degenerate-accepted", format!("signing succeeded with public key {}", hex(pk))); }
        Ok(())
    });
    // control: a key with a small-order component added is still a usable point; the verdict follows the group equation
    let p4 = part("usable keys stay usable", 0, move |cx| {
        let k = Key::nth(24 + cx.choose("key", 3) as u64);
        let t = cx.choose("torsion", 8);
        let a = CompressedEdwardsY(k.pk).decompress().unwrap() + EIGHT_TORSION[t];
        let key = Key { pk: a.compress().to_bytes(), ..k.clone() };
        let d = [cx.choose("data", 16) as u8];
        // sign under the combined key: valid exactly when h is a multiple of the torsion order
        let (sca, _) = secret_scalar(&k.seed);
        let r = Scalar::from(77u64 + d[0] as u64);
        let rb = EdwardsPoint::mul_base(&r).compress().to_bytes();
        let s = r + hram(&rb, &key.pk, &blake2b(64, &d)) * sca;
        let sig: [u8; 64] = [rb, *s.as_bytes()].concat().try_into().unwrap();
        let want = ed_verify(&key.pk, &blake2b(64, &d), &sig);
        let f = SigFile { untrusted: "u".into(), alg: ALG_PREHASHED, keynum: key.keynum, sig, trusted: String::new(), global: vec![] };
        let b = load(&f, true).ok_or(()).or_else(|_| fail("setup:parse", "not parsed"))?;
        let ok = vbox(&pk_of(&key)?, &b, &d, false).is_ok();
        cx.saw((t, d, ok));
        if t == 0 && !want { return fail("setup:reference", "reference refused its own signature"); }
        if ok != want { return fail("equation", format!("key {} verdict {ok}, group equation {want}", hex(&key.pk))); }
        Ok(())
    });
    vec![p1, p2, p3, p4]
}
fn rng_kind_guard(k: usize) -> (RngGuard, RngLog) { rng(rng_kind(k)) }

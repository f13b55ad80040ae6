//! C16, C20, C21: what signing produces.
use crate::checks::keys::box_bytes;
use crate::engine::*;
use crate::env::*;
use crate::refm::*;
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use minisign::{sign, verify, KeyPair, PublicKey, PublicKeyBox, SecretKey, SecretKeyBox, SignatureBones, SignatureBox};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{self, Read, Seek, SeekFrom};
use std::rc::Rc;

pub fn checks() -> Vec<CheckDef> {
    vec![
        CheckDef { id: "C16", level: "model_checking", rule: "all pairs among the signatures made over a table of keys x messages x comments under each generator (constant, repeating, counting, periodic); one-time halves equal only for equal key and message; recovered one-time scalars have full range and unrelated differences", assumptions: &["secret keys are well-formed (their public half matches)"], parts: c16 },
        CheckDef { id: "C20", level: "translation_validation", rule: "every length up to the bound and boundary lengths, contents, keys, comments, storage routes; library output judged by the reference implementation and reference output by the library; key files both ways, with real scrypt; very large data", assumptions: &["the expected BLAKE2b-512 values of multi-gigabyte inputs were computed with CPython's hashlib"], parts: c20 },
        CheckDef { id: "C21", level: "model_checking", rule: "every bit of the key material and identifier of the supplied key, all pairs of keys, inconsistent secret keys, degenerate keys; success iff counterpart, output verified with the supplied key and equal to the output without it", assumptions: &[], parts: c21 },
    ]
}

// ---------------------------------------------------------------------- C16
const GENS: [&str; 8] = ["zeros", "ones", "repeats its first 64 bytes", "counter restarted", "period of two requests", "one byte repeated", "good", "32 of 64 bytes constant"];
fn gen16(g: usize) -> Box<dyn FnMut(&mut [u8]) -> Result<(), i32>> {
    let mut n = 0u64;
    match GENS[g] {
        "zeros" => Box::new(|b| { b.fill(0); Ok(()) }),
        "ones" => Box::new(|b| { b.fill(0xff); Ok(()) }),
        "repeats its first 64 bytes" => Box::new(|b| { for (i, x) in b.iter_mut().enumerate() { *x = stream_byte(16, i as u64 % 64); } Ok(()) }),
        "counter restarted" => Box::new(move |b| { for x in b.iter_mut() { n += 1; *x = n as u8; } Ok(()) }),
        "period of two requests" => Box::new(move |b| { n += 1; for (i, x) in b.iter_mut().enumerate() { *x = stream_byte(160 + n % 2, i as u64); } Ok(()) }),
        "one byte repeated" => Box::new(|b| { b.fill(0x42); Ok(()) }),
        "good" => Box::new(stream(161)),
        _ => Box::new(move |b| { n += 1; for (i, x) in b.iter_mut().enumerate() { *x = if i % 64 < 32 { 7 } else { stream_byte(162 + n, i as u64) }; } Ok(()) }),
    }
}
fn msgs16() -> Vec<Vec<u8>> {
    let mut v = vec![vec![], b"a".to_vec(), b"b".to_vec(), b"aa".to_vec(), data(16, 64), data(16, 128), data(17, 128), data(16, 300)];
    let mut x = data(16, 300); x[299] ^= 1; v.push(x);
    let mut x = data(16, 300); x[0] ^= 1; v.push(x);
    v
}
fn coms16() -> Vec<String> {
    let long = "c".repeat(200);
    vec!["".into(), "a".into(), "b".into(), "a ".into(), long.clone(), long.clone() + "x", long + "y"]
}
fn keys16() -> Vec<Key> {
    let a = Key::nth(16);
    let mut s = a.seed; s[31] ^= 1; // seeds that differ in one bit
    let mut t = a.seed; t[0] ^= 1;
    vec![a.clone(), a.with_keynum([0; 8]), Key::new(s, a.keynum), Key::new(t, a.keynum), Key::nth(17), Key::new([0; 32], a.keynum), Key::new([0xff; 32], [0xff; 8])]
}
#[derive(Clone)]
struct Made { seed: [u8; 32], pk: [u8; 32], items: [(Vec<u8>, [u8; 64]); 2] } // (message signed, signature)
/// Sign with the library, under a freshly started generator.
fn made16(g: usize, k: &Key, d: &[u8], c: &str) -> Result<Made, Fail> {
    let (_g, _) = rng(gen16(g));
    let b = sign(None, &sk_of(k)?, d, Some(c), None).must("signing")?;
    let Ok(Some(f)) = SigFile::parse(&b.to_string()) else { return fail("format", "the reference cannot parse a new signature".to_string()) };
    let global: [u8; 64] = f.global[..].try_into().unwrap();
    Ok(Made { seed: k.seed, pk: k.pk, items: [(blake2b(64, d), f.sig), ([&f.sig[..], c.as_bytes()].concat(), global)] })
}
/// The one-time scalar behind a signature, from the secret key.
fn nonce(seed: &[u8; 32], pk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> Scalar {
    let (a, _) = secret_scalar(seed);
    let s: Scalar = Option::<Scalar>::from(Scalar::from_canonical_bytes(sig[32..].try_into().unwrap())).unwrap_or(Scalar::ZERO);
    s - hram(&sig[..32], pk, msg) * a
}
fn c16_pair(what: &str, a: &Made, b: &Made) -> Res {
    for (i, (m, s)) in a.items.iter().enumerate() {
        for (j, (n, t)) in b.items.iter().enumerate() {
            if s[..32] == t[..32] && (a.seed != b.seed || m != n) {
                return fail("one-time-value-reused", format!("{what}: the {} of one and the {} of the other share the one-time half {} ({} keys)", ["signature", "global signature"][i], ["signature", "global signature"][j], hex(&s[..32]), if a.seed == b.seed { "same" } else { "different" }));
            }
        }
    }
    Ok(())
}
thread_local! { static TABLE16: RefCell<HashMap<(usize, usize), Rc<Made>>> = RefCell::default(); }
fn c16(cfg: &Cfg) -> Vec<Part> {
    let (keys, msgs, coms) = (keys16(), msgs16(), coms16());
    let n = keys.len() * msgs.len() * coms.len();
    let get = move |g: usize, i: usize| -> Result<Rc<Made>, Fail> {
        if let Some(m) = TABLE16.with(|t| t.borrow().get(&(g, i)).cloned()) { return Ok(m); }
        let (k, r) = (&keys[i % keys.len()], i / keys.len());
        let m = Rc::new(made16(g, k, &msgs[r % msgs.len()], &coms[r / msgs.len()])?);
        TABLE16.with(|t| t.borrow_mut().insert((g, i), m.clone()));
        Ok(m)
    };
    let g2 = get.clone();
    let p1 = part("all pairs of signatures", 0, move |cx| {
        let g = cx.choose("generator", GENS.len());
        let i = cx.choose("one", n);
        let j = cx.choose("other", n);
        if j < i { return Ok(()); }
        let (a, b) = (g2(g, i)?, g2(g, j)?);
        cx.saw((g, i, j));
        c16_pair(&format!("generator {}", GENS[g]), &a, &b)?;
        // the two halves of one call as well
        if i == j && a.items[0].1[..32] == a.items[1].1[..32] { return fail("one-time-value-reused", format!("generator {}: signature and global signature share the one-time half", GENS[g])); }
        Ok(())
    });
    // generators that behave differently in the two calls
    let p2 = part("pairs of generators", 0, move |cx| {
        let (g, h) = (cx.choose("generator of one", GENS.len()), cx.choose("generator of the other", GENS.len()));
        let (i, j) = (cx.choose("one", 70), cx.choose("other", 70));
        if g == h { return Ok(()); }
        cx.saw((g, h, i, j));
        c16_pair(&format!("generators {} / {}", GENS[g], GENS[h]), &*get(g, i * 7)?, &*get(h, j * 7)?)
    });
    let cnt = cfg.t(256, 2048);
    let p3 = part("range and relations of one-time scalars", 0, move |cx| {
        let g = cx.choose("generator", GENS.len());
        let k = Key::nth(16 + cx.choose("key", 3) as u64);
        let mut rs: Vec<Scalar> = vec![];
        let (mut or, mut and) = ([0u8; 32], [0xffu8; 32]);
        for i in 0..cnt {
            let m = made16(g, &k, &data(160, i), &format!("comment {i}"))?;
            for (msg, s) in &m.items {
                let r = nonce(&m.seed, &m.pk, msg, s);
                if EdwardsPoint::mul_base(&r).compress().to_bytes() != s[..32] { return fail("one-time-value", format!("generator {}: the signature does not match its one-time value", GENS[g])); }
                for (x, (o, a)) in r.as_bytes().iter().zip(or.iter_mut().zip(and.iter_mut())) { *o |= x; *a &= x; }
                rs.push(r);
            }
            cx.saw((g, k.seed, i));
        }
        for bit in 0..252 {
            let (o, a) = (or[bit / 8] >> (bit % 8) & 1, and[bit / 8] >> (bit % 8) & 1);
            if o == 0 || a == 1 { return fail("one-time-value-biased", format!("generator {}: bit {bit} of the one-time value is constant over {} signatures", GENS[g], rs.len())); }
        }
        let mut diffs = std::collections::HashSet::new();
        for i in 0..rs.len().min(160) { for j in 0..i {
            let d = rs[i] - rs[j];
            if !diffs.insert(d.to_bytes()) || !diffs.insert((-d).to_bytes()) { return fail("one-time-values-related", format!("generator {}: two pairs of one-time values have the same difference", GENS[g])); }
        } }
        Ok(())
    }).timeout(300);
    // long comments (the only long messages that are signed directly) that agree in all but one place
    let top = cfg.t(20, 24);
    let p4 = part("long comments differing in one place", 0, move |cx| {
        let g = cx.choose("generator", GENS.len());
        let n = *cx.pick("length", &doublings(7, top));
        let k = Key::nth(16);
        let base = long_line(n);
        let mut forms = vec![base.clone(), base.clone() + "x", base[..n - 1].to_string(), base[1..].to_string(), base.clone() + &base];
        for at in [0, 1, n / 4, n / 2, n - 2, n - 1] { let mut s = base.clone(); s.replace_range(at..at + 1, "#"); forms.push(s); }
        let made: Vec<Made> = forms.iter().map(|c| made16(g, &k, b"long", c)).collect::<Result<_, _>>()?;
        for i in 0..made.len() { for j in 0..i { cx.saw((g, n, i, j)); c16_pair(&format!("generator {}, comments of about {n} bytes, forms {i} and {j}", GENS[g]), &made[i], &made[j])?; } }
        Ok(())
    }).timeout(300);
    // data that differs in one place only
    let tb = cfg.t(22, 26);
    let p5 = part("long data differing in one place", 0, move |cx| {
        let g = cx.choose("generator", 3);
        let n = *cx.pick("length", &doublings(7, tb));
        let k = Key::nth(16);
        let mut d = data(16, n);
        let mut made = vec![made16(g, &k, &d, "t")?];
        for at in [0, n / 2, n - 1] { d[at] ^= 1; made.push(made16(g, &k, &d, "t")?); d[at] ^= 1; }
        made.push(made16(g, &k, &d[..n - 1], "t")?);
        for i in 0..made.len() { for j in 0..i { cx.saw((g, n, i, j)); c16_pair(&format!("generator {}, data of about {n} bytes, forms {i} and {j}", GENS[g]), &made[i], &made[j])?; } }
        Ok(())
    }).timeout(300);
    vec![p1, p2, p3, p4, p5]
}

// ---------------------------------------------------------------------- C20
/// A very long source: zeros, with the MiB index at the start of every MiB.
struct Big { len: u64, pos: u64 }
impl Read for Big {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = (b.len() as u64).min(self.len - self.pos) as usize;
        b[..n].fill(0);
        let first = self.pos >> 20;
        let last = (self.pos + n as u64) >> 20;
        for m in first..=last {
            for (i, x) in (m as u32).to_le_bytes().iter().enumerate() {
                let at = (m << 20) + i as u64;
                if at >= self.pos && at < self.pos + n as u64 { b[(at - self.pos) as usize] = *x; }
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Big {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.pos = match p { SeekFrom::Start(x) => x, SeekFrom::Current(d) => (self.pos as i64 + d) as u64, SeekFrom::End(d) => (self.len as i64 + d) as u64 };
        Ok(self.pos)
    }
}
const BIG: [(u64, &str); 5] = [
    (4294967301, "a56157df56b1e11d9ee6ce48d02ab7af04a8ba276077fff9bae4310ca14aea936de95e1781e9b9e81176fadc4ec8edc39e91fbc6d196e685feb9074a7247a1ca"),
    (4294967296, "7029f15f23b4724234b47a9aca46ffc4335c1c0138019908e6febef063a3baf91faf437481f40a12eaa4a579d5c4e7a155410174984dc72950315202af2ae4a6"),
    (4294967427, "a8d718e840f2f7379e00b1a4bdafd39772345e3735c62ef4e5e8a5b65c7d999c80daf7ed4f9f9d5f293e4021186dd53d09a40cbea073863f4ab8ed89feefeeb0"),
    (4294967295, "7f2a75efdfcd74c33142143c56be524cc254b43b096b0a8d9e4e601ef28e63275e21615c21652c5cbdc43337048f9f3a2c38f2cc90f4ba5fff43c1a15f5f22f4"),
    (2147483655, "9180fd1e4c446e0471a9eb2630749a7e509c183d2bc050a296bf2a2d714e86ab181277d06d93513ece9d8752fc418240887a22ac7cfaea59f021d791d8b69447"),
];
/// A new signature, as judged by the reference.
fn lib_to_ref(k: &Key, d: &[u8], tc: &str, uc: &str, rngk: usize) -> Res {
    let (_g, _) = rng(crate::checks::verify1::rng_kind(rngk));
    let b = sign(None, &sk_of(k)?, d, Some(tc), Some(uc)).must("signing")?;
    for (w, text) in [("to_string", b.to_string()), ("to_bytes", String::from_utf8(b.to_bytes()).must("utf-8")?), ("into_string", b.clone().into_string())] {
        let Ok(Some(f)) = SigFile::parse(&text) else { return fail("format", format!("the reference cannot parse what {w} gives: {text:?}")) };
        if f.text() != text { return fail("format", format!("{w} gives {text:?}, the format says {:?}", f.text())); }
        if (f.trusted.as_str(), f.untrusted.as_str(), f.keynum, f.alg) != (tc, uc, k.keynum, ALG_PREHASHED) { return fail("format", format!("{w}: fields differ in {text:?}")); }
        if !f.verifies(k, d, false) { return fail("refused-by-reference", format!("a new signature over {} bytes is refused by the reference", d.len())); }
    }
    let bones = SignatureBones::from(b.clone()).to_bytes();
    let Ok(Some(f)) = SigFile::parse(&b.to_string()) else { return Ok(()) };
    if bones != f.sig_bytes() { return fail("format", "the comment-less form differs from the signature line".to_string()); }
    Ok(())
}
/// A reference signature, as judged by the library.
fn ref_to_lib(k: &Key, alg: [u8; 2], d: &[u8], tc: &str, uc: &str, tweak: &[u8]) -> Res {
    let f = SigFile::make(k, alg, d, uc, tc, tweak);
    let b = match SignatureBox::from_string(&f.text()) { Ok(b) => b, Err(e) => return fail("refused-here", format!("a reference signature does not parse: {e}: {:?}", f.text())) };
    if let Err(e) = vbox(&pk_of(k)?, &b, d, true) { return fail("refused-here", format!("a reference signature ({}) over {} bytes is refused: {e}", if alg == ALG_LEGACY { "legacy" } else { "current" }, d.len())); }
    if (b.trusted_comment().must("comment")?, b.untrusted_comment().must("comment")?) != (tc.to_string(), uc.to_string()) || b.keynum() != k.keynum || b.is_prehashed() != (alg == ALG_PREHASHED) { return fail("meaning-differs", format!("{:?}", f.text())); }
    let bones = match SignatureBones::from_bytes(&f.sig_bytes()) { Ok(b) => SignatureBox::from(b), Err(e) => return fail("refused-here", format!("a comment-less reference signature does not parse: {e}")) };
    if let Err(e) = vbox(&pk_of(k)?, &bones, d, true) { return fail("refused-here", format!("a comment-less reference signature over {} bytes is refused: {e}", d.len())); }
    Ok(())
}
fn content(kind: usize, len: usize) -> Vec<u8> {
    match kind { 0 => data(20, len), 1 => vec![0; len], 2 => vec![0xff; len], 3 => vec![0x80; len], _ => (0..len).map(|i| if i % 2 == 0 { b'\r' } else { b'\n' }).collect() }
}
fn c20(cfg: &Cfg) -> Vec<Part> {
    let top = cfg.t(5000, 20_000);
    let p1 = part("every length", 0, move |cx| {
        let dir = cx.choose("direction", 3);
        let len = cx.choose("length", top);
        let kind = if len <= 700 { cx.choose("content", 5) } else { 0 };
        let d = content(kind, len);
        cx.saw((dir, len, kind));
        let k = Key::nth(20 + len as u64 % 5);
        match dir { 0 => lib_to_ref(&k, &d, "t", "u", len % 3), 1 => ref_to_lib(&k, ALG_PREHASHED, &d, "t", "u", b""), _ => ref_to_lib(&k, ALG_LEGACY, &d, "t", "u", b"") }
    });
    let p2 = part("product", cfg.t(2, 3), move |cx| {
        let dir = cx.choose("direction", 3);
        let kns = keynums();
        let k = Key::nth(200 + cx.dev("key", 12) as u64).with_keynum(*cx.devpick("keynum", &kns));
        let coms = comments();
        let (t, u) = (cx.devpick("trusted", &coms), cx.devpick("untrusted", &coms));
        let len = *cx.devpick("length", &lengths(true));
        let d = content(cx.dev("content", 5), len);
        let v = cx.dev("randomness", 4);
        cx.saw((dir, k.seed, k.keynum, t, u, len, v, cx.trace().iter().map(|t| t.c).collect::<Vec<_>>()));
        match dir { 0 => lib_to_ref(&k, &d, t, u, v), 1 => ref_to_lib(&k, ALG_PREHASHED, &d, t, u, &[v as u8; 3]), _ => ref_to_lib(&k, ALG_LEGACY, &d, t, u, &[v as u8; 3]) }
    });
    let nk = cfg.t(3000, 30000);
    let p3 = part("many keys", 0, move |cx| {
        let dir = cx.choose("direction", 3);
        let n = cx.choose("key", nk) as u64;
        let k = Key::nth(100_000 + n);
        let d = data(n, (n % 200) as usize);
        cx.saw((dir, n));
        if pk_of(&k)?.to_bytes() != k.pk_bytes() { return fail("format", "public key".to_string()); }
        match dir { 0 => lib_to_ref(&k, &d, "t", "u", n as usize % 5), 1 => ref_to_lib(&k, ALG_PREHASHED, &d, "t", "u", &n.to_le_bytes()), _ => ref_to_lib(&k, ALG_LEGACY, &d, "t", "u", &n.to_le_bytes()) }
    });
    // generated keys as judged by the reference
    let ng = cfg.t(400, 4000);
    let p4 = part("generated keys", 0, move |cx| {
        let protected = cx.flag("protected");
        let n = cx.choose("stream", ng) as u64;
        let pw = ["pw", "", "\u{e9}\u{1f511}", &"x".repeat(100)][n as usize % 4].to_string();
        let (mut p, mut s) = (vec![], vec![]);
        let (_g, _) = if n % 7 == 6 { rng(|b: &mut [u8]| { b.fill(0); Ok(()) }) } else { rng_seed(2000 + n) };
        let kp = if protected { KeyPair::generate_and_write_encrypted_keypair(&mut p, &mut s, None, Some(pw.clone())) } else { KeyPair::generate_and_write_unencrypted_keypair(&mut p, &mut s) }.must("generating")?;
        let (pkb, skb) = if protected { (box_bytes(&String::from_utf8(p.clone()).must("text")?)?, box_bytes(&String::from_utf8(s.clone()).must("text")?)?) } else { (p.clone(), s.clone()) };
        let k = match open_sk_bytes(&skb, protected.then_some(pw.as_str()), KdfKind::Ideal) { Some(k) => k, None => return fail("refused-by-reference", format!("a generated key file is refused: {}", hex(&skb))) };
        cx.saw((protected, n));
        if skb[..2] != *b"Ed" || skb[4..6] != *b"B2" { return fail("format", format!("algorithms {:?}", &skb[..6])); }
        if public_from_seed(&k.seed) != k.pk { return fail("wrong-key", "the public half does not belong to the seed".to_string()); }
        if pkb != k.pk_bytes() || kp.pk.to_bytes() != k.pk_bytes() { return fail("wrong-key", format!("public key {} for {}", hex(&pkb), hex(&k.pk_bytes()))); }
        if protected {
            let t = String::from_utf8(p).must("text")?;
            if t != k.pk_box() { return fail("format", format!("public key file {t:?} instead of {:?}", k.pk_box())); }
            if !s.starts_with(b"untrusted comment: ") { return fail("format", "secret key file without comment".to_string()); }
        }
        Ok(())
    });
    let nr = cfg.t(4, 24);
    let p5 = part("key files with real scrypt", 0, move |cx| {
        scrypt::mc_set_mode(scrypt::Mode::Real);
        let n = cx.choose("case", nr);
        let dir = cx.flag("reference to library");
        let pw = ["correct horse", "", "\u{e9}", &"y".repeat(65), " ", "x"][n % 6].to_string();
        cx.saw((n, dir));
        if dir {
            let k = Key::nth(205 + n as u64);
            let (ops, mem) = [(1u64 << 20, 1u64 << 25), (524288, 1 << 24), (1 << 20, 1 << 22), (32768, 1 << 26)][n / 6 % 4];
            let t = k.sk_enc_box(KdfKind::Real, &pw, &[n as u8; 32], ops, mem).unwrap();
            let sk = match SecretKeyBox::from(t).into_secret_key(Some(pw)) { Ok(s) => s, Err(e) => return fail("refused-here", format!("a reference key file (opslimit {ops}, memlimit {mem}) is refused: {e}")) };
            check_same_key(&sk, &k, "reference key file")
        } else {
            let (_g, _) = rng_seed(20 + n as u64);
            let kp = KeyPair::generate_encrypted_keypair(Some(pw.clone())).must("generating")?;
            let raw = box_bytes(&kp.sk.to_box(None).must("boxing")?.to_string())?;
            match open_sk_bytes(&raw, Some(&pw), KdfKind::Real) { Some(k) if k.pk_bytes() == kp.pk.to_bytes() => Ok(()), _ => fail("refused-by-reference", "a generated key file is refused".to_string()) }
        }
    }).timeout(120);
    let nb = cfg.t(1, BIG.len());
    let p6 = part("data of more than 2^32 bytes", 0, move |cx| {
        let (len, h) = BIG[cx.choose("length", nb)];
        let k = Key::nth(20);
        let h = unhex(h);
        let signing = cx.flag("sign");
        cx.saw((len, signing));
        if signing {
            let (_g, _) = rng_seed(20);
            let b = sign(None, &sk_of(&k)?, Big { len, pos: 0 }, Some("t"), None).must("signing")?;
            let Ok(Some(f)) = SigFile::parse(&b.to_string()) else { return fail("format", "unparsable".to_string()) };
            if !ed_verify(&k.pk, &h, &f.sig) { return fail("refused-by-reference", format!("signature over {len} bytes")); }
        } else {
            let mut f = SigFile::make(&k, ALG_PREHASHED, b"", "u", "t", b"");
            f.sig = ed_sign(&k.seed, b"", &h);
            f.global = ed_sign(&k.seed, b"", &[&f.sig[..], b"t"].concat()).to_vec();
            let b = SignatureBox::from_string(&f.text()).must("parsing")?;
            if let Err(e) = verify(&pk_of(&k)?, &b, Big { len, pos: 0 }, true, false, false) { return fail("refused-here", format!("reference signature over {len} bytes: {e}")); }
        }
        Ok(())
    }).timeout(300);
    let lb: Vec<u64> = cfg.t(vec![(1 << 29) + 17], vec![(1 << 28) + 1, (1 << 29) - 64, (1 << 29) - 1, 1 << 29, (1 << 29) + 17, (1 << 30) + 5, (1 << 31) + 5, (1 << 32) + 5]);
    let p7 = part("legacy data of more than 2^32 bits", 0, move |cx| {
        let len = *cx.pick("length", &lb);
        let k = Key::nth(20);
        cx.saw(len);
        let mut d = vec![];
        Big { len, pos: 0 }.read_to_end(&mut d).unwrap();
        let f = SigFile::make(&k, ALG_LEGACY, &d, "u", "t", b"");
        drop(d);
        let b = SignatureBox::from_string(&f.text()).must("parsing")?;
        if let Err(e) = verify(&pk_of(&k)?, &b, Big { len, pos: 0 }, true, false, true) { return fail("refused-here", format!("legacy reference signature over {len} bytes: {e}")); }
        Ok(())
    }).serial().timeout(300);
    // published vectors of Ed25519 (RFC 8032), as comment-less legacy signatures
    let p8 = part("published vectors", 0, move |cx| {
        let v = [
            ("d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a", "", "e5564300c360ac729086e2cc806e828a84877f1eb8e5d974d873e065224901555fb8821590a33bacc61e39701cf9b46bd25bf5f0595bbe24655141438e7a100b"),
            ("3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c", "72", "92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da085ac1e43e15996e458f3613d0f11d8c387b2eaeb4302aeeb00d291612bb0c00"),
            ("fc51cd8e6218a1a38da47ed00230f0580816ed13ba3303ac5deb911548908025", "af82", "6291d657deec24024827e69c3abe01a30ce548a284743a445e3680d7db5ac3ac18ff9b538d16f290ae67f760984dc6594a7c15e9716ed28dc027beceea1ec40a"),
            ("ec172b93ad5e563f4932c70e1c3c5b1b5a5d0a5f5e1f5e5a5d0a5f5e1f5e5a5d", "", ""),
        ];
        let (pk, m, s) = v[cx.choose("vector", 3)];
        let kn = [1u8; 8];
        let pk = PublicKey::from_bytes(&[&b"Ed"[..], &kn, &unhex(pk)].concat()).must("loading")?;
        let b = SignatureBones::from_bytes(&[&b"Ed"[..], &kn, &unhex(s)].concat()).must("loading")?;
        let mut d = unhex(m);
        cx.saw(m);
        if let Err(e) = vbox(&pk, &b.clone().into(), &d, true) { return fail("refused-here", format!("RFC 8032 vector refused: {e}")); }
        d.push(0);
        if vbox(&pk, &b.into(), &d, true).is_ok() { return fail("meaning-differs", "RFC 8032 vector accepted for other data".to_string()); }
        Ok(())
    });
    // keys with a small-order component: the equation decides, as in the reference
    let nm = cfg.t(64, 400);
    let p9 = part("keys with a torsion component", 0, move |cx| {
        let t = cx.choose("torsion", 8);
        let i = cx.choose("message", nm);
        let k = Key::nth(20);
        let (a, _) = secret_scalar(&k.seed);
        let pt = EdwardsPoint::mul_base(&a) + curve25519_dalek::constants::EIGHT_TORSION[t];
        let pkb = pt.compress().to_bytes();
        let d = data(20, i);
        let r = Scalar::from_bytes_mod_order_wide(&sha512(&[b"r", &[i as u8, (i >> 8) as u8]]));
        let rp = EdwardsPoint::mul_base(&r);
        let rt = cx.choose("torsion of R", 8);
        let rb = (rp + curve25519_dalek::constants::EIGHT_TORSION[rt]).compress().to_bytes();
        let s = r + hram(&rb, &pkb, &d) * a;
        let sig = [&rb[..], s.as_bytes()].concat();
        let pk = PublicKey::from_bytes(&[&b"Ed"[..], &k.keynum, &pkb].concat()).must("loading")?;
        let b = SignatureBones::from_bytes(&[&b"Ed"[..], &k.keynum, &sig].concat()).must("loading")?;
        let got = vbox(&pk, &b.into(), &d, true).is_ok();
        let want = ed_verify(&pkb, &d, &sig);
        cx.saw((t, i, rt, got));
        if got != want { return fail("meaning-differs", format!("torsion {t} in the key, {rt} in R, message {i}: accepted {got}, reference {want}")); }
        Ok(())
    });
    // other implementations' text: CRLF, missing final newline, key text as minisign prints it
    let p10 = part("layout variants", 0, move |cx| {
        let k = Key::nth(20);
        let alg = if cx.flag("legacy") { ALG_LEGACY } else { ALG_PREHASHED };
        let f = SigFile::make(&k, alg, b"data", "signature from minisign secret key", "timestamp:1633700835\tfile:test\thashed", b"");
        let t = match cx.choose("layout", 4) { 0 => f.text(), 1 => crlf(&f.text()), 2 => f.text().trim_end().to_string(), _ => f.text() + "\n" };
        let pk = pk_via(&k, cx.choose("public key", PK_ROUTES.len()))?;
        let r = verdict_text(&pk, &t, b"data", true);
        cx.saw((&t, r.is_ok()));
        if let Err(e) = r { return fail("refused-here", format!("{t:?}: {e}")); }
        let c = format!("untrusted comment: minisign public key {}\n{}\n", k.keyid_hex(), k.pk_b64());
        let q = PublicKeyBox::from_string(&c).and_then(|b| b.into_public_key()).must("public key as minisign prints it")?;
        if q.to_bytes() != k.pk_bytes() { return fail("meaning-differs", "public key".to_string()); }
        Ok(())
    });
    let top = cfg.t(20, 24);
    let p11 = part("long comments", 0, move |cx| {
        let n = *cx.pick("length", &doublings(9, top));
        let (dir, which) = (cx.choose("direction", 3), cx.choose("which", 3));
        let l = long_line(n);
        let (t, u) = match which { 0 => (&l[..], "u"), 1 => ("t", &l[..]), _ => (&l[..], &l[..]) };
        cx.saw((n, dir, which));
        let k = Key::nth(20);
        match dir { 0 => lib_to_ref(&k, b"data", t, u, 0), 1 => ref_to_lib(&k, ALG_PREHASHED, b"data", t, u, b""), _ => ref_to_lib(&k, ALG_LEGACY, b"data", t, u, b"") }
    });
    let tb = cfg.t(24, 27);
    let mut sizes = doublings(11, tb);
    sizes.extend(multiples(cfg.t(2_000_000, 20_000_000)));
    let p12 = part("data sizes around powers of two and multiples of round sizes", 0, move |cx| {
        let n = *cx.pick("length", &sizes);
        let dir = cx.choose("direction", 3);
        let d = data(21, n);
        cx.saw((n, dir));
        let k = Key::nth(20);
        match dir { 0 => lib_to_ref(&k, &d, "t", "u", 0), 1 => ref_to_lib(&k, ALG_PREHASHED, &d, "t", "u", b""), _ => ref_to_lib(&k, ALG_LEGACY, &d, "t", "u", b"") }
    }).timeout(300);
    let tx = texts();
    let p13 = part("text-like contents and comments", 0, move |cx| {
        let d = cx.pick("content", &tx);
        let dir = cx.choose("direction", 3);
        let k = Key::nth(20);
        for (_, x) in normalised(d) {
            let c = match std::str::from_utf8(&x) { Ok(c) if crate::checks::storage::storable(c) => c, _ => "t" };
            cx.saw((&x, dir));
            match dir { 0 => lib_to_ref(&k, &x, c, c, 0)?, 1 => ref_to_lib(&k, ALG_PREHASHED, &x, c, c, b"")?, _ => ref_to_lib(&k, ALG_LEGACY, &x, c, c, b"")? }
        }
        Ok(())
    });
    vec![p6, p7, p5, p1, p2, p3, p4, p8, p9, p10, p11, p12, p13]
}

// ---------------------------------------------------------------------- C21
fn c21_case(cx: &Cx, sk: &SecretKey, counterpart: &[u8], pkb: &[u8], d: &[u8], tc: Option<&str>, uc: Option<&str>, rngk: usize, consistent: bool) -> Res {
    let pk = PublicKey::from_bytes(pkb).must("loading a public key")?;
    let g = rng(crate::checks::verify1::rng_kind(rngk));
    let r = sign(Some(&pk), sk, d, tc, uc);
    drop(g);
    let same = pkb[2..] == counterpart[2..];
    cx.saw((pkb, d.len(), tc, uc, rngk, r.is_ok(), sk.to_bytes()));
    match r {
        Ok(b) => {
            if !same { return fail("wrong-public-key-accepted", format!("signing for {} accepted the public key {}", hex(counterpart), hex(pkb))); }
            for legacy in [false, true] { if let Err(e) = vbox(&pk, &b, d, legacy) { return fail("unusable-signature", format!("signing succeeded, but the signature does not verify with the supplied key: {e}")); } }
            let back = SignatureBox::from_string(&b.to_string()).must("reading back")?;
            if let Err(e) = vbox(&pk, &back, d, false) { return fail("unusable-signature", format!("stored signature: {e}")); }
            if tc.is_some() {
                let g = rng(crate::checks::verify1::rng_kind(rngk));
                let plain = sign(None, sk, d, tc, uc).must("signing without a public key")?;
                drop(g);
                if plain.to_string() != b.to_string() { return fail("supplied-key-changes-output", format!("{:?} / {:?}", b.to_string(), plain.to_string())); }
            }
        }
        Err(e) => if same && consistent { return fail("right-public-key-refused", format!("{e}")); },
    }
    Ok(())
}
fn c21(cfg: &Cfg) -> Vec<Part> {
    let nk = cfg.t(3, 12);
    let p1 = part("every byte value of the supplied key", 0, move |cx| {
        let k = Key::nth(21 + cx.choose("key", nk) as u64);
        let mut pkb = k.pk_bytes();
        let i = cx.choose("byte", 42);
        pkb[i] ^= cx.choose("difference", 256) as u8;
        // another tag names the same key; what matters is that nothing wrong is accepted
        if PublicKey::from_bytes(&pkb).is_err() && i < 2 { return Ok(()); }
        c21_case(cx, &sk_of(&k)?, &k.pk_bytes(), &pkb, b"data", Some("t"), None, 0, i >= 2)
    });
    let p2 = part("pairs of differences", 0, move |cx| {
        let k = Key::nth(21);
        let mut pkb = k.pk_bytes();
        let (i, j) = (cx.choose("one", 42), cx.choose("other", 42));
        if i >= j { return Ok(()); }
        let m = *cx.pick("mask", &[1u8, 0x20, 0x80, 0xff, 0x10]);
        pkb[i] ^= m;
        pkb[j] ^= m;
        if i < 2 && PublicKey::from_bytes(&pkb).is_err() { return Ok(()); }
        c21_case(cx, &sk_of(&k)?, &k.pk_bytes(), &pkb, b"data", Some("t"), None, 0, i >= 2)
    });
    let p3 = part("all pairs of keys and forms", 0, move |cx| {
        let kns = keynums();
        let mk = |a: usize, b: usize| Key::nth(21 + a as u64).with_keynum(kns[b]);
        let k = mk(cx.choose("key", 4), cx.choose("identifier", 4));
        let o = mk(cx.choose("supplied key", 4), cx.choose("supplied identifier", 4));
        let sk = sk_via(&k, cx.choose("secret via", SK_ROUTES.len()))?;
        let mut pkb = pk_via(&o, cx.choose("public via", PK_ROUTES.len()))?.to_bytes();
        // another tag names the same key; what matters is that no wrong key is accepted
        let tag = cx.choose("tag", 4);
        pkb[..2].copy_from_slice([b"Ed", b"ED", b"\0\0", b"XX"][tag]);
        if tag > 0 && PublicKey::from_bytes(&pkb).is_err() { return Ok(()); }
        c21_case(cx, &sk, &k.pk_bytes(), &pkb, b"data", Some("t"), None, 0, tag == 0)
    });
    let lens = lengths(true);
    let p4 = part("data, comments, randomness", cfg.t(2, 3), move |cx| {
        let right = cx.choose("supplied", 3);
        let kns = keynums();
        let k = Key::nth(210 + cx.dev("key", 6) as u64).with_keynum(*cx.devpick("keynum", &kns));
        let o = match right { 0 => k.clone(), 1 => k.with_keynum([0x77; 8]), _ => Key::nth(299).with_keynum(k.keynum) };
        let coms = comments();
        let opt = |i: usize| if i == 0 { None } else { Some(coms[i - 1].as_str()) };
        let (t, u) = (opt(cx.dev("trusted", coms.len() + 1)), opt(cx.dev("untrusted", coms.len() + 1)));
        let d = data(21, *cx.devpick("length", &lens));
        c21_case(cx, &sk_of(&k)?, &k.pk_bytes(), &o.pk_bytes(), &d, t, u, cx.dev("randomness", 4), true)
    });
    // secret keys whose halves do not belong together, with valid checksums
    let p5 = part("inconsistent secret keys", 0, move |cx| {
        let (a, b) = (Key::nth(21), Key::nth(22));
        let mut k = a.clone();
        match cx.choose("public half", 4) { 0 => k.pk = b.pk, 1 => k.pk = [0; 32], 2 => { k.pk[cx.choose("byte", 32)] ^= 1 << cx.choose("bit", 8); } _ => k.pk = CompressedEdwardsY([1; 32]).0 }
        let sk = SecretKeyBox::from(k.sk_plain_box()).into_unencrypted_secret_key().must("loading")?;
        let supplied = match cx.choose("supplied", 3) { 0 => k.pk_bytes(), 1 => a.pk_bytes(), _ => Key { keynum: a.keynum, ..b.clone() }.pk_bytes() };
        let pk = PublicKey::from_bytes(&supplied).must("loading a public key")?;
        let (_g, _) = rng_seed(21);
        let r = sign(Some(&pk), &sk, &b"data"[..], Some("t"), None);
        cx.saw((k.pk, &supplied, r.is_ok()));
        match r { Ok(s) => match vbox(&pk, &s, b"data", false) { Ok(()) => Ok(()), Err(e) => fail("unusable-signature", format!("signing succeeded, but the signature does not verify with the supplied key: {e}")) }, Err(_) => Ok(()) }
    });
    // degenerate supplied keys
    let p6 = part("degenerate supplied keys", 0, move |cx| {
        let k = Key::nth(21);
        let i = cx.choose("encoding", 8 + 40);
        let mut enc = [0u8; 32];
        if i < 8 { enc = curve25519_dalek::constants::EIGHT_TORSION[i].compress().to_bytes(); } else { let j = i - 8; enc[0] = (j / 2) as u8; if j % 2 == 1 { enc[31] = 0x80; } }
        if cx.flag("all ones") { for x in enc.iter_mut().skip(1) { *x = 0xff; } }
        let pkb = [&b"Ed"[..], &k.keynum, &enc].concat();
        c21_case(cx, &sk_of(&k)?, &k.pk_bytes(), &pkb, b"data", Some("t"), None, cx.choose("randomness", 3), true)
    });
    let top = cfg.t(20, 24);
    let p7 = part("long data and comments", 0, move |cx| {
        let k = Key::nth(21);
        let n = *cx.pick("length", &doublings(9, top));
        let which = cx.choose("what is long", 3);
        let o = match cx.choose("supplied", 4) { 0 => k.clone(), 1 => k.with_keynum([0x77; 8]), 2 => Key::nth(22).with_keynum(k.keynum), _ => { let mut o = k.clone(); o.pk[31] ^= 0x80; o } };
        let l = long_line(n);
        let d = if which == 0 { data(21, n) } else { b"data".to_vec() };
        let (t, u) = match which { 1 => (&l[..], "u"), 2 => ("t", &l[..]), _ => ("t", "u") };
        c21_case(cx, &sk_of(&k)?, &k.pk_bytes(), &o.pk_bytes(), &d, Some(t), Some(u), 0, true)
    });
    vec![p1, p2, p3, p4, p5, p6, p7]
}

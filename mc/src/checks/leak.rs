//! C28: secrets do not steer the course of operations.
use crate::engine::*;
use crate::env::*;
use crate::leak::{self, Course, Tracer};
use crate::machine::{Build, Trace};
use crate::refm::*;
use mcops::secret as ops;
use minisign::SecretKey;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub fn checks() -> Vec<CheckDef> {
    vec![CheckDef { id: "C28", level: "model_checking", rule: "the sequence of basic blocks taken and addresses read and written (recorded by compiling the library with coverage instrumentation), and the sequence of instructions and addresses of the machine code of ordinary builds (recorded by valgrind, fewer secrets), is the same for every secret of an enumerated set that agrees in everything public; all pairs by comparison with one of them", assumptions: &["machine code is followed for this compiler, processor family and the listed builds", "password stretching (the scrypt crate) is outside"], parts: c28 }]
}

/// Secrets with every bit, every byte value, and runs, then pseudorandom ones.
fn secrets(n: usize) -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32]];
    for i in 0..256 { let mut s = [0u8; 32]; s[i / 8] = 1 << (i % 8); v.push(s); }
    for b in 1..255u8 { v.push([b; 32]); }
    for i in 0..32 { let mut s = [0u8; 32]; s[i..].fill(0xff); v.push(s); let mut s = [0xa5u8; 32]; s[i] = 0; v.push(s); }
    for i in 0..n as u64 { v.push(sha512(&[b"secret", &i.to_le_bytes()])[..32].try_into().unwrap()); }
    v
}
const ID: [u8; 8] = *b"C28.C28.";
/// The library's randomness: the given bytes, over and over.
fn bytes(z: [u8; 64]) -> (Option<getrandom::Source>, ()) {
    (getrandom::mc_set_source(Some(Box::new(move |b: &mut [u8]| { leak::pause(|| for (i, x) in b.iter_mut().enumerate() { *x = z[i % 64]; }); Ok(()) }))), ())
}
fn same<T>(what: &str, n: usize, cx: &Cx, f: &dyn Fn(usize) -> T, ok: &dyn Fn(usize, &T) -> Result<u8, Fail>) -> Res {
    let t = Tracer { f };
    t.course(0);
    // one course for every public outcome (the signs of the points that are output)
    let mut first: [Option<(usize, Course)>; 4] = [None; 4];
    for i in 0..n {
        let (r, c) = t.course(i);
        let class = ok(i, &r)? as usize & 3;
        drop(r);
        let Some((j, f)) = first[class] else {
            if c.blocks == 0 { panic!("{what}: nothing was recorded ({} events)", c.n); }
            extra_max("longest course (events)", c.n);
            // the same secret twice: the same course, or the recording is unsound
            let (r, again) = t.course(i);
            drop(r);
            if again != c { panic!("{what}: two runs with the same secret differ in {}", t.parting(i, i)); }
            first[class] = Some((i, c));
            continue;
        };
        if c != f {
            return fail(&format!("steered:{what}"), format!("{what}: secret {i} takes another course than secret {j}: {}", t.parting(j, i)));
        }
    }
    cx.bulk(n as u64);
    Ok(())
}
/// Signed radix-16 digits, as the fixed-base multiplication may use them.
fn digits(s: &[u8]) -> [i8; 64] {
    let mut e = [0i8; 64];
    for i in 0..32 { e[2 * i] = (s[i] & 15) as i8; e[2 * i + 1] = (s[i] >> 4) as i8; }
    for i in 0..63 { let c = (e[i] + 8) >> 4; e[i] -= c << 4; e[i + 1] += c; }
    e
}

fn c28(cfg: &Cfg) -> Vec<Part> {
    if !cfg!(feature = "leak") { eprintln!("built without the recorder"); std::process::exit(2); }
    let all = Arc::new(secrets(cfg.t(1500, 20_000)));
    const G: usize = 64;
    let groups = all.len().div_ceil(G - 1);
    // every group starts with the same secret, so all are compared with each other
    let group = move |all: &[[u8; 32]], g: usize| -> Vec<[u8; 32]> { std::iter::once(all[0]).chain(all.iter().copied().skip(g * (G - 1)).take(G - 1)).collect() };
    let seen: Arc<Mutex<HashSet<(usize, i8)>>> = Default::default();

    let a = all.clone();
    let p1 = part("signing", 0, move |cx| {
        let g = group(&a, cx.choose("secrets", groups));
        let len = *cx.pick("length", &[0usize, 1, 63, 64, 127, 128, 500]);
        let vary = cx.choose("randomness", 2);
        let d = data(28, len);
        let ks: Vec<Key> = g.iter().map(|s| Key::new(*s, ID)).collect();
        for k in &ks { for (i, x) in digits(&secret_scalar(&k.seed).0.to_bytes()).iter().enumerate() { seen.lock().unwrap().insert((i, *x)); } }
        extra_max("digits of secret scalars seen (position, value)", seen.lock().unwrap().len() as u64);
        let sks = ks.iter().map(sk_of).collect::<Result<Vec<SecretKey>, _>>()?;
        let zs: Vec<[u8; 64]> = (0..g.len()).map(|i| if vary == 1 { sha512(&[b"z", &g[i]]) } else { [0; 64] }).collect();
        same("signing", g.len(), cx, &|i| {
            // (with a public key, the signature is then verified: a public matter)
            let sk = leak::pause(|| { bytes(zs[i]); sks[i].clone() });
            ops::sign_data(&sk, &d)
        }, &|_, r| r.as_ref().map(class_of_signature).map_err(|e| Fail { key: "sign".into(), msg: e.to_string() }))
    });
    let a = all.clone();
    let p2 = part("one key, all randomness", 0, move |cx| {
        let g = group(&a, cx.choose("randomness", groups));
        let k = Key::nth(28);
        let sk = sk_of(&k)?;
        same("signing", g.len(), cx, &|i| {
            let mut z = [0; 64];
            z[..32].copy_from_slice(&g[i]);
            z[32..].copy_from_slice(&g[g.len() - 1 - i]);
            leak::pause(|| bytes(z));
            ops::sign_data(&sk, b"data")
        }, &|_, r| r.as_ref().map(class_of_signature).map_err(|e| Fail { key: "sign".into(), msg: e.to_string() }))
    });
    let a = all.clone();
    let p3 = part("generating", 0, move |cx| {
        let g = group(&a, cx.choose("randomness", groups));
        let how = cx.choose("kind", 4);
        let pw = |i: usize| leak::pause(|| hex(&g[i]));
        let ok = |_: usize, r: &Option<u8>| r.ok_or_else(|| Fail { key: "generate".into(), msg: "refused".into() });
        same(["generating", "generating, protected", "generating and writing", "generating and writing, protected"][how], g.len(), cx, &|i| {
            let mut z = [0; 64];
            for k in 0..64 { z[k] = g[i][k % 32] ^ if k < 32 { 0 } else { 0x3c }; }
            // the key identifier is public and is written as a number: no leading zeros
            if how >= 2 { for x in &mut z { *x |= 0x10; } }
            leak::pause(|| bytes(z));
            match how {
                0 => ops::generate().ok().map(class_of_key),
                1 => { let p = pw(i); ops::generate_protected(p).ok().map(class_of_key) }
                2 => ops::generate_written(None).ok().map(|r| class_of_key(r.0)),
                _ => { let p = pw(i); ops::generate_written(Some(p)).ok().map(|r| class_of_key(r.0)) }
            }
        }, &ok)
    });
    let a = all.clone();
    let p4 = part("opening", 0, move |cx| {
        let g = group(&a, cx.choose("secrets", groups));
        let how = cx.choose("kind", 4);
        let ks: Vec<Key> = g.iter().map(|s| Key::new(*s, ID)).collect();
        let pw: Vec<String> = g.iter().map(|s| if how == 2 { hex(s) } else { "password".into() }).collect();
        let text: Vec<String> = ks.iter().zip(&pw).map(|(k, p)| if how == 0 { k.sk_plain_box() } else { k.sk_enc_box(KdfKind::Ideal, p, &[7; 32], 1 << 20, 1 << 25).unwrap() }).collect();
        let raw: Vec<Vec<u8>> = ks.iter().map(|k| k.sk_plain_bytes()).collect();
        same(["opening", "opening, protected", "opening with any password", "loading raw bytes"][how], g.len(), cx, &|i| match how {
            0 => { let t = leak::pause(|| text[i].clone()); ops::open(t).is_ok() }
            3 => { let r = leak::pause(|| raw[i].clone()); ops::load(&r).is_ok() }
            _ => { let (t, p) = leak::pause(|| (text[i].clone(), pw[i].clone())); ops::open_protected(t, p).is_ok() }
        }, &|i, r| if *r { Ok(0) } else { fail("open", format!("key {} refused", hex(&g[i]))) })
    });
    let a = all.clone();
    let p5 = part("refusing", 0, move |cx| {
        // wrong passwords, then stored checksums that agree with the right one in some places only
        let how = cx.choose("kind", 3);
        let k = Key::new(all_first(&a), ID);
        let g = cx.choose("group", 40);
        let n = 64usize;
        let (salt, ops_, mem) = ([7u8; 32], 1u64 << 20, 1u64 << 25);
        let pw: Vec<String> = (0..n).map(|i| if how == 0 { hex(&a[(g * n + i) % a.len()]) } else { "password".into() }).collect();
        let text: Vec<String> = (0..n).map(|i| {
            let mut b = if how == 2 { k.sk_plain_bytes() } else { k.sk_enc_bytes(KdfKind::Ideal, "password", &salt, ops_, mem).unwrap() };
            if how > 0 {
                let at = 126 + i % 32;
                match g % 5 {
                    0 => b[at] ^= 1 << (g / 5),
                    1 => for x in &mut b[at..158] { *x ^= 0x55 },
                    2 => for x in &mut b[126..=at] { *x ^= 0xff },
                    3 => for j in 126..158 { if j != at { b[j] ^= 1 << (g / 5) } },
                    _ => { b[62 + i % 64] ^= 1 << (g / 5) }
                }
            }
            format!("untrusted comment: c\n{}\n", b64(&b))
        }).collect();
        same(["refusing a password", "refusing a checksum", "refusing an unprotected key"][how], n, cx, &|i| {
            let (t, p) = leak::pause(|| (text[i].clone(), pw[i].clone()));
            if how == 2 { ops::open(t).is_err() } else { ops::open_protected(t, p).is_err() }
        }, &|_, r| if *r { Ok(0) } else { fail("open", "a damaged key was opened".to_string()) })
    });
    let a = all.clone();
    let p6 = part("comparing", 0, move |cx| {
        let base = Key::new(*cx.pick("secret", &a[..cx_len(&a, 40)]), ID);
        let sk = SecretKey::from_bytes(&base.sk_plain_bytes()).must("loading")?;
        // every other key: each bit, each byte, each prefix and each suffix of the seed differs
        let mut others = vec![];
        for i in 0..256 { let mut s = base.seed; s[i / 8] ^= 1 << (i % 8); others.push(s); }
        for i in 0..32 { let mut s = base.seed; s[i] ^= 0xff; others.push(s); let mut s = base.seed; for x in &mut s[i..] { *x ^= 0x81 } others.push(s); let mut s = base.seed; for x in &mut s[..=i] { *x ^= 0x18 } others.push(s); }
        let os = others.iter().map(|s| {
            let mut b = base.sk_plain_bytes();
            b[62..94].copy_from_slice(s);
            SecretKey::from_bytes(&b).must("loading")
        }).collect::<Result<Vec<_>, _>>()?;
        same("comparing secret keys", os.len(), cx, &|i| { let o = leak::pause(|| os[i].clone()); ops::equal(&sk, &o) }, &|_, r| if *r { fail("equal", "different keys compare equal".to_string()) } else { Ok(0) })
    });
    let a = all.clone();
    let p7 = part("storing and converting", 0, move |cx| {
        let g = group(&a, cx.choose("secrets", groups));
        let how = cx.choose("kind", 3);
        let sks = g.iter().map(|s| sk_of(&Key::new(*s, ID))).collect::<Result<Vec<SecretKey>, _>>()?;
        same(["storing", "public key of", "copying"][how], g.len(), cx, &|i| {
            let sk = leak::pause(|| sks[i].clone());
            match how {
                0 => ops::store(&sk).is_ok(),
                1 => ops::public(&sk).is_ok(),
                _ => { std::hint::black_box(ops::copy(&sk)); true }
            }
        }, &|_, r| if *r { Ok(0) } else { fail("store", "refused".to_string()) })
    });
    let mut parts = vec![p1, p2, p3, p4, p5, p6, p7];
    // the machine code of ordinary builds
    let builds: Arc<Vec<Build>> = Arc::new(std::env::var("MC_MACHINE").unwrap_or_default().split(':').filter(|s| !s.is_empty()).filter_map(|s| {
        let (name, bin) = s.split_once('=')?;
        Build::open(name, bin.into())
    }).collect());
    extra_max("builds whose machine code is followed", builds.len() as u64);
    if builds.is_empty() { eprintln!("note: the machine code is not followed (no such build, or no valgrind)"); return parts; }
    for (what, trace, n, n_light) in [("machine code: branches", Trace::Branches, cfg.t(63, 400), cfg.t(200, 800)), ("machine code: instructions and addresses", Trace::Memory, cfg.t(5, 40), cfg.t(40, 300))] {
        let (a, builds) = (all.clone(), builds.clone());
        let small = cfg.t(1, 0) == 1;
        parts.push(part(what, 0, move |cx| {
            let b = &builds[cx.choose("build", builds.len())];
            let op = *cx.pick("operation", &["sign", "sign, one key", "write-protected", "generate", "generate-protected", "write", "open", "open-protected", "open-protected, any password", "refuse, checksum", "refuse, password", "load", "store", "public", "copy", "equal"]);
            let heavy = op.starts_with("sign") || op.starts_with("gen") || op.starts_with("write");
            // in the quick run, addresses are followed in the first build only
            if small && trace == Trace::Memory && b.name != builds[0].name { return Ok(()); }
            let per: usize = if heavy { 63 } else { 200 };
            let total: usize = if heavy { n } else { n_light };
            let g = cx.choose("group", total.div_ceil(per));
            // single bits, bytes and pseudorandom secrets in turn
            let pick = |i: usize| a[if i == 0 { 0 } else { (i * 769) % a.len() }];
            let ids: Vec<usize> = std::iter::once(0).chain(g * per + 1..(g * per + per).min(total) + 1).collect();
            let cases: Vec<Vec<Vec<u8>>> = ids.iter().map(|i| {
                let s = pick(*i);
                let mut z = [0u8; 64];
                for k in 0..64 { z[k] = s[k % 32] ^ if k < 32 { 0 } else { 0x3c }; }
                // the key identifier is public and is written as a number
                if op.starts_with("write") { for k in 0..8 { z[k] = 0xa5; z[32 + k] = 0xa5; } }
                let k = Key::new(s, ID);
                let raw = k.sk_plain_bytes();
                let enc = |k: &Key, p: &str| k.sk_enc_bytes(KdfKind::Ideal, p, &[7; 32], 1 << 20, 1 << 25).unwrap();
                let boxed = |b: &[u8]| format!("untrusted comment: c\n{}\n", b64(b)).into_bytes();
                let fixed = Key::new(all_first(&a), ID);
                match op {
                    "sign" => vec![z.to_vec(), raw, data(28, 100)],
                    "sign, one key" => vec![z.to_vec(), fixed.sk_plain_bytes(), data(28, 100)],
                    "generate" | "write" => vec![z.to_vec()],
                    "generate-protected" | "write-protected" => vec![z.to_vec(), hex(&s).into_bytes()],
                    "open" => vec![boxed(&raw)],
                    "open-protected" => vec![boxed(&enc(&k, "password")), b"password".to_vec()],
                    "open-protected, any password" => { let p = hex(&s); vec![boxed(&enc(&k, &p)), p.into_bytes()] }
                    "refuse, password" => vec![boxed(&enc(&fixed, "password")), hex(&s).into_bytes()],
                    "refuse, checksum" => {
                        let mut e = enc(&fixed, "password");
                        if i % 3 == 0 { e[126 + i % 32] ^= 1 << (i % 7) } else if i % 3 == 1 { for x in &mut e[126 + i % 32..158] { *x ^= 0x55 } } else { for x in &mut e[126..=126 + i % 32] { *x ^= 0x42 } }
                        vec![boxed(&e), b"password".to_vec()]
                    }
                    "equal" => {
                        let x = fixed.sk_plain_bytes();
                        let mut y = x.clone();
                        if i % 3 == 0 { y[62 + i % 64] ^= 1 << (i % 7) } else if i % 3 == 1 { for x in &mut y[62 + i % 64..126] { *x ^= 0x55 } } else { for x in &mut y[62..=62 + i % 64] { *x ^= 0x42 } }
                        vec![x, y]
                    }
                    _ => vec![raw],
                }
            }).collect();
            let mut with_warmup = vec![cases[0].clone()];
            // the same secret twice: the same course, or the recording is unsound
            with_warmup.push(cases[0].clone());
            with_warmup.extend(cases.iter().cloned());
            let name = op.split(',').next().unwrap();
            let name = if op.starts_with("refuse") { "open-protected" } else { name };
            let segs = b.courses(trace, name, &with_warmup).unwrap_or_else(|e| panic!("{e}"));
            let first = segs[0].class;
            if let Some(i) = segs.iter().position(|s| s.n == 0) { panic!("nothing was recorded ({i})"); }
            if segs[0].h != segs[1].h { panic!("{op}: two runs with the same secret differ in {}", b.parting(trace, name, &cases[0], &cases[0], &cases[0])); }
            if !heavy && segs.iter().any(|s| s.class != first) { return fail("outcome", format!("{op}: not the same outcome for all")); }
            extra_max("longest course of machine code (events)", segs.iter().map(|s| s.n).max().unwrap_or(0));
            for (i, s) in segs.iter().enumerate().skip(1) {
                let j = segs.iter().position(|t| t.class == s.class).unwrap();
                if segs[j].h != s.h || segs[j].n != s.n {
                    return fail(&format!("steered:{op}:{what}"), format!("{op} (build {}): secret {} takes another course than secret {}: {}", b.name, ids[i - 1], ids[j.saturating_sub(1)], b.parting(trace, name, &cases[0], &cases[j.saturating_sub(1)], &cases[i - 1])));
                }
            }
            cx.bulk(ids.len() as u64);
            Ok(())
        }).timeout(600));
    }
    parts
}
fn all_first(a: &[[u8; 32]]) -> [u8; 32] { a[a.len() - 1] }
/// Signs of the points in a signature or a public key, which are public.
fn class_of_signature(b: &minisign::SignatureBox) -> u8 {
    let g = unb64(b.to_string().lines().nth(3).unwrap_or("")).unwrap_or_default();
    let bones: minisign::SignatureBones = b.clone().into();
    (bones.to_bytes()[41] >> 7) | g.get(31).map_or(0, |x| x >> 7) << 1
}
fn class_of_key(k: minisign::KeyPair) -> u8 { leak::pause(|| k.pk.to_bytes()[41] >> 7) }
fn cx_len(a: &[[u8; 32]], n: usize) -> usize { n.min(a.len()) }

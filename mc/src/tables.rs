//! Rare shapes of keys and signatures (pairs of extreme bytes), found once by
//! exhaustive search over a deterministic family (`mc search` prints them).
use crate::refm::*;

/// Pairs of positions and values that occur once in 2^15..2^16 cases.
pub fn patterns() -> Vec<(usize, u8, usize, u8)> {
    let mut v = vec![];
    for i in 0..31 { for x in [0u8, 0xff] { v.push((i, x, i + 1, x)); } }
    for x in [0u8, 1, 0xec, 0xed, 0xff] { for y in [0u8, 0x7f, 0x80, 0xff] { v.push((0, x, 31, y)); } }
    for x in [0u8, 0xff] { v.push((15, x, 16, !x)); v.push((0, x, 16, x)); v.push((7, x, 8, !x)); }
    v
}
fn matches(b: &[u8], p: (usize, u8, usize, u8)) -> bool { b[p.0] == p.1 && b[p.2] == p.3 }
/// Structured values of S only reach 0x10 in their last byte.
fn s_pattern(p: (usize, u8, usize, u8)) -> (usize, u8, usize, u8) { (p.0, if p.0 == 31 { p.1 & 0x0f } else { p.1 }, p.2, if p.2 == 31 { p.3 & 0x0f } else { p.3 }) }

pub fn key_of(n: u32) -> Key { Key::nth(1 << 40 | n as u64) }
pub const SIG_DATA: &[u8] = b"structured signatures";
pub fn sig_key() -> Key { Key::nth(54) }
pub fn sig_of(n: u32) -> SigFile { SigFile::make(&sig_key(), ALG_PREHASHED, SIG_DATA, "u", "t", &n.to_le_bytes()) }

pub fn search() {
    use std::sync::Mutex;
    let pats = patterns();
    let threads = 8u32;
    let max = 1u32 << 20;
    let run = |name: &str, f: &(dyn Fn(u32) -> Vec<u8> + Sync), pat: &(dyn Fn((usize, u8, usize, u8)) -> (usize, u8, usize, u8) + Sync)| {
        let found = Mutex::new(vec![u32::MAX; pats.len()]);
        std::thread::scope(|s| for t in 0..threads {
            let (found, pats) = (&found, &pats);
            s.spawn(move || for n in (t..max).step_by(threads as usize) {
                let b = f(n);
                for (i, p) in pats.iter().enumerate() { if matches(&b, pat(*p)) { let mut g = found.lock().unwrap(); g[i] = g[i].min(n); } }
            });
        });
        let mut v: Vec<u32> = found.into_inner().unwrap().into_iter().filter(|&n| n != u32::MAX).collect();
        v.sort();
        v.dedup();
        println!("pub const {name}: [u32; {}] = {v:?};", v.len());
    };
    run("KEYS", &|n| key_of(n).pk.to_vec(), &|p| p);
    let k = sig_key();
    let h = blake2b(64, SIG_DATA);
    run("SIGS_R", &|n| ed_sign(&k.seed, &n.to_le_bytes(), &h)[..32].to_vec(), &|p| p);
    run("SIGS_S", &|n| ed_sign(&k.seed, &n.to_le_bytes(), &h)[32..].to_vec(), &s_pattern);
}
pub const KEYS: [u32; 88] = [181, 260, 636, 1448, 1536, 1600, 3159, 4927, 5658, 6654, 6737, 8603, 9855, 10050, 11017, 12040, 12574, 12665, 12822, 13201, 13252, 16320, 16415, 
17566, 18385, 20834, 21720, 22842, 23294, 23974, 25234, 26169, 26980, 28933, 29487, 29507, 31281, 33837, 34439, 34610, 35158, 36739, 41352, 42827, 43713, 46975, 48957, 49836, 
51113, 54169, 56651, 57080, 60653, 62937, 64225, 65174, 65396, 69807, 70707, 75497, 75580, 75919, 76933, 77046, 77356, 84865, 85931, 86678, 90021, 90889, 101253, 104824, 113690, 
113773, 118608, 126252, 136993, 152145, 154531, 172038, 178824, 213787, 215419, 224994, 258804, 291561, 307124, 312062];
pub const SIGS_R: [u32; 88] = [514, 1379, 5106, 5454, 7053, 7657, 8091, 8235, 9149, 13759, 13778, 15584, 15936, 16015, 16682, 16989, 18481, 21375, 21507, 23143, 24626, 25947, 
27183, 27464, 27550, 29342, 30408, 30849, 31135, 32619, 33912, 36180, 36856, 38538, 38680, 39487, 40448, 40699, 41124, 41826, 44733, 46645, 46719, 49671, 49892, 50683, 55334, 
55985, 56700, 57013, 57810, 64633, 65033, 65204, 66996, 68388, 69647, 72509, 72884, 82189, 88683, 89918, 97899, 110779, 111413, 114051, 114713, 117117, 117846, 120806, 121966, 
122291, 135737, 136824, 139687, 158453, 162757, 166708, 182331, 182762, 190727, 193834, 217447, 235395, 241886, 252297, 286272, 400352];
pub const SIGS_S: [u32; 78] = [26, 158, 413, 508, 509, 1008, 1345, 1926, 2066, 2297, 2606, 2729, 2879, 4066, 4572, 4959, 5682, 5697, 5700, 6077, 6336, 6357, 8904, 8909, 11182, 
12098, 14481, 17934, 18881, 19485, 22698, 24884, 25921, 27102, 29509, 29958, 31748, 34237, 37493, 38922, 39320, 40772, 43774, 44309, 45179, 47822, 48543, 48859, 48954, 51092, 
53790, 54961, 57621, 66494, 72237, 73603, 74154, 75120, 76776, 77678, 78591, 79996, 85539, 89500, 99153, 106022, 106403, 117288, 120936, 121379, 125007, 140659, 225187, 263467, 
272879, 312114, 340979, 500802];

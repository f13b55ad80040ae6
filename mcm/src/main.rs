//! Runs the operations of C28 so that the course of the machine code can be
//! recorded from outside (valgrind).  Every case starts with the same stack
//! frame and an empty heap; calls of `mc_begin` and `mc_end` enclose it.
//!   mcm JOBS OUT    JOBS: the operation, then one case per line (hexadecimal
//!                   arguments); OUT: addresses of the marks, then the public
//!                   outcome of each case
use mcops::secret as ops;
use minisign::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::fmt::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

struct Arena;
const SIZE: usize = 64 << 20;
static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Arena {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) { return System.alloc(l); }
        let a = (AT.load(Relaxed) + l.align().max(16) - 1) & !(l.align().max(16) - 1);
        if a + l.size() > BASE.load(Relaxed) + SIZE { return std::ptr::null_mut(); }
        AT.store(a + l.size(), Relaxed);
        a as *mut u8
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) { return System.alloc_zeroed(l); }
        let p = self.alloc(l);
        if !p.is_null() { p.write_bytes(0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(Relaxed);
        if b == 0 || (p as usize) < b || p as usize >= b + SIZE { System.dealloc(p, l) }
    }
}
#[global_allocator]
static A: Arena = Arena;

#[no_mangle] #[inline(never)] pub extern "C" fn mc_begin() { std::hint::black_box(1u64); }
#[no_mangle] #[inline(never)] pub extern "C" fn mc_end() { std::hint::black_box(2u64); }

fn unhex(s: &str) -> Vec<u8> { if s == "-" { vec![] } else { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() } }
fn text(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() }
/// Signs of the points in a signature, which are public.
fn class_of_signature(b: &SignatureBox) -> u8 {
    let s = b.to_string();
    let g = s.lines().nth(3).unwrap().as_bytes();
    let d = |c: u8| match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, _ => 63 };
    // byte 31 = characters 41 (last four bits used) and 42
    let r2 = d(g[41]) << 2 | d(g[42]) >> 4;
    let bones: SignatureBones = b.clone().into();
    (bones.to_bytes()[41] >> 7) | (r2 >> 7) << 1
}
fn class_of_key(k: &KeyPair) -> u8 { k.pk.to_bytes()[41] >> 7 }

type Bytes = Rc<RefCell<[u8; 64]>>;
#[inline(never)]
fn go(op: &str, a: &[Vec<u8>], z: &Bytes) -> u8 {
    AT.store(BASE.load(Relaxed), Relaxed);
    ON.store(true, Relaxed);
    macro_rules! run { ($e:expr) => {{ mc_begin(); let r = $e; mc_end(); r }} }
    if matches!(op, "sign" | "generate" | "generate-protected" | "write" | "write-protected") { z.borrow_mut().copy_from_slice(&a[0]); }
    let key = |b: &[u8]| SecretKey::from_bytes(b).unwrap();
    let class = match op {
        "sign" => { let (sk, d) = (key(&a[1]), a[2].clone()); class_of_signature(&run!(ops::sign_data(&sk, &d)).unwrap()) }
        "generate" => class_of_key(&run!(ops::generate()).unwrap()),
        "generate-protected" => { let p = text(&a[1]); class_of_key(&run!(ops::generate_protected(p)).unwrap()) }
        "write" => class_of_key(&run!(ops::generate_written(None)).unwrap().0),
        "write-protected" => { let p = text(&a[1]); class_of_key(&run!(ops::generate_written(Some(p))).unwrap().0) }
        "open" => { let t = text(&a[0]); run!(ops::open(t)).is_ok() as u8 }
        "open-protected" => { let (t, p) = (text(&a[0]), text(&a[1])); run!(ops::open_protected(t, p)).is_ok() as u8 }
        "load" => { let b = a[0].clone(); run!(ops::load(&b)).is_ok() as u8 }
        "store" => { let k = key(&a[0]); run!(ops::store(&k)).is_ok() as u8 }
        "public" => { let k = key(&a[0]); run!(ops::public(&k)).is_ok() as u8 }
        "copy" => { let k = key(&a[0]); std::hint::black_box(run!(ops::copy(&k))); 0 }
        "equal" => { let (k, l) = (key(&a[0]), key(&a[1])); run!(ops::equal(&k, &l)) as u8 }
        _ => panic!("operation {op}"),
    };
    ON.store(false, Relaxed);
    class
}
fn main() {
    let mut args = std::env::args().skip(1);
    let jobs = std::fs::read_to_string(args.next().unwrap()).unwrap();
    let out = args.next().unwrap();
    let mut lines = jobs.lines();
    let op = lines.next().unwrap().to_string();
    let cases: Vec<Vec<Vec<u8>>> = lines.map(|l| l.split(' ').map(unhex).collect()).collect();
    BASE.store(Box::leak(vec![0u8; SIZE].into_boxed_slice()).as_mut_ptr() as usize, Relaxed);
    let z: Bytes = Rc::new(RefCell::new([0; 64]));
    let y = z.clone();
    getrandom::mc_set_source(Some(Box::new(move |b: &mut [u8]| { let z = y.borrow(); for (i, x) in b.iter_mut().enumerate() { *x = z[i % 64]; } Ok(()) })));
    scrypt::mc_set_mode(scrypt::Mode::Ideal);
    let mut s = format!("{:x} {:x}\n", mc_begin as *const () as usize, mc_end as *const () as usize);
    for c in &cases { let r = go(&op, c, &z); writeln!(s, "{r}").unwrap(); }
    std::fs::write(out, s).unwrap();
}

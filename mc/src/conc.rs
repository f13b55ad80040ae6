//! Execution server for C19: a single-threaded process that forks a pristine
//! child per execution.  The child runs library operations in sequence, nested
//! in one another's I/O points, or in threads under a cooperative scheduler;
//! whatever is nondeterministic is asked from the explorer over a pipe.
//!
//! When the library was compiled with access tracing (tools/tracewrap.sh), the
//! memory accesses of operations are observed as well: addresses that two
//! operations both use, at least one of them writing, become scheduling points.
//! If there are none, all interleavings between two I/O points are equivalent.
use mcops::Fix;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};

// ----------------------------------------------------------------- allocator
// While tracing, every thread allocates from its own arena and nothing is
// reused, so that equal addresses mean the same object.
pub struct Alloc;
static ARENAS: AtomicBool = AtomicBool::new(false);
thread_local! {
    static BUMP: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static THR: Cell<*mut Thr> = const { Cell::new(std::ptr::null_mut()) };
}
const ARENA: usize = 1 << 30;
// C28 runs every case from the same, freshly emptied arena; C27 counts.
static LO: AtomicUsize = AtomicUsize::new(usize::MAX);
static HI: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
const SLICE: usize = 128 << 20;
thread_local! {
    static MINE: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<(bool, i64, i64)> = const { Cell::new((false, 0, 0)) };
}
fn count(d: i64) { let _ = COUNT.try_with(|c| { let (on, now, peak) = c.get(); if on { let now = now + d; c.set((on, now, peak.max(now))); } }); }
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        if ARENAS.load(std::sync::atomic::Ordering::Relaxed) {
            if let Ok((p, end)) = BUMP.try_with(|b| b.get()) {
                if p != 0 {
                    let a = (p + l.align().max(16) - 1) & !(l.align().max(16) - 1);
                    if a + l.size() <= end { let _ = BUMP.try_with(|b| b.set((a + l.size(), end))); return a as *mut u8; }
                }
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ARENAS.load(std::sync::atomic::Ordering::Relaxed) { count(l.size() as i64); return System.alloc_zeroed(l); }
        let p = self.alloc(l);
        if !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        if ARENAS.load(std::sync::atomic::Ordering::Relaxed) {
            let a = p as usize;
            if NEXT.load(std::sync::atomic::Ordering::Relaxed) == 0 || a >= LO.load(std::sync::atomic::Ordering::Relaxed) && a < HI.load(std::sync::atomic::Ordering::Relaxed) { return; }
        }
        System.dealloc(p, l)
    }
}
/// Count this thread's memory from now on.
pub fn heap_watch() { COUNT.with(|c| c.set((true, 0, 0))) }
/// The most in use at once since then; counting ends.
pub fn heap_peak() -> usize { COUNT.with(|c| { let p = c.get().2; c.set((false, 0, 0)); p as usize }) }
/// How much more is in use now than then; counting ends.
pub fn heap_now() -> i64 { COUNT.with(|c| { let p = c.get().1; c.set((false, 0, 0)); p }) }
/// Allocate from this thread's arena, from its start.
pub fn arena_reset() {
    if MINE.with(|m| m.get()) == 0 {
        static INIT: std::sync::Once = std::sync::Once::new();
        INIT.call_once(|| unsafe {
            let n = 64 * SLICE;
            let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            LO.store(p as usize, SeqCst);
            HI.store(p as usize + n, SeqCst);
            NEXT.store(p as usize, SeqCst);
            ARENAS.store(true, SeqCst);
        });
        let a = NEXT.fetch_add(SLICE, SeqCst);
        assert!(a + SLICE <= HI.load(SeqCst), "arenas");
        MINE.with(|m| m.set(a));
    }
    let a = MINE.with(|m| m.get());
    BUMP.with(|b| b.set((a, a + SLICE)));
}
pub fn arena_off() -> (usize, usize) { BUMP.with(|b| b.replace((0, 0))) }
pub fn arena_on(s: (usize, usize)) { BUMP.with(|b| b.set(s)) }
fn new_arena() {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
    if p != libc::MAP_FAILED { BUMP.with(|b| b.set((p as usize, p as usize + ARENA))); }
}

// -------------------------------------------------------------- access trace
static RECORDING: AtomicBool = AtomicBool::new(false);
static WATCHING: AtomicBool = AtomicBool::new(false);
static TRACED: AtomicU64 = AtomicU64::new(0);
static mut WATCH: Option<HashSet<usize>> = None;
/// Per-thread trace state.
struct Thr { stack: (usize, usize), seen: HashMap<usize, u8>, busy: bool, yields: u32 }
fn stack_bounds() -> (usize, usize) {
    unsafe {
        let mut at: libc::pthread_attr_t = std::mem::zeroed();
        let (mut lo, mut sz) = (std::ptr::null_mut(), 0usize);
        libc::pthread_getattr_np(libc::pthread_self(), &mut at);
        libc::pthread_attr_getstack(&at, &mut lo, &mut sz);
        libc::pthread_attr_destroy(&mut at);
        (lo as usize, lo as usize + sz)
    }
}
fn trace_begin() { THR.with(|t| t.set(Box::into_raw(Box::new(Thr { stack: stack_bounds(), seen: HashMap::new(), busy: false, yields: 0 })))); }
fn trace_end() -> HashMap<usize, u8> {
    THR.with(|t| { let p = t.replace(std::ptr::null_mut()); if p.is_null() { HashMap::new() } else { unsafe { Box::from_raw(p) }.seen } })
}
const MAX_MEM_YIELDS: u32 = 60;
fn access(addr: usize, size: usize, write: bool) {
    let (r, w) = (RECORDING.load(std::sync::atomic::Ordering::Relaxed), WATCHING.load(std::sync::atomic::Ordering::Relaxed));
    if !r && !w { return; }
    let p = THR.try_with(|t| t.get()).unwrap_or(std::ptr::null_mut());
    if p.is_null() { return; }
    let t = unsafe { &mut *p };
    if t.busy || size == 0 || (addr >= t.stack.0 && addr < t.stack.1) { return; }
    t.busy = true;
    let (a, b) = (addr >> 3, (addr + size - 1) >> 3);
    if r { for g in a..=b { *t.seen.entry(g).or_insert(0) |= 1 + write as u8; } TRACED.fetch_add(1, SeqCst); }
    let mut hit = false;
    if w { if let Some(s) = unsafe { (*std::ptr::addr_of!(WATCH)).as_ref() } { hit = !s.is_empty() && (a..=b.min(a + 4096)).any(|g| s.contains(&g)); } }
    if hit && t.yields < MAX_MEM_YIELDS { t.yields += 1; switch_point("shared memory"); }
    t.busy = false;
}
#[allow(non_snake_case, clippy::missing_safety_doc)]
mod tsan {
    use super::access;
    #[no_mangle] pub extern "C" fn __tsan_init() {}
    #[no_mangle] pub extern "C" fn __tsan_func_entry(_: usize) {}
    #[no_mangle] pub extern "C" fn __tsan_func_exit() {}
    #[no_mangle] pub extern "C" fn __tsan_ignore_thread_begin() {}
    #[no_mangle] pub extern "C" fn __tsan_ignore_thread_end() {}
    #[no_mangle] pub extern "C" fn __tsan_vptr_update(a: usize, _: usize) { access(a, 8, true) }
    #[no_mangle] pub extern "C" fn __tsan_vptr_read(a: usize) { access(a, 8, false) }
    #[no_mangle] pub extern "C" fn __tsan_read_range(a: usize, n: usize) { access(a, n, false) }
    #[no_mangle] pub extern "C" fn __tsan_write_range(a: usize, n: usize) { access(a, n, true) }
    #[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { std::sync::atomic::fence(std::sync::atomic::Ordering::SeqCst) }
    #[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}
    #[no_mangle] pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { access(s as usize, n, false); access(d as usize, n, true); libc::memcpy(d.cast(), s.cast(), n).cast() }
    #[no_mangle] pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { access(s as usize, n, false); access(d as usize, n, true); libc::memmove(d.cast(), s.cast(), n).cast() }
    #[no_mangle] pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { access(d as usize, n, true); libc::memset(d.cast(), c, n).cast() }
    macro_rules! rw { ($($n:literal $r:ident $w:ident $ur:ident $uw:ident $rw:ident $urw:ident $vr:ident $vw:ident;)*) => { $(
        #[no_mangle] pub extern "C" fn $r(a: usize) { access(a, $n, false) }
        #[no_mangle] pub extern "C" fn $w(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $ur(a: usize) { access(a, $n, false) }
        #[no_mangle] pub extern "C" fn $uw(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $rw(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $urw(a: usize) { access(a, $n, true) }
        #[no_mangle] pub extern "C" fn $vr(a: usize) { access(a, $n, false) }
        #[no_mangle] pub extern "C" fn $vw(a: usize) { access(a, $n, true) }
    )* } }
    rw! {
        1 __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_read_write1 __tsan_unaligned_read_write1 __tsan_volatile_read1 __tsan_volatile_write1;
        2 __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_read_write2 __tsan_unaligned_read_write2 __tsan_volatile_read2 __tsan_volatile_write2;
        4 __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_read_write4 __tsan_unaligned_read_write4 __tsan_volatile_read4 __tsan_volatile_write4;
        8 __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_read_write8 __tsan_unaligned_read_write8 __tsan_volatile_read8 __tsan_volatile_write8;
        16 __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_read_write16 __tsan_unaligned_read_write16 __tsan_volatile_read16 __tsan_volatile_write16;
    }
    macro_rules! at { ($($t:ident $at:ident $n:literal $ld:ident $st:ident $xc:ident $ad:ident $sb:ident $an:ident $or:ident $xo:ident $na:ident $cs:ident $cw:ident $cv:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $ld(a: *const $t, _: i32) -> $t { access(a as usize, $n, false); (*(a as *const std::sync::atomic::$at)).load(std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $st(a: *mut $t, v: $t, _: i32) { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).store(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xc(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).swap(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $ad(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).fetch_add(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sb(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).fetch_sub(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $an(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).fetch_and(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).fetch_or(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xo(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).fetch_xor(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $na(a: *mut $t, v: $t, _: i32) -> $t { access(a as usize, $n, true); (*(a as *const std::sync::atomic::$at)).fetch_nand(v, std::sync::atomic::Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cs(a: *mut $t, c: *mut $t, v: $t, _: i32, _: i32) -> i32 {
            access(a as usize, $n, true);
            match (*(a as *const std::sync::atomic::$at)).compare_exchange(*c, v, std::sync::atomic::Ordering::SeqCst, std::sync::atomic::Ordering::SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(a: *mut $t, c: *mut $t, v: $t, m: i32, f: i32) -> i32 { $cs(a, c, v, m, f) }
        #[no_mangle] pub unsafe extern "C" fn $cv(a: *mut $t, mut c: $t, v: $t, m: i32, f: i32) -> $t { $cs(a, &mut c, v, m, f); c }
    )* } }
    at! {
        u8 AtomicU8 1 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
        u16 AtomicU16 2 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
        u32 AtomicU32 4 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
        u64 AtomicU64 8 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
    }
}

// ------------------------------------------------------------------- channel
static mut IN: i32 = -1;
static mut OUT: i32 = -1;
fn line_in() -> Option<String> {
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(IN) });
    let mut v = vec![];
    let mut b = [0u8; 1];
    loop {
        match f.read(&mut b) { Ok(1) => if b[0] == b'\n' { return String::from_utf8(v).ok() } else { v.push(b[0]) }, _ => return None }
    }
}
fn line_out(s: &str) {
    let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(OUT) });
    if f.write_all(format!("{s}\n").as_bytes()).is_err() { unsafe { libc::_exit(4) } }
}
/// 'D': deviation from alternative 0; 'C': full branching.
fn ask(kind: char, label: &str, n: usize) -> usize {
    if n <= 1 { return 0; }
    line_out(&format!("{kind} {n} {label}"));
    match line_in().and_then(|l| l.parse().ok()) { Some(k) => k, None => unsafe { libc::_exit(5) } }
}

// ----------------------------------------------------------------- scheduler
#[derive(Default)]
struct Sched { done: Vec<bool>, turn: usize, free: bool, asking: bool, steps: u64, trail: Vec<String> }
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; static DEPTH: Cell<usize> = const { Cell::new(0) }; }

/// Give the other threads a chance.
fn switch_point(what: &str) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX { return; }
    let mut g = SCHED.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.steps += 1;
    if s.free { return; }
    let others: Vec<usize> = (0..s.done.len()).filter(|&i| i != me && !s.done[i]).collect();
    if s.turn == me && !others.is_empty() {
        s.asking = true;
        drop(g);
        let c = ask('D', "preempt", others.len() + 1);
        g = SCHED.lock().unwrap();
        let s = g.as_mut().unwrap();
        s.asking = false;
        if c > 0 { s.turn = others[c - 1]; s.trail.push(format!("at {what} of thread {me} to thread {}", others[c - 1])); CV.notify_all(); }
    }
    while { let s = g.as_ref().unwrap(); s.turn != me && !s.free } { g = CV.wait(g).unwrap(); }
}
fn thread_done(me: usize) {
    let mut g = SCHED.lock().unwrap();
    let s = g.as_mut().unwrap();
    s.done[me] = true;
    s.steps += 1;
    let left: Vec<usize> = (0..s.done.len()).filter(|&i| !s.done[i]).collect();
    if !left.is_empty() && s.turn == me {
        let mut c = 0;
        if !s.free {
            s.asking = true;
            drop(g);
            c = ask('C', "next thread", left.len());
            g = SCHED.lock().unwrap();
        }
        let s = g.as_mut().unwrap();
        s.asking = false;
        s.turn = left[c];
    }
    CV.notify_all();
}
fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok().and_then(|s| s.rsplit_once(") ").map(|x| x.1.starts_with('S'))).unwrap_or(false)
}

// ----------------------------------------------------------------- execution
static mut FIX: Option<Fix> = None;
fn fix() -> &'static Fix { unsafe { (*std::ptr::addr_of!(FIX)).as_ref().unwrap() } }
fn set_hook(h: Option<mcops::Hook>) { unsafe { std::ptr::write(std::ptr::addr_of_mut!(mcops::HOOK), h) } }

static NEST: Mutex<(Vec<usize>, usize, Vec<(usize, String)>)> = Mutex::new((vec![], 0, vec![]));
fn nest_hook(what: &'static str) {
    let d = DEPTH.with(|d| d.get());
    let (menu, max) = { let g = NEST.lock().unwrap(); (g.0.clone(), g.1) };
    if d >= max || what == "start" { return; }
    let c = ask('D', "nested operation", menu.len() + 1);
    if c > 0 {
        DEPTH.with(|x| x.set(d + 1));
        let o = mcops::run(fix(), menu[c - 1]);
        DEPTH.with(|x| x.set(d));
        NEST.lock().unwrap().2.push((menu[c - 1], o));
    }
}

fn list(v: &Value) -> Vec<usize> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default() }

fn child(req: &Value, watch: Option<HashSet<usize>>) -> ! {
    let ops = list(&req["ops"]);
    if ops.iter().chain(&list(&req["menu"])).any(|o| *o >= mcops::OPS.len()) || req["threads"].as_array().map_or(false, |t| t.iter().any(|t| list(t).iter().any(|o| *o >= mcops::OPS.len()))) {
        unsafe { (*std::ptr::addr_of_mut!(FIX)).as_mut().unwrap().load_shared() }
    }
    let mut trail = vec![];
    let out: Vec<(usize, String)> = match req["mode"].as_str().unwrap() {
        "seq" => {
            let reps = req["reps"].as_u64().unwrap_or(1);
            (0..reps).flat_map(|_| ops.iter().map(|&o| (o, mcops::run(fix(), o)))).collect()
        }
        "nest" => {
            *NEST.lock().unwrap() = (list(&req["menu"]), req["depth"].as_u64().unwrap() as usize, vec![]);
            set_hook(Some(nest_hook));
            let mut v: Vec<_> = ops.iter().map(|&o| (o, mcops::run(fix(), o))).collect();
            v.extend(NEST.lock().unwrap().2.clone());
            v
        }
        _ => {
            let progs: Vec<Vec<usize>> = req["threads"].as_array().unwrap().iter().map(list).collect();
            let n = progs.len();
            let first = ask('C', "first thread", n);
            *SCHED.lock().unwrap() = Some(Sched { done: vec![false; n], turn: first, ..Default::default() });
            unsafe { std::ptr::write(std::ptr::addr_of_mut!(WATCH), watch); }
            ARENAS.store(true, SeqCst);
            WATCHING.store(true, SeqCst);
            set_hook(Some(switch_point));
            static TIDS: [AtomicU32; 8] = [const { AtomicU32::new(0) }; 8];
            let hs: Vec<_> = progs.into_iter().enumerate().map(|(i, p)| std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
                TIDS[i].store(unsafe { libc::gettid() } as u32, SeqCst);
                new_arena();
                ME.with(|m| m.set(i));
                trace_begin();
                {
                    let mut g = SCHED.lock().unwrap();
                    while { let s = g.as_ref().unwrap(); s.turn != i && !s.free } { g = CV.wait(g).unwrap(); }
                }
                let v: Vec<(usize, String)> = p.iter().map(|&o| (o, mcops::run(fix(), o))).collect();
                trace_end();
                thread_done(i);
                v
            }).unwrap()).collect();
            // watch for a thread that waits for something a suspended thread holds
            let (mut last, mut same) = (u64::MAX, 0);
            loop {
                let (steps, turn, asking, fin, free) = { let g = SCHED.lock().unwrap(); let s = g.as_ref().unwrap(); (s.steps, s.turn, s.asking, s.done.iter().all(|d| *d), s.free) };
                if fin { break; }
                let tid = TIDS[turn].load(SeqCst) as i32;
                if steps == last && !asking && !free && tid != 0 && asleep(tid) { same += 1 } else { same = 0 }
                last = steps;
                if same > 20 {
                    let mut g = SCHED.lock().unwrap();
                    let s = g.as_mut().unwrap();
                    if !s.asking && s.steps == last && !s.done.iter().all(|d| *d) { s.free = true; line_out("B"); CV.notify_all(); }
                }
                std::thread::sleep(std::time::Duration::from_micros(if same > 0 { 2000 } else { 100 }));
            }
            let r = hs.into_iter().flat_map(|h| h.join().unwrap_or_else(|_| vec![(0, "thread died".into())])).collect();
            trail = SCHED.lock().unwrap().as_ref().unwrap().trail.clone();
            r
        }
    };
    line_out(&format!("R {}", json!({"out": out, "trail": trail})));
    unsafe { libc::_exit(0) }
}

/// Addresses that both operation sequences use, at least one of them writing.
fn probe(a: &[usize], b: &[usize]) -> Option<(HashSet<usize>, u64)> {
    let mut fd = [0i32; 2];
    unsafe { libc::pipe(fd.as_mut_ptr()) };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        if a.iter().chain(b).any(|o| *o >= mcops::OPS.len()) { unsafe { (*std::ptr::addr_of_mut!(FIX)).as_mut().unwrap().load_shared() } }
        ARENAS.store(true, SeqCst);
        RECORDING.store(true, SeqCst);
        let mut maps = vec![];
        for p in [a.to_vec(), b.to_vec()] {
            let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
                new_arena();
                trace_begin();
                for o in p { mcops::run(fix(), o); }
                trace_end()
            }).unwrap();
            maps.push(h.join().unwrap_or_default());
        }
        RECORDING.store(false, SeqCst);
        let shared: Vec<usize> = maps[0].iter().filter(|(k, v)| maps[1].get(k).map_or(false, |w| (**v | *w) & 2 != 0)).map(|x| *x.0).collect();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
        f.write_all(json!({"n": TRACED.load(SeqCst), "shared": shared}).to_string().as_bytes()).ok();
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fd[1]) };
    let mut s = String::new();
    unsafe { std::fs::File::from_raw_fd(fd[0]) }.read_to_string(&mut s).ok();
    unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
    let v: Value = serde_json::from_str(&s).ok()?;
    Some((list(&v["shared"]).into_iter().collect(), v["n"].as_u64()?))
}

pub fn serve() -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        IN = libc::dup(0);
        OUT = libc::dup(1);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
        for i in 0..3 { libc::dup2(n, i); }
        std::ptr::write(std::ptr::addr_of_mut!(FIX), Some(crate::checks::conc::fixtures()));
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut probes: HashMap<String, (HashSet<usize>, u64)> = HashMap::new();
    while let Some(l) = line_in() {
        let req: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
        if req["mode"].is_null() { unsafe { libc::_exit(6) } }
        let mut watch = None;
        if req["mode"] == "threads" {
            let t = req["threads"].as_array().unwrap();
            let mut all = HashSet::new();
            let mut count = 0;
            for i in 0..t.len() { for j in i + 1..t.len() {
                let k = format!("{}/{}", t[i], t[j]);
                if !probes.contains_key(&k) { let p = probe(&list(&t[i]), &list(&t[j])).unwrap_or_default(); probes.insert(k.clone(), p); }
                let (s, n) = &probes[&k];
                all.extend(s.iter().copied());
                count += n;
            } }
            line_out(&format!("P {count} {}", all.len()));
            watch = Some(all);
        }
        let pid = unsafe { libc::fork() };
        if pid == 0 { unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); } child(&req, watch) }
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        line_out(&format!("X {st}"));
    }
    unsafe { libc::_exit(0) }
}

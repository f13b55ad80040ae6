//! Recorder for C28: the sequence of basic blocks taken and of addresses read
//! and written by the instrumented code (tools/leakwrap.sh), plus the library
//! functions for memory that it calls.
use std::cell::Cell;

pub struct Rec { pub h: u64, pub n: u64, pub blocks: u64, log: Option<Vec<(u8, u64)>>, compare: Option<(Vec<(u8, u64)>, Option<String>)>, paused: bool }
thread_local! { static REC: Cell<*mut Rec> = const { Cell::new(std::ptr::null_mut()) }; }

#[inline]
fn event(kind: u8, v: u64) {
    let p = REC.with(|r| r.get());
    if p.is_null() { return; }
    let r = unsafe { &mut *p };
    if r.paused { return; }
    r.h = (r.h ^ v ^ (kind as u64) << 56).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    r.n += 1;
    r.blocks += (kind == 1) as u64;
    if let Some(l) = &mut r.log { if l.len() < l.capacity() { l.push((kind, v)); } }
    if let Some((l, at)) = &mut r.compare {
        if at.is_none() && l.get(r.n as usize - 1) != Some(&(kind, v)) {
            r.paused = true;
            let save = crate::conc::arena_off();
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let lines: Vec<&str> = bt.lines().map(|l| l.trim()).collect();
            let mut w = vec![];
            for i in 0..lines.len() { if lines[i].starts_with("at ") && (lines[i].contains("/repo/src") || lines[i].contains("ct-codecs")) { w.push(format!("{} {}", lines[i - 1].split_once(": ").map_or("", |x| x.1), lines[i])); } }
            let what = match kind { 1 => "a branch", 2 => "an address read", 3 => "an address written", 4 => "a division", 5 => "a comparison of memory", _ => "a copy of memory" };
            *at = Some(format!("{what} at {}", w.into_iter().take(3).collect::<Vec<_>>().join(", called from ")));
            crate::conc::arena_on(save);
            r.paused = false;
        }
    }
}
#[allow(clippy::missing_safety_doc)]
mod hooks {
    use super::event;
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) { event(1, g as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_pc_indir(a: usize) { event(1, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_load1(a: usize) { event(2, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_load2(a: usize) { event(2, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_load4(a: usize) { event(2, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_load8(a: usize) { event(2, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_load16(a: usize) { event(2, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_store1(a: usize) { event(3, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_store2(a: usize) { event(3, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_store4(a: usize) { event(3, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_store8(a: usize) { event(3, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_store16(a: usize) { event(3, a as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_div4(v: u32) { event(4, v as u64) }
    #[no_mangle] pub extern "C" fn __sanitizer_cov_trace_div8(v: u64) { event(4, v) }
}
/// The C library's functions for memory, whose course depends on addresses and
/// lengths, and for comparisons on where the first difference is.
#[cfg(feature = "leak")]
#[allow(clippy::missing_safety_doc)]
mod memory {
    use super::event;
    #[no_mangle] pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        event(5, a as u64); event(5, b as u64); event(5, n as u64);
        let mut i = 0;
        let mut r = 0;
        while i < n {
            let (x, y) = (a.add(i).read_volatile(), b.add(i).read_volatile());
            if x != y { r = x as i32 - y as i32; break; }
            i += 1;
        }
        event(5, i as u64);
        r
    }
    #[no_mangle] pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 { memcmp(a, b, n) }
    #[no_mangle] pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        event(6, d as u64); event(6, s as u64); event(6, n as u64);
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        d
    }
    #[no_mangle] pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        event(6, d as u64); event(6, s as u64); event(6, n as u64);
        if (d as usize).wrapping_sub(s as usize) >= n {
            std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
        } else {
            let mut i = n;
            while i > 0 { i -= 1; d.add(i).write_volatile(s.add(i).read_volatile()); }
        }
        d
    }
    #[no_mangle] pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        event(6, d as u64); event(6, n as u64);
        std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }
}

/// Not part of the observed program.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    let p = REC.with(|r| r.get());
    if p.is_null() { return f(); }
    let old = unsafe { std::mem::replace(&mut (*p).paused, true) };
    let r = f();
    unsafe { (*p).paused = old; }
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Course { pub h: u64, pub n: u64, pub blocks: u64 }
/// Runs `f(i)` from the same stack frame and heap for every `i`.
pub struct Tracer<'a, T> { pub f: &'a dyn Fn(usize) -> T }
impl<T> Tracer<'_, T> {
    #[inline(never)]
    fn go(&self, i: usize, log: Option<Vec<(u8, u64)>>, compare: Option<Vec<(u8, u64)>>) -> (T, Rec) {
        let mut rec = Rec { h: 0, n: 0, blocks: 0, log, compare: compare.map(|c| (c, None)), paused: false };
        crate::conc::arena_reset();
        REC.with(|r| r.set(&mut rec));
        let t = (self.f)(i);
        REC.with(|r| r.set(std::ptr::null_mut()));
        crate::conc::arena_off();
        (t, rec)
    }
    pub fn course(&self, i: usize) -> (T, Course) { let (t, r) = self.go(i, None, None); (t, Course { h: r.h, n: r.n, blocks: r.blocks }) }
    /// Where the courses of `i` and `j` part.
    pub fn parting(&self, i: usize, j: usize) -> String {
        let (_, r) = self.go(i, Some(Vec::with_capacity(16 << 20)), None);
        let (_, r) = self.go(j, None, r.log);
        r.compare.and_then(|c| c.1).unwrap_or_else(|| "the length of the course".into())
    }
}

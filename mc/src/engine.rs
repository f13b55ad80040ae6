//! Stateless explorer: a *part* is a function whose every source of
//! nondeterminism (environment answers, faults, schedules, operation and value
//! choices) is a call of `choose` (always branched on) or `dev` (a deviation
//! from the default; at most `bound` of them per execution).  The explorer runs
//! the function once per leaf of the choice tree, depth first, on all cores,
//! until the tree is exhausted.
use serde_json::{json, Value};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail { pub key: String, pub msg: String }
pub type Res = Result<(), Fail>;

/// A violation; `key` identifies the finding (stable across runs).
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
/// An operation that has to succeed for the property to make sense here.
pub trait Must<T> { fn must(self, what: &str) -> Result<T, Fail>; }
impl<T, E: std::fmt::Display> Must<T> for Result<T, E> {
    fn must(self, what: &str) -> Result<T, Fail> {
        self.or_else(|e| fail(format!("setup:{what}"), format!("{what} failed: {e}")))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pick { pub label: &'static str, pub n: u32, pub c: u32, pub dev: bool }

pub struct CxInner {
    prefix: Vec<(u32, u32)>,
    trace: RefCell<Vec<Pick>>,
    devs: Cell<usize>,
    evals: Cell<u64>,
    bulk: Cell<u64>,
    outcomes: RefCell<Vec<u64>>,
    notes: RefCell<Vec<String>>,
    verbose: bool,
    slot: Option<Slot>,
    broken: RefCell<Option<String>>,
    abandoned: Cell<bool>,
}
#[derive(Clone)]
pub struct Cx(Rc<CxInner>);

impl Cx {
    fn new(prefix: Vec<(u32, u32)>, verbose: bool, slot: Option<Slot>) -> Cx {
        Cx(Rc::new(CxInner {
            prefix, trace: RefCell::new(vec![]), devs: Cell::new(0), evals: Cell::new(0), bulk: Cell::new(0),
            outcomes: RefCell::new(vec![]), notes: RefCell::new(vec![]), verbose, slot, broken: RefCell::new(None), abandoned: Cell::new(false),
        }))
    }
    // every choice point is recorded, whatever the bound, so that a trace replays under any
    fn step(&self, label: &'static str, n: usize, dev: bool) -> usize {
        let x = &*self.0;
        assert!(n > 0, "choice among nothing: {label}");
        if n == 1 { return 0; }
        let i = x.trace.borrow().len();
        let c = match x.prefix.get(i) {
            Some(&(pn, pc)) => {
                if pn != n as u32 {
                    let m = format!("choice point {i} ({label}) had {pn} alternatives, now {n}: uncontrolled nondeterminism");
                    *x.broken.borrow_mut() = Some(m.clone());
                    std::panic::panic_any(Diverged(m));
                }
                pc
            }
            None => 0,
        };
        if dev && c != 0 { x.devs.set(x.devs.get() + 1); }
        x.trace.borrow_mut().push(Pick { label, n: n as u32, c, dev });
        if let Some(s) = &x.slot { s.push(n as u32, c); }
        c as usize
    }
    /// Branch on every alternative.
    pub fn choose(&self, label: &'static str, n: usize) -> usize { self.step(label, n, false) }
    /// Alternative 0 is the default; others are deviations, explored up to the bound.
    pub fn dev(&self, label: &'static str, n: usize) -> usize {
        self.step(label, n, true)
    }
    pub fn pick<'a, T>(&self, label: &'static str, v: &'a [T]) -> &'a T { &v[self.choose(label, v.len())] }
    pub fn devpick<'a, T>(&self, label: &'static str, v: &'a [T]) -> &'a T { &v[self.dev(label, v.len())] }
    pub fn flag(&self, label: &'static str) -> bool { self.choose(label, 2) == 1 }
    pub fn devs(&self) -> usize { self.0.devs.get() }
    pub fn verbose(&self) -> bool { self.0.verbose }
    pub fn note(&self, f: impl FnOnce() -> String) { if self.0.verbose { self.0.notes.borrow_mut().push(f()); } }
    /// One evaluation of the property, with a fingerprint of the situation it was evaluated in.
    pub fn saw<T: Hash>(&self, t: T) {
        self.0.evals.set(self.0.evals.get() + 1);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        self.0.outcomes.borrow_mut().push(h.finish());
    }
    /// This execution left the control of the explorer: its choices are not extended.
    pub fn abandon(&self) { self.0.abandoned.set(true) }
    /// `n` further evaluations, each of a different situation by construction.
    pub fn bulk(&self, n: u64) { self.0.evals.set(self.0.evals.get() + n); self.0.bulk.set(self.0.bulk.get() + n); }
    pub fn trace(&self) -> Vec<Pick> { self.0.trace.borrow().clone() }
}
struct Diverged(String);

pub type Body = Box<dyn Fn(&Cx) -> Res + Send + Sync>;
pub struct Part { pub name: String, pub bound: usize, pub serial: bool, pub timeout_s: u64, pub body: Body }
pub fn part(name: impl Into<String>, bound: usize, body: impl Fn(&Cx) -> Res + Send + Sync + 'static) -> Part {
    Part { name: name.into(), bound, serial: false, timeout_s: 60, body: Box::new(body) }
}
impl Part {
    pub fn serial(mut self) -> Part { self.serial = true; self }
    pub fn timeout(mut self, s: u64) -> Part { self.timeout_s = s; self }
}

#[derive(Clone, Copy)]
pub struct Cfg { pub thorough: bool, pub seed: u64 }
impl Cfg {
    pub fn t<T>(&self, quick: T, thorough: T) -> T { if self.thorough { thorough } else { quick } }
}

pub struct CheckDef {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub parts: fn(&Cfg) -> Vec<Part>,
}

/// Additional figures for the evidence (maxima).
pub static EXTRA: Mutex<std::collections::BTreeMap<&'static str, u64>> = Mutex::new(std::collections::BTreeMap::new());
pub fn extra_max(k: &'static str, v: u64) { let mut g = EXTRA.lock().unwrap(); let e = g.entry(k).or_insert(v); *e = (*e).max(v); }
pub fn extra_add(k: &'static str, v: u64) { *EXTRA.lock().unwrap().entry(k).or_insert(0) += v; }

// ------------------------------------------------------------------- slots
const SLOT_WORDS: usize = 2048;
#[derive(Clone, Copy)]
pub struct Slot(*mut u32);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}
impl Slot {
    fn w(&self, i: usize, v: u32) { unsafe { std::ptr::write_volatile(self.0.add(i), v) } }
    fn r(&self, i: usize) -> u32 { unsafe { std::ptr::read_volatile(self.0.add(i)) } }
    fn begin(&self, part: u32, t: u32) { self.w(2, 0); self.w(1, part); self.w(3, t); self.w(0, 1); }
    fn end(&self) { self.w(0, 0); }
    fn push(&self, n: u32, c: u32) {
        let k = self.r(2) as usize;
        if 4 + 2 * k + 1 < SLOT_WORDS { self.w(4 + 2 * k, n); self.w(5 + 2 * k, c); self.w(2, k as u32 + 1); }
    }
    fn running(&self) -> Option<(usize, u32, Vec<(u32, u32)>)> {
        if self.r(0) != 1 { return None; }
        let k = (self.r(2) as usize).min((SLOT_WORDS - 4) / 2);
        Some((self.r(1) as usize, self.r(3), (0..k).map(|i| (self.r(4 + 2 * i), self.r(5 + 2 * i))).collect()))
    }
}
pub const NSLOTS: usize = 64;
pub fn map_slots(path: &str) -> Vec<Slot> {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("slots");
    let len = NSLOTS * SLOT_WORDS * 4;
    f.set_len(len as u64).expect("slots");
    let p = unsafe { libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    (0..NSLOTS).map(|i| Slot(unsafe { (p as *mut u32).add(i * SLOT_WORDS) })).collect()
}
pub fn running_cases(slots: &[Slot]) -> Vec<(usize, u32, Vec<(u32, u32)>)> { slots.iter().filter_map(|s| s.running()).collect() }

// ---------------------------------------------------------------- one case
thread_local! { static LAST_PANIC: RefCell<Option<(String, u32, String)>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let (f, l) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let m = payload_text(info.payload());
        LAST_PANIC.with(|c| *c.borrow_mut() = Some((f, l, m)));
    }));
}
fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = p.downcast_ref::<String>() { s.clone() }
    else if let Some(Diverged(s)) = p.downcast_ref::<Diverged>() { s.clone() }
    else { "?".into() }
}
/// Did the panic come from the harness (as opposed to the code under test)?
pub fn harness_file(f: &str) -> bool {
    if f.contains("/out/crypto/") { return false; }
    f.starts_with("src/") || f.contains("/verif/mc/") || f.contains("/verif/stubs/") || f.starts_with("../stubs/")
}
pub fn last_panic() -> Option<(String, u32, String)> { LAST_PANIC.with(|c| c.borrow_mut().take()) }

pub enum Verdict { Ok, Violation(Fail), Error(String) }
pub struct Done { pub verdict: Verdict, pub trace: Vec<Pick>, pub evals: u64, pub bulk: u64, pub outcomes: Vec<u64>, pub notes: Vec<String> }

fn reset_env() {
    getrandom::mc_set_source(None);
    rpassword::mc_set_typist(None);
    scrypt::mc_set_observer(None);
    scrypt::mc_set_mode(scrypt::Mode::Ideal);
    crate::env::set_clock(None);
}

pub fn run_case(p: &Part, prefix: Vec<(u32, u32)>, verbose: bool, slot: Option<Slot>) -> Done {
    let plen = prefix.len();
    let cx = Cx::new(prefix, verbose, slot);
    reset_env();
    last_panic();
    crate::env::split_verdict();
    let r = catch_unwind(AssertUnwindSafe(|| (p.body)(&cx)));
    let split = crate::env::split_verdict();
    reset_env();
    let x = &*cx.0;
    let mut trace = x.trace.borrow().clone();
    let verdict = match r {
        _ if x.broken.borrow().is_some() => Verdict::Error(x.broken.borrow().clone().unwrap()),
        Ok(Ok(())) if trace.len() < plen && !x.abandoned.get() => Verdict::Error(format!("only {} of {plen} recorded choices were replayed: uncontrolled nondeterminism", trace.len())),
        Ok(_) if split.is_some() => Verdict::Violation(Fail { key: "flags".into(), msg: format!("the verdict depends on the reporting flags: {}", split.unwrap()) }),
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(f)) => Verdict::Violation(f),
        Err(pl) => {
            let (f, l, m) = last_panic().unwrap_or(("?".into(), 0, payload_text(&*pl)));
            if harness_file(&f) { Verdict::Error(format!("harness panic at {f}:{l}: {m}")) }
            else {
                let short = f.rsplit('/').next().unwrap_or("?").to_string();
                Verdict::Violation(Fail { key: format!("panic:{short}"), msg: format!("panic at {f}:{l}: {m}") })
            }
        }
    };
    if x.abandoned.get() && matches!(verdict, Verdict::Ok) { trace.truncate(plen); }
    let outcomes = x.outcomes.borrow().clone();
    let notes = x.notes.borrow().clone();
    let evals = x.evals.get();
    Done { verdict, trace, evals, bulk: x.bulk.get(), outcomes, notes }
}

// ---------------------------------------------------------------- explorer
#[derive(Default)]
pub struct Stats {
    pub execs: u64, pub nodes: u64, pub choices: u64, pub evals: u64, pub bulk: u64,
    pub max_depth: usize, pub devs: [u64; 8], pub samples: Vec<Value>, pub hits: HashMap<String, u64>,
}
impl Stats {
    fn add(&mut self, o: Stats) {
        self.execs += o.execs; self.nodes += o.nodes; self.choices += o.choices; self.evals += o.evals; self.bulk += o.bulk;
        self.max_depth = self.max_depth.max(o.max_depth);
        for i in 0..8 { self.devs[i] += o.devs[i]; }
        self.samples.extend(o.samples);
        for (k, v) in o.hits { *self.hits.entry(k).or_default() += v; }
    }
}
pub struct Found { pub part: usize, pub fail: Fail, pub choices: Vec<Pick> }
pub struct PartReport { pub name: String, pub stats: Stats, pub distinct: usize, pub complete: bool, pub wall: f64, pub bound: usize }
pub enum Outcome { Done, Error(String), Hung { part: usize, choices: Vec<(u32, u32)> } }

pub struct Explorer<'a> {
    pub parts: &'a [Part],
    pub slots: Vec<Slot>,
    pub threads: usize,
    pub deadline: Instant,
    pub known: &'a (dyn Fn(&str) -> bool + Sync),
    pub keep_going: bool,
}

impl Explorer<'_> {
    pub fn run(&self) -> (Vec<PartReport>, Vec<Found>, Outcome) {
        let mut reports = vec![];
        let mut found: Vec<Found> = vec![];
        for (pi, p) in self.parts.iter().enumerate() {
            let t0 = Instant::now();
            // no part takes the time of those after it
            let left = self.deadline.saturating_duration_since(t0);
            let until = t0 + (left / (self.parts.len() - pi) as u32).max(left / 2);
            // fewer deviations first: if time runs out, the smaller bound is still complete
            let mut bound = p.bound;
            let mut below = None;
            if p.bound > 1 && p.bound < 1000 {
                let r = self.run_part(pi, p, p.bound - 1, until);
                if !r.2 || !r.3.is_empty() || !matches!(r.4, Outcome::Done) { bound = p.bound - 1; }
                below = Some(r);
            }
            let (stats, distinct, complete, f, out) = if bound < p.bound { below.take().unwrap() } else { self.run_part(pi, p, bound, until) };
            let (stats, distinct, complete, f, out) = match below {
                Some(b) if !complete && f.is_empty() && matches!(out, Outcome::Done) && b.2 => {
                    // cut off above: what is covered is at least the smaller bound
                    bound -= 1;
                    if stats.execs > b.0.execs { (stats, distinct, true, f, out) } else { b }
                }
                _ => (stats, distinct, complete, f, out),
            };
            reports.push(PartReport { name: p.name.clone(), stats, distinct, complete, wall: t0.elapsed().as_secs_f64(), bound });
            found.extend(f);
            if !matches!(out, Outcome::Done) { return (reports, found, out); }
            if !self.keep_going && found.iter().any(|f| !(self.known)(&f.fail.key)) { break; }
        }
        (reports, found, Outcome::Done)
    }

    fn run_part(&self, pi: usize, p: &Part, bound: usize, until: Instant) -> (Stats, usize, bool, Vec<Found>, Outcome) {
        let nthreads = if p.serial { 1 } else { self.threads };
        let stack: Mutex<Vec<Vec<(u32, u32)>>> = Mutex::new(vec![vec![]]);
        let cv = Condvar::new();
        let pending = AtomicUsize::new(1);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let total = Mutex::new(Stats::default());
        let outcomes: Vec<Mutex<HashSet<u64>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
        let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let error: Mutex<Option<String>> = Mutex::new(None);
        let hung: Mutex<Option<Vec<(u32, u32)>>> = Mutex::new(None);
        let starts: Vec<AtomicU64> = (0..nthreads).map(|_| AtomicU64::new(0)).collect();
        let epoch = Instant::now();
        let live = AtomicUsize::new(nthreads);
        let worker = |ti: usize| {
            let slot = self.slots.get(ti).copied();
            let mut st = Stats::default();
            let mut found_keys: HashSet<String> = HashSet::new();
            'outer: loop {
                let item = {
                    let mut g = stack.lock().unwrap();
                    loop {
                        if stop.load(SeqCst) || pending.load(SeqCst) == 0 { break 'outer; }
                        if let Some(x) = g.pop() { break x; }
                        g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                    }
                };
                if Instant::now() > until { capped.store(true, SeqCst); stop.store(true, SeqCst); cv.notify_all(); break; }
                let plen = item.len();
                starts[ti].store(epoch.elapsed().as_millis() as u64 + 1, SeqCst);
                if let Some(s) = &slot { s.begin(pi as u32, epoch.elapsed().as_secs() as u32); }
                let d = run_case(p, item, false, slot);
                if let Some(s) = &slot { s.end(); }
                starts[ti].store(0, SeqCst);
                st.execs += 1;
                st.choices += d.trace.len() as u64;
                st.nodes += (d.trace.len() - plen.min(d.trace.len())) as u64 + 1;
                st.evals += d.evals;
                st.bulk += d.bulk;
                st.max_depth = st.max_depth.max(d.trace.len());
                let nd = d.trace.iter().filter(|x| x.dev && x.c != 0).count();
                st.devs[nd.min(7)] += 1;
                if st.execs.is_power_of_two() && st.samples.len() < 6 || !matches!(d.verdict, Verdict::Ok) && st.samples.len() < 12 {
                    st.samples.push(describe(&d.trace));
                }
                for h in &d.outcomes { outcomes[(*h % 64) as usize].lock().unwrap().insert(*h); }
                match d.verdict {
                    Verdict::Ok => {}
                    Verdict::Violation(f) => {
                        let k = (self.known)(&f.key);
                        *st.hits.entry(f.key.clone()).or_default() += 1;
                        if found_keys.insert(f.key.clone()) {
                            found.lock().unwrap().push(Found { part: pi, fail: f, choices: d.trace.clone() });
                        }
                        if !k && !self.keep_going { stop.store(true, SeqCst); cv.notify_all(); break; }
                    }
                    Verdict::Error(e) => {
                        *error.lock().unwrap() = Some(format!("part {}: {e}; case {}", p.name, describe(&d.trace)));
                        stop.store(true, SeqCst);
                        cv.notify_all();
                        break;
                    }
                }
                // children
                let mut kids = vec![];
                let mut devs = d.trace[..plen].iter().filter(|x| x.dev && x.c != 0).count();
                for i in plen..d.trace.len() {
                    let t = d.trace[i];
                    if t.dev && devs >= bound { continue; }
                    for alt in (1..t.n).rev() {
                        let mut v: Vec<(u32, u32)> = d.trace[..i].iter().map(|x| (x.n, x.c)).collect();
                        v.push((t.n, alt));
                        kids.push(v);
                    }
                    if t.dev && t.c != 0 { devs += 1; }
                }
                if !kids.is_empty() {
                    pending.fetch_add(kids.len(), SeqCst);
                    stack.lock().unwrap().extend(kids);
                    cv.notify_all();
                }
                if pending.fetch_sub(1, SeqCst) == 1 { cv.notify_all(); }
            }
            total.lock().unwrap().add(st);
            live.fetch_sub(1, SeqCst);
        };
        let mut out = Outcome::Done;
        std::thread::scope(|s| {
            for ti in 0..nthreads {
                let w = &worker;
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || w(ti)).expect("thread");
            }
            // watchdog
            while live.load(SeqCst) > 0 {
                std::thread::sleep(Duration::from_millis(5));
                let now = epoch.elapsed().as_millis() as u64;
                for (ti, st) in starts.iter().enumerate() {
                    let t = st.load(SeqCst);
                    if t != 0 && now > t + p.timeout_s * 1000 {
                        let c = self.slots.get(ti).and_then(|s| s.running()).map(|x| x.2).unwrap_or_default();
                        *hung.lock().unwrap() = Some(c.clone());
                        // the thread cannot be joined: report from here
                        HUNG.with_report(pi, c);
                    }
                }
            }
        });
        if let Some(e) = error.lock().unwrap().take() { out = Outcome::Error(e); }
        if let Some(c) = hung.lock().unwrap().take() { out = Outcome::Hung { part: pi, choices: c }; }
        let distinct: usize = outcomes.iter().map(|m| m.lock().unwrap().len()).sum();
        let complete = !capped.load(SeqCst) && !stop.load(SeqCst);
        let total = total.into_inner().unwrap();
        let distinct = distinct + total.bulk as usize;
        (total, distinct, complete, found.into_inner().unwrap(), out)
    }
}

/// What to do when a case hangs (set by the worker process: it must exit).
pub struct HungHandler(Mutex<Option<Arc<dyn Fn(usize, Vec<(u32, u32)>) + Send + Sync>>>);
impl HungHandler {
    pub fn set(&self, f: Arc<dyn Fn(usize, Vec<(u32, u32)>) + Send + Sync>) { *self.0.lock().unwrap() = Some(f); }
    fn with_report(&self, p: usize, c: Vec<(u32, u32)>) { let f = self.0.lock().unwrap().clone(); if let Some(f) = f { f(p, c) } }
}
pub static HUNG: HungHandler = HungHandler(Mutex::new(None));

pub fn describe(t: &[Pick]) -> Value {
    Value::Array(t.iter().map(|p| json!(format!("{}={}/{}{}", p.label, p.c, p.n, if p.dev && p.c != 0 { "*" } else { "" }))).collect())
}

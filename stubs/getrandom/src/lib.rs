//! Stand-in for the `getrandom` crate (same API as 0.2), answering from a
//! per-thread script owned by the model checker.  Threads that installed no
//! script (none in normal use) get a deterministic stream.
use std::cell::RefCell;
use std::fmt;
use std::mem::MaybeUninit;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNSUPPORTED: Error = Error(match NonZeroU32::new(1 << 31) { Some(n) => n, None => panic!() });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        if self.0.get() < Self::INTERNAL_START { Some(self.0.get() as i32) } else { None }
    }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl From<NonZeroU32> for Error { fn from(n: NonZeroU32) -> Self { Error(n) } }
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom::Error({})", self.0) }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "random source failure {}", self.0) }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self { std::io::Error::new(std::io::ErrorKind::Other, e) }
}

/// Called for each request; fills the buffer or fails.
pub type Source = Box<dyn FnMut(&mut [u8]) -> Result<(), i32>>;

thread_local! {
    static SOURCE: RefCell<Option<Source>> = const { RefCell::new(None) };
}
static FALLBACK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x9e37_79b9_7f4a_7c15);

/// Install (or remove) the source of the current thread; returns the previous one.
pub fn mc_set_source(s: Option<Source>) -> Option<Source> {
    SOURCE.with(|c| c.replace(s))
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    // The source is taken out while it runs, so that it may itself run code
    // that asks for randomness (nested operations).
    let mut src = SOURCE.with(|c| c.borrow_mut().take());
    let r = match src.as_mut() {
        Some(f) => f(dest).map_err(|e| Error(NonZeroU32::new(e.max(1) as u32).unwrap())),
        None => {
            for b in dest.iter_mut() {
                let x = FALLBACK.fetch_add(0x9e37_79b9_7f4a_7c15, std::sync::atomic::Ordering::SeqCst);
                let x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                *b = (x >> 40) as u8;
            }
            Ok(())
        }
    };
    if src.is_some() {
        SOURCE.with(|c| *c.borrow_mut() = src);
    }
    r
}

pub fn getrandom_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    for d in dest.iter_mut() { d.write(0); }
    let s = unsafe { std::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()) };
    getrandom(s)?;
    Ok(s)
}

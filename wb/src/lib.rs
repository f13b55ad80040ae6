//! The library's arithmetic with its internals reachable (see build.rs).
#![allow(dead_code, warnings)]
include!(concat!(env!("OUT_DIR"), "/root.rs"));
pub use crypto::*;

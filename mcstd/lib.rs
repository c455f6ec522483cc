//! `mcstd`: a drop-in replacement for `std` that is injected as the crate named `std` into the
//! crates under test (`--extern std=libmcstd.rlib`, see /verif/bin/rustc-wrap).  Everything is the
//! real standard library except the blocking / scheduling primitives, which hand control to the
//! model checker in [`mc`] at every operation when (and only when) the calling thread is a thread
//! of a controlled execution.  On all other threads the primitives behave like the real ones.
#![allow(ambiguous_glob_reexports, hidden_glob_reexports, clippy::all, dead_code)]
pub use std::*;

/// The real standard library (for harness bookkeeping that must not be a scheduling point).
pub use ::std as real;

pub mod explore;
pub mod mc;
pub mod sync;
pub mod thread;

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        crate::mc::yield_point();
    }
}

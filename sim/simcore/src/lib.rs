//! Deterministic simulation core: choice tape, event log, fault counters, batch runner, minimiser, replay.
//!
//! Everything a run does is a pure function of its choice tape. In search mode the tape is produced by a
//! PRNG seeded from (VERIF_SEED, property, run number); in replay mode it is read from a file.

mod ctx;
mod runner;

pub use ctx::*;
pub use runner::{main, Prop};

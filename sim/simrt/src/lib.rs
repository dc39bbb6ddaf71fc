//! Runtime of the deterministic simulator: coroutine tasks on one OS thread, a seeded
//! scheduler, a happens-before / weak-memory model for atomics, simulated `Arc`/`Rc`,
//! and a checking arena allocator.  Everything is single threaded by construction, so the
//! global state is a plain static.
#![allow(static_mut_refs)]
pub mod arena;
pub mod arc;
pub mod atomics;
pub mod co;
pub mod rc;
pub mod rng;
pub mod rt;
pub use rt::{rt, Rt};

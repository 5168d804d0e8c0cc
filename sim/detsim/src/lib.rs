//! Deterministic simulation of a multi-threaded process at the libc boundary.
pub mod alloc;
pub mod interpose;
pub mod raw;
pub mod rng;
pub mod sched;

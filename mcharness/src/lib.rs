//! Systematic exploration of thread interleavings and weak-memory behaviours of the real code,
//! which must be built with `--cfg numeric_mc`.
pub mod arena;
pub mod mc;

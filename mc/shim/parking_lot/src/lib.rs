//! Stand-in for `parking_lot`, patched in by the model-checking harness.
//!
//! `Mutex`, `RwLock` and `Condvar` have the subset of the real API that code using plain locks
//! needs; every operation is a scheduling point of the explorer in [`mc`].

pub mod mc;
mod locks;
pub use locks::*;

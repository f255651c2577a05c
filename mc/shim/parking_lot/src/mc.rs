//! Explorer runtime: model threads, choices, atomics, guard-page arena, deterministic maps.

mod alloc;
mod atomics;
mod fiber;
mod map;
mod rt;
mod shared;
mod tls;

pub use alloc::*;
pub use atomics::*;
pub use map::*;
pub use rt::*;
pub use shared::*;
pub use tls::*;

/// What the crate under test imports instead of the same names of the standard library. More than
/// it uses at present, so that a change of its imports still builds.
pub mod std_names {
    pub use super::atomics::{
        fence, AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr,
        AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering,
    };
    pub use super::map::{HashMap, HashSet};
    pub use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
    pub use std::sync::atomic::compiler_fence;
}

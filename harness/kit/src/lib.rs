//! Engine shared by all checks: runs proptest strategies in several processes, shrinks failures
//! to a replay file, and writes the evidence.
//!
//! Nothing in this crate depends on the code under test.

pub mod engine;
pub mod imgs;
pub mod model;

pub use engine::{must, panics, quiet, Obs, Suite, Verdict};
pub use proptest;
pub use proptest::prelude;
pub use serde;
pub use serde_json;

/// A generated place in a collection whose size is known only later.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Pick(pub u32);

impl Pick {
    pub fn index(&self, n: usize) -> usize {
        ((self.0 as u64 * n as u64) >> 32) as usize
    }
}

pub fn pick() -> impl proptest::strategy::Strategy<Value = Pick> {
    use proptest::prelude::*;
    any::<u32>().prop_map(Pick)
}

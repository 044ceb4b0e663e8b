//! Shared parts of the run-time monitors: random numbers, reporting, a model
//! of property values, and the reference model of a baseline.
#![allow(clippy::all)]
pub mod report;
pub mod rng;
pub mod types;
#[cfg(not(verif_asan))]
pub mod big;
pub mod hist;
pub mod world;

pub use report::{guarded, Report};
pub use rng::Rng;

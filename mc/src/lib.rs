//! Explicit-state / bounded-exhaustive model checking of the `scarlet` crate.
pub mod alpha;
pub mod any;
pub mod boxes;
pub mod engine;
pub mod exact;
pub mod num;
pub mod refmath;
pub mod trig;
pub use engine::*;
pub mod scene;
pub mod spheres;

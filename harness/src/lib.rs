//! Property-based testing engine for the fenris checks.
//!
//! Every random decision of a case is one entry of a *choice tape*. A generated case is a pure
//! function of its tape, so that replay is exact and shrinking works on the tape (choices are
//! deleted, zeroed and lowered), independent of what is generated from it.
pub mod elems;
pub mod meshes;
pub mod planar;
pub mod quad;
pub mod solid;
pub mod spaces;
pub mod engine;
pub mod sparse_util;
pub mod synth;
pub use engine::*;

//! Instrumented devices and adapters between the generators in `mdv-core` and
//! the code under test.
pub mod cli;
pub mod dev;
pub mod extx;
pub mod fields;
pub mod geometry;
pub mod mdx;
pub mod mixed;
pub use dev::{Ctl, Op, TestDevice};
pub use mdv_core::*;
pub use md_recover::verif as sut;

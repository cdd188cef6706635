//! Added to a scratch copy of the crate by demo.sh.
#![allow(unused, clippy::all)]
pub mod crc;
pub mod ext4;
pub mod kit;
pub mod md;
pub mod rng;
pub mod sparse;
mod t;

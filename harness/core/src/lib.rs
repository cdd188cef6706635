//! Everything in the harness that does not depend on the code under test:
//! the case runner, the image builders and the reference models.
pub mod alloc;
pub mod crc;
pub mod ext4;
pub mod md;
pub mod rng;
pub mod run;
pub mod sparse;

pub use rng::Rng;
pub use run::{Case, Spec, Stop};
pub use sparse::Sparse;
pub use libc;

//! Shared parts of the monitors: workload generation, the reference model of
//! the pattern language, and the runner.

pub mod alloc;
pub mod canon;
pub mod gen;
pub mod model;
#[cfg(rescan_verif = "component")]
pub mod nodes;
pub mod rng;
pub mod run;
pub mod work;

pub use rng::Rng;
pub use run::{sut, Ctx, Obs, Verdict};

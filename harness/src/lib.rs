#[cfg(feature = "ffi")]
pub mod ffi;
pub mod fronts;
pub mod geo;
pub mod rays;
pub mod rng;
pub mod run;
pub mod scene;
pub mod sched;
pub mod trav;
pub mod tree;

//! Plans (what every simulated thread does) and the interface of the simulator core.
pub mod ffi;
pub mod plan;

//! Stands in for an umbrella crate, which the macros' expansions go through
//! when a program depends on that alone.
pub use ragu_core::*;
pub mod primitives {
    pub use ragu_primitives::*;
}

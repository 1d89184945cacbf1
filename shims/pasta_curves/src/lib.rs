//! Offline stand-in for `pasta_curves`: the Pasta fields and curves with the
//! real moduli, generators, roots of unity and endomorphism constants.
//!
//! `hash_to_curve` is the one place that departs from the real crate: it is a
//! deterministic try-and-increment over BLAKE2b rather than simplified SWU.
pub extern crate group;

pub mod arithmetic;
mod curves;
mod fields;

pub use curves::{pallas, vesta, Ep, EpAffine, Eq, EqAffine};
pub use fields::{Fp, Fq};

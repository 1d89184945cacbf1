//! A stage of any place and size, for its masks.
use ff::Field;
use ragu_circuits::{polynomials::Rank, staging::Stage};
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    gadgets::Bound,
};
use std::cell::Cell;

thread_local! { static MASK: Cell<(usize, usize)> = const { Cell::new((1, 0)) }; }
/// Gates before it, the first gate included, and gates it has.
pub fn set_mask(skip: usize, gates: usize) {
    MASK.set((skip, gates));
}
#[derive(Default)]
pub struct Mk;
impl<F: Field, R: Rank> Stage<F, R> for Mk {
    type Parent = ();
    type Witness<'s> = ();
    type OutputKind = ();
    fn values() -> usize {
        2 * MASK.get().1
    }
    fn skip_gates() -> usize {
        MASK.get().0
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, ()>>
    where
        Self: 'dr,
    {
        Ok(())
    }
}

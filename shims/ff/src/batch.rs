//! Batched inversion.
use crate::Field;
use subtle::ConstantTimeEq;

/// Montgomery's trick.
pub struct BatchInverter {}

impl BatchInverter {
    /// Inverts each nonzero element of `elements`; zeroes are left untouched.
    pub fn invert_with_external_scratch<F>(elements: &mut [F], scratch_space: &mut [F]) -> F
    where
        F: Field,
    {
        assert_eq!(elements.len(), scratch_space.len());
        let mut acc = F::ONE;
        for (p, s) in elements.iter().zip(scratch_space.iter_mut()) {
            *s = acc;
            acc = F::conditional_select(&(acc * p), &acc, p.is_zero());
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for (p, s) in elements.iter_mut().zip(scratch_space.iter()).rev() {
            let skip = p.is_zero();
            let tmp = *s * acc;
            acc = F::conditional_select(&(acc * *p), &acc, skip);
            *p = F::conditional_select(&tmp, p, skip);
        }
        allinv
    }

    /// As above, for items that hold both an element and its scratch space.
    pub fn invert_with_internal_scratch<F, T, TE, TS>(
        items: &mut [T],
        element: TE,
        scratch_space: TS,
    ) -> F
    where
        F: Field + ConstantTimeEq,
        TE: Fn(&mut T) -> &mut F,
        TS: Fn(&mut T) -> &mut F,
    {
        let mut acc = F::ONE;
        for item in items.iter_mut() {
            *(scratch_space)(item) = acc;
            let p = (element)(item);
            acc = F::conditional_select(&(acc * *p), &acc, p.is_zero());
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for item in items.iter_mut().rev() {
            let tmp = *(scratch_space)(item) * acc;
            let p = (element)(item);
            let skip = p.is_zero();
            acc = F::conditional_select(&(acc * *p), &acc, skip);
            *p = F::conditional_select(&tmp, p, skip);
        }
        allinv
    }
}

/// Batch inversion as a method.
pub trait BatchInvert<F: Field> {
    /// Inverts every nonzero element in place; returns the inverse of their product.
    fn batch_invert(self) -> F;
}

#[cfg(feature = "alloc")]
impl<'a, F, I> BatchInvert<F> for I
where
    F: Field + ConstantTimeEq,
    I: IntoIterator<Item = &'a mut F>,
{
    fn batch_invert(self) -> F {
        let mut acc = F::ONE;
        let mut tmp = alloc::vec::Vec::new();
        for p in self {
            let q = *p;
            tmp.push((acc, p));
            acc = F::conditional_select(&(acc * q), &acc, q.is_zero());
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for (t, p) in tmp.into_iter().rev() {
            let skip = p.is_zero();
            let v = t * acc;
            acc = F::conditional_select(&(acc * *p), &acc, skip);
            *p = F::conditional_select(&v, p, skip);
        }
        allinv
    }
}

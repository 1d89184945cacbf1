use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use vlib::Gen;

/// Corner-biased field element.
pub fn fe<F: PrimeField>(g: &mut Gen) -> F {
    match g.below(12) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => F::from(g.below(16)),
        4 => -F::from(g.below(16)),
        5 => {
            let k = g.below(F::NUM_BITS as u64);
            F::from(2).pow_vartime([k])
        }
        6 => {
            let k = g.below(F::NUM_BITS as u64);
            F::from(2).pow_vartime([k]) - F::ONE
        }
        7 => {
            // power of a root of unity
            let s = g.below(8.min(F::S as u64) + 1);
            let mut w = F::ROOT_OF_UNITY;
            for _ in 0..(F::S as u64 - s) {
                w = w.square();
            }
            w.pow_vartime([g.below(1 << s)])
        }
        8 => F::from(g.u64()),
        _ => rand_fe(g),
    }
}
/// Uniform (up to negligible bias) field element.
pub fn rand_fe<F: PrimeField>(g: &mut Gen) -> F {
    let b = F::from(u64::MAX) + F::ONE;
    let mut x = F::ZERO;
    for _ in 0..5 {
        x = x * b + F::from(g.u64());
    }
    x
}
pub fn nonzero<F: PrimeField>(g: &mut Gen) -> F {
    let x: F = fe(g);
    if bool::from(x.is_zero()) { F::from(2) } else { x }
}
/// Coefficient in one of its encodings.
pub fn coeff<F: PrimeField>(g: &mut Gen) -> Coeff<F> {
    match g.below(7) {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::Two,
        3 => Coeff::NegativeOne,
        4 => Coeff::NegativeArbitrary(fe(g)),
        _ => Coeff::Arbitrary(fe(g)),
    }
}
/// The field value a coefficient stands for, independent of `Coeff::value`.
pub fn cval<F: Field>(c: &Coeff<F>) -> F {
    match c {
        Coeff::Zero => F::ZERO,
        Coeff::One => F::ONE,
        Coeff::Two => F::ONE + F::ONE,
        Coeff::NegativeOne => F::ZERO - F::ONE,
        Coeff::Arbitrary(x) => *x,
        Coeff::NegativeArbitrary(x) => F::ZERO - *x,
    }
}

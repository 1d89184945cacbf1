//! Small curves y² = x³ + b of prime order, so that whole groups can be
//! enumerated; and the group law on coordinates over any field.
use crate::Gf;
use core::fmt;
use core::iter::Sum;
use core::ops::*;
use ff::Field;
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding};
use ragu_arithmetic::{Coordinates, CurveAffine, CurveExt};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// A point of a curve with a = 0 by its coordinates; `None` is the identity.
pub type Xy<F> = Option<(F, F)>;
/// The textbook group law.
pub fn xy_add<F: Field>(p: Xy<F>, q: Xy<F>) -> Xy<F> {
    let (Some((x1, y1)), Some((x2, y2))) = (p, q) else {
        return p.or(q);
    };
    let l = if x1 != x2 {
        (y2 - y1) * (x2 - x1).invert().unwrap()
    } else if y1 == y2 && y1 != F::ZERO {
        (x1.square() + x1.square() + x1.square()) * (y1 + y1).invert().unwrap()
    } else {
        return None;
    };
    let x = l * l - x1 - x2;
    Some((x, l * (x1 - x) - y1))
}
pub fn xy_neg<F: Field>(p: Xy<F>) -> Xy<F> {
    p.map(|(x, y)| (x, F::ZERO - y))
}
pub fn xy_mul<F: Field>(mut p: Xy<F>, mut k: u64) -> Xy<F> {
    let mut r = None;
    while k > 0 {
        if k & 1 == 1 {
            r = xy_add(r, p);
        }
        p = xy_add(p, p);
        k >>= 1;
    }
    r
}

/// Point of y² = x³ + B over Gf<P>, a group of prime order Q generated by (X, Y).
#[derive(Copy, Clone, PartialEq, Eq, Default)]
pub struct Tc<const P: u64, const Q: u64, const B: u64, const X: u64, const Y: u64>(pub Xy<Gf<P>>);
/// Order 13 over the field of 7 elements and the other way round; a larger cycle-free one.
pub type C7 = Tc<7, 13, 3, 1, 2>;
pub type C13 = Tc<13, 7, 6, 2, 1>;
pub type C31 = Tc<31, 43, 3, 1, 2>;

macro_rules! g {
    ($($t:tt)*) => { impl<const P: u64, const Q: u64, const B: u64, const X: u64, const Y: u64> $($t)* };
}
type S<const P: u64, const Q: u64, const B: u64, const X: u64, const Y: u64> = Tc<P, Q, B, X, Y>;
g! { fmt::Debug for S<P, Q, B, X, Y> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}", self.0) }
} }
g! { Neg for S<P, Q, B, X, Y> { type Output = Self; fn neg(self) -> Self { Tc(xy_neg(self.0)) } } }
g! { Add for S<P, Q, B, X, Y> { type Output = Self; fn add(self, o: Self) -> Self { Tc(xy_add(self.0, o.0)) } } }
g! { Add<&Self> for S<P, Q, B, X, Y> { type Output = Self; fn add(self, o: &Self) -> Self { Tc(xy_add(self.0, o.0)) } } }
g! { Sub for S<P, Q, B, X, Y> { type Output = Self; fn sub(self, o: Self) -> Self { self + -o } } }
g! { Sub<&Self> for S<P, Q, B, X, Y> { type Output = Self; fn sub(self, o: &Self) -> Self { self + -*o } } }
g! { AddAssign for S<P, Q, B, X, Y> { fn add_assign(&mut self, o: Self) { *self = *self + o } } }
g! { AddAssign<&Self> for S<P, Q, B, X, Y> { fn add_assign(&mut self, o: &Self) { *self = *self + *o } } }
g! { SubAssign for S<P, Q, B, X, Y> { fn sub_assign(&mut self, o: Self) { *self = *self - o } } }
g! { SubAssign<&Self> for S<P, Q, B, X, Y> { fn sub_assign(&mut self, o: &Self) { *self = *self - *o } } }
g! { Mul<Gf<Q>> for S<P, Q, B, X, Y> { type Output = Self; fn mul(self, k: Gf<Q>) -> Self { Tc(xy_mul(self.0, k.0)) } } }
g! { Mul<&Gf<Q>> for S<P, Q, B, X, Y> { type Output = Self; fn mul(self, k: &Gf<Q>) -> Self { Tc(xy_mul(self.0, k.0)) } } }
g! { MulAssign<Gf<Q>> for S<P, Q, B, X, Y> { fn mul_assign(&mut self, k: Gf<Q>) { *self = *self * k } } }
g! { MulAssign<&Gf<Q>> for S<P, Q, B, X, Y> { fn mul_assign(&mut self, k: &Gf<Q>) { *self = *self * *k } } }
g! { Sum for S<P, Q, B, X, Y> { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Tc(None), |a, b| a + b) } } }
impl<'a, const P: u64, const Q: u64, const B: u64, const X: u64, const Y: u64> Sum<&'a Self> for Tc<P, Q, B, X, Y> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Tc(None), |a, b| a + b)
    }
}
g! { ConditionallySelectable for S<P, Q, B, X, Y> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self { if c.into() { *b } else { *a } }
} }
g! { ConstantTimeEq for S<P, Q, B, X, Y> { fn ct_eq(&self, o: &Self) -> Choice { Choice::from((self == o) as u8) } } }
g! { Group for S<P, Q, B, X, Y> {
    type Scalar = Gf<Q>;
    fn try_random<R: rand::rand_core::TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
        Ok(<Self as Group>::generator() * Gf(rng.try_next_u64()? % Q))
    }
    fn identity() -> Self { Tc(None) }
    fn generator() -> Self { Tc(Some((Gf(X), Gf(Y)))) }
    fn is_identity(&self) -> Choice { Choice::from(self.0.is_none() as u8) }
    fn double(&self) -> Self { *self + *self }
} }
g! { GroupEncoding for S<P, Q, B, X, Y> {
    type Repr = [u8; 16];
    fn from_bytes(_: &[u8; 16]) -> CtOption<Self> { unimplemented!() }
    fn from_bytes_unchecked(_: &[u8; 16]) -> CtOption<Self> { unimplemented!() }
    fn to_bytes(&self) -> [u8; 16] {
        match self.0 {
            None => [255; 16],
            Some((x, y)) => (((x.0 as u128) << 64) | y.0 as u128).to_le_bytes(),
        }
    }
} }
g! { Curve for S<P, Q, B, X, Y> { type AffineRepr = Self; fn to_affine(&self) -> Self { *self } } }
g! { PrimeGroup for S<P, Q, B, X, Y> {} }
g! { PrimeCurve for S<P, Q, B, X, Y> { type Affine = Self; } }
g! { PrimeCurveAffine for S<P, Q, B, X, Y> {
    type Scalar = Gf<Q>;
    type Curve = Self;
    fn identity() -> Self { Tc(None) }
    fn generator() -> Self { Tc(Some((Gf(X), Gf(Y)))) }
    fn is_identity(&self) -> Choice { Choice::from(self.0.is_none() as u8) }
    fn to_curve(&self) -> Self { *self }
} }
g! { CurveExt for S<P, Q, B, X, Y> {
    type ScalarExt = Gf<Q>;
    type Base = Gf<P>;
    type AffineExt = Self;
    const CURVE_ID: &'static str = "small";
    fn endo(&self) -> Self { Tc(self.0.map(|(x, y)| (x * <Gf<P> as ff::WithSmallOrderMulGroup<3>>::ZETA, y))) }
    fn jacobian_coordinates(&self) -> (Gf<P>, Gf<P>, Gf<P>) {
        self.0.map_or((Gf(0), Gf(0), Gf(0)), |(x, y)| (x, y, Gf(1)))
    }
    fn hash_to_curve<'a>(_: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> { unimplemented!() }
    fn is_on_curve(&self) -> Choice { CurveAffine::is_on_curve(self) }
    fn a() -> Gf<P> { Gf(0) }
    fn b() -> Gf<P> { Gf(B) }
    fn new_jacobian(_: Gf<P>, _: Gf<P>, _: Gf<P>) -> CtOption<Self> { unimplemented!() }
} }
g! { CurveAffine for S<P, Q, B, X, Y> {
    type ScalarExt = Gf<Q>;
    type Base = Gf<P>;
    type CurveExt = Self;
    fn coordinates(&self) -> CtOption<Coordinates<Self>> {
        match self.0 {
            Some((x, y)) => Coordinates::from_xy(x, y),
            None => Coordinates::from_xy(Gf(X), Gf(Y)).and_then(|c| CtOption::new(c, 0.into())),
        }
    }
    fn from_xy(x: Gf<P>, y: Gf<P>) -> CtOption<Self> {
        let p = Tc(Some((x, y)));
        CtOption::new(p, CurveAffine::is_on_curve(&p))
    }
    fn is_on_curve(&self) -> Choice {
        Choice::from(self.0.is_none_or(|(x, y)| y * y == x * x * x + Gf(B)) as u8)
    }
    fn a() -> Gf<P> { Gf(0) }
    fn b() -> Gf<P> { Gf(B) }
} }
pub fn all_points<const P: u64, const Q: u64, const B: u64, const X: u64, const Y: u64>() -> Vec<Tc<P, Q, B, X, Y>> {
    (0..Q).map(|k| <Tc<P, Q, B, X, Y> as Group>::generator() * Gf(k)).collect()
}

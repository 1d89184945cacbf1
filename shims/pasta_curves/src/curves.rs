//! Pallas and Vesta in Jacobian coordinates.
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, WnafGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

use crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
use crate::fields::{Fp, Fq};

macro_rules! curve {
    ($pt:ident, $aff:ident, $base:ident, $scalar:ident, $id:expr) => {
        /// A point in Jacobian coordinates (`z = 0` is the identity).
        #[derive(Copy, Clone, Debug)]
        pub struct $pt {
            x: $base,
            y: $base,
            z: $base,
        }
        /// A point in affine coordinates (`(0, 0)` is the identity).
        #[derive(Copy, Clone)]
        pub struct $aff {
            x: $base,
            y: $base,
        }

        impl fmt::Debug for $aff {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if bool::from(PrimeCurveAffine::is_identity(self)) {
                    write!(f, "Infinity")
                } else {
                    write!(f, "({:?}, {:?})", self.x, self.y)
                }
            }
        }

        impl $pt {
            fn b_coeff() -> $base {
                $base::from(5)
            }
            fn is_id(&self) -> bool {
                self.z.is_zero_vartime()
            }
            fn add_full(&self, rhs: &$pt) -> $pt {
                if self.is_id() {
                    return *rhs;
                }
                if rhs.is_id() {
                    return *self;
                }
                let z1z1 = self.z.square();
                let z2z2 = rhs.z.square();
                let u1 = self.x * z2z2;
                let u2 = rhs.x * z1z1;
                let s1 = self.y * z2z2 * rhs.z;
                let s2 = rhs.y * z1z1 * self.z;
                if u1 == u2 {
                    return if s1 == s2 { self.double() } else { $pt::identity() };
                }
                let h = u2 - u1;
                let i = (h + h).square();
                let j = h * i;
                let r = s2 - s1;
                let r = r + r;
                let v = u1 * i;
                let x3 = r.square() - j - v - v;
                let s1 = s1 * j;
                let s1 = s1 + s1;
                let y3 = r * (v - x3) - s1;
                let z3 = (self.z + rhs.z).square() - z1z1 - z2z2;
                let z3 = z3 * h;
                $pt { x: x3, y: y3, z: z3 }
            }
            fn add_mixed(&self, rhs: &$aff) -> $pt {
                if self.is_id() {
                    return rhs.to_curve();
                }
                if bool::from(PrimeCurveAffine::is_identity(rhs)) {
                    return *self;
                }
                let z1z1 = self.z.square();
                let u2 = rhs.x * z1z1;
                let s2 = rhs.y * z1z1 * self.z;
                if self.x == u2 {
                    return if self.y == s2 { self.double() } else { $pt::identity() };
                }
                let h = u2 - self.x;
                let hh = h.square();
                let i = hh + hh;
                let i = i + i;
                let j = h * i;
                let r = s2 - self.y;
                let r = r + r;
                let v = self.x * i;
                let x3 = r.square() - j - v - v;
                let j = self.y * j;
                let j = j + j;
                let y3 = r * (v - x3) - j;
                let z3 = (self.z + h).square() - z1z1 - hh;
                $pt { x: x3, y: y3, z: z3 }
            }
            fn mul_scalar(&self, k: &$scalar) -> $pt {
                let mut acc = $pt::identity();
                let repr = k.to_repr();
                let mut started = false;
                for byte in repr.iter().rev() {
                    for i in (0..8).rev() {
                        if started {
                            acc = acc.double();
                        }
                        if (byte >> i) & 1 == 1 {
                            started = true;
                            acc = acc.add_full(self);
                        }
                    }
                }
                acc
            }
        }

        impl PartialEq for $pt {
            fn eq(&self, o: &Self) -> bool {
                self.ct_eq(o).into()
            }
        }
        impl core::cmp::Eq for $pt {}
        impl ConstantTimeEq for $pt {
            fn ct_eq(&self, o: &Self) -> Choice {
                let (i, j) = (self.is_id(), o.is_id());
                let same = if i || j {
                    i && j
                } else {
                    let z = o.z.square();
                    let w = self.z.square();
                    self.x * z == o.x * w && self.y * z * o.z == o.y * w * self.z
                };
                Choice::from(same as u8)
            }
        }
        impl ConditionallySelectable for $pt {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $pt {
                    x: $base::conditional_select(&a.x, &b.x, c),
                    y: $base::conditional_select(&a.y, &b.y, c),
                    z: $base::conditional_select(&a.z, &b.z, c),
                }
            }
        }
        impl Default for $pt {
            fn default() -> Self {
                $pt::identity()
            }
        }
        impl PartialEq for $aff {
            fn eq(&self, o: &Self) -> bool {
                self.x == o.x && self.y == o.y
            }
        }
        impl core::cmp::Eq for $aff {}
        impl ConstantTimeEq for $aff {
            fn ct_eq(&self, o: &Self) -> Choice {
                self.x.ct_eq(&o.x) & self.y.ct_eq(&o.y)
            }
        }
        impl ConditionallySelectable for $aff {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $aff {
                    x: $base::conditional_select(&a.x, &b.x, c),
                    y: $base::conditional_select(&a.y, &b.y, c),
                }
            }
        }
        impl Default for $aff {
            fn default() -> Self {
                <$aff as PrimeCurveAffine>::identity()
            }
        }
        impl From<$pt> for $aff {
            fn from(p: $pt) -> $aff {
                p.to_affine()
            }
        }
        impl<'a> From<&'a $pt> for $aff {
            fn from(p: &'a $pt) -> $aff {
                p.to_affine()
            }
        }
        impl From<$aff> for $pt {
            fn from(p: $aff) -> $pt {
                p.to_curve()
            }
        }
        impl<'a> From<&'a $aff> for $pt {
            fn from(p: &'a $aff) -> $pt {
                p.to_curve()
            }
        }
        impl Neg for $pt {
            type Output = $pt;
            fn neg(self) -> $pt {
                $pt { x: self.x, y: -self.y, z: self.z }
            }
        }
        impl<'a> Neg for &'a $pt {
            type Output = $pt;
            fn neg(self) -> $pt {
                -*self
            }
        }
        impl Neg for $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                $aff { x: self.x, y: -self.y }
            }
        }
        impl<'a> Neg for &'a $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                -*self
            }
        }
        curve!(@binop $pt, $pt, $pt, |a, b| a.add_full(b), |a, b| a.add_full(&-b));
        curve!(@binop $pt, $aff, $pt, |a, b| a.add_mixed(b), |a, b| a.add_mixed(&-b));
        curve!(@binop $aff, $pt, $pt, |a, b| b.add_mixed(a), |a, b| (-b).add_mixed(a));
        curve!(@binop $aff, $aff, $pt, |a, b| a.to_curve().add_mixed(b), |a, b| a.to_curve().add_mixed(&-b));
        curve!(@assign $pt, $pt);
        curve!(@assign $pt, $aff);
        curve!(@mul $pt, $scalar, $pt, |a, k| a.mul_scalar(k));
        curve!(@mul $aff, $scalar, $pt, |a, k| a.to_curve().mul_scalar(k));
        impl MulAssign<$scalar> for $pt {
            fn mul_assign(&mut self, k: $scalar) {
                *self = self.mul_scalar(&k)
            }
        }
        impl<'a> MulAssign<&'a $scalar> for $pt {
            fn mul_assign(&mut self, k: &'a $scalar) {
                *self = self.mul_scalar(k)
            }
        }
        impl<T: core::borrow::Borrow<$pt>> Sum<T> for $pt {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold($pt::identity(), |a, b| a + b.borrow())
            }
        }
        impl Group for $pt {
            type Scalar = $scalar;
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                loop {
                    let x = $base::try_random(rng)?;
                    let sign = rng.try_next_u32()? & 1;
                    let y: Option<$base> = (Field::square(&x) * x + Self::b_coeff()).sqrt().into();
                    if let Some(y) = y {
                        let y = if bool::from(y.is_odd()) == (sign == 1) { y } else { -y };
                        return Ok($pt { x, y, z: $base::ONE });
                    }
                }
            }
            fn identity() -> Self {
                $pt { x: $base::ZERO, y: $base::ZERO, z: $base::ZERO }
            }
            fn generator() -> Self {
                $pt { x: -$base::ONE, y: $base::from(2), z: $base::ONE }
            }
            fn is_identity(&self) -> Choice {
                self.z.is_zero()
            }
            fn double(&self) -> Self {
                if self.is_id() {
                    return *self;
                }
                let a = self.x.square();
                let b = self.y.square();
                let c = b.square();
                let d = (self.x + b).square() - a - c;
                let d = d + d;
                let e = a + a + a;
                let f = e.square();
                let z3 = self.z * self.y;
                let z3 = z3 + z3;
                let x3 = f - (d + d);
                let c = c + c;
                let c = c + c;
                let c = c + c;
                let y3 = e * (d - x3) - c;
                $pt { x: x3, y: y3, z: z3 }
            }
        }
        impl Curve for $pt {
            type AffineRepr = $aff;
            fn to_affine(&self) -> $aff {
                let zinv = self.z.invert().unwrap_or($base::ZERO);
                let z2 = zinv.square();
                $aff { x: self.x * z2, y: self.y * z2 * zinv }
            }
            fn batch_normalize(p: &[Self], q: &mut [$aff]) {
                assert_eq!(p.len(), q.len());
                let mut zs: Vec<$base> = p.iter().map(|p| p.z).collect();
                let mut scratch = vec![$base::ZERO; zs.len()];
                ff::BatchInverter::invert_with_external_scratch(&mut zs, &mut scratch);
                for ((p, q), zinv) in p.iter().zip(q.iter_mut()).zip(zs) {
                    let z2 = zinv.square();
                    *q = $aff { x: p.x * z2, y: p.y * z2 * zinv };
                }
            }
        }
        impl GroupEncoding for $aff {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                let mut tmp = *bytes;
                let sign = tmp[31] >> 7;
                tmp[31] &= 0x7f;
                let id = <$aff as PrimeCurveAffine>::identity();
                if tmp == [0u8; 32] && sign == 0 {
                    return CtOption::new(id, 1.into());
                }
                let x: Option<$base> = $base::from_repr(tmp).into();
                let y: Option<$base> =
                    x.and_then(|x| (Field::square(&x) * x + $pt::b_coeff()).sqrt().into());
                match (x, y) {
                    (Some(x), Some(y)) => {
                        let y = if (bool::from(y.is_odd()) as u8) == sign { y } else { -y };
                        CtOption::new($aff { x, y }, 1.into())
                    }
                    _ => CtOption::new(id, 0.into()),
                }
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                let mut r = self.x.to_repr();
                r[31] |= (bool::from(self.y.is_odd()) as u8) << 7;
                r
            }
        }
        impl GroupEncoding for $pt {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                $aff::from_bytes(bytes).map(|p| p.to_curve())
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                self.to_affine().to_bytes()
            }
        }
        impl PrimeGroup for $pt {}
        impl PrimeCurve for $pt {
            type Affine = $aff;
        }
        impl PrimeCurveAffine for $aff {
            type Scalar = $scalar;
            type Curve = $pt;
            fn identity() -> Self {
                $aff { x: $base::ZERO, y: $base::ZERO }
            }
            fn generator() -> Self {
                $aff { x: -$base::ONE, y: $base::from(2) }
            }
            fn is_identity(&self) -> Choice {
                self.x.is_zero() & self.y.is_zero()
            }
            fn to_curve(&self) -> $pt {
                if bool::from(PrimeCurveAffine::is_identity(self)) {
                    $pt::identity()
                } else {
                    $pt { x: self.x, y: self.y, z: $base::ONE }
                }
            }
        }
        impl WnafGroup for $pt {
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                4
            }
        }
        impl CurveExt for $pt {
            type ScalarExt = $scalar;
            type Base = $base;
            type AffineExt = $aff;
            const CURVE_ID: &'static str = $id;
            fn endo(&self) -> Self {
                $pt { x: self.x * $base::ZETA, y: self.y, z: self.z }
            }
            fn jacobian_coordinates(&self) -> ($base, $base, $base) {
                (self.x, self.y, self.z)
            }
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |msg| {
                    for ctr in 0u32.. {
                        let mut st = blake2b_simd::Params::new().hash_length(64).personal(b"shim-h2c").to_state();
                        st.update(&(domain_prefix.len() as u64).to_le_bytes());
                        st.update(domain_prefix.as_bytes());
                        st.update($id.as_bytes());
                        st.update(msg);
                        st.update(&ctr.to_le_bytes());
                        let h = st.finalize();
                        let x = $base::from_uniform_bytes(h.as_array());
                        let y: Option<$base> = (Field::square(&x) * x + $pt::b_coeff()).sqrt().into();
                        if let Some(y) = y {
                            let y = if bool::from(y.is_odd()) { -y } else { y };
                            return $pt { x, y, z: $base::ONE };
                        }
                    }
                    unreachable!()
                })
            }
            fn is_on_curve(&self) -> Choice {
                let z2 = self.z.square();
                let z6 = z2.square() * z2;
                let ok = self.is_id() || self.y.square() == self.x.square() * self.x + z6 * $pt::b_coeff();
                Choice::from(ok as u8)
            }
            fn a() -> $base {
                $base::ZERO
            }
            fn b() -> $base {
                $pt::b_coeff()
            }
            fn new_jacobian(x: $base, y: $base, z: $base) -> CtOption<Self> {
                let p = $pt { x, y, z };
                CtOption::new(p, CurveExt::is_on_curve(&p))
            }
        }
        impl CurveAffine for $aff {
            type ScalarExt = $scalar;
            type Base = $base;
            type CurveExt = $pt;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                CtOption::new(Coordinates { x: self.x, y: self.y }, !PrimeCurveAffine::is_identity(self))
            }
            fn from_xy(x: $base, y: $base) -> CtOption<Self> {
                let p = $aff { x, y };
                CtOption::new(p, CurveAffine::is_on_curve(&p))
            }
            fn is_on_curve(&self) -> Choice {
                let ok = bool::from(PrimeCurveAffine::is_identity(self))
                    || Field::square(&self.y) == Field::square(&self.x) * self.x + $pt::b_coeff();
                Choice::from(ok as u8)
            }
            fn a() -> $base {
                $base::ZERO
            }
            fn b() -> $base {
                $pt::b_coeff()
            }
        }
    };
    (@binop $l:ident, $r:ident, $out:ident, $add:expr, $sub:expr) => {
        impl<'a, 'b> Add<&'b $r> for &'a $l {
            type Output = $out;
            fn add(self, o: &'b $r) -> $out {
                let f: fn(&$l, &$r) -> $out = $add;
                f(self, o)
            }
        }
        impl<'b> Add<&'b $r> for $l {
            type Output = $out;
            fn add(self, o: &'b $r) -> $out {
                &self + o
            }
        }
        impl<'a> Add<$r> for &'a $l {
            type Output = $out;
            fn add(self, o: $r) -> $out {
                self + &o
            }
        }
        impl Add<$r> for $l {
            type Output = $out;
            fn add(self, o: $r) -> $out {
                &self + &o
            }
        }
        impl<'a, 'b> Sub<&'b $r> for &'a $l {
            type Output = $out;
            fn sub(self, o: &'b $r) -> $out {
                let f: fn(&$l, &$r) -> $out = $sub;
                f(self, o)
            }
        }
        impl<'b> Sub<&'b $r> for $l {
            type Output = $out;
            fn sub(self, o: &'b $r) -> $out {
                &self - o
            }
        }
        impl<'a> Sub<$r> for &'a $l {
            type Output = $out;
            fn sub(self, o: $r) -> $out {
                self - &o
            }
        }
        impl Sub<$r> for $l {
            type Output = $out;
            fn sub(self, o: $r) -> $out {
                &self - &o
            }
        }
    };
    (@assign $l:ident, $r:ident) => {
        impl AddAssign<$r> for $l {
            fn add_assign(&mut self, o: $r) {
                *self = &*self + &o
            }
        }
        impl<'a> AddAssign<&'a $r> for $l {
            fn add_assign(&mut self, o: &'a $r) {
                *self = &*self + o
            }
        }
        impl SubAssign<$r> for $l {
            fn sub_assign(&mut self, o: $r) {
                *self = &*self - &o
            }
        }
        impl<'a> SubAssign<&'a $r> for $l {
            fn sub_assign(&mut self, o: &'a $r) {
                *self = &*self - o
            }
        }
    };
    (@mul $l:ident, $s:ident, $out:ident, $f:expr) => {
        impl<'a, 'b> Mul<&'b $s> for &'a $l {
            type Output = $out;
            fn mul(self, k: &'b $s) -> $out {
                let f: fn(&$l, &$s) -> $out = $f;
                f(self, k)
            }
        }
        impl<'b> Mul<&'b $s> for $l {
            type Output = $out;
            fn mul(self, k: &'b $s) -> $out {
                &self * k
            }
        }
        impl<'a> Mul<$s> for &'a $l {
            type Output = $out;
            fn mul(self, k: $s) -> $out {
                self * &k
            }
        }
        impl Mul<$s> for $l {
            type Output = $out;
            fn mul(self, k: $s) -> $out {
                &self * &k
            }
        }
    };
}

curve!(Ep, EpAffine, Fp, Fq, "pallas");
curve!(Eq, EqAffine, Fq, Fp, "vesta");

/// Pallas.
pub mod pallas {
    pub use crate::{Ep as Point, EpAffine as Affine, Fp as Base, Fq as Scalar};
}
/// Vesta.
pub mod vesta {
    pub use crate::{Eq as Point, EqAffine as Affine, Fp as Scalar, Fq as Base};
}

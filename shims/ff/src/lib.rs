//! Offline stand-in for `ff` 0.14.0-pre.0: the traits, with their documented
//! default methods, and `BatchInverter`.
#![no_std]
#[cfg(feature = "alloc")]
extern crate alloc;

mod batch;
pub mod helpers;
pub use batch::*;

use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};

use rand_core::{Rng, TryRng};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// A finite field.
pub trait Field:
    Sized
    + Eq
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + fmt::Debug
    + 'static
    + ConditionallySelectable
    + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Sum
    + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;

    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        match Self::try_random(rng) {
            Ok(v) => v,
            Err(e) => match e {},
        }
    }

    fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error>;

    fn is_zero(&self) -> Choice {
        self.ct_eq(&Self::ZERO)
    }

    fn is_zero_vartime(&self) -> bool {
        self.is_zero().into()
    }

    #[must_use]
    fn square(&self) -> Self;

    #[must_use]
    fn cube(&self) -> Self {
        self.square() * self
    }

    #[must_use]
    fn double(&self) -> Self;

    fn invert(&self) -> CtOption<Self>;

    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);

    fn sqrt_alt(&self) -> (Choice, Self) {
        Self::sqrt_ratio(self, &Self::ONE)
    }

    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_ratio(self, &Self::ONE);
        CtOption::new(res, is_square)
    }

    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                let mut tmp = res;
                tmp *= self;
                res.conditional_assign(&tmp, (((*e >> i) & 1) as u8).into());
            }
        }
        res
    }

    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if ((*e >> i) & 1) == 1 {
                    res.mul_assign(self);
                }
            }
        }
        res
    }
}

/// A prime field.
pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;

    fn from_str_vartime(s: &str) -> Option<Self> {
        if s.is_empty() {
            return None;
        }
        if s == "0" {
            return Some(Self::ZERO);
        }
        let mut res = Self::ZERO;
        let ten = Self::from(10);
        let mut first_digit = true;
        for c in s.chars() {
            match c.to_digit(10) {
                Some(c) => {
                    if first_digit {
                        if c == 0 {
                            return None;
                        }
                        first_digit = false;
                    }
                    res.mul_assign(&ten);
                    res.add_assign(&Self::from(u64::from(c)));
                }
                None => return None,
            }
        }
        Some(res)
    }

    fn from_u128(v: u128) -> Self {
        let lower = v as u64;
        let upper = (v >> 64) as u64;
        let mut tmp = Self::from(upper);
        for _ in 0..64 {
            tmp = tmp.double();
        }
        tmp + Self::from(lower)
    }

    fn from_repr(repr: Self::Repr) -> CtOption<Self>;

    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> {
        Self::from_repr(repr).into()
    }

    fn to_repr(&self) -> Self::Repr;

    fn is_odd(&self) -> Choice;

    fn is_even(&self) -> Choice {
        !self.is_odd()
    }

    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

/// A field with a multiplicative subgroup of small order `N`.
pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    /// A generator of that subgroup.
    const ZETA: Self;
}

/// Uniform sampling from byte strings.
pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

/// Little-endian bits of a field element (bool array rather than `bitvec`).
#[cfg(feature = "bits")]
pub trait PrimeFieldBits: PrimeField {
    fn to_le_bits(&self) -> [bool; 256];
    fn char_le_bits() -> [bool; 256];
}

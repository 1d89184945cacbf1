//! Small prime fields, so that whole spaces can be enumerated and the limits of
//! the two-adic subgroup are within reach.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::*;
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Gf<const P: u64>(pub u64);

const fn powm(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
const fn order(g: u64, p: u64) -> u64 {
    let mut x = g % p;
    let mut n = 1;
    while x != 1 {
        x = x * g % p;
        n += 1;
    }
    n
}
const fn generator(p: u64) -> u64 {
    let mut g = 2;
    while order(g, p) != p - 1 {
        g += 1;
    }
    g
}
impl<const P: u64> Gf<P> {
    pub const G: u64 = generator(P);
    const S_: u32 = (P - 1).trailing_zeros();
    const ROOT: u64 = powm(Self::G, (P - 1) >> Self::S_, P);
    pub fn all() -> impl Iterator<Item = Self> {
        (0..P).map(Gf)
    }
}
impl<const P: u64> fmt::Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> ConditionallySelectable for Gf<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if bool::from(c) { *b } else { *a }
    }
}
impl<const P: u64> ConstantTimeEq for Gf<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl<const P: u64> Neg for Gf<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Gf((P - self.0) % P)
    }
}
macro_rules! ops {
    ($($t:ident $f:ident $ta:ident $fa:ident $e:expr;)*) => {$(
        impl<const P: u64> $t for Gf<P> { type Output = Self; fn $f(self, o: Self) -> Self { let e: fn(u64, u64, u64) -> u64 = $e; Gf(e(self.0, o.0, P)) } }
        impl<const P: u64> $t<&Gf<P>> for Gf<P> { type Output = Self; fn $f(self, o: &Self) -> Self { $t::$f(self, *o) } }
        impl<const P: u64> $ta for Gf<P> { fn $fa(&mut self, o: Self) { *self = $t::$f(*self, o) } }
        impl<const P: u64> $ta<&Gf<P>> for Gf<P> { fn $fa(&mut self, o: &Self) { *self = $t::$f(*self, *o) } }
    )*};
}
ops! {
    Add add AddAssign add_assign |a, b, p| (a + b) % p;
    Sub sub SubAssign sub_assign |a, b, p| (a + p - b) % p;
    Mul mul MulAssign mul_assign |a, b, p| a * b % p;
}
impl<const P: u64> Sum for Gf<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Gf(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Self> for Gf<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Gf(0), |a, b| a + *b)
    }
}
impl<const P: u64> Product for Gf<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Gf(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Self> for Gf<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Gf(1), |a, b| a * *b)
    }
}
impl<const P: u64> From<u64> for Gf<P> {
    fn from(x: u64) -> Self {
        Gf(x % P)
    }
}
impl<const P: u64> Field for Gf<P> {
    const ZERO: Self = Gf(0);
    const ONE: Self = Gf(1);
    fn try_random<R: rand::rand_core::TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
        Ok(Gf(rng.try_next_u64()? % P))
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Gf(powm(self.0, P - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        if num.0 == 0 {
            return (Choice::from(1), Gf(0));
        }
        if div.0 == 0 {
            return (Choice::from(0), Gf(0));
        }
        let q = *num * div.invert().unwrap();
        match (0..P).find(|x| x * x % P == q.0) {
            Some(x) => (Choice::from(1), Gf(x)),
            None => {
                let r = q * Self::ROOT_OF_UNITY;
                (Choice::from(0), Gf((0..P).find(|x| x * x % P == r.0).unwrap()))
            }
        }
    }
}
impl<const P: u64> PrimeField for Gf<P> {
    type Repr = [u8; 16];
    fn from_repr(r: Self::Repr) -> CtOption<Self> {
        let v = u128::from_le_bytes(r);
        CtOption::new(Gf(v as u64), Choice::from((v < P as u128) as u8))
    }
    fn to_repr(&self) -> Self::Repr {
        (self.0 as u128).to_le_bytes()
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "small";
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = Self::NUM_BITS - 1;
    const TWO_INV: Self = Gf(P.div_ceil(2));
    const MULTIPLICATIVE_GENERATOR: Self = Gf(Self::G);
    const S: u32 = Self::S_;
    const ROOT_OF_UNITY: Self = Gf(Self::ROOT);
    const ROOT_OF_UNITY_INV: Self = Gf(powm(Self::ROOT, P - 2, P));
    const DELTA: Self = Gf(powm(Self::G, 1 << Self::S_, P));
}
/// Only for primes that are 1 modulo 3.
impl<const P: u64> WithSmallOrderMulGroup<3> for Gf<P> {
    const ZETA: Self = {
        assert!(P % 3 == 1);
        Gf(powm(Self::G, (P - 1) / 3, P))
    };
}
impl<const P: u64> FromUniformBytes<64> for Gf<P> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        b.iter().rev().fold(Gf(0), |a, x| a * Gf(256 % P) + Gf(*x as u64 % P))
    }
}

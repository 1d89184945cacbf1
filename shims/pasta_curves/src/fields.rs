//! The Pasta fields: four 64-bit limbs in Montgomery form.
use core::cmp::Ordering;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[inline(always)]
const fn adc(a: u64, b: u64, carry: u64) -> (u64, u64) {
    let ret = (a as u128) + (b as u128) + (carry as u128);
    (ret as u64, (ret >> 64) as u64)
}
#[inline(always)]
const fn sbb(a: u64, b: u64, borrow: u64) -> (u64, u64) {
    let ret = (a as u128).wrapping_sub((b as u128) + ((borrow >> 63) as u128));
    (ret as u64, (ret >> 64) as u64)
}
#[inline(always)]
const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let ret = (a as u128) + ((b as u128) * (c as u128)) + (carry as u128);
    (ret as u64, (ret >> 64) as u64)
}

macro_rules! field {
    ($name:ident, $modstr:expr, modulus: $m:expr, inv: $inv:expr, r: $r:expr, r2: $r2:expr, r3: $r3:expr,
     two_inv: $ti:expr, generator: $g:expr, root: $root:expr, root_inv: $rooti:expr, delta: $delta:expr,
     zeta: $zeta:expr, tm1d2: $tm1d2:expr, mm2: $mm2:expr) => {
        /// A field element (Montgomery form).
        #[derive(Clone, Copy, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $name([u64; 4]);

        impl $name {
            const MOD: [u64; 4] = $m;
            const INV: u64 = $inv;
            const R: $name = $name($r);
            const R2: $name = $name($r2);
            const R3: $name = $name($r3);

            pub const fn zero() -> Self {
                $name([0; 4])
            }
            pub const fn one() -> Self {
                Self::R
            }
            /// From canonical little-endian limbs.
            pub const fn from_raw(val: [u64; 4]) -> Self {
                Self::mul(&$name(val), &Self::R2)
            }
            #[inline(always)]
            const fn sub_mod(v: [u64; 4]) -> Self {
                Self::sub(&$name(v), &$name(Self::MOD))
            }
            #[inline]
            pub const fn add(&self, rhs: &Self) -> Self {
                let (d0, c) = adc(self.0[0], rhs.0[0], 0);
                let (d1, c) = adc(self.0[1], rhs.0[1], c);
                let (d2, c) = adc(self.0[2], rhs.0[2], c);
                let (d3, _) = adc(self.0[3], rhs.0[3], c);
                Self::sub_mod([d0, d1, d2, d3])
            }
            #[inline]
            pub const fn sub(&self, rhs: &Self) -> Self {
                let (d0, b) = sbb(self.0[0], rhs.0[0], 0);
                let (d1, b) = sbb(self.0[1], rhs.0[1], b);
                let (d2, b) = sbb(self.0[2], rhs.0[2], b);
                let (d3, b) = sbb(self.0[3], rhs.0[3], b);
                let (d0, c) = adc(d0, Self::MOD[0] & b, 0);
                let (d1, c) = adc(d1, Self::MOD[1] & b, c);
                let (d2, c) = adc(d2, Self::MOD[2] & b, c);
                let (d3, _) = adc(d3, Self::MOD[3] & b, c);
                $name([d0, d1, d2, d3])
            }
            #[inline]
            pub const fn neg(&self) -> Self {
                let (d0, b) = sbb(Self::MOD[0], self.0[0], 0);
                let (d1, b) = sbb(Self::MOD[1], self.0[1], b);
                let (d2, b) = sbb(Self::MOD[2], self.0[2], b);
                let (d3, _) = sbb(Self::MOD[3], self.0[3], b);
                let mask = (((self.0[0] | self.0[1] | self.0[2] | self.0[3]) == 0) as u64).wrapping_sub(1);
                $name([d0 & mask, d1 & mask, d2 & mask, d3 & mask])
            }
            #[inline]
            pub const fn double(&self) -> Self {
                self.add(self)
            }
            #[inline]
            pub const fn square(&self) -> Self {
                self.mul(self)
            }
            #[inline]
            pub const fn mul(&self, rhs: &Self) -> Self {
                let a = &self.0;
                let b = &rhs.0;
                let (r0, c) = mac(0, a[0], b[0], 0);
                let (r1, c) = mac(0, a[0], b[1], c);
                let (r2, c) = mac(0, a[0], b[2], c);
                let (r3, r4) = mac(0, a[0], b[3], c);
                let (r1, c) = mac(r1, a[1], b[0], 0);
                let (r2, c) = mac(r2, a[1], b[1], c);
                let (r3, c) = mac(r3, a[1], b[2], c);
                let (r4, r5) = mac(r4, a[1], b[3], c);
                let (r2, c) = mac(r2, a[2], b[0], 0);
                let (r3, c) = mac(r3, a[2], b[1], c);
                let (r4, c) = mac(r4, a[2], b[2], c);
                let (r5, r6) = mac(r5, a[2], b[3], c);
                let (r3, c) = mac(r3, a[3], b[0], 0);
                let (r4, c) = mac(r4, a[3], b[1], c);
                let (r5, c) = mac(r5, a[3], b[2], c);
                let (r6, r7) = mac(r6, a[3], b[3], c);
                Self::reduce(r0, r1, r2, r3, r4, r5, r6, r7)
            }
            #[inline(always)]
            #[allow(clippy::too_many_arguments)]
            const fn reduce(r0: u64, r1: u64, r2: u64, r3: u64, r4: u64, r5: u64, r6: u64, r7: u64) -> Self {
                let m = &Self::MOD;
                let k = r0.wrapping_mul(Self::INV);
                let (_, c) = mac(r0, k, m[0], 0);
                let (r1, c) = mac(r1, k, m[1], c);
                let (r2, c) = mac(r2, k, m[2], c);
                let (r3, c) = mac(r3, k, m[3], c);
                let (r4, c2) = adc(r4, 0, c);
                let k = r1.wrapping_mul(Self::INV);
                let (_, c) = mac(r1, k, m[0], 0);
                let (r2, c) = mac(r2, k, m[1], c);
                let (r3, c) = mac(r3, k, m[2], c);
                let (r4, c) = mac(r4, k, m[3], c);
                let (r5, c2) = adc(r5, c2, c);
                let k = r2.wrapping_mul(Self::INV);
                let (_, c) = mac(r2, k, m[0], 0);
                let (r3, c) = mac(r3, k, m[1], c);
                let (r4, c) = mac(r4, k, m[2], c);
                let (r5, c) = mac(r5, k, m[3], c);
                let (r6, c2) = adc(r6, c2, c);
                let k = r3.wrapping_mul(Self::INV);
                let (_, c) = mac(r3, k, m[0], 0);
                let (r4, c) = mac(r4, k, m[1], c);
                let (r5, c) = mac(r5, k, m[2], c);
                let (r6, c) = mac(r6, k, m[3], c);
                let (r7, _) = adc(r7, c2, c);
                Self::sub_mod([r4, r5, r6, r7])
            }
            const fn canonical(&self) -> [u64; 4] {
                Self::reduce(self.0[0], self.0[1], self.0[2], self.0[3], 0, 0, 0, 0).0
            }
            fn from_u512(l: [u64; 8]) -> Self {
                let d0 = $name([l[0], l[1], l[2], l[3]]);
                let d1 = $name([l[4], l[5], l[6], l[7]]);
                $name::add(&$name::mul(&d0, &Self::R2), &$name::mul(&d1, &Self::R3))
            }
        }

        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let c = self.canonical();
                write!(f, "0x{:016x}{:016x}{:016x}{:016x}", c[3], c[2], c[1], c[0])
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(self, f)
            }
        }
        impl Hash for $name {
            fn hash<H: Hasher>(&self, h: &mut H) {
                self.canonical().hash(h)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl From<bool> for $name {
            fn from(b: bool) -> Self {
                if b { Self::one() } else { Self::zero() }
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                Self::from_raw([v, 0, 0, 0])
            }
        }
        impl From<$name> for [u8; 32] {
            fn from(v: $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl<'a> From<&'a $name> for [u8; 32] {
            fn from(v: &'a $name) -> [u8; 32] {
                v.to_repr()
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> Ordering {
                let (a, b) = (self.canonical(), o.canonical());
                a.iter().rev().cmp(b.iter().rev())
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                self.0[0].ct_eq(&o.0[0]) & self.0[1].ct_eq(&o.0[1]) & self.0[2].ct_eq(&o.0[2]) & self.0[3].ct_eq(&o.0[3])
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $name([
                    u64::conditional_select(&a.0[0], &b.0[0], c),
                    u64::conditional_select(&a.0[1], &b.0[1], c),
                    u64::conditional_select(&a.0[2], &b.0[2], c),
                    u64::conditional_select(&a.0[3], &b.0[3], c),
                ])
            }
        }
        field!(@op $name, Add, add, AddAssign, add_assign);
        field!(@op $name, Sub, sub, SubAssign, sub_assign);
        field!(@op $name, Mul, mul, MulAssign, mul_assign);
        impl Neg for $name {
            type Output = $name;
            #[inline]
            fn neg(self) -> $name {
                $name::neg(&self)
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            #[inline]
            fn neg(self) -> $name {
                $name::neg(self)
            }
        }
        impl<T: core::borrow::Borrow<$name>> Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::ZERO, |a, i| a + i.borrow())
            }
        }
        impl<T: core::borrow::Borrow<$name>> Product<T> for $name {
            fn product<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::ONE, |a, i| a * i.borrow())
            }
        }
        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                let mut l = [0u64; 8];
                for x in l.iter_mut() {
                    *x = rng.try_next_u64()?;
                }
                Ok(Self::from_u512(l))
            }
            #[inline]
            fn square(&self) -> Self {
                $name::square(self)
            }
            #[inline]
            fn double(&self) -> Self {
                $name::double(self)
            }
            fn invert(&self) -> CtOption<Self> {
                CtOption::new(self.pow_vartime($mm2), !self.is_zero())
            }
            fn sqrt(&self) -> CtOption<Self> {
                // Tonelli-Shanks, variable time.
                let w = self.pow_vartime($tm1d2);
                let mut x = w * self;
                let mut b = x * w;
                let mut z = Self::ROOT_OF_UNITY;
                let mut v = Self::S;
                if self.is_zero_vartime() {
                    return CtOption::new(*self, 1.into());
                }
                loop {
                    if b == Self::ONE {
                        break;
                    }
                    let mut k = 0;
                    let mut t = b;
                    while t != Self::ONE && k < v {
                        t = Field::square(&t);
                        k += 1;
                    }
                    if k >= v {
                        return CtOption::new(Self::ZERO, 0.into());
                    }
                    for _ in 0..(v - k - 1) {
                        z = Field::square(&z);
                    }
                    x *= z;
                    z = Field::square(&z);
                    b *= z;
                    v = k;
                }
                CtOption::new(x, x.square().ct_eq(self))
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                ff::helpers::sqrt_ratio_generic(num, div)
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; 32];
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = $name($ti);
            const MULTIPLICATIVE_GENERATOR: Self = $name($g);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = $name($root);
            const ROOT_OF_UNITY_INV: Self = $name($rooti);
            const DELTA: Self = $name($delta);
            fn from_u128(v: u128) -> Self {
                Self::from_raw([v as u64, (v >> 64) as u64, 0, 0])
            }
            fn from_repr(repr: [u8; 32]) -> CtOption<Self> {
                let mut l = [0u64; 4];
                for i in 0..4 {
                    l[i] = u64::from_le_bytes(repr[8 * i..8 * i + 8].try_into().unwrap());
                }
                let (_, b) = sbb(l[0], Self::MOD[0], 0);
                let (_, b) = sbb(l[1], Self::MOD[1], b);
                let (_, b) = sbb(l[2], Self::MOD[2], b);
                let (_, b) = sbb(l[3], Self::MOD[3], b);
                CtOption::new(Self::from_raw(l), Choice::from((b & 1) as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let c = self.canonical();
                let mut out = [0u8; 32];
                for i in 0..4 {
                    out[8 * i..8 * i + 8].copy_from_slice(&c[i].to_le_bytes());
                }
                out
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.canonical()[0] & 1) as u8)
            }
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = $name($zeta);
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> Self {
                let mut l = [0u64; 8];
                for i in 0..8 {
                    l[i] = u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap());
                }
                Self::from_u512(l)
            }
        }
        impl ff::PrimeFieldBits for $name {
            fn to_le_bits(&self) -> [bool; 256] {
                let c = self.canonical();
                core::array::from_fn(|i| (c[i / 64] >> (i % 64)) & 1 == 1)
            }
            fn char_le_bits() -> [bool; 256] {
                core::array::from_fn(|i| (Self::MOD[i / 64] >> (i % 64)) & 1 == 1)
            }
        }
    };
    (@op $name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl $tr<$name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name {
                $name::$f(&self, &o)
            }
        }
        impl<'a> $tr<&'a $name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &'a $name) -> $name {
                $name::$f(&self, o)
            }
        }
        impl<'b> $tr<$name> for &'b $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name {
                $name::$f(self, &o)
            }
        }
        impl<'a, 'b> $tr<&'a $name> for &'b $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &'a $name) -> $name {
                $name::$f(self, o)
            }
        }
        impl $tra<$name> for $name {
            #[inline]
            fn $fa(&mut self, o: $name) {
                *self = $name::$f(self, &o)
            }
        }
        impl<'a> $tra<&'a $name> for $name {
            #[inline]
            fn $fa(&mut self, o: &'a $name) {
                *self = $name::$f(self, o)
            }
        }
    };
}

field!(
    Fp,
    "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    modulus: [0x992d30ed00000001, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000],
    inv: 0x992d30ecffffffff,
    r: [0x34786d38fffffffd, 0x992c350be41914ad, 0xffffffffffffffff, 0x3fffffffffffffff],
    r2: [0x8c78ecb30000000f, 0xd7d30dbd8b0de0e7, 0x7797a99bc3c95d18, 0x096d41af7b9cb714],
    r3: [0xf185a5993a9e10f9, 0xf6a68f3b6ac5b1d1, 0xdf8d1014353fd42c, 0x2ae309222d2d9910],
    two_inv: [0x66d2cf12ffffffff, 0xddb96703f6b306e4, 0xffffffffffffffff, 0x3fffffffffffffff],
    generator: [0xa1a55e68ffffffed, 0x74c2a54b4f4982f3, 0xfffffffffffffffd, 0x3fffffffffffffff],
    root: [0xa28db849bad6dbf0, 0x9083cd03d3b539df, 0xfba6b9ca9dc8448e, 0x3ec928747b89c6da],
    root_inv: [0x5cfe5f67cb155442, 0x176460c2734c4621, 0xdf81001645214110, 0x18047fb9f91068bc],
    delta: [0x5965e9af9d651171, 0xc7c59c1bb222e936, 0x272acaec59b6a78c, 0x08eb004e7903b751],
    zeta: [0x02021cf6619a153d, 0x9e8c26974980b78e, 0x2a676d5cc87a4666, 0x15d8049da7a17876],
    tm1d2: [0x04a67c8dcc969876, 0x0000000011234c7e, 0x0000000000000000, 0x0000000020000000],
    mm2: [0x992d30ecffffffff, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000]
);
field!(
    Fq,
    "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    modulus: [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000],
    inv: 0x8c46eb20ffffffff,
    r: [0x5b2b3e9cfffffffd, 0x992c350be3420567, 0xffffffffffffffff, 0x3fffffffffffffff],
    r2: [0xfc9678ff0000000f, 0x67bb433d891a16e3, 0x7fae231004ccf590, 0x096d41af7ccfdaa9],
    r3: [0x008b421c249dae4c, 0xe13bda50dba41326, 0x88fececb8e15cb63, 0x07dd97a06e6792c8],
    two_inv: [0x73b914deffffffff, 0xddb96703f66b5722, 0xffffffffffffffff, 0x3fffffffffffffff],
    generator: [0x96bc8c8cffffffed, 0x74c2a54b49f7778e, 0xfffffffffffffffd, 0x3fffffffffffffff],
    root: [0x218077428c9942de, 0xcc49578921b60494, 0xac2e5d27b2efbee2, 0x0b79fa897f2db056],
    root_inv: [0xb990773d23d22e85, 0x4ece919a03f3c012, 0x2c9ac8b9aa3ba50b, 0x364d5dfa434d9efa],
    delta: [0xfea35ff47ef3ee87, 0xc982cbdd717fd9c6, 0x0d25c7ce50b8ab59, 0x17bffd4cc7ac17c1],
    zeta: [0x7c541a8480111122, 0x40630b9c56ed29da, 0x02c275fb135b2b29, 0x121d29f888245b10],
    tm1d2: [0x04ca546ec6237590, 0x0000000011234c7e, 0x0000000000000000, 0x0000000020000000],
    mm2: [0x8c46eb20ffffffff, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000]
);

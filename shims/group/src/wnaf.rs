//! w-ary non-adjacent form multiplication.
use alloc::vec::Vec;
use core::iter;
use core::marker::PhantomData;
use core::ops::Mul;
use ff::PrimeField;

use crate::Group;

/// A group with a recommended window size.
pub trait WnafGroup: Group {
    fn recommended_wnaf_for_num_scalars(num_scalars: usize) -> usize;
}

fn wnaf_table<G: Group>(table: &mut Vec<G>, mut base: G, window: usize) {
    table.truncate(0);
    table.reserve(1 << (window - 1));
    let dbl = base.double();
    for _ in 0..(1 << (window - 1)) {
        table.push(base);
        base.add_assign(&dbl);
    }
}

fn wnaf_form<S: AsRef<[u8]>>(wnaf: &mut Vec<i64>, c: S, window: usize) {
    debug_assert!(window >= 2);
    debug_assert!(window < 64);
    // Straightforward multi-limb recoding: k odd => digit = mods(k, 2^window').
    // `group` uses tables of 2^(window-1) odd multiples, i.e. digits up to 2^window - 1
    // in absolute value.
    let mut k: Vec<u64> = c
        .as_ref()
        .chunks(8)
        .map(|x| {
            let mut b = [0u8; 8];
            b[..x.len()].copy_from_slice(x);
            u64::from_le_bytes(b)
        })
        .chain(iter::once(0))
        .collect();
    wnaf.clear();
    let width = 1u64 << (window + 1);
    let half = 1u64 << window;
    while k.iter().any(|l| *l != 0) {
        let mut digit = 0i64;
        if k[0] & 1 == 1 {
            let m = k[0] & (width - 1);
            if m < half {
                digit = m as i64;
                sub_small(&mut k, m);
            } else {
                digit = m as i64 - width as i64;
                add_small(&mut k, width - m);
            }
        }
        wnaf.push(digit);
        for i in 0..k.len() {
            k[i] >>= 1;
            if i + 1 < k.len() {
                k[i] |= (k[i + 1] & 1) << 63;
            }
        }
    }
}

fn sub_small(k: &mut [u64], mut v: u64) {
    for l in k.iter_mut() {
        let (r, b) = l.overflowing_sub(v);
        *l = r;
        if !b {
            return;
        }
        v = 1;
    }
}

fn add_small(k: &mut [u64], mut v: u64) {
    for l in k.iter_mut() {
        let (r, b) = l.overflowing_add(v);
        *l = r;
        if !b {
            return;
        }
        v = 1;
    }
}

fn wnaf_exp<G: Group>(table: &[G], wnaf: &[i64]) -> G {
    let mut result = G::identity();
    let mut found_one = false;
    for n in wnaf.iter().rev() {
        if found_one {
            result = result.double();
        }
        if *n != 0 {
            found_one = true;
            if *n > 0 {
                result += &table[(n / 2) as usize];
            } else {
                result -= &table[((-n) / 2) as usize];
            }
        }
    }
    result
}

/// A scalar in windowed form.
#[derive(Clone, Debug)]
pub struct WnafScalar<F: PrimeField, const WINDOW_SIZE: usize> {
    wnaf: Vec<i64>,
    field: PhantomData<F>,
}

impl<F: PrimeField, const WINDOW_SIZE: usize> WnafScalar<F, WINDOW_SIZE> {
    pub fn new(scalar: &F) -> Self {
        let mut wnaf = Vec::new();
        wnaf_form(&mut wnaf, scalar.to_repr(), WINDOW_SIZE);
        WnafScalar { wnaf, field: PhantomData }
    }
}

/// A base with its table of odd multiples.
#[derive(Clone, Debug)]
pub struct WnafBase<G: Group, const WINDOW_SIZE: usize> {
    table: Vec<G>,
}

impl<G: Group, const WINDOW_SIZE: usize> WnafBase<G, WINDOW_SIZE> {
    pub fn new(base: G) -> Self {
        let mut table = Vec::new();
        wnaf_table(&mut table, base, WINDOW_SIZE);
        WnafBase { table }
    }
}

impl<G: Group, const WINDOW_SIZE: usize> Mul<&WnafScalar<G::Scalar, WINDOW_SIZE>>
    for &WnafBase<G, WINDOW_SIZE>
{
    type Output = G;
    fn mul(self, rhs: &WnafScalar<G::Scalar, WINDOW_SIZE>) -> Self::Output {
        wnaf_exp(&self.table, &rhs.wnaf)
    }
}

/// The contextual interface (owned form only).
#[derive(Debug)]
pub struct Wnaf<W, B, S> {
    base: B,
    scalar: S,
    window_size: W,
}

impl<G: Group> Wnaf<(), Vec<G>, Vec<i64>> {
    pub fn new() -> Self {
        Wnaf { base: Vec::new(), scalar: Vec::new(), window_size: () }
    }
}

impl<G: Group> Default for Wnaf<(), Vec<G>, Vec<i64>> {
    fn default() -> Self {
        Self::new()
    }
}

impl<G: WnafGroup> Wnaf<(), Vec<G>, Vec<i64>> {
    pub fn base(&mut self, base: G, num_scalars: usize) -> Wnaf<usize, &[G], &mut Vec<i64>> {
        let window_size = G::recommended_wnaf_for_num_scalars(num_scalars);
        wnaf_table(&mut self.base, base, window_size);
        Wnaf { base: &self.base[..], scalar: &mut self.scalar, window_size }
    }
}

impl<'a, G: Group> Wnaf<usize, &'a [G], &'a mut Vec<i64>> {
    pub fn scalar(&mut self, scalar: &G::Scalar) -> G {
        wnaf_form(self.scalar, scalar.to_repr(), self.window_size);
        wnaf_exp(self.base, self.scalar)
    }
}

//! The sponge and the transcript, plainly.
use ff::PrimeField;
use ragu_arithmetic::PoseidonPermutation;
use std::marker::PhantomData;

pub struct Plain<F, P: 'static> {
    p: &'static P,
    s: Vec<F>,
    absorbing: bool,
    /// absorbed since the last permutation / not yet squeezed
    pending: Vec<F>,
    _f: PhantomData<P>,
}
impl<F: Clone, P> Clone for Plain<F, P> {
    fn clone(&self) -> Self {
        Plain { p: self.p, s: self.s.clone(), absorbing: self.absorbing, pending: self.pending.clone(), _f: PhantomData }
    }
}
impl<F: PrimeField, P: PoseidonPermutation<F>> Plain<F, P> {
    pub fn new(p: &'static P) -> Self {
        Plain { p, s: vec![F::ZERO; P::T], absorbing: true, pending: vec![], _f: PhantomData }
    }
    fn permute(&mut self) {
        let rcs: Vec<&[F]> = self.p.round_constants().collect();
        let m: Vec<&[F]> = self.p.mds_matrix().collect();
        let half = P::FULL_ROUNDS / 2;
        for r in 0..P::FULL_ROUNDS + P::PARTIAL_ROUNDS {
            for i in 0..P::T {
                self.s[i] += rcs[r][i];
            }
            let full = r < half || r >= half + P::PARTIAL_ROUNDS;
            for i in 0..if full { P::T } else { 1 } {
                let x = self.s[i];
                self.s[i] = x * x * x * x * x;
            }
            self.s = (0..P::T).map(|i| (0..P::T).map(|j| m[i][j] * self.s[j]).sum()).collect();
        }
    }
    fn mix(&mut self) {
        for i in 0..self.pending.len() {
            self.s[i] += self.pending[i];
        }
        self.pending.clear();
        self.permute();
    }
    pub fn absorb(&mut self, x: F) {
        if !self.absorbing {
            self.pending.clear();
        }
        self.absorbing = true;
        if self.pending.len() == P::RATE {
            self.mix();
        }
        self.pending.push(x);
    }
    pub fn squeeze(&mut self) -> F {
        if self.absorbing {
            self.mix();
            self.absorbing = false;
            self.pending = self.s[..P::RATE].to_vec();
        } else if self.pending.is_empty() {
            self.permute();
            self.pending = self.s[..P::RATE].to_vec();
        }
        self.pending.remove(0)
    }
    /// The state once what was absorbed is mixed in.
    pub fn saved(&self) -> Vec<F> {
        let mut s = self.clone();
        s.mix();
        s.s
    }
    /// A sponge in this state, from which nothing has been taken.
    pub fn resumed(p: &'static P, s: &[F]) -> Self {
        Plain { p, s: s.to_vec(), absorbing: false, pending: s[..P::RATE].to_vec(), _f: PhantomData }
    }
    /// A transcript, started with a tag.
    pub fn tagged(p: &'static P, tag: &[u8]) -> Self {
        let mut t = Self::new(p);
        t.absorb(F::from(tag.len() as u64));
        for c in tag.chunks(16) {
            let x = c.iter().rev().fold(0u128, |a, b| a << 8 | *b as u128);
            t.absorb(F::from_u128(x));
        }
        t
    }
}

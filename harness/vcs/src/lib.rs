//! A reference constraint system with a driver that records into it, field
//! value generators, and the analyses the gadget checks use.
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_core::{
    Result,
    drivers::{Driver, DriverTypes, LinearExpression},
    maybe::{Always, Empty, MaybeKind},
};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::marker::PhantomData;
use std::rc::Rc;
use vlib::Gen;

pub mod curve;
pub mod fields;
pub mod prog;
pub mod solve;
pub mod tiny;
pub use tiny::Gf;
pub use fields::*;

/// Wire handle: index into the recorder's table of linear combinations.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct W(pub usize);

/// Linear expression under construction, with the documented meaning of gain:
/// it scales the terms added after it, and accumulates.
#[derive(Clone, Debug)]
pub struct Lc<F> {
    pub terms: Vec<(W, F)>,
    gain: F,
}
impl<F: Field> Default for Lc<F> {
    fn default() -> Self {
        Lc { terms: vec![], gain: F::ONE }
    }
}
impl<F: Field> LinearExpression<W, F> for Lc<F> {
    fn add_term(mut self, wire: &W, coeff: Coeff<F>) -> Self {
        self.terms.push((*wire, cval(&coeff) * self.gain));
        self
    }
    fn gain(mut self, coeff: Coeff<F>) -> Self {
        self.gain *= cval(&coeff);
        self
    }
}

/// Whether the value closures of a driver may run.
pub trait Presence: MaybeKind + 'static {
    const VALUES: bool;
}
impl Presence for Always<()> {
    const VALUES: bool = true;
}
impl Presence for Empty {
    const VALUES: bool = false;
}
pub type Present = Always<()>;
pub type Absent = Empty;

/// Sparse linear combination of base variables.
pub type Comb<F> = Rc<BTreeMap<usize, F>>;

/// How the recorder tampers with the advice of one gate.
pub type Tamper<F> = Rc<dyn Fn(usize, [F; 4]) -> [F; 4]>;

/// Base variables: 0 is the constant one; gate `g` has 1+4g .. 4+4g (a, b, c, d)
/// with the equations a*b = c and c*d = 0.
pub struct Rec<F: Field, K> {
    pub combs: Vec<Comb<F>>,
    pub gates: usize,
    pub constraints: Vec<BTreeMap<usize, F>>,
    pub raw_constraints: Vec<Vec<(W, F)>>,
    pub adds: usize,
    /// base variable values (all zero without witness)
    pub vals: Vec<F>,
    /// number of value closures that ran
    pub value_calls: Rc<Cell<usize>>,
    pub tamper: Option<Tamper<F>>,
    _k: PhantomData<K>,
}

impl<F: Field, K: Presence> Default for Rec<F, K> {
    fn default() -> Self {
        Self::new()
    }
}
impl<F: Field, K> Rec<F, K> {
    pub fn new() -> Self {
        let mut one = BTreeMap::new();
        one.insert(0, F::ONE);
        Rec {
            combs: vec![Rc::new(one)],
            gates: 0,
            constraints: vec![],
            raw_constraints: vec![],
            adds: 0,
            vals: vec![F::ONE],
            value_calls: Rc::new(Cell::new(0)),
            tamper: None,
            _k: PhantomData,
        }
    }
    pub fn with_tamper(t: Tamper<F>) -> Self {
        let mut s = Self::new();
        s.tamper = Some(t);
        s
    }
    fn resolve(&self, lc: &Lc<F>) -> BTreeMap<usize, F> {
        let mut m: BTreeMap<usize, F> = BTreeMap::new();
        for (w, c) in &lc.terms {
            for (v, x) in self.combs[w.0].iter() {
                *m.entry(*v).or_insert(F::ZERO) += *x * *c;
            }
        }
        m.retain(|_, x| !bool::from(x.is_zero()));
        m
    }
    pub fn comb(&self, w: W) -> &BTreeMap<usize, F> {
        &self.combs[w.0]
    }
    pub fn eval_comb(m: &BTreeMap<usize, F>, vals: &[F]) -> F {
        m.iter().map(|(v, c)| vals[*v] * *c).sum()
    }
    pub fn value(&self, w: W) -> F {
        Self::eval_comb(&self.combs[w.0], &self.vals)
    }
    /// First violated equation under the assignment `vals`.
    pub fn check_with(&self, vals: &[F]) -> std::result::Result<(), String> {
        for g in 0..self.gates {
            let [a, b, c, d] = [vals[1 + 4 * g], vals[2 + 4 * g], vals[3 + 4 * g], vals[4 + 4 * g]];
            if a * b != c {
                return Err(format!("gate {g}: a*b != c"));
            }
            if !bool::from((c * d).is_zero()) {
                return Err(format!("gate {g}: c*d != 0"));
            }
        }
        for (i, m) in self.constraints.iter().enumerate() {
            if !bool::from(Self::eval_comb(m, vals).is_zero()) {
                return Err(format!("constraint {i}"));
            }
        }
        Ok(())
    }
    pub fn satisfied(&self) -> std::result::Result<(), String> {
        self.check_with(&self.vals)
    }
    /// Everything about the circuit that must not depend on the witness.
    pub fn shape(&self) -> Shape<F> {
        Shape { gates: self.gates, constraints: self.raw_constraints.clone(), combs: self.combs.clone() }
    }
    /// Are all `outs` locally determined by `ins` at the recorded point? Returns
    /// the position of the first output that can move while the inputs stay put.
    /// Linearises the system at the recorded values and eliminates.
    pub fn free_output(&self, ins: &[W], outs: &[W]) -> Option<usize> {
        let mut rows: Vec<BTreeMap<usize, F>> = vec![];
        let mut one = BTreeMap::new();
        one.insert(0usize, F::ONE);
        rows.push(one);
        for w in ins {
            rows.push((*self.combs[w.0]).clone());
        }
        for m in &self.constraints {
            rows.push(m.clone());
        }
        for g in 0..self.gates {
            let i = 1 + 4 * g;
            let (a, b, c, d) = (self.vals[i], self.vals[i + 1], self.vals[i + 2], self.vals[i + 3]);
            let mut r = BTreeMap::new();
            for (v, x) in [(i, b), (i + 1, a), (i + 2, -F::ONE)] {
                if !bool::from(x.is_zero()) {
                    r.insert(v, x);
                }
            }
            rows.push(r);
            let mut r = BTreeMap::new();
            for (v, x) in [(i + 2, d), (i + 3, c)] {
                if !bool::from(x.is_zero()) {
                    r.insert(v, x);
                }
            }
            rows.push(r);
        }
        // Row echelon form keyed by leading (largest) variable.
        let mut basis: HashMap<usize, BTreeMap<usize, F>> = HashMap::new();
        let reduce = |mut r: BTreeMap<usize, F>, basis: &HashMap<usize, BTreeMap<usize, F>>| -> BTreeMap<usize, F> {
            // eliminate from the largest variable down
            let mut done: BTreeMap<usize, F> = BTreeMap::new();
            while let Some((v, x)) = r.pop_last() {
                if bool::from(x.is_zero()) {
                    continue;
                }
                match basis.get(&v) {
                    None => {
                        done.insert(v, x);
                    }
                    Some(p) => {
                        for (u, y) in p.iter() {
                            if *u != v {
                                *r.entry(*u).or_insert(F::ZERO) -= *y * x;
                            }
                        }
                    }
                }
            }
            done
        };
        for r in rows {
            let mut r = reduce(r, &basis);
            if let Some((&v, &x)) = r.last_key_value() {
                let inv = x.invert().unwrap();
                for y in r.values_mut() {
                    *y *= inv;
                }
                basis.insert(v, r);
            }
        }
        outs.iter().position(|w| !reduce((*self.combs[w.0]).clone(), &basis).is_empty())
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Shape<F> {
    pub gates: usize,
    pub constraints: Vec<Vec<(W, F)>>,
    pub combs: Vec<Comb<F>>,
}

impl<F: Field, K: Presence> DriverTypes for Rec<F, K> {
    type ImplField = F;
    type ImplWire = W;
    type MaybeKind = K;
    type LCadd = Lc<F>;
    type LCenforce = Lc<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(W, W, W, W)> {
        let mut v = [F::ZERO; 4];
        let mut got = None;
        // the closure is not even instantiated where values are statically absent
        K::maybe_try_just(|| {
            got = Some(values()?);
            Result::Ok(())
        })?;
        if let Some((a, b, c, d)) = got {
            self.value_calls.set(self.value_calls.get() + 1);
            v = [cval(&a), cval(&b), cval(&c), cval(&d)];
            if let Some(t) = &self.tamper {
                v = t(self.gates, v);
            }
        }
        let base = 1 + 4 * self.gates;
        self.gates += 1;
        self.vals.extend(v);
        let n = self.combs.len();
        for i in 0..4 {
            let mut m = BTreeMap::new();
            m.insert(base + i, F::ONE);
            self.combs.push(Rc::new(m));
        }
        Ok((W(n), W(n + 1), W(n + 2), W(n + 3)))
    }
}
impl<'dr, F: Field, K: Presence> Driver<'dr> for Rec<F, K> {
    type F = F;
    type Wire = W;
    const ONE: W = W(0);
    fn add(&mut self, lc: impl Fn(Lc<F>) -> Lc<F>) -> W {
        let l = lc(Lc::default());
        let m = self.resolve(&l);
        self.combs.push(Rc::new(m));
        self.adds += 1;
        W(self.combs.len() - 1)
    }
    fn enforce_zero(&mut self, lc: impl Fn(Lc<F>) -> Lc<F>) -> Result<()> {
        let l = lc(Lc::default());
        let m = self.resolve(&l);
        self.constraints.push(m);
        self.raw_constraints.push(l.terms);
        Ok(())
    }
}

/// Replaces the advice of gate `k`: value `b` (or `a`) becomes `x`, the rest is
/// adjusted so that the gate equations still hold.
pub fn tamper_gate<F: Field>(k: usize, side: u64, x: F, y: F) -> Tamper<F> {
    Rc::new(move |g, v| {
        if g != k {
            return v;
        }
        let [a, b, c, d] = v;
        let (a, b) = match side {
            0 => (a, x),
            1 => (x, b),
            _ => (x, y),
        };
        let nc = a * b;
        let nd = if bool::from(nc.is_zero()) { if c != nc { y } else { d } } else { F::ZERO };
        [a, b, nc, nd]
    })
}

/// A seeded generator for APIs that want a random number generator.
pub struct VRng(pub vlib::SplitMix);
impl VRng {
    pub fn of(g: &mut Gen) -> Self {
        VRng(vlib::SplitMix(g.u64()))
    }
}
impl rand::rand_core::TryRng for VRng {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> std::result::Result<u32, Self::Error> {
        Ok(self.0.next() as u32)
    }
    fn try_next_u64(&mut self) -> std::result::Result<u64, Self::Error> {
        Ok(self.0.next())
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> std::result::Result<(), Self::Error> {
        for c in d.chunks_mut(8) {
            let x = self.0.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
        Ok(())
    }
}
impl rand::rand_core::TryCryptoRng for VRng {}

pub fn show<F: PrimeField>(x: &F) -> String {
    let s = format!("{x:?}");
    s
}

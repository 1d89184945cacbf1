//! Programs as circuits, and where their wires and constraints belong,
//! worked out without the crate.
use ff::{Field, FromUniformBytes, PrimeField};
use ragu_circuits::{
    Circuit, WithAux,
    polynomials::{Rank, TestRank},
};
use ragu_core::{
    Result,
    convert::WireMap,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Gadget, GadgetKind},
    maybe::Maybe,
};
use ragu_primitives::{
    Element,
    consistent::Consistent,
    io::{Buffer, Write},
};
use ragu_arithmetic::Coeff;
use std::collections::BTreeMap;
use vcs::prog::*;
use vcs::{cval, fe};
use vlib::Gen;

pub type Rk = TestRank;
pub const N: usize = 32;
pub const M: usize = 128;
pub fn rank_is() {
    assert_eq!((Rk::n(), Rk::num_coeffs()), (N, M));
}
pub trait Fld: PrimeField + FromUniformBytes<64> {}
impl<F: PrimeField + FromUniformBytes<64>> Fld for F {}

/// Any number of registers; writing them makes this many gates and constraints first.
pub struct Regs<'dr, D: Driver<'dr>>(pub Vec<Reg<'dr, D>>, pub usize);
impl<'dr, D: Driver<'dr>> Clone for Regs<'dr, D> {
    fn clone(&self) -> Self {
        Regs(self.0.clone(), self.1)
    }
}
pub struct RegsKind;
impl<'dr, D: Driver<'dr>> Gadget<'dr, D> for Regs<'dr, D> {
    type Kind = RegsKind;
}
unsafe impl<F: Field> GadgetKind<F> for RegsKind {
    type Rebind<'dr, D: Driver<'dr, F = F>> = Regs<'dr, D>;
    fn map_gadget<'src, 'dst, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        Ok(Regs(this.0.iter().map(|r| RegKind::map_gadget(r, wm)).collect::<Result<_>>()?, this.1))
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = F>, D2: Driver<'dr, F = F, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        for (a, b) in a.0.iter().zip(&b.0) {
            dr.enforce_equal(&a.w, &b.w)?;
        }
        Ok(())
    }
}
impl<F: Field> Write<F> for RegsKind {
    fn write_gadget<'dr, D: Driver<'dr, F = F>, B: Buffer<'dr, D>>(this: &Bound<'dr, D, Self>, dr: &mut D, buf: &mut B) -> Result<()> {
        for _ in 0..this.1 {
            let (a, b, _) = dr.mul(|| Ok((Coeff::One, Coeff::One, Coeff::One)))?;
            dr.enforce_equal(&a, &b)?;
        }
        for r in &this.0 {
            buf.write(dr, &Element::promote(r.w.clone(), D::just(|| *r.v.snag())))?;
        }
        Ok(())
    }
}
/// Consistent when consecutive registers agree.
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Regs<'dr, D> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        for w in self.0.windows(2) {
            dr.enforce_equal(&w[0].w, &w[1].w)?;
        }
        Ok(())
    }
}
pub fn alloc_regs<'dr, F: Field, D: Driver<'dr, F = F>>(dr: &mut D, n: usize, v: &DriverValue<D, Vec<F>>) -> Result<Vec<Reg<'dr, D>>> {
    (0..n)
        .map(|i| {
            let x = D::just(|| v.snag()[i]);
            let w = dr.alloc(|| Ok(ragu_arithmetic::Coeff::Arbitrary(*x.snag())))?;
            Ok(Reg { w, v: x })
        })
        .collect()
}

/// A program with outputs.
#[derive(Clone, Debug)]
pub struct Pc<F: Field> {
    pub body: Vec<Op<F>>,
    pub outs: Vec<usize>,
    /// gates and constraints made when the output is written
    pub extra: usize,
}
impl<F: PrimeField> Circuit<F> for Pc<F> {
    type Instance<'s> = Vec<F>;
    type Witness<'s> = Vec<F>;
    type Output = RegsKind;
    type Aux<'s> = Vec<F>;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, i: DriverValue<D, Vec<F>>) -> Result<Regs<'dr, D>>
    where
        Self: 'dr,
    {
        Ok(Regs(alloc_regs(dr, self.outs.len(), &i)?, self.extra))
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        w: DriverValue<D, Vec<F>>,
    ) -> Result<WithAux<Regs<'dr, D>, DriverValue<D, Vec<F>>>>
    where
        Self: 'dr,
    {
        let r = run(dr, &self.body, vec![], w)?;
        let aux = D::just(|| r.iter().map(|r| *r.v.snag()).collect());
        Ok(WithAux::new(Regs(self.outs.iter().map(|i| r[*i].clone()).collect(), self.extra), aux))
    }
}
impl<F: PrimeField> Pc<F> {
    pub fn regs(&self, inputs: &[F]) -> Vec<F> {
        native(&self.body, [F::ONE; 3], inputs)
    }
    pub fn trace_of(&self, inputs: &[F]) -> Result<ragu_circuits::Trace<F>>
    where
        F: Fld,
    {
        Ok(ragu_circuits::CircuitExt::trace(self, inputs.to_vec())?.into_output())
    }
    pub fn instance_of(&self, inputs: &[F]) -> Vec<F> {
        let r = self.regs(inputs);
        self.outs.iter().map(|i| r[*i]).collect()
    }
    pub fn layout(&self, inputs: &[F], alpha: F) -> Layout<F> {
        let mut l = Layout::new(alpha);
        let r = l.go(0, &self.body, vec![Row::from([(ONE, F::ONE)]); START], [F::ONE; 3], inputs);
        l.finish(self.outs.iter().map(|i| r[*i].clone()).collect(), self.extra);
        l
    }
}
pub fn gen_pc<F: PrimeField>(g: &mut Gen, cfg: &Cfg) -> Pc<F> {
    let body = gen_body::<F>(g, cfg, &mut vec![]);
    let n = regs_of(&body);
    let outs = g.vec(0, 4, |g| g.usize(0, n - 1));
    let extra = if g.chance(1, 4) { g.usize(1, 2) } else { 0 };
    Pc { body, outs, extra }
}
pub fn inputs<F: PrimeField>(g: &mut Gen) -> Vec<F> {
    (0..NIN).map(|_| fe(g)).collect()
}
/// Does every constraint of the program hold whatever its inputs are?
pub fn small() -> Cfg {
    Cfg { ops: 9, depth: 2, raw: false, terms: 5, calls: 4 }
}

/// segment, gate within it, wire (0..4)
pub type Var = (usize, usize, usize);
pub type Row<F> = BTreeMap<Var, F>;
/// the second wire of the first gate carries one
pub const ONE: Var = (0, 0, 1);

const FLAT: usize = 1 << 20;

#[derive(Clone, Debug, Default)]
pub struct Seg<F> {
    pub gates: Vec<[F; 4]>,
    spare: Option<usize>,
    pub cons: Vec<Row<F>>,
}
/// One segment per call, in the order the calls are made; an unused fourth wire
/// of an allocation is the next allocation of the same segment.
#[derive(Clone, Debug)]
pub struct Layout<F: Field> {
    pub segs: Vec<Seg<F>>,
    /// in the order they are written; afterwards comes the constant one
    pub outs: Vec<Row<F>>,
    /// calls are not followed; their outputs are variables of the caller's
    pub flat: bool,
    seen: usize,
}
impl<F: Field> Layout<F> {
    pub fn new(alpha: F) -> Self {
        let root = Seg { gates: vec![[F::ZERO, F::ONE, F::ZERO, alpha]], spare: None, cons: vec![] };
        Layout { segs: vec![root], outs: vec![], flat: false, seen: 0 }
    }
    /// A routine's own gates and constraints, over its arguments and what its calls return.
    pub fn local(body: &[Op<F>]) -> Self {
        let mut l = Self::new(F::ZERO);
        l.flat = true;
        let arg = |i| Row::from([((FLAT - 1, 0, i), F::ONE)]);
        l.go(0, body, vec![Row::from([(ONE, F::ONE)]), arg(0), arg(1), arg(2)], [F::ONE; 3], &[F::ONE; NIN]);
        l
    }
    pub fn gate(&mut self, s: usize, v: [F; 4]) -> [Row<F>; 4] {
        let g = &mut self.segs[s].gates;
        g.push(v);
        let k = g.len() - 1;
        [0, 1, 2, 3].map(|w| Row::from([((s, k, w), F::ONE)]))
    }
    pub fn alloc(&mut self, s: usize, v: F) -> Row<F> {
        if let Some(k) = self.segs[s].spare.take() {
            self.segs[s].gates[k][3] = v;
            return Row::from([((s, k, 3), F::ONE)]);
        }
        let w = self.gate(s, [F::ZERO, v, F::ZERO, F::ZERO]);
        self.segs[s].spare = Some(self.segs[s].gates.len() - 1);
        w[1].clone()
    }
    pub fn comb(steps: &[(usize, F)], r: &[Row<F>]) -> Row<F> {
        let mut m = Row::new();
        for (i, c) in steps {
            for (v, x) in &r[*i] {
                *m.entry(*v).or_insert(F::ZERO) += *x * *c;
            }
        }
        m.retain(|_, x| *x != F::ZERO);
        m
    }
    pub fn equal(&mut self, s: usize, a: &Row<F>, b: &Row<F>) {
        let c = Self::comb(&[(0, F::ONE), (1, -F::ONE)], &[a.clone(), b.clone()]);
        self.segs[s].cons.push(c);
    }
    pub fn go(&mut self, s: usize, body: &[Op<F>], mut r: Vec<Row<F>>, args: [F; 3], inputs: &[F]) -> Vec<Row<F>> {
        let v = native(body, args, inputs);
        for op in body {
            let n = r.len();
            match op {
                Op::Const(c) => r.push(if cval(c) == F::ZERO { Row::new() } else { Row::from([(ONE, cval(c))]) }),
                Op::Alloc(_) => {
                    let w = self.alloc(s, v[n]);
                    r.push(w)
                }
                Op::Mul(..) => r.extend(self.gate(s, [v[n], v[n + 1], v[n + 2], F::ZERO])[..3].to_vec()),
                Op::Gate(..) => r.extend(self.gate(s, [v[n], v[n + 1], v[n + 2], v[n + 3]])),
                Op::Lin(t) => r.push(Self::comb(&flat(t), &r)),
                Op::Sat(t) => {
                    let w = self.alloc(s, v[n]);
                    r.push(w);
                    let mut f = flat(t);
                    f.push((n, -F::ONE));
                    let c = Self::comb(&f, &r);
                    self.segs[s].cons.push(c);
                }
                Op::Raw(t) => {
                    let c = Self::comb(&flat(t), &r);
                    self.segs[s].cons.push(c)
                }
                Op::Copy(i) => {
                    let w = self.alloc(s, v[n]);
                    self.equal(s, &w, &r[*i].clone());
                    r.push(w);
                }
                Op::Equal(a, b) => self.equal(s, &r[*a].clone(), &r[*b].clone()),
                Op::Fail(_) => {}
                Op::Call(..) if self.flat => {
                    let k = self.seen;
                    self.seen += 1;
                    r.extend([0, 1, 2].map(|i| Row::from([((FLAT + k, 0, i), F::ONE)])));
                }
                Op::Call(t, a) => {
                    let va = [v[a[0]], v[a[1]], v[a[2]]];
                    let start = vec![Row::from([(ONE, F::ONE)]), r[a[0]].clone(), r[a[1]].clone(), r[a[2]].clone()];
                    self.segs.push(Seg::default());
                    let k = self.segs.len() - 1;
                    let o = self.go(k, &t.body, start, va, &sub_inputs(t.id, va));
                    r.extend(t.outs.map(|i| o[i].clone()));
                }
            }
        }
        r
    }
    pub fn finish(&mut self, outs: Vec<Row<F>>, extra: usize) {
        for _ in 0..extra {
            let g = self.gate(0, [F::ONE, F::ONE, F::ONE, F::ZERO]);
            self.equal(0, &g[0], &g[1]);
        }
        self.outs = outs;
    }
    pub fn num_gates(&self) -> usize {
        self.segs.iter().map(|s| s.gates.len()).sum()
    }
    /// with the outputs and the constant
    pub fn num_constraints(&self) -> usize {
        self.segs.iter().map(|s| s.cons.len()).sum::<usize>() + self.outs.len() + 1
    }
    pub fn fits(&self) -> bool {
        self.num_gates() <= N && self.num_constraints() < M
    }
    pub fn starts(&self) -> Vec<usize> {
        let mut t = 0;
        self.segs
            .iter()
            .map(|s| {
                t += s.gates.len();
                t - s.gates.len()
            })
            .collect()
    }
    pub fn gates(&self) -> Vec<[F; 4]> {
        self.segs.iter().flat_map(|s| s.gates.clone()).collect()
    }
    /// Wire values by gate number.
    pub fn row_in(row: &Row<F>, starts: &[usize]) -> BTreeMap<(usize, usize), F> {
        row.iter().map(|((s, g, w), c)| ((starts[*s] + g, *w), *c)).collect()
    }
    /// constraints over global gate numbers: outputs, then the rest
    pub fn rows(&self) -> (Vec<BTreeMap<(usize, usize), F>>, Vec<BTreeMap<(usize, usize), F>>) {
        let st = self.starts();
        (
            self.outs.iter().map(|r| Self::row_in(r, &st)).collect(),
            self.segs.iter().flat_map(|s| s.cons.iter()).map(|r| Self::row_in(r, &st)).collect(),
        )
    }
}
/// Coefficient of the trace polynomial that carries wire `w` of gate `g`.
pub fn at(g: usize, w: usize) -> usize {
    match w {
        0 => 2 * N + g,
        1 => 2 * N - 1 - g,
        2 => g,
        _ => 4 * N - 1 - g,
    }
}
/// Coefficient of the wiring polynomial that meets wire `w` of gate `g`.
pub fn against(g: usize, w: usize) -> usize {
    4 * N - 1 - at(g, w)
}
pub fn trace_coeffs<F: Field>(gates: &[[F; 4]]) -> Vec<F> {
    let mut c = vec![F::ZERO; M];
    for (g, v) in gates.iter().enumerate() {
        for w in 0..4 {
            c[at(g, w)] = v[w];
        }
    }
    c
}
pub fn eval<F: Field>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |s, c| s * x + *c)
}

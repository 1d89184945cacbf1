//! Random straight-line programs over the driver interface, which run on any
//! driver. Values are derived from input values as the program runs.
use crate::{coeff, cval};
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error, Result,
    convert::WireMap,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::{Bound, Gadget, GadgetKind},
    maybe::Maybe,
    routines::{Prediction, Routine},
};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use vlib::Gen;

/// A wire and its value.
pub struct Reg<'dr, D: Driver<'dr>> {
    pub w: D::Wire,
    pub v: DriverValue<D, D::F>,
}
impl<'dr, D: Driver<'dr>> Clone for Reg<'dr, D> {
    fn clone(&self) -> Self {
        Reg { w: self.w.clone(), v: D::just(|| *self.v.snag()) }
    }
}
pub struct RegKind;
impl<'dr, D: Driver<'dr>> Gadget<'dr, D> for Reg<'dr, D> {
    type Kind = RegKind;
}
unsafe impl<F: Field> GadgetKind<F> for RegKind {
    type Rebind<'dr, D: Driver<'dr, F = F>> = Reg<'dr, D>;
    fn map_gadget<'src, 'dst, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        fn value_of<'a, 'b, F: Field, D: Driver<'a, F = F>, S: Driver<'b, F = F>>(r: &Reg<'b, S>) -> DriverValue<D, F> {
            D::just(|| *r.v.snag())
        }
        Ok(Reg { w: wm.convert_wire(&this.w)?, v: value_of::<F, WM::Dst, WM::Src>(this) })
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = F>, D2: Driver<'dr, F = F, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        dr.enforce_equal(&a.w, &b.w)
    }
}

/// Where a value comes from.
#[derive(Clone, Debug)]
pub enum Val<F: Field> {
    Input(usize),
    /// value of a register plus a constant
    Reg(usize, F),
    Prod(usize, usize),
    Lit(Coeff<F>),
}
/// One step of a linear expression.
#[derive(Clone, Debug)]
pub enum Step<F: Field> {
    Term(usize, Coeff<F>),
    Gain(Coeff<F>),
    Add(usize),
    Sub(usize),
    Extend(Vec<(usize, Coeff<F>)>),
}
#[derive(Clone, Debug)]
pub enum Op<F: Field> {
    Const(Coeff<F>),
    /// one register
    Alloc(Val<F>),
    /// three registers: x, y, x*y
    Mul(Val<F>, Val<F>),
    /// four registers: x, y, x*y and z (zero unless x*y is zero)
    Gate(Val<F>, Val<F>, Val<F>),
    /// one register
    Lin(Vec<Step<F>>),
    /// allocates the value of the expression (one register) and enforces that it is equal
    Sat(Vec<Step<F>>),
    /// enforces that the expression is zero, whether or not it is
    Raw(Vec<Step<F>>),
    /// allocates a copy (one register) and enforces it equal
    Copy(usize),
    /// enforces two registers equal, whether or not they are
    Equal(usize, usize),
    /// three registers
    Call(Arc<Sub<F>>, [usize; 3]),
    /// a value that cannot be computed
    Fail(u64),
}
/// A routine.
#[derive(Debug)]
pub struct Sub<F: Field> {
    pub body: Vec<Op<F>>,
    pub outs: [usize; 3],
    /// is the output predicted?
    pub known: bool,
    /// the prediction, or the execution, fails
    pub fail: Option<(bool, u64)>,
    pub id: u64,
    pub predicted: AtomicUsize,
    pub executed: AtomicUsize,
}
impl<F: Field> Sub<F> {
    pub fn reset(&self) {
        self.predicted.store(0, SeqCst);
        self.executed.store(0, SeqCst);
    }
}
/// Registers a body starts with: the constant one, then its three arguments.
pub const START: usize = 4;
pub const NIN: usize = 4;

pub fn boom(k: u64) -> Error {
    Error::InvalidWitness(format!("boom {k}").into())
}
/// Inputs of a routine's body are derived from its arguments (and travel as its auxiliary data).
pub fn sub_inputs<F: Field>(id: u64, a: [F; 3]) -> Vec<F> {
    let k = (0..id % 7).fold(F::ONE, |x, _| x + F::ONE);
    vec![a[0] + k, a[1] * a[2], a[2] - k, a[0] * k - a[1]]
}

fn enc<F: Field>(x: F) -> Coeff<F> {
    if x == F::ZERO {
        Coeff::Zero
    } else if x == F::ONE {
        Coeff::One
    } else {
        Coeff::Arbitrary(x)
    }
}
pub fn apply<W: Clone, F: Field, L: LinearExpression<W, F>>(mut l: L, steps: &[Step<F>], w: impl Fn(usize) -> W) -> L {
    for s in steps {
        l = match s {
            Step::Term(r, c) => l.add_term(&w(*r), *c),
            Step::Gain(c) => l.gain(*c),
            Step::Add(r) => l.add(&w(*r)),
            Step::Sub(r) => l.sub(&w(*r)),
            Step::Extend(v) => l.extend(v.iter().map(|(r, c)| (w(*r), *c))),
        };
    }
    l
}
/// The documented meaning of an expression: coefficients with accumulated gain.
pub fn flat<F: Field>(steps: &[Step<F>]) -> Vec<(usize, F)> {
    let mut g = F::ONE;
    let mut o = vec![];
    for s in steps {
        match s {
            Step::Term(r, c) => o.push((*r, g * cval(c))),
            Step::Gain(c) => g *= cval(c),
            Step::Add(r) => o.push((*r, g)),
            Step::Sub(r) => o.push((*r, -g)),
            Step::Extend(v) => o.extend(v.iter().map(|(r, c)| (*r, g * cval(c)))),
        }
    }
    o
}
pub fn lin_value<F: Field>(steps: &[Step<F>], v: impl Fn(usize) -> F) -> F {
    flat(steps).into_iter().map(|(r, c)| v(r) * c).sum()
}
fn native_val<F: Field>(v: &Val<F>, regs: &[F], inputs: &[F]) -> F {
    match v {
        Val::Input(i) => inputs[*i % NIN],
        Val::Reg(r, k) => regs[*r] + *k,
        Val::Prod(a, b) => regs[*a] * regs[*b],
        Val::Lit(c) => cval(c),
    }
}
/// Register values computed without any driver.
pub fn native<F: Field>(body: &[Op<F>], args: [F; 3], inputs: &[F]) -> Vec<F> {
    let mut r = vec![F::ONE, args[0], args[1], args[2]];
    for op in body {
        match op {
            Op::Const(c) => r.push(cval(c)),
            Op::Alloc(v) => r.push(native_val(v, &r, inputs)),
            Op::Mul(x, y) => {
                let (x, y) = (native_val(x, &r, inputs), native_val(y, &r, inputs));
                r.extend([x, y, x * y]);
            }
            Op::Gate(x, y, z) => {
                let (x, y, z) = (native_val(x, &r, inputs), native_val(y, &r, inputs), native_val(z, &r, inputs));
                r.extend([x, y, x * y, if x * y == F::ZERO { z } else { F::ZERO }]);
            }
            Op::Lin(s) | Op::Sat(s) => r.push(lin_value(s, |i| r[i])),
            Op::Copy(i) => r.push(r[*i]),
            Op::Raw(_) | Op::Equal(..) | Op::Fail(_) => {}
            Op::Call(s, a) => {
                let a = [r[a[0]], r[a[1]], r[a[2]]];
                let o = native(&s.body, a, &sub_inputs(s.id, a));
                r.extend(s.outs.map(|i| o[i]));
            }
        }
    }
    r
}
/// The program with every call replaced by the callee's operations; `regs` maps
/// registers of the original to registers of the result.
pub fn inline<F: Field>(body: &[Op<F>], out: &mut Vec<Op<F>>, next: &mut usize, start: [usize; START], depth: usize) -> Vec<usize> {
    let _ = depth;
    let mut m: Vec<usize> = start.to_vec();
    let mv = |v: &Val<F>, m: &[usize]| match v {
        Val::Reg(r, k) => Val::Reg(m[*r], *k),
        Val::Prod(a, b) => Val::Prod(m[*a], m[*b]),
        v => v.clone(),
    };
    let ms = |s: &[Step<F>], m: &[usize]| {
        s.iter()
            .map(|s| match s {
                Step::Term(r, c) => Step::Term(m[*r], *c),
                Step::Add(r) => Step::Add(m[*r]),
                Step::Sub(r) => Step::Sub(m[*r]),
                Step::Extend(v) => Step::Extend(v.iter().map(|(r, c)| (m[*r], *c)).collect()),
                Step::Gain(c) => Step::Gain(*c),
            })
            .collect::<Vec<_>>()
    };
    for op in body {
        let (o, n) = match op {
            Op::Const(c) => (Op::Const(*c), 1),
            Op::Alloc(v) => (Op::Alloc(mv(v, &m)), 1),
            Op::Mul(x, y) => (Op::Mul(mv(x, &m), mv(y, &m)), 3),
            Op::Gate(x, y, z) => (Op::Gate(mv(x, &m), mv(y, &m), mv(z, &m)), 4),
            Op::Lin(s) => (Op::Lin(ms(s, &m)), 1),
            Op::Sat(s) => (Op::Sat(ms(s, &m)), 1),
            Op::Raw(s) => (Op::Raw(ms(s, &m)), 0),
            Op::Copy(i) => (Op::Copy(m[*i]), 1),
            Op::Equal(a, b) => (Op::Equal(m[*a], m[*b]), 0),
            Op::Fail(k) => (Op::Fail(*k), 0),
            Op::Call(s, a) => {
                let a = [m[0], m[a[0]], m[a[1]], m[a[2]]];
                let inner = inline(&s.body, out, next, a, depth + 1);
                m.extend(s.outs.map(|i| inner[i]));
                continue;
            }
        };
        out.push(o);
        m.extend(*next..*next + n);
        *next += n;
    }
    m
}
/// What a body amounts to, computed without any driver: an allocation is a gate
/// whose second wire carries the value, calls are transparent.
#[derive(Default, Clone, Debug)]
pub struct Model<F: Field> {
    pub gates: Vec<[F; 4]>,
    /// over base variables: 0 is one, gate g has 1+4g..4+4g
    pub cons: Vec<BTreeMap<usize, F>>,
    pub regs: Vec<BTreeMap<usize, F>>,
}
impl<F: Field> Model<F> {
    pub fn of(body: &[Op<F>], inputs: &[F]) -> Self {
        let mut m = Model { gates: vec![], cons: vec![], regs: vec![] };
        let one = BTreeMap::from([(0, F::ONE)]);
        m.regs = m.go(body, vec![one; START], [F::ONE; 3], inputs);
        m
    }
    fn gate(&mut self, v: [F; 4]) -> [BTreeMap<usize, F>; 4] {
        let b = 1 + 4 * self.gates.len();
        self.gates.push(v);
        [0, 1, 2, 3].map(|i| BTreeMap::from([(b + i, F::ONE)]))
    }
    fn comb(steps: &[(usize, F)], r: &[BTreeMap<usize, F>]) -> BTreeMap<usize, F> {
        let mut m = BTreeMap::new();
        for (i, c) in steps {
            for (v, x) in &r[*i] {
                *m.entry(*v).or_insert(F::ZERO) += *x * *c;
            }
        }
        m.retain(|_, x| *x != F::ZERO);
        m
    }
    fn go(&mut self, body: &[Op<F>], mut r: Vec<BTreeMap<usize, F>>, args: [F; 3], inputs: &[F]) -> Vec<BTreeMap<usize, F>> {
        let v = native(body, args, inputs);
        for op in body {
            let n = r.len();
            match op {
                Op::Const(c) => r.push(if cval(c) == F::ZERO { BTreeMap::new() } else { BTreeMap::from([(0, cval(c))]) }),
                Op::Alloc(_) => r.push(self.gate([F::ZERO, v[n], F::ZERO, F::ZERO])[1].clone()),
                Op::Mul(..) => r.extend(self.gate([v[n], v[n + 1], v[n + 2], F::ZERO])[..3].to_vec()),
                Op::Gate(..) => r.extend(self.gate([v[n], v[n + 1], v[n + 2], v[n + 3]])),
                Op::Lin(s) => r.push(Self::comb(&flat(s), &r)),
                Op::Sat(s) => {
                    let w = self.gate([F::ZERO, v[n], F::ZERO, F::ZERO])[1].clone();
                    r.push(w);
                    let mut f = flat(s);
                    f.push((n, -F::ONE));
                    self.cons.push(Self::comb(&f, &r));
                }
                Op::Raw(s) => self.cons.push(Self::comb(&flat(s), &r)),
                Op::Copy(i) => {
                    let w = self.gate([F::ZERO, v[n], F::ZERO, F::ZERO])[1].clone();
                    r.push(w);
                    self.cons.push(Self::comb(&[(n, F::ONE), (*i, -F::ONE)], &r));
                }
                Op::Equal(a, b) => self.cons.push(Self::comb(&[(*a, F::ONE), (*b, -F::ONE)], &r)),
                Op::Fail(_) => {}
                Op::Call(s, a) => {
                    let va = [v[a[0]], v[a[1]], v[a[2]]];
                    let start = vec![BTreeMap::from([(0, F::ONE)]), r[a[0]].clone(), r[a[1]].clone(), r[a[2]].clone()];
                    let o = self.go(&s.body, start, va, &sub_inputs(s.id, va));
                    r.extend(s.outs.map(|i| o[i].clone()));
                }
            }
        }
        r
    }
}
/// Total number of calls, nested ones included.
pub fn calls<F: Field>(body: &[Op<F>]) -> usize {
    body.iter().map(|o| if let Op::Call(s, _) = o { 1 + calls(&s.body) } else { 0 }).sum()
}
pub fn each_sub<F: Field>(body: &[Op<F>], f: &mut impl FnMut(&Arc<Sub<F>>)) {
    for o in body {
        if let Op::Call(s, _) = o {
            f(s);
            each_sub(&s.body, f);
        }
    }
}

#[derive(Clone)]
pub struct ProgRoutine<F: Field>(pub Arc<Sub<F>>);
pub type Trip = [PhantomData<RegKind>; 3];

impl<F: PrimeField> Routine<F> for ProgRoutine<F> {
    type Input = Trip;
    type Output = Trip;
    type Aux<'dr> = Vec<F>;
    fn execute<'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        input: Bound<'dr, D, Trip>,
        aux: DriverValue<D, Vec<F>>,
    ) -> Result<Bound<'dr, D, Trip>> {
        self.0.executed.fetch_add(1, SeqCst);
        if let Some((false, k)) = self.0.fail {
            return Err(boom(k));
        }
        let r = run(dr, &self.0.body, input.to_vec(), aux)?;
        Ok(self.0.outs.map(|i| r[i].clone()))
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(
        &self,
        _: &mut D,
        input: &Bound<'dr, D, Trip>,
    ) -> Result<Prediction<Bound<'dr, D, Trip>, DriverValue<D, Vec<F>>>> {
        self.0.predicted.fetch_add(1, SeqCst);
        if let Some((true, k)) = self.0.fail {
            return Err(boom(k));
        }
        let args = || [*input[0].v.snag(), *input[1].v.snag(), *input[2].v.snag()];
        let aux = D::just(|| sub_inputs(self.0.id, args()));
        if !self.0.known {
            return Ok(Prediction::Unknown(aux));
        }
        let out = D::just(|| {
            let a = args();
            let r = native(&self.0.body, a, &sub_inputs(self.0.id, a));
            self.0.outs.map(|i| r[i])
        });
        let out = [0, 1, 2].map(|i| Reg { w: (), v: D::just(|| out.snag()[i]) });
        Ok(Prediction::Known(out, aux))
    }
}

/// Runs a body. `args` are the registers after the constant one; missing ones (of
/// a main program) are filled with the constant one.
pub fn run<'dr, F: PrimeField, D: Driver<'dr, F = F>>(
    dr: &mut D,
    body: &[Op<F>],
    args: Vec<Reg<'dr, D>>,
    inputs: DriverValue<D, Vec<F>>,
) -> Result<Vec<Reg<'dr, D>>> {
    let one = || Reg { w: D::ONE, v: D::just(|| F::ONE) };
    let mut r: Vec<Reg<'dr, D>> = vec![one()];
    r.extend(args);
    while r.len() < START {
        r.push(one());
    }
    for op in body {
        step(dr, op, &mut r, &inputs)?;
    }
    Ok(r)
}
fn value<'dr, F: PrimeField, D: Driver<'dr, F = F>>(v: &Val<F>, r: &[Reg<'dr, D>], inputs: &DriverValue<D, Vec<F>>) -> DriverValue<D, F> {
    D::just(|| match v {
        Val::Input(i) => inputs.snag()[*i % NIN],
        Val::Reg(i, k) => *r[*i].v.snag() + *k,
        Val::Prod(a, b) => *r[*a].v.snag() * *r[*b].v.snag(),
        Val::Lit(c) => cval(c),
    })
}
fn step<'dr, F: PrimeField, D: Driver<'dr, F = F>>(dr: &mut D, op: &Op<F>, r: &mut Vec<Reg<'dr, D>>, inputs: &DriverValue<D, Vec<F>>) -> Result<()> {
    match op {
        Op::Const(c) => r.push(Reg { w: dr.constant(*c), v: D::just(|| cval(c)) }),
        Op::Alloc(v) => {
            let v = value(v, r, inputs);
            let w = dr.alloc(|| Ok(enc(*v.snag())))?;
            r.push(Reg { w, v });
        }
        Op::Mul(x, y) => {
            let (x, y) = (value(x, r, inputs), value(y, r, inputs));
            let z = D::just(|| *x.snag() * *y.snag());
            let (a, b, c) = dr.mul(|| Ok((enc(*x.snag()), Coeff::Arbitrary(*y.snag()), enc(*z.snag()))))?;
            r.extend([Reg { w: a, v: x }, Reg { w: b, v: y }, Reg { w: c, v: z }]);
        }
        Op::Gate(x, y, z) => {
            let (x, y, z) = (value(x, r, inputs), value(y, r, inputs), value(z, r, inputs));
            let p = D::just(|| *x.snag() * *y.snag());
            let q = D::just(|| if *p.snag() == F::ZERO { *z.snag() } else { F::ZERO });
            let (a, b, c, d) = dr.gate(|| {
                Ok((Coeff::NegativeArbitrary(-*x.snag()), enc(*y.snag()), enc(*p.snag()), enc(*q.snag())))
            })?;
            r.extend([Reg { w: a, v: x }, Reg { w: b, v: y }, Reg { w: c, v: p }, Reg { w: d, v: q }]);
        }
        Op::Lin(s) => {
            let v = D::just(|| lin_value(s, |i| *r[i].v.snag()));
            let w = dr.add(|l| apply(l, s, |i| r[i].w.clone()));
            r.push(Reg { w, v });
        }
        Op::Sat(s) => {
            let v = D::just(|| lin_value(s, |i| *r[i].v.snag()));
            let w = dr.alloc(|| Ok(enc(*v.snag())))?;
            dr.enforce_zero(|l| apply(l.sub(&w), s, |i| r[i].w.clone()))?;
            r.push(Reg { w, v });
        }
        Op::Raw(s) => dr.enforce_zero(|l| apply(l, s, |i| r[i].w.clone()))?,
        Op::Copy(i) => {
            let v = D::just(|| *r[*i].v.snag());
            let w = dr.alloc(|| Ok(Coeff::Arbitrary(*v.snag())))?;
            dr.enforce_equal(&w, &r[*i].w)?;
            r.push(Reg { w, v });
        }
        Op::Equal(a, b) => dr.enforce_equal(&r[*a].w, &r[*b].w)?,
        Op::Fail(k) => {
            dr.alloc(|| Err(boom(*k)))?;
        }
        Op::Call(s, a) => {
            let args = a.map(|i| r[i].clone());
            let o = dr.routine(ProgRoutine(s.clone()), args)?;
            r.extend(o);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- generation
#[derive(Clone)]
pub struct Cfg {
    pub ops: usize,
    pub depth: usize,
    pub raw: bool,
    pub terms: usize,
    /// chance (in 16) of a call
    pub calls: u64,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { ops: 12, depth: 3, raw: false, terms: 6, calls: 3 }
    }
}
fn gval<F: PrimeField>(g: &mut Gen, n: usize) -> Val<F> {
    match g.below(8) {
        0 => Val::Lit(coeff(g)),
        1 => Val::Reg(g.usize(0, n - 1), F::from(g.below(3))),
        2 => Val::Prod(g.usize(0, n - 1), g.usize(0, n - 1)),
        _ => Val::Input(g.usize(0, NIN - 1)),
    }
}
pub fn steps<F: PrimeField>(g: &mut Gen, n: usize, max: usize) -> Vec<Step<F>> {
    g.vec(0, max, |g| match g.below(8) {
        0 => Step::Gain(coeff(g)),
        1 => Step::Add(g.usize(0, n - 1)),
        2 => Step::Sub(g.usize(0, n - 1)),
        3 => Step::Extend(g.vec(0, 4, |g| (g.usize(0, n - 1), coeff(g)))),
        _ => Step::Term(g.usize(0, n - 1), coeff(g)),
    })
}
pub fn gen_body<F: PrimeField>(g: &mut Gen, cfg: &Cfg, pool: &mut Vec<Arc<Sub<F>>>) -> Vec<Op<F>> {
    body_from(g, cfg, pool, START).0
}
fn body_from<F: PrimeField>(g: &mut Gen, cfg: &Cfg, pool: &mut Vec<Arc<Sub<F>>>, mut n: usize) -> (Vec<Op<F>>, usize) {
    let mut ops = vec![];
    for _ in 0..g.usize(0, cfg.ops) {
        let call = cfg.depth > 0 && g.chance(cfg.calls, 16);
        let (op, k) = if call {
            let s = if !pool.is_empty() && g.chance(1, 3) {
                g.pick(pool).clone()
            } else {
                let inner = Cfg { depth: cfg.depth - 1, ops: cfg.ops.min(8), ..cfg.clone() };
                let (body, m) = body_from(g, &inner, &mut vec![], START);
                let outs = [g.usize(0, m - 1), g.usize(0, m - 1), m - 1];
                let s = Arc::new(Sub {
                    body,
                    outs,
                    known: g.bool(),
                    fail: None,
                    id: g.below(1 << 20),
                    predicted: AtomicUsize::new(0),
                    executed: AtomicUsize::new(0),
                });
                pool.push(s.clone());
                s
            };
            (Op::Call(s, [g.usize(0, n - 1), g.usize(0, n - 1), g.usize(0, n - 1)]), 3)
        } else {
            match g.below(if cfg.raw { 13 } else { 11 }) {
                0 => (Op::Const(coeff(g)), 1),
                1 | 2 => (Op::Alloc(gval(g, n)), 1),
                3 | 4 => (Op::Mul(gval(g, n), gval(g, n)), 3),
                5 => (Op::Gate(gval(g, n), gval(g, n), gval(g, n)), 4),
                6 | 7 => (Op::Lin(steps(g, n, cfg.terms)), 1),
                8 | 9 => (Op::Sat(steps(g, n, cfg.terms)), 1),
                10 => (Op::Copy(g.usize(0, n - 1)), 1),
                11 => (Op::Raw(steps(g, n, cfg.terms)), 0),
                _ => (Op::Equal(g.usize(0, n - 1), g.usize(0, n - 1)), 0),
            }
        };
        ops.push(op);
        n += k;
    }
    (ops, n)
}
pub fn regs_of<F: Field>(body: &[Op<F>]) -> usize {
    START
        + body
            .iter()
            .map(|o| match o {
                Op::Const(_) | Op::Alloc(_) | Op::Lin(_) | Op::Sat(_) | Op::Copy(_) => 1,
                Op::Mul(..) | Op::Call(..) => 3,
                Op::Gate(..) => 4,
                _ => 0,
            })
            .sum::<usize>()
}

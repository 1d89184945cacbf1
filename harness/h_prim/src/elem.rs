//! Elements and booleans: generated programs of gadget operations.
use core::marker::PhantomData;
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error, Result,
    drivers::{
        Driver, DriverValue,
        emulator::{Emulator, Wired, Wireless},
    },
    gadgets::Gadget,
    maybe::{Always, Empty, Maybe},
};
use ragu_primitives::{Boolean, Element, Simulator, multiadd, multipack, consistent::Consistent};
use std::collections::BTreeSet;
use vcs::solve::solutions;
use vcs::{Absent, Gf, Present, Rec, W, coeff, cval, fe, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

#[derive(Clone, Debug)]
pub enum Op<F: Field> {
    Alloc(usize),
    AllocSquare(usize),
    One,
    Zero,
    Constant(F),
    Promote(usize),
    Mul(usize, usize),
    Square(usize),
    Add(usize, usize),
    Sub(usize, usize),
    AddCoeff(usize, usize, Coeff<F>),
    Scale(usize, Coeff<F>),
    Double(usize),
    Negate(usize),
    Invert(usize),
    /// the claimed inverse: 0 right, otherwise input i-1
    InvertWith(usize, usize),
    Div(usize, usize),
    IsZero(usize),
    IsEqual(usize, usize),
    Fold(Vec<usize>, usize),
    Sum(Vec<usize>),
    MultiAdd(Vec<(usize, F)>),
    RootOfUnity(usize, u32),
    EnforceZero(usize),
    EnforceEqual(usize, usize),
    Consistent(usize),
    BAlloc(usize),
    BNot(usize),
    BAnd(usize, usize),
    BSelect(usize, usize, usize),
    BEqualIf(usize, usize, usize),
    BElement(usize),
    BEqual(usize, usize),
    BConsistent(usize),
    Pack(Vec<usize>),
}
/// Elements and booleans so far.
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Native<F> {
    pub e: Vec<F>,
    pub b: Vec<bool>,
}
pub struct Inputs<F> {
    pub e: Vec<F>,
    pub b: Vec<bool>,
}
impl<F: PrimeField> Inputs<F> {
    fn gen_(g: &mut Gen) -> Self {
        Inputs { e: (0..6).map(|_| fe(g)).collect(), b: (0..6).map(|_| g.bool()).collect() }
    }
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Out {
    Fine,
    /// the constraints cannot be satisfied (but values exist)
    Unsat,
    /// the witness has a value the honest prover refuses to use
    WrongAdvice,
    /// no value exists
    Fails,
}
fn eval<F: PrimeField>(op: &Op<F>, n: &mut Native<F>, x: &Inputs<F>) -> Out {
    let e = n.e.clone();
    let b = n.b.clone();
    let ok = |c: bool| if c { Out::Fine } else { Out::Unsat };
    let push = |n: &mut Native<F>, v: F| {
        n.e.push(v);
        Out::Fine
    };
    match op {
        Op::Alloc(i) => push(n, x.e[*i]),
        Op::AllocSquare(i) => {
            push(n, x.e[*i]);
            push(n, x.e[*i] * x.e[*i])
        }
        Op::One => push(n, F::ONE),
        Op::Zero => push(n, F::ZERO),
        Op::Constant(c) => push(n, *c),
        Op::Promote(i) => push(n, e[*i]),
        Op::Mul(i, j) => push(n, e[*i] * e[*j]),
        Op::Square(i) => push(n, e[*i] * e[*i]),
        Op::Add(i, j) => push(n, e[*i] + e[*j]),
        Op::Sub(i, j) => push(n, e[*i] - e[*j]),
        Op::AddCoeff(i, j, c) => push(n, e[*i] + e[*j] * cval(c)),
        Op::Scale(i, c) => push(n, e[*i] * cval(c)),
        Op::Double(i) => push(n, e[*i] + e[*i]),
        Op::Negate(i) => push(n, F::ZERO - e[*i]),
        Op::Invert(i) => match Option::<F>::from(e[*i].invert()) {
            Some(v) => push(n, v),
            None => Out::Fails,
        },
        Op::InvertWith(i, k) => {
            let right = Option::<F>::from(e[*i].invert());
            let given = if *k == 0 { right.unwrap_or(F::ZERO) } else { x.e[*k - 1] };
            match right {
                Some(v) => {
                    push(n, v);
                    if given == v { Out::Fine } else { Out::WrongAdvice }
                }
                None => {
                    push(n, given);
                    Out::Unsat
                }
            }
        }
        Op::Div(i, j) => match Option::<F>::from(e[*j].invert()) {
            Some(v) => push(n, e[*i] * v),
            None => Out::Fails,
        },
        Op::IsZero(i) => {
            n.b.push(e[*i] == F::ZERO);
            Out::Fine
        }
        Op::IsEqual(i, j) => {
            n.b.push(e[*i] == e[*j]);
            Out::Fine
        }
        Op::Fold(v, s) => {
            // first element by the highest power
            let mut t = F::ZERO;
            for (k, i) in v.iter().enumerate() {
                t += e[*i] * e[*s].pow_vartime([(v.len() - 1 - k) as u64]);
            }
            push(n, t)
        }
        Op::Sum(v) => push(n, v.iter().map(|i| e[*i]).sum()),
        Op::MultiAdd(v) => push(n, v.iter().map(|(i, c)| e[*i] * *c).sum()),
        Op::RootOfUnity(i, k) => {
            let mut p = e[*i];
            for _ in 0..*k {
                p = p * p;
            }
            ok(p == F::ONE)
        }
        Op::EnforceZero(i) => ok(e[*i] == F::ZERO),
        Op::EnforceEqual(i, j) => ok(e[*i] == e[*j]),
        Op::Consistent(_) | Op::BConsistent(_) => Out::Fine,
        Op::BAlloc(i) => {
            n.b.push(x.b[*i]);
            Out::Fine
        }
        Op::BNot(i) => {
            n.b.push(!b[*i]);
            Out::Fine
        }
        Op::BAnd(i, j) => {
            n.b.push(b[*i] && b[*j]);
            Out::Fine
        }
        Op::BSelect(c, i, j) => push(n, if b[*c] { e[*j] } else { e[*i] }),
        Op::BEqualIf(c, i, j) => ok(!b[*c] || e[*i] == e[*j]),
        Op::BElement(i) => push(n, if b[*i] { F::ONE } else { F::ZERO }),
        Op::BEqual(i, j) => ok(b[*i] == b[*j]),
        Op::Pack(v) => {
            for ch in v.chunks(F::CAPACITY as usize) {
                let mut t = F::ZERO;
                for i in ch.iter().rev() {
                    t = t + t + if b[*i] { F::ONE } else { F::ZERO };
                }
                n.e.push(t);
            }
            Out::Fine
        }
    }
}
/// How many gates and constraints the documentation promises, where it does.
fn cost<F: PrimeField>(op: &Op<F>) -> Option<(usize, usize)> {
    Some(match op {
        Op::AllocSquare(_) => (1, 1),
        Op::Alloc(_) => (1, 0),
        Op::One | Op::Zero | Op::Constant(_) | Op::Promote(_) | Op::Add(..) | Op::Sub(..) => (0, 0),
        Op::AddCoeff(..) | Op::Scale(..) | Op::Double(_) | Op::Negate(_) | Op::Sum(_) | Op::MultiAdd(_) => (0, 0),
        Op::BNot(_) | Op::BElement(_) | Op::Pack(_) => (0, 0),
        Op::BAlloc(_) | Op::BAnd(..) | Op::BSelect(..) => (1, 2),
        Op::BEqualIf(..) => (1, 3),
        _ => return None,
    })
}
pub struct Regs<'dr, D: Driver<'dr>> {
    pub e: Vec<Element<'dr, D>>,
    pub b: Vec<Boolean<'dr, D>>,
}
fn exec<'dr, F: PrimeField, D: Driver<'dr, F = F>>(dr: &mut D, op: &Op<F>, r: &mut Regs<'dr, D>, x: &DriverValue<D, Inputs<F>>) -> Result<()> {
    let inp = |i: usize| D::just(|| x.snag().e[i]);
    let e = match op {
        Op::Alloc(i) => Element::alloc(dr, inp(*i))?,
        Op::AllocSquare(i) => {
            let (a, b) = Element::alloc_square(dr, inp(*i))?;
            r.e.push(a);
            b
        }
        Op::One => Element::one(),
        Op::Zero => Element::zero(dr),
        Op::Constant(c) => Element::constant(dr, *c),
        Op::Promote(i) => Element::promote(r.e[*i].wire().clone(), D::just(|| *r.e[*i].value().take())),
        Op::Mul(i, j) => r.e[*i].mul(dr, &r.e[*j])?,
        Op::Square(i) => r.e[*i].square(dr)?,
        Op::Add(i, j) => r.e[*i].add(dr, &r.e[*j]),
        Op::Sub(i, j) => r.e[*i].sub(dr, &r.e[*j]),
        Op::AddCoeff(i, j, c) => r.e[*i].add_coeff(dr, &r.e[*j], *c),
        Op::Scale(i, c) => r.e[*i].scale(dr, *c),
        Op::Double(i) => r.e[*i].double(dr),
        Op::Negate(i) => r.e[*i].negate(dr),
        Op::Invert(i) => r.e[*i].invert(dr)?,
        Op::InvertWith(i, k) => {
            let v = D::just(|| if *k == 0 { r.e[*i].value().take().invert().unwrap_or(F::ZERO) } else { x.snag().e[*k - 1] });
            r.e[*i].invert_with(dr, v)?
        }
        Op::Div(i, j) => r.e[*i].div_nonzero(dr, &r.e[*j])?,
        Op::IsZero(i) => {
            let b = r.e[*i].is_zero(dr)?;
            r.b.push(b);
            return Ok(());
        }
        Op::IsEqual(i, j) => {
            let b = r.e[*i].is_equal(dr, &r.e[*j])?;
            r.b.push(b);
            return Ok(());
        }
        Op::Fold(v, s) => {
            if v.len() % 2 == 0 {
                Element::fold(dr, v.iter().map(|i| &r.e[*i]), &r.e[*s])?
            } else {
                Element::fold(dr, v.iter().map(|i| r.e[*i].clone()), &r.e[*s])?
            }
        }
        Op::Sum(v) => Element::sum(dr, v.iter().map(|i| &r.e[*i])),
        Op::MultiAdd(v) => {
            let es: Vec<_> = v.iter().map(|(i, _)| r.e[*i].clone()).collect();
            let cs: Vec<F> = v.iter().map(|(_, c)| *c).collect();
            multiadd(dr, &es, &cs)
        }
        Op::RootOfUnity(i, k) => return r.e[*i].enforce_root_of_unity(dr, *k),
        Op::EnforceZero(i) => return r.e[*i].enforce_zero(dr),
        Op::EnforceEqual(i, j) => return r.e[*i].enforce_equal(dr, &r.e[*j]),
        Op::Consistent(i) => return r.e[*i].enforce_consistent(dr),
        Op::BConsistent(i) => return r.b[*i].enforce_consistent(dr),
        Op::BAlloc(i) => {
            let b = Boolean::alloc(dr, D::just(|| x.snag().b[*i]))?;
            r.b.push(b);
            return Ok(());
        }
        Op::BNot(i) => {
            let b = r.b[*i].not(dr);
            r.b.push(b);
            return Ok(());
        }
        Op::BAnd(i, j) => {
            let b = r.b[*i].and(dr, &r.b[*j])?;
            r.b.push(b);
            return Ok(());
        }
        Op::BSelect(c, i, j) => r.b[*c].conditional_select(dr, &r.e[*i], &r.e[*j])?,
        Op::BEqualIf(c, i, j) => return r.b[*c].conditional_enforce_equal(dr, &r.e[*i], &r.e[*j]),
        Op::BElement(i) => r.b[*i].element(),
        Op::BEqual(i, j) => return r.b[*i].enforce_equal(dr, &r.b[*j]),
        Op::Pack(v) => {
            let bs: Vec<_> = v.iter().map(|i| r.b[*i].clone()).collect();
            let p = multipack(dr, &bs)?;
            r.e.extend(p);
            return Ok(());
        }
    };
    r.e.push(e);
    Ok(())
}
fn run<'dr, F: PrimeField, D: Driver<'dr, F = F>>(dr: &mut D, ops: &[Op<F>], x: DriverValue<D, Inputs<F>>) -> Result<Regs<'dr, D>> {
    let mut r = Regs { e: vec![], b: vec![] };
    for op in ops {
        exec(dr, op, &mut r, &x)?;
    }
    Ok(r)
}
fn gen_op<F: PrimeField>(g: &mut Gen, ne: usize, nb: usize, booleans: bool) -> Op<F> {
    let k = if booleans { g.below(44) } else { g.below(31) };
    let mut e = |g: &mut Gen| g.usize(0, ne - 1);
    match k {
        0 | 1 => Op::Alloc(g.usize(0, 5)),
        2 => Op::AllocSquare(g.usize(0, 5)),
        3 => Op::One,
        4 => Op::Zero,
        5 => Op::Constant(fe(g)),
        6 => Op::Promote(e(g)),
        7 | 8 => Op::Mul(e(g), e(g)),
        9 => Op::Square(e(g)),
        10 => Op::Add(e(g), e(g)),
        11 => Op::Sub(e(g), e(g)),
        12 | 13 => Op::AddCoeff(e(g), e(g), coeff(g)),
        14 => Op::Scale(e(g), coeff(g)),
        15 => Op::Double(e(g)),
        16 => Op::Negate(e(g)),
        17 => Op::Invert(e(g)),
        18 => Op::InvertWith(e(g), if g.chance(3, 4) { 0 } else { g.usize(1, 6) }),
        19 => Op::Div(e(g), e(g)),
        20 => Op::IsZero(e(g)),
        21 => Op::IsEqual(e(g), e(g)),
        22 => Op::Fold(g.vec(0, 5, &mut e), e(g)),
        23 => Op::Sum(g.vec(0, 5, &mut e)),
        24 => Op::MultiAdd(g.vec(0, 5, |g| (e(g), fe(g)))),
        25 | 26 => Op::RootOfUnity(e(g), g.below(6) as u32),
        27 => Op::EnforceZero(e(g)),
        28 => Op::EnforceEqual(e(g), e(g)),
        29 => Op::Consistent(e(g)),
        30 => Op::BAlloc(g.usize(0, 5)),
        _ if nb == 0 => Op::BAlloc(g.usize(0, 5)),
        31 | 32 => Op::BAlloc(g.usize(0, 5)),
        33 => Op::BNot(g.usize(0, nb - 1)),
        34 | 35 => Op::BAnd(g.usize(0, nb - 1), g.usize(0, nb - 1)),
        36 | 37 => Op::BSelect(g.usize(0, nb - 1), e(g), e(g)),
        38 | 39 => Op::BEqualIf(g.usize(0, nb - 1), e(g), e(g)),
        40 => Op::BElement(g.usize(0, nb - 1)),
        41 => Op::BEqual(g.usize(0, nb - 1), g.usize(0, nb - 1)),
        42 => Op::BConsistent(g.usize(0, nb - 1)),
        _ => Op::Pack(g.vec(0, 8, |g| g.usize(0, nb - 1))),
    }
}
/// Operations, the native result, and whether the last one goes wrong (and how).
fn gen_prog<F: PrimeField>(g: &mut Gen, x: &Inputs<F>, max: usize, booleans: bool, bad: bool) -> (Vec<Op<F>>, Native<F>, Out) {
    let mut ops = vec![Op::Alloc(0)];
    let mut n = Native::default();
    eval(&ops[0], &mut n, x);
    let len = g.usize(1, max);
    for _ in 0..len {
        let op = gen_op(g, n.e.len(), n.b.len(), booleans);
        let before = n.clone();
        match eval(&op, &mut n, x) {
            Out::Fine => ops.push(op),
            o if bad && g.chance(1, 3) => {
                ops.push(op);
                return (ops, n, o);
            }
            _ => n = before,
        }
    }
    (ops, n, Out::Fine)
}
fn wires<'dr, K>(r: &Regs<'dr, Rec<impl PrimeField, K>>) -> Vec<W>
where
    K: vcs::Presence,
{
    r.e.iter().map(|e| *e.wire()).chain(r.b.iter().map(|b| *b.wire())).collect()
}
fn flat<F: PrimeField>(n: &Native<F>) -> Vec<F> {
    n.e.iter().copied().chain(n.b.iter().map(|b| if *b { F::ONE } else { F::ZERO })).collect()
}
fn values_of<'dr, D: Driver<'dr, MaybeKind = Always<()>>>(r: &Regs<'dr, D>) -> Vec<D::F>
where
    D::F: PrimeField,
{
    flat(&Native { e: r.e.iter().map(|e| *e.value().take()).collect(), b: r.b.iter().map(|b| b.value().take()).collect() })
}

/// Same answers everywhere, in every mode; a circuit that does not depend on the witness.
fn honest_in<F: PrimeField>(g: &mut Gen, booleans: bool) -> R {
    let x = Inputs::<F>::gen_(g);
    let (ops, n, out) = gen_prog(g, &x, 14, booleans, true);
    note!(g, "{ops:?} on {:?} {:?}: {out:?}", x.e, x.b);
    g.nt(ops.len() > 4);
    g.label(match out {
        Out::Fine => "satisfiable",
        Out::Unsat | Out::WrongAdvice => "unsatisfied",
        _ => "no witness",
    });
    let want = flat(&n);
    let give = || Inputs { e: x.e.clone(), b: x.b.clone() };
    let mut rec = Rec::<F, Present>::new();
    let got = run(&mut rec, &ops, Always::<()>::just(give));
    let sim = Simulator::<F>::simulate(give(), |dr, x| run(dr, &ops, x).map(|_| ()));
    let wired = Emulator::<Wired<F>>::emulate_wired(give(), |dr, x| {
        let r = run(dr, &ops, x)?;
        Ok((values_of(&r), r.e.iter().map(|e| *e.wire()).chain(r.b.iter().map(|b| *b.wire())).collect::<Vec<F>>()))
    });
    let wireless = Emulator::emulate_wireless(give(), |dr: &mut Emulator<Wireless<Always<()>, F>>, x| Ok(values_of(&run(dr, &ops, x)?)));
    let mut un = Rec::<F, Absent>::new();
    let r = run(&mut un, &ops, Empty).map_err(|e| format!("without witness: {e}"))?;
    ensure_eq!((r.e.len() + r.b.len()), want.len() + (out == Out::Fails) as usize, "number of gadgets without witness");
    ensure_eq!(un.value_calls.get(), 0, "values computed without witness");
    run(&mut PhantomData::<F>, &ops, Empty).map_err(|e| format!("no-op driver: {e}"))?;
    run(&mut Emulator::<Wireless<Empty, F>>::counter(), &ops, Empty).map_err(|e| format!("counter: {e}"))?;
    if out == Out::Fails {
        for (who, e) in [("recorder", got.err()), ("simulator", sim.err()), ("wired", wired.err()), ("wireless", wireless.err())] {
            ensure!(matches!(&e, Some(Error::InvalidWitness(_))), "{who}: a value that does not exist: {e:?}");
        }
        return Ok(());
    }
    let got = got.map_err(|e| format!("recording: {e}"))?;
    ensure!(rec.shape() == un.shape(), "the circuit is different without witness");
    if out != Out::WrongAdvice {
        ensure_eq!(values_of(&got), want, "values");
        ensure_eq!(wires(&got).iter().map(|w| rec.value(*w)).collect::<Vec<F>>(), want, "wires");
        ensure_eq!(wireless.map_err(|e| e.to_string())?, want, "values without wires");
        let (v, w) = wired.map_err(|e| e.to_string())?;
        ensure_eq!(v, want, "values on the emulator");
        ensure_eq!(w, want, "wires on the emulator");
    }
    ensure_eq!(rec.satisfied().is_ok(), out == Out::Fine, "satisfied ({:?})", rec.satisfied());
    match (sim, out == Out::Fine) {
        (Ok(s), true) => {
            ensure_eq!(s.num_gates() + s.num_allocations(), rec.gates, "gates and allocations counted");
            ensure_eq!(s.num_constraints(), rec.constraints.len(), "constraints counted");
        }
        (Ok(_), false) => return Err("the simulator accepts a bad witness".into()),
        (Err(e), true) => return Err(format!("the simulator rejects an honest witness: {e}")),
        (Err(e), false) => ensure!(matches!(e, Error::InvalidWitness(_)), "{e:?}"),
    }
    // another witness, same circuit
    let y = Inputs::<F>::gen_(g);
    let mut other = Rec::<F, Present>::new();
    if run(&mut other, &ops, Always::<()>::just(|| y)).is_ok() {
        ensure!(other.shape() == un.shape(), "the circuit depends on the witness");
    }
    // documented costs
    let mut dr = Rec::<F, Absent>::new();
    let mut r = Regs { e: vec![], b: vec![] };
    for op in &ops {
        let (a, b) = (dr.gates, dr.constraints.len());
        exec(&mut dr, op, &mut r, &Empty).map_err(|e| e.to_string())?;
        if let Some(c) = cost(op) {
            ensure_eq!((dr.gates - a, dr.constraints.len() - b), c, "cost of {op:?}");
        }
    }
    Ok(())
}
/// No other assignment satisfies the circuit: every result is determined by the inputs.
fn sound_in<const P: u64>(g: &mut Gen, booleans: bool) -> R {
    let x = Inputs::<Gf<P>>::gen_(g);
    let (ops, n, out) = gen_prog(g, &x, if P > 7 { 6 } else { 9 }, booleans, true);
    note!(g, "field of {P}: {ops:?} on {:?} {:?}: {out:?}", x.e, x.b);
    if out == Out::Fails && matches!(ops.last(), Some(Op::Div(..))) {
        return Ok(());
    }
    g.nt(ops.len() > 3);
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let mut r = Regs { e: vec![], b: vec![] };
    let mut fixed = vec![];
    for op in &ops {
        exec(&mut rec, op, &mut r, &Empty).map_err(|e| e.to_string())?;
        match op {
            Op::Alloc(i) => fixed.push((*r.e.last().unwrap().wire(), x.e[*i])),
            Op::AllocSquare(i) => fixed.push((*r.e[r.e.len() - 2].wire(), x.e[*i])),
            Op::BAlloc(i) => fixed.push((*r.b.last().unwrap().wire(), Gf(x.b[*i] as u64))),
            _ => {}
        }
    }
    let Some(all) = solutions(&rec, &fixed, &wires(&r), 40000) else {
        g.label("too many states");
        return Ok(());
    };
    let want: BTreeSet<Vec<Gf<P>>> = match out {
        Out::Fine | Out::WrongAdvice => [flat(&n)].into(),
        _ => BTreeSet::new(),
    };
    g.label(if want.is_empty() { "no solution" } else { "one solution" });
    ensure_eq!(all, want, "possible results over all satisfying assignments");
    Ok(())
}
/// Free inputs: a boolean wire is zero or one, and every combination is possible.
fn free_in<const P: u64>(g: &mut Gen) -> R {
    let k = g.usize(1, 4);
    let how = g.below(4);
    note!(g, "field of {P}: {k} booleans, {how}");
    g.nt(k > 1);
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let mut bs = vec![];
    for _ in 0..k {
        bs.push(Boolean::alloc(&mut rec, Empty).unwrap());
    }
    let mut outs: Vec<W> = bs.iter().map(|b| *b.wire()).collect();
    let mut f: Vec<Box<dyn Fn(&[u64]) -> u64>> = vec![];
    for i in 0..k {
        let (a, b) = (g.usize(0, k - 1), i);
        let w = match how {
            0 => {
                f.push(Box::new(move |v| 1 - v[b]));
                *bs[b].not(&mut rec).wire()
            }
            1 => {
                f.push(Box::new(move |v| v[a] & v[b]));
                *bs[a].and(&mut rec, &bs[b]).unwrap().wire()
            }
            2 => {
                f.push(Box::new(move |v| v[b]));
                *bs[b].element().wire()
            }
            _ => {
                let nb = bs[b].not(&mut rec);
                f.push(Box::new(move |v| v[a] & (1 - v[b])));
                *bs[a].and(&mut rec, &nb).unwrap().wire()
            }
        };
        outs.push(w);
    }
    let all = solutions(&rec, &[], &outs, 100000).unwrap();
    let mut want = BTreeSet::new();
    for m in 0..1u64 << k {
        let v: Vec<u64> = (0..k).map(|i| m >> i & 1).collect();
        want.insert(v.iter().copied().chain(f.iter().map(|f| f(&v))).map(Gf).collect::<Vec<Gf<P>>>());
    }
    ensure_eq!(all, want, "booleans over all satisfying assignments");
    Ok(())
}
/// Packing many bits.
fn pack_in<F: PrimeField>(g: &mut Gen) -> R {
    let most = if F::CAPACITY < 20 { 60 } else { 10 };
    let n = match g.below(5) {
        0 => g.usize(0, 3 * F::CAPACITY as usize),
        3 if g.chance(1, 4) => F::CAPACITY as usize * g.usize(3, most) + g.usize(0, 1),
        1 => F::CAPACITY as usize * g.usize(0, 3) + g.usize(0, 1),
        2 => (F::CAPACITY as usize * g.usize(1, 3)).saturating_sub(1),
        _ => g.usize(0, 20),
    };
    let bits: Vec<bool> = match g.below(3) {
        0 => vec![true; n],
        1 => (0..n).map(|_| g.chance(1, 8)).collect(),
        _ => (0..n).map(|_| g.bool()).collect(),
    };
    note!(g, "{n} bits");
    g.nt(n > F::CAPACITY as usize);
    let mut rec = Rec::<F, Present>::new();
    let bs: Vec<_> = bits.iter().map(|b| Boolean::alloc(&mut rec, Always::<()>::just(|| *b)).unwrap()).collect();
    let (gates, cons) = (rec.gates, rec.constraints.len());
    let p = multipack(&mut rec, &bs).map_err(|e| e.to_string())?;
    ensure_eq!((rec.gates, rec.constraints.len()), (gates, cons), "packing is free");
    let mut want = vec![];
    for c in bits.chunks(F::CAPACITY as usize) {
        let mut t = F::ZERO;
        for b in c.iter().rev() {
            t = t.double() + F::from(*b as u64);
        }
        want.push(t);
    }
    ensure_eq!(p.iter().map(|e| *e.value().take()).collect::<Vec<F>>(), want, "packed values");
    ensure_eq!(p.iter().map(|e| rec.value(*e.wire())).collect::<Vec<F>>(), want, "packed wires");
    // as linear combinations: bit i of a chunk has weight 2^i
    for (k, e) in p.iter().enumerate() {
        let m = rec.comb(*e.wire());
        let mut w = F::ONE;
        let chunk: Vec<_> = bs.iter().skip(k * F::CAPACITY as usize).take(F::CAPACITY as usize).collect();
        ensure_eq!(m.len(), chunk.len(), "bits in element {k}");
        for (i, b) in chunk.iter().enumerate() {
            let v = *rec.comb(*b.wire()).keys().next().unwrap();
            ensure_eq!(m.get(&v).copied(), Some(w), "weight of bit {i} of element {k}");
            w = w.double();
        }
    }
    Ok(())
}
/// Every value and every claim in one tiny field, for the operations that enforce or decide.
fn decide_all(g: &mut Gen) -> R {
    const P: u64 = 11;
    let i = g.index;
    let (a, b, k) = (i % P, i / P % P, i / P / P);
    note!(g, "a = {a}, b = {b}, variant {k}");
    g.nt(true);
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let x = Element::alloc(&mut rec, Empty).unwrap();
    let y = Element::alloc(&mut rec, Empty).unwrap();
    let fixed = [(*x.wire(), Gf(a)), (*y.wire(), Gf(b))];
    let (outs, want): (Vec<W>, Option<Vec<u64>>) = match k {
        0 => (vec![*x.is_zero(&mut rec).unwrap().wire()], Some(vec![(a == 0) as u64])),
        1 => (vec![*x.is_equal(&mut rec, &y).unwrap().wire()], Some(vec![(a == b) as u64])),
        2 => (vec![*x.invert(&mut rec).unwrap().wire()], (1..P).find(|i| i * a % P == 1).map(|i| vec![i])),
        3 => {
            if b == 0 {
                return Ok(());
            }
            (vec![*x.div_nonzero(&mut rec, &y).unwrap().wire()], (0..P).find(|i| i * b % P == a).map(|i| vec![i]))
        }
        4 => {
            // b is the exponent
            x.enforce_root_of_unity(&mut rec, b as u32).unwrap();
            let mut p = a;
            for _ in 0..b {
                p = p * p % P;
            }
            (vec![], (p == 1).then_some(vec![]))
        }
        _ => {
            x.enforce_equal(&mut rec, &y).unwrap();
            (vec![], (a == b).then_some(vec![]))
        }
    };
    let all = solutions(&rec, &fixed, &outs, 100000).unwrap();
    let want: BTreeSet<Vec<Gf<P>>> = want.map(|v| v.into_iter().map(Gf).collect()).into_iter().collect();
    ensure_eq!(all, want, "possible results");
    Ok(())
}
fn honest_e(g: &mut Gen) -> R {
    match g.below(4) {
        0 => honest_in::<Fp>(g, false),
        1 => honest_in::<Fq>(g, false),
        2 => honest_in::<Gf<13>>(g, false),
        _ => honest_in::<Gf<257>>(g, false),
    }
}
fn honest_b(g: &mut Gen) -> R {
    match g.below(3) {
        0 => honest_in::<Fp>(g, true),
        1 => honest_in::<Gf<13>>(g, true),
        _ => honest_in::<Gf<257>>(g, true),
    }
}
fn sound_e(g: &mut Gen) -> R {
    match g.below(4) {
        0 => sound_in::<5>(g, false),
        1 | 2 => sound_in::<7>(g, false),
        _ => sound_in::<13>(g, false),
    }
}
fn sound_b(g: &mut Gen) -> R {
    match g.below(4) {
        0 => sound_in::<5>(g, true),
        1 | 2 => sound_in::<7>(g, true),
        _ => sound_in::<13>(g, true),
    }
}
fn free(g: &mut Gen) -> R {
    match g.below(3) {
        0 => free_in::<5>(g),
        1 => free_in::<7>(g),
        _ => free_in::<13>(g),
    }
}
fn pack(g: &mut Gen) -> R {
    match g.below(4) {
        0 => pack_in::<Fp>(g),
        1 => pack_in::<Fq>(g),
        2 => pack_in::<Gf<13>>(g),
        _ => pack_in::<Gf<257>>(g),
    }
}
/// Tampering with one gate of a circuit over the real field never yields another
/// satisfying assignment in which an output changed while the inputs did not.
fn tampered(g: &mut Gen) -> R {
    let x = Inputs::<Fp>::gen_(g);
    let (ops, n, _) = gen_prog(g, &x, 14, true, false);
    let give = || Always::<()>::just(|| Inputs { e: x.e.clone(), b: x.b.clone() });
    let mut rec = Rec::<Fp, Present>::new();
    let r = run(&mut rec, &ops, give()).map_err(|e| e.to_string())?;
    note!(g, "{ops:?}");
    g.nt(rec.gates > 3);
    let ins: Vec<W> = inputs_of(&ops, &r);
    if let Some(k) = rec.free_output(&ins, &wires(&r)) {
        // a square root of zero moves freely to first order; nothing else may
        let _ = n;
        return Err(format!("output {k} is not determined by the inputs near the honest assignment"));
    }
    let k = g.usize(0, rec.gates - 1);
    let t = vcs::tamper_gate(k, g.below(3), rand_fe(g), rand_fe(g));
    let mut bad = Rec::<Fp, Present>::with_tamper(t);
    let s = run(&mut bad, &ops, give()).map_err(|e| e.to_string())?;
    if bad.satisfied().is_ok() {
        let same_in = ins.iter().all(|w| rec.value(*w) == bad.value(*w));
        let (a, b) = (wires(&r), wires(&s));
        let same_out = a.iter().zip(&b).all(|(p, q)| rec.value(*p) == bad.value(*q));
        ensure!(!same_in || same_out, "another value at gate {k} goes unnoticed");
    }
    Ok(())
}
/// Long lists, and long chains of squares.
fn many_in<F: PrimeField>(g: &mut Gen) -> R {
    let len = g.size(1500);
    let vals: Vec<F> = g.vec(1, 8, fe::<F>);
    let pick: Vec<usize> = (0..len).map(|_| g.usize(0, vals.len() - 1)).collect();
    let cs: Vec<F> = (0..len).map(|_| fe(g)).collect();
    let what = g.below(4);
    let k = g.usize(0, 300) as u32;
    let (root, scale) = (match g.below(4) {
        0 => fe(g),
        1 => F::ONE,
        2 => F::ROOT_OF_UNITY,
        _ => F::ROOT_OF_UNITY.pow([1 << g.below(F::S as u64 + 1)]),
    }, fe::<F>(g));
    note!(g, "{} of {len} (or of 2^{k})", ["fold", "sum", "multiadd", "root"][what as usize]);
    g.nt(if what == 3 { k > 4 } else { len > 5 });
    let go = |mut rec: Rec<F, Present>| -> std::result::Result<(Rec<F, Present>, Vec<W>, Option<(F, W)>, (usize, usize)), String> {
        let e = |e: ragu_core::Error| e.to_string();
        let mut ins = vec![];
        for v in &vals {
            ins.push(Element::alloc(&mut rec, Always::<()>::just(|| *v)).map_err(e)?);
        }
        let s = Element::alloc(&mut rec, Always::<()>::just(|| scale)).map_err(e)?;
        let r = Element::alloc(&mut rec, Always::<()>::just(|| root)).map_err(e)?;
        let items: Vec<_> = pick.iter().map(|i| ins[*i].clone()).collect();
        let before = (rec.gates, rec.constraints.len());
        let out = match what {
            0 => Some(Element::fold(&mut rec, items.iter(), &s).map_err(e)?),
            1 => Some(Element::sum(&mut rec, items.iter())),
            2 => Some(multiadd(&mut rec, &items, &cs)),
            _ => {
                r.enforce_root_of_unity(&mut rec, k).map_err(e)?;
                None
            }
        };
        let used = (rec.gates - before.0, rec.constraints.len() - before.1);
        Ok((rec, ins.iter().map(|e| *e.wire()).collect(), out.map(|o| (*o.value().take(), *o.wire())), used))
    };
    let (rec, ins, out, used) = go(Rec::new())?;
    let want = match what {
        0 => Some(pick.iter().fold(F::ZERO, |a, i| a * scale + vals[*i])),
        1 => Some(pick.iter().map(|i| vals[*i]).sum()),
        2 => Some(pick.iter().zip(&cs).map(|(i, c)| vals[*i] * *c).sum()),
        _ => None,
    };
    ensure_eq!(out.map(|o| o.0), want, "value");
    ensure_eq!(out.map(|o| rec.value(o.1)), want, "wire");
    let holds = what != 3 || (0..k).fold(root, |a, _| a * a) == F::ONE;
    ensure_eq!(rec.satisfied().is_ok(), holds, "satisfied");
    match what {
        1 | 2 => {
            ensure_eq!(used, (0, 0), "linear operations are free");
            // as a combination of what was given
            let mut form = std::collections::BTreeMap::new();
            for (j, i) in pick.iter().enumerate() {
                *form.entry(*i).or_insert(F::ZERO) += if what == 1 { F::ONE } else { cs[j] };
            }
            let m = rec.comb(out.unwrap().1);
            let nonzero = |c: F| c != F::ZERO;
            let mut named = 0;
            for (i, w) in ins.iter().enumerate() {
                let c = m.get(rec.comb(*w).keys().next().unwrap()).copied().unwrap_or(F::ZERO);
                ensure_eq!(c, form.get(&i).copied().unwrap_or(F::ZERO), "coefficient of input {i}");
                named += nonzero(c) as usize;
            }
            ensure_eq!(m.values().filter(|c| nonzero(**c)).count(), named, "nothing else in the combination");
        }
        0 => ensure_eq!(used.0, len.saturating_sub(1), "one gate for every further item"),
        _ => ensure_eq!(used.0, k as usize, "one gate for every squaring"),
    }
    // any other value at any of the gates is noticed
    if used.0 > 0 && holds {
        let at = rec.gates - 1 - g.usize(0, used.0 - 1);
        let t = vcs::tamper_gate(at, g.below(3), fe::<F>(g) + F::from(2), fe::<F>(g) + F::from(2));
        let (bad, _, o, _) = go(Rec::with_tamper(t))?;
        if bad.satisfied().is_ok() {
            let same = o.map(|o| bad.value(o.1)) == out.map(|o| rec.value(o.1));
            ensure!(same, "another value at gate {at} goes unnoticed");
        }
    }
    Ok(())
}
fn many(g: &mut Gen) -> R {
    match g.below(3) {
        0 => many_in::<Fp>(g),
        1 => many_in::<Fq>(g),
        _ => many_in::<Gf<257>>(g),
    }
}
fn inputs_of<F: PrimeField>(ops: &[Op<F>], r: &Regs<'_, Rec<F, Present>>) -> Vec<W> {
    let (mut e, mut b) = (0, 0);
    let mut o = vec![];
    for op in ops {
        match op {
            Op::Alloc(_) | Op::AllocSquare(_) => o.push(*r.e[e].wire()),
            Op::BAlloc(_) => o.push(*r.b[b].wire()),
            _ => {}
        }
        match op {
            Op::AllocSquare(_) => e += 2,
            Op::BAlloc(_) | Op::BNot(_) | Op::BAnd(..) | Op::IsZero(_) | Op::IsEqual(..) => b += 1,
            Op::Pack(v) => e += v.chunks(F::CAPACITY as usize).count(),
            Op::RootOfUnity(..) | Op::EnforceZero(_) | Op::EnforceEqual(..) | Op::Consistent(_) | Op::BConsistent(_) | Op::BEqualIf(..) | Op::BEqual(..) => {}
            _ => e += 1,
        }
    }
    o
}
pub fn elements() -> Prop {
    Prop {
        id: "P01",
        subs: vec![
            Sub::new("honest", honest_e, 2000, 200000, "more than four operations"),
            Sub::new("sound", sound_e, 600, 60000, "more than three operations"),
            Sub::new("tampered", tampered, 500, 40000, "more than three gates"),
            Sub::new("many", many, 40, 3000, "more than five items, or than four squarings"),
            Sub::enumerated("decide_all", decide_all, 11 * 11 * 6, "always"),
        ],
        assumptions: &[],
    }
}
pub fn booleans() -> Prop {
    Prop {
        id: "P02",
        subs: vec![
            Sub::new("honest", honest_b, 2000, 200000, "more than four operations"),
            Sub::new("sound", sound_b, 600, 60000, "more than three operations"),
            Sub::new("free_inputs", free, 200, 8000, "more than one boolean"),
            Sub::new("packing", pack, 200, 10000, "more bits than one element holds"),
        ],
        assumptions: &[],
    }
}

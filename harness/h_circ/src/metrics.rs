//! Sizes of circuits, the bounds on them, and the fingerprints of their routines.
use crate::layout::*;
use crate::wiring::{fitting, fitting_raw, idx, single};
use ff::Field;
use ragu_arithmetic::Coeff;
use pasta_curves::{Fp, Fq};
use ragu_circuits::{RoutineFingerprint, registry::RegistryBuilder, verif::segments};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::Bound,
    routines::{Prediction, Routine},
};
use std::marker::PhantomData;
use std::sync::Arc;
use vcs::coeff;
use vcs::prog::*;
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

fn counts_in<F: Fld>(g: &mut Gen) -> R {
    let (c, _, l) = fitting_raw::<F>(g);
    note!(g, "{} segments, {} gates, {} constraints: {:?}", l.segs.len(), l.num_gates(), l.num_constraints(), c.body);
    g.nt(l.segs.len() > 1);
    let r = single(&c).map_err(|e| e.to_string())?;
    ensure_eq!(r.constraint_counts(idx(0)), (l.num_gates(), l.num_constraints()), "gates and constraints of the circuit");
    let got: Vec<_> = segments(&c).map_err(|e| e.to_string())?.into_iter().map(|(f, g, c)| (f.is_none(), g, c)).collect();
    let mut want: Vec<_> = l.segs.iter().map(|s| (false, s.gates.len(), s.cons.len())).collect();
    want[0].0 = true;
    want[0].2 += l.outs.len() + 1;
    ensure_eq!(got, want, "segments: root, gates, constraints");
    Ok(())
}
fn counts(g: &mut Gen) -> R {
    if g.bool() { counts_in::<Fp>(g) } else { counts_in::<Fq>(g) }
}
/// A program of an exact size, some of it in routines.
pub fn sized<F: Fld>(g: &mut Gen, gates: usize, cons: usize) -> Pc<F> {
    let outs = g.usize(0, 3).min(cons - 1);
    // constraints besides the outputs and the constant; gates besides the first
    let (mut k, mut m) = (cons - 1 - outs, gates - 1);
    let mut body: Vec<Op<F>> = vec![];
    let fill = |g: &mut Gen, m: usize, k: usize| -> Vec<Op<F>> {
        let mut o = vec![];
        for _ in 0..m {
            match g.below(3) {
                0 => o.push(Op::Mul(Val::Input(0), Val::Input(1))),
                1 => o.push(Op::Gate(Val::Input(0), Val::Input(1), Val::Input(2))),
                _ => o.extend([Op::Alloc(Val::Input(0)), Op::Alloc(Val::Input(1))]),
            }
        }
        for _ in 0..k {
            o.push(if g.bool() { Op::Equal(1, 2) } else { Op::Raw(steps(g, START, 3)) });
        }
        o
    };
    for _ in 0..g.usize(0, 2) {
        let (a, b) = (g.usize(0, m), g.usize(0, k));
        (m, k) = (m - a, k - b);
        let s = vcs::prog::Sub {
            body: fill(g, a, b),
            outs: [0, 1, 2],
            known: g.bool(),
            fail: None,
            id: g.below(100),
            predicted: Default::default(),
            executed: Default::default(),
        };
        body.push(Op::Call(Arc::new(s), [1, 2, 3]));
    }
    let mut rest = fill(g, m, k);
    // an odd allocation last takes a whole gate too
    if let [.., Op::Alloc(_), Op::Alloc(_)] = rest[..] {
        if g.bool() {
            rest.pop();
        }
    }
    body.extend(rest);
    let n = regs_of(&body);
    Pc { outs: (0..outs).map(|_| g.usize(0, n - 1)).collect(), body, extra: 0 }
}
fn limits_in<F: Fld>(g: &mut Gen) -> R {
    let gates = if g.bool() { g.usize(N - 2, N + 2) } else { g.usize(1, N) };
    let cons = if g.bool() { g.usize(M - 3, M + 2) } else { g.usize(1, M - 1) };
    let c: Pc<F> = sized(g, gates, cons);
    let x = inputs(g);
    let l = c.layout(&x, F::ONE);
    ensure_eq!((l.num_gates(), l.num_constraints()), (gates, cons), "harness: the program has the size asked for");
    note!(g, "{gates} gates, {cons} constraints");
    g.nt(gates.abs_diff(N) < 2 || cons.abs_diff(M - 1) < 2);
    let b = RegistryBuilder::<F, Rk>::new();
    let r = match g.below(3) {
        0 => b.register_circuit(c.clone()),
        1 => b.register_internal_circuit(c.clone()),
        _ => b.register_internal_step(c.clone()),
    };
    // a trace does not depend on the rank; assembling it does
    let t = c.trace_of(&x).map_err(|e| format!("no trace: {e}"))?;
    match (r, gates > N, cons >= M) {
        (Ok(b), false, false) => {
            g.label("fits");
            let r = b.finalize().map_err(|e| e.to_string())?;
            ensure_eq!(r.constraint_counts(idx(0)), (gates, cons), "gates and constraints");
            r.assemble_with_alpha(&t, idx(0), F::ONE).map_err(|e| format!("a trace that fits is refused: {e}"))?;
            // every form of the wiring polynomial fits as well, and they agree
            let [x, y, w] = [0; 3].map(|_| vcs::fields::fe::<F>(g));
            ensure_eq!(r.circuit_y(idx(0), y).eval(x), r.circuit_xy(idx(0), x, y), "s(X, y) at x");
            let s = r.wxy(w, x, y);
            ensure_eq!(r.wy(w, y).eval(x), s, "m(w, X, y) at x");
            ensure_eq!(r.wx(w, x).eval(y), s, "m(w, x, Y) at y");
            ensure_eq!(r.xy(x, y).eval(w), s, "m(W, x, y) at w");
            Ok(())
        }
        (Err(Error::GateBoundExceeded { limit: N }), true, _) => {
            g.label("too many gates");
            Ok(())
        }
        (Err(Error::ConstraintBoundExceeded { limit }), _, true) => {
            g.label("too many constraints");
            ensure_eq!(limit, M - 1, "the limit reported");
            Ok(())
        }
        (Ok(_), ..) => Err("a circuit that does not fit is accepted".into()),
        (Err(e), ..) => Err(format!("{gates} gates, {cons} constraints refused: {e}")),
    }
}
fn limits(g: &mut Gen) -> R {
    if g.bool() { limits_in::<Fp>(g) } else { limits_in::<Fq>(g) }
}

// ------------------------------------------------------------ fingerprints
type Sb<F> = vcs::prog::Sub<F>;
fn with_body<F: Field>(s: &Sb<F>, body: Vec<Op<F>>) -> Arc<Sb<F>> {
    let n = regs_of(&body);
    let outs = s.outs.map(|o| o.min(n - 1));
    Sb { body, outs, known: s.known, fail: None, id: s.id, predicted: Default::default(), executed: Default::default() }.into()
}
/// A routine close to another one.
fn near<F: Fld>(g: &mut Gen, s: &Sb<F>) -> Arc<Sb<F>> {
    let mut b = s.body.clone();
    let n = regs_of(&b);
    let k = b.len();
    match g.below(5) {
        0 => b.push(Op::Equal(g.usize(0, n - 1), g.usize(0, n - 1))),
        1 => b.push(Op::Raw(steps(g, n, 3))),
        2 if k > 0 => {
            b.pop();
        }
        3 => b.push(Op::Alloc(Val::Input(0))),
        _ => {
            // one factor, or one register of a constraint
            let at = g.usize(0, k);
            if let Some(Op::Sat(t) | Op::Raw(t) | Op::Lin(t)) = b.get_mut(at) {
                match t.first_mut() {
                    Some(Step::Term(r, c)) => {
                        if g.bool() {
                            *c = coeff(g)
                        } else {
                            *r = g.usize(0, START - 1)
                        }
                    }
                    _ => t.push(Step::Add(g.usize(0, START - 1))),
                }
            }
        }
    }
    // what is gone may no longer be referred to
    if !valid(&b) { with_body(s, s.body.clone()) } else { with_body(s, b) }
}
fn valid<F: Field>(b: &[Op<F>]) -> bool {
    vlib::catches(|| Layout::local(b)).is_ok()
}
fn in_order<F: Field>(body: &[Op<F>], out: &mut Vec<Arc<Sb<F>>>) {
    for o in body {
        if let Op::Call(s, _) = o {
            out.push(s.clone());
            in_order(&s.body, out);
        }
    }
}
fn fingerprints_in<F: Fld>(g: &mut Gen) -> R {
    let mut pool: Vec<Arc<Sb<F>>> = vec![];
    gen_body(g, &Cfg { ops: 9, depth: 2, raw: true, terms: 3, calls: 8 }, &mut pool);
    let mut nested = vec![];
    pool.iter().for_each(|s| in_order(&s.body, &mut nested));
    pool.extend(nested);
    pool.truncate(5);
    for _ in 0..g.usize(0, 3) {
        if !pool.is_empty() {
            let s = g.pick(&pool).clone();
            pool.push(near(g, &s));
        }
    }
    // circuits that call them here and there
    let mut seen: Vec<(Arc<Sb<F>>, RoutineFingerprint, (usize, usize))> = vec![];
    for _ in 0..g.usize(1, 3) {
        let body = gen_body(g, &Cfg { ops: 8, depth: 2, raw: true, terms: 3, calls: 6 }, &mut pool.clone());
        let n = regs_of(&body);
        let c = Pc { body, outs: vec![n - 1], extra: g.usize(0, 1) };
        let mut order = vec![];
        in_order(&c.body, &mut order);
        let segs = segments(&c).map_err(|e| e.to_string())?;
        ensure_eq!(segs.len(), order.len() + 1, "segments");
        for (s, (f, a, b)) in order.into_iter().zip(&segs[1..]) {
            seen.push((s, f.ok_or("a routine without a fingerprint")?, (*a, *b)));
        }
    }
    g.nt(seen.len() > 2);
    let local: Vec<_> = seen.iter().map(|(s, ..)| Layout::local(&s.body)).collect();
    let text: Vec<String> = seen.iter().map(|(s, ..)| format!("{:?}", s.body)).collect();
    for i in 0..seen.len() {
        ensure_eq!(seen[i].2, (local[i].segs[0].gates.len() - 1, local[i].segs[0].cons.len()), "gates and constraints of {}", text[i]);
        for j in 0..i {
            let same = seen[i].1 == seen[j].1;
            if Arc::ptr_eq(&seen[i].0, &seen[j].0) || text[i] == text[j] {
                g.label("the same routine again");
                ensure!(same, "the same routine has two fingerprints: {}", text[i]);
            } else if seen[i].2 != seen[j].2 || local[i].segs[0].cons != local[j].segs[0].cons {
                g.label("another routine");
                if seen[i].2 == seen[j].2 {
                    g.label("another routine of the same size");
                }
                ensure!(!same, "two routines share a fingerprint: {} and {}", text[i], text[j]);
            }
        }
    }
    note!(g, "{} calls: {text:?}", seen.len());
    Ok(())
}
/// Pairs of routines of the same size which differ in one regular way: constraints swapped, wires
/// of a constraint moved by the same distance in opposite directions, the wires of a gate swapped, a
/// term moved to another constraint, a gate moved.
fn twins_in<F: Fld>(g: &mut Gen) -> R {
    const W: usize = 4;
    let gates = g.usize(3, 6);
    let mut cons: Vec<Vec<(usize, Coeff<F>)>> = vec![];
    for _ in 0..g.usize(1, 3) {
        let n = g.usize(0, 3);
        cons.push((0..n).map(|_| (g.usize(0, W * gates - 1), if g.chance(1, 2) { Coeff::One } else { coeff(g) })).collect());
    }
    let mut twin = cons.clone();
    let (i, j) = (g.usize(0, cons.len() - 1), g.usize(0, cons.len() - 1));
    let how = g.below(5);
    match how {
        0 => twin.swap(i, j),
        1 => {
            // the same sum of positions
            let k = g.usize(0, W - 1);
            let (p, d) = (g.usize(0, gates - 3), g.usize(1, (gates - 1) / 2));
            let (p, d) = (p.min(gates - 1 - 2 * d), d);
            let c = if g.chance(1, 2) { Coeff::One } else { coeff(g) };
            let at = |q: usize| (W * q + k, c);
            cons[i].extend([at(p), at(p + 2 * d)]);
            twin[i].extend([at(p + d), at(p + d)]);
        }
        2 => {
            // the same gate, another wire; or the same wire, another gate
            if !twin[i].is_empty() {
                let t = g.usize(0, twin[i].len() - 1);
                let (q, k) = (twin[i][t].0 / W, twin[i][t].0 % W);
                twin[i][t].0 = if g.bool() { W * q + g.usize(0, W - 1) } else { W * g.usize(0, gates - 1) + k };
            }
        }
        3 => {
            if let Some(t) = twin[i].pop() {
                twin[j].push(t)
            }
        }
        _ => {
            if let Some(t) = twin[i].first_mut() {
                t.1 = coeff(g)
            }
        }
    }
    let sub = |cons: &[Vec<(usize, Coeff<F>)>]| {
        let mut body: Vec<Op<F>> = (0..gates).map(|_| Op::Gate(Val::Lit(Coeff::Zero), Val::Lit(Coeff::Zero), Val::Lit(Coeff::Zero))).collect();
        body.extend(cons.iter().map(|c| Op::Raw(c.iter().map(|&(r, k)| Step::Term(START + r, k)).collect())));
        Arc::new(vcs::prog::Sub { body, outs: [START; 3], known: false, fail: None, id: 0, predicted: Default::default(), executed: Default::default() })
    };
    let (a, b) = (sub(&cons), sub(&twin));
    let c = Pc { body: vec![Op::Call(a.clone(), [0; 3]), Op::Call(b.clone(), [0; 3])], outs: vec![0], extra: 0 };
    let segs = segments(&c).map_err(|e| e.to_string())?;
    ensure_eq!(segs.len(), 3, "segments");
    let (la, lb) = (Layout::local(&a.body), Layout::local(&b.body));
    let same = la.segs[0].cons == lb.segs[0].cons;
    g.nt(!same);
    g.label(["constraints swapped", "wires moved apart", "another wire", "a term moved", "another factor"][how as usize]);
    note!(g, "{how}: {cons:?} and {twin:?}");
    let f = |k: usize| segs[k].0.ok_or("a routine without a fingerprint");
    ensure!(f(1)? != f(2)? || same, "two routines share a fingerprint: {cons:?} and {twin:?}");
    ensure!(f(1)? == f(2)? || format!("{cons:?}") != format!("{twin:?}"), "the same routine has two fingerprints: {cons:?}");
    Ok(())
}
/// Pairs of routines made of the same operations and constraints in another order: gates,
/// allocations and calls, and constraints on their wires.
fn orders_in<F: Fld>(g: &mut Gen) -> R {
    let callee = |k: usize| {
        let body = (0..k).map(|_| Op::Alloc(Val::Lit(Coeff::Zero))).collect();
        Arc::new(vcs::prog::Sub::<F> { body, outs: [START, START + 1, START + 2], known: false, fail: None, id: 0, predicted: Default::default(), executed: Default::default() })
    };
    let callees = [callee(3), callee(4)];
    let kinds: Vec<u64> = (0..g.usize(2, 6)).map(|_| g.below(4)).collect();
    let mut other = kinds.clone();
    match g.below(4) {
        3 => other.reverse(),
        0 => {
            let k = g.usize(1, other.len() - 1);
            other.rotate_left(k)
        }
        1 => {
            let (i, j) = (g.usize(0, other.len() - 1), g.usize(0, other.len() - 1));
            other.swap(i, j)
        }
        _ => {
            let i = g.usize(0, other.len() - 1);
            other[i] = g.below(4)
        }
    }
    // constraints on the wires that the k-th operation of a kind makes
    let cons: Vec<Vec<(u64, usize, usize, Coeff<F>)>> = (0..g.usize(1, 2))
        .map(|_| (0..g.usize(1, 2)).map(|_| (*g.pick(&kinds), g.usize(0, 5), g.usize(0, 3), if g.bool() { Coeff::One } else { coeff(g) })).collect())
        .collect();
    let zero = || Val::Lit(Coeff::Zero);
    let sub = |kinds: &[u64]| {
        let mut body = vec![];
        let mut made: Vec<(u64, usize, usize)> = vec![];
        let mut n = START;
        for &k in kinds {
            let (op, len) = match k {
                0 => (Op::Alloc(zero()), 1),
                1 => (Op::Gate(zero(), zero(), zero()), 4),
                2 => (Op::Mul(zero(), zero()), 3),
                _ => (Op::Call(callees[n % 2].clone(), [0; 3]), 3),
            };
            body.push(op);
            made.push((k, n, len));
            n += len;
        }
        for c in &cons {
            let t = c.iter().filter_map(|&(kind, which, wire, f)| {
                let of: Vec<_> = made.iter().filter(|m| m.0 == kind).collect();
                let m = of.get(which % of.len().max(1))?;
                Some(Step::Term(m.1 + wire % m.2, f))
            });
            body.push(Op::Raw(t.collect()));
        }
        Arc::new(vcs::prog::Sub { body, outs: [0; 3], known: false, fail: None, id: 0, predicted: Default::default(), executed: Default::default() })
    };
    let (a, b) = (sub(&kinds), sub(&other));
    let c = Pc { body: vec![Op::Call(a.clone(), [0; 3]), Op::Call(b.clone(), [0; 3])], outs: vec![0], extra: 0 };
    let segs = segments(&c).map_err(|e| e.to_string())?;
    let second = 2 + kinds.iter().filter(|k| **k == 3).count();
    let f = |k: usize| segs.get(k).and_then(|s| s.0).ok_or("a routine without a fingerprint");
    let (la, lb) = (Layout::local(&a.body), Layout::local(&b.body));
    let size = |l: &Layout<F>| (l.segs[0].gates.len(), l.segs[0].cons.len());
    let same = size(&la) == size(&lb) && la.segs[0].cons == lb.segs[0].cons;
    g.nt(!same && size(&la) == size(&lb));
    if kinds.contains(&3) || other.contains(&3) {
        g.label("with calls");
    }
    note!(g, "{kinds:?} and {other:?}: {cons:?}");
    ensure!(f(1)? != f(second)? || same, "two routines share a fingerprint: {:?} and {:?}", a.body, b.body);
    ensure!(f(1)? == f(second)? || format!("{:?}", a.body) != format!("{:?}", b.body), "the same routine has two fingerprints: {:?}", a.body);
    Ok(())
}
fn orders(g: &mut Gen) -> R {
    if g.bool() { orders_in::<Fp>(g) } else { orders_in::<Fq>(g) }
}
fn twins(g: &mut Gen) -> R {
    if g.bool() { twins_in::<Fp>(g) } else { twins_in::<Fq>(g) }
}
fn fingerprints(g: &mut Gen) -> R {
    if g.bool() { fingerprints_in::<Fp>(g) } else { fingerprints_in::<Fq>(g) }
}
/// Routines that do the same and differ in type only.
struct Typed<const K: usize>(usize);
impl<const K: usize> Clone for Typed<K> {
    fn clone(&self) -> Self {
        Typed(self.0)
    }
}
macro_rules! typed {
    ($k:literal, $i:ty, $o:ty, |$in:ident| $from:expr, |$out:ident| $to:expr) => {
        impl Routine<Fp> for Typed<$k> {
            type Input = $i;
            type Output = $o;
            type Aux<'dr> = ();
            fn execute<'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, $in: Bound<'dr, D, $i>, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, $o>> {
                let $out: Reg<'dr, D> = $from;
                for _ in 0..self.0 {
                    dr.enforce_zero(|lc| lc.add(&$out.w))?;
                }
                Ok($to)
            }
            fn predict<'dr, D: Driver<'dr, F = Fp, Wire = ()>>(&self, _: &mut D, _: &Bound<'dr, D, $i>) -> Result<Prediction<Bound<'dr, D, $o>, DriverValue<D, ()>>> {
                Ok(Prediction::Unknown(D::unit()))
            }
        }
    };
}
type One = [PhantomData<RegKind>; 1];
type Two = (PhantomData<RegKind>, PhantomData<()>);
typed!(0, RegKind, RegKind, |i| i, |r| r);
typed!(1, RegKind, One, |i| i, |r| [r]);
typed!(2, One, RegKind, |i| i[0].clone(), |r| r);
typed!(3, One, One, |i| i[0].clone(), |r| [r]);
typed!(4, Two, Two, |i| i.0, |r| (r, ()));
typed!(5, Two, One, |i| i.0, |r| [r]);
#[derive(Clone)]
struct Calls(Vec<(usize, usize)>);
impl ragu_circuits::Circuit<Fp> for Calls {
    type Instance<'s> = ();
    type Witness<'s> = ();
    type Output = ();
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<()>
    where
        Self: 'dr,
    {
        Ok(())
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = Fp>>(&self, dr: &mut D, _: DriverValue<D, ()>) -> Result<ragu_circuits::WithAux<(), DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let mut r = Reg { w: dr.alloc(|| Ok(ragu_arithmetic::Coeff::Zero))?, v: D::just(|| Fp::ZERO) };
        for (k, n) in &self.0 {
            let n = *n;
            r = match k {
                0 => dr.routine(Typed::<0>(n), r)?,
                1 => dr.routine(Typed::<1>(n), r)?[0].clone(),
                2 => dr.routine(Typed::<2>(n), [r])?,
                3 => dr.routine(Typed::<3>(n), [r])?[0].clone(),
                4 => dr.routine(Typed::<4>(n), (r, ()))?.0,
                _ => dr.routine(Typed::<5>(n), (r, ()))?[0].clone(),
            };
        }
        Ok(ragu_circuits::WithAux::new((), D::unit()))
    }
}
fn types(g: &mut Gen) -> R {
    let calls = g.vec(2, 8, |g| (g.usize(0, 5), g.usize(0, 2)));
    note!(g, "{calls:?}");
    g.nt(true);
    let segs = segments(&Calls(calls.clone())).map_err(|e| e.to_string())?;
    for i in 0..calls.len() {
        for j in 0..i {
            ensure!((segs[i + 1].0.unwrap() == segs[j + 1].0.unwrap()) == (calls[i] == calls[j]), "calls {i} and {j}: {:?} and {:?}", calls[i], calls[j]);
        }
    }
    Ok(())
}
pub fn sizes() -> Prop {
    let _ = fitting::<Fp>;
    Prop {
        id: "R06",
        subs: vec![
            Sub::new("counts", counts, 30, 5000, "programs with nested calls; non-trivial: at least one call"),
            Sub::new("limits", limits, 40, 5000, "programs of exact sizes around both bounds, some of it in routines; non-trivial: within one of a bound"),
            Sub::new("fingerprints", fingerprints, 20, 3000, "routines, variants of them, and circuits that call them; non-trivial: three calls or more"),
            Sub::new("twins", twins, 300, 30000, "two routines of the same size, the second changed in one regular way; non-trivial: other constraints"),
            Sub::new("orders", orders, 4000, 60000, "two routines of almost the same operations, in another order; non-trivial: the same size and other constraints"),
            Sub::new("types", types, 10, 500, "routines that differ in their types only; every case is non-trivial"),
        ],
        assumptions: &["The operations of a program, written out by the harness, are the reference for its size."],
    }
}

//! Generated programs over the driver interface.
use core::marker::PhantomData;
use ff::{Field, PrimeField};
use pasta_curves::Fp;
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error,
    drivers::{
        DirectSum, Driver, DriverTypes, LinearExpression,
        emulator::{Emulator, Wired, Wireless},
    },
    maybe::{Always, Empty, Maybe, MaybeKind},
    routines::Prediction,
};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;
use vcs::prog::*;
use vcs::{Absent, Gf, Present, Rec, coeff, cval, fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

type Present_ = Always<()>;

fn inputs<F: PrimeField>(g: &mut Gen) -> Vec<F> {
    (0..NIN).map(|_| fe(g)).collect()
}
/// Does the error carry the message it was made with?
fn is_boom(e: &Error, k: u64) -> bool {
    matches!(e, Error::InvalidWitness(x) if x.to_string() == format!("boom {k}"))
}

// ------------------------------------------------------------ D01
fn expressions_in<F: PrimeField>(g: &mut Gen) -> R {
    let n = g.usize(1, 6);
    let v: Vec<F> = (0..n).map(|_| fe(g)).collect();
    let most = if g.chance(1, 40) { *g.pick(&[70, 300, 1000]) } else { 12 };
    let s: Vec<Step<F>> = steps(g, n, most);
    note!(g, "values {v:?}, expression {s:?}");
    g.nt(s.iter().any(|x| matches!(x, Step::Gain(_))) && s.len() > 2);
    let d = apply(DirectSum::<F>::default(), &s, |i| v[i]);
    ensure_eq!(d.value(), lin_value(&s, |i| v[i]), "value of the expression");
    // an expression that ignores everything still hands itself back
    apply::<F, F, ()>((), &s, |i| v[i]);
    Ok(())
}
fn expressions(g: &mut Gen) -> R {
    match g.below(2) {
        0 => expressions_in::<Fp>(g),
        _ => expressions_in::<Gf<13>>(g),
    }
}
/// A program without calls on a driver that implements only the three required operations.
fn defaults_in<F: PrimeField>(g: &mut Gen) -> R {
    let ops = if g.chance(1, 40) { 300 } else { 16 };
    let cfg = Cfg { depth: 0, raw: true, ops, ..Cfg::default() };
    let body = gen_body::<F>(g, &cfg, &mut vec![]);
    let x = inputs::<F>(g);
    note!(g, "{body:?} on {x:?}");
    g.nt(body.len() > 3);
    same_as_model::<F>(&body, &x)?;
    // equality of two wires of a driver that records terms
    let mut dr = Rec::<F, Present>::new();
    let a = dr.alloc(|| Ok(Coeff::Arbitrary(x[0]))).unwrap();
    let b = dr.alloc(|| Ok(Coeff::Arbitrary(x[1]))).unwrap();
    dr.enforce_equal(&a, &b).unwrap();
    ensure_eq!(dr.satisfied().is_ok(), x[0] == x[1], "equality enforced");
    // a driver's own ways of making values
    ensure_eq!(Rec::<F, Present>::just(|| 7u8).take(), 7, "just");
    ensure_eq!(Rec::<F, Present>::try_just(|| Ok(7u8)).unwrap().take(), 7, "try_just");
    let k = g.below(1000);
    ensure!(matches!(Rec::<F, Present>::try_just::<u8>(|| Err(boom(k))), Err(e) if is_boom(&e, k)), "failing try_just");
    ensure!(Rec::<F, Absent>::try_just::<u8>(|| Err(boom(k))).is_ok(), "an absent value is not computed");
    Rec::<F, Present>::unit().take();
    Ok(())
}
/// Runs the body on the recording driver, with and without witness, and compares
/// every gate, constraint and wire with the model.
fn same_as_model<F: PrimeField>(body: &[Op<F>], x: &[F]) -> Result<(Rec<F, Present>, Vec<F>), String> {
    let m = Model::of(body, x);
    let mut dr = Rec::<F, Present>::new();
    let r = run(&mut dr, body, vec![], Rec::<F, Present>::just(|| x.to_vec())).map_err(|e| e.to_string())?;
    ensure_eq!(dr.gates, m.gates.len(), "number of gates");
    let want: Vec<F> = std::iter::once(F::ONE).chain(m.gates.iter().flatten().copied()).collect();
    ensure_eq!(dr.vals, want, "gate values");
    ensure_eq!(dr.constraints, m.cons, "constraints");
    ensure_eq!(r.len(), m.regs.len(), "registers");
    let vals = native(body, [F::ONE; 3], x);
    for (i, q) in r.iter().enumerate() {
        ensure_eq!(*dr.comb(q.w), m.regs[i], "wire {i} as a combination of gate wires");
        ensure_eq!(dr.value(q.w), *q.v.snag(), "wire {i} carries its value");
        ensure_eq!(*q.v.snag(), vals[i], "value {i}");
    }
    let mut un = Rec::<F, Absent>::new();
    run(&mut un, body, vec![], Empty).map_err(|e| format!("without witness: {e}"))?;
    ensure!(un.shape() == dr.shape(), "the circuit depends on whether there is a witness");
    ensure_eq!(un.value_calls.get(), 0, "value closures run without witness");
    Ok((dr, vals))
}
fn defaults(g: &mut Gen) -> R {
    match g.below(2) {
        0 => defaults_in::<Fp>(g),
        _ => defaults_in::<Gf<13>>(g),
    }
}
/// A value that cannot be computed: the failure comes out unchanged, from every
/// operation that takes values, and nothing happens when there is no witness.
fn failing_in<F: PrimeField>(g: &mut Gen) -> R {
    let cfg = Cfg { depth: 2, raw: true, ops: 8, ..Cfg::default() };
    let mut body = gen_body::<F>(g, &cfg, &mut vec![]);
    let at = g.usize(0, body.len());
    let k = g.below(1000);
    body.insert(at, Op::Fail(k));
    let x = inputs::<F>(g);
    note!(g, "{body:?}");
    g.nt(at > 0);
    let mut dr = Rec::<F, Present>::new();
    let e = run(&mut dr, &body, vec![], Rec::<F, Present>::just(|| x.clone())).err();
    ensure!(matches!(&e, Some(e) if is_boom(e, k)), "recording driver: {e:?}");
    let e = Emulator::<Wired<F>>::emulate_wired(x.clone(), |dr, w| run(dr, &body, vec![], w).map(|_| ())).err();
    ensure!(matches!(&e, Some(e) if is_boom(e, k)), "wired emulator: {e:?}");
    run(&mut Rec::<F, Absent>::new(), &body, vec![], Empty).map_err(|e| format!("no witness: {e}"))?;
    run(&mut PhantomData::<F>, &body, vec![], Empty).map_err(|e| format!("no-op driver: {e}"))?;
    run(&mut Emulator::<Wireless<Empty, F>>::counter(), &body, vec![], Empty).map_err(|e| format!("counter: {e}"))?;
    Emulator::emulate_wireless(x, |dr: &mut Emulator<Wireless<Present_, F>>, w| run(dr, &body, vec![], w).map(|_| ()))
        .map_err(|e| format!("values are not needed to run without wires: {e}"))?;
    // the same from gate and mul
    let mut em = Emulator::<Wired<F>>::extractor();
    for e in [
        em.mul(|| Err(boom(k))).err(),
        em.gate(|| Err(boom(k))).err(),
        dr.mul(|| Err(boom(k))).err(),
        dr.gate(|| Err(boom(k))).err(),
    ] {
        ensure!(matches!(&e, Some(e) if is_boom(e, k)), "gate: {e:?}");
    }
    Ok(())
}
fn failing(g: &mut Gen) -> R {
    match g.below(2) {
        0 => failing_in::<Fp>(g),
        _ => failing_in::<Gf<13>>(g),
    }
}
pub fn linear() -> Prop {
    Prop {
        id: "D01",
        subs: vec![
            Sub::new("expressions", expressions, 4000, 400000, "a gain and at least three steps"),
            Sub::new("default_operations", defaults, 1500, 100000, "more than three operations"),
            Sub::new("failing_values", failing, 600, 40000, "something precedes the failure"),
        ],
        assumptions: &[],
    }
}

// ------------------------------------------------------------ D02
/// How many operations: now and then many more than usual.
fn long(g: &mut Gen) -> usize {
    if g.chance(1, 60) { *g.pick(&[60, 150, 300]) } else { 12 }
}
fn emulators_in<F: PrimeField>(g: &mut Gen) -> R {
    let cfg = Cfg { raw: true, ops: long(g), ..Cfg::default() };
    let body = gen_body::<F>(g, &cfg, &mut vec![]);
    let x = inputs::<F>(g);
    note!(g, "{body:?} on {x:?}");
    g.nt(body.len() > 3 && calls(&body) > 0);
    let vals = native(&body, [F::ONE; 3], &x);
    // with wires: every wire is its value, nothing is enforced
    let (wires, values, listed) = Emulator::<Wired<F>>::emulate_wired(x.clone(), |dr, w| {
        let r = run(dr, &body, vec![], w)?;
        // wires of a gadget made of registers, in order
        let n = r.len();
        let t = [r[0].clone(), r[n - 1].clone(), r[n / 2].clone()];
        let l = dr.wires(&t)?;
        let l2 = dr.wires(&((), ((t[1].clone(), Box::new(t[2].clone())), [t[0].clone(), t[1].clone()])))?;
        Ok((r.iter().map(|q| q.w).collect::<Vec<F>>(), r.iter().map(|q| *q.v.snag()).collect::<Vec<F>>(), (l, l2)))
    })
    .map_err(|e| e.to_string())?;
    ensure_eq!(wires, vals, "wires of the emulator");
    ensure_eq!(values, vals, "values beside the wires");
    let n = vals.len();
    let t = [vals[0], vals[n - 1], vals[n / 2]];
    ensure_eq!(listed.0, t.to_vec(), "listed wires");
    ensure_eq!(listed.1, vec![t[1], t[2], t[0], t[1]], "listed wires of nested gadgets");
    // without wires, with values
    let calls_before: usize = executed(&body);
    let values = Emulator::emulate_wireless(x.clone(), |dr: &mut Emulator<Wireless<Present_, F>>, w| {
        Ok(run(dr, &body, vec![], w)?.iter().map(|q| *q.v.snag()).collect::<Vec<F>>())
    })
    .map_err(|e| e.to_string())?;
    ensure_eq!(values, vals, "values without wires");
    let _ = calls_before;
    // neither
    let n = run(&mut Emulator::<Wireless<Empty, F>>::counter(), &body, vec![], Empty).map_err(|e| e.to_string())?.len();
    ensure_eq!(n, vals.len(), "registers of the counting emulator");
    let n = run(&mut PhantomData::<F>, &body, vec![], Empty).map_err(|e| e.to_string())?.len();
    ensure_eq!(n, vals.len(), "registers of the no-op driver");
    // the witness arrives as it was given
    let tag = g.u64();
    ensure_eq!(Emulator::<Wired<F>>::emulate_wired(tag, |_, w| Ok(w.take())).unwrap(), tag, "witness");
    ensure_eq!(Emulator::emulate_wireless(tag, |_: &mut Emulator<Wireless<Present_, F>>, w| Ok(w.take())).unwrap(), tag, "witness");
    let k = g.below(99);
    let e = Emulator::<Wired<F>>::emulate_wired((), |_, _| Err::<(), _>(boom(k))).err();
    ensure!(matches!(&e, Some(e) if is_boom(e, k)), "failure of the emulated code: {e:?}");
    let e = Emulator::emulate_wireless((), |_: &mut Emulator<Wireless<Present_, F>>, _| Err::<(), _>(boom(k))).err();
    ensure!(matches!(&e, Some(e) if is_boom(e, k)), "failure of the emulated code: {e:?}");
    Ok(())
}
fn executed<F: Field>(body: &[Op<F>]) -> usize {
    let mut n = 0;
    each_sub(body, &mut |s| n += s.executed.load(SeqCst));
    n
}
fn emulators_(g: &mut Gen) -> R {
    match g.below(2) {
        0 => emulators_in::<Fp>(g),
        _ => emulators_in::<Gf<13>>(g),
    }
}
/// Closures handed to a driver that has no use for them never run; the emulator
/// with wires runs each once or more and uses what they say, valid or not.
fn laziness_in<F: PrimeField>(g: &mut Gen) -> R {
    let v: Vec<Coeff<F>> = (0..4).map(|_| coeff(g)).collect();
    note!(g, "values {v:?}");
    g.nt(true);
    fn lazy<'dr, F: Field, D: Driver<'dr, F = F, Wire = ()>>(dr: &mut D, needs_values: bool) -> R {
        let p = || -> ! { panic!("closure ran") };
        let r = catches(|| {
            dr.gate(|| p()).is_ok()
                && dr.mul(|| p()).is_ok()
                && dr.alloc(|| p()).is_ok()
                && dr.enforce_zero(|_| p()).is_ok()
                && {
                    dr.add(|_| p());
                    dr.constant(Coeff::Two);
                    dr.enforce_equal(&(), &()).is_ok()
                }
                && (needs_values || {
                    D::just::<u8>(|| p());
                    D::try_just::<u8>(|| p()).is_ok()
                })
        });
        ensure_eq!(r, Ok(true), "driver without wires");
        Ok(())
    }
    lazy(&mut PhantomData::<F>, false)?;
    lazy(&mut Emulator::<Wireless<Empty, F>>::counter(), false)?;
    lazy(&mut Emulator::<Wireless<Empty, F>>::wireless(), false)?;
    lazy(&mut Emulator::<Wireless<Present_, F>>::execute(), true)?;
    let mut dr = Emulator::<Wired<F>>::extractor();
    let (a, b, c, d) = dr.gate(|| Ok((v[0], v[1], v[2], v[3]))).unwrap();
    ensure_eq!([a, b, c, d], [0, 1, 2, 3].map(|i| cval(&v[i])), "gate values are taken as given");
    let (a, b, c) = dr.mul(|| Ok((v[0], v[1], v[2]))).unwrap();
    ensure_eq!([a, b, c], [0, 1, 2].map(|i| cval(&v[i])), "product values are taken as given");
    ensure_eq!(dr.alloc(|| Ok(v[0])).unwrap(), cval(&v[0]), "allocated value");
    ensure_eq!(dr.constant(v[1]), cval(&v[1]), "constant");
    ensure_eq!(<Emulator<Wired<F>> as Driver<'_>>::ONE, F::ONE, "the wire that is one");
    ensure!(dr.enforce_equal(&a, &b).is_ok() && dr.enforce_zero(|l| l.add(&a)).is_ok(), "nothing is enforced");
    Ok(())
}
fn laziness(g: &mut Gen) -> R {
    match g.below(2) {
        0 => laziness_in::<Fp>(g),
        _ => laziness_in::<Gf<13>>(g),
    }
}
pub fn emulators() -> Prop {
    Prop {
        id: "D02",
        subs: vec![
            Sub::new("same_values", emulators_, 1500, 100000, "more than three operations, one of them a call"),
            Sub::new("laziness", laziness, 300, 20000, "always"),
        ],
        assumptions: &[],
    }
}

// ------------------------------------------------------------ D03
fn routines_in<F: PrimeField>(g: &mut Gen) -> R {
    let mut cfg = Cfg { raw: true, calls: 6, ops: long(g), ..Cfg::default() };
    if g.chance(1, 25) {
        // a chain of calls within calls
        cfg = Cfg { raw: true, calls: 8, ops: 4, depth: g.usize(6, 24), ..cfg };
    }
    let body = gen_body::<F>(g, &cfg, &mut vec![]);
    let x = inputs::<F>(g);
    note!(g, "{body:?} on {x:?}");
    g.nt(calls(&body) > 1);
    if calls(&body) > calls_flat(&body) {
        g.label("nested calls");
    }
    // a call is the callee's operations on the arguments' wires
    each_sub(&body, &mut |s| s.reset());
    same_as_model::<F>(&body, &x)?;
    // with and without witness: every dynamic call executed exactly once in each
    let mut want = std::collections::HashMap::new();
    dynamic(&body, &mut want);
    let mut err = None;
    each_sub(&body, &mut |s| {
        if s.executed.load(SeqCst) != 2 * want[&Arc::as_ptr(s)] {
            err = Some(format!("routine {} executed {} times in two runs with {} calls each", s.id, s.executed.load(SeqCst), want[&Arc::as_ptr(s)]));
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    // the emulator without wires executes only what is not predicted
    each_sub(&body, &mut |s| s.reset());
    Emulator::emulate_wireless(x.clone(), |dr: &mut Emulator<Wireless<Present_, F>>, w| run(dr, &body, vec![], w).map(|_| ())).unwrap();
    let mut n = std::collections::HashMap::new();
    visited(&body, &mut n);
    each_sub(&body, &mut |s| {
        let w = n.get(&Arc::as_ptr(s)).copied().unwrap_or(0);
        if s.executed.load(SeqCst) != w {
            err = Some(format!("routine {} (known: {}) executed {} times instead of {w} without wires", s.id, s.known, s.executed.load(SeqCst)));
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    each_sub(&body, &mut |s| s.reset());
    run(&mut Emulator::<Wireless<Empty, F>>::counter(), &body, vec![], Empty).map_err(|e| e.to_string())?;
    each_sub(&body, &mut |s| {
        let w = n.get(&Arc::as_ptr(s)).copied().unwrap_or(0);
        if s.executed.load(SeqCst) != w {
            err = Some(format!("routine {} executed {} times instead of {w} by the counter", s.id, s.executed.load(SeqCst)));
        }
    });
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn calls_flat<F: Field>(b: &[Op<F>]) -> usize {
    b.iter().filter(|o| matches!(o, Op::Call(..))).count()
}
fn dynamic<F: Field>(b: &[Op<F>], n: &mut std::collections::HashMap<*const vcs::prog::Sub<F>, usize>) {
    for o in b {
        if let Op::Call(s, _) = o {
            *n.entry(Arc::as_ptr(s)).or_default() += 1;
            dynamic(&s.body, n);
        }
    }
}
fn visited<F: Field>(b: &[Op<F>], n: &mut std::collections::HashMap<*const vcs::prog::Sub<F>, usize>) {
    for o in b {
        if let Op::Call(s, _) = o {
            if !s.known {
                *n.entry(Arc::as_ptr(s)).or_default() += 1;
                visited(&s.body, n);
            }
        }
    }
}
fn routines_(g: &mut Gen) -> R {
    match g.below(2) {
        0 => routines_in::<Fp>(g),
        _ => routines_in::<Gf<13>>(g),
    }
}
/// Prediction of a routine from a gadget of any driver, and failures of
/// prediction and execution.
fn predictions_in<F: PrimeField>(g: &mut Gen) -> R {
    let cfg = Cfg { depth: 1, ops: 8, ..Cfg::default() };
    let body = gen_body::<F>(g, &cfg, &mut vec![]);
    let n = regs_of(&body);
    let k = g.below(1000);
    let fail = match g.below(4) {
        0 => Some((true, k)),
        1 => Some((false, k)),
        _ => None,
    };
    let outs = [g.usize(0, n - 1), g.usize(0, n - 1), n - 1];
    let s = Arc::new(vcs::prog::Sub { body, outs, known: g.bool(), fail, id: g.below(100), predicted: Default::default(), executed: Default::default() });
    let x: Vec<F> = (0..3).map(|_| fe(g)).collect();
    note!(g, "{s:?} on {x:?}");
    g.nt(true);
    g.label(match (fail, s.known) {
        (Some((true, _)), _) => "prediction fails",
        (Some(_), _) => "execution fails",
        (None, true) => "known",
        (None, false) => "unknown",
    });
    let args = [x[0], x[1], x[2]];
    let vals = native(&s.body, args, &sub_inputs(s.id, args));
    fn trip<'dr, F: Field, D: Driver<'dr, F = F>>(dr: &mut D, x: &[F]) -> [Reg<'dr, D>; 3] {
        [0, 1, 2].map(|i| {
            let v = D::just(|| x[i]);
            let w = dr.alloc(|| Ok(Coeff::Arbitrary(*v.snag()))).unwrap();
            Reg { w, v }
        })
    }
    // prediction
    let mut rec = Rec::<F, Present>::new();
    let t = trip(&mut rec, &x);
    let r = Emulator::<Wireless<Present_, F>>::predict(&ProgRoutine(s.clone()), &t);
    match (r, fail) {
        (Err(e), Some((true, _))) => ensure!(is_boom(&e, k), "failure of the prediction: {e:?}"),
        (Err(e), _) => return Err(format!("prediction fails: {e}")),
        (Ok(_), Some((true, _))) => return Err("failing prediction succeeds".into()),
        (Ok(p), _) => match p {
            Prediction::Known(o, aux) => {
                ensure!(s.known, "prediction became known");
                ensure_eq!(o.map(|q| *q.v.snag()), s.outs.map(|i| vals[i]), "predicted output");
                ensure_eq!(aux.take(), sub_inputs(s.id, args), "auxiliary data");
            }
            Prediction::Unknown(aux) => {
                ensure!(!s.known, "prediction became unknown");
                ensure_eq!(aux.take(), sub_inputs(s.id, args), "auxiliary data");
            }
        },
    }
    // the call
    let gates = rec.gates;
    let e = rec.routine(ProgRoutine(s.clone()), t);
    match (&e, fail) {
        (Err(e), Some(_)) => ensure!(is_boom(e, k), "failure of the call: {e:?}"),
        (Ok(o), None) => {
            ensure_eq!(o.clone().map(|q| rec.value(q.w)), s.outs.map(|i| vals[i]), "output of the call");
            ensure!(rec.satisfied().is_ok() || rec.gates == gates, "{:?}", rec.satisfied());
        }
        _ => return Err(format!("call of a routine: {:?}", e.is_ok())),
    }
    let mut em = Emulator::<Wired<F>>::extractor();
    let t = trip(&mut em, &x);
    match (em.routine(ProgRoutine(s.clone()), t), fail) {
        (Err(e), Some(_)) => ensure!(is_boom(&e, k), "{e:?}"),
        (Ok(o), None) => ensure_eq!(o.map(|q| q.w), s.outs.map(|i| vals[i]), "output on the emulator"),
        (r, _) => return Err(format!("call on the emulator: {:?}", r.is_ok())),
    }
    let mut em = Emulator::<Wireless<Present_, F>>::execute();
    let t = trip(&mut em, &x);
    match (em.routine(ProgRoutine(s.clone()), t), fail) {
        (Err(e), Some((p, _))) => ensure!((p || !s.known) && is_boom(&e, k), "{e:?}"),
        (Err(e), None) => return Err(format!("call without wires: {e}")),
        (Ok(o), f) => {
            ensure!(f.is_none() || (f.unwrap().0 == false && s.known), "a failing routine succeeds");
            ensure_eq!(o.map(|q| *q.v.snag()), s.outs.map(|i| vals[i]), "output without wires");
        }
    }
    // what a prediction carries
    let a = g.u64();
    ensure_eq!(Prediction::Known(1u8, a).into_aux(), a, "auxiliary data of a known prediction");
    ensure_eq!(Prediction::<u8, u64>::Unknown(a).into_aux(), a, "auxiliary data of an unknown prediction");
    Ok(())
}
fn predictions(g: &mut Gen) -> R {
    match g.below(2) {
        0 => predictions_in::<Fp>(g),
        _ => predictions_in::<Gf<13>>(g),
    }
}
pub fn routines() -> Prop {
    Prop {
        id: "D03",
        subs: vec![
            Sub::new("calls", routines_, 1500, 100000, "at least two calls"),
            Sub::new("predictions", predictions, 1500, 100000, "always"),
        ],
        assumptions: &[],
    }
}
fn _kinds<D: DriverTypes<MaybeKind = M>, M: MaybeKind>() {}

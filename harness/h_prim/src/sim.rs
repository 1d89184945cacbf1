//! The simulator: accepts exactly what the equations allow, and counts.
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error,
    drivers::{Driver, DriverTypes, LinearExpression},
    maybe::Maybe,
};
use ragu_primitives::Simulator;
use std::sync::atomic::Ordering::SeqCst;
use vcs::prog::*;
use vcs::{Gf, Present, Rec, coeff, cval, fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

/// Number of allocations, gates, constraints; calls are transparent.
fn count<F: Field>(body: &[Op<F>]) -> [usize; 3] {
    let mut n = [0; 3];
    for o in body {
        match o {
            Op::Alloc(_) => n[0] += 1,
            Op::Sat(_) | Op::Copy(_) => {
                n[0] += 1;
                n[2] += 1;
            }
            Op::Mul(..) | Op::Gate(..) => n[1] += 1,
            Op::Raw(_) | Op::Equal(..) => n[2] += 1,
            Op::Call(s, _) => {
                let k = count(&s.body);
                (0..3).for_each(|i| n[i] += k[i]);
            }
            Op::Const(_) | Op::Lin(_) | Op::Fail(_) => {}
        }
    }
    n
}
fn counts<F: Field>(s: &Simulator<F>) -> [usize; 3] {
    [s.num_allocations(), s.num_gates(), s.num_constraints()]
}
fn programs_in<F: PrimeField>(g: &mut Gen) -> R {
    let cfg = Cfg { raw: g.chance(1, 2), depth: 2, ..Cfg::default() };
    let body = gen_body::<F>(g, &cfg, &mut vec![]);
    let x: Vec<F> = (0..NIN).map(|_| fe(g)).collect();
    note!(g, "{body:?} on {x:?}");
    g.nt(body.len() > 3);
    let mut rec = Rec::<F, Present>::new();
    run(&mut rec, &body, vec![], Rec::<F, Present>::just(|| x.clone())).map_err(|e| e.to_string())?;
    let good = rec.satisfied().is_ok();
    g.label(if good { "satisfied" } else { "unsatisfied" });
    each_sub(&body, &mut |s| s.reset());
    let mut vals = vec![];
    let r = Simulator::<F>::simulate(x.clone(), |dr, w| {
        vals = run(dr, &body, vec![], w)?.iter().map(|r| (r.w, *r.v.snag())).collect();
        Ok(())
    });
    match r {
        Ok(s) => {
            ensure!(good, "unsatisfied program accepted: {:?}", rec.satisfied());
            ensure_eq!(counts(&s), count(&body), "allocations, gates, constraints");
            let want: Vec<(F, F)> = native(&body, [F::ONE; 3], &x).into_iter().map(|v| (v, v)).collect();
            ensure_eq!(vals, want, "wires and values");
            ensure_eq!(counts(&s.clone()), counts(&s), "clone");
            let mut t = s.clone();
            t.reset();
            ensure_eq!(counts(&t), [0; 3], "counts after a reset");
            // a reset simulator goes on as a new one, an old one goes on counting
            run(&mut t, &body, vec![], Simulator::<F>::just(|| x.clone())).map_err(|e| e.to_string())?;
            ensure_eq!(counts(&t), count(&body), "counts after a reset and another run");
            run(&mut t, &body, vec![], Simulator::<F>::just(|| x.clone())).map_err(|e| e.to_string())?;
            ensure_eq!(counts(&t), count(&body).map(|n| 2 * n), "counts of two runs");
            // every routine was predicted and executed once per call
            let mut bad = None;
            let mut want: Vec<(*const vcs::prog::Sub<F>, usize)> = vec![];
            each_sub(&body, &mut |s| {
                let p = std::sync::Arc::as_ptr(s);
                match want.iter_mut().find(|x| x.0 == p) {
                    Some(x) => x.1 += 1,
                    None => want.push((p, 1)),
                }
            });
            each_sub(&body, &mut |s| {
                let k = 3 * want.iter().find(|x| x.0 == std::sync::Arc::as_ptr(s)).unwrap().1;
                if s.executed.load(SeqCst) != k {
                    bad = Some((s.executed.load(SeqCst), k));
                }
            });
            ensure!(bad.is_none(), "routine executed {bad:?}");
        }
        Err(e) => {
            ensure!(!good, "satisfied program refused: {e:?}");
            ensure!(matches!(e, Error::InvalidWitness(_)), "refusal is {e:?}");
        }
    }
    // a value that cannot be computed
    let k = g.below(1000);
    let mut body: Vec<Op<F>> = body.into_iter().filter(|o| !matches!(o, Op::Raw(_) | Op::Equal(..) | Op::Call(..))).collect();
    if body.iter().all(|o| !matches!(o, Op::Call(..))) && regs_ok(&body) {
        body.push(Op::Fail(k));
        let r = Simulator::<F>::simulate(x.clone(), |dr, w| run(dr, &body, vec![], w).map(|_| ()));
        ensure!(matches!(&r, Err(Error::InvalidWitness(e)) if e.to_string() == format!("boom {k}")), "failing value");
    }
    Ok(())
}
/// Does every operation refer to registers that exist?
fn regs_ok<F: Field>(body: &[Op<F>]) -> bool {
    let mut n = START;
    let mut ok = true;
    let st = |s: &Vec<Step<F>>, n: usize| {
        s.iter().all(|s| match s {
            Step::Term(r, _) | Step::Add(r) | Step::Sub(r) => *r < n,
            Step::Extend(v) => v.iter().all(|x| x.0 < n),
            Step::Gain(_) => true,
        })
    };
    let vl = |v: &Val<F>, n: usize| match v {
        Val::Reg(r, _) => *r < n,
        Val::Prod(a, b) => *a < n && *b < n,
        _ => true,
    };
    for o in body {
        ok &= match o {
            Op::Alloc(v) => vl(v, n),
            Op::Mul(a, b) => vl(a, n) && vl(b, n),
            Op::Gate(a, b, c) => vl(a, n) && vl(b, n) && vl(c, n),
            Op::Lin(s) | Op::Sat(s) | Op::Raw(s) => st(s, n),
            Op::Copy(i) => *i < n,
            Op::Equal(a, b) => *a < n && *b < n,
            _ => true,
        };
        n = n - START + regs_of(std::slice::from_ref(o));
    }
    ok
}
fn programs(g: &mut Gen) -> R {
    match g.below(3) {
        0 => programs_in::<Fp>(g),
        1 => programs_in::<Fq>(g),
        _ => programs_in::<Gf<13>>(g),
    }
}
/// Arbitrary gate values and expressions, one at a time.
fn equations_in<F: PrimeField>(g: &mut Gen) -> R {
    let mut dr = Simulator::<F>::new();
    let mut n = [0; 3];
    let mut wires = vec![F::ONE];
    for i in 0..g.usize(1, 8) {
        match g.below(5) {
            4 => {
                // values that cannot be computed
                let k = g.below(1000);
                let r = if g.bool() {
                    dr.alloc(|| Err(boom(k))).map(|_| ())
                } else {
                    dr.gate(|| Err(boom(k))).map(|_| ())
                };
                note!(g, "{i}: failing value");
                ensure!(matches!(&r, Err(Error::InvalidWitness(e)) if e.to_string() == format!("boom {k}")), "failing value gives {r:?}");
                // what a failure leaves behind is not specified
                n = counts(&dr);
            }
            0 => {
                let c = coeff::<F>(g);
                let w = dr.alloc(|| Ok(c)).map_err(|e| e.to_string())?;
                ensure_eq!(w, cval(&c), "allocated value");
                wires.push(w);
                n[0] += 1;
            }
            1 => {
                // near misses of the two gate equations
                let (a, b) = (fe::<F>(g), fe::<F>(g));
                let c = if g.chance(2, 3) { a * b } else { fe(g) };
                let d = if g.bool() { F::ZERO } else { fe(g) };
                let good = a * b == c && (c == F::ZERO || d == F::ZERO);
                note!(g, "{i}: gate {a:?} {b:?} {c:?} {d:?}");
                g.nt(!good);
                match dr.gate(|| Ok((Coeff::Arbitrary(a), Coeff::NegativeArbitrary(-b), Coeff::Arbitrary(c), Coeff::Arbitrary(d)))) {
                    Ok(w) => {
                        ensure!(good, "gate {a:?} {b:?} {c:?} {d:?} accepted");
                        ensure_eq!(w, (a, b, c, d), "gate wires");
                        wires.extend([a, b, c, d]);
                        n[1] += 1;
                    }
                    Err(Error::InvalidWitness(_)) => {
                        ensure!(!good, "gate {a:?} {b:?} {c:?} {d:?} refused");
                        n = counts(&dr);
                    }
                    Err(e) => return Err(format!("refusal is {e:?}")),
                }
            }
            2 => {
                let s: Vec<Step<F>> = steps(g, wires.len(), 5);
                let w = dr.add(|l| apply(l, &s, |i| wires[i]));
                ensure_eq!(w, lin_value(&s, |i| wires[i]), "virtual wire");
                wires.push(w);
            }
            _ => {
                let s: Vec<Step<F>> = steps(g, wires.len(), 5);
                let v = lin_value(&s, |i| wires[i]);
                // often made right
                let fix = g.bool();
                let good = fix || v == F::ZERO;
                note!(g, "{i}: {s:?} zero ({fix})");
                g.nt(!good);
                let r = dr.enforce_zero(|l| {
                    let l = if fix { l.add_term(&F::ONE, Coeff::NegativeArbitrary(v)) } else { l };
                    apply(l, &s, |i| wires[i])
                });
                match r {
                    Ok(()) => {
                        ensure!(good, "constraint with value {v:?} accepted");
                        n[2] += 1;
                    }
                    Err(Error::InvalidWitness(_)) => {
                        ensure!(!good, "constraint refused");
                        n = counts(&dr);
                    }
                    Err(e) => return Err(format!("refusal is {e:?}")),
                }
            }
        }
        ensure_eq!(counts(&dr), n, "counts");
    }
    let c = coeff::<F>(g);
    ensure_eq!(dr.constant(c), cval(&c), "constant");
    ensure_eq!(counts(&dr), n, "a constant is free");
    Ok(())
}
fn equations(g: &mut Gen) -> R {
    match g.below(2) {
        0 => equations_in::<Fp>(g),
        _ => equations_in::<Gf<7>>(g),
    }
}
pub fn simulators() -> Prop {
    Prop {
        id: "P08",
        subs: vec![
            Sub::new("programs", programs, 500, 20000, "more than three operations"),
            Sub::new("equations", equations, 1500, 60000, "an equation that does not hold"),
        ],
        assumptions: &[],
    }
}

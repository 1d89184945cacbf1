//! Values written to a buffer become a polynomial's value at a point.
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_circuits::horner::Horner;
use ragu_core::{
    Result,
    drivers::Driver,
    drivers::{DriverValue, emulator::Emulator},
    maybe::{Always, Maybe},
};
use ragu_primitives::{Element, io::Buffer};
use vcs::tiny::Gf;
use vcs::{Present, Rec, W, fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

/// What is done: values are written to one of several buffers, which are copied and closed.
#[derive(Clone, Debug)]
enum Op {
    Write(usize, usize),
    Copy(usize),
    Finish(usize),
    FinishKy(usize),
}
fn gen_ops(g: &mut Gen, vals: usize, long: bool) -> Vec<Op> {
    let mut open = 1;
    let mut dead = vec![false];
    let mut ops = vec![];
    let most = if long && g.chance(1, 15) { *g.pick(&[40, 130, 600]) } else { 10 };
    for _ in 0..g.usize(0, most) {
        let live: Vec<usize> = (0..open).filter(|i| !dead[*i]).collect();
        if live.is_empty() {
            break;
        }
        let b = *g.pick(&live);
        ops.push(match g.below(8) {
            0 if open < 12 => {
                open += 1;
                dead.push(false);
                Op::Copy(b)
            }
            1 if live.len() > 1 => {
                dead[b] = true;
                if g.bool() { Op::Finish(b) } else { Op::FinishKy(b) }
            }
            _ => Op::Write(b, g.usize(0, vals - 1)),
        });
    }
    for b in 0..open {
        if !dead[b] {
            ops.push(if g.bool() { Op::Finish(b) } else { Op::FinishKy(b) });
        }
    }
    ops
}
/// Value 0 is the constant one, 1 is zero, others are allocated; the point is allocated first.
fn run<'dr, F: Field, D: Driver<'dr, F = F>>(dr: &mut D, ops: &[Op], vals: DriverValue<D, Vec<F>>, n: usize) -> Result<(Vec<Element<'dr, D>>, Vec<Element<'dr, D>>)> {
    let point = Element::alloc(dr, D::just(|| vals.snag()[0]))?;
    let mut v = vec![Element::one(), Element::zero(dr)];
    let mut ins = vec![point.clone()];
    for i in 1..n {
        let e = Element::alloc(dr, D::just(|| vals.snag()[i]))?;
        ins.push(e.clone());
        v.push(e);
    }
    let mut bufs = vec![Some(Horner::new(&point))];
    let mut outs = vec![];
    for op in ops {
        match op {
            Op::Write(b, i) => bufs[*b].as_mut().unwrap().write(dr, &v[*i])?,
            Op::Copy(b) => {
                let c = bufs[*b].clone();
                bufs.push(c)
            }
            Op::Finish(b) => outs.push(bufs[*b].take().unwrap().finish(dr)),
            Op::FinishKy(b) => outs.push(bufs[*b].take().unwrap().finish_ky(dr)?),
        }
    }
    Ok((ins, outs))
}
fn expected<F: Field>(ops: &[Op], vals: &[F]) -> Vec<F> {
    let v: Vec<F> = [F::ONE, F::ZERO].into_iter().chain(vals[1..].iter().copied()).collect();
    let mut bufs: Vec<Vec<F>> = vec![vec![]];
    let mut outs = vec![];
    // the value written last is the constant term
    let at = |b: &[F]| b.iter().enumerate().map(|(i, c)| *c * vals[0].pow_vartime([(b.len() - 1 - i) as u64])).sum();
    for op in ops {
        match op {
            Op::Write(b, i) => bufs[*b].push(v[*i]),
            Op::Copy(b) => {
                let c = bufs[*b].clone();
                bufs.push(c)
            }
            Op::Finish(b) => outs.push(at(&bufs[*b])),
            Op::FinishKy(b) => {
                let mut c = bufs[*b].clone();
                c.push(F::ONE);
                outs.push(at(&c))
            }
        }
    }
    outs
}
fn values_in<F: PrimeField>(g: &mut Gen) -> R {
    let n = g.usize(1, 5);
    let vals: Vec<F> = (0..n).map(|_| fe(g)).collect();
    let ops = gen_ops(g, n + 1, true);
    note!(g, "{ops:?} on {vals:?}");
    g.nt(ops.iter().filter(|o| matches!(o, Op::Write(..))).count() > 1);
    let want = expected(&ops, &vals);
    let mut rec = Rec::<F, Present>::new();
    let (ins, outs) = run(&mut rec, &ops, Always::<()>::just(|| vals.clone()), n).map_err(|e| e.to_string())?;
    rec.satisfied()?;
    let got: Vec<F> = outs.iter().map(|e| *e.value().take()).collect();
    ensure_eq!(got, want, "values of the polynomials");
    let wires: Vec<F> = outs.iter().map(|e| rec.value(*e.wire())).collect();
    ensure_eq!(wires, want, "values of the wires");
    let ins: Vec<W> = ins.iter().map(|e| *e.wire()).collect();
    let outs: Vec<W> = outs.iter().map(|e| *e.wire()).collect();
    if let Some(k) = rec.free_output(&ins, &outs) {
        return Err(format!("result {k} is not determined by the point and the values"));
    }
    let mut em = Emulator::extractor();
    let (_, outs) = run(&mut em, &ops, Always::<()>::just(|| vals.clone()), n).map_err(|e| e.to_string())?;
    ensure_eq!(outs.iter().map(|e| *e.wire()).collect::<Vec<F>>(), want, "values extracted");
    Ok(())
}
fn values(g: &mut Gen) -> R {
    if g.bool() { values_in::<Fp>(g) } else { values_in::<Fq>(g) }
}
/// Over a tiny field: the only solution.
fn solved(g: &mut Gen) -> R {
    type F = Gf<7>;
    let n = g.usize(1, 4);
    let vals: Vec<F> = (0..n).map(|_| F::from(g.below(7))).collect();
    let ops = gen_ops(g, n + 1, false);
    note!(g, "{ops:?} on {vals:?}");
    g.nt(ops.iter().filter(|o| matches!(o, Op::Write(..))).count() > 1);
    let mut rec = Rec::<F, Present>::new();
    let (ins, outs) = run(&mut rec, &ops, Always::<()>::just(|| vals.clone()), n).map_err(|e| e.to_string())?;
    let fixed: Vec<(W, F)> = ins.iter().map(|e| *e.wire()).zip(vals.iter().copied()).collect();
    let outs: Vec<W> = outs.iter().map(|e| *e.wire()).collect();
    let Some(sols) = vcs::solve::solutions(&rec, &fixed, &outs, 50_000) else {
        g.label("given up");
        return Ok(());
    };
    ensure!(sols.len() == 1 && sols.contains(&expected(&ops, &vals)), "solutions {sols:?}, the values are {:?}", expected(&ops, &vals));
    Ok(())
}
pub fn buffers() -> Prop {
    Prop {
        id: "R11",
        subs: vec![
            Sub::new("values", values, 40, 5000, "histories (now and then of hundreds of steps) over buffers that are written to, copied and closed in two ways; non-trivial: two writes or more"),
            Sub::new("solved", solved, 20, 2000, "the same over a field of seven elements, every assignment of the wires tried; non-trivial: two writes or more"),
        ],
        assumptions: &["The driver that records the constraints is the harness's own."],
    }
}

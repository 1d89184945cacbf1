//! Circuits whose witness comes in stages.
use crate::layout::*;
use crate::poly_mask::{Mk, set_mask};
use crate::wiring::{dense, expand, holds, idx, line, normal};
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_circuits::{
    Circuit, CircuitExt, WithAux,
    polynomials::{Rank, sparse::Polynomial},
    registry::RegistryBuilder,
    staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder, StageExt},
};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::Bound,
    maybe::Maybe,
};
use std::cell::RefCell;
use std::collections::BTreeMap;
use vcs::prog::*;
use vcs::{fe, nonzero, rand_fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

/// What each of three stages is: how many values it may have, which it has.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    values: [usize; 3],
    has: [usize; 3],
}
thread_local! { static PLAN: RefCell<Plan> = RefCell::new(Plan::default()); }
fn plan<T>(f: impl FnOnce(&Plan) -> T) -> T {
    PLAN.with(|p| f(&p.borrow()))
}
/// The values of a stage: half of them allocated, half computed from those.
fn stage_values<F: Field>(n: usize, w: &[F]) -> Vec<F> {
    let mut v: Vec<F> = vec![];
    for i in 0..n {
        v.push(if i % 3 == 2 { v[i - 1] + v[i - 2].double() } else { w[i] })
    }
    v
}
macro_rules! stage {
    ($n:ident, $k:literal, $parent:ty) => {
        #[derive(Default)]
        pub struct $n;
        impl<F: PrimeField> Stage<F, Rk> for $n {
            type Parent = $parent;
            type Witness<'s> = Vec<F>;
            type OutputKind = RegsKind;
            fn values() -> usize {
                plan(|p| p.values[$k])
            }
            fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, w: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, RegsKind>>
            where
                Self: 'dr,
            {
                let mut r: Vec<Reg<'dr, D>> = vec![];
                for i in 0..plan(|p| p.has[$k]) {
                    r.push(if i % 3 == 2 {
                        let (a, b) = (&r[i - 1], &r[i - 2]);
                        let v = D::just(|| *a.v.snag() + b.v.snag().double());
                        let w = dr.add(|lc| lc.add(&a.w).add_term(&b.w, ragu_arithmetic::Coeff::Two));
                        Reg { w, v }
                    } else {
                        let v = D::just(|| w.snag()[i]);
                        Reg { w: dr.alloc(|| Ok(ragu_arithmetic::Coeff::Arbitrary(*v.snag())))?, v }
                    });
                }
                Ok(Regs(r, 0))
            }
        }
    };
}
stage!(S0, 0, ());
stage!(S1, 1, S0);
stage!(S2, 2, S1);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Use {
    Skipped,
    Enforced,
    Unenforced,
}
/// Three stages, then a program that starts with three of their values.
#[derive(Clone, Debug)]
struct Ms<F: Field> {
    uses: [Use; 3],
    /// stages are taken up in this order
    order: [usize; 3],
    /// stage and register of the arguments; a stage without it stands for the constant one
    args: [(usize, usize); 3],
    body: Vec<Op<F>>,
    outs: Vec<usize>,
    extra: usize,
}
impl<F: PrimeField> MultiStageCircuit<F, Rk> for Ms<F> {
    type Last = S2;
    type Instance<'s> = Vec<F>;
    type Witness<'s> = (Vec<Vec<F>>, Vec<F>);
    type Output = RegsKind;
    type Aux<'s> = Vec<F>;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, i: DriverValue<D, Vec<F>>) -> Result<Regs<'dr, D>>
    where
        Self: 'dr,
    {
        Ok(Regs(alloc_regs(dr, self.outs.len(), &i)?, self.extra))
    }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = F>>(
        &self,
        b: StageBuilder<'a, 'dr, D, Rk, (), S2>,
        w: DriverValue<D, (Vec<Vec<F>>, Vec<F>)>,
    ) -> Result<WithAux<Regs<'dr, D>, DriverValue<D, Vec<F>>>>
    where
        Self: 'dr,
    {
        let (mut g0, mut g1, mut g2) = (None, None, None);
        let b = if self.uses[0] == Use::Skipped {
            b.skip_stage::<S0>()?
        } else {
            let (g, b) = b.add_stage::<S0>()?;
            g0 = Some(g);
            b
        };
        let b = if self.uses[1] == Use::Skipped {
            b.skip_stage::<S1>()?
        } else {
            let (g, b) = b.configure_stage(S1)?;
            g1 = Some(g);
            b
        };
        let b = if self.uses[2] == Use::Skipped {
            b.skip_stage::<S2>()?
        } else {
            let (g, b) = b.add_stage::<S2>()?;
            g2 = Some(g);
            b
        };
        let dr = b.finish();
        let mut regs: [Vec<Reg<'dr, D>>; 3] = [vec![], vec![], vec![]];
        for k in self.order {
            let v = D::just(|| w.snag().0[k].clone());
            macro_rules! take {
                ($g:ident) => {
                    if let Some(g) = $g.take() {
                        regs[k] = if self.uses[k] == Use::Enforced { g.enforced(dr, v)? } else { g.unenforced(dr, v)? }.0;
                    }
                };
            }
            match k {
                0 => take!(g0),
                1 => take!(g1),
                _ => take!(g2),
            }
        }
        let args = self
            .args
            .map(|(s, i)| regs[s].get(i).cloned().unwrap_or_else(|| Reg { w: D::ONE, v: D::just(|| F::ONE) }));
        let x = D::just(|| w.snag().1.clone());
        let r = run(dr, &self.body, args.to_vec(), x)?;
        let aux = D::just(|| r.iter().map(|r| *r.v.snag()).collect());
        Ok(WithAux::new(Regs(self.outs.iter().map(|i| r[*i].clone()).collect(), self.extra), aux))
    }
}
impl<F: PrimeField> Ms<F> {
    fn args_of(&self, w: &[Vec<F>]) -> [F; 3] {
        self.args.map(|(s, i)| {
            if self.uses[s] == Use::Skipped || i >= w[s].len() { F::ONE } else { w[s][i] }
        })
    }
    /// All wires: the stages' first. `w` are the stages' values.
    fn layout(&self, p: &Plan, w: &[Vec<F>], x: &[F], alpha: F) -> Layout<F> {
        let mut l = Layout::new(alpha);
        let mut rows: Vec<Vec<Row<F>>> = vec![];
        for k in 0..3 {
            let mut r = vec![];
            for i in 0..p.values[k].div_ceil(2) * 2 {
                r.push(l.alloc(0, w[k].get(i).copied().unwrap_or(F::ZERO)));
            }
            r.truncate(p.has[k]);
            rows.push(r);
        }
        for k in 0..3 {
            if self.uses[k] == Use::Enforced {
                for i in 1..rows[k].len() {
                    l.equal(0, &rows[k][i - 1].clone(), &rows[k][i].clone());
                }
            }
        }
        let one = Row::from([(ONE, F::ONE)]);
        let mut start = vec![one.clone()];
        start.extend(self.args.map(|(s, i)| if self.uses[s] == Use::Skipped { one.clone() } else { rows[s].get(i).unwrap_or(&one).clone() }));
        let r = l.go(0, &self.body, start, self.args_of(w), x);
        l.finish(self.outs.iter().map(|i| r[*i].clone()).collect(), self.extra);
        l
    }
    fn instance_of(&self, w: &[Vec<F>], x: &[F]) -> Vec<F> {
        let r = native(&self.body, self.args_of(w), x);
        self.outs.iter().map(|i| r[*i]).collect()
    }
}
fn gen_plan(g: &mut Gen) -> Plan {
    let mut values = [0; 3].map(|_| g.usize(0, 7));
    if g.chance(1, 5) {
        // one of them takes most of the gates
        let k = g.usize(0, 2);
        values = values.map(|v| v.min(5));
        values[k] = g.usize(8, 44);
    }
    let has = values.map(|v| if g.bool() { v } else { g.usize(0, v) });
    Plan { values, has }
}
fn set(p: &Plan) {
    // what the library hands to a pool of threads stays on this one, which has the plan
    thread_local! { static POOL: Option<rayon::ThreadPool> = rayon::ThreadPoolBuilder::new().num_threads(1).use_current_thread().build().ok(); }
    POOL.with(|p| assert!(p.is_some(), "harness: no thread pool"));
    PLAN.with(|q| *q.borrow_mut() = p.clone());
}
/// Stages, their values, and a circuit over them that fits.
fn gen_ms<F: Fld>(g: &mut Gen) -> (Plan, Ms<F>, Vec<Vec<F>>, Vec<F>) {
    let p = gen_plan(g);
    set(&p);
    // values that are all equal are consistent
    let w: Vec<Vec<F>> = p
        .has
        .iter()
        .map(|n| {
            let w: Vec<F> = (0..*n).map(|_| fe(g)).collect();
            stage_values(*n, &w)
        })
        .collect();
    let mut uses = [0; 3].map(|_| *g.pick(&[Use::Skipped, Use::Enforced, Use::Unenforced, Use::Unenforced]));
    for k in 0..3 {
        if uses[k] == Use::Enforced && w[k].windows(2).any(|w| w[0] != w[1]) && g.chance(3, 4) {
            uses[k] = Use::Unenforced;
        }
    }
    let mut order = [0, 1, 2];
    g.shuffle(&mut order);
    let args = [0; 3].map(|_| {
        let s = g.usize(0, 2);
        (s, g.usize(0, p.has[s].max(1) - 1))
    });
    let x = inputs(g);
    let mut m = Ms { uses, order, args, body: gen_body(g, &small(), &mut vec![]), outs: vec![], extra: g.usize(0, 1) };
    while !m.layout(&p, &w, &x, F::ONE).fits() {
        m.body.pop();
    }
    let n = regs_of(&m.body);
    m.outs = g.vec(0, 3, |g| g.usize(0, n - 1));
    (p, m, w, x)
}
fn rxs<F: Fld>(w: &[Vec<F>], alpha: &[F], by_default: bool) -> Result<[Polynomial<F, Rk>; 3]> {
    Ok(if by_default {
        [
            <S0 as StageExt<F, Rk>>::rx(alpha[0], w[0].clone())?,
            <S1 as StageExt<F, Rk>>::rx(alpha[1], w[1].clone())?,
            <S2 as StageExt<F, Rk>>::rx(alpha[2], w[2].clone())?,
        ]
    } else {
        [
            <S0 as StageExt<F, Rk>>::rx_configured(&S0, alpha[0], w[0].clone())?,
            <S1 as StageExt<F, Rk>>::rx_configured(&S1, alpha[1], w[1].clone())?,
            <S2 as StageExt<F, Rk>>::rx_configured(&S2, alpha[2], w[2].clone())?,
        ]
    })
}
fn starts(p: &Plan) -> [usize; 4] {
    let n = p.values.map(|v| v.div_ceil(2));
    [1, 1 + n[0], 1 + n[0] + n[1], 1 + n[0] + n[1] + n[2]]
}
fn stages_in<F: Fld>(g: &mut Gen) -> R {
    let (p, m, w, x) = gen_ms::<F>(g);
    let alpha: Vec<F> = (0..4).map(|_| fe(g)).collect();
    note!(g, "{p:?} {m:?} on {w:?} and {x:?}");
    let l = m.layout(&p, &w, &x, alpha.iter().sum());
    let c = MultiStage::<F, Rk, _>::new(m.clone());
    let reg = RegistryBuilder::<F, Rk>::new().register_circuit(c.clone()).and_then(|b| b.finalize()).map_err(|e| format!("a circuit that fits is refused: {e}"))?;
    g.nt(p.has.iter().filter(|n| **n > 0).count() > 1 && l.num_constraints() > m.outs.len() + 1);
    // each part has its own gates
    let st = starts(&p);
    let gates = l.gates();
    let part = |from: usize, to: usize, d0: F, b0: F| -> Vec<F> {
        let mut v = vec![[F::ZERO; 4]; N];
        v[from..to].copy_from_slice(&gates[from..to]);
        v[0] = [F::ZERO, b0, F::ZERO, d0];
        trace_coeffs(&v)
    };
    let rx = rxs(&w, &alpha, g.bool()).map_err(|e| format!("no stage polynomial: {e}"))?;
    for k in 0..3 {
        ensure!(dense(&rx[k]) == part(st[k], st[k + 1], alpha[k], F::ZERO), "the polynomial of stage {k} is {:?}, its values {:?}, its gates {}..{}", dense(&rx[k]), w[k], st[k], st[k + 1]);
    }
    let t = c.trace((w.clone(), x.clone())).map_err(|e| format!("no trace: {e}"))?;
    let (t, aux) = t.into_parts();
    ensure_eq!(aux, native(&m.body, m.args_of(&w), &x), "auxiliary data");
    let last = reg.assemble_with_alpha(&t, idx(0), alpha[3]).map_err(|e| e.to_string())?;
    ensure!(dense(&last) == part(st[3], gates.len(), alpha[3], F::ONE), "the final trace has gates from {}: {:?} {gates:?}", st[3], dense(&last));
    // constraints reach the stages' wires where the stages' polynomials have them
    let s = expand(|y| reg.circuit_y(idx(0), y));
    let (outs, rest) = l.rows();
    let nz = |v: &Vec<F>| -> BTreeMap<usize, F> { v.iter().enumerate().filter(|(_, c)| **c != F::ZERO).map(|(i, c)| (i, *c)).collect() };
    for (i, o) in outs.iter().rev().enumerate() {
        ensure_eq!(nz(&s[i + 1]), line(o), "constraint of output {}", outs.len() - 1 - i);
    }
    let got = normal(s[outs.len() + 1..M - 1].iter().map(nz));
    let want = normal(rest.iter().map(line));
    ensure!(got == want, "constraints are\n{got:?}\nand should be\n{want:?}");
    // together they satisfy the circuit if and only if its gates and constraints hold
    let mut sum = rx.into_iter().fold(last, |mut a, p| {
        a.add_assign(&p);
        a
    });
    let mut inst = m.instance_of(&w, &x);
    if g.bool() {
        let mut v = dense(&sum);
        let k = g.usize(1, gates.len().max(2) - 1);
        v[at(k, g.usize(0, 3))] += nonzero::<F>(g);
        sum = Polynomial::from_coeffs(v);
    } else if !inst.is_empty() && g.chance(1, 4) {
        inst[0] += F::ONE;
    }
    let good = holds(&l, &dense(&sum), &inst);
    g.label(if good { "satisfied" } else { "violated" });
    let (y, z): (F, F) = (rand_fe(g), rand_fe(g));
    let mut q = sum.clone();
    q.dilate(z);
    q.add_assign(&reg.circuit_y(idx(0), y));
    q.add_assign(&Rk::tz(z));
    let ky = c.ky(inst, y).map_err(|e| e.to_string())?;
    ensure_eq!(sum.revdot(&q) == ky, good, "the identity for the stages' sum, against the gates and constraints");
    Ok(())
}
fn stages(g: &mut Gen) -> R {
    if g.bool() { stages_in::<Fp>(g) } else { stages_in::<Fq>(g) }
}
/// A stage with more values than it may have.
fn too_many(g: &mut Gen) -> R {
    let mut p = gen_plan(g);
    let k = g.usize(0, 2);
    p.has[k] = p.values[k] + g.usize(1, 2);
    let over = g.chance(7, 8);
    if !over {
        // more than it says, not more than its gates carry
        p.has[k] = p.values[k];
    }
    set(&p);
    let w: Vec<Vec<Fp>> = p.has.iter().map(|n| stage_values(*n, &(0..*n).map(|_| fe(g)).collect::<Vec<_>>())).collect();
    let m = Ms::<Fp> { uses: [Use::Unenforced; 3], order: [0, 1, 2], args: [(0, 0); 3], body: vec![], outs: vec![], extra: 0 };
    note!(g, "{p:?}");
    g.nt(over);
    let limit = p.values[k].div_ceil(2);
    let alpha = [Fp::ONE; 3];
    let is = |r: Option<Error>, what: &str| -> R {
        match (r, over) {
            (None, false) => Ok(()),
            (Some(Error::GateBoundExceeded { limit: l }), true) if l == limit => Ok(()),
            (e, _) => Err(format!("{what} with {p:?}: {e:?}, limit {limit}")),
        }
    };
    is(rxs(&w, &alpha, g.bool()).err(), "stage polynomial")?;
    is(MultiStage::<Fp, Rk, _>::new(m.clone()).trace((w.clone(), vec![Fp::ONE; NIN])).err(), "trace")?;
    is(RegistryBuilder::<Fp, Rk>::new().register_circuit(MultiStage::new(m)).err(), "circuit")
}
/// Masks accept what stays within the stage.
fn masks_in<F: Fld>(g: &mut Gen) -> R {
    let fin = g.chance(1, 3);
    let p;
    let (skip, n, b) = if g.bool() {
        // of a stage in the chain, or of a circuit over the chain
        p = gen_plan(g);
        set(&p);
        let st = starts(&p);
        let k = g.usize(0, 2);
        let b = match (fin, k) {
            (false, 0) => <S0 as StageExt<F, Rk>>::mask(),
            (false, 1) => <S1 as StageExt<F, Rk>>::mask(),
            (false, _) => <S2 as StageExt<F, Rk>>::mask(),
            (true, 0) => <S0 as StageExt<F, Rk>>::final_mask(),
            (true, 1) => <S1 as StageExt<F, Rk>>::final_mask(),
            (true, _) if g.bool() => <S2 as StageExt<F, Rk>>::final_mask(),
            _ => MultiStage::<F, Rk, _>::new(Ms { uses: [Use::Skipped; 3], order: [0, 1, 2], args: [(0, 0); 3], body: vec![], outs: vec![], extra: 0 }).final_mask(),
        };
        (st[k], st[k + 1] - st[k], b)
    } else {
        let skip = if g.chance(1, 4) { N - g.usize(0, 2) } else { g.usize(1, N + 1) };
        let n = if g.chance(1, 4) { (N + 1).saturating_sub(skip) } else { g.usize(0, (N + 1).saturating_sub(skip)) };
        set_mask(skip, n);
        (skip, n, if fin { <Mk as StageExt<F, Rk>>::final_mask() } else { <Mk as StageExt<F, Rk>>::mask() })
    };
    note!(g, "{n} gates after {skip}, final {fin}");
    let b = match b {
        Err(Error::GateBoundExceeded { limit: N }) if skip + n > N => {
            g.label("does not fit");
            return Ok(());
        }
        Err(e) => return Err(format!("no mask: {e}")),
        Ok(b) => b,
    };
    ensure!(skip + n <= N, "a mask of gates that do not exist");
    let active = if fin { skip + n..N } else { skip..skip + n };
    let reg = RegistryBuilder::<F, Rk>::new().register_bonding(b).finalize().map_err(|e| e.to_string())?;
    // a polynomial that stays within, or not
    let mut v = vec![F::ZERO; M];
    for k in active.clone() {
        for w in 0..4 {
            if g.bool() {
                v[at(k, w)] = fe(g);
            }
        }
    }
    for w in [0, 1, 3] {
        v[at(0, w)] = fe(g);
    }
    match g.below(4) {
        0 => {}
        1 => {
            // two that add up to nothing
            let x: F = nonzero(g);
            v[at(g.usize(0, N - 1), g.usize(0, 3))] += x;
            v[at(g.usize(0, N - 1), g.usize(0, 3))] -= x;
        }
        2 => {
            // right next to it
            let k = *g.pick(&[active.start.max(1) - 1, active.end.min(N - 1), N - 1, 1]);
            v[at(k, g.usize(0, 3))] += nonzero::<F>(g);
        }
        _ => v[at(g.usize(0, N - 1), g.usize(0, 3))] = nonzero(g),
    }
    let good = (0..N).all(|k| k == 0 || active.contains(&k) || (0..4).all(|w| v[at(k, w)] == F::ZERO)) && v[at(0, 2)] == F::ZERO;
    g.label(if good { "within" } else { "beyond" });
    g.nt(!active.is_empty());
    let y = rand_fe(g);
    let q = Polynomial::<F, Rk>::from_coeffs(v.clone());
    ensure_eq!(q.revdot(&reg.circuit_y(idx(0), y)) == F::ZERO, good, "the mask of {active:?} on {v:?}, against its gates");
    // in its three forms
    let (x, y): (F, F) = (fe(g), fe(g));
    let m = reg.circuit_xy(idx(0), x, y);
    ensure_eq!(eval(&dense(&reg.circuit_y(idx(0), y)), x), m, "s(X, y) at x of the mask of {active:?}, x {x:?}, y {y:?}");
    ensure_eq!(eval(&dense(&reg.wx(F::ONE, x)), y), m, "s(x, Y) at y of the mask of {active:?}, x {x:?}, y {y:?}");
    ensure!(reg.circuit_xy(idx(0), x, F::ZERO) == F::ZERO, "the constant term is not zero");
    Ok(())
}
fn masks(g: &mut Gen) -> R {
    if g.bool() { masks_in::<Fp>(g) } else { masks_in::<Fq>(g) }
}
fn generators(g: &mut Gen) -> R {
    let p = gen_plan(g);
    set(&p);
    let k = g.usize(0, 2);
    let i = g.usize(0, 5);
    note!(g, "{p:?}, stage {k}, {i}");
    let n = p.values[k].div_ceil(2);
    g.nt(i < n);
    let got = catches(|| match k {
        0 => <S0 as StageExt<Fp, Rk>>::generator_index_for_b(i),
        1 => <S1 as StageExt<Fp, Rk>>::generator_index_for_b(i),
        _ => <S2 as StageExt<Fp, Rk>>::generator_index_for_b(i),
    });
    let num = match k {
        0 => <S0 as StageExt<Fp, Rk>>::num_gates(),
        1 => <S1 as StageExt<Fp, Rk>>::num_gates(),
        _ => <S2 as StageExt<Fp, Rk>>::num_gates(),
    };
    ensure_eq!(num, n, "gates of stage {k}");
    match (got, i < n) {
        (Ok(j), true) => {
            ensure_eq!(j, at(starts(&p)[k] + i, 1), "where value {} of stage {k} is", 2 * i);
            Ok(())
        }
        (Err(_), false) => Ok(()),
        (r, _) => Err(format!("gate {i} of {n}: {r:?}")),
    }
}
pub fn staging() -> Prop {
    Prop {
        id: "R09",
        subs: vec![
            Sub::new("stages", stages, 8, 1200, "three stages of up to seven values (every fifth: one of up to 44) and a program over them, satisfied or with a wire or the instance changed; non-trivial: two stages with values, and a constraint of the program's own"),
            Sub::new("too_many", too_many, 10, 500, "stages that have more values than they may; non-trivial: they do"),
            Sub::new("masks", masks, 30, 4000, "masks of stages and polynomials that stay within them or not; non-trivial: the mask leaves a gate free"),
            Sub::new("generators", generators, 10, 300, "stages and positions; non-trivial: the stage has it"),
        ],
        assumptions: &["The operations of a program, written out by the harness, are the reference for its gates and constraints."],
    }
}

// ------------------------------------------------------------ bonding
/// Stage values, then linear operations; some programs do what they may not.
fn linear<F: Fld>(g: &mut Gen, bad: Option<u64>) -> Vec<Op<F>> {
    let mut ops: Vec<Op<F>> = vec![];
    let shift = |v: Vec<Step<F>>| -> Vec<Step<F>> {
        v.into_iter()
            .map(|s| match s {
                Step::Term(r, c) => Step::Term(r + 1, c),
                Step::Add(r) => Step::Add(r + 1),
                Step::Sub(r) => Step::Sub(r + 1),
                Step::Extend(v) => Step::Extend(v.into_iter().map(|(r, c)| (r + 1, c)).collect()),
                s => s,
            })
            .collect()
    };
    let m = if g.chance(1, 12) { g.usize(8, 70) } else { g.usize(1, 7) };
    let at = g.usize(0, m - 1);
    for i in 0..m {
        let n = regs_of(&ops);
        if i == at {
            match bad {
                Some(0) => ops.push(Op::Mul(Val::Input(0), Val::Input(1))),
                Some(1) => ops.push(Op::Gate(Val::Input(0), Val::Input(1), Val::Input(2))),
                Some(2) => ops.push(Op::Const(vcs::coeff(g))),
                Some(k @ (3 | 4)) => {
                    // the constant wire, some number of times, anywhere among other terms
                    let mut v = shift(steps(g, n - 1, 3));
                    for _ in 0..g.usize(1, 4) {
                        let s = match g.below(4) {
                            0 => Step::Add(0),
                            1 => Step::Sub(0),
                            2 => Step::Term(0, vcs::coeff(g)),
                            _ => Step::Extend(vec![(1, vcs::coeff(g)), (0, vcs::coeff(g))]),
                        };
                        v.insert(g.usize(0, v.len()), s);
                    }
                    ops.push(if k == 3 { Op::Raw(v) } else { Op::Lin(v) });
                }
                Some(5) => ops.push(Op::Equal(n - 1, 0)),
                _ => {}
            }
            if bad.is_some() {
                continue;
            }
        }
        ops.push(match g.below(7) {
            0 => Op::Alloc(Val::Input(g.usize(0, 3))),
            1 => Op::Copy(g.usize(1, n - 1)),
            2 => Op::Equal(g.usize(1, n - 1), g.usize(1, n - 1)),
            3 => Op::Raw(shift(steps(g, n - 1, 4))),
            4 => Op::Sat(shift(steps(g, n - 1, 4))),
            _ => Op::Lin(shift(steps(g, n - 1, 4))),
        });
    }
    ops
}
fn call<F: Field>(g: &mut Gen, body: Vec<Op<F>>) -> Vec<Op<F>> {
    let n = regs_of(&body);
    let s = vcs::prog::Sub { body, outs: [1, 2, n - 1], known: g.bool(), fail: None, id: 1, predicted: Default::default(), executed: Default::default() };
    vec![Op::Call(s.into(), [1, 3, 2])]
}
fn bonding_in<F: Fld>(g: &mut Gen) -> R {
    let p = loop {
        let p = gen_plan(g);
        // an argument that is missing would be the constant one
        if p.has.iter().all(|n| *n > 0) {
            break p;
        }
    };
    set(&p);
    let bad = if g.chance(1, 3) { Some(g.below(6)) } else { None };
    let mut body = linear::<F>(g, bad);
    let in_call = g.chance(1, 3);
    if in_call {
        body = call(g, body);
        body.extend(linear::<F>(g, None));
    }
    let n = regs_of(&body);
    let args = [0; 3].map(|_| {
        let s = g.usize(0, 2);
        (s, g.usize(0, p.has[s] - 1))
    });
    let mut uses = [Use::Unenforced; 3];
    if g.chance(1, 4) {
        uses[g.usize(0, 2)] = Use::Enforced;
    }
    let outs = if bad.is_none() && g.chance(1, 4) { vec![g.usize(1, n - 1)] } else { vec![] };
    let m = Ms { uses, order: [2, 0, 1], args, body, outs, extra: 0 };
    note!(g, "{p:?} {m:?}");
    let w: Vec<Vec<F>> = p.has.iter().map(|n| stage_values(*n, &(0..*n).map(|_| fe(g)).collect::<Vec<_>>())).collect();
    let x = inputs(g);
    let l = m.layout(&p, &w, &x, F::ZERO);
    if !l.fits() {
        return Ok(());
    }
    let b = match MultiStage::<F, Rk, _>::new(m.clone()).into_bonding_object() {
        Err(Error::InvalidWitness(_)) if bad.is_some() => {
            g.label("refused");
            g.nt(true);
            return Ok(());
        }
        Err(e) => return Err(format!("linear constraints are refused: {e}")),
        Ok(b) => b,
    };
    ensure!(bad.is_none(), "what a bonding circuit may not do is accepted: {:?}", m.body);
    g.nt(l.num_constraints() > 1);
    let reg = RegistryBuilder::<F, Rk>::new().register_bonding(b).finalize().map_err(|e| e.to_string())?;
    ensure_eq!(reg.constraint_counts(idx(0)), (l.num_gates(), l.num_constraints() - 1), "gates and constraints");
    // wire values: those of the stages' polynomials and of the circuit's own, changed or not
    let mut v = trace_coeffs(&l.gates());
    match g.below(4) {
        0 => {}
        1 => v[at(g.usize(0, l.num_gates() - 1), g.usize(0, 3))] += nonzero::<F>(g),
        2 => {
            let d: F = nonzero(g);
            v[at(g.usize(0, l.num_gates() - 1), 1)] += d;
            v[at(g.usize(0, l.num_gates() - 1), 3)] += d;
        }
        _ => {
            for x in v.iter_mut() {
                *x = F::ZERO;
            }
            v[at(0, 3)] = fe(g);
        }
    }
    let (outs, rest) = l.rows();
    let val = |r: &BTreeMap<(usize, usize), F>| -> F { r.iter().map(|((k, w), c)| v[at(*k, *w)] * *c).sum() };
    let good = v[at(0, 2)] == F::ZERO && outs.iter().chain(&rest).all(|r| val(r) == F::ZERO);
    g.label(if good { "satisfied" } else { "violated" });
    let y = rand_fe(g);
    let q = Polynomial::<F, Rk>::from_coeffs(v.clone());
    ensure_eq!(q.revdot(&reg.circuit_y(idx(0), y)) == F::ZERO, good, "the bonding polynomial on {v:?}, against the constraints");
    let (x, y): (F, F) = (fe(g), fe(g));
    let s = reg.circuit_xy(idx(0), x, y);
    ensure_eq!(eval(&dense(&reg.circuit_y(idx(0), y)), x), s, "s(X, y) at x, x {x:?}, y {y:?}");
    ensure_eq!(eval(&dense(&reg.wx(F::ONE, x)), y), s, "s(x, Y) at y, x {x:?}, y {y:?}");
    ensure!(reg.circuit_xy(idx(0), x, F::ZERO) == F::ZERO, "the constant term at x {x:?} is not zero");
    Ok(())
}
fn bonding(g: &mut Gen) -> R {
    if g.bool() { bonding_in::<Fp>(g) } else { bonding_in::<Fq>(g) }
}
pub fn bonds() -> Prop {
    let _ = |c: &Pc<Fp>| c.ky(vec![], Fp::ONE);
    fn circuit<F: PrimeField, C: Circuit<F>>() {}
    let _ = circuit::<Fp, MultiStage<Fp, Rk, Ms<Fp>>>;
    Prop {
        id: "R10",
        subs: vec![Sub::new("bonding", bonding, 40, 5000, "linear programs over three stages, a third of them with a multiplication, a gate, a constant or the constant wire, on wires that satisfy them or not; non-trivial: refused, or one constraint or more")],
        assumptions: &["A constraint that holds is one whose value is zero on the wires given; the identity is tested at a random point of a 255-bit field."],
    }
}

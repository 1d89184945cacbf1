//! Wiring polynomials, traces and the identity that joins them.
use crate::layout::*;
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::Domain;
use ragu_circuits::{
    CircuitExt,
    polynomials::{ProductionRank, Rank, sparse::Polynomial},
    registry::{CircuitIndex, Registry, RegistryBuilder},
};
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error,
    drivers::{Driver, DriverValue, LinearExpression},
};
use std::collections::BTreeMap;
use vcs::prog::*;
use vcs::{fe, nonzero, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

pub type Reg_<'a, F> = Registry<'a, F, Rk>;
pub fn dense<F: PrimeField>(p: &Polynomial<F, Rk>) -> Vec<F> {
    p.iter_coeffs().collect()
}
pub fn single<F: Fld>(c: &Pc<F>) -> Result<Reg_<'static, F>, Error> {
    RegistryBuilder::new().register_circuit(c.clone())?.finalize()
}
pub fn idx(i: usize) -> CircuitIndex {
    CircuitIndex::new(i)
}
/// A program that fits, built towards many gates, many constraints, or neither.
pub fn fitting<F: Fld>(g: &mut Gen) -> (Pc<F>, Vec<F>, Layout<F>) {
    let cfg = match g.below(4) {
        0 => Cfg { ops: 24, depth: 1, raw: false, terms: 4, calls: 2 },
        1 => Cfg { ops: 5, depth: 3, raw: false, terms: 6, calls: 9 },
        _ => small(),
    };
    let mut c: Pc<F> = gen_pc(g, &cfg);
    let x = inputs(g);
    let alpha = fe(g);
    loop {
        let l = c.layout(&x, alpha);
        if l.fits() {
            return (c, x, l);
        }
        // drop operations from the end; outputs that are gone become the constant
        c.body.pop();
        let n = regs_of(&c.body);
        c.outs.iter_mut().for_each(|o| {
            if *o >= n {
                *o = 0
            }
        });
    }
}
/// The same, with constraints that need not hold.
pub fn fitting_raw<F: Fld>(g: &mut Gen) -> (Pc<F>, Vec<F>, Layout<F>) {
    let (mut c, x, l) = fitting::<F>(g);
    for _ in 0..g.usize(0, 6) {
        let n = regs_of(&c.body);
        c.body.push(if g.bool() { Op::Raw(steps(g, n, 5)) } else { Op::Equal(g.usize(0, n - 1), g.usize(0, n - 1)) });
    }
    let mut m = c.layout(&x, l.segs[0].gates[0][3]);
    // up to the brim
    let n = regs_of(&c.body);
    if g.chance(1, 6) {
        for _ in m.num_constraints()..M - 1 {
            c.body.push(Op::Raw(steps(g, n, 3)));
        }
        g.label("no constraint left");
    }
    if g.chance(1, 6) {
        for _ in m.num_gates()..N {
            let n = regs_of(&c.body);
            c.body.push(Op::Mul(Val::Input(g.usize(0, NIN - 1)), Val::Reg(g.usize(0, n - 1), F::ONE)));
        }
        g.label("no gate left");
    }
    m = c.layout(&x, l.segs[0].gates[0][3]);
    if m.fits() { (c, x, m) } else { fitting(g) }
}
type Line<F> = BTreeMap<usize, F>;
/// Constraints are compared up to a factor.
fn scaled<F: Field>(r: Line<F>) -> Line<F> {
    let k = r.values().next().map_or(F::ONE, |x| x.invert().unwrap());
    r.into_iter().map(|(i, x)| (i, x * k)).collect()
}
pub fn normal<F: PrimeField>(v: impl IntoIterator<Item = Line<F>>) -> Vec<String> {
    let mut v: Vec<String> = v.into_iter().filter(|r| !r.is_empty()).map(|r| format!("{:?}", scaled(r))).collect();
    v.sort();
    v
}
/// The coefficients of s(X, Y), a vector over X for every power of Y.
pub fn expand<F: Fld>(s: impl Fn(F) -> Polynomial<F, Rk>) -> Vec<Vec<F>> {
    let d = Domain::<F>::new(7);
    let mut y = F::ONE;
    let mut m = vec![vec![F::ZERO; M]; M];
    for q in 0..M {
        for (j, c) in s(y).iter_coeffs().enumerate() {
            m[j][q] = c;
        }
        y *= d.omega();
    }
    m.iter_mut().for_each(|c| d.ifft(c));
    (0..M).map(|q| (0..M).map(|j| m[j][q]).collect()).collect()
}
pub fn line<F: Field>(r: &BTreeMap<(usize, usize), F>) -> Line<F> {
    r.iter().map(|((g, w), c)| (against(*g, *w), *c)).filter(|(_, c)| *c != F::ZERO).collect()
}
fn encode_in<F: Fld>(g: &mut Gen) -> R {
    let (c, _, l) = fitting_raw::<F>(g);
    let calls = calls(&c.body);
    note!(g, "{} gates, {} constraints, {calls} calls, {} outputs: {:?}", l.num_gates(), l.num_constraints(), c.outs.len(), c.body);
    g.nt(l.num_constraints() > c.outs.len() + 2);
    if calls > 0 {
        g.label("calls");
    }
    let r = single(&c).map_err(|e| format!("a circuit that fits is refused: {e}"))?;
    let m = expand(|y| r.circuit_y(idx(0), y));
    let nz = |v: &Vec<F>| -> Line<F> { v.iter().enumerate().filter(|(_, c)| **c != F::ZERO).map(|(i, c)| (i, *c)).collect() };
    let mut got: Vec<Line<F>> = m.iter().map(nz).collect();
    // the key sits alone in the last coefficient
    ensure!(got.pop().unwrap() == Line::from([(M - 1, r.digest())]), "the last constraint carries the key alone: {:?}", m[M - 1]);
    let (outs, rest) = l.rows();
    let mut first = vec![Line::from([(against(0, 1), F::ONE)])];
    first.extend(outs.iter().rev().map(line));
    for (q, want) in first.iter().enumerate() {
        ensure!(got[q] == *want, "constraint {q} (the constant, then the outputs, last first) is {:?} and should be {want:?}", got[q]);
    }
    let rest = normal(rest.iter().map(line));
    let got = normal(got.drain(first.len()..));
    ensure!(got == rest, "constraints are\n{got:?}\nand should be\n{rest:?}");
    Ok(())
}
fn encode(g: &mut Gen) -> R {
    if g.bool() { encode_in::<Fp>(g) } else { encode_in::<Fq>(g) }
}
fn forms_in<F: Fld>(g: &mut Gen) -> R {
    let cs: Vec<Pc<F>> = (0..g.usize(1, 3)).map(|_| if g.chance(1, 20) { crowded::<F>(g).0 } else { fitting_raw::<F>(g).0 }).collect();
    note!(g, "{cs:?}");
    let mut b = RegistryBuilder::<F, Rk>::new();
    for c in &cs {
        b = b.register_circuit(c.clone()).map_err(|e| e.to_string())?;
    }
    let r = b.finalize().map_err(|e| e.to_string())?;
    for i in 0..cs.len() {
        let (x, y): (F, F) = (fe(g), fe(g));
        g.nt(x != F::ZERO && y != F::ZERO);
        let w = idx(i).omega_j::<F>();
        let v = r.circuit_xy(idx(i), x, y);
        ensure_eq!(eval(&dense(&r.circuit_y(idx(i), y)), x), v, "s(X, y) at x against s(x, y) of circuit {i}, x {x:?}, y {y:?}");
        ensure_eq!(eval(&dense(&r.wx(w, x)), y), v, "s(x, Y) at y against s(x, y) of circuit {i}, x {x:?}, y {y:?}");
        let z: F = fe(g);
        ensure_eq!(eval(&dense(&r.wx(w, x)), z), eval(&dense(&r.circuit_y(idx(i), z)), x), "s(x, Y) at {z:?} against s(X, {z:?})");
    }
    Ok(())
}
fn forms(g: &mut Gen) -> R {
    if g.bool() { forms_in::<Fp>(g) } else { forms_in::<Fq>(g) }
}
/// A long chain of sums, each of up to three of the last few, the wires it began with and one.
#[derive(Clone, Debug)]
struct Chain {
    len: usize,
    window: usize,
    base: usize,
    seed: u64,
    /// terms of the sum halfway
    wide: usize,
}
/// Terms of sum `i` (a number below `window` means that many back, `window + j` the wire `j`, above
/// them one) and whether it is enforced to be zero.
impl Chain {
    fn mix(&self, i: u64) -> u64 {
        let mut z = self.seed.wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15));
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn terms(&self, i: usize) -> Vec<(usize, u64)> {
        let mut v = vec![(0, 1 + (self.mix(4 * i as u64) % 3))];
        let wide = if i == self.len / 2 { self.wide as u64 } else { 0 };
        for k in 1..=wide + self.mix(4 * i as u64 + 1) % 3 {
            let z = if k > 2 { self.mix((1 << 40) + k) } else { self.mix(4 * i as u64 + 1 + k) };
            let j = if k > 2 && z & 128 == 0 { 0 } else { (z >> 8) as usize % (self.window + self.base + 1) };
            v.push((j, z % 5));
        }
        v
    }
    fn enforced(&self, i: usize) -> bool {
        i + 1 == self.len || i % (self.len / 3 + 1) == 1
    }
    /// What `terms` says, by any means of adding up.
    fn run<T: Clone, E>(&self, base: &[T], one: &T, mut sum: impl FnMut(&[(T, u64)]) -> Result<T, E>, mut enforce: impl FnMut(&T) -> Result<(), E>) -> Result<(), E> {
        let mut last = std::collections::VecDeque::from([base[0].clone()]);
        for i in 0..self.len {
            let t: Vec<(T, u64)> = (self.terms(i).into_iter())
                .map(|(j, c)| {
                    let w = if j < self.window {
                        &last[j.min(last.len() - 1)]
                    } else {
                        base.get(j - self.window).unwrap_or(one)
                    };
                    (w.clone(), c)
                })
                .collect();
            last.push_front(sum(&t)?);
            drop(t);
            last.truncate(self.window);
            if self.enforced(i) {
                enforce(&last[0])?;
            }
        }
        Ok(())
    }
}
impl<F: Fld> ragu_circuits::Circuit<F> for Chain {
    type Instance<'i> = ();
    type Output = ();
    type Witness<'w> = ();
    type Aux<'w> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, _: &mut D, _: DriverValue<D, ()>) -> Result<(), Error>
    where
        Self: 'dr,
    {
        Ok(())
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, _: DriverValue<D, ()>) -> Result<ragu_circuits::WithAux<(), DriverValue<D, ()>>, Error>
    where
        Self: 'dr,
    {
        let base = (0..self.base).map(|_| dr.alloc(|| Ok(Coeff::Zero))).collect::<Result<Vec<_>, _>>()?;
        let dr = std::cell::RefCell::new(dr);
        self.run(
            &base,
            &D::ONE,
            |t| {
                let coeff = |c: u64| match c {
                    0 => Coeff::Zero,
                    1 => Coeff::One,
                    2 => Coeff::Two,
                    _ => Coeff::Arbitrary(F::from(c)),
                };
                Ok(dr.borrow_mut().add(|lc| t.iter().fold(lc, |lc, (w, c)| lc.add_term(w, coeff(*c)))))
            },
            |w| dr.borrow_mut().enforce_zero(|lc| lc.add(w)),
        )?;
        Ok(ragu_circuits::WithAux::new((), D::unit()))
    }
}
fn chains_in<F: Fld>(g: &mut Gen) -> R {
    let len = *g.pick(&[3usize, 100, 3000, 30000, 120000]);
    let c = Chain { len: len / 2 + g.usize(1, len), window: g.usize(1, 4), base: g.usize(1, 7), seed: g.below(u64::MAX), wide: *g.pick(&[0, 0, 40, 300, 70000, 140000]) };
    note!(g, "{c:?}");
    g.nt(c.len > 1000);
    let (x, y): (F, F) = (nonzero(g), nonzero(g));
    // the rows, from scratch
    let mut rows = vec![];
    let wire = |j: usize| if j == c.base { (0, 1) } else { (1 + j / 2, if j % 2 == 0 { 1 } else { 3 }) };
    let units: Vec<Vec<F>> = (0..=c.base).map(|j| (0..=c.base).map(|k| if j == k { F::ONE } else { F::ZERO }).collect()).collect();
    c.run::<_, ()>(
        &units[..c.base],
        &units[c.base],
        |t| Ok((0..=c.base).map(|k| t.iter().map(|(v, f)| v[k] * F::from(*f)).sum()).collect()),
        |v| {
            rows.push(Line::from_iter(v.iter().enumerate().filter(|(_, f)| **f != F::ZERO).map(|(j, f)| { let (gate, w) = wire(j); (against(gate, w), *f) })));
            Ok(())
        },
    )
    .unwrap();
    let full = c.len <= 3000;
    // on a thread with the stack that threads have unless told otherwise
    let got = std::thread::scope(|s| {
        let c = &c;
        std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || -> Result<_, Error> {
                let r = RegistryBuilder::<F, Rk>::new().register_circuit(c.clone())?.finalize()?;
                let w = idx(0).omega_j::<F>();
                let all = full.then(|| expand(|y| r.circuit_y(idx(0), y)));
                let t = <Chain as CircuitExt<F>>::trace(c, ())?.into_output();
                let t = r.assemble_with_alpha(&t, idx(0), F::ZERO)?;
                Ok((r.digest(), dense(&r.circuit_y(idx(0), y)), dense(&r.wx(w, x)), r.circuit_xy(idx(0), x, y), dense(&t), all))
            })
            .unwrap()
            .join()
    });
    let (key, sy, sx, v, t, all) = got.map_err(|_| "panicked")?.map_err(|e| format!("refused: {e}"))?;
    ensure_eq!(eval(&sy, x), v, "s(X, y) at x against s(x, y)");
    ensure_eq!(eval(&sx, y), v, "s(x, Y) at y against s(x, y)");
    ensure!(t.iter().enumerate().all(|(i, f)| *f == if i == at(0, 1) { F::ONE } else { F::ZERO }), "the trace is one alone");
    rows.retain(|r| !r.is_empty());
    // s(x, Y) holds the rows at x: the constant first, the key last
    let ev = |r: &Line<F>| r.iter().map(|(j, f)| *f * x.pow_vartime([*j as u64])).sum::<F>();
    let want = 2 + rows.iter().filter(|r| ev(r) != F::ZERO).count();
    let got = sx.iter().filter(|f| **f != F::ZERO).count();
    ensure!(want == got, "{got} constraints and should be {want}");
    ensure_eq!(sx[M - 1], key * x.pow_vartime([M as u64 - 1]), "the key");
    if let Some(m) = all {
        let nz = |v: &Vec<F>| -> Line<F> { v.iter().enumerate().filter(|(_, c)| **c != F::ZERO).map(|(i, c)| (i, *c)).collect() };
        rows.push(Line::from([(against(0, 1), F::ONE)]));
        let (got, want) = (normal(m[..M - 1].iter().map(nz)), normal(rows));
        ensure!(got == want, "constraints are\n{got:?}\nand should be\n{want:?}");
    }
    Ok(())
}
fn chains(g: &mut Gen) -> R {
    if g.bool() { chains_in::<Fp>(g) } else { chains_in::<Fq>(g) }
}
const LARGE: &str = "programs of routines called over and over, up to all gates of the rank used in production: trace, the three forms, and the identity for the trace and for 12 changes to it; non-trivial: more than 250 gates";
pub fn wiring() -> Prop {
    Prop {
        id: "R03",
        subs: vec![
            Sub::new("encode", encode, 10, 1200, "programs with nested calls and constraints that fit, every coefficient of s(X, Y) recovered; non-trivial: two constraints besides the outputs and the constant"),
            Sub::new("forms", forms, 30, 3000, "up to three programs and points, zero among them; non-trivial: a point without a zero"),
            Sub::new("large", large, 1, 60, LARGE),
            Sub::new("chains", chains, 1, 8, "up to 180,000 sums, each of the one before and up to two others of the last few, the wires it began with or one (and one sum of up to 140,000 terms), on a thread with an ordinary stack; the three forms agree, and with the rows computed from scratch (every coefficient, up to 6,000 sums); non-trivial: more than 1000"),
        ],
        assumptions: &[
            "The operations of a program, written out by the harness, are the reference; the order of constraints other than the outputs and the constant, and their factors, are not compared.",
        ],
    }
}

// ------------------------------------------------------------ traces
/// Hundreds of calls next to each other, or dozens one within the other, of which only a few have
/// gates (or constraints) of their own.
pub fn crowded<F: Fld>(g: &mut Gen) -> (Pc<F>, Vec<F>, Layout<F>) {
    let x: Vec<F> = inputs(g);
    let alpha = fe(g);
    let sub = |g: &mut Gen, body: Vec<Op<F>>| -> std::sync::Arc<Sub_<F>> {
        let n = regs_of(&body);
        let outs = [g.usize(0, n - 1), g.usize(0, n - 1), g.usize(0, n - 1)];
        Sub_ { body, outs, known: g.bool(), fail: None, id: g.below(100), predicted: Default::default(), executed: Default::default() }.into()
    };
    let own = |g: &mut Gen| -> Vec<Op<F>> {
        match g.below(4) {
            0 => vec![Op::Mul(Val::Input(g.usize(0, NIN - 1)), Val::Input(g.usize(0, NIN - 1)))],
            1 => vec![Op::Alloc(Val::Input(g.usize(0, NIN - 1)))],
            2 => (0..3).map(|_| Op::Alloc(Val::Input(g.usize(0, NIN - 1)))).collect(),
            _ => vec![Op::Copy(g.usize(0, 3))],
        }
    };
    loop {
        let mut body: Vec<Op<F>> = vec![];
        let busy = g.usize(0, 10);
        if g.bool() {
            let n = g.usize(150, 600);
            let idle: Vec<_> = (0..3).map(|_| sub(g, vec![])).collect();
            body = (0..n).map(|_| Op::Call(g.pick(&idle).clone(), [g.usize(0, 3), g.usize(0, 3), g.usize(0, 3)])).collect();
            for _ in 0..busy {
                let b = own(g);
                let at = g.usize(0, n - 1);
                body[at] = Op::Call(sub(g, b), [g.usize(0, 3), g.usize(0, 3), g.usize(0, 3)]);
            }
        } else {
            let n = g.usize(10, 60);
            let at: Vec<usize> = (0..busy).map(|_| g.usize(0, n - 1)).collect();
            for i in 0..n {
                let mut next = vec![];
                if at.contains(&i) {
                    next = own(g);
                }
                if i > 0 {
                    let s = sub(g, body);
                    let k = if next.is_empty() { 0 } else { g.usize(0, 1) * next.len() };
                    next.insert(k, Op::Call(s, [g.usize(0, 3), g.usize(0, 3), g.usize(0, 3)]));
                    if g.chance(1, 5) {
                        let s = sub(g, vec![]);
                        next.insert(k, Op::Call(s, [0, 1, 2]));
                    }
                }
                body = next;
            }
        }
        let n = regs_of(&body);
        let c = Pc { outs: g.vec(0, 3, |g| g.usize(0, n - 1)), body, extra: 0 };
        let l = c.layout(&x, alpha);
        if l.fits() {
            return (c, x, l);
        }
    }
}
fn many_in<F: Fld>(g: &mut Gen) -> R {
    let p = crowded::<F>(g);
    placed(g, p)
}
fn many(g: &mut Gen) -> R {
    if g.bool() { many_in::<Fp>(g) } else { many_in::<Fq>(g) }
}
fn place_in<F: Fld>(g: &mut Gen) -> R {
    let p = fitting::<F>(g);
    placed(g, p)
}
fn placed<F: Fld>(g: &mut Gen, (c, x, l): (Pc<F>, Vec<F>, Layout<F>)) -> R {
    let alpha = l.segs[0].gates[0][3];
    note!(g, "{} segments, {} gates: {:?} on {x:?}", l.segs.len(), l.num_gates(), c.body);
    g.nt(l.segs.len() > 1);
    let mut known = 0;
    each_sub(&c.body, &mut |s| known += s.known as usize);
    if known > 1 {
        g.label("deferred calls");
    }
    let r = single(&c).map_err(|e| e.to_string())?;
    let want = trace_coeffs(&l.gates());
    for _ in 0..2 {
        let t = c.trace(x.clone()).map_err(|e| format!("no trace: {e}"))?;
        let (t, aux) = t.into_parts();
        ensure_eq!(aux, c.regs(&x), "auxiliary data");
        let p = r.assemble_with_alpha(&t, idx(0), alpha).map_err(|e| format!("not assembled: {e}"))?;
        let got = dense(&p);
        if got != want {
            let k = (0..M).find(|k| got[*k] != want[*k]).unwrap();
            return Err(format!("coefficient {k} of the trace is {:?} and should be {:?}; gates {:?}", got[k], want[k], l.gates()));
        }
        let p = r.assemble(&t, idx(0), &mut vcs::VRng::of(g)).map_err(|e| e.to_string())?;
        let mut d = dense(&p);
        d[at(0, 3)] = alpha;
        ensure!(d == want, "with alpha at random, only its coefficient changes");
    }
    Ok(())
}
fn place(g: &mut Gen) -> R {
    if g.bool() { place_in::<Fp>(g) } else { place_in::<Fq>(g) }
}
fn mark<F: Field>(body: &[Op<F>], hit: &std::sync::Arc<Sub_<F>>, by: &std::sync::Arc<Sub_<F>>) -> Vec<Op<F>> {
    body.iter()
        .map(|o| match o {
            Op::Call(s, a) if std::sync::Arc::ptr_eq(s, hit) => Op::Call(by.clone(), *a),
            Op::Call(s, a) => {
                let b = mark(&s.body, hit, by);
                let n = Sub_ { body: b, outs: s.outs, known: s.known, fail: s.fail, id: s.id, predicted: Default::default(), executed: Default::default() };
                Op::Call(n.into(), *a)
            }
            o => o.clone(),
        })
        .collect()
}
type Sub_<F> = vcs::prog::Sub<F>;
/// A failure anywhere, in a call that was put off too, is reported.
fn failing_in<F: Fld>(g: &mut Gen) -> R {
    let (mut c, x, _) = fitting::<F>(g);
    let mut subs = vec![];
    each_sub(&c.body, &mut |s| subs.push(s.clone()));
    let k = g.below(1 << 30);
    if subs.is_empty() || g.chance(1, 4) {
        let at = g.usize(0, c.body.len());
        c.body.insert(at, Op::Fail(k));
    } else {
        let s = g.pick(&subs).clone();
        let mut body = s.body.clone();
        let predict = g.chance(1, 4);
        let mut fail = None;
        if predict || g.bool() {
            fail = Some((predict, k));
        } else {
            let at = g.usize(0, body.len());
            body.insert(at, Op::Fail(k));
        }
        g.label(if s.known { "in a deferred call" } else { "in a call" });
        let by = Sub_ { body, outs: s.outs, known: s.known, fail, id: s.id, predicted: Default::default(), executed: Default::default() };
        c.body = mark(&c.body, &s, &by.into());
    }
    g.nt(true);
    note!(g, "{:?} on {x:?}", c.body);
    match c.trace(x) {
        Ok(_) => Err("a trace despite a failure".into()),
        Err(Error::InvalidWitness(e)) if e.to_string() == format!("boom {k}") => Ok(()),
        Err(e) => Err(format!("another error than the one raised: {e}")),
    }
}
fn failing(g: &mut Gen) -> R {
    failing_in::<Fp>(g)
}
pub fn traces() -> Prop {
    Prop {
        id: "R04",
        subs: vec![
            Sub::new("place", place, 40, 5000, "programs with nested calls, their outputs predicted or not, traced twice; non-trivial: at least one call"),
            Sub::new("many", many, 2, 300, "hundreds of calls next to each other, or dozens within each other, few of them with gates; as above"),
            Sub::new("large", large, 1, 60, LARGE),
            Sub::new("failing", failing, 30, 3000, "programs in which one operation, prediction or call fails; every case is non-trivial"),
        ],
        assumptions: &["The operations of a program, written out by the harness, are the reference for the trace."],
    }
}

// ------------------------------------------------------------ the identity
/// Do these wire values satisfy the program's gates and constraints for the instance?
pub fn holds<F: PrimeField>(l: &Layout<F>, wires: &[F], inst: &[F]) -> bool {
    let v = |g: usize, w: usize| wires[at(g, w)];
    let gates = (0..N).all(|k| v(k, 0) * v(k, 1) == v(k, 2) && v(k, 2) * v(k, 3) == F::ZERO);
    let (outs, rest) = l.rows();
    let val = |r: &BTreeMap<(usize, usize), F>| -> F { r.iter().map(|((g, w), c)| v(*g, *w) * *c).sum() };
    // the key, which is not zero, meets the third wire of the first gate
    gates && v(0, 1) == F::ONE && v(0, 2) == F::ZERO && rest.iter().all(|r| val(r) == F::ZERO) && outs.len() == inst.len() && outs.iter().zip(inst).all(|(r, i)| val(r) == *i)
}
fn identity_in<F: Fld>(g: &mut Gen) -> R {
    let (c, x, _) = if g.chance(1, 3) { fitting_raw::<F>(g) } else { fitting::<F>(g) };
    let alpha = fe(g);
    let l = c.layout(&x, alpha);
    let r = single(&c).map_err(|e| e.to_string())?;
    let t = c.trace(x.clone()).map_err(|e| e.to_string())?.into_output();
    let p = r.assemble_with_alpha(&t, idx(0), alpha).map_err(|e| e.to_string())?;
    let mut wires = dense(&p);
    let mut inst = c.instance_of(&x);
    // changes to wires, favouring those in use
    let used = l.num_gates();
    let place = |g: &mut Gen| {
        let k = if g.chance(7, 8) { g.usize(0, used - 1) } else { g.usize(0, N - 1) };
        at(k, g.usize(0, 3))
    };
    let mut changed = true;
    match g.below(6) {
        0 => changed = false,
        1 => {
            if inst.is_empty() {
                changed = false;
            } else {
                let i = g.usize(0, inst.len() - 1);
                inst[i] += nonzero::<F>(g);
            }
        }
        2 => {
            let i = place(g);
            wires[i] += nonzero::<F>(g);
        }
        3 => {
            // two changes that make up for each other in a sum
            let by: F = nonzero(g);
            let (i, j) = (place(g), place(g));
            wires[i] += by;
            wires[j] -= by;
        }
        4 => {
            // another value, and its gate made right again
            let k = g.usize(1, (used - 1).max(1));
            let w = g.usize(0, 1);
            wires[at(k, w)] = fe(g);
            wires[at(k, 2)] = wires[at(k, 0)] * wires[at(k, 1)];
            if wires[at(k, 2)] != F::ZERO && g.bool() {
                wires[at(k, 3)] = F::ZERO;
            }
        }
        _ => {
            // the trace of other inputs, with or without the instance
            let mut x2 = x.clone();
            let i = g.usize(0, NIN - 1);
            x2[i] += nonzero::<F>(g);
            let t = c.trace(x2.clone()).map_err(|e| e.to_string())?.into_output();
            wires = dense(&r.assemble_with_alpha(&t, idx(0), alpha).map_err(|e| e.to_string())?);
            if g.bool() {
                inst = c.instance_of(&x2);
            }
        }
    }
    let good = holds(&l, &wires, &inst);
    g.label(match (changed, good) {
        (false, true) => "honest",
        (true, true) => "changed and still satisfying",
        (_, false) => "violating",
    });
    g.nt(l.num_gates() > 2);
    note!(g, "{:?} on {x:?}; wires {wires:?}, instance {inst:?}: {good}", c.body);
    let (y, z): (F, F) = (rand_fe(g), rand_fe(g));
    let p = Polynomial::<F, Rk>::from_coeffs(wires);
    let mut q = p.clone();
    q.dilate(z);
    q.add_assign(&r.circuit_y(idx(0), y));
    q.add_assign(&Rk::tz(z));
    let ky = c.ky(inst.clone(), y).map_err(|e| e.to_string())?;
    // k(Y), first output highest, ends in one
    let want = inst.iter().chain([&F::ONE]).fold(F::ZERO, |s, i| s * y + *i);
    ensure_eq!(ky, want, "k(y) of {inst:?}");
    ensure_eq!(p.revdot(&q) == ky, good, "the identity against the gates and constraints");
    Ok(())
}
fn identity(g: &mut Gen) -> R {
    if g.bool() { identity_in::<Fp>(g) } else { identity_in::<Fq>(g) }
}
fn ky_in<F: Fld>(g: &mut Gen) -> R {
    let (c, x, _) = fitting::<F>(g);
    let y = fe(g);
    let inst = if g.bool() { c.instance_of(&x) } else { c.outs.iter().map(|_| fe(g)).collect() };
    note!(g, "{inst:?} at {y:?}");
    g.nt(inst.len() > 1);
    let want = inst.iter().chain([&F::ONE]).fold(F::ZERO, |s, i| s * y + *i);
    ensure_eq!(c.ky(inst, y).map_err(|e| e.to_string())?, want, "k(y)");
    Ok(())
}
fn ky(g: &mut Gen) -> R {
    if g.bool() { ky_in::<Fp>(g) } else { ky_in::<Fq>(g) }
}
/// A program that nearly fills the rank used in production: a few routines called over and over.
fn big<F: Fld>(g: &mut Gen) -> (Pc<F>, Vec<F>, Layout<F>) {
    let (n, m) = (ProductionRank::n(), ProductionRank::num_coeffs());
    let x: Vec<F> = inputs(g);
    let alpha = fe(g);
    let mut pool = vec![];
    let want = *g.pick(&[n, n, n / 2 + 3, 300]);
    let cfg = Cfg { ops: g.usize(6, 30), depth: 3, raw: false, terms: 4, calls: *g.pick(&[2, 5, 9]) };
    let mut body = gen_body::<F>(g, &cfg, &mut pool);
    while pool.is_empty() {
        body = gen_body::<F>(g, &cfg, &mut pool);
    }
    let count = |b: &[Op<F>]| {
        let l = Pc { body: b.to_vec(), outs: vec![], extra: 0 }.layout(&x, alpha);
        (l.num_gates(), l.num_constraints())
    };
    // what a call takes depends on the routine alone
    let cost: Vec<(usize, usize)> = (pool.iter())
        .map(|s| {
            let (a, b) = count(&[Op::Call(s.clone(), [0, 1, 2])]);
            let (c, d) = count(&[]);
            (a - c, b - d)
        })
        .collect();
    let (mut gates, mut cons) = count(&body);
    let mut regs = regs_of(&body);
    let mut calls = 0;
    // registers that are equal
    let mut pair = (0, 0);
    let tight = g.chance(1, 3);
    while gates < want && calls < if tight { 9000 } else { 4000 } {
        let k = g.usize(0, pool.len() - 1);
        let op = match g.below(if tight { 18 } else { 6 }) {
            0 => Op::Mul(Val::Input(g.usize(0, NIN - 1)), Val::Reg(g.usize(0, 3), F::ONE)),
            1 => Op::Copy(g.usize(0, regs - 1)),
            2 => Op::Equal(pair.0, pair.1),
            6.. => Op::Equal(pair.0, pair.1),
            _ => Op::Call(pool[k].clone(), [g.usize(0, 3), g.usize(0, 3), g.usize(0, 3)]),
        };
        let (a, b) = match &op {
            Op::Mul(..) => (1, 0),
            Op::Copy(_) => (1, 1),
            Op::Equal(..) => (0, 1),
            _ => cost[k],
        };
        calls += 1;
        if gates + a > n || cons + b + 8 > m {
            continue;
        }
        if let Op::Copy(i) = op {
            pair = (i, regs);
        }
        // an allocation may find room left by another
        gates += a;
        cons += b;
        regs += match &op {
            Op::Mul(..) | Op::Call(..) => 3,
            Op::Copy(_) => 1,
            _ => 0,
        };
        body.push(op);
    }
    let n = regs_of(&body);
    assert_eq!(n, regs);
    let c = Pc { outs: g.vec(0, 4, |g| g.usize(0, n - 1)), body, extra: 0 };
    let l = c.layout(&x, alpha);
    (c, x, l)
}
fn large_in<F: Fld>(g: &mut Gen) -> R {
    type K = ProductionRank;
    let (n, m) = (K::n(), K::num_coeffs());
    let (c, x, l) = big::<F>(g);
    if l.num_gates() > n || l.num_constraints() >= m {
        return Ok(());
    }
    let alpha = l.segs[0].gates[0][3];
    note!(g, "{} operations, {} segments, {} gates, {} constraints, {} outputs", c.body.len(), l.segs.len(), l.num_gates(), l.num_constraints(), c.outs.len());
    g.nt(l.num_gates() > 250);
    if l.num_gates() > 1024 {
        g.label("more than 1024 gates");
    }
    if l.num_constraints() > 4096 {
        g.label("more than 4096 constraints");
    }
    let r = RegistryBuilder::<F, K>::new().register_circuit(c.clone()).and_then(|b| b.finalize()).map_err(|e| e.to_string())?;
    let t = c.trace(x.clone()).map_err(|e| e.to_string())?.into_output();
    let p = r.assemble_with_alpha(&t, idx(0), alpha).map_err(|e| e.to_string())?;
    let at = |k: usize, w: usize| match w {
        0 => 2 * n + k,
        1 => 2 * n - 1 - k,
        2 => k,
        _ => 4 * n - 1 - k,
    };
    let mut wires: Vec<F> = p.iter_coeffs().collect();
    for (k, v) in l.gates().iter().enumerate() {
        for w in 0..4 {
            ensure!(wires[at(k, w)] == v[w], "wire {w} of gate {k} of the trace is {:?} and should be {:?}", wires[at(k, w)], v[w]);
        }
    }
    ensure!((l.num_gates()..n).all(|k| (0..4).all(|w| wires[at(k, w)] == F::ZERO)), "gates that are not used are zero");
    // the forms agree
    let (a, y, z): (F, F, F) = (rand_fe(g), rand_fe(g), rand_fe(g));
    let sy = r.circuit_y(idx(0), y);
    let v = r.circuit_xy(idx(0), a, y);
    ensure_eq!(sy.eval(a), v, "s(X, y) at x against s(x, y)");
    let sx = r.wx(idx(0).omega_j::<F>(), a);
    ensure_eq!(sx.eval(y), v, "s(x, Y) at y against s(x, y)");
    // no two constraints in one place
    let (outs, rest) = l.rows();
    let meets = |r: &&BTreeMap<(usize, usize), F>| r.iter().map(|((k, w), c)| a.pow_vartime([(4 * n - 1 - at(*k, *w)) as u64]) * *c).sum::<F>() != F::ZERO;
    let want = outs.iter().chain(&rest).filter(meets).count() + 2;
    let got = sx.iter_coeffs().filter(|c| *c != F::ZERO).count();
    ensure_eq!(got, want, "constraints, with the constant and the key, that are not zero at x");
    // and the identity tells whether everything holds
    let inst = c.instance_of(&x);
    let ky = c.ky(inst.clone(), y).map_err(|e| e.to_string())?;
    let verdict = |wires: &[F]| {
        let p = Polynomial::<F, K>::from_coeffs(wires.to_vec());
        let mut q = p.clone();
        q.dilate(z);
        q.add_assign(&sy);
        q.add_assign(&K::tz(z));
        p.revdot(&q) == ky
    };
    let holds = |wires: &[F]| {
        let v = |k: usize, w: usize| wires[at(k, w)];
        let val = |r: &BTreeMap<(usize, usize), F>| -> F { r.iter().map(|((k, w), c)| v(*k, *w) * *c).sum() };
        (0..n).all(|k| v(k, 0) * v(k, 1) == v(k, 2) && v(k, 2) * v(k, 3) == F::ZERO)
            && v(0, 1) == F::ONE
            && v(0, 2) == F::ZERO
            && rest.iter().all(|r| val(r) == F::ZERO)
            && outs.iter().zip(&inst).all(|(r, i)| val(r) == *i)
    };
    ensure!(holds(&wires) && verdict(&wires), "the identity holds of an honest trace");
    for _ in 0..12 {
        let (k, w) = (g.usize(1, l.num_gates() - 1), g.usize(0, 3));
        let old = wires.clone();
        wires[at(k, w)] += nonzero::<F>(g);
        if g.chance(3, 4) {
            wires[at(k, 2)] = wires[at(k, 0)] * wires[at(k, 1)];
        }
        let good = holds(&wires);
        ensure_eq!(verdict(&wires), good, "the identity, wire {w} of gate {k} changed, against the gates and constraints");
        if good {
            g.label("changed and still satisfying");
        }
        wires = old;
    }
    Ok(())
}
fn large(g: &mut Gen) -> R {
    if g.bool() { large_in::<Fp>(g) } else { large_in::<Fq>(g) }
}
pub fn identities() -> Prop {
    Prop {
        id: "R05",
        subs: vec![
            Sub::new("identity", identity, 60, 8000, "programs whose constraints hold or not, with wires, instance or inputs changed in six ways; non-trivial: at least two gates of the program's own"),
            Sub::new("large", large, 1, 60, LARGE),
            Sub::new("ky", ky, 20, 2000, "instances and points; non-trivial: two values or more"),
        ],
        assumptions: &["The identity is tested at a random point of a 255-bit field, where an identity that fails holds with negligible probability."],
    }
}

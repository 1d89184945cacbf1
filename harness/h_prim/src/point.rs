//! Curve points: generated programs of point operations, against the textbook group law.
use ff::{Field, WithSmallOrderMulGroup};
use group::Group;
use pasta_curves::{EpAffine, EqAffine};
use ragu_arithmetic::CurveAffine;
use ragu_core::{
    Error, Result,
    drivers::{
        Driver, DriverValue,
        emulator::{Emulator, Wired, Wireless},
    },
    gadgets::Gadget,
    maybe::{Always, Empty, Maybe},
};
use ragu_primitives::{Boolean, Element, GadgetExt, Point, Simulator, consistent::Consistent};
use std::collections::BTreeSet;
use std::marker::PhantomData;
use std::sync::OnceLock;
use vcs::curve::*;
use vcs::solve::solutions;
use vcs::{Absent, Gf, Presence, Present, Rec, W, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

#[derive(Clone, Debug)]
enum Op {
    Alloc(usize),
    Constant(usize),
    Endo(usize),
    Negate(usize),
    CondEndo(usize, usize),
    CondNegate(usize, usize),
    Double(usize),
    /// with or without the accumulator
    Add(usize, usize, bool),
    DoubleAdd(usize, usize),
    Equal(usize, usize),
    Consistent(usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    Fine,
    Unsat,
    Fails,
    /// fails even without a witness
    Refused,
}
struct Inputs<C> {
    p: Vec<C>,
    b: Vec<bool>,
}
impl<C: Copy> Inputs<C> {
    fn again(&self) -> Self {
        Inputs { p: self.p.clone(), b: self.b.clone() }
    }
}
trait Curve_: CurveAffine<Base: WithSmallOrderMulGroup<3>> {
    fn pool() -> &'static [Self];
}
fn xy<C: CurveAffine>(p: &C) -> Xy<C::Base> {
    p.coordinates().into_option().map(|c| (*c.x(), *c.y()))
}
/// Small and large multiples, negatives and endomorphism images of the generator, and the identity.
fn pasta_pool<C: CurveAffine>() -> Vec<C> {
    let g = C::generator().to_curve();
    let mut v = vec![C::identity()];
    let mut scalars: Vec<C::Scalar> = (1..8).map(C::Scalar::from).collect();
    let mut r = C::Scalar::from(0x1234_5678_9abc_def1);
    for _ in 0..12 {
        r = r.square() + C::Scalar::from(7);
        scalars.push(r);
    }
    scalars.push(C::Scalar::ZERO - C::Scalar::ONE);
    scalars.push(<<C as CurveAffine>::ScalarExt as WithSmallOrderMulGroup<3>>::ZETA);
    for s in scalars {
        let p = g * s;
        for q in [p, -p] {
            v.push(q.into());
        }
        v.push((p.double() + g).into());
    }
    v
}
impl Curve_ for EpAffine {
    fn pool() -> &'static [Self] {
        static T: OnceLock<Vec<EpAffine>> = OnceLock::new();
        T.get_or_init(pasta_pool)
    }
}
impl Curve_ for EqAffine {
    fn pool() -> &'static [Self] {
        static T: OnceLock<Vec<EqAffine>> = OnceLock::new();
        T.get_or_init(pasta_pool)
    }
}
macro_rules! tiny {
    ($($t:ty),*) => {$(
        impl Curve_ for $t {
            fn pool() -> &'static [Self] {
                static T: OnceLock<Vec<$t>> = OnceLock::new();
                T.get_or_init(all_points)
            }
        }
    )*};
}
tiny!(C7, C13, C31);

#[derive(Clone)]
struct Native<F> {
    p: Vec<Xy<F>>,
    acc: F,
}
fn eval<C: Curve_>(op: &Op, n: &mut Native<C::Base>, x: &Inputs<C>) -> Out {
    let p = n.p.clone();
    let zeta = |q: Xy<C::Base>| q.map(|(x, y)| (x * C::Base::ZETA, y));
    let r = match op {
        Op::Alloc(i) => match xy(&x.p[*i]) {
            None => return Out::Fails,
            s => s,
        },
        Op::Constant(i) => match xy(&x.p[*i]) {
            None => return Out::Refused,
            s => s,
        },
        Op::Endo(i) => zeta(p[*i]),
        Op::Negate(i) => xy_neg(p[*i]),
        Op::CondEndo(i, c) => {
            if x.b[*c] {
                zeta(p[*i])
            } else {
                p[*i]
            }
        }
        Op::CondNegate(i, c) => {
            if x.b[*c] {
                xy_neg(p[*i])
            } else {
                p[*i]
            }
        }
        Op::Double(i) => xy_add(p[*i], p[*i]),
        Op::Add(i, j, acc) => {
            if *acc {
                n.acc *= p[*j].unwrap().0 - p[*i].unwrap().0;
            }
            if p[*i].unwrap().0 == p[*j].unwrap().0 {
                return Out::Fails;
            }
            xy_add(p[*i], p[*j])
        }
        Op::DoubleAdd(i, j) => {
            if p[*i].unwrap().0 == p[*j].unwrap().0 {
                return Out::Fails;
            }
            match xy_add(xy_add(p[*i], p[*i]), p[*j]) {
                None => return Out::Fails,
                s => s,
            }
        }
        Op::Equal(i, j) => return if p[*i] == p[*j] { Out::Fine } else { Out::Unsat },
        Op::Consistent(_) => return Out::Fine,
    };
    n.p.push(r);
    Out::Fine
}
struct Regs<'dr, D: Driver<'dr>, C: CurveAffine<Base = D::F>> {
    p: Vec<Point<'dr, D, C>>,
    b: Vec<Boolean<'dr, D>>,
    acc: Option<Element<'dr, D>>,
}
fn start<'dr, D: Driver<'dr, F = C::Base>, C: Curve_>(dr: &mut D, x: &DriverValue<D, Inputs<C>>) -> Result<Regs<'dr, D, C>> {
    let mut b = vec![];
    for i in 0..3 {
        b.push(Boolean::alloc(dr, D::just(|| x.snag().b[i]))?);
    }
    Ok(Regs { p: vec![], b, acc: Some(Element::one()) })
}
fn exec<'dr, D: Driver<'dr, F = C::Base>, C: Curve_>(dr: &mut D, op: &Op, r: &mut Regs<'dr, D, C>, x: &DriverValue<D, Inputs<C>>, fixed: &Inputs<C>) -> Result<()> {
    let q = match op {
        Op::Alloc(i) => Point::alloc(dr, D::just(|| x.snag().p[*i]))?,
        Op::Constant(i) => Point::constant(dr, fixed.p[*i])?,
        Op::Endo(i) => r.p[*i].endo(dr),
        Op::Negate(i) => r.p[*i].negate(dr),
        Op::CondEndo(i, c) => r.p[*i].conditional_endo(dr, &r.b[*c])?,
        Op::CondNegate(i, c) => r.p[*i].conditional_negate(dr, &r.b[*c])?,
        Op::Double(i) => r.p[*i].double(dr)?,
        Op::Add(i, j, false) => r.p[*i].add_incomplete(dr, &r.p[*j], None)?,
        Op::Add(i, j, true) => {
            let (a, b) = (r.p[*i].clone(), r.p[*j].clone());
            a.add_incomplete(dr, &b, r.acc.as_mut())?
        }
        Op::DoubleAdd(i, j) => r.p[*i].double_and_add_incomplete(dr, &r.p[*j])?,
        Op::Equal(i, j) => return r.p[*i].enforce_equal(dr, &r.p[*j]),
        Op::Consistent(i) => return r.p[*i].enforce_consistent(dr),
    };
    r.p.push(q);
    Ok(())
}
fn run<'dr, D: Driver<'dr, F = C::Base>, C: Curve_>(dr: &mut D, ops: &[Op], x: DriverValue<D, Inputs<C>>, fixed: &Inputs<C>) -> Result<Regs<'dr, D, C>> {
    let mut r = start(dr, &x)?;
    for op in ops {
        exec(dr, op, &mut r, &x, fixed)?;
    }
    Ok(r)
}
/// The accumulator and every point's two coordinates, as elements.
fn elements<'dr, D: Driver<'dr, F = C::Base>, C: Curve_>(dr: &mut D, r: &Regs<'dr, D, C>) -> Vec<Element<'dr, D>> {
    let mut v: Vec<Element<'dr, D>> = vec![r.acc.clone().unwrap()];
    for p in &r.p {
        p.write(dr, &mut v).unwrap();
    }
    v
}
fn flat<F: Field>(n: &Native<F>) -> Vec<F> {
    let mut v = vec![n.acc];
    for p in &n.p {
        let (x, y) = p.unwrap();
        v.extend([x, y]);
    }
    v
}
fn gen_inputs<C: Curve_>(g: &mut Gen) -> Inputs<C> {
    let pool = C::pool();
    Inputs {
        p: (0..4)
            .map(|_| if g.chance(1, 12) { pool[0] } else { pool[1 + g.usize(0, pool.len() - 2)] })
            .collect(),
        b: (0..3).map(|_| g.bool()).collect(),
    }
}
fn gen_op(g: &mut Gen, n: usize, shape: u64) -> Op {
    let p = |g: &mut Gen| g.usize(0, n - 1);
    let k = g.below(shape);
    match k {
        0 | 1 => Op::Alloc(g.usize(0, 3)),
        2 => Op::Constant(g.usize(0, 3)),
        3 => Op::Endo(p(g)),
        4 => Op::Negate(p(g)),
        5 => Op::CondEndo(p(g), g.usize(0, 2)),
        6 => Op::CondNegate(p(g), g.usize(0, 2)),
        7 | 8 => Op::Double(p(g)),
        9 | 10 => Op::Add(p(g), p(g), g.bool()),
        11 | 12 => Op::DoubleAdd(p(g), p(g)),
        13 => Op::Equal(p(g), p(g)),
        _ => Op::Consistent(p(g)),
    }
}
fn gen_prog<C: Curve_>(g: &mut Gen, x: &Inputs<C>, max: usize, bad: bool) -> (Vec<Op>, Native<C::Base>, Out) {
    let mut n = Native { p: vec![], acc: C::Base::ONE };
    let mut ops = vec![];
    if xy(&x.p[0]).is_none() {
        return (vec![Op::Alloc(0)], n, Out::Fails);
    }
    for i in 0..2 {
        if xy(&x.p[i]).is_some() {
            ops.push(Op::Alloc(i));
            eval(&Op::Alloc(i), &mut n, x);
        }
    }
    for _ in 0..g.usize(1, max) {
        let op = gen_op(g, n.p.len(), 15);
        let before = n.clone();
        match eval(&op, &mut n, x) {
            Out::Fine => ops.push(op),
            o if bad && g.chance(1, 2) => {
                ops.push(op);
                return (ops, n, o);
            }
            _ => n = before,
        }
    }
    (ops, n, Out::Fine)
}
fn vals<'dr, D: Driver<'dr, F = C::Base, MaybeKind = Always<()>>, C: Curve_>(dr: &mut D, r: &Regs<'dr, D, C>) -> Vec<C::Base> {
    elements(dr, r).iter().map(|e| *e.value().take()).collect()
}
fn wires<K: Presence, C: Curve_>(dr: &mut Rec<C::Base, K>, r: &Regs<'_, Rec<C::Base, K>, C>) -> Vec<W> {
    elements(dr, r).iter().map(|e| *e.wire()).collect()
}
fn honest_in<C: Curve_>(g: &mut Gen) -> R {
    let x = gen_inputs::<C>(g);
    let (ops, n, out) = gen_prog(g, &x, 10, true);
    note!(g, "{ops:?} on {:?} {:?}: {out:?}", x.p, x.b);
    g.nt(ops.len() > 3);
    g.label(match out {
        Out::Fine => "satisfiable",
        Out::Unsat => "unsatisfied",
        Out::Fails => "no witness",
        Out::Refused => "refused",
    });
    let give = || x.again();
    let mut rec = Rec::<C::Base, Present>::new();
    let got = run(&mut rec, &ops, Present::just(give), &x);
    let sim = Simulator::<C::Base>::simulate(give(), |dr, w| run(dr, &ops, w, &x).map(|_| ()));
    let wired = Emulator::<Wired<C::Base>>::emulate_wired(give(), |dr, w| {
        let r = run(dr, &ops, w, &x)?;
        let w: Vec<C::Base> = elements(dr, &r).iter().map(|e| *e.wire()).collect();
        Ok((vals(dr, &r), w))
    });
    let wireless = Emulator::emulate_wireless(give(), |dr: &mut Emulator<Wireless<Always<()>, C::Base>>, w| {
        let r = run(dr, &ops, w, &x)?;
        Ok((vals(dr, &r), r.p.iter().map(|p| p.value().take()).collect::<Vec<C>>()))
    });
    let mut un = Rec::<C::Base, Absent>::new();
    let un_r = run(&mut un, &ops, Empty, &x);
    let noop = run(&mut PhantomData::<C::Base>, &ops, Empty, &x);
    if out == Out::Refused {
        for (who, e) in [("recorder", got.err()), ("no witness", un_r.err()), ("no-op", noop.err()), ("simulator", sim.err()), ("wired", wired.err()), ("wireless", wireless.err())] {
            ensure!(matches!(&e, Some(Error::InvalidWitness(_))), "{who}: a constant point at infinity: {e:?}");
        }
        return Ok(());
    }
    let un_r = un_r.map_err(|e| format!("without witness: {e}"))?;
    noop.map_err(|e| format!("no-op driver: {e}"))?;
    ensure_eq!(un.value_calls.get(), 0, "values computed without witness");
    if out == Out::Fails {
        for (who, e) in [("recorder", got.err()), ("simulator", sim.err()), ("wired", wired.err()), ("wireless", wireless.err())] {
            ensure!(matches!(&e, Some(Error::InvalidWitness(_))), "{who}: a point that does not exist: {e:?}");
        }
        return Ok(());
    }
    let want = flat(&n);
    let got = got.map_err(|e| format!("recording: {e}"))?;
    ensure!(rec.shape() == un.shape(), "the circuit is different without witness");
    ensure_eq!(vals(&mut rec, &got), want, "values");
    let ws = wires(&mut rec, &got);
    ensure_eq!(ws.iter().map(|w| rec.value(*w)).collect::<Vec<_>>(), want, "wires");
    ensure_eq!(wires(&mut un, &un_r).len(), want.len(), "number of wires");
    let (v, w) = wired.map_err(|e| e.to_string())?;
    ensure_eq!(v, want, "values on the emulator");
    ensure_eq!(w, want, "wires on the emulator");
    let (v, pts) = wireless.map_err(|e| e.to_string())?;
    ensure_eq!(v, want, "values without wires");
    for (p, q) in pts.iter().zip(&n.p) {
        ensure_eq!(xy(p), *q, "the value of a point");
    }
    for (p, q) in got.p.iter().zip(&n.p) {
        ensure_eq!(xy(&p.value().take()), *q, "the value of a point");
        ensure_eq!(p.num_wires().map_err(|e| e.to_string())?, 2, "wires of a point");
    }
    ensure_eq!(rec.satisfied().is_ok(), out == Out::Fine, "satisfied ({:?})", rec.satisfied());
    ensure_eq!(sim.is_ok(), out == Out::Fine, "accepted by the simulator");
    if let Ok(s) = sim {
        ensure_eq!(s.num_gates() + s.num_allocations(), rec.gates, "gates and allocations counted");
        ensure_eq!(s.num_constraints(), rec.constraints.len(), "constraints counted");
    }
    Ok(())
}
fn honest(g: &mut Gen) -> R {
    match g.below(5) {
        0 => honest_in::<EpAffine>(g),
        1 => honest_in::<EqAffine>(g),
        2 => honest_in::<C7>(g),
        3 => honest_in::<C13>(g),
        _ => honest_in::<C31>(g),
    }
}
/// Every satisfying assignment of a short program over a small curve.
fn sound_in<const P: u64, C: Curve_<Base = Gf<P>>>(g: &mut Gen) -> R {
    let x = gen_inputs::<C>(g);
    let (mut ops, n, out) = gen_prog(g, &x, if P > 7 { 2 } else { 4 }, true);
    let last = ops.last().cloned().unwrap();
    note!(g, "field of {P}: {ops:?} on {:?} {:?}: {out:?}", x.p, x.b);
    if out == Out::Refused {
        return Ok(());
    }
    let mut certified = false;
    if out == Out::Fails {
        match last {
            // with the accumulator enforced nonzero, equal x-coordinates are impossible
            Op::Add(i, j, _) => {
                ops.pop();
                ops.push(Op::Add(i, j, true));
                certified = true;
            }
            _ => return Ok(()),
        }
    }
    g.nt(ops.len() > 2);
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let mut r = start::<_, C>(&mut rec, &Empty).map_err(|e| e.to_string())?;
    let mut fixed: Vec<(W, Gf<P>)> = (0..3).map(|i| (*r.b[i].wire(), Gf(x.b[i] as u64))).collect();
    for op in &ops {
        exec(&mut rec, op, &mut r, &Empty, &x).map_err(|e| e.to_string())?;
        if let Op::Alloc(i) = op {
            let k = r.p.len();
            let ws = wires(&mut rec, &r);
            let Some((a, b)) = xy(&x.p[*i]) else { return Ok(()) };
            fixed.push((ws[2 * k - 1], a));
            fixed.push((ws[2 * k], b));
        }
    }
    if certified {
        r.acc.clone().unwrap().invert(&mut rec).map_err(|e| e.to_string())?;
    }
    let outs = wires(&mut rec, &r);
    let Some(all) = solutions(&rec, &fixed, &outs, 40000) else {
        g.label("too many states");
        return Ok(());
    };
    let want: BTreeSet<Vec<Gf<P>>> = if out == Out::Fine { [flat(&n)].into() } else { BTreeSet::new() };
    g.label(if certified {
        "excluded by the accumulator"
    } else if want.is_empty() {
        "no solution"
    } else {
        "one solution"
    });
    ensure_eq!(all, want, "possible results over all satisfying assignments");
    Ok(())
}
fn sound(g: &mut Gen) -> R {
    match g.below(4) {
        0 => sound_in::<31, C31>(g),
        1 => sound_in::<13, C13>(g),
        _ => sound_in::<7, C7>(g),
    }
}
/// What an allocated point can be: exactly the affine points of the curve.
fn alloc_in<const P: u64, C: Curve_<Base = Gf<P>>>(g: &mut Gen) -> R {
    let n = g.usize(1, 1);
    g.nt(n == 1);
    note!(g, "field of {P}");
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let p = Point::<_, C>::alloc(&mut rec, Empty).unwrap();
    let mut v: Vec<Element<'_, _>> = vec![];
    p.write(&mut rec, &mut v).unwrap();
    let ws: Vec<W> = v.iter().map(|e| *e.wire()).collect();
    let all = solutions(&rec, &[], &ws, 1_000_000).unwrap();
    let want: BTreeSet<Vec<Gf<P>>> = Gf::<P>::all()
        .flat_map(|x| Gf::all().map(move |y| vec![x, y]))
        .filter(|v| v[1] * v[1] == v[0] * v[0] * v[0] + C::b())
        .collect();
    ensure_eq!(all, want, "coordinates an allocated point can have");
    ensure_eq!(want.len() + 1, C::pool().len(), "points of the curve");
    Ok(())
}
fn alloc_any(g: &mut Gen) -> R {
    match g.index {
        0 => alloc_in::<7, C7>(g),
        1 => alloc_in::<13, C13>(g),
        _ => alloc_in::<31, C31>(g),
    }
}
/// Over the real curves: outputs are pinned down by the inputs near the honest
/// assignment, and a single changed gate is noticed.
fn tampered_in<C: Curve_>(g: &mut Gen) -> R {
    let x = gen_inputs::<C>(g);
    let (ops, _, out) = gen_prog(g, &x, 6, false);
    note!(g, "{ops:?}");
    if out != Out::Fine {
        return Ok(());
    }
    g.nt(ops.len() > 2);
    let mut rec = Rec::<C::Base, Present>::new();
    let r = run(&mut rec, &ops, Present::just(|| x.again()), &x).map_err(|e| e.to_string())?;
    let ws = wires(&mut rec, &r);
    let mut ins: Vec<W> = r.b.iter().map(|b| *b.wire()).collect();
    let mut k = 0;
    for op in &ops {
        if let Op::Alloc(_) = op {
            ins.extend([ws[1 + 2 * k], ws[2 + 2 * k]]);
        }
        if !matches!(op, Op::Equal(..) | Op::Consistent(_)) {
            k += 1;
        }
    }
    if let Some(k) = rec.free_output(&ins, &ws) {
        return Err(format!("output {k} is not determined by the inputs near the honest assignment"));
    }
    let k = g.usize(0, rec.gates - 1);
    let mut bad = Rec::<C::Base, Present>::with_tamper(vcs::tamper_gate(k, g.below(3), rand_fe(g), rand_fe(g)));
    if let Ok(s) = run(&mut bad, &ops, Present::just(|| x.again()), &x) {
        let wt = wires(&mut bad, &s);
        if bad.satisfied().is_ok() {
            let same_in = ins.iter().all(|w| rec.value(*w) == bad.value(*w));
            let same_out = ws.iter().zip(&wt).all(|(p, q)| rec.value(*p) == bad.value(*q));
            ensure!(!same_in || same_out, "another value at gate {k} goes unnoticed");
        }
    }
    Ok(())
}
fn tampered(g: &mut Gen) -> R {
    if g.bool() { tampered_in::<EpAffine>(g) } else { tampered_in::<EqAffine>(g) }
}
/// All pairs of points of a small curve through both incomplete formulas.
fn all_pairs(g: &mut Gen) -> R {
    let pool = C31::pool();
    let n = pool.len() as u64;
    let (i, j) = ((g.index / n) as usize, (g.index % n) as usize);
    g.nt(i > 0 && j > 0);
    let x = Inputs { p: vec![pool[i], pool[j], pool[i], pool[j]], b: vec![false, true, false] };
    note!(g, "{i} and {j} times the generator");
    let f = |ops: &[Op]| {
        Emulator::emulate_wireless(x.again(), |dr: &mut Emulator<Wireless<Always<()>, Gf<31>>>, w| {
            let r = run(dr, ops, w, &x)?;
            Ok((r.p.last().unwrap().value().take(), *r.acc.unwrap().value().take()))
        })
    };
    let has = i > 0 && j > 0;
    let base = [Op::Alloc(0), Op::Alloc(1)];
    let with = |o: Op| base.iter().cloned().chain([o]).collect::<Vec<_>>();
    let at = |k: usize| pool[k % pool.len()];
    for (what, ops, want) in [
        ("sum", with(Op::Add(0, 1, true)), (has && i != j && i + j != pool.len()).then(|| at(i + j))),
        ("double and add", with(Op::DoubleAdd(0, 1)), (has && i != j && i + j != pool.len() && (2 * i + j) % pool.len() != 0).then(|| at(2 * i + j))),
        ("double", with(Op::Double(0)), has.then(|| at(2 * i))),
        ("negation", with(Op::Negate(1)), has.then(|| at(pool.len() - j))),
    ] {
        match (f(&ops), want) {
            (Ok((p, acc)), Some(q)) => {
                ensure_eq!(p, q, "{what}");
                let d = if what == "sum" { xy(&pool[j]).unwrap().0 - xy(&pool[i]).unwrap().0 } else { Gf(1) };
                ensure_eq!(acc, d, "accumulated difference");
            }
            (Err(Error::InvalidWitness(_)), None) => {}
            (a, b) => return Err(format!("{what}: {a:?}, want {b:?}")),
        }
    }
    Ok(())
}
pub fn points() -> Prop {
    Prop {
        id: "P03",
        subs: vec![
            Sub::new("honest", honest, 500, 60000, "more than three operations"),
            Sub::new("sound", sound, 100, 10000, "more than two operations"),
            Sub::new("tampered", tampered, 40, 6000, "more than two operations"),
            Sub::enumerated("all_pairs", all_pairs, 43 * 43, "both points affine"),
            Sub::enumerated("alloc_any", alloc_any, 3, "always"),
        ],
        assumptions: &[],
    }
}

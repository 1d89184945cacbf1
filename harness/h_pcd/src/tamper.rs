//! Proofs that are wrong in one way, and what becomes of them.
use crate::app::*;
use ff::{Field, PrimeField};
use group::Group;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use ragu_circuits::{
    polynomials::{Rank, sparse::{Polynomial, View}},
    registry::{CircuitIndex, Registry, RegistryBuilder},
    staging::{Stage, StageExt},
};
use ragu_pasta::Pasta;
use ragu_pcd::verif::{self, endoscalar, native, nested};
use std::{collections::HashMap, sync::OnceLock};
use vcs::{VRng, fe, nonzero, rand_fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, note};

const HS: usize = 4;
const B: usize = 0;

/// Honest proofs, of every type of data; children and all.
pub const BASES: usize = 16;
pub fn base(k: usize) -> Val {
    static DONE: [OnceLock<Val>; BASES] = [const { OnceLock::new() }; BASES];
    DONE[k].get_or_init(|| make(k)).clone()
}
fn make(k: usize) -> Val {
    let app = plain();
    let g = &mut Gen::from_seed(77 + k as u64, 0);
    let rng = &mut VRng::of(g);
    let el = |g: &mut Gen| -> Carried<HEl> { app.seed(&mut VRng::of(g), Leaf::<B>, rand_fe(g)).unwrap().0 };
    match k % 8 {
        0 => Val::El(el(g)),
        1 => {
            // one of the two is of a proof and itself
            let l = el(g);
            let r = if k > 8 { l.clone() } else { el(g) };
            Val::Pair(app.fuse(rng, Pairing::<B>, (), l, r).unwrap().0)
        }
        2 => {
            let Val::Pair(l) = base(k - 1) else { unreachable!() };
            let r = el(g);
            Val::Tri(app.fuse(rng, Grow::<B>, rand_fe(g), l, r).unwrap().0)
        }
        3 => {
            let l = app.seed(rng, LeafPt::<B>, a_point(g)).unwrap().0;
            let r = el(g);
            Val::Pt(app.fuse(rng, Turn::<B>, (), l, r).unwrap().0)
        }
        4 => base(k - 3).rerandomize(app, g).unwrap(),
        5 => {
            let l = app.seed(rng, Nothing::<B>, ()).unwrap().0;
            let r = app.seed(rng, Leaf::<B>, if k > 8 { Fp::ZERO } else { Fp::ONE }).unwrap().0;
            Val::Bit(app.fuse(rng, IsZero::<B>, (), l, r).unwrap().0)
        }
        6 => Val::Unit(app.seed(rng, Nothing::<B>, ()).unwrap().0),
        _ => {
            let Val::Pair(l) = base(k - 6) else { unreachable!() };
            let Val::Unit(r) = base(k - 1) else { unreachable!() };
            let q = l.data().0 * l.data().1.invert().unwrap();
            Val::El(app.fuse(rng, Quot::<B>, q, l, r).unwrap().0)
        }
    }
}

/// A polynomial with something in each of the given wires of the given gates.
fn at<F: PrimeField>(g: &mut Gen, gates: std::ops::Range<usize>, wires: u64) -> Polynomial<F, Rk> {
    let mut v = View::<F, Rk, _>::trace();
    for (k, w) in [&mut v.a, &mut v.b, &mut v.c, &mut v.d].into_iter().enumerate() {
        if wires >> k & 1 == 1 {
            w.resize(gates.start, F::ZERO);
            for _ in gates.clone() {
                w.push(rand_fe(g));
            }
        }
    }
    v.build()
}
/// Something all over the gates but the first.
fn dense<F: PrimeField>(g: &mut Gen) -> Polynomial<F, Rk> {
    let s: u64 = g.u64();
    let mut r = Gen::from_seed(s, 0);
    at(&mut r, 1..Rk::n(), 15)
}
fn add<F: PrimeField>(p: &mut Polynomial<F, Rk>, d: &Polynomial<F, Rk>, times: F) {
    let mut d = d.clone();
    d.scale(times);
    p.add_assign(&d);
}
fn other_point<C: pasta_curves::arithmetic::CurveAffine>(g: &mut Gen, old: &C) -> C {
    use group::Curve;
    loop {
        let p: C::CurveExt = match g.below(4) {
            0 => -old.to_curve(),
            1 => C::CurveExt::generator() + *old,
            2 => old.to_curve().double(),
            _ => C::CurveExt::generator() * C::ScalarExt::from(g.u64() | 1),
        };
        let p = p.to_affine();
        if p != *old && !bool::from(group::prime::PrimeCurveAffine::is_identity(&p)) {
            return p;
        }
    }
}
fn other_scalar(g: &mut Gen, old: Fp) -> Fp {
    loop {
        let x = match g.below(5) {
            0 => Fp::ZERO,
            1 => -old,
            2 => old + Fp::ONE,
            3 => Fp::ONE,
            _ => rand_fe(g),
        };
        if x != old {
            return x;
        }
    }
}

/// Other data than what the proof is of.
fn lie(g: &mut Gen, m: Model) -> Model {
    let n = match m {
        Model::Unit => Model::El(rand_fe(g)),
        _ if g.chance(1, 5) => Model::Unit,
        Model::El(a) => match g.below(3) {
            0 => Model::Pair(a, Fp::ZERO),
            1 if a == Fp::ZERO || a == Fp::ONE => Model::Bit(a == Fp::ONE),
            _ => Model::El(other_scalar(g, a)),
        },
        Model::Pair(a, b) => match g.below(4) {
            0 if a != b => Model::Pair(b, a),
            1 => Model::Tri(a, b, Fp::ZERO),
            2 => Model::Pair(a, other_scalar(g, b)),
            _ => Model::Pair(other_scalar(g, a), b),
        },
        Model::Tri(a, b, c) => match g.below(3) {
            0 => Model::Tri(other_scalar(g, a), b, c),
            1 => Model::Tri(a, other_scalar(g, b), c),
            _ => Model::Tri(a, b, other_scalar(g, c)),
        },
        Model::Bit(b) => match g.below(2) {
            0 => Model::El(Fp::from(b as u64)),
            _ => Model::Bit(!b),
        },
        Model::Pt(p) => match g.below(2) {
            0 => {
                use pasta_curves::arithmetic::CurveAffine as _;
                let c = p.coordinates().unwrap();
                Model::Pair(*c.x(), *c.y())
            }
            _ => Model::Pt(other_point(g, &p)),
        },
    };
    assert!(n != m);
    n
}
/// The proof as it is verifies; with `what` changed it must not.
fn refused(g: &mut Gen, v: &Val, what: &str) -> R {
    refused_by(g, plain(), v, what)
}
fn refused_by(g: &mut Gen, app: &App<HS>, v: &Val, what: &str) -> R {
    match catches(|| v.verify(app, g)) {
        Ok(Ok(false)) => Ok(()),
        Ok(Err(e)) => Err(format!("a proof with {what} is answered with an error, not refused: {e}")),
        Ok(Ok(true)) => Err(format!("a proof is accepted with {what}")),
        Err(p) => Err(format!("a proof with {what} is answered with a panic: {p}")),
    }
}

/// The proof is of other things than claimed.
fn claims(g: &mut Gen) -> R {
    let k = g.usize(0, BASES - 1);
    let v = base(k);
    let m = v.model();
    note!(g, "proof {k} of {m:?}");
    g.nt(true);
    ensure!(matches!(v.verify(plain(), g), Ok(true)), "an honest proof of {m:?} does not verify");
    // lengths: these are refused before anything else is looked at
    for side in 0..2 {
        for by in [-4i32, -2, -1, 1, 2, 60] {
            let mut p = v.proof();
            let h = verif::parts(&mut p).headers.into_iter().nth(side).unwrap();
            let to = (h.len() as i32 + by).max(0) as usize;
            if to > h.len() && g.bool() {
                h.insert(0, Fp::ZERO);
            }
            h.resize(to, Fp::ZERO);
            refused(g, &Val::carry(m, p), &format!("the header of child {side} of another length, {to}"))?;
        }
    }
    for _ in 0..4 {
        match g.below(7) {
            0 | 1 => {
                let n = lie(g, m);
                note!(g, "as {n:?}");
                refused(g, &Val::carry(n, v.proof()), &format!("{n:?} for {m:?}"))?;
            }
            2 => {
                // the same elements under another suffix
                let r = match m {
                    Model::El(a) => plain().verify(&v.proof().carry::<HElB>(a), VRng::of(g)),
                    Model::Pair(a, b) => plain().verify(&v.proof().carry::<HPairB>((a, b)), VRng::of(g)),
                    _ => continue,
                };
                note!(g, "suffix");
                ensure!(!matches!(r, Ok(true)), "a proof is accepted for another header of the same elements {m:?}");
            }
            3 => {
                let mut p = v.proof();
                let q = verif::parts(&mut p);
                let side = g.usize(0, 1);
                let h = q.headers.into_iter().nth(side).unwrap();
                let i = g.usize(0, h.len() - 1);
                h[i] = other_scalar(g, h[i]);
                note!(g, "header {side} changed at {i}");
                refused(g, &Val::carry(m, p), &format!("the header of child {side} changed at {i}"))?;
            }
            4 => {
                let mut p = v.proof();
                let mut h = verif::parts(&mut p).headers;
                if *h[0] == *h[1] {
                    continue;
                }
                let (a, b) = h.split_at_mut(1);
                std::mem::swap(a[0], b[0]);
                note!(g, "headers swapped");
                refused(g, &Val::carry(m, p), "the headers of the children swapped")?;
            }
            5 => {
                let mut p = v.proof();
                let q = verif::parts(&mut p);
                let to = match g.below(4) {
                    0 => CircuitIndex::new(*g.pick(&[32usize, 26, 1 << 20, u32::MAX as usize])),
                    1 => CircuitIndex::new(g.usize(0, 12)),
                    _ => CircuitIndex::new(g.usize(13, 25)),
                };
                if to == *q.circuit_id {
                    continue;
                }
                *q.circuit_id = to;
                note!(g, "circuit {to:?}");
                refused(g, &Val::carry(m, p), &format!("circuit {to:?}"))?;
            }
            _ => {
                note!(g, "another application");
                refused_by(g, full(), &v, "an application it is not of")?;
            }
        }
    }
    Ok(())
}
/// A step whose witness is false still makes a proof, which proves nothing.
fn witness(g: &mut Gen) -> R {
    let app = plain();
    let pool = vec![base(1 + 8 * g.usize(0, 1)), base(6)];
    let o = apply::<HS, B>(g, app, &pool, true).unwrap();
    note!(g, "{} of {:?} to {:?}", o.step, o.inputs, o.model);
    g.nt(true);
    let Ok(v) = o.val else { return Ok(()) };
    refused(g, &v, "a false witness")?;
    let r = catches(|| v.clone().rerandomize(app, g).and_then(|v| v.verify(app, g)));
    ensure!(!matches!(r, Ok(Ok(true))), "a proof of a false witness is accepted once rerandomized");
    // an honest step on top
    let Val::El(l) = v else { unreachable!() };
    let Val::El(r) = base(0) else { unreachable!() };
    let (l, r) = if g.bool() { (l, r) } else { (r, l) };
    let r = catches(|| app.fuse(&mut VRng::of(g), Pairing::<B>, (), l, r).and_then(|p| app.verify(&p.0, VRng::of(g))));
    ensure!(!matches!(r, Ok(Ok(true))), "a proof of a false witness is accepted below another");
    Ok(())
}

/// What the verifier of the proof itself does not look at.
const DEFERRED: [&str; 4] = ["registry_wx0", "registry_wx1", "registry_wy", "f"];
/// Changes some part; gives what was changed.
fn change(g: &mut Gen, p: &mut Pf, other: &Pf, below: bool) -> Option<String> {
    let mut other = other.clone();
    let o = verif::parts(&mut other);
    let q = verif::parts(p);
    Some(match g.below(8) {
        0 => {
            let (n, s) = g_pick(g, q.scalars);
            let x = *o.scalars.iter().find(|x| x.0 == n).unwrap().1;
            *s = if g.chance(1, 4) && x != *s { x } else { other_scalar(g, *s) };
            format!("another {n}")
        }
        1 => {
            let (n, c) = g_pick(g, q.bridges);
            let x = *o.bridges.iter().find(|x| x.0 == n).unwrap().1;
            *c = if g.chance(1, 4) && x != *c { x } else { other_point::<EpAffine>(g, c) };
            format!("another commitment to {n}")
        }
        2 => {
            let only = |n: &str| if below { !DEFERRED.contains(&n) } else { n == "p" };
            let (n, c) = g_pick(g, q.host.into_iter().filter(|x| only(x.0)).collect());
            let x = *o.host.iter().find(|x| x.0 == n).unwrap().1;
            *c = if g.chance(1, 4) && x != *c { x } else { other_point::<EqAffine>(g, c) };
            format!("another commitment to {n}")
        }
        3 | 4 | 5 => {
            let mut at: Vec<_> = q.native.into_iter().filter(|x| !DEFERRED.contains(&x.0)).collect();
            let (i, j) = (g.usize(0, at.len() - 1), g.usize(0, at.len() - 1));
            let n = at[i].0;
            match g.below(6) {
                0 => {
                    *at[i].1 = o.native.iter().find(|x| x.0 == n).unwrap().1.clone();
                    format!("{n} of another proof")
                }
                1 => {
                    *at[i].1 = Polynomial::new();
                    format!("no {n}")
                }
                2 if i != j && !["a", "b"].contains(&n) => {
                    let m = at[j].0;
                    let y = at[j].1.clone();
                    let x = std::mem::replace(at[i].1, y);
                    *at[j].1 = x;
                    format!("{n} and {m} swapped")
                }
                3 => {
                    at[i].1.scale(if g.bool() { -Fp::ONE } else { Fp::from(g.range(2, 9)) });
                    format!("{n} scaled")
                }
                _ => {
                    let d = dense(g);
                    add(at[i].1, &d, Fp::ONE);
                    format!("{n} changed")
                }
            }
        }
        6 if !below => {
            // the bridges may be anything that fits in their stages
            let mut at: Vec<_> = q.nested.into_iter().enumerate().collect();
            let (i, j) = (g.usize(0, at.len() - 1), g.usize(8, at.len() - 1));
            let n = at[i].1.0;
            match g.below(4) {
                0 if i >= 8 => {
                    *at[i].1.1 = o.nested[i].1.clone();
                    format!("{n} ({i}) of another proof")
                }
                1 if i >= 8 && i != j => {
                    let y = at[j].1.1.clone();
                    let x = std::mem::replace(&mut *at[i].1.1, y);
                    *at[j].1.1 = x;
                    format!("nested parts {i} and {j} swapped")
                }
                2 if i >= 8 => {
                    *at[i].1.1 = Polynomial::new();
                    format!("no {n} ({i})")
                }
                _ => {
                    let d = dense::<Fq>(g);
                    add(at[i].1.1, &d, Fq::ONE);
                    format!("{n} ({i}) changed")
                }
            }
        }
        7 => {
            // a product with the same value and other factors is one of another claim
            let c = nonzero::<Fp>(g);
            if c == Fp::ONE {
                return None;
            }
            for (n, s) in q.scalars {
                if n == "c" {
                    if *s == Fp::ZERO {
                        return None;
                    }
                    *s *= c;
                }
            }
            for (n, p) in q.native {
                if n == "a" {
                    p.scale(c);
                }
            }
            "a and c scaled".into()
        }
        _ => return None,
    })
}
fn g_pick<T>(g: &mut Gen, mut v: Vec<T>) -> T {
    let k = g.usize(0, v.len() - 1);
    v.swap_remove(k)
}
fn parts(g: &mut Gen) -> R {
    let k = g.usize(0, BASES - 1);
    let (v, o) = (base(k), base((k + 8) % BASES));
    let m = v.model();
    note!(g, "proof {k} of {m:?}");
    for _ in 0..6 {
        let mut p = v.proof();
        let Some(what) = change(g, &mut p, &o.proof(), false) else { continue };
        note!(g, "{what}");
        g.nt(true);
        refused(g, &Val::carry(m, p), &what)?;
    }
    Ok(())
}
/// Wrong in a way that only one of the checks on the opened polynomial can see.
fn opened(g: &mut Gen) -> R {
    use ragu_arithmetic::Cycle;
    let k = g.usize(0, BASES - 1);
    let v = base(k);
    let m = v.model();
    note!(g, "proof {k} of {m:?}");
    for _ in 0..4 {
        let mut p = v.proof();
        let q = verif::parts(&mut p);
        let sc: HashMap<&str, &mut Fp> = q.scalars.into_iter().collect();
        let u = *sc["u"];
        let mut nat: HashMap<&str, &mut Polynomial<Fp, Rk>> = q.native.into_iter().collect();
        let poly = nat.remove("p").unwrap();
        let rxy = nat.remove("registry_xy").unwrap();
        let com = q.host.into_iter().find(|x| x.0 == "p").unwrap().1;
        // one or two coefficients, or all of them
        let mut d: Polynomial<Fp, Rk> = match g.below(3) {
            0 => dense(g),
            n => {
                let mut c = vec![Fp::ZERO; Rk::num_coeffs()];
                for _ in 0..n {
                    let i = match g.below(4) {
                        0 => 0,
                        1 => Rk::num_coeffs() - 1,
                        _ => g.usize(0, Rk::num_coeffs() - 1),
                    };
                    c[i] = other_scalar(g, Fp::ZERO);
                }
                Polynomial::from_coeffs(c)
            }
        };
        let at_u = d.eval(u);
        if at_u == Fp::ZERO {
            continue;
        }
        let what = if g.chance(1, 4) {
            // a restriction of the registry that is wrong but at one special point
            let w0 = match g.below(6) {
                0 => Fp::ZERO,
                1 => Fp::ONE,
                2 => -Fp::ONE,
                3 => *sc["w"],
                4 => *sc["x"],
                _ => CircuitIndex::new(g.usize(0, 20)).omega_j(),
            };
            let mut c = d.iter_coeffs().collect::<Vec<_>>();
            c[Rk::num_coeffs() - 1] = Fp::ZERO;
            // times X - w0
            for i in (0..c.len()).rev() {
                c[i] = if i == 0 { Fp::ZERO } else { c[i - 1] } - c[i] * w0;
            }
            if c.iter().all(|x| *x == Fp::ZERO) {
                continue;
            }
            add(rxy, &Polynomial::from_coeffs(c), Fp::ONE);
            "another restriction of the registry that is right at one point"
        } else if g.bool() {
            add(poly, &d, Fp::ONE);
            *com = poly.commit_to_affine(Pasta::host_generators(Pasta::baked()));
            "another p, well committed to, that is not v at u"
        } else {
            // the same value at u
            let mut c = vec![Fp::ZERO; Rk::num_coeffs()];
            let i = g.usize(0, Rk::num_coeffs() - 1);
            c[i] = Fp::ONE;
            let e = Polynomial::<Fp, Rk>::from_coeffs(c);
            let Some(r) = Option::<Fp>::from(e.eval(u).invert()) else { continue };
            add(&mut d, &e, -at_u * r);
            if d.iter_coeffs().all(|c| c == Fp::ZERO) {
                continue;
            }
            add(poly, &d, Fp::ONE);
            "another p, with the value v at u, under the commitment of p"
        };
        note!(g, "{what}");
        g.nt(true);
        refused(g, &Val::carry(m, p), what)?;
    }
    Ok(())
}
type NS<S> = (usize, usize, std::marker::PhantomData<S>);
fn region<F: Field, S: Stage<F, Rk>>() -> NS<S> {
    let s = S::skip_gates();
    (s, s + <S as StageExt<F, Rk>>::num_gates(), std::marker::PhantomData)
}
/// What a circuit's claim is about besides its own trace.
const CLAIMS: [(&str, &[&str]); 5] = [
    ("hashes_1", &["preamble", "outer_error"]),
    ("hashes_2", &["outer_error"]),
    ("inner_collapse", &["preamble", "inner_error", "outer_error"]),
    ("outer_collapse", &["preamble", "outer_error"]),
    ("compute_v", &["preamble", "query", "eval"]),
];
/// Moves something between traces so that their sums are as before.
fn moved(g: &mut Gen) -> R {
    use native::stages as st;
    type P = native::RevdotParameters;
    let k = g.usize(0, BASES - 1);
    let v = base(k);
    let m = v.model();
    note!(g, "proof {k} of {m:?}");
    let pre = region::<Fp, st::preamble::Stage<Pasta, Rk, HS>>();
    let inner = region::<Fp, st::inner_error::Stage<Pasta, Rk, HS, P>>();
    let outer = region::<Fp, st::outer_error::Stage<Pasta, Rk, HS, P>>();
    let query = region::<Fp, st::query::Stage<Pasta, Rk, HS>>();
    let eval = region::<Fp, st::eval::Stage<Pasta, Rk, HS>>();
    let stages = [("preamble", pre.0, pre.1), ("inner_error", inner.0, inner.1), ("outer_error", outer.0, outer.1), ("query", query.0, query.1), ("eval", eval.0, eval.1)];
    let en = region::<Fq, endoscalar::EndoscalarStage>();
    let pt = region::<Fq, endoscalar::PointsStage<EqAffine, { nested::NUM_ENDOSCALING_POINTS }>>();
    for _ in 0..4 {
        let mut p = v.proof();
        let q = verif::parts(&mut p);
        let mut nat: HashMap<&str, &mut Polynomial<Fp, Rk>> = q.native.into_iter().collect();
        let wires = g.range(1, 15);
        let within = |g: &mut Gen, lo: usize, hi: usize| {
            let s = g.usize(lo, hi - 1);
            s..g.usize(s + 1, hi.min(s + 3))
        };
        let what = match g.below(6) {
            0 | 1 => {
                // out of a stage, into the circuits
                let (n, lo, hi) = *g.pick(&stages);
                let r = within(g, lo, hi);
                let d = at::<Fp>(g, r.clone(), wires);
                add(nat.get_mut(n).unwrap(), &d, -Fp::ONE);
                for (c, s) in CLAIMS {
                    if s.contains(&n) {
                        add(nat.get_mut(c).unwrap(), &d, Fp::ONE);
                    }
                }
                format!("gates {r:?} (wires {wires:04b}) of {n} moved to the circuits")
            }
            2 => {
                // out of the circuits, into a stage that is over by then
                let (n, _, hi) = *g.pick(&stages);
                let top = stages.iter().map(|s| s.2).max().unwrap();
                let r = match g.below(3) {
                    0 => within(g, hi, hi + 1),
                    1 => within(g, top, Rk::n()),
                    _ => within(g, hi, Rk::n()),
                };
                let d = at::<Fp>(g, r.clone(), wires);
                add(nat.get_mut(n).unwrap(), &d, Fp::ONE);
                for (c, s) in CLAIMS {
                    if s.contains(&n) {
                        add(nat.get_mut(c).unwrap(), &d, -Fp::ONE);
                    }
                }
                format!("gates {r:?} (wires {wires:04b}) of the circuits moved to {n}")
            }
            3 => {
                let (a, b) = if g.bool() { ("query", "eval") } else { ("eval", "query") };
                let (lo, hi) = if g.bool() { (query.0, query.1) } else { (eval.0, eval.1) };
                let r = within(g, lo, hi);
                let d = at::<Fp>(g, r.clone(), wires);
                add(nat.get_mut(a).unwrap(), &d, Fp::ONE);
                add(nat.get_mut(b).unwrap(), &d, -Fp::ONE);
                format!("gates {r:?} (wires {wires:04b}) of {b} moved to {a}")
            }
            _ => {
                let mut nes: Vec<_> = q.nested.into_iter().map(|x| x.1).collect();
                let d;
                let (e, s) = (8, 9);
                let (w, steps, endo, pts) = match g.below(4) {
                    0 => {
                        let r = within(g, pt.0, pt.1);
                        d = at::<Fq>(g, r.clone(), wires);
                        (format!("gates {r:?} of the points moved to the steps"), Fq::ONE, Fq::ZERO, -Fq::ONE)
                    }
                    1 => {
                        let r = within(g, en.0, en.1);
                        d = at::<Fq>(g, r.clone(), wires);
                        (format!("gates {r:?} of the endoscalar moved to the steps"), Fq::ONE, -Fq::ONE, Fq::ZERO)
                    }
                    2 => {
                        let r = if g.bool() { within(g, pt.1, pt.1 + 1) } else { within(g, pt.1, Rk::n()) };
                        d = at::<Fq>(g, r.clone(), wires);
                        let e = g.bool();
                        (format!("gates {r:?} of the steps moved to {}", if e { "the endoscalar" } else { "the points" }), -Fq::ONE, if e { Fq::ONE } else { Fq::ZERO }, if e { Fq::ZERO } else { Fq::ONE })
                    }
                    _ => {
                        let (lo, hi) = if g.bool() { (en.0, en.1) } else { (pt.0, pt.1) };
                        let r = within(g, lo, hi);
                        d = at::<Fq>(g, r.clone(), wires);
                        let s = if lo == en.0 { Fq::ONE } else { -Fq::ONE };
                        (format!("gates {r:?} of the points and the endoscalar moved"), Fq::ZERO, -s, s)
                    }
                };
                add(nes[e], &d, endo);
                add(nes[s], &d, pts);
                for i in 10..nes.len() {
                    add(nes[i], &d, steps);
                }
                format!("{w} (wires {wires:04b})")
            }
        };
        note!(g, "{what}");
        g.nt(true);
        refused(g, &Val::carry(m, p), &what)?;
    }
    Ok(())
}
/// A circuit's own trace says something where only the stages may.
fn beneath(g: &mut Gen) -> R {
    use native::stages as st;
    type P = native::RevdotParameters;
    let k = g.usize(0, BASES - 1);
    let v = base(k);
    let m = v.model();
    note!(g, "proof {k} of {m:?}");
    let outer = region::<Fp, st::outer_error::Stage<Pasta, Rk, HS, P>>().1;
    let inner = region::<Fp, st::inner_error::Stage<Pasta, Rk, HS, P>>().1;
    let eval = region::<Fp, st::eval::Stage<Pasta, Rk, HS>>().1;
    let tops = [("hashes_1", outer), ("hashes_2", outer), ("inner_collapse", inner.max(outer)), ("outer_collapse", outer), ("compute_v", eval)];
    let pt = region::<Fq, endoscalar::PointsStage<EqAffine, { nested::NUM_ENDOSCALING_POINTS }>>();
    let en = region::<Fq, endoscalar::EndoscalarStage>();
    for i in 0..8 {
        let mut p = v.proof();
        let q = verif::parts(&mut p);
        // one wire of the gate, so that what the gate says of its wires may go on holding
        let wires = 1 << g.below(4);
        let what = if i < 5 {
            let (n, top) = tops[i];
            let gate = g.usize(1, top - 1);
            let d = at::<Fp>(g, gate..gate + 1, wires);
            add(q.native.into_iter().find(|x| x.0 == n).unwrap().1, &d, Fp::ONE);
            format!("{n} with wire {wires:04b} of gate {gate}, of a stage")
        } else {
            let mut steps: Vec<_> = q.nested.into_iter().filter(|x| x.0 == "endoscaling_step").map(|x| x.1).collect();
            // the first, the last and one in between
            let j = match i {
                5 => 0,
                6 => steps.len() - 1,
                _ => g.usize(0, steps.len() - 1),
            };
            // the gate of a bit that is not set leaves its first wire free
            let gate = if g.chance(3, 4) { g.usize(en.0, en.1 - 1) } else { g.usize(1, pt.1 - 1) };
            let wires = if g.chance(3, 4) { 1 } else { wires };
            let d = at::<Fq>(g, gate..gate + 1, wires);
            add(steps[j], &d, Fq::ONE);
            format!("endoscaling step {j} with wire {wires:04b} of gate {gate}, of a stage")
        };
        note!(g, "{what}");
        g.nt(true);
        refused(g, &Val::carry(m, p), &what)?;
    }
    // two traces under one mask, so that their sum or difference is as before
    for nested in [false, true] {
        let mut p = v.proof();
        let q = verif::parts(&mut p);
        let sign = if g.chance(1, 4) { Fp::ONE } else { -Fp::ONE };
        let what = if nested {
            let mut steps: Vec<_> = q.nested.into_iter().filter(|x| x.0 == "endoscaling_step").map(|x| x.1).collect();
            let i = g.usize(0, steps.len() - 2);
            let j = if g.bool() { i + 1 } else { g.usize(i + 1, steps.len() - 1) };
            let gate = g.usize(1, pt.1 - 1);
            let d = at::<Fq>(g, gate..gate + 1, 8);
            add(steps[i], &d, Fq::ONE);
            add(steps[j], &d, if sign == Fp::ONE { Fq::ONE } else { -Fq::ONE });
            format!("endoscaling steps {i} and {j} opposed in gate {gate}, of a stage")
        } else {
            let mut nat: HashMap<&str, &mut Polynomial<Fp, Rk>> = q.native.into_iter().collect();
            let (a, b) = *g.pick(&[("hashes_1", "hashes_2"), ("hashes_2", "outer_collapse"), ("hashes_1", "outer_collapse")]);
            let gate = g.usize(1, outer - 1);
            let d = at::<Fp>(g, gate..gate + 1, 8);
            add(nat.get_mut(a).unwrap(), &d, Fp::ONE);
            add(nat.get_mut(b).unwrap(), &d, sign);
            format!("{a} and {b} opposed in gate {gate}, of a stage")
        };
        note!(g, "{what}");
        g.nt(true);
        refused(g, &Val::carry(m, p), &what)?;
    }
    Ok(())
}
/// The circuits of the other field, as the verifier knows them.
fn nested_registry() -> &'static Registry<'static, Fq, Rk> {
    static R: OnceLock<Registry<'static, Fq, Rk>> = OnceLock::new();
    R.get_or_init(|| nested::register_all::<Pasta, Rk>(RegistryBuilder::new()).unwrap().finalize().unwrap())
}
/// Where in a trace the wires of gates are.
fn places() -> &'static [[usize; 4]] {
    static P: OnceLock<Vec<[usize; 4]>> = OnceLock::new();
    P.get_or_init(|| {
        let n = Rk::n() as u64;
        let mut v = View::<Fq, Rk, _>::trace();
        for (k, w) in [&mut v.a, &mut v.b, &mut v.c, &mut v.d].into_iter().enumerate() {
            w.extend((0..n).map(|i| Fq::from(1 + k as u64 * n + i)));
        }
        let mut out = vec![[0; 4]; n as usize];
        let at: HashMap<Vec<u8>, (usize, usize)> = (0..4).flat_map(|k| (0..n as usize).map(move |i| (Fq::from(1 + k as u64 * n + i as u64).to_repr().as_ref().to_vec(), (i, k as usize)))).collect();
        for (pos, c) in v.build().iter_coeffs().enumerate() {
            if let Some(&(i, k)) = at.get(c.to_repr().as_ref()) {
                out[i][k] = pos;
            }
        }
        out
    })
}
fn one_wire(gate: usize, wire: usize, x: Fq) -> Polynomial<Fq, Rk> {
    let mut v = View::<Fq, Rk, _>::trace();
    let w = [&mut v.a, &mut v.b, &mut v.c, &mut v.d].into_iter().nth(wire).unwrap();
    w.resize(gate, Fq::ZERO);
    w.push(x);
    v.build()
}
/// Endoscaling traces that break rules in ways that cancel out for some choice
/// of the verifier's randomness.
fn bent(g: &mut Gen) -> R {
    let k = g.usize(0, BASES - 1);
    let v = base(k);
    let m = v.model();
    let mut p = v.proof();
    let rest = region::<Fq, endoscalar::PointsStage<EqAffine, { nested::NUM_ENDOSCALING_POINTS }>>().1;
    let q = verif::parts(&mut p);
    let mut steps: Vec<_> = q.nested.into_iter().filter(|x| x.0 == "endoscaling_step").map(|x| x.1).collect();
    let j = g.usize(0, steps.len() - 1);
    let r: Vec<Fq> = steps[j].iter_coeffs().collect();
    let at = places();
    // gates that hold whatever their second and fourth wires are
    let free: Vec<usize> = (rest..Rk::n()).filter(|&i| r[at[i][0]] == Fq::ZERO && r[at[i][2]] == Fq::ZERO && r[at[i][1]] != Fq::ZERO).collect();
    ensure!(free.len() > 1, "endoscaling step {j} has no gates of the kind looked for");
    let special = [Fq::ONE, -Fq::ONE, Fq::from(2), Fq::TWO_INV, Fq::ZERO];
    let at_first = (g.index < 10).then_some(g.index as usize);
    let t = at_first.map_or_else(
        || match g.below(8) {
            0..5 => *g.pick(&special),
            5 => Fq::ROOT_OF_UNITY.pow_vartime([1 << g.below(31)]),
            _ => Fq::from(g.u64()),
        },
        |i| special[i / 2],
    );
    let a = *g.pick(&free);
    let b = if g.bool() { *free.iter().find(|&&x| x > a).unwrap_or(&free[0]) } else { *g.pick(&free) };
    if a == b {
        g.label("one gate");
        return Ok(());
    }
    let x: Fq = nonzero(g);
    let what = if at_first.map_or_else(|| g.bool(), |i| i % 2 == 0) {
        // constraints
        let id = nested::InternalCircuitIndex::EndoscalingStep(j as u32).circuit_index();
        let coeff = |y: Fq| -> Vec<Fq> { nested_registry().circuit_y(id, y).iter_coeffs().collect() };
        let (here, there) = (coeff(t), coeff(rand_fe(g)));
        let w = |s: &[Fq], i: usize, wire: usize| s[4 * Rk::n() - 1 - at[i][wire]];
        // wires that are in some constraint, near each other or not
        let seen: Vec<(usize, usize)> = free.iter().flat_map(|&i| [(i, 1), (i, 3)]).filter(|&(i, k)| w(&there, i, k) != Fq::ZERO).collect();
        if seen.len() < 2 {
            g.label("no wires");
            return Ok(());
        }
        let n = g.usize(0, seen.len() - 2);
        let ((a, wa), (b, wb)) = (seen[n], if g.bool() { seen[n + 1] } else { seen[g.usize(n + 1, seen.len() - 1)] });
        let (mut da, mut db) = (x * w(&here, b, wb), -x * w(&here, a, wa));
        if da == Fq::ZERO && db == Fq::ZERO {
            // neither is seen there
            (da, db) = (x, rand_fe(g));
        }
        if da * w(&there, a, wa) + db * w(&there, b, wb) == Fq::ZERO {
            g.label("free wires");
            return Ok(());
        }
        add(steps[j], &one_wire(a, wa, da), Fq::ONE);
        add(steps[j], &one_wire(b, wb, db), Fq::ONE);
        g.label("constraints");
        format!("wire {wa} of gate {a} and wire {wb} of gate {b} of endoscaling step {j} breaking constraints that cancel at y = {t:?}")
    } else {
        // gates: the first wire of a gate that only hands out two values is nobody's
        let by = |n: i64| if n >= 0 { t.pow_vartime([n as u64]) } else { t.invert().unwrap_or(Fq::ZERO).pow_vartime([-n as u64]) };
        let n = if g.bool() { a as i64 - b as i64 } else { b as i64 - a as i64 };
        add(steps[j], &one_wire(a, 0, x * r[at[a][1]].invert().unwrap()), Fq::ONE);
        add(steps[j], &one_wire(b, 0, -x * by(n) * r[at[b][1]].invert().unwrap()), Fq::ONE);
        g.label("gates");
        format!("gates {a} and {b} of endoscaling step {j} broken in ways that cancel at z = {t:?}")
    };
    note!(g, "proof {k} of {m:?}, {what}");
    g.nt(true);
    refused(g, &Val::carry(m, p), &what)
}
/// Every polynomial the verifier looks at, changed all over.
fn each(g: &mut Gen) -> R {
    let k = g.usize(0, BASES - 1);
    let v = base(k);
    let m = v.model();
    note!(g, "proof {k} of {m:?}");
    let (mut p, s) = (v.proof(), g.u64());
    let q = verif::parts(&mut p);
    let (n, t) = (q.native.len(), q.nested.len());
    for i in 0..n + t {
        let mut p = v.proof();
        let q = verif::parts(&mut p);
        let mut r = Gen::from_seed(s, 0);
        let name = if i < n {
            let (name, poly) = q.native.into_iter().nth(i).unwrap();
            if ["registry_wx0", "registry_wx1", "registry_wy", "f"].contains(&name) {
                continue;
            }
            add(poly, &at(&mut r, 1..Rk::n(), 15), Fp::ONE);
            name
        } else {
            let (name, poly) = q.nested.into_iter().nth(i - n).unwrap();
            add(poly, &at(&mut r, 1..Rk::n(), 15), Fq::ONE);
            name
        };
        g.nt(true);
        refused(g, &Val::carry(m, p), &format!("{name} (polynomial {i}) changed"))?;
    }
    Ok(())
}
pub fn own() -> Prop {
    Prop {
        id: "T02",
        subs: vec![
            Sub::new("claims", claims, 28, 800, "an honest proof (16, of every type of data, with children or rerandomized), with either child's header of six other lengths, then four times: other data, another header with the same elements, a changed or swapped child header, another circuit (in the registry or not), or an application that registers one more step; never accepted"),
            Sub::new("witness", witness, 16, 300, "a step made with a false witness: the proof, its rerandomization and an honest step on top are never accepted"),
            Sub::new("parts", parts, 28, 800, "six times: a challenge, c, v, a bridge commitment, the commitment of p, or a polynomial of either field changed, removed, scaled, swapped with another, or taken from another proof; never accepted"),
            Sub::new("crooked", crate::crook::crooked, 32, 800, "a step with up to four broken gates (of either kind) or constraints, or one of each, whose errors cancel if neighbouring rules weigh in a special proportion (1, -1, 2, 1/2, a root of unity, 0, ...); the proof and its rerandomization are never accepted; one in eight is honest and has to be"),
            Sub::new("opened", opened, 16, 400, "four times: p changed in one, two or all coefficients, either committed to anew (so that only its value at u can tell) or keeping its value at u (so that only its commitment can tell), or the restriction of the registry changed but for its value at one special point; never accepted"),
            Sub::new("beneath", beneath, 20, 500, "for each circuit of the verifier and for the first, the last and any one endoscaling step: one wire of one gate that belongs to a stage set by the circuit's own trace, or the same by two traces under one mask with opposite or equal values; never accepted"),
            Sub::new("bent", bent, 24, 800, "an endoscaling trace with two wires changed so that constraints, or gates, are broken in ways that cancel if neighbouring rules weigh in a special proportion; never accepted"),
            Sub::new("each", each, 2, 50, "each polynomial the verifier checks in turn, of both fields, changed all over; never accepted"),
            Sub::new("moved", moved, 28, 800, "four times: one to three gates (any wires) moved between a stage and the circuits that share it, or between stages, so that every circuit's claim holds as before and only the stage masks can tell; never accepted"),
        ],
        assumptions: &[
            "the verifier leaves to the parent (and the code says so): registry_wx0, registry_wx1, registry_wy, f, commitments other than of p and the bridges, and what the bridge polynomials say within their stages",
            "a false claim passes with probability below 2^-200 over the verifier's randomness",
        ],
    }
}

/// Whatever is wrong with a child is wrong with its parent.
fn children(g: &mut Gen) -> R {
    let app = plain();
    let (k, j) = (*g.pick(&[0usize, 7, 8, 15]), *g.pick(&[0usize, 7, 8, 15]));
    let (v, w) = (base(k), base(j));
    let m = v.model();
    let Val::El(w) = w else { unreachable!() };
    note!(g, "proof {k} of {m:?}, beside {j}");
    for _ in 0..3 {
        let mut p = v.proof();
        let other = base((k + 8) % BASES).proof();
        let mut m2 = m;
        let what = match g.below(5) {
            0 => {
                let Model::El(a) = m else { unreachable!() };
                m2 = Model::El(other_scalar(g, a));
                format!("{m2:?} for {m:?}")
            }
            1 => match g.below(3) {
                0 => {
                    let q = verif::parts(&mut p);
                    let to = CircuitIndex::new(g.usize(0, 25));
                    if to == *q.circuit_id {
                        continue;
                    }
                    *q.circuit_id = to;
                    format!("circuit {to:?}")
                }
                _ => {
                    let q = verif::parts(&mut p);
                    let side = g.usize(0, 1);
                    let h = q.headers.into_iter().nth(side).unwrap();
                    let i = g.usize(0, h.len() - 1);
                    h[i] = other_scalar(g, h[i]);
                    format!("the header of child {side} changed")
                }
            },
            _ => match change(g, &mut p, &other, true) {
                Some(w) => w,
                None => continue,
            },
        };
        note!(g, "{what}");
        g.nt(true);
        let Val::El(bad) = Val::carry(m2, p) else { unreachable!() };
        let left = g.bool();
        let (l, r) = if left { (bad, w.clone()) } else { (w.clone(), bad) };
        let rer = g.chance(1, 4);
        let r = if rer {
            catches(|| app.rerandomize(if left { l } else { r }, &mut VRng::of(g)).map(Val::El))
        } else {
            catches(|| app.fuse(&mut VRng::of(g), Pairing::<B>, (), l, r).map(|p| Val::Pair(p.0)))
        };
        let Ok(Ok(parent)) = r else {
            g.label("no parent");
            continue;
        };
        g.label(if rer { "rerandomized" } else { "parent" });
        let r = catches(|| parent.verify(app, g));
        ensure!(!matches!(r, Ok(Ok(true))), "the {} of a proof with {what} is accepted", if rer { "rerandomization" } else { "parent" });
        if g.chance(1, 4) {
            let r = catches(|| parent.rerandomize(app, g).and_then(|v| v.verify(app, g)));
            ensure!(!matches!(r, Ok(Ok(true))), "a proof above the parent of a proof with {what} is accepted");
        }
    }
    Ok(())
}
pub fn recursion() -> Prop {
    Prop {
        id: "T03",
        subs: vec![Sub::new("children", children, 40, 1000, "a proof as in T02 with its data, circuit, headers, a challenge, c, v, any commitment or any native polynomial changed, then three times merged with an honest proof, on either side, or rerandomized, and sometimes rerandomized again: no proof above it is ever accepted")],
        assumptions: &[
            "what the step itself cannot know stays out: registry_wx0, registry_wx1, registry_wy and f of the child are not carried to the parent, and the child's nested traces are not folded (the code says so)",
            "an error or a panic from the prover is a refusal",
        ],
    }
}
#[allow(unused)]
fn unused(g: &mut Gen) -> Fp {
    fe(g)
}

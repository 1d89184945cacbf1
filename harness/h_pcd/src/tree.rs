//! Trees of proofs, completed and inspected.
use crate::app::*;
use crate::each;
use crate::plain::Plain;
use ff::Field;
use pasta_curves::{EpAffine, Fp, Fq, arithmetic::CurveAffine as _};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::sparse::Polynomial;
use ragu_pasta::{Pasta, PoseidonFp};
use ragu_pcd::verif;
use std::collections::BTreeSet;
use vcs::{VRng, fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

fn step<const HS: usize, const B: usize>(g: &mut Gen, app: &App<HS>, pool: &mut Vec<Val>, depths: &mut Vec<usize>) -> R {
    if g.chance(1, 6) && !pool.is_empty() {
        let k = g.usize(0, pool.len() - 1);
        let (v, m) = (pool[k].clone(), pool[k].model());
        note!(g, "rerandomize {m:?}");
        let r = match catches(|| v.rerandomize(app, g)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => return Err(format!("rerandomize of {m:?}: {e:?}")),
            Err(p) => return Err(format!("rerandomize of {m:?}: panic {p}")),
        };
        g.label("rerandomize");
        g.nt(m != Model::Unit);
        ensure_eq!(r.model(), m, "data after rerandomize");
        pool.push(r);
        depths.push(depths[k] + 1);
    } else {
        let o = match catches(|| apply::<HS, B>(g, app, pool, false)) {
            Ok(o) => o.unwrap(),
            Err(p) => return Err(format!("panic in a step: {p}")),
        };
        note!(g, "{} of {:?} to {:?}", o.step, o.inputs, o.model);
        let v = match o.val {
            Ok(v) => v,
            Err(e) => return Err(format!("{} of {:?}: {e:?}", o.step, o.inputs)),
        };
        g.label(o.step);
        ensure_eq!(v.model(), o.model, "data of {} of {:?}", o.step, o.inputs);
        ensure!(o.aux, "auxiliary data of {} of {:?}", o.step, o.inputs);
        let d = pool.iter().zip(depths.iter()).filter(|(v, _)| o.inputs.contains(&v.model())).map(|x| *x.1).max().unwrap_or(0);
        g.nt(o.inputs != [Model::Unit; 2]);
        pool.push(v);
        depths.push(d + 1);
    }
    Ok(())
}
fn check<const HS: usize>(g: &mut Gen, app: &App<HS>, v: &Val) -> R {
    match catches(|| v.verify(app, g)) {
        Ok(Ok(true)) => Ok(()),
        x => Err(format!("an honest proof of {:?} verifies as {x:?}", v.model())),
    }
}
fn history<const HS: usize, const B: usize>(g: &mut Gen, app: &App<HS>) -> R {
    let (mut pool, mut depths) = (vec![], vec![]);
    for _ in 0..g.usize(3, 9) {
        step::<HS, B>(g, app, &mut pool, &mut depths)?;
    }
    // the newest, and another
    let k = g.usize(0, pool.len() - 1);
    check(g, app, &pool[k])?;
    check(g, app, pool.last().unwrap())
}
fn trees(g: &mut Gen) -> R {
    match g.below(3) {
        0 => history::<4, 0>(g, plain()),
        1 => history::<4, 0>(g, full()),
        _ => history::<9, 18>(g, wide()),
    }
}
/// Applications of few steps, and of as many as make the circuits a power of
/// two, or one more.
fn sizes(g: &mut Gen) -> R {
    let n = *g.pick(&[0usize, 1, 2, 3, 17, 18]);
    note!(g, "{n} steps");
    g.nt(true);
    let app = first_pads::<4>(n).map_err(|e| format!("{n} steps: {e:?}"))?;
    let rng = &mut VRng::of(g);
    if n == 0 {
        let p = app.rerandomize(verif::trivial_proof(&app).carry::<()>(()), rng);
        // nothing to start from but the proof of nothing
        ensure!(matches!(p.and_then(|p| app.verify(&p, VRng::of(g))), Ok(true)), "the proof of nothing, rerandomized");
        return Ok(());
    }
    let w: Fp = fe(g);
    macro_rules! seed { ($($i:literal)*) => { match if g.bool() { n - 1 } else { 0 } { $($i => ($i, app.seed(rng, Pad::<$i>, w)),)* _ => unreachable!() } }; }
    let (k, r) = seed!(0 1 2 16 17);
    let (p, aux) = r.map_err(|e| format!("step {k} of {n}: {e:?}"))?;
    ensure_eq!((*p.data(), aux), (w * Fp::from(k), w), "what step {k} of {n} gives");
    ensure!(matches!(app.verify(&p, VRng::of(g)), Ok(true)), "a proof of step {k} of {n} does not verify");
    let r = app.rerandomize(p.clone(), rng).map_err(|e| format!("{e:?}"))?;
    ensure_eq!(*r.data(), w * Fp::from(k), "data after rerandomize");
    ensure!(matches!(app.verify(&r, VRng::of(g)), Ok(true)), "a rerandomized proof of step {k} of {n} does not verify");
    // a step that is not registered
    if n < 16 {
        ensure!(matches!(catches(|| app.seed(rng, Pad::<16>, w).is_err()), Ok(true) | Err(_)), "a step past the last of {n} proves something");
        ensure!(app.seed(rng, Pad::<16>, w).is_err(), "a step past the last of {n}: a panic and not an error");
    }
    Ok(())
}
pub fn completeness() -> Prop {
    Prop {
        id: "T01",
        subs: vec![
            Sub::new("trees", trees, 24, 600, "3 to 9 steps, each of any of eleven kinds (or a rerandomization) over any earlier proofs of the right types, proofs reused any number of times, in applications of 26, 32 and 44 circuits with headers of 4 or 9 elements; the newest proof and another verified, the data and what the steps tell compared with a plain computation; non-trivial when a step merges proofs of something"),
            Sub::new("sizes", sizes, 16, 300, "applications of 0, 1, 2, 3, 17 or 18 steps (17 makes 32 circuits); first or last step proved, verified, rerandomized, verified, and a step past the last refused"),
        ],
        assumptions: &["the proving randomness is generated; verification errs with probability below 2^-200 for a false claim, so a false rejection is no chance"],
    }
}

fn coords(p: &EpAffine) -> [Fp; 2] {
    let c = p.coordinates().unwrap();
    [*c.x(), *c.y()]
}
/// Coefficients of the trace: the values of the four wires of the gates.
pub fn gate<F: Field>(p: &Polynomial<F, Rk>) -> BTreeSet<Vec<u8>>
where
    F: ff::PrimeField,
{
    p.iter_coeffs().filter(|c| *c != F::ZERO).map(|c| c.to_repr().as_ref().to_vec()).collect()
}
/// Every part of an honest proof fits the others.
pub fn fits<const HS: usize>(app: &App<HS>, v: &Val, inputs: Option<[Model; 2]>) -> R {
    let _ = app;
    let pasta = Pasta::baked();
    let mut pf = v.proof();
    let parts = verif::parts(&mut pf);
    let (hg, ng) = (Pasta::host_generators(pasta), Pasta::nested_generators(pasta));
    ensure_eq!(parts.native.len(), parts.host.len(), "parts");
    for ((n, p), (m, c)) in parts.native.iter().zip(&parts.host) {
        ensure_eq!(n, m, "parts");
        let want: pasta_curves::EqAffine = p.commit_to_affine(hg);
        ensure!(want == **c, "{n} is committed to as something else");
    }
    for (n, c) in &parts.bridges {
        let p = &parts.nested.iter().find(|x| x.0 == *n).unwrap().1;
        let want: EpAffine = p.commit_to_affine(ng);
        ensure!(want == **c, "{n} is committed to as something else");
    }
    let s = |k: &str| *parts.scalars.iter().find(|x| x.0 == k).unwrap().1;
    let poly = |k: &str| &*parts.native.iter().find(|x| x.0 == k).unwrap().1;
    ensure!(poly("a").revdot(poly("b")) == s("c"), "c is not the product of a and b");
    ensure!(poly("p").eval(s("u")) == s("v"), "v is not p at u");
    if let Some([l, r]) = inputs {
        ensure_eq!(*parts.headers[0], l.encoding(HS), "left header");
        ensure_eq!(*parts.headers[1], r.encoding(HS), "right header");
    }
    // the challenges
    let b = |k: &str| coords(&*parts.bridges.iter().find(|x| x.0 == k).unwrap().1);
    let mut t = Plain::<Fp, PoseidonFp>::tagged(poseidon(), b"FIXME");
    for (bridge, outs) in [
        ("bridge_preamble", &["w"][..]),
        ("bridge_s_prime", &["y", "z"]),
        ("bridge_inner_error", &["mu", "nu"]),
        ("bridge_outer_error", &["mu_prime", "nu_prime"]),
        ("bridge_ab", &["x"]),
        ("bridge_query", &["alpha"]),
        ("bridge_f", &["u"]),
        ("bridge_eval", &["pre_beta"]),
    ] {
        for x in b(bridge) {
            t.absorb(x);
        }
        for o in outs {
            ensure!(t.squeeze() == s(o), "challenge {o} is not what the transcript gives");
        }
    }
    Ok(())
}
/// What each bridge carries to the other curve.
const CARRIES: [(&str, &[&str]); 8] = [
    ("bridge_preamble", &["preamble"]),
    ("bridge_s_prime", &["registry_wx0", "registry_wx1"]),
    ("bridge_inner_error", &["inner_error", "registry_wy"]),
    ("bridge_outer_error", &["outer_error"]),
    ("bridge_ab", &["a", "b"]),
    ("bridge_query", &["query", "registry_xy"]),
    ("bridge_f", &["f"]),
    ("bridge_eval", &["eval"]),
];
const CHILD: [&str; 6] = ["application", "hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v"];
fn host_coords(p: &pasta_curves::EqAffine) -> [Vec<u8>; 2] {
    use ff::PrimeField;
    let c = p.coordinates().unwrap();
    [c.x().to_repr().as_ref().to_vec(), c.y().to_repr().as_ref().to_vec()]
}
pub fn bridges(v: &Val, children: &[Pf]) -> R {
    let mut pf = v.proof();
    let parts = verif::parts(&mut pf);
    for (br, names) in CARRIES {
        let p: &Polynomial<Fq, Rk> = parts.nested.iter().find(|x| x.0 == br).unwrap().1;
        let has = gate(p);
        let mut want: Vec<(String, pasta_curves::EqAffine)> =
            names.iter().map(|n| (n.to_string(), *parts.host.iter().find(|x| x.0 == *n).unwrap().1)).collect();
        if br == "bridge_preamble" {
            for (k, c) in children.iter().enumerate() {
                let mut c = c.clone();
                let q = verif::parts(&mut c);
                for n in CHILD {
                    want.push((format!("{n} of child {k}"), *q.host.iter().find(|x| x.0 == n).unwrap().1));
                }
            }
        }
        for (n, c) in want {
            for x in host_coords(&c) {
                ensure!(has.contains(&x), "{br} does not carry {n}");
            }
        }
    }
    Ok(())
}
fn fitting<const HS: usize, const B: usize>(g: &mut Gen, app: &App<HS>) -> R {
    let mut pool = vec![];
    let mut rerandomized = None;
    for _ in 0..g.usize(2, 6) {
        let o = apply::<HS, B>(g, app, &pool, false).unwrap();
        let v = o.val.map_err(|e| format!("{}: {e:?}", o.step))?;
        note!(g, "{} of {:?} to {:?}", o.step, o.inputs, o.model);
        g.nt(o.inputs != [Model::Unit; 2]);
        fits(app, &v, Some(o.inputs))?;
        pool.push(v);
    }
    if g.chance(1, 3) {
        let v = g.pick(&pool).clone();
        let m = v.model();
        let kids = [v.proof()];
        let r = v.rerandomize(app, g).map_err(|e| format!("rerandomize: {e:?}"))?;
        g.label("rerandomize");
        fits(app, &r, Some([m, Model::Unit]))?;
        bridges(&r, &kids)?;
        rerandomized = Some(r);
    }
    // one more, of children that are known
    let els: Vec<&Carried<HEl>> = pool.iter().chain(rerandomized.iter()).filter_map(|v| if let Val::El(p) = v { Some(p) } else { None }).collect();
    if els.len() > 0 {
        let (l, r) = ((*g.pick(&els)).clone(), (*g.pick(&els)).clone());
        let kids = [verif::proof(l.clone()), verif::proof(r.clone())];
        let (p, _) = app.fuse(&mut VRng::of(g), Pairing::<B>, (), l, r).map_err(|e| format!("pairing: {e:?}"))?;
        g.label("children");
        bridges(&Val::Pair(p), &kids)?;
    }
    Ok(())
}
fn bound(g: &mut Gen) -> R {
    match g.below(2) {
        0 => fitting::<4, 0>(g, plain()),
        _ => fitting::<9, 18>(g, wide()),
    }
}
pub fn fiat_shamir(mut more: Vec<Sub>) -> Prop {
    let mut subs = vec![Sub::new(
        "proofs",
        bound,
        20,
        500,
        "trees of 3 to 7 proofs: every commitment is to its polynomial, c = <a, rev b>, p(u) = v, the headers are the children's, all eleven challenges are what a plain Poseidon transcript gives for the bridge commitments so far, and every bridge polynomial carries the coordinates of the native commitments of its round and of the children; non-trivial when a step merges proofs of something",
    )];
    subs.append(&mut more);
    Prop { id: "T05", subs, assumptions: &["the Poseidon parameters are those of the library (checked by A08, P05)"] }
}

/// Freshness of the randomness in proofs.
fn fresh(g: &mut Gen) -> R {
    match g.below(3) {
        0 => fresh_in::<9, 18>(g, wide()),
        _ => fresh_in::<4, 0>(g, plain()),
    }
}
fn fresh_in<const HS: usize, const B: usize>(g: &mut Gen, app: &App<HS>) -> R {
    let w: Fp = fe(g);
    let leaf = |g: &mut Gen| app.seed(&mut VRng::of(g), Leaf::<B>, w).map(|x| x.0).map_err(|e| format!("{e:?}"));
    let again = |v: &Val, g: &mut Gen| v.clone().rerandomize(app, g).map_err(|e| format!("{e:?}"));
    let (a, b) = match g.below(4) {
        0 => {
            let l = leaf(g)?;
            let same = g.bool();
            let l2 = if same { l.clone() } else { leaf(g)? };
            note!(g, "the same step of {} children twice", if same { "the same" } else { "other" });
            let x = app.fuse(&mut VRng::of(g), Pairing::<B>, (), l.clone(), l2.clone()).map_err(|e| format!("{e:?}"))?.0;
            let y = app.fuse(&mut VRng::of(g), Pairing::<B>, (), l, l2).map_err(|e| format!("{e:?}"))?.0;
            g.label("step");
            (Val::Pair(x), Val::Pair(y))
        }
        k => {
            let mut v = if g.chance(1, 3) {
                Val::El(leaf(g)?)
            } else {
                let (mut pool, mut depths) = (vec![], vec![]);
                for _ in 0..g.usize(1, 4) {
                    step::<HS, B>(g, app, &mut pool, &mut depths)?;
                }
                pool.pop().unwrap()
            };
            let before = g.usize(0, 2);
            for _ in 0..before {
                v = again(&v, g)?;
            }
            note!(g, "a proof of {:?}, rerandomized {before} times before", v.model());
            g.label(["once", "again", "a third time"][before]);
            let r = again(&v, g)?;
            match k {
                1 => (v, r),
                2 => {
                    let s = again(&v, g)?;
                    (r, s)
                }
                _ => {
                    let s = again(&r, g)?;
                    (if g.bool() { v } else { r }, s)
                }
            }
        }
    };
    g.nt(true);
    let (mut p, mut q) = (a.proof(), b.proof());
    let (pp, qq) = (verif::parts(&mut p), verif::parts(&mut q));
    let public = ["registry_xy", "registry_wx0", "registry_wx1", "registry_wy"];
    for (x, y) in pp.host.iter().zip(&qq.host) {
        if public.contains(&x.0) {
            continue;
        }
        ensure!(*x.1 != *y.1, "two proofs share the commitment to {}", x.0);
    }
    for (x, y) in pp.bridges.iter().zip(&qq.bridges) {
        ensure!(*x.1 != *y.1, "two proofs share the commitment to {}", x.0);
    }
    for (x, y) in pp.scalars.iter().zip(&qq.scalars) {
        ensure!(*x.1 != *y.1, "two proofs share {}", x.0);
    }
    // what blinds each of the traces
    let mut seen = BTreeSet::new();
    let blinded = ["application", "preamble", "inner_error", "outer_error", "query", "eval", "hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v"];
    for parts in [&pp, &qq] {
        for (n, x) in parts.native.iter().filter(|x| blinded.contains(&x.0)) {
            let al = blind(x);
            ensure!(al != Fp::ZERO && al != Fp::ONE, "{n} is blinded with {al:?}");
            ensure!(seen.insert(format!("{al:?}")), "{n} is blinded with what blinds another");
        }
        for (n, x) in &parts.nested {
            let al = blind(x);
            ensure!(al != Fq::ZERO && al != Fq::ONE, "{n} is blinded with {al:?}");
            ensure!(seen.insert(format!("{al:?}")), "{n} is blinded with what blinds another");
        }
    }
    Ok(())
}
/// The wire d of the first gate.
fn blind<F: ff::PrimeField>(p: &Polynomial<F, Rk>) -> F {
    use ragu_circuits::polynomials::{Rank, sparse::View};
    thread_local! { static AT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) }; }
    let k = AT.with(|a| {
        if a.get() == usize::MAX {
            let mut v = View::<Fp, Rk, _>::trace();
            v.d.push(Fp::ONE);
            a.set(v.build().iter_coeffs().position(|c| c == Fp::ONE).unwrap());
        }
        a.get()
    });
    let _ = Rk::n();
    p.iter_coeffs().nth(k).unwrap()
}
pub fn freshness() -> Prop {
    Prop {
        id: "T08",
        subs: vec![Sub::new("pairs", fresh, 20, 400, "a step proved twice over the same children (or equal ones), or any proof of a tree of up to four steps, rerandomized up to twice before, against its rerandomization, that one's, or another: no commitment, challenge or blinding coefficient in common, except of the registry polynomials, which are public; every trace polynomial of both fields blinded, each with a coefficient of its own")],
        assumptions: &["the proving randomness is generated and distinct for each proof"],
    }
}
#[allow(unused)]
fn unused(v: &Val) -> usize {
    each!(v, p => std::mem::size_of_val(p))
}

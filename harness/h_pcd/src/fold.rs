//! Folding of claims and of points.
use ff::{Field, PrimeField};
use group::{Curve, Group, prime::PrimeCurveAffine};
use pasta_curves::{Ep, EpAffine, Eq, EqAffine, Fp, Fq};
use ragu_arithmetic::{CurveAffine, Uendo};
use ragu_circuits::{
    Circuit,
    polynomials::{ProductionRank, TestRank, sparse::Polynomial},
    staging::{MultiStage, Stage},
};
use ragu_core::drivers::emulator::Emulator;
use std::rc::Rc;
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_pcd::verif::{
    endoscalar::{EndoscalarStage, PointsStage, EndoscalingStep, EndoscalingStepWitness, InputsLen, NumStepsLen, PointsWitness},
    fold_revdot::{ClaimFolder, NumErrorTerms, Parameters, fold_inner, fold_outer, fold_two_layer, inner_error_terms, outer_error_terms},
    native::RevdotParameters,
};
use ragu_primitives::{Element, vec::{CollectFixed, ConstLen, FixedVec, Len}};
use vcs::{Absent, Present, Rec, VRng, W, fe, nonzero, rand_fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

#[derive(Clone, Copy, Default)]
struct P<const N: usize, const M: usize>;
impl<const N: usize, const M: usize> Parameters for P<N, M> {
    type NumGroups = ConstLen<N>;
    type GroupSize = ConstLen<M>;
}
type Poly = Polynomial<Fp, TestRank>;
fn just<T: Send>(x: T) -> Always<T> {
    Always::<()>::maybe_just(|| x)
}
fn els<'dr, L: Len>(dr: &mut Rec<Fp, Present>, v: impl IntoIterator<Item = Fp>) -> (FixedVec<Element<'dr, Rec<Fp, Present>>, L>, Vec<W>) {
    let e: Vec<Element<'dr, Rec<Fp, Present>>> = v.into_iter().map(|x| Element::alloc(dr, just(x)).unwrap()).collect();
    let w = e.iter().map(|e| *e.wire()).collect();
    (e.into_iter().collect_fixed().unwrap(), w)
}
fn a_poly(g: &mut Gen) -> Poly {
    match g.below(5) {
        0 => Poly::new(),
        1 => Poly::from_coeffs((0..g.usize(1, 9)).map(|_| fe(g)).collect()),
        _ => Poly::random(&mut VRng::of(g)),
    }
}
fn fold_with<Q: Parameters>(g: &mut Gen) -> R {
    let (n, m) = (Q::NumGroups::len(), Q::GroupSize::len());
    let count = if g.chance(1, 3) { n * m } else { g.usize(0, n * m) };
    g.nt(count > m);
    note!(g, "{count} claims in {n} groups of {m}");
    let a: Vec<Poly> = (0..count).map(|_| a_poly(g)).collect();
    let b: Vec<Poly> = (0..count).map(|_| a_poly(g)).collect();
    let special = |g: &mut Gen| if g.chance(1, 4) { Fp::ONE } else { nonzero(g) };
    let [mu, nu, mu2, nu2] = [special(g), special(g), special(g), special(g)];
    let inv = |x: Fp| x.invert().unwrap();
    let errors = inner_error_terms::<Fp, TestRank, Q>(&a, &b);
    let (fa, fb) = (fold_inner::<Poly, Fp, Q>(&a, inv(mu)), fold_inner::<Poly, Fp, Q>(&b, mu * nu));
    let mut dr = Rec::<Fp, Present>::new();
    let (mue, nue) = (Element::alloc(&mut dr, just(mu)).unwrap(), Element::alloc(&mut dr, just(nu)).unwrap());
    let folder = ClaimFolder::new(&mut dr, &mue, &nue).map_err(|e| format!("{e:?}"))?;
    let mut ins = vec![*mue.wire(), *nue.wire()];
    let mut inner = vec![];
    let mut outs = vec![];
    // a claim or an error that is wrong changes what comes out
    let bad = (g.usize(0, n - 1), g.usize(0, m * m - 1), nonzero::<Fp>(g));
    for i in 0..n {
        let ky: Vec<Fp> = (0..m).map(|j| a.get(i * m + j).map_or(Fp::ZERO, |a| a.revdot(&b[i * m + j]))).collect();
        let er: Vec<Fp> = errors[i].iter().copied().collect();
        ensure_eq!(er.len(), m * m - m, "number of error terms");
        let want = fa[i].revdot(&fb[i]);
        let (k, w) = els::<Q::GroupSize>(&mut dr, ky.iter().copied());
        ins.extend(w);
        let (e, w) = els::<NumErrorTerms<Q::GroupSize>>(&mut dr, er.iter().copied());
        ins.extend(w);
        let c = folder.fold_inner::<Q>(&mut dr, &e, &k).map_err(|e| format!("{e:?}"))?;
        ensure_eq!(*c.value().take(), want, "the folded claim of group {i}");
        if i == bad.0 {
            let (mut ky, mut er) = (ky, er);
            if bad.1 < m {
                ky[bad.1] += bad.2;
            } else {
                er[bad.1 - m] += bad.2;
            }
            let (k, _) = els::<Q::GroupSize>(&mut dr, ky);
            let (e, _) = els::<NumErrorTerms<Q::GroupSize>>(&mut dr, er);
            let c = folder.fold_inner::<Q>(&mut dr, &e, &k).map_err(|e| format!("{e:?}"))?;
            ensure!(*c.value().take() != want, "the folded claim does not depend on value {} of group {i}", bad.1);
        }
        outs.push(*c.wire());
        inner.push(c);
    }
    let (va, vb): (Vec<Poly>, Vec<Poly>) = (fa.iter().cloned().collect(), fb.iter().cloned().collect());
    let errors = outer_error_terms::<Fp, TestRank, Q>(&va, &vb);
    let (ga, gb) = (fold_outer::<Poly, Fp, Q>(fa, inv(mu2)), fold_outer::<Poly, Fp, Q>(fb, mu2 * nu2));
    let (mue, nue) = (Element::alloc(&mut dr, just(mu2)).unwrap(), Element::alloc(&mut dr, just(nu2)).unwrap());
    ins.extend([*mue.wire(), *nue.wire()]);
    let folder = ClaimFolder::new(&mut dr, &mue, &nue).map_err(|e| format!("{e:?}"))?;
    let (e, w) = els::<NumErrorTerms<Q::NumGroups>>(&mut dr, errors.iter().copied());
    ins.extend(w);
    let k: FixedVec<_, Q::NumGroups> = inner.into_iter().collect_fixed().unwrap();
    let c = folder.fold_outer::<Q>(&mut dr, &e, &k).map_err(|e| format!("{e:?}"))?;
    ensure_eq!(*c.value().take(), ga.revdot(&gb), "the claim folded over both layers");
    ensure_eq!(dr.value(*c.wire()), *c.value().take(), "wire of the claim");
    outs.push(*c.wire());
    // the same fold of what the polynomials are at a point
    let x = fe::<Fp>(g);
    for (ps, s1, s2, want) in [(&a, inv(mu), inv(mu2), &ga), (&b, mu * nu, mu2 * nu2, &gb)] {
        let e: Vec<_> = ps.iter().map(|p| Element::alloc(&mut dr, just(p.eval(x))).unwrap()).collect();
        let (s1, s2) = (Element::alloc(&mut dr, just(s1)).unwrap(), Element::alloc(&mut dr, just(s2)).unwrap());
        let r = fold_two_layer::<_, Q>(&mut dr, &e, &s1, &s2).map_err(|e| format!("{e:?}"))?;
        ensure_eq!(*r.value().take(), want.eval(x), "the fold of {count} values at a point");
        ins.extend(e.iter().map(|e| *e.wire()).chain([*s1.wire(), *s2.wire()]));
        outs.push(*r.wire());
    }
    dr.satisfied()?;
    if n * m < 50 {
        ensure!(dr.free_output(&ins, &outs).is_none(), "a folded value is not determined by what is folded");
    }
    // nothing inverts nothing
    let mut dr = Rec::<Fp, Present>::new();
    let (z, nue) = (Element::alloc(&mut dr, just(Fp::ZERO)).unwrap(), Element::alloc(&mut dr, just(nu)).unwrap());
    let r = ClaimFolder::new(&mut dr, &z, &nue);
    ensure!(r.is_err() || dr.satisfied().is_err(), "mu may be zero");
    Ok(())
}
fn claims(g: &mut Gen) -> R {
    match g.below(9) {
        0 => fold_with::<P<1, 1>>(g),
        1 => fold_with::<P<1, 4>>(g),
        2 => fold_with::<P<4, 1>>(g),
        3 => fold_with::<P<2, 3>>(g),
        4 => fold_with::<P<3, 2>>(g),
        5 => fold_with::<P<5, 4>>(g),
        6 => fold_with::<P<2, 7>>(g),
        7 => fold_with::<P<3, 3>>(g),
        _ => fold_with::<RevdotParameters>(g),
    }
}
fn over<Q: Parameters>() -> bool {
    let ps = vec![Poly::new(); Q::NumGroups::len() * Q::GroupSize::len() + 1];
    catches(|| fold_inner::<Poly, Fp, Q>(&ps, Fp::ONE)).is_err() && catches(|| inner_error_terms::<Fp, TestRank, Q>(&ps, &ps)).is_err()
}
fn too_many(g: &mut Gen) -> R {
    g.nt(true);
    let k = g.below(3);
    note!(g, "one too many {k}");
    ensure!(match k { 0 => over::<P<1, 1>>(), 1 => over::<P<3, 2>>(), _ => over::<RevdotParameters>() }, "more claims than there is room for are folded");
    Ok(())
}
pub fn folding() -> Prop {
    Prop {
        id: "T06",
        subs: vec![
            Sub::new("claims", claims, 160, 4000, "up to as many pairs of polynomials as fit, in 1 to 5 groups of 1 to 7 (and the recursion's own parameters): the claim the circuit folds from values and error terms is the product of the folded polynomials, in both layers, changes with any one value, and values at a point fold as the polynomials do; outputs determined by inputs; mu nonzero; non-trivial with more claims than a group holds"),
            Sub::new("too_many", too_many, 12, 60, "one claim more than fits is refused"),
        ],
        assumptions: &[],
    }
}

/// The scalar an endoscalar stands for, from its definition: pairs of bits of
/// which one gives the sign and the other whether the endomorphism is applied.
fn lifted<F: PrimeField + ff::WithSmallOrderMulGroup<3>>(e: Uendo) -> F {
    ragu_primitives::lift_endoscalar(e)
}
macro_rules! points_of {
    ($name:ident, $aff:ty, $cur:ty, $scalar:ty, $base:ty) => {
        fn $name<const N: usize>(g: &mut Gen) -> R {
            let e = Uendo::from(match g.below(5) {
                0 => 0u128,
                1 => u128::MAX,
                _ => g.u128(),
            });
            let e = if g.bool() { e } else { !e };
            let s: $scalar = lifted(e);
            let mut pts: Vec<$cur> = (0..N).map(|_| <$cur>::generator() * <$scalar>::from(g.u64() | 1)).collect();
            // clashes: what is added is plus or minus what it is added to
            let clash = N > 1 && g.chance(1, 4);
            let mut at = 0;
            if clash {
                at = g.usize(1, N - 1);
                let acc = pts[1..at].iter().fold(pts[0], |a, p| a * s + *p) * s;
                pts[at] = if g.bool() { acc } else { -acc };
            }
            note!(g, "{N} points, endoscalar {e:?}{}", if clash { format!(", clash at {at}") } else { String::new() });
            g.nt(N > 5);
            let aff: Vec<$aff> = pts.iter().map(|p| p.to_affine()).collect();
            let w = PointsWitness::<$aff, N>::new(e, &aff);
            ensure_eq!(w.initial, aff[0], "initial point");
            ensure_eq!(w.inputs.iter().copied().collect::<Vec<_>>(), aff[1..].to_vec(), "points");
            // four at a time
            let mut acc = pts[0];
            let mut want = vec![];
            for c in pts[1..].chunks(4) {
                for p in c {
                    acc = acc * s + *p;
                }
                want.push(acc.to_affine());
            }
            if N == 1 {
                want.push(aff[0]);
            }
            ensure_eq!(NumStepsLen::<N>::len(), want.len(), "number of steps");
            ensure_eq!(InputsLen::<N>::len(), N - 1, "number of inputs");
            ensure!(w.interstitials.iter().eq(want.iter()), "sums of {N} points: got {:?}, want {want:?}", w.interstitials.iter().collect::<Vec<_>>());
            if N == 1 {
                return Ok(());
            }
            let run = |step: usize, e: Uendo, w: &PointsWitness<$aff, N>| -> Result<bool, String> {
                // the wires of the stages come first; their values are elsewhere
                let mut pre = vec![];
                let mut em = Emulator::extractor();
                let out = <EndoscalarStage as Stage<$base, ProductionRank>>::witness(&EndoscalarStage, &mut em, just(e)).map_err(|e| e.to_string())?;
                pre.extend(em.wires(&out).map_err(|e| e.to_string())?);
                let stage = PointsStage::<$aff, N>::default();
                let out = <PointsStage<$aff, N> as Stage<$base, ProductionRank>>::witness(&stage, &mut em, just(w));
                // there is no witness for the point at infinity
                let Ok(out) = out else { return Ok(false) };
                pre.extend(em.wires(&out).map_err(|e| e.to_string())?);
                let mut dr = Rec::<$base, Present>::with_tamper(Rc::new(move |g, v| pre.get(g).map_or(v, |b| [Field::ZERO, *b, Field::ZERO, Field::ZERO])));
                let c = MultiStage::<$base, ProductionRank, _>::new(EndoscalingStep::<$aff, ProductionRank, N>::new(step));
                let r = catches(|| c.witness(&mut dr, just(EndoscalingStepWitness { endoscalar: e, points: w })).map(|_| ()));
                Ok(matches!(r, Ok(Ok(()))) && dr.satisfied().is_ok())
            };
            // as a prover would who may choose everything but what the step starts from
            let forged = |step: usize, g: &mut Gen| -> Result<Option<(Vec<$base>, usize)>, String> {
                let mut em = Emulator::extractor();
                let out = <EndoscalarStage as Stage<$base, ProductionRank>>::witness(&EndoscalarStage, &mut em, just(e)).map_err(|e| e.to_string())?;
                let mut pre: Vec<Option<$base>> = em.wires(&out).map_err(|e| e.to_string())?.into_iter().map(Some).collect();
                let first = pre.len();
                for p in core::iter::once(&w.initial).chain(w.inputs.iter()) {
                    let c = p.coordinates().into_option().ok_or("a point at infinity")?;
                    pre.extend([Some(*c.x()), Some(*c.y())]);
                }
                for (i, p) in w.interstitials.iter().enumerate() {
                    let c = p.coordinates().into_option().filter(|_| i + 1 == step);
                    pre.extend([c.map(|c| *c.x()), c.map(|c| *c.y())]);
                }
                let mut dr = Rec::<$base, Absent>::new();
                MultiStage::<$base, ProductionRank, _>::new(EndoscalingStep::<$aff, ProductionRank, N>::new(step)).witness(&mut dr, Empty).map_err(|e| e.to_string())?;
                let fixed: Vec<(usize, $base)> = pre.iter().enumerate().filter_map(|(g, x)| x.map(|x| (2 + 4 * g, x))).collect();
                Ok(vcs::solve::forge(&dr, &fixed, pre.len(), |_| rand_fe(g)).map(|v| (v, first + 2 * (N + step))))
            };
            let step = g.usize(0, want.len() - 1);
            let hit = clash && (at - 1) / 4 == step;
            let lost = want.iter().any(|p| bool::from(p.is_identity()));
            let holds = run(step, e, &w)?;
            if hit {
                ensure!(!holds, "step {step} adds a point to itself or its negation");
                if at % 4 != 1 || step == 0 || want[step - 1] != <$aff>::identity() {
                    let f = forged(step, g)?;
                    ensure!(f.is_none(), "step {step} of {} adds point {at} to itself or its negation, and holds for some values", want.len());
                }
                return Ok(());
            }
            if lost {
                ensure!(!holds, "step {step} holds though a sum is the point at infinity");
                return Ok(());
            }
            ensure!(holds, "step {step} of {} does not hold for honest points", want.len());
            if g.chance(1, 4) {
                let Some((v, i)) = forged(step, g)? else { return Err(format!("step {step} of {}: no values found for honest points", want.len())) };
                let c = want[step].coordinates().unwrap();
                ensure!(v[2 + 4 * i] == *c.x() && v[6 + 4 * i] == *c.y(), "step {step} of {} holds with another result", want.len());
            }
            // one thing changed
            let mut v = w.clone();
            let other = (<$cur>::generator() * <$scalar>::from(g.u64())).to_affine();
            let what = match g.below(4) {
                0 => {
                    if v.interstitials[step] == other || bool::from(other.is_identity()) {
                        return Ok(());
                    }
                    v.interstitials[step] = other;
                    "result"
                }
                1 => {
                    v.interstitials[step] = -v.interstitials[step];
                    "sign of the result"
                }
                2 => {
                    let k = g.usize(step * 4, (step * 4 + 3).min(N - 2));
                    if v.inputs[k] == other || bool::from(other.is_identity()) {
                        return Ok(());
                    }
                    v.inputs[k] = other;
                    "point"
                }
                _ => {
                    let p = if step == 0 { &mut v.initial } else { &mut v.interstitials[step - 1] };
                    if *p == other || bool::from(other.is_identity()) {
                        return Ok(());
                    }
                    *p = other;
                    "start"
                }
            };
            ensure!(!run(step, e, &v)?, "step {step} of {} holds with another {what}", want.len());
            // nor with the next endoscalar
            let f = Uendo::from(u128_of(&e) ^ (1 << g.below(128)));
            if lifted::<$scalar>(f) != s {
                ensure!(!run(step, f, &w)?, "step {step} holds for another endoscalar");
            }
            Ok(())
        }
    };
}
fn u128_of(e: &Uendo) -> u128 {
    // through the only thing there is: bits
    let mut x = 0u128;
    for i in 0..128u32 {
        let one = Uendo::from(1u128) << i;
        if (*e & one) == one {
            x |= 1 << i;
        }
    }
    x
}
points_of!(pallas, EpAffine, Ep, Fq, Fp);
points_of!(vesta, EqAffine, Eq, Fp, Fq);
fn points(g: &mut Gen) -> R {
    match g.below(12) {
        0 => pallas::<1>(g),
        1 => pallas::<2>(g),
        2 => vesta::<4>(g),
        3 => pallas::<5>(g),
        4 => vesta::<6>(g),
        5 => vesta::<9>(g),
        6 => pallas::<13>(g),
        7 => vesta::<10>(g),
        8 | 9 => vesta::<37>(g),
        _ => pallas::<37>(g),
    }
}
pub fn endoscaling() -> Prop {
    Prop {
        id: "T07",
        subs: vec![Sub::new("points", points, 240, 8000, "1 to 37 points of either curve and an endoscalar: the sums are those of Horner's rule with the lifted scalar, four points to a step; each step's circuit holds for them and stops holding with another result, point, start or endoscalar, or when a point is added to itself or its negation; non-trivial with more than one step")],
        assumptions: &["what an endoscalar lifts to is checked by P04"],
    }
}

//! Polynomials in block form, against dense vectors of coefficients.
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::{CurveAffine, FixedGenerators, Ring};
use ragu_circuits::polynomials::{
    ProductionRank, Rank, TestRank,
    sparse::{Polynomial, View},
    txz::Evaluate,
};
use ragu_core::{
    drivers::{Driver, emulator::Emulator},
    maybe::{Always, Maybe},
};
use ragu_primitives::Element;
use vcs::curve::{C7, C13, C31};
use vcs::{Gf, Present, Rec, VRng, fe, nonzero, rand_fe, tamper_gate};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

/// Coefficients with runs of zeros of every length around the ones that matter.
fn runs<F: PrimeField>(g: &mut Gen, max: usize) -> Vec<F> {
    let len = match g.below(4) {
        0 => max,
        1 => g.usize(0, max.min(6)),
        _ => g.usize(0, max),
    };
    let mut v = vec![];
    let longest = if max > 1000 { 400 } else { 12 };
    while v.len() < len {
        let k = if g.chance(1, 4) { g.usize(1, longest) } else { g.usize(1, 7) };
        let zero = g.bool();
        for _ in 0..k {
            v.push(if zero { F::ZERO } else { nonzero(g) });
        }
    }
    v.truncate(len);
    v
}
fn dense<F: Field, K: Rank>(p: &Polynomial<F, K>) -> Vec<F> {
    p.iter_coeffs().collect()
}
fn model_eval<F: Field>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |s, c| s * x + *c)
}
fn pad<F: Field>(mut v: Vec<F>, n: usize) -> Vec<F> {
    v.resize(n, F::ZERO);
    v
}
/// A polynomial and its coefficients, made in one of the ways there are.
fn make<F: PrimeField, K: Rank>(g: &mut Gen) -> (Polynomial<F, K>, Vec<F>) {
    let (n, m) = (K::n(), K::num_coeffs());
    match g.below(8) {
        0 => (if g.bool() { Polynomial::new() } else { Polynomial::default() }, vec![F::ZERO; m]),
        1 if m < 1000 => {
            let p = Polynomial::random(&mut VRng::of(g));
            let d = dense(&p);
            (p, d)
        }
        2 | 3 => {
            let w: Vec<Vec<F>> = (0..4).map(|_| runs(g, n)).collect();
            let mut d = vec![F::ZERO; m];
            let trace = g.bool();
            for i in 0..n {
                let at = [2 * n + i, 2 * n - 1 - i, i, 4 * n - 1 - i];
                for (k, w) in w.iter().enumerate() {
                    let at = at[if trace { k } else { k ^ 1 }];
                    d[at] = w.get(i).copied().unwrap_or(F::ZERO);
                }
            }
            let mut w = w.into_iter();
            let mut next = || w.next().unwrap();
            let p = if trace {
                let mut v = View::<F, K, _>::trace();
                (v.a, v.b, v.c, v.d) = (next(), next(), next(), next());
                v.build()
            } else {
                let mut v = View::<F, K, _>::wiring();
                (v.a, v.b, v.c, v.d) = (next(), next(), next(), next());
                v.build()
            };
            g.label(if trace { "trace view" } else { "wiring view" });
            (p, d)
        }
        _ => {
            let v = runs(g, m);
            (Polynomial::from_coeffs(v.clone()), pad(v, m))
        }
    }
}
fn history_in<F: PrimeField, K: Rank>(g: &mut Gen) -> R {
    let m = K::num_coeffs();
    let mut s: Vec<(Polynomial<F, K>, Vec<F>)> = (0..3).map(|_| make(g)).collect();
    for (p, d) in &s {
        ensure!(dense(p) == *d, "a new polynomial's coefficients: {:?} instead of {:?}", dense(p), d);
    }
    let steps = g.usize(1, if m > 1000 { 6 } else { 14 });
    g.nt(steps > 3);
    let mut log = vec![];
    for _ in 0..steps {
        let (i, j) = (g.usize(0, 2), g.usize(0, 2));
        let op = g.below(12);
        let what = match op {
            0 | 1 => {
                let q = s[j].clone();
                match g.below(3) {
                    0 => s[i].0.add_assign(&q.0),
                    1 => s[i].0 += &q.0,
                    _ => <Polynomial<F, K> as Ring>::add_assign(&mut s[i].0, &q.0),
                }
                s[i].1.iter_mut().zip(&q.1).for_each(|(a, b)| *a += *b);
                format!("{i} += {j}")
            }
            2 | 3 => {
                let q = s[j].clone();
                match g.below(3) {
                    0 => s[i].0.sub_assign(&q.0),
                    1 => s[i].0 -= &q.0,
                    _ => <Polynomial<F, K> as Ring>::sub_assign(&mut s[i].0, &q.0),
                }
                s[i].1.iter_mut().zip(&q.1).for_each(|(a, b)| *a -= *b);
                format!("{i} -= {j}")
            }
            4 => {
                let k: F = fe(g);
                if g.bool() { s[i].0.scale(k) } else { <Polynomial<F, K> as Ring>::scale_assign(&mut s[i].0, k) }
                s[i].1.iter_mut().for_each(|a| *a *= k);
                format!("{i} *= {k:?}")
            }
            5 => {
                s[i].0.negate();
                s[i].1.iter_mut().for_each(|a| *a = -*a);
                format!("negate {i}")
            }
            6 => {
                let z: F = fe(g);
                s[i].0.dilate(z);
                let mut p = F::ONE;
                for a in s[i].1.iter_mut() {
                    *a *= p;
                    p *= z;
                }
                format!("dilate {i} by {z:?}")
            }
            7 => {
                let k: F = fe(g);
                let ps: Vec<usize> = g.vec(0, 4, |g| g.usize(0, 2));
                let p = Polynomial::fold(ps.iter().map(|i| &s[*i].0), k);
                let mut d = vec![F::ZERO; m];
                for i in &ps {
                    d.iter_mut().zip(&s[*i].1).for_each(|(a, b)| *a = *a * k + *b);
                }
                s[i] = (p, d);
                format!("{i} = fold {ps:?} by {k:?}")
            }
            8 => {
                let z: F = fe(g);
                ensure_eq!(s[i].0.eval(z), model_eval(&s[i].1, z), "evaluation of {i} at {z:?} after {log:?}");
                format!("eval {i}")
            }
            9 => {
                let want: F = (0..m).map(|k| s[i].1[k] * s[j].1[m - 1 - k]).sum();
                ensure_eq!(s[i].0.revdot(&s[j].0), want, "reversed inner product of {i} and {j} after {log:?}");
                format!("revdot {i} {j}")
            }
            10 => {
                // from both ends
                let (mut lo, mut hi) = (0, m);
                let mut it = s[i].0.iter_coeffs();
                while lo < hi {
                    ensure_eq!(it.len(), hi - lo, "coefficients left");
                    let k = g.usize(1, m / 4 + 1);
                    let back = g.bool();
                    for _ in 0..k {
                        if lo == hi {
                            break;
                        }
                        if back {
                            hi -= 1;
                            ensure_eq!(it.next_back(), Some(s[i].1[hi]), "coefficient {hi} from the back after {log:?}");
                        } else {
                            ensure_eq!(it.next(), Some(s[i].1[lo]), "coefficient {lo} after {log:?}");
                            lo += 1;
                        }
                    }
                }
                ensure!(it.next().is_none() && it.next_back().is_none(), "the iterator ends");
                format!("iterate {i}")
            }
            _ => {
                s[i] = make(g);
                format!("remake {i}")
            }
        };
        log.push(what);
        ensure!(dense(&s[i].0) == s[i].1, "coefficients of {i} after {log:?}: {:?} instead of {:?}", dense(&s[i].0), s[i].1);
    }
    note!(g, "{log:?}");
    Ok(())
}
fn history(g: &mut Gen) -> R {
    match g.below(12) {
        0..=3 => history_in::<Gf<3>, TestRank>(g),
        4..=6 => history_in::<Gf<13>, TestRank>(g),
        7..=9 => history_in::<Fp, TestRank>(g),
        10 => history_in::<Gf<5>, ProductionRank>(g),
        _ => history_in::<Fq, TestRank>(g),
    }
}
struct Gens<C>(Vec<C>, C);
impl<C: CurveAffine> FixedGenerators<C> for Gens<C> {
    fn g(&self) -> &[C] {
        &self.0
    }
    fn h(&self) -> &C {
        &self.1
    }
}
fn commit_in<C: CurveAffine>(g: &mut Gen) -> R {
    let m = TestRank::num_coeffs();
    let extra = g.usize(0, 3);
    let gens: Vec<C> = (0..m + extra).map(|_| (C::generator() * fe::<C::ScalarExt>(g)).into()).collect();
    let gens = Gens(gens, C::generator());
    let (mut p, _) = make::<C::ScalarExt, TestRank>(g);
    if g.bool() {
        let q = make::<C::ScalarExt, TestRank>(g).0;
        p.sub_assign(&q);
    }
    let d = dense(&p);
    g.nt(d.iter().any(|x| *x != C::ScalarExt::ZERO));
    note!(g, "{d:?}");
    let want = d.iter().zip(&gens.0).fold(C::identity().to_curve(), |s, (c, p)| s + *p * *c);
    ensure_eq!(p.commit(&gens), want, "commitment to {d:?}");
    ensure_eq!(p.commit_to_affine(&gens), C::from(want), "affine commitment");
    Ok(())
}
fn commit(g: &mut Gen) -> R {
    match g.below(8) {
        0 => commit_in::<pasta_curves::EpAffine>(g),
        1 | 2 => commit_in::<C7>(g),
        3 | 4 => commit_in::<C13>(g),
        _ => commit_in::<C31>(g),
    }
}
/// What does not fit is refused rather than cut off.
fn too_long_in<F: PrimeField>(g: &mut Gen) -> R {
    let (n, m) = (TestRank::n(), TestRank::num_coeffs());
    let over = g.usize(0, 2);
    let last: F = nonzero(g);
    g.nt(true);
    let mut v = vec![F::ZERO; m + over];
    *v.last_mut().unwrap() = last;
    let r = catches(|| dense(&Polynomial::<F, TestRank>::from_coeffs(v.clone())));
    ensure!(r.is_ok() == (over == 0), "{} coefficients accepted", m + over);
    let k = g.usize(0, 3);
    let mut w = vec![vec![]; 4];
    w[k] = vec![F::ZERO; n + over];
    *w[k].last_mut().unwrap() = last;
    let trace = g.bool();
    note!(g, "wire {k}, {over} too many, trace {trace}");
    let r = catches(|| {
        if trace {
            let mut v = View::<F, TestRank, _>::trace();
            [v.a, v.b, v.c, v.d] = w.try_into().unwrap();
            dense(&v.build())
        } else {
            let mut v = View::<F, TestRank, _>::wiring();
            [v.a, v.b, v.c, v.d] = w.try_into().unwrap();
            dense(&v.build())
        }
    });
    ensure!(r.is_ok() == (over == 0), "{} values of one wire accepted", n + over);
    Ok(())
}
fn too_long(g: &mut Gen) -> R {
    too_long_in::<Gf<13>>(g)
}
pub fn polynomials() -> Prop {
    Prop {
        id: "R01",
        subs: vec![
            Sub::new("history", history, 100, 12000, "histories over three polynomials made of dense coefficients, wire views, nothing or at random, with runs of zeros; non-trivial: more than three operations"),
            Sub::new("commit", commit, 60, 4000, "polynomials of every shape and random generators, the identity among them; non-trivial: not the zero polynomial"),
            Sub::new("too_long", too_long, 20, 500, "vectors at and beyond the capacity; every case is non-trivial"),
        ],
        assumptions: &["The coefficient vector written out in full is the reference."],
    }
}

// ------------------------------------------------------------ t(X, Z)
fn t_coeffs<F: Field>(n: usize, z: F) -> Vec<F> {
    let mut c = vec![F::ZERO; 4 * n];
    if z != F::ZERO {
        for i in 0..n {
            c[4 * n - 1 - i] = -(z.pow_vartime([(2 * n - 1 - i) as u64]) + z.pow_vartime([(2 * n + i) as u64]));
        }
    }
    c
}
fn t_forms_in<F: PrimeField, K: Rank>(g: &mut Gen) -> R {
    let n = K::n();
    let (x, z): (F, F) = (fe(g), fe(g));
    note!(g, "x {x:?}, z {z:?}");
    g.nt(x != F::ZERO && z != F::ZERO);
    let want = t_coeffs(n, z);
    ensure!(dense(&K::tz::<F>(z)) == want, "t(X, {z:?}): {:?} instead of {want:?}", dense(&K::tz::<F>(z)));
    let v = model_eval(&want, x);
    // t(x, Z) has a power of Z below the first coefficient of the form only for x = 0
    let tx = K::tx::<F>(x);
    ensure_eq!(tx.eval(z), if x == F::ZERO { F::ZERO } else { v }, "t(x, z) by t(x, Z)");
    let mut c = vec![F::ZERO; 4 * n];
    if x != F::ZERO {
        for i in 0..n {
            let p = x.pow_vartime([(4 * n - 1 - i) as u64]);
            c[2 * n - 1 - i] = -p;
            c[2 * n + i] = -p;
        }
    }
    ensure!(dense(&tx) == c, "t({x:?}, Z): {:?} instead of {c:?}", dense(&tx));
    ensure_eq!(K::txz::<F>(x, z), if x == F::ZERO || z == F::ZERO { F::ZERO } else { v }, "t(x, z)");
    Ok(())
}
fn t_forms(g: &mut Gen) -> R {
    match g.below(10) {
        0..=4 => t_forms_in::<Fp, TestRank>(g),
        5 => t_forms_in::<Fq, ProductionRank>(g),
        6 => t_forms_in::<Gf<13>, ProductionRank>(g),
        _ => t_forms_in::<Gf<31>, TestRank>(g),
    }
}
/// The gates' part of the identity: with t, exactly the products are enforced.
fn t_gates_in<F: PrimeField>(g: &mut Gen) -> R {
    let n = TestRank::n();
    let z: F = rand_fe(g);
    let k = g.usize(1, n);
    let mut w: Vec<[F; 4]> = (0..k)
        .map(|_| {
            let (a, b): (F, F) = (fe(g), fe(g));
            [a, b, a * b, if a * b == F::ZERO { fe(g) } else { F::ZERO }]
        })
        .collect();
    let hit = g.bool();
    if hit {
        let i = g.usize(0, k - 1);
        let j = g.usize(0, 3);
        let by: F = nonzero(g);
        w[i][j] += by;
        if g.bool() {
            let (i, j) = (g.usize(0, k - 1), g.usize(0, 3));
            w[i][j] -= by;
        }
    }
    let good = w.iter().all(|[a, b, c, d]| *a * *b == *c && *c * *d == F::ZERO);
    note!(g, "{w:?}: {good}");
    g.nt(hit && !good);
    let mut v = View::<F, TestRank, _>::trace();
    for [a, b, c, d] in &w {
        v.a.push(*a);
        v.b.push(*b);
        v.c.push(*c);
        v.d.push(*d);
    }
    let r = v.build();
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(&TestRank::tz(z));
    ensure_eq!(r.revdot(&rhs) == F::ZERO, good, "gates {w:?}");
    Ok(())
}
fn t_gates(g: &mut Gen) -> R {
    if g.bool() { t_gates_in::<Fp>(g) } else { t_gates_in::<Fq>(g) }
}
/// The in-circuit evaluation: right, and its output leaves no freedom.
fn t_circuit_in<F: PrimeField, K: Rank>(g: &mut Gen) -> R {
    let (x, z): (F, F) = (fe(g), fe(g));
    note!(g, "x {x:?}, z {z:?}");
    g.nt(true);
    let zero = x == F::ZERO || z == F::ZERO;
    let want = model_eval(&t_coeffs(K::n(), z), x);
    let put = |t| {
        let mut dr = match t {
            None => Rec::<F, Present>::new(),
            Some(t) => Rec::with_tamper(t),
        };
        let a = Element::alloc(&mut dr, Always::<F>::just(|| x)).unwrap();
        let b = Element::alloc(&mut dr, Always::<F>::just(|| z)).unwrap();
        let o = dr.routine(Evaluate::<K>::new(), (a.clone(), b.clone()));
        (dr, a, b, o)
    };
    let (dr, a, b, o) = put(None);
    match o {
        Err(_) => ensure!(zero, "evaluation fails at {x:?}, {z:?}"),
        Ok(o) => {
            ensure!(!zero, "evaluation at zero succeeds");
            ensure_eq!(dr.value(*o.wire()), want, "value of the output wire");
            ensure_eq!(*o.value().take(), want, "value of the output");
            if let Err(e) = dr.satisfied() {
                return Err(format!("unsatisfied: {e}"));
            }
            ensure_eq!(dr.free_output(&[*a.wire(), *b.wire()], &[*o.wire()]), None, "an output that can change while the inputs stay");
            // any other advice is caught
            let k = g.usize(2, dr.gates - 1);
            let (u, v): (F, F) = (rand_fe(g), rand_fe(g));
            let t = tamper_gate(k, g.below(3), u, v);
            let (dr2, _, _, o2) = put(Some(t));
            if let Ok(o2) = o2 {
                ensure!(dr2.satisfied().is_err() || dr2.value(*o2.wire()) == want, "gate {k} with other advice yields another value");
            }
        }
    }
    if !zero {
        let p = *Emulator::emulate_wireless((x, z), |dr, xz| {
            let (x, z) = xz.cast();
            let x = Element::alloc(dr, x)?;
            let z = Element::alloc(dr, z)?;
            dr.routine(Evaluate::<K>::new(), (x, z))
        })
        .unwrap()
        .value()
        .take();
        ensure_eq!(p, want, "predicted value");
    }
    Ok(())
}
fn t_circuit(g: &mut Gen) -> R {
    match g.below(4) {
        0 => t_circuit_in::<Fq, ProductionRank>(g),
        1 => t_circuit_in::<Gf<13>, TestRank>(g),
        _ => t_circuit_in::<Fp, TestRank>(g),
    }
}
pub fn t_poly() -> Prop {
    Prop {
        id: "R02",
        subs: vec![
            Sub::new("forms", t_forms, 40, 4000, "points, zero among them, over four fields and both ranks; non-trivial: neither is zero"),
            Sub::new("gates", t_gates, 60, 8000, "gate values, right or changed in one or two places; non-trivial: changed so that a gate is violated"),
            Sub::new("circuit", t_circuit, 30, 3000, "points over three fields and both ranks; every case is non-trivial"),
        ],
        assumptions: &["Identities over a 255-bit field are tested at a random point."],
    }
}

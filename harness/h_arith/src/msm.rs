use crate::{SIZES, in_pool};
use ff::Field;
use group::{Curve, Group, prime::PrimeCurveAffine};
use pasta_curves::arithmetic::CurveAffine;
use pasta_curves::{EpAffine, EqAffine};
use ragu_arithmetic::{FixedGenerators, batch_to_affine, mul};
use vcs::{fe, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure_eq, note};

/// 4200 multiples of the generator with their discrete logarithms.
fn table<C: CurveAffine>() -> Vec<(C, C::Scalar)> {
    let mut v = vec![];
    let mut p = C::Curve::generator();
    let mut s = C::Scalar::ONE;
    let mut step = C::Scalar::from(7);
    for i in 0..1200u64 {
        v.push((C::from(p), s));
        let k = C::Scalar::from(i) + step;
        if i % 16 == 0 {
            p = p.double();
            s = s.double();
            p += C::Curve::generator() * k;
            s += k;
        } else {
            p = p.double() + C::generator();
            s = s.double() + C::Scalar::ONE;
        }
        step = step.square() + C::Scalar::ONE;
    }
    v
}
fn tab_p() -> &'static [(EpAffine, <EpAffine as PrimeCurveAffine>::Scalar)] {
    static T: std::sync::OnceLock<Vec<(EpAffine, <EpAffine as PrimeCurveAffine>::Scalar)>> = std::sync::OnceLock::new();
    T.get_or_init(table)
}
fn tab_q() -> &'static [(EqAffine, <EqAffine as PrimeCurveAffine>::Scalar)] {
    static T: std::sync::OnceLock<Vec<(EqAffine, <EqAffine as PrimeCurveAffine>::Scalar)>> = std::sync::OnceLock::new();
    T.get_or_init(table)
}
type Pair<C> = (C, <C as PrimeCurveAffine>::Scalar);

/// Scalars and bases; the expected sum follows from the bases' logarithms.
fn instance<C: CurveAffine>(g: &mut Gen, tab: &[Pair<C>], n: usize) -> (Vec<C::Scalar>, Vec<C>, C::Scalar) {
    let mode = g.below(6);
    let one: C::Scalar = fe(g);
    let nb: C::Scalar = C::Scalar::from(2).pow_vartime([g.below(255)]);
    let same = g.below(tab.len() as u64) as usize;
    let seed: C::Scalar = rand_fe(g);
    let mut r = seed;
    let off = g.usize(0, tab.len() - 1);
    let (mut s, mut b, mut want) = (vec![], vec![], C::Scalar::ZERO);
    for i in 0..n {
        r = r.square() + seed;
        // for long inputs draw only now and then, to keep the choice sequence short
        let k = if n <= 40 || i % 61 == 0 {
            match mode {
                0 => one,
                1 => fe(g),
                2 => nb - C::Scalar::from(g.below(2)),
                3 => C::Scalar::from(g.below(70_000)),
                4 => -C::Scalar::from(g.below(4)),
                _ => r,
            }
        } else if mode == 0 {
            one
        } else {
            r
        };
        let (p, l) = match (mode, if n <= 40 { g.below(10) } else { 9 }) {
            (0, _) => tab[same],
            (_, 0) => (C::identity(), C::Scalar::ZERO),
            (_, 1) => tab[same],
            (_, 2) => (-tab[same].0, -tab[same].1),
            _ => tab[(off + i) % tab.len()],
        };
        want += k * l;
        s.push(k);
        b.push(p);
    }
    (s, b, want)
}
fn len(g: &mut Gen) -> usize {
    match g.below(10) {
        0..=4 => g.usize(0, 40),
        5 | 6 => *g.pick(&[3usize, 4, 31, 32, 54, 55, 148, 149, 150]),
        7 => g.usize(41, 200),
        8 => *g.pick(&[403usize, 404, 405, 1096, 1097]),
        _ => g.usize(0, 8),
    }
}
fn sum_in<C: CurveAffine>(g: &mut Gen, name: &str, tab: &[Pair<C>]) -> R {
    let n = len(g);
    let (s, b, want) = instance::<C>(g, tab, n);
    let t = *g.pick(&SIZES);
    note!(g, "{name} {n} terms, {t} threads, scalars {:?}", s.iter().take(2).collect::<Vec<_>>());
    g.nt(n > 1);
    let got = in_pool(t, || mul(s.iter(), b.iter()));
    ensure_eq!(got, C::generator() * want, "sum of {n} products");
    if n <= 12 {
        let direct = s.iter().zip(&b).fold(C::Curve::identity(), |a, (x, p)| a + *p * *x);
        ensure_eq!(got, direct, "sum of {n} products, term by term");
    }
    Ok(())
}
fn sum(g: &mut Gen) -> R {
    if g.bool() { sum_in(g, "Pallas", tab_p()) } else { sum_in(g, "Vesta", tab_q()) }
}
/// Sums so long that their windows are wide; most of the scalars are zero.
fn long_in<C: CurveAffine>(g: &mut Gen, tab: &[Pair<C>]) -> R {
    const AT: [usize; 9] = [1097, 2981, 8104, 22027, 59875, 162755, 442414, 1202605, 3269018];
    let i = g.index as usize;
    // the longest only now and then
    let k = if i % 27 < 24 { i % 7 } else { g.usize(0, if i < 200 { 5 } else { 8 }) };
    let n = AT[k] - 1 + g.usize(0, 2);
    let mut s = vec![C::Scalar::ZERO; n];
    let m = g.usize(1, 40);
    let mut want = C::Scalar::ZERO;
    for j in 0..m {
        let at = match j {
            0 => n - 1,
            1 => 0,
            _ => g.usize(0, n - 1),
        };
        want -= s[at] * tab[at % tab.len()].1;
        s[at] = match g.below(4) {
            0 => fe(g),
            1 => C::Scalar::from(2).pow_vartime([g.below(255)]) - C::Scalar::from(g.below(2)),
            2 => -C::Scalar::from(g.range(1, 4)),
            _ => rand_fe(g),
        };
        want += s[at] * tab[at % tab.len()].1;
    }
    note!(g, "{n} terms, {m} of them not zero, the last {:?}", s[n - 1]);
    g.nt(true);
    let got = mul(s.iter(), (0..n).map(|j| &tab[j % tab.len()].0));
    ensure_eq!(got, C::generator() * want, "sum of {n} products, {m} of them not zero");
    Ok(())
}
fn long(g: &mut Gen) -> R {
    if g.bool() { long_in(g, tab_p()) } else { long_in(g, tab_q()) }
}
/// One scalar, one base, every window boundary.
fn windows(g: &mut Gen) -> R {
    let i = g.index;
    let n = [1usize, 4, 32, 55, 149, 404][(i % 6) as usize];
    let bit = i / 6;
    note!(g, "scalar 2^{bit} at the last of {n} terms");
    g.nt(true);
    let tab = tab_p();
    let s: Vec<_> = (0..n).map(|j| if j + 1 == n { <EpAffine as PrimeCurveAffine>::Scalar::from(2).pow_vartime([bit]) } else { Field::ZERO }).collect();
    let b: Vec<_> = tab[..n].iter().map(|x| x.0).collect();
    ensure_eq!(mul(s.iter(), b.iter()), tab[n - 1].0 * s[n - 1], "single bit {bit} with {n} terms");
    Ok(())
}
fn affine(g: &mut Gen) -> R {
    fn go<C: CurveAffine, const N: usize>(g: &mut Gen, tab: &[Pair<C>]) -> R {
        let pts: [C::Curve; N] = core::array::from_fn(|_| match g.below(5) {
            0 => C::Curve::identity(),
            1 => g.pick(tab).0.to_curve(),
            // not normalised
            2 => g.pick(tab).0.to_curve().double(),
            3 => -(g.pick(tab).0 + g.pick(tab).0),
            _ => g.pick(tab).0 + g.pick(tab).0,
        });
        note!(g, "{N} points, {} of them the identity", pts.iter().filter(|p| bool::from(p.is_identity())).count());
        g.nt(N > 1);
        let a: [C; N] = batch_to_affine(pts);
        for i in 0..N {
            ensure_eq!(a[i].to_curve(), pts[i], "point {i} of {N}");
            ensure_eq!(a[i], pts[i].to_affine(), "affine point {i} of {N}");
        }
        Ok(())
    }
    match g.below(6) {
        0 => go::<EpAffine, 0>(g, tab_p()),
        1 => go::<EpAffine, 1>(g, tab_p()),
        2 => go::<EqAffine, 2>(g, tab_q()),
        3 => go::<EqAffine, 5>(g, tab_q()),
        4 => go::<EpAffine, 9>(g, tab_p()),
        _ => go::<EpAffine, 33>(g, tab_p()),
    }
}
struct Gens<C>(Vec<C>, C);
impl<C: CurveAffine> FixedGenerators<C> for Gens<C> {
    fn g(&self) -> &[C] {
        &self.0
    }
    fn h(&self) -> &C {
        &self.1
    }
}
fn short(g: &mut Gen) -> R {
    let tab = tab_p();
    let n = g.usize(1, 5);
    let (gs, h): (Vec<_>, _) = ((0..n).map(|_| *g.pick(tab)).collect(), *g.pick(tab));
    type S = <EpAffine as PrimeCurveAffine>::Scalar;
    let (v, r): (S, S) = (fe(g), fe(g));
    note!(g, "value {v:?} blind {r:?}");
    g.nt(!bool::from(v.is_zero()) && !bool::from(r.is_zero()));
    let got = Gens(gs.iter().map(|x| x.0).collect(), h.0).short_commit(v, r);
    ensure_eq!(got.to_curve(), EpAffine::generator() * (gs[0].1 * v + h.1 * r), "commitment to one value");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "A04",
        subs: vec![
            Sub::new("sums", sum, 2_500, 60_000, "sums of 0 to 1100 products around the bucket thresholds, special scalars, identity, repeated and opposite bases, both curves, pools of 1 to 40 threads; expected value from the bases' known logarithms; non-trivial: > 1 term"),
            Sub::new("long", long, 3, 400, "sums of about 1097, 2981, ... up to 442 thousand (thorough: 3.3 million) terms, one fewer or more, 1 to 40 of them with a scalar other than zero, the last among them; expected value from the logarithms; every case is non-trivial"),
            Sub::enumerated("windows", windows, 6 * 254, "every single-bit scalar at six input sizes"),
            Sub::new("affine", affine, 2_000, 60_000, "batches of up to 33 points including identities; non-trivial: > 1 point"),
            Sub::new("short_commit", short, 1_000, 30_000, "commitments to one value; non-trivial: value and blind not zero"),
        ],
        assumptions: &["curve arithmetic of the stand-in pasta_curves/group crates is right (they are not part of the repository)"],
    }
}
fn threads(g: &mut Gen) -> R {
    let n = len(g).min(200);
    let (s, b, want) = instance::<EqAffine>(g, tab_q(), n);
    note!(g, "{n} terms in pools of {SIZES:?}");
    g.nt(n > 1);
    for t in SIZES {
        ensure_eq!(in_pool(t, || mul(s.iter(), b.iter())), EqAffine::generator() * want, "sum on {t} threads");
    }
    Ok(())
}
pub fn parallel() -> Vec<Sub> {
    vec![Sub::new("sum_threads", threads, 60, 4_000, "one multiscalar sum in pools of 1 to 40 threads; non-trivial: > 1 term")]
}

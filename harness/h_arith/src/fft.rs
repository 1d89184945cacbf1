use crate::{SIZES, in_pool};
use ff::{Field, PrimeField};
use group::Group;
use pasta_curves::{Ep, Fp, Fq};
use ragu_arithmetic::{Domain, Ring};
use vcs::{Gf, fe, rand_fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

type G97 = Gf<97>;
type G257 = Gf<257>;
type G12289 = Gf<12289>;

fn naive_eval<F: Field>(c: &[F], x: F) -> F {
    let mut p = F::ONE;
    let mut s = F::ZERO;
    for a in c {
        s += *a * p;
        p *= x;
    }
    s
}
/// The generator a domain of size 2^k must have a primitive root as.
fn primitive<F: PrimeField>(w: F, k: u32) -> bool {
    let mut x = w;
    for _ in 0..k {
        if x == F::ONE {
            return false;
        }
        x = x.square();
    }
    x == F::ONE
}
fn coeffs<F: PrimeField>(g: &mut Gen, n: usize) -> Vec<F> {
    match g.below(5) {
        0 => {
            let (i, x) = (g.below(n as u64) as usize, fe(g));
            (0..n).map(|j| if i == j { x } else { F::ZERO }).collect()
        }
        1 => {
            let x = fe(g);
            vec![x; n]
        }
        2 => {
            // powers of one value
            let (x, mut p): (F, F) = (fe(g), fe(g));
            (0..n)
                .map(|_| {
                    let r = p;
                    p *= x;
                    r
                })
                .collect()
        }
        _ => {
            let s: F = rand_fe(g);
            let mut p = s;
            (0..n)
                .map(|i| {
                    p = p * s + F::from(i as u64 + 1);
                    p
                })
                .collect()
        }
    }
}
fn transform_in<F: PrimeField>(g: &mut Gen, name: &str, max_k: u32) -> R {
    let k = g.range(0, max_k.min(F::S) as u64) as u32;
    let threads = *g.pick(&SIZES);
    let n = 1usize << k;
    let c: Vec<F> = coeffs(g, n);
    note!(g, "{name} 2^{k} points, {threads} threads, first {:?}", c.iter().take(2).collect::<Vec<_>>());
    g.nt(k >= 2);
    let d = Domain::<F>::new(k);
    ensure_eq!((d.n(), d.log2_n()), (n, k), "domain size");
    let w = d.omega();
    ensure!(primitive(w, k), "generator of a domain of size 2^{k} is not a primitive root");
    let mut e = c.clone();
    in_pool(threads, || d.fft(&mut e));
    // all points for small sizes, a sample (first, last, random) otherwise
    let pts: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..24).map(|_| g.usize(0, n - 1)).chain([0, 1, n / 2, n - 1]).collect() };
    for i in pts {
        ensure_eq!(e[i], naive_eval(&c, w.pow_vartime([i as u64])), "value {i} of the transform");
    }
    let mut back = e.clone();
    in_pool(threads, || d.ifft(&mut back));
    ensure!(back == c, "inverse transform of the transform");
    let mut inv = c.clone();
    in_pool(threads, || d.ifft(&mut inv));
    in_pool(threads, || d.fft(&mut inv));
    ensure!(inv == c, "transform of the inverse transform");
    Ok(())
}
fn transform(g: &mut Gen) -> R {
    match g.below(5) {
        0 => transform_in::<G97>(g, "GF(97)", 9),
        1 => transform_in::<G257>(g, "GF(257)", 9),
        2 => transform_in::<Fq>(g, "Fq", 9),
        3 => transform_in::<G12289>(g, "GF(12289)", 12),
        _ => transform_in::<Fp>(g, "Fp", 9),
    }
}

/// Short vectors over F as a module.
struct Vecs<F, const N: usize>(core::marker::PhantomData<F>);
#[derive(Clone, PartialEq, Debug)]
struct Arr<F, const N: usize>([F; N]);
impl<F: Field, const N: usize> Default for Arr<F, N> {
    fn default() -> Self {
        Arr([F::ZERO; N])
    }
}
impl<F: Field, const N: usize> Ring for Vecs<F, N> {
    type R = Arr<F, N>;
    type F = F;
    fn scale_assign(r: &mut Self::R, by: F) {
        r.0.iter_mut().for_each(|x| *x *= by)
    }
    fn add_assign(r: &mut Self::R, o: &Self::R) {
        r.0.iter_mut().zip(&o.0).for_each(|(x, y)| *x += *y)
    }
    fn sub_assign(r: &mut Self::R, o: &Self::R) {
        r.0.iter_mut().zip(&o.0).for_each(|(x, y)| *x -= *y)
    }
}
struct Points;
impl Ring for Points {
    type R = Ep;
    type F = Fq;
    fn scale_assign(r: &mut Ep, by: Fq) {
        *r *= by
    }
    fn add_assign(r: &mut Ep, o: &Ep) {
        *r += *o
    }
    fn sub_assign(r: &mut Ep, o: &Ep) {
        *r -= *o
    }
}
fn modules(g: &mut Gen) -> R {
    let threads = *g.pick(&SIZES);
    if g.chance(1, 8) {
        let k = g.range(0, 4) as u32;
        let n = 1 << k;
        let s: Vec<Fq> = coeffs(g, n);
        note!(g, "2^{k} curve points, {threads} threads");
        g.nt(k >= 2);
        let d = Domain::<Fq>::new(k);
        let mut p: Vec<Ep> = s.iter().map(|x| Ep::generator() * *x).collect();
        let mut e = s.clone();
        in_pool(threads, || d.ring_fft::<Points>(&mut p));
        d.fft(&mut e);
        for i in 0..n {
            ensure_eq!(p[i], Ep::generator() * e[i], "transform of points, position {i}");
        }
        in_pool(threads, || d.ring_ifft::<Points>(&mut p));
        for i in 0..n {
            ensure_eq!(p[i], Ep::generator() * s[i], "inverse transform of points, position {i}");
        }
        return Ok(());
    }
    let k = g.range(0, 8) as u32;
    let n = 1 << k;
    note!(g, "2^{k} vectors of 3, {threads} threads");
    g.nt(k >= 2);
    let cols: Vec<Vec<G257>> = (0..3).map(|_| coeffs(g, n)).collect();
    let d = Domain::<G257>::new(k);
    let orig: Vec<Arr<G257, 3>> = (0..n).map(|i| Arr([cols[0][i], cols[1][i], cols[2][i]])).collect();
    let mut v = orig.clone();
    in_pool(threads, || d.ring_fft::<Vecs<G257, 3>>(&mut v));
    for (j, c) in cols.iter().enumerate() {
        for i in 0..n {
            ensure_eq!(v[i].0[j], naive_eval(c, d.omega().pow_vartime([i as u64])), "component {j} of value {i}");
        }
    }
    in_pool(threads, || d.ring_ifft::<Vecs<G257, 3>>(&mut v));
    ensure!(v == orig, "inverse transform of vectors");
    Ok(())
}

fn lagrange_in<F: PrimeField>(g: &mut Gen, name: &str, max_k: u32) -> R {
    let k = g.range(0, max_k.min(F::S) as u64) as u32;
    let n = 1usize << k;
    let d = Domain::<F>::new(k);
    let w = d.omega();
    let x: F = match g.below(6) {
        0 => w.pow_vartime([g.below(n as u64)]),
        1 => {
            // roots of unity of other orders
            let j = g.range(0, F::S.min(12) as u64) as u32;
            Domain::<F>::new(j).omega().pow_vartime([g.below(1 << j)])
        }
        2 => -w.pow_vartime([g.below(n as u64)]),
        _ => fe(g),
    };
    let amount = match g.below(4) {
        0 => n,
        1 => 0,
        _ => g.usize(0, n),
    };
    let pts: Vec<F> = (0..n).scan(F::ONE, |a, _| { let r = *a; *a *= w; Some(r) }).collect();
    let inside = pts.contains(&x);
    note!(g, "{name} domain 2^{k}, x={x:?}, {amount} values, x in the domain: {inside}");
    g.nt(!inside && amount > 1);
    if inside {
        g.label("in domain");
    }
    ensure_eq!(d.contains(x), inside, "membership");
    let e = d.ell(x, amount);
    ensure_eq!(e.is_none(), inside, "no values exactly for points of the domain");
    let Some(e) = e else { return Ok(()) };
    ensure_eq!(e.len(), amount, "number of values");
    // l_i(x) = prod_{j != i} (x - w^j)/(w^i - w^j); checked without the closed form
    let check: Vec<usize> = if n <= 32 { (0..amount).collect() } else { (0..amount.min(6)).map(|_| g.usize(0, amount.max(1) - 1)).chain(amount.checked_sub(1)).collect() };
    for i in check {
        let (mut num, mut den) = (F::ONE, F::ONE);
        for j in 0..n {
            if j != i {
                num *= x - pts[j];
                den *= pts[i] - pts[j];
            }
        }
        ensure_eq!(e[i] * den, num, "Lagrange value {i}");
    }
    Ok(())
}
fn lagrange(g: &mut Gen) -> R {
    match g.below(4) {
        0 => lagrange_in::<G97>(g, "GF(97)", 5),
        1 => lagrange_in::<G257>(g, "GF(257)", 8),
        2 => lagrange_in::<Fq>(g, "Fq", 7),
        _ => lagrange_in::<Fp>(g, "Fp", 7),
    }
}
/// All (k, x) of GF(97), all k of the large fields.
fn whole(g: &mut Gen) -> R {
    let i = g.index;
    g.nt(true);
    fn tiny<F: PrimeField>(k: u32, all: impl Iterator<Item = F>) -> R {
        let d = Domain::<F>::new(k);
        let pts: Vec<F> = (0..d.n()).map(|i| d.omega().pow_vartime([i as u64])).collect();
        for (a, p) in pts.iter().enumerate() {
            ensure!(!pts[..a].contains(p), "domain of size 2^{k} repeats a point");
        }
        for x in all {
            ensure_eq!(d.contains(x), pts.contains(&x), "membership of {x:?} in the domain of size 2^{k}");
            ensure_eq!(d.ell(x, d.n()).is_none(), pts.contains(&x), "Lagrange values at {x:?}");
        }
        let mut v = vec![F::ONE; d.n()];
        d.ifft(&mut v);
        ensure!(v[0] == F::ONE && v[1..].iter().all(|x| bool::from(x.is_zero())), "constant");
        Ok(())
    }
    fn big<F: PrimeField>(k: u32) -> R {
        let d = Domain::<F>::new(k);
        ensure_eq!((d.n(), d.log2_n()), (1usize << k, k), "size");
        ensure!(primitive(d.omega(), k), "primitive root for 2^{k}");
        ensure!(d.contains(F::ONE) && d.contains(d.omega()) && d.contains(d.omega().invert().unwrap()), "contains its points");
        ensure!(!d.contains(F::ZERO) && !d.contains(F::MULTIPLICATIVE_GENERATOR), "contains only its points");
        if k > 0 {
            ensure_eq!(Domain::<F>::new(k - 1).omega(), d.omega().square(), "nested domains");
            ensure!(!Domain::<F>::new(k - 1).contains(d.omega()), "the generator is not in the half domain");
        }
        Ok(())
    }
    match i {
        0..=5 => { note!(g, "GF(97) 2^{i}"); tiny(i as u32, G97::all()) }
        6..=14 => { note!(g, "GF(257) 2^{}", i - 6); tiny(i as u32 - 6, G257::all()) }
        15..=47 => { note!(g, "Fp 2^{}", i - 15); big::<Fp>(i as u32 - 15) }
        48..=80 => { note!(g, "Fq 2^{}", i - 48); big::<Fq>(i as u32 - 48) }
        81 => {
            ensure_eq!(Domain::<Fp>::default().log2_n(), 32, "default domain");
            ensure_eq!(Domain::<Gf<97>>::default().log2_n(), 5, "default domain");
            ensure_eq!(Domain::<Gf<97>>::default().omega(), Domain::<Gf<97>>::new(5).omega(), "default domain");
            let mut v: Vec<G97> = (0..32).map(Gf).collect();
            let o = v.clone();
            let d = Domain::<G97>::default();
            d.fft(&mut v);
            d.ifft(&mut v);
            ensure_eq!(v, o, "default domain round trip");
            Ok(())
        }
        _ => {
            let k = (i - 82) as u32;
            note!(g, "too large by {}", k + 1);
            ensure!(catches(|| Domain::<Fp>::new(33 + k)).is_err(), "a domain of size 2^{} does not exist in Fp", 33 + k);
            ensure!(catches(|| Domain::<Gf<97>>::new(6 + k)).is_err(), "a domain of size 2^{} does not exist in GF(97)", 6 + k);
            Ok(())
        }
    }
}
fn refusals(g: &mut Gen) -> R {
    let k = g.range(0, 6) as u32;
    let n = 1usize << k;
    let len = match g.below(4) {
        0 => n + 1,
        1 => n - 1,
        2 => n << g.range(1, 2),
        _ => g.usize(0, 100),
    };
    let inv = g.bool();
    let amount = n + g.usize(1, 5);
    note!(g, "domain 2^{k}, {len} values, inverse {inv}");
    g.nt(len != n);
    let d = Domain::<G257>::new(k);
    let mut v: Vec<G257> = (0..len as u64).map(|x| Gf(x + 1)).collect();
    let r = catches(|| if inv { d.ifft(&mut v) } else { d.fft(&mut v) });
    ensure_eq!(r.is_err(), len != n, "transform of {len} values over a domain of size {n} refused");
    ensure!(catches(|| d.ell(Gf(3), amount)).is_err(), "more Lagrange values ({amount}) than points ({n})");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "A03",
        subs: vec![
            Sub::new("transform", transform, 3_000, 200_000, "transforms of 1 to 4096 values over four fields in pools of 1 to 40 threads vs. direct evaluation, and both round trips; non-trivial: >= 4 values"),
            Sub::new("modules", modules, 600, 30_000, "the same over vectors and over curve points; non-trivial: >= 4 values"),
            Sub::new("lagrange", lagrange, 6_000, 400_000, "Lagrange values at random points, points of the domain, of other domains, and their negatives, vs. the product formula; non-trivial: outside the domain, more than one value"),
            Sub::enumerated("whole_domains", whole, 86, "every domain size of four fields; membership of every element of GF(97) and GF(257)"),
            Sub::new("refusals", refusals, 400, 20_000, "wrong lengths and amounts; non-trivial: wrong length"),
        ],
        assumptions: &["curve and field arithmetic of the stand-in pasta_curves/ff crates is right (they are not part of the repository)"],
    }
}

fn same_everywhere(g: &mut Gen) -> R {
    let k = g.range(0, 10) as u32;
    let c: Vec<Fp> = coeffs(g, 1 << k);
    note!(g, "transform of 2^{k} values in pools of {SIZES:?}");
    g.nt(k > 1);
    let d = Domain::<Fp>::new(k);
    let run = |t: usize| in_pool(t, || { let mut v = c.clone(); d.fft(&mut v); let f = v.clone(); d.ifft(&mut v); (f, v) });
    let one = run(1);
    for t in &SIZES[1..] {
        ensure!(run(*t) == one, "transform with {t} threads differs from the one with a single thread");
    }
    Ok(())
}
fn nested(g: &mut Gen) -> R {
    // several transforms at once, inside one pool
    let t = *g.pick(&SIZES);
    let k = g.range(1, 7) as u32;
    let jobs: Vec<Vec<Fp>> = g.vec(1, 6, |g| coeffs(g, 1 << k));
    note!(g, "{} transforms of 2^{k} at once on {t} threads", jobs.len());
    g.nt(jobs.len() > 1);
    let d = Domain::<Fp>::new(k);
    let serial: Vec<Vec<Fp>> = jobs.iter().map(|j| { let mut v = j.clone(); in_pool(1, || d.fft(&mut v)); v }).collect();
    let par = in_pool(t, || {
        fn go(js: &[Vec<Fp>], d: &Domain<Fp>) -> Vec<Vec<Fp>> {
            if js.len() == 1 {
                let mut v = js[0].clone();
                d.fft(&mut v);
                return vec![v];
            }
            let m = js.len() / 2;
            let (mut a, b) = rayon::join(|| go(&js[..m], d), || go(&js[m..], d));
            a.extend(b);
            a
        }
        go(&jobs, &d)
    });
    ensure!(par == serial, "transforms run together differ from the ones run alone");
    Ok(())
}
pub fn parallel() -> Prop {
    Prop {
        id: "A02",
        subs: vec![
            Sub::new("transform_threads", same_everywhere, 120, 8_000, "one transform in pools of 1 to 40 threads; non-trivial: >= 4 values"),
            Sub::new("transforms_together", nested, 200, 10_000, "several transforms inside one pool; non-trivial: more than one"),
        ],
        assumptions: &["thread interleavings are those the scheduler happens to produce"],
    }
}

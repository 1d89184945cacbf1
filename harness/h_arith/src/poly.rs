use ff::{Field, PrimeField};
use num_bigint::BigUint;
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::{Coeff, bitreverse, dot, eval, factor, factor_iter, geosum, low_u64, poly_with_roots};
use vcs::{Gf, coeff, cval, fe, rand_fe};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

fn any_vec<F: PrimeField>(g: &mut Gen, lo: usize, hi: usize) -> Vec<F> {
    match g.below(4) {
        0 => {
            let x = fe(g);
            vec![x; g.usize(lo, hi)]
        }
        1 => g.vec(lo, hi.min(lo + 6), fe),
        2 => {
            // trailing and leading zeros
            let mut v: Vec<F> = vec![F::ZERO; g.usize(0, 3)];
            v.extend(g.vec(lo, (lo + 5).min(hi), fe::<F>));
            v.extend(vec![F::ZERO; g.usize(0, 3)]);
            v
        }
        _ => g.vec(lo, hi, fe),
    }
}
/// Mostly `hi`; now and then hundreds or thousands.
fn reach(g: &mut Gen, hi: usize) -> usize {
    if g.chance(1, 300) { *g.pick(&[130, 300, 1100, 3000]) } else { hi }
}
fn naive<F: Field>(c: &[F], x: F) -> F {
    let (mut p, mut s) = (F::ONE, F::ZERO);
    for a in c {
        s += *a * p;
        p *= x;
    }
    s
}
fn mul_poly<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * *y;
        }
    }
    r
}
fn evaluation_in<F: PrimeField>(g: &mut Gen) -> R {
    let hi = reach(g, 40);
    let c: Vec<F> = any_vec(g, 0, hi);
    let x: F = fe(g);
    note!(g, "{} coefficients at {x:?}", c.len());
    g.nt(c.len() > 1);
    ensure_eq!(eval(&c, x), naive(&c, x), "evaluation");
    ensure_eq!(eval(c.iter(), x), naive(&c, x), "evaluation of an iterator");
    let d: Vec<F> = if g.chance(1, 3) { any_vec(g, 0, 40) } else { (0..c.len()).map(|_| fe(g)).collect() };
    let r = catches(|| dot(c.iter(), d.iter()));
    if c.len() == d.len() {
        ensure_eq!(r, Ok(c.iter().zip(&d).map(|(a, b)| *a * *b).sum::<F>()), "inner product");
    } else {
        g.label("unequal lengths");
        ensure!(r.is_err(), "inner product of {} and {} values", c.len(), d.len());
    }
    Ok(())
}
fn evaluation(g: &mut Gen) -> R {
    match g.below(3) { 0 => evaluation_in::<Fp>(g), 1 => evaluation_in::<Fq>(g), _ => evaluation_in::<Gf<13>>(g) }
}
fn division_in<F: PrimeField>(g: &mut Gen) -> R {
    let b: F = fe(g);
    let hi = reach(g, 30);
    let q0: Vec<F> = any_vec(g, 1, hi);
    let (a, exact): (Vec<F>, bool) = match g.below(4) {
        0 => (any_vec(g, 0, hi), false),
        1 => (any_vec(g, 1, 2), false),
        _ => (mul_poly(&q0, &[-b, F::ONE]), true),
    };
    note!(g, "dividing {:?}.. ({} coefficients) by X - {b:?}, root: {exact}", a.iter().take(4).collect::<Vec<_>>(), a.len());
    g.nt(a.len() > 2);
    if a.is_empty() {
        ensure!(catches(|| factor(a.clone(), b)).is_err(), "nothing to divide");
        ensure!(catches(|| factor_iter(a.clone(), b).count()).is_err(), "nothing to divide, iterator");
        return Ok(());
    }
    let q = factor(a.clone(), b);
    ensure_eq!(q.len(), a.len() - 1, "number of coefficients of the quotient");
    if exact {
        ensure_eq!(q, q0, "exact quotient");
    }
    // q * (X - b) + a(b) = a
    let mut back = if q.is_empty() { vec![F::ZERO] } else { mul_poly(&q, &[-b, F::ONE]) };
    back[0] += naive(&a, b);
    ensure_eq!(back, a, "quotient times divisor plus remainder");
    let mut rev: Vec<F> = factor_iter(a.clone(), b).collect();
    // laziness must not matter
    let half: Vec<F> = factor_iter(a.iter().copied(), b).take(rev.len() / 2).collect();
    ensure_eq!(half[..], rev[..rev.len() / 2], "partially consumed quotient");
    rev.reverse();
    ensure_eq!(rev, q, "quotient from the highest degree down");
    Ok(())
}
fn division(g: &mut Gen) -> R {
    match g.below(3) { 0 => division_in::<Fp>(g), 1 => division_in::<Fq>(g), _ => division_in::<Gf<13>>(g) }
}
fn geometric_in<F: PrimeField>(g: &mut Gen) -> R {
    let r: F = fe(g);
    let m = match g.below(6) {
        5 => (g.usize(1, 7) << g.range(0, 61)).wrapping_sub(g.usize(0, 1)),
        0 => g.usize(0, 5),
        1 => (1usize << g.range(0, 12)) - g.usize(0, 1),
        2 => g.usize(0, 5000),
        3 => g.u64() as usize,
        _ => usize::MAX - g.usize(0, 3),
    };
    note!(g, "r={r:?} m={m}");
    g.nt(m > 2);
    let got = geosum(r, m);
    if m <= 5000 {
        let (mut p, mut s) = (F::ONE, F::ZERO);
        for _ in 0..m {
            s += p;
            p *= r;
        }
        ensure_eq!(got, s, "geometric sum");
    }
    // (r - 1) * sum = r^m - 1, and the sum is m when r = 1
    ensure_eq!(got * (r - F::ONE), r.pow_vartime([m as u64]) - F::ONE, "telescoped geometric sum");
    if r == F::ONE {
        ensure_eq!(got, F::from(m as u64), "geometric sum of ones");
    }
    Ok(())
}
fn geometric(g: &mut Gen) -> R {
    match g.below(3) { 0 => geometric_in::<Fp>(g), 1 => geometric_in::<Fq>(g), _ => geometric_in::<Gf<97>>(g) }
}
fn roots_in<F: PrimeField>(g: &mut Gen, max: usize) -> R {
    let n = match g.below(5) {
        0 => g.usize(0, 6),
        1 => ((1usize << g.range(0, 8)) + g.usize(0, 2)).saturating_sub(1).min(max),
        2 => g.usize(0, max),
        _ => g.usize(0, max.min(40)),
    };
    let base: F = rand_fe(g);
    let w = ragu_arithmetic::Domain::<F>::new(5.min(F::S)).omega();
    let mode = g.below(6);
    let mut r = base;
    let roots: Vec<F> = (0..n)
        .map(|i| {
            r = r * base + F::ONE;
            match mode {
                0 => base,
                1 => F::ZERO,
                2 => w.pow_vartime([i as u64]),
                3 => F::from(i as u64 % 5),
                4 => if i % 3 == 0 { F::ZERO } else { r },
                _ => r,
            }
        })
        .collect();
    note!(g, "{n} roots, kind {mode}, first {:?}", roots.iter().take(3).collect::<Vec<_>>());
    g.nt(n > 2);
    let mut want = vec![F::ONE];
    for x in &roots {
        want = mul_poly(&want, &[-*x, F::ONE]);
    }
    ensure_eq!(poly_with_roots(&roots), want, "coefficients of the product");
    Ok(())
}
fn roots(g: &mut Gen) -> R {
    match g.below(4) { 0 => roots_in::<Fq>(g, 300), 1 => roots_in::<Gf<257>>(g, 250), 2 => roots_in::<Gf<12289>>(g, 400), _ => roots_in::<Fp>(g, 300) }
}
fn bits(g: &mut Gen) -> R {
    let l = g.range(0, 32) as u32;
    let full = g.u64() as u32;
    let n = if l == 32 { full } else { full & ((1u32 << l) - 1) };
    note!(g, "{n} in {l} bits");
    g.nt(l > 2);
    let mut want = 0u32;
    for i in 0..l {
        if n >> i & 1 == 1 {
            want |= 1 << (l - 1 - i);
        }
    }
    ensure_eq!(bitreverse(n, l), want, "reversed bits");
    ensure_eq!(bitreverse(want, l), n, "reversed twice");
    // "Reverses the lowest l bits": higher bits do not matter
    ensure_eq!(bitreverse(full, l), want, "reversed bits of a wider number");
    Ok(())
}
fn low(g: &mut Gen) -> R {
    let v = match g.below(4) { 0 => BigUint::from(g.u64()), 1 => BigUint::from(g.u64()) << 64, 2 => BigUint::from(g.u128()) << g.range(0, 125), _ => (BigUint::from(g.u128()) << 125) + BigUint::from(g.u64()) };
    note!(g, "{v:x}");
    g.nt(v.bits() > 64);
    let want = v.iter_u64_digits().next().unwrap_or(0);
    fn to<F: PrimeField>(v: &BigUint) -> F {
        let b = F::from(u64::MAX) + F::ONE;
        v.iter_u64_digits().rev().fold(F::ZERO, |a, d| a * b + F::from(d))
    }
    ensure_eq!(low_u64(&to::<Fp>(&v)), want, "low word in Fp");
    ensure_eq!(low_u64(&to::<Fq>(&v)), want, "low word in Fq");
    Ok(())
}
pub fn prop() -> Prop {
    Prop {
        id: "A05",
        subs: vec![
            Sub::new("evaluation", evaluation, 20_000, 600_000, "evaluations and inner products of up to 46 values (now and then up to 3000), unequal lengths included; non-trivial: > 1 coefficient"),
            Sub::new("division", division, 20_000, 600_000, "division by X - b of up to 36 coefficients (now and then up to 3000) with and without remainder, recombined; non-trivial: > 2 coefficients"),
            Sub::new("geometric", geometric, 8_000, 300_000, "geometric sums of 0 to 2^64-1 terms; non-trivial: > 2 terms"),
            Sub::new("roots", roots, 1_500, 60_000, "products of up to 400 linear factors with repeated, zero and root-of-unity roots vs. schoolbook multiplication; non-trivial: > 2 roots"),
            Sub::new("bit_reversal", bits, 20_000, 1_000_000, "bit reversal of 0 to 32 bits; non-trivial: > 2 bits"),
            Sub::new("low_word", low, 4_000, 200_000, "low word of values below 2^253; non-trivial: more than one word"),
        ],
        assumptions: &["field arithmetic of the stand-in pasta_curves/ff crates is right (they are not part of the repository)"],
    }
}

fn algebra_in<F: PrimeField>(g: &mut Gen) -> R {
    // a random expression over coefficients, evaluated both ways
    let n = g.usize(2, 12);
    let mut st: Vec<(Coeff<F>, F)> = vec![];
    for _ in 0..n {
        let c: Coeff<F> = coeff(g);
        let v = cval(&c);
        st.push((c, v));
    }
    note!(g, "{:?}", st.iter().map(|x| format!("{:?}", x.0)).collect::<Vec<_>>());
    g.nt(n > 2);
    while st.len() > 1 {
        for (c, v) in &st {
            ensure_eq!(c.value(), *v, "value of {c:?}");
            ensure_eq!(c.is_zero(), bool::from(v.is_zero()), "is_zero of {c:?}");
        }
        let i = g.below(st.len() as u64) as usize;
        let (a, x) = st.swap_remove(i);
        let j = g.below(st.len() as u64) as usize;
        let (b, y) = st[j];
        st[j] = if g.bool() { (a + b, x + y) } else { (a * b, x * y) };
        ensure_eq!(st[j].0.value(), st[j].1, "{a:?} op {b:?}");
        if st.len() < 6 && g.chance(1, 3) {
            let c: Coeff<F> = coeff(g);
            st.push((c, cval(&c)));
        }
        if g.log.len() > 400 {
            break;
        }
    }
    ensure_eq!(st[0].0.value(), st[0].1, "value of the whole");
    ensure_eq!(st[0].0.is_zero(), bool::from(st[0].1.is_zero()), "zero test of the whole");
    let x: F = fe(g);
    ensure_eq!(Coeff::from(x).value(), x, "a field element as a coefficient");
    Ok(())
}
fn algebra(g: &mut Gen) -> R {
    match g.below(3) { 0 => algebra_in::<Fp>(g), 1 => algebra_in::<Fq>(g), _ => algebra_in::<Gf<5>>(g) }
}
/// Every pair of encodings over GF(5): 14 x 14 operands.
fn pairs(g: &mut Gen) -> R {
    type F = Gf<5>;
    fn nth(i: u64) -> Coeff<F> {
        match i {
            0 => Coeff::Zero,
            1 => Coeff::One,
            2 => Coeff::Two,
            3 => Coeff::NegativeOne,
            4..=8 => Coeff::Arbitrary(Gf(i - 4)),
            _ => Coeff::NegativeArbitrary(Gf(i - 9)),
        }
    }
    let (a, b) = (nth(g.index / 14), nth(g.index % 14));
    note!(g, "{a:?}, {b:?}");
    g.nt(true);
    ensure_eq!((a + b).value(), cval(&a) + cval(&b), "{a:?} + {b:?}");
    ensure_eq!((a * b).value(), cval(&a) * cval(&b), "{a:?} * {b:?}");
    ensure_eq!((a + b).is_zero(), cval(&a) + cval(&b) == Gf(0), "zero test of {a:?} + {b:?}");
    ensure_eq!((a * b).is_zero(), cval(&a) * cval(&b) == Gf(0), "zero test of {a:?} * {b:?}");
    ensure_eq!(a.is_zero(), cval(&a) == Gf(0), "zero test");
    Ok(())
}
pub fn coeff_prop() -> Prop {
    Prop {
        id: "A06",
        subs: vec![
            Sub::new("expressions", algebra, 30_000, 2_000_000, "random sums and products over all encodings, values checked after every step; non-trivial: > 2 operands"),
            Sub::enumerated("all_pairs", pairs, 14 * 14, "every pair of encodings over GF(5)"),
        ],
        assumptions: &["the meaning of each encoding is the documented one (Two is 2, NegativeArbitrary(x) is -x)"],
    }
}

//! The public parameters of the Pasta cycle.
use ff::{Field, PrimeField};
use group::{Curve, Group, prime::PrimeCurveAffine};
use num_bigint::BigUint;
use pasta_curves::arithmetic::CurveAffine;
use ragu_arithmetic::{Cycle, FixedGenerators, PoseidonPermutation, batch_to_affine};
use ragu_pasta::{Fp, Fq, Pasta, PastaParams, PoseidonFp, PoseidonFq};
use std::collections::HashMap;
use std::sync::OnceLock;
use vcs::fe;
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

fn generated() -> &'static PastaParams {
    static P: OnceLock<PastaParams> = OnceLock::new();
    P.get_or_init(Pasta::generate)
}
/// Every point a commitment could be confused with: the generators, their
/// doubles and neighbouring sums, by x coordinate.
fn relations<C: CurveAffine>(all: &[C]) -> HashMap<Vec<u8>, Vec<String>> {
    let mut m: HashMap<Vec<u8>, Vec<String>> = HashMap::new();
    let mut put = |p: C::Curve, name: String| {
        let key = match Option::<_>::from(p.to_affine().coordinates()) {
            Some(c) => {
                let c: ragu_arithmetic::Coordinates<C> = c;
                c.x().to_repr().as_ref().to_vec()
            }
            None => vec![],
        };
        m.entry(key).or_default().push(name);
    };
    for (i, p) in all.iter().enumerate() {
        put(p.to_curve(), format!("generator {i}"));
        put(p.to_curve().double(), format!("twice generator {i}"));
        if i > 0 {
            put(*p + all[i - 1], format!("generators {} + {i}", i - 1));
        }
    }
    m
}
type Rel = OnceLock<HashMap<Vec<u8>, Vec<String>>>;
fn one_point<C: CurveAffine>(g: &mut Gen, name: &str, i: usize, a: &impl FixedGenerators<C>, b: &impl FixedGenerators<C>, rel: &Rel) -> R {
    let n = a.g().len();
    ensure_eq!(n, 1 << 13, "number of {name} generators (baked)");
    ensure_eq!(b.g().len(), n, "number of {name} generators (generated)");
    let (p, q, what) = if i == n { (a.h(), b.h(), "the blinding generator".to_string()) } else { (&a.g()[i], &b.g()[i], format!("generator {i}")) };
    note!(g, "{name} {what}");
    g.nt(true);
    ensure_eq!(p, q, "{what}: baked and generated parameters agree");
    ensure!(bool::from(p.is_on_curve()), "{what} is on the curve");
    ensure!(!bool::from(p.is_identity()), "{what} is not the identity");
    ensure!(*p != C::generator() && *p != -C::generator(), "{what} is not the standard generator");
    let rel = rel.get_or_init(|| relations(&a.g().iter().chain([a.h()]).copied().collect::<Vec<_>>()));
    let c: ragu_arithmetic::Coordinates<C> = Option::from(p.coordinates()).unwrap();
    let same = &rel[c.x().to_repr().as_ref()];
    ensure!(same.len() == 1, "{name} points with a common x coordinate: {same:?}");
    Ok(())
}
fn points(g: &mut Gen) -> R {
    static RP: Rel = OnceLock::new();
    static RQ: Rel = OnceLock::new();
    let n = (1 << 13) + 1;
    let i = g.index as usize;
    let (a, b) = (Pasta::baked(), generated());
    if i < n {
        one_point(g, "Pallas", i, Pasta::nested_generators(a), Pasta::nested_generators(b), &RP)
    } else {
        one_point(g, "Vesta", i - n, Pasta::host_generators(a), Pasta::host_generators(b), &RQ)
    }
}
/// Commitments made with baked and generated parameters agree and are the sums they should be.
fn commits(g: &mut Gen) -> R {
    let (a, b) = (Pasta::baked(), generated());
    let (v, r): (Fp, Fp) = (fe(g), fe(g));
    let (w, s): (Fq, Fq) = (fe(g), fe(g));
    note!(g, "values {v:?} {w:?}");
    g.nt(v != Fp::ZERO);
    let h = Pasta::host_generators(a);
    ensure_eq!(h.short_commit(v, r).to_curve(), h.g()[0] * v + *h.h() * r, "Vesta commitment");
    ensure_eq!(h.short_commit(v, r), Pasta::host_generators(b).short_commit(v, r), "Vesta commitment, generated parameters");
    let n = Pasta::nested_generators(a);
    ensure_eq!(n.short_commit(w, s).to_curve(), n.g()[0] * w + *n.h() * s, "Pallas commitment");
    ensure_eq!(n.short_commit(w, s), Pasta::nested_generators(b).short_commit(w, s), "Pallas commitment, generated parameters");
    let k = g.usize(1, 40);
    let c: Vec<Fp> = (0..k).map(|_| fe(g)).collect();
    let want = c.iter().zip(h.g()).fold(pasta_curves::Eq::identity(), |x, (s, p)| x + *p * *s);
    ensure_eq!(ragu_arithmetic::mul(c.iter(), h.g()[..k].iter()), want, "commitment to {k} values");
    ensure_eq!(batch_to_affine::<pasta_curves::EqAffine, 1>([want])[0].to_curve(), want, "affine form");
    Ok(())
}

/// The Grain generator of the Poseidon paper, which fixes all constants.
struct Grain {
    s: [bool; 80],
}
impl Grain {
    fn new(bits: u64, t: u64, rf: u64, rp: u64) -> Self {
        let mut s = [true; 80];
        let mut at = 0;
        for (v, len) in [(1u64, 2usize), (0, 4), (bits, 12), (t, 12), (rf, 10), (rp, 10)] {
            for i in 0..len {
                s[at + i] = v >> (len - 1 - i) & 1 == 1;
            }
            at += len;
        }
        let mut g = Grain { s };
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let b = self.s[62] ^ self.s[51] ^ self.s[38] ^ self.s[23] ^ self.s[13] ^ self.s[0];
        self.s.copy_within(1.., 0);
        self.s[79] = b;
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let (a, b) = (self.step(), self.step());
            if a {
                return b;
            }
        }
    }
    fn int(&mut self, bits: u32) -> BigUint {
        let mut v = BigUint::from(0u8);
        for _ in 0..bits {
            v = (v << 1) + u8::from(self.bit());
        }
        v
    }
}
fn to_field<F: PrimeField>(v: &BigUint) -> F {
    let b = F::from(u64::MAX) + F::ONE;
    v.iter_u64_digits().rev().fold(F::ZERO, |a, d| a * b + F::from(d))
}
fn derive<F: PrimeField>(modulus: &BigUint, t: usize, rf: usize, rp: usize) -> (Vec<Vec<F>>, Vec<Vec<F>>) {
    let mut g = Grain::new(F::NUM_BITS as u64, t as u64, rf as u64, rp as u64);
    let rc = (0..rf + rp)
        .map(|_| {
            (0..t)
                .map(|_| loop {
                    let v = g.int(F::NUM_BITS);
                    if &v < modulus {
                        return to_field(&v);
                    }
                })
                .collect()
        })
        .collect();
    let l: Vec<F> = (0..2 * t).map(|_| to_field(&g.int(F::NUM_BITS))).collect();
    let mds = (0..t).map(|i| (0..t).map(|j| (l[i] + l[t + j]).invert().unwrap()).collect()).collect();
    (rc, mds)
}
fn det<F: Field>(mut m: Vec<Vec<F>>) -> F {
    let n = m.len();
    let mut d = F::ONE;
    for i in 0..n {
        let Some(p) = (i..n).find(|&r| !bool::from(m[r][i].is_zero())) else { return F::ZERO };
        if p != i {
            m.swap(i, p);
            d = -d;
        }
        d *= m[i][i];
        let inv = m[i][i].invert().unwrap();
        for r in i + 1..n {
            let f = m[r][i] * inv;
            for c in i..n {
                let x = m[i][c] * f;
                m[r][c] -= x;
            }
        }
    }
    d
}
fn poseidon_in<F: PrimeField, P: PoseidonPermutation<F>>(g: &mut Gen, name: &str, p: &P, i: usize) -> R {
    let modulus = BigUint::from_bytes_le((-F::ONE).to_repr().as_ref()) + 1u8;
    let rc: Vec<Vec<F>> = p.round_constants().map(|r| r.to_vec()).collect();
    let mds: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
    g.nt(true);
    ensure!(P::RATE < P::T && P::RATE > 0, "rate below the state size");
    ensure!(P::FULL_ROUNDS % 2 == 0, "an even number of full rounds");
    ensure!(P::ALPHA > 1, "exponent");
    let m1 = &modulus - 1u8;
    let (mut a, mut b) = (m1, BigUint::from(P::ALPHA as u64));
    while b != BigUint::from(0u8) {
        (a, b) = (b.clone(), a % b);
    }
    ensure_eq!(a, BigUint::from(1u8), "x^alpha permutes the field");
    ensure_eq!(rc.len(), P::FULL_ROUNDS + P::PARTIAL_ROUNDS, "rounds of constants");
    ensure!(rc.iter().all(|r| r.len() == P::T), "constants per round");
    ensure_eq!(p.mds_matrix().len(), P::T, "rows of the matrix");
    ensure!(mds.len() == P::T && mds.iter().all(|r| r.len() == P::T), "shape of the matrix");
    match i {
        0 => {
            note!(g, "{name}: every square submatrix is invertible");
            for rows in 1u32..1 << P::T {
                for cols in (1u32..1 << P::T).filter(|c| c.count_ones() == rows.count_ones()) {
                    let m: Vec<Vec<F>> = (0..P::T).filter(|r| rows >> r & 1 == 1).map(|r| (0..P::T).filter(|c| cols >> c & 1 == 1).map(|c| mds[r][c]).collect()).collect();
                    ensure!(!bool::from(det(m).is_zero()), "submatrix rows {rows:b} columns {cols:b} is singular");
                }
            }
        }
        _ => {
            let (wrc, wmds) = derive::<F>(&modulus, P::T, P::FULL_ROUNDS, P::PARTIAL_ROUNDS);
            let r = i - 1;
            if r < rc.len() {
                note!(g, "{name}: constants of round {r}");
                ensure_eq!(rc[r], wrc[r], "constants of round {r}");
            } else {
                note!(g, "{name}: matrix row {}", r - rc.len());
                ensure_eq!(mds[r - rc.len()], wmds[r - rc.len()], "matrix row {}", r - rc.len());
            }
        }
    }
    Ok(())
}
const ROUNDS: usize = 64 + 5 + 1;
fn poseidon(g: &mut Gen) -> R {
    let i = g.index as usize;
    let params = Pasta::baked();
    if i < ROUNDS {
        let p: &PoseidonFp = Pasta::circuit_poseidon(params);
        poseidon_in::<Fp, _>(g, "Fp", p, i)
    } else {
        let p: &PoseidonFq = Pasta::scalar_poseidon(params);
        poseidon_in::<Fq, _>(g, "Fq", p, i - ROUNDS)
    }
}

fn main() {
    vlib::main(vec![Prop {
        id: "A07",
        subs: vec![
            Sub::enumerated("generators", points, 2 * ((1 << 13) + 1), "every generator of both curves: baked = generated, on the curve, not the identity, no shared x coordinate with another generator, a double or a neighbouring sum"),
            Sub::new("commitments", commits, 400, 10_000, "random commitments with baked and generated parameters; non-trivial: value not zero"),
            Sub::enumerated("poseidon", poseidon, 2 * ROUNDS as u64, "every round constant and matrix row vs. the Grain generator of the Poseidon paper; every square submatrix of both matrices invertible"),
        ],
        assumptions: &["hash-to-curve and curve arithmetic of the stand-in pasta_curves crate are right"],
    }]);
}

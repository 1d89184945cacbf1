//! Many circuits as one polynomial.
use crate::layout::*;
use crate::poly_mask::{Mk, set_mask};
use crate::wiring::{dense, idx, single};
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_circuits::{
    polynomials::{ProductionRank, Rank, TestRank},
    registry::{CircuitIndex, Registry, RegistryBuilder},
    staging::StageExt,
};
use ragu_arithmetic::Coeff;
use ragu_core::Error;
use vcs::fe;
use vcs::prog::*;
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

/// Entries of a registry by kind; kinds are numbered in the order of the registry.
#[derive(Clone, Debug)]
pub enum Entry<F: Field> {
    Circuit(usize, Pc<F>),
    /// gates before, gates free
    Mask(usize, usize),
}
impl<F: Field> Entry<F> {
    fn kind(&self) -> usize {
        match self {
            Entry::Circuit(k, _) => *k,
            Entry::Mask(..) => 1,
        }
    }
}
fn tiny<F: Fld>(g: &mut Gen) -> Pc<F> {
    loop {
        let c: Pc<F> = gen_pc(g, &Cfg { ops: 4, depth: 1, raw: true, terms: 3, calls: 2 });
        if c.layout(&[F::ONE; NIN], F::ONE).fits() {
            return c;
        }
    }
}
fn entry<F: Fld>(g: &mut Gen) -> Entry<F> {
    match g.below(5) {
        0 => {
            let skip = g.usize(1, N);
            Entry::Mask(skip, g.usize(0, N - skip))
        }
        1 => Entry::Circuit(0, tiny(g)),
        2 => Entry::Circuit(2, tiny(g)),
        _ => Entry::Circuit(3, tiny(g)),
    }
}
fn add<'a, F: Fld>(b: RegistryBuilder<'a, F, Rk>, e: &Entry<F>) -> Result<RegistryBuilder<'a, F, Rk>, Error> {
    match e {
        Entry::Circuit(0, c) => b.register_internal_circuit(c.clone()),
        Entry::Circuit(2, c) => b.register_internal_step(c.clone()),
        Entry::Circuit(_, c) => b.register_circuit(c.clone()),
        Entry::Mask(s, n) => {
            set_mask(*s, *n);
            Ok(b.register_bonding(<Mk as StageExt<F, Rk>>::mask()?))
        }
    }
}
pub fn registry<'a, F: Fld>(es: &[Entry<F>]) -> Result<Registry<'a, F, Rk>, Error> {
    let mut b = RegistryBuilder::new();
    for e in es {
        b = add(b, e)?;
    }
    b.finalize()
}
/// The entry's own s(x, y), from a registry that has nothing else.
fn alone<F: Fld>(e: &Entry<F>) -> Registry<'static, F, Rk> {
    registry(std::slice::from_ref(e)).unwrap()
}
fn key<F: Fld>(r: &Registry<'_, F, Rk>, x: F, y: F) -> F {
    r.digest() * (x * y).pow_vartime([M as u64 - 1])
}
fn own<F: Fld>(e: &Entry<F>, x: F, y: F) -> F {
    let r = alone(e);
    r.circuit_xy(idx(0), x, y) - key(&r, x, y)
}
fn rev(i: usize, bits: u32) -> u64 {
    (0..bits).fold(0, |a, b| a << 1 | (i >> b & 1) as u64)
}
/// Where entry `i` is, whatever the size of the registry: ω of order 2^32 to the power of i's bits reversed.
fn point<F: PrimeField>(i: usize) -> F {
    F::ROOT_OF_UNITY.pow_vartime([rev(i, F::S)])
}
/// The value at `w` of the polynomial through `v[i]` at `p[i]`.
fn through<F: Field>(p: &[F], v: &[F], w: F) -> F {
    (0..p.len())
        .map(|i| {
            let (mut n, mut d) = (v[i], F::ONE);
            for j in 0..p.len() {
                if i != j {
                    n *= w - p[j];
                    d *= p[i] - p[j];
                }
            }
            n * d.invert().unwrap()
        })
        .sum()
}
/// Entries in the order of their kinds.
fn sorted<F: Field>(es: &[Entry<F>]) -> Vec<Entry<F>> {
    let mut v = es.to_vec();
    v.sort_by_key(|e| e.kind());
    v
}
fn size(n: usize) -> u32 {
    (0..).find(|k| 1usize << k >= n).unwrap()
}
fn interpolate_in<F: Fld>(g: &mut Gen) -> R {
    let es: Vec<Entry<F>> = g.vec(0, 7, |g| entry(g));
    note!(g, "{es:?}");
    let mut b = RegistryBuilder::<F, Rk>::new();
    for (i, e) in es.iter().enumerate() {
        ensure_eq!(b.num_circuits(), i, "entries so far");
        ensure_eq!(b.num_internal_circuits(), es[..i].iter().filter(|e| e.kind() < 2).count(), "internal entries so far");
        b = add(b, e).map_err(|e| e.to_string())?;
    }
    ensure_eq!(b.log2_circuits(), size(es.len()), "size of the domain");
    let r = b.finalize().map_err(|e| e.to_string())?;
    ensure_eq!(r.num_circuits(), es.len(), "entries");
    let es = sorted(&es);
    let slots = 1 << size(es.len());
    let p: Vec<F> = (0..slots).map(point).collect();
    g.nt(es.len() > 1);
    let (x, y): (F, F) = (fe(g), fe(g));
    let v: Vec<F> = (0..slots).map(|i| es.get(i).map_or(F::ZERO, |e| own(e, x, y))).collect();
    let k = key(&r, x, y);
    // every slot by its index
    for i in 0..slots {
        ensure_eq!(idx(i).omega_j::<F>(), p[i], "the point of entry {i}");
        ensure_eq!(r.circuit_xy(idx(i), x, y), v[i] + k, "s(x, y) of entry {i} of {}, x {x:?}, y {y:?}", es.len());
        ensure_eq!(eval(&dense(&r.circuit_y(idx(i), y)), x), v[i] + k, "s(X, y) of entry {i} of {} at x {x:?}, y {y:?}", es.len());
        if let Some(e) = es.get(i) {
            ensure_eq!(r.constraint_counts(idx(i)), alone(e).constraint_counts(idx(0)), "gates and constraints of entry {i}");
        }
    }
    // any point
    let xy = dense(&r.xy(x, y));
    ensure!(xy[slots..].iter().all(|c| *c == F::ZERO), "m(W, x, y) has a degree of {slots} or more");
    for _ in 0..4 {
        let near = |g: &mut Gen| {
            // agrees with a point of the domain in its lowest words, or a small multiple of it does
            let (q, k): (F, u64) = (point(g.usize(0, slots - 1)), g.range(1, 9));
            let far = F::from(g.range(1, 99)) * F::from(2).pow_vartime([64 * g.range(1, 2)]);
            q + far * F::from(if g.bool() { 5 } else { k }).invert().unwrap()
        };
        let w = match g.below(7) {
            0 => F::ZERO,
            1 => point(g.usize(0, slots - 1)),
            2 => point(g.usize(slots, 3 * slots)),
            3 | 4 => near(g),
            5 => -point::<F>(g.usize(0, 2 * slots)),
            _ => fe(g),
        };
        let m = through(&p, &v, w) + k;
        let s = format!("m(w, x, y) of {} entries, w {w:?}, x {x:?}, y {y:?}", es.len());
        ensure_eq!(r.wxy(w, x, y), m, "wxy: {s}");
        ensure_eq!(eval(&xy, w), m, "xy: {s}");
        ensure_eq!(eval(&dense(&r.wx(w, x)), y), m, "wx: {s}");
        ensure_eq!(eval(&dense(&r.wy(w, y)), x), m, "wy: {s}");
        let at = r.at(w);
        ensure_eq!((at.xy(x, y), eval(&dense(&at.x(x)), y), eval(&dense(&at.y(y)), x)), (m, m, m), "at: {s}");
    }
    // indices outside of the domain
    let i = if g.bool() { g.usize(0, 4 * slots) } else { g.below(1 << 32) as usize };
    ensure_eq!(r.circuit_in_domain(CircuitIndex::new(i)), i < slots, "entry {i} in a domain of {slots}");
    ensure_eq!(CircuitIndex::from_u32(i as u32).omega_j::<F>(), point(i), "the point of entry {i}");
    ensure_eq!(usize::from(CircuitIndex::new(i)), i, "index");
    Ok(())
}
fn interpolate(g: &mut Gen) -> R {
    if g.bool() { interpolate_in::<Fp>(g) } else { interpolate_in::<Fq>(g) }
}
/// Traces are placed by the circuit they are assembled for.
fn assembled(g: &mut Gen) -> R {
    let es: Vec<Entry<Fp>> = g.vec(1, 6, |g| entry(g));
    let x = inputs(g);
    let alpha = fe(g);
    let r = registry(&es).map_err(|e| e.to_string())?;
    note!(g, "{es:?} on {x:?}");
    g.nt(es.len() > 1);
    for (i, e) in sorted(&es).iter().enumerate() {
        if let Entry::Circuit(_, c) = e {
            let t = c.trace_of(&x).map_err(|e| e.to_string())?;
            let p = r.assemble_with_alpha(&t, idx(i), alpha).map_err(|e| e.to_string())?;
            ensure!(dense(&p) == trace_coeffs(&c.layout(&x, alpha).gates()), "the trace of entry {i} is not where its gates are");
        }
    }
    Ok(())
}
/// How many entries there may be.
fn bound(g: &mut Gen) -> R {
    let n = M - 2 + g.usize(0, 4);
    let c = Pc::<Fp> { body: vec![Op::Raw(vec![])], outs: vec![], extra: 0 };
    let es: Vec<Entry<Fp>> = (0..n)
        .map(|_| match g.below(4) {
            1 => Entry::Mask(3, 4),
            k => Entry::Circuit(k as usize, c.clone()),
        })
        .collect();
    note!(g, "{n} entries");
    g.nt(true);
    match registry(&es) {
        Ok(r) if n <= M => {
            g.label("accepted");
            ensure_eq!(r.num_circuits(), n, "entries");
            let (x, y) = (fe::<Fp>(g), fe(g));
            let i = g.usize(0, n - 1);
            ensure_eq!(r.circuit_xy(idx(i), x, y) - key(&r, x, y), own(&sorted(&es)[i], x, y), "entry {i} of {n}");
            Ok(())
        }
        Err(Error::CircuitBoundExceeded { limit: M }) if n > M => Ok(()),
        Ok(_) => Err(format!("{n} entries are accepted")),
        Err(e) => Err(format!("{n} entries: {e}")),
    }
}
/// Many entries, made of a few circuits, of any rank.
fn crowd_in<F: Fld, K: Rank>(g: &mut Gen) -> R {
    let m = K::num_coeffs();
    let n = match g.below(4) {
        0 => g.usize(8, 20),
        1 => *g.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, m.min(256), m.min(256), m.min(256)]),
        _ => g.usize(20, m.min(1500)),
    };
    let kinds: Vec<Pc<F>> = (0..g.usize(1, 6)).map(|_| tiny(g)).collect();
    let es: Vec<(usize, usize)> = (0..n).map(|_| (*g.pick(&[0, 2, 3]), g.usize(0, kinds.len() - 1))).collect();
    note!(g, "{n} entries of {kinds:?}");
    g.nt(n > 16);
    let build = |es: &[(usize, usize)]| -> Result<Registry<'static, F, K>, Error> {
        let mut b = RegistryBuilder::<F, K>::new();
        for (k, c) in es {
            let c = kinds[*c].clone();
            b = match k {
                0 => b.register_internal_circuit(c),
                2 => b.register_internal_step(c),
                _ => b.register_circuit(c),
            }?;
        }
        b.finalize()
    };
    let r = build(&es).map_err(|e| e.to_string())?;
    let bits = size(n);
    let slots = 1usize << bits;
    ensure_eq!(r.num_circuits(), n, "entries");
    let mut es = es;
    es.sort_by_key(|e| e.0);
    let (x, y): (F, F) = (fe(g), fe(g));
    let key = |r: &Registry<'_, F, K>| r.digest() * (x * y).pow_vartime([m as u64 - 1]);
    let mut own = vec![];
    for c in 0..kinds.len() {
        let r = build(&[(3, c)]).map_err(|e| e.to_string())?;
        own.push(r.circuit_xy(idx(0), x, y) - key(&r));
    }
    let v = |i: usize| es.get(i).map_or(F::ZERO, |e| own[e.1]);
    let k = key(&r);
    let p: Vec<F> = (0..slots).map(point).collect();
    let xy: Vec<F> = r.xy(x, y).iter_coeffs().collect();
    ensure!(xy[slots..].iter().all(|c| *c == F::ZERO), "m(W, x, y) has a degree of {slots} or more");
    for i in 0..slots {
        ensure_eq!(r.circuit_xy(idx(i), x, y), v(i) + k, "s(x, y) of entry {i} of {n}");
        if i % 16 == 3 || slots < 64 {
            ensure_eq!(idx(i).omega_j::<F>(), p[i], "the point of entry {i} of {n}");
            ensure_eq!(eval(&xy, p[i]), v(i) + k, "m(W, x, y) at the point of entry {i} of {n}");
        }
    }
    for _ in 0..3 {
        let i = g.usize(0, slots - 1);
        let w = match g.below(6) {
            0 => p[i],
            1 => p[n - 1],
            2 => point(g.usize(slots, 3 * slots)),
            3 => F::ZERO,
            _ => fe(g),
        };
        let want = if let Some(i) = p.iter().position(|q| *q == w) {
            v(i)
        } else {
            // over all roots of unity of an order
            let s: F = (0..n).map(|i| v(i) * p[i] * (w - p[i]).invert().unwrap()).sum();
            s * (w.pow_vartime([slots as u64]) - F::ONE) * F::from(slots as u64).invert().unwrap()
        } + k;
        let s = format!("m(w, x, y) of {n} entries, w {w:?}, x {x:?}, y {y:?}");
        ensure_eq!(r.wxy(w, x, y), want, "wxy: {s}");
        ensure_eq!(eval(&xy, w), want, "xy: {s}");
        ensure_eq!(r.wx(w, x).eval(y), want, "wx: {s}");
        ensure_eq!(r.wy(w, y).eval(x), want, "wy: {s}");
        let at = r.at(w);
        ensure_eq!((at.xy(x, y), at.x(x).eval(y), at.y(y).eval(x)), (want, want, want), "at: {s}");
    }
    Ok(())
}
fn crowd(g: &mut Gen) -> R {
    match g.below(4) {
        0 => crowd_in::<Fp, TestRank>(g),
        1 => crowd_in::<Fq, TestRank>(g),
        2 => crowd_in::<Fq, ProductionRank>(g),
        _ => crowd_in::<Fp, ProductionRank>(g),
    }
}
/// The registry the repository's own tests build: circuits, then masks.
fn handles(g: &mut Gen) -> R {
    let cs: Vec<Pc<Fp>> = g.vec(0, 4, |g| tiny(g));
    let ms: Vec<(usize, usize)> = g.vec(0, 3, |g| {
        let s = g.usize(1, N);
        (s, g.usize(0, N - s))
    });
    note!(g, "{cs:?} {ms:?}");
    g.nt(cs.len() + ms.len() > 1);
    let mut b = ragu_testing::registry::TestRegistryBuilder::<Fp, Rk>::new();
    let mut all = vec![];
    for c in &cs {
        all.push((b.register_circuit(c.clone()).map_err(|e| e.to_string())?, Entry::Circuit(0, c.clone())));
    }
    for (s, n) in &ms {
        set_mask(*s, *n);
        all.push((b.register_bonding(<Mk as StageExt<Fp, Rk>>::mask().map_err(|e| e.to_string())?), Entry::Mask(*s, *n)));
    }
    let r = b.finalize().map_err(|e| e.to_string())?;
    let plain = registry(&all.iter().map(|(_, e)| e.clone()).collect::<Vec<_>>()).map_err(|e| e.to_string())?;
    let (x, y, alpha) = (fe::<Fp>(g), fe(g), fe(g));
    let inp = inputs(g);
    for (i, (h, e)) in all.iter().enumerate() {
        ensure_eq!(r.xy(*h, x, y), own(e, x, y) + key(&plain, x, y), "s(x, y) by handle {i}, x {x:?}, y {y:?}");
        ensure_eq!(eval(&dense(&r.y(*h, y)), x), r.xy(*h, x, y), "s(X, y) by handle {i}, x {x:?}, y {y:?}");
        if let Entry::Circuit(_, c) = e {
            let t = c.trace_of(&inp).map_err(|e| e.to_string())?;
            let p = r.assemble(&t, *h, alpha).map_err(|e| e.to_string())?;
            ensure!(dense(&p) == trace_coeffs(&c.layout(&inp, alpha).gates()), "the trace of handle {i} is not where its gates are");
        }
    }
    Ok(())
}
pub fn registries() -> Prop {
    Prop {
        id: "R07",
        subs: vec![
            Sub::new("interpolate", interpolate, 6, 800, "up to seven entries of the four kinds registered in any order, points in and out of the domain, zero and points that agree with one of the domain in part among them; non-trivial: two entries or more"),
            Sub::new("crowd", crowd, 1, 40, "eight to 1500 entries made of up to six circuits, of the test's and the production rank; non-trivial: more than 16"),
            Sub::new("assembled", assembled, 10, 1000, "up to six entries; non-trivial: two or more"),
            Sub::new("handles", handles, 10, 1000, "up to seven entries through the registry of ragu_testing; non-trivial: two or more"),
            Sub::new("bound", bound, 1, 30, "as many entries as there may be, two fewer to two more; every case is non-trivial"),
        ],
        assumptions: &["What a single circuit contributes is taken from a registry of that circuit alone, which R03 decides."],
    }
}

// ------------------------------------------------------------ the digest
fn digest_in<F: Fld>(g: &mut Gen) -> R {
    let mut es: Vec<Entry<F>> = g.vec(1, 5, |g| entry(g));
    es = sorted(&es);
    let was = es.clone();
    let how = g.below(7);
    let i = g.usize(0, es.len() - 1);
    match how {
        // the same again, registered in another order
        0 => {
            let mut ks: Vec<usize> = (0..es.len()).collect();
            g.shuffle(&mut ks);
            let mut next = [0; 4];
            let by: Vec<Vec<Entry<F>>> = (0..4).map(|k| es.iter().filter(|e| e.kind() == k).cloned().collect()).collect();
            es = ks
                .iter()
                .map(|j| {
                    let k = was[*j].kind();
                    next[k] += 1;
                    by[k][next[k] - 1].clone()
                })
                .collect();
        }
        1 => es[i] = entry(g),
        2 => es.push(entry(g)),
        3 if es.len() > 1 => {
            es.remove(i);
        }
        4 => {
            let j = g.usize(0, es.len() - 1);
            es.swap(i, j);
        }
        5 => {
            // one factor, or one more constraint
            if let Entry::Circuit(_, c) = &mut es[i] {
                c.body.push(Op::Raw(steps(g, START, 3)));
            }
        }
        _ => {
            if let Entry::Mask(s, n) = &mut es[i] {
                if *n > 0 {
                    *n -= 1
                } else if *s > 1 {
                    *s -= 1
                }
            } else if let Entry::Circuit(_, c) = &mut es[i] {
                if c.outs.pop().is_none() {
                    c.outs.push(0)
                }
            }
        }
    }
    note!(g, "{was:?} and {es:?}");
    // is it the same polynomial?
    let same = (0..2).all(|_| {
        let [w, x, y]: [F; 3] = [0; 3].map(|_| vcs::rand_fe(g));
        let at = |es: &[Entry<F>]| {
            let es = sorted(es);
            let p: Vec<F> = (0..1 << size(es.len())).map(point).collect();
            let v: Vec<F> = (0..p.len()).map(|i| es.get(i).map_or(F::ZERO, |e| own(e, x, y))).collect();
            through(&p, &v, w)
        };
        at(&was) == at(&es)
    });
    g.label(if same { "the same polynomial" } else { "another polynomial" });
    g.nt(!same || how == 0);
    let (a, b) = (registry(&was).map_err(|e| e.to_string())?, registry(&es).map_err(|e| e.to_string())?);
    ensure_eq!(a.digest() == b.digest(), same, "equal digests, against equal polynomials");
    ensure!(a.digest() == registry(&was).map_err(|e| e.to_string())?.digest(), "the digest of the same registry, twice");
    // what it stands for is part of every wiring polynomial
    let (x, y) = (fe::<F>(g), fe::<F>(g));
    ensure_eq!(a.circuit_xy(idx(0), x, y) - own(&was[0], x, y), a.digest() * (x * y).pow_vartime([M as u64 - 1]), "the key's contribution");
    Ok(())
}
fn digest(g: &mut Gen) -> R {
    if g.bool() { digest_in::<Fp>(g) } else { digest_in::<Fq>(g) }
}
/// One of many entries changes, moves, goes or comes.
fn many_in<F: Fld, K: Rank>(g: &mut Gen) -> R {
    let n = g.usize(10, K::num_coeffs().min(900) - 1);
    // told apart by the constraint they have, whatever the point
    let kinds: Vec<Pc<F>> = (0..6).map(|k| Pc { body: vec![Op::Alloc(Val::Input(0)), Op::Raw(vec![Step::Term(START, Coeff::Arbitrary(F::from(2 + k)))])], outs: vec![], extra: 0 }).collect();
    let mut es: Vec<(usize, usize)> = (0..n).map(|_| (g.usize(0, 2), g.usize(0, 5))).collect();
    es.sort_by_key(|e| e.0);
    let build = |es: &[(usize, usize)]| -> Result<F, Error> {
        let mut b = RegistryBuilder::<F, K>::new();
        for (k, c) in es {
            let c = kinds[*c].clone();
            b = match k {
                0 => b.register_internal_circuit(c),
                1 => b.register_internal_step(c),
                _ => b.register_circuit(c),
            }?;
        }
        Ok(b.finalize()?.digest())
    };
    let was = es.clone();
    let i = g.usize(0, n - 1);
    let how = g.below(4);
    match how {
        0 => es[i].1 = (es[i].1 + g.usize(1, 5)) % 6,
        1 => {
            let j = g.usize(0, n - 1);
            let (a, b) = (es[i].1, es[j].1);
            es[i].1 = b;
            es[j].1 = a;
        }
        2 => {
            es.insert(i, (es[i].0, g.usize(0, 5)));
        }
        _ => {
            es.remove(i);
        }
    }
    let flat = |es: &[(usize, usize)]| es.iter().map(|e| e.1).collect::<Vec<_>>();
    let same = flat(&was) == flat(&es);
    note!(g, "{n} entries, change {how} at {i}: {}", if same { "the same" } else { "another" });
    g.nt(!same);
    let (a, b) = (build(&was).map_err(|e| e.to_string())?, build(&es).map_err(|e| e.to_string())?);
    ensure_eq!(a == b, same, "equal digests, against equal entries");
    // kinds come one after the other, however they were registered
    let mut ks: Vec<usize> = (0..n).collect();
    g.shuffle(&mut ks);
    let mut next = [0; 3];
    let shuffled: Vec<(usize, usize)> = ks
        .iter()
        .map(|j| {
            let k = was[*j].0;
            next[k] += 1;
            *was.iter().filter(|e| e.0 == k).nth(next[k] - 1).unwrap()
        })
        .collect();
    ensure!(build(&shuffled).map_err(|e| e.to_string())? == a, "the digest depends on the order of registration between kinds");
    Ok(())
}
fn many(g: &mut Gen) -> R {
    if g.bool() { many_in::<Fp, TestRank>(g) } else { many_in::<Fq, ProductionRank>(g) }
}
/// The end of the chain of hashes: each of six values of the polynomial chooses the next point.
fn chain_in<F: Fld>(g: &mut Gen) -> R {
    let es: Vec<Entry<F>> = sorted(&g.vec(0, 5, |g| entry(g)));
    note!(g, "{es:?}");
    g.nt(!es.is_empty());
    let p: Vec<F> = (0..1 << size(es.len())).map(point).collect();
    // the polynomial before its digest is known has one for a key
    let value = |w: F, x: F, y: F| {
        let v: Vec<F> = (0..p.len()).map(|i| es.get(i).map_or(F::ZERO, |e| own(e, x, y))).collect();
        through(&p, &v, w) + (x * y).pow_vartime([M as u64 - 1])
    };
    let hash = |parts: &[&[u8]]| *blake2b_simd::Params::new().personal(b"ragu_registry___").hash(&parts.concat()).as_array();
    let (mut w, mut x, mut y) = (F::from(2), F::from(3), F::from(5));
    let mut last = [0; 64];
    for i in 0..6 {
        let e = value(w, x, y);
        last = if i == 0 { hash(&[e.to_repr().as_ref()]) } else { hash(&[&last, e.to_repr().as_ref()]) };
        [w, x, y] = [0u8, 1, 2].map(|k| F::from_uniform_bytes(&hash(&[&last, &[k]])));
    }
    let end = hash(&[&last]);
    let want = F::from_uniform_bytes(&hash(&[&end, &[0]]));
    ensure_eq!(registry(&es).map_err(|e| e.to_string())?.digest(), want, "the digest, against the hashes of the polynomial's values at six points");
    Ok(())
}
fn chain(g: &mut Gen) -> R {
    if g.bool() { chain_in::<Fp>(g) } else { chain_in::<Fq>(g) }
}
pub fn digests() -> Prop {
    let _ = single::<Fp>;
    Prop {
        id: "R08",
        subs: vec![Sub::new("digest", digest, 20, 3000, "two lists of up to six entries, the second a change of the first in seven ways; non-trivial: another polynomial, or the same entries registered in another order"),
            Sub::new("many", many, 2, 150, "ten to 900 entries told apart by a factor, one of them changed, swapped, added or removed; non-trivial: another list"),
            Sub::new("chain", chain, 3, 400, "up to five entries, against hashes of the polynomial's values at six points, each chosen by the hash so far; non-trivial: an entry")],
        assumptions: &["Two registries are the same when their polynomials agree at two random points, computed from each entry alone."],
    }
}

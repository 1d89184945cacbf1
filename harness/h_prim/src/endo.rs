//! Endoscalars: bits, extraction, lifting and scaling.
use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use ragu_arithmetic::{CurveAffine, Uendo};
use ragu_core::{
    Result,
    drivers::{
        Driver, DriverValue,
        emulator::{Emulator, Wired, Wireless},
    },
    maybe::{Always, Empty, Maybe},
};
use group::Group;
use ragu_primitives::{Element, Endoscalar, GadgetExt, Point, Simulator, extract_endoscalar, lift_endoscalar};
use std::collections::BTreeSet;
use vcs::solve::solutions;
use vcs::{Absent, Gf, Present, Rec, W, fe, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

const BITS: usize = Uendo::BITS as usize;

fn from_bits(b: &[bool]) -> Uendo {
    let mut u = Uendo::from(0u64);
    for i in (0..BITS).rev() {
        u = u << 1;
        if b[i] {
            u |= Uendo::from(1u64);
        }
    }
    u
}
fn gen_bits(g: &mut Gen) -> Vec<bool> {
    match g.below(6) {
        0 => vec![false; BITS],
        1 => vec![true; BITS],
        2 => {
            let k = g.usize(0, BITS - 1);
            (0..BITS).map(|i| i == k).collect()
        }
        3 => {
            let p = g.below(16);
            (0..BITS).map(|i| p >> (i % 4) & 1 == 1).collect()
        }
        _ => {
            let w: Vec<u64> = (0..BITS.div_ceil(64)).map(|_| g.u64()).collect();
            (0..BITS).map(|i| w[i / 64] >> (i % 64) & 1 == 1).collect()
        }
    }
}
/// Start from 2(ζ + 1); for each pair of bits, double and add ±1 or ±ζ.
fn lifted<F: WithSmallOrderMulGroup<3>>(b: &[bool]) -> F {
    let mut acc = F::ZETA + F::ZETA + F::ONE + F::ONE;
    for p in b.chunks(2) {
        let t = if p[1] { F::ZETA } else { F::ONE };
        acc = if p[0] { acc + acc - t } else { acc + acc + t };
    }
    acc
}
fn is_square<F: PrimeField>(x: F) -> bool {
    // x^((p-1)/2) is 0 or 1; (p-1)/2 = odd part of p-1 times 2^(S-1)
    if x == F::ZERO {
        return true;
    }
    let mut t = F::ZERO - F::ONE; // p - 1 as a number
    t *= F::TWO_INV; // (p-1)/2 as a number
    let mut r = F::ONE;
    for byte in t.to_repr().as_ref().iter().rev() {
        for i in (0..8).rev() {
            r = r * r;
            if byte >> i & 1 == 1 {
                r *= x;
            }
        }
    }
    r == F::ONE
}
/// Bits by quadratic residuosity.
fn extracted<F: PrimeField>(x: F) -> Vec<bool> {
    let mut v = x;
    (0..BITS)
        .map(|_| {
            let b = is_square(v);
            v += F::ONE;
            b
        })
        .collect()
}
fn gen_elem<F: PrimeField>(g: &mut Gen) -> F {
    match g.below(4) {
        0 => F::ZERO - F::from(g.below(140)),
        1 => fe(g),
        _ => rand_fe(g),
    }
}

type Seen = Vec<bool>;
fn seen<'dr, D: Driver<'dr, MaybeKind = Always<()>>>(e: &Endoscalar<'dr, D>) -> Seen {
    e.bits().map(|b| b.value().take()).collect()
}
/// Runs `f` with witness `x` on every kind of driver and checks the bits it
/// yields, both as values and as wires.
macro_rules! everywhere {
    ($F:ty, $x:expr, $want:expr, |$dr:ident, $w:ident| $f:expr) => {{
        let (x, want) = ($x, $want);
        fn f<'dr, D: Driver<'dr, F = $F>>($dr: &mut D, $w: DriverValue<D, In<$F>>) -> Result<Endoscalar<'dr, D>> {
            $f
        }
        let mut rec = Rec::<$F, Present>::new();
        let e = f(&mut rec, Present::just(|| x)).map_err(|e| e.to_string())?;
        ensure_eq!(seen(&e), want, "bits");
        let ws: Vec<W> = e.bits().map(|b| *b.wire()).collect();
        let one = |b: bool| if b { <$F>::ONE } else { <$F>::ZERO };
        for (w, b) in ws.iter().zip(&want) {
            ensure_eq!(rec.value(*w), one(*b), "bit wire");
        }
        ensure_eq!(rec.satisfied(), Ok(()), "honest assignment");
        let mut un = Rec::<$F, Absent>::new();
        let u = f(&mut un, Empty).map_err(|e| e.to_string())?;
        ensure!(rec.shape() == un.shape(), "the circuit depends on the witness");
        ensure_eq!(un.value_calls.get(), 0, "values computed without witness");
        ensure_eq!(u.bits().map(|b| *b.wire()).collect::<Vec<W>>(), ws, "bit wires without witness");
        let a = Emulator::<Wired<$F>>::emulate_wired(x, |dr, w| {
            let e = f(dr, w)?;
            Ok((seen(&e), e.bits().map(|b| *b.wire()).collect::<Vec<$F>>()))
        })
        .map_err(|e| e.to_string())?;
        ensure_eq!(a.0, want, "bits on the emulator");
        ensure_eq!(a.1, want.iter().map(|b| one(*b)).collect::<Vec<_>>(), "bit wires on the emulator");
        let b = Emulator::emulate_wireless(x, |dr: &mut Emulator<Wireless<Always<()>, $F>>, w| Ok(seen(&f(dr, w)?))).map_err(|e| e.to_string())?;
        ensure_eq!(b, want, "bits without wires");
        Simulator::<$F>::simulate(x, |dr, w| f(dr, w).map(|_| ())).map_err(|e| format!("simulator: {e}"))?;
    }};
}
#[derive(Clone, Copy)]
pub struct In<F> {
    u: Uendo,
    x: F,
}
fn alloc(g: &mut Gen) -> R {
    let b = gen_bits(g);
    let u = from_bits(&b);
    note!(g, "{u:?}");
    g.nt(b.iter().any(|x| *x));
    match g.below(3) {
        0 => everywhere!(Fp, In { u, x: Fp::ZERO }, b, |dr, w| Endoscalar::alloc(dr, D::just(|| w.snag().u))),
        1 => everywhere!(Fq, In { u, x: Fq::ZERO }, b, |dr, w| Endoscalar::alloc(dr, D::just(|| w.snag().u))),
        _ => everywhere!(Gf<13>, In { u, x: Gf(0) }, b, |dr, w| Endoscalar::alloc(dr, D::just(|| w.snag().u))),
    }
    Ok(())
}
macro_rules! extract_in {
    ($F:ty, $g:expr) => {{
        let x: $F = gen_elem($g);
        let want = extracted(x);
        note!($g, "{x:?}");
        ensure_eq!(extract_endoscalar(x), from_bits(&want), "extracted natively");
        everywhere!($F, In { u: Uendo::from(0u64), x }, want, |dr, w| {
            let e = Element::alloc(dr, D::just(|| w.snag().x))?;
            Endoscalar::extract(dr, e)
        });
    }};
}
fn extract(g: &mut Gen) -> R {
    g.nt(true);
    match g.below(5) {
        0 => extract_in!(Fp, g),
        1 => extract_in!(Fq, g),
        2 => extract_in!(Gf<7>, g),
        3 => extract_in!(Gf<13>, g),
        _ => extract_in!(Gf<241>, g),
    }
    Ok(())
}
/// Every satisfying assignment extracts the same bits, but for positions where
/// the sum is zero (where either bit is possible).
fn extract_sound_in<const P: u64>(g: &mut Gen) -> R {
    let x: Gf<P> = Gf(g.below(P));
    note!(g, "field of {P}: {x:?}");
    g.nt(true);
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let e = Element::alloc(&mut rec, Empty).unwrap();
    let w = *e.wire();
    let s = Endoscalar::extract(&mut rec, e).map_err(|e| e.to_string())?;
    let ws: Vec<W> = s.bits().map(|b| *b.wire()).collect();
    let want = extracted(x);
    // a few at a time
    for _ in 0..2 {
        let lo = g.usize(0, BITS - 8);
        let outs = &ws[lo..lo + 8];
        let all = solutions(&rec, &[(w, x)], outs, 100_000).unwrap();
        let mut expect: BTreeSet<Vec<Gf<P>>> = [vec![]].into();
        for i in lo..lo + 8 {
            let zero = x + Gf::from(i as u64) == Gf(0);
            expect = expect
                .into_iter()
                .flat_map(|v| {
                    let o: Vec<u64> = if zero { vec![0, 1] } else { vec![want[i] as u64] };
                    o.into_iter().map(move |b| v.iter().copied().chain([Gf(b)]).collect())
                })
                .collect();
        }
        ensure_eq!(all, expect, "bits {lo}.. over all satisfying assignments");
    }
    Ok(())
}
fn extract_sound(g: &mut Gen) -> R {
    match g.below(3) {
        0 => extract_sound_in::<7>(g),
        1 => extract_sound_in::<13>(g),
        _ => extract_sound_in::<37>(g),
    }
}
/// Lifting in a circuit, natively, and by the definition; and the bits stay pinned.
fn lift_in<F: WithSmallOrderMulGroup<3>>(g: &mut Gen) -> R {
    let b = gen_bits(g);
    let u = from_bits(&b);
    note!(g, "{u:?}");
    g.nt(b.iter().any(|x| *x));
    let want: F = lifted(&b);
    ensure_eq!(lift_endoscalar::<F>(u), want, "lifted natively");
    let mut rec = Rec::<F, Present>::new();
    let e = Endoscalar::alloc(&mut rec, Present::just(|| u)).map_err(|e| e.to_string())?;
    let l = e.lift(&mut rec).map_err(|e| e.to_string())?;
    ensure_eq!(*l.value().take(), want, "lifted value");
    ensure_eq!(rec.value(*l.wire()), want, "lifted wire");
    ensure_eq!(rec.satisfied(), Ok(()), "honest assignment");
    let mut un = Rec::<F, Absent>::new();
    let e = Endoscalar::alloc(&mut un, Empty).map_err(|e| e.to_string())?;
    let lw = *e.lift(&mut un).map_err(|e| e.to_string())?.wire();
    ensure!(rec.shape() == un.shape() && lw == *l.wire(), "the circuit depends on the witness");
    let v = Emulator::emulate_wireless(u, |dr: &mut Emulator<Wireless<Always<()>, F>>, w| Ok(*Endoscalar::alloc(dr, w)?.lift(dr)?.value().take()))
        .map_err(|e| e.to_string())?;
    ensure_eq!(v, want, "lifted without wires");
    let v = Emulator::<Wired<F>>::emulate_wired(u, |dr, w| Ok(*Endoscalar::alloc(dr, w)?.lift(dr)?.wire())).map_err(|e| e.to_string())?;
    ensure_eq!(v, want, "lifted on the emulator");
    Simulator::<F>::simulate(u, |dr, w| Endoscalar::alloc(dr, w)?.lift(dr).map(|_| ())).map_err(|e| format!("simulator: {e}"))?;
    // different challenges, different scalars
    let mut c = b.clone();
    for _ in 0..g.usize(1, 3) {
        let i = g.usize(0, BITS - 1);
        c[i] = !c[i];
    }
    if F::NUM_BITS > 200 {
        ensure_eq!(lift_endoscalar::<F>(from_bits(&c)) == want, c == b, "two challenges lift to one scalar");
    }
    Ok(())
}
fn lift(g: &mut Gen) -> R {
    match g.below(3) {
        0 => lift_in::<Fp>(g),
        1 => lift_in::<Fq>(g),
        _ => lift_in::<Gf<13>>(g),
    }
}
/// Scaling is multiplication by the lifted scalar.
fn scale_in<C: CurveAffine>(g: &mut Gen, deep: bool) -> R {
    let b = gen_bits(g);
    let u = from_bits(&b);
    let k: C::Scalar = match g.below(3) {
        0 => C::Scalar::ONE,
        1 => C::Scalar::from(g.range(1, 9)),
        _ => rand_fe(g),
    };
    if k == C::Scalar::ZERO {
        return Ok(());
    }
    note!(g, "{u:?} times {k:?}");
    g.nt(b.iter().any(|x| *x));
    let p: C = (C::Curve::generator() * k).into();
    let want: C = (C::Curve::generator() * (k * lift_endoscalar::<<C as CurveAffine>::ScalarExt>(u))).into();
    let co = |p: &C| p.coordinates().into_option().map(|c| (*c.x(), *c.y()));
    let mut rec = Rec::<C::Base, Present>::new();
    let e = Endoscalar::alloc(&mut rec, Present::just(|| u)).map_err(|e| e.to_string())?;
    let q = Point::<_, C>::alloc(&mut rec, Present::just(|| p)).map_err(|e| e.to_string())?;
    let before = rec.gates;
    let r = e.group_scale(&mut rec, &q).map_err(|e| e.to_string())?;
    ensure_eq!(co(&r.value().take()), co(&want), "scaled point");
    let mut v: Vec<Element<'_, _>> = vec![];
    r.write(&mut rec, &mut v).unwrap();
    let (x, y) = co(&want).unwrap();
    let outs: Vec<W> = v.iter().map(|e| *e.wire()).collect();
    ensure_eq!(vec![rec.value(outs[0]), rec.value(outs[1])], vec![x, y], "scaled wires");
    ensure_eq!(rec.satisfied(), Ok(()), "honest assignment");
    let mut un = Rec::<C::Base, Absent>::new();
    let eu = Endoscalar::alloc(&mut un, Empty).map_err(|e| e.to_string())?;
    let qu = Point::<_, C>::alloc(&mut un, Empty).map_err(|e| e.to_string())?;
    eu.group_scale(&mut un, &qu).map_err(|e| e.to_string())?;
    ensure!(rec.shape() == un.shape(), "the circuit depends on the witness");
    let s = Emulator::emulate_wireless((u, p), |dr: &mut Emulator<Wireless<Always<()>, C::Base>>, w| {
        let (u, p) = w.cast();
        let e = Endoscalar::alloc(dr, u)?;
        let q = Point::<_, C>::alloc(dr, p)?;
        Ok(e.group_scale(dr, &q)?.value().take())
    })
    .map_err(|e| e.to_string())?;
    ensure_eq!(co(&s), co(&want), "scaled without wires");
    if deep {
        let mut ins: Vec<W> = e.bits().map(|b| *b.wire()).collect();
        let mut v: Vec<Element<'_, _>> = vec![];
        q.write(&mut rec, &mut v).unwrap();
        ins.extend(v.iter().map(|e| *e.wire()));
        if let Some(k) = rec.free_output(&ins, &outs) {
            return Err(format!("coordinate {k} of the result is not determined"));
        }
        let k = g.usize(before, rec.gates - 1);
        let mut bad = Rec::<C::Base, Present>::with_tamper(vcs::tamper_gate(k, g.below(3), rand_fe(g), rand_fe(g)));
        let e = Endoscalar::alloc(&mut bad, Present::just(|| u)).map_err(|e| e.to_string())?;
        let q = Point::<_, C>::alloc(&mut bad, Present::just(|| p)).map_err(|e| e.to_string())?;
        if e.group_scale(&mut bad, &q).is_ok() {
            ensure!(
                bad.satisfied().is_err() || outs.iter().all(|w| bad.value(*w) == rec.value(*w)),
                "another value at gate {k} goes unnoticed"
            );
        }
    }
    Ok(())
}
fn scale(g: &mut Gen) -> R {
    if g.bool() { scale_in::<EpAffine>(g, false) } else { scale_in::<EqAffine>(g, false) }
}
fn scale_tampered(g: &mut Gen) -> R {
    if g.bool() { scale_in::<EpAffine>(g, true) } else { scale_in::<EqAffine>(g, true) }
}
/// Bits of an allocated endoscalar are bits in every satisfying assignment, and
/// lifting them gives what it should.
fn alloc_sound(g: &mut Gen) -> R {
    let b = gen_bits(g);
    g.nt(true);
    note!(g, "{:?}", from_bits(&b));
    let mut rec = Rec::<Gf<7>, Absent>::new();
    let e = Endoscalar::alloc(&mut rec, Empty).map_err(|e| e.to_string())?;
    let ws: Vec<W> = e.bits().map(|b| *b.wire()).collect();
    let i = g.usize(0, BITS - 1);
    let all = solutions(&rec, &[], &ws[i..i + 1], 100_000).unwrap();
    ensure_eq!(all, BTreeSet::from([vec![Gf(0)], vec![Gf(1)]]), "bit {i} over all satisfying assignments");
    let l = e.lift(&mut rec).map_err(|e| e.to_string())?;
    let fixed: Vec<(W, Gf<7>)> = ws.iter().zip(&b).map(|(w, b)| (*w, Gf(*b as u64))).collect();
    let all = solutions(&rec, &fixed, &[*l.wire()], 100_000).unwrap();
    ensure_eq!(all, BTreeSet::from([vec![lifted::<Gf<7>>(&b)]]), "lifted over all satisfying assignments");
    Ok(())
}
pub fn endoscalars() -> Prop {
    Prop {
        id: "P04",
        subs: vec![
            Sub::new("alloc", alloc, 20, 2000, "not zero"),
            Sub::new("extract", extract, 10, 1000, "always"),
            Sub::new("extract_sound", extract_sound, 4, 300, "always"),
            Sub::new("alloc_sound", alloc_sound, 3, 300, "always"),
            Sub::new("lift", lift, 20, 2000, "not zero"),
            Sub::new("scale", scale, 10, 1000, "not zero"),
            Sub::new("scale_tampered", scale_tampered, 2, 100, "not zero"),
        ],
        assumptions: &[],
    }
}

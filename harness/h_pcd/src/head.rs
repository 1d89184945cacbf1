//! Headers, steps and their registration.
use crate::app::*;
use ff::Field;
use pasta_curves::{Fp, arithmetic::CurveAffine as _};
use ragu_circuits::polynomials::{TestRank, ProductionRank};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue, emulator::Emulator},
    gadgets::{Bound, Kind},
    maybe::{Always, Maybe, MaybeKind},
};
use ragu_pasta::Pasta;
use ragu_pcd::{
    ApplicationBuilder,
    header::{Header, Suffix},
    step::{Encoded, Index, Step},
    verif,
};
use ragu_primitives::{Element, vec::{ConstLen, FixedVec}};
use std::collections::BTreeMap;
use vcs::{Absent, Present, Rec, W, fe, nonzero};
use vlib::{Gen, Prop, R, Sub, catches, ensure, ensure_eq, note};

/// As many elements as asked for.
pub struct Many<const N: usize, const S: usize>;
impl<const N: usize, const S: usize> Header<Fp> for Many<N, S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = [Fp; N];
    type Output = Kind![Fp; FixedVec<Element<'_, _>, ConstLen<N>>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, [Fp; N]>) -> Result<Bound<'dr, D, Self::Output>> {
        FixedVec::try_from_fn(|i| Element::alloc(dr, w.as_ref().map(|w| w[i])))
    }
}
/// Elements that are constants, or sums of others.
pub struct Made;
impl Header<Fp> for Made {
    const SUFFIX: Suffix = Suffix::new(usize::MAX - 2);
    type Data = Fp;
    type Output = Kind![Fp; (Element<'_, _>, Element<'_, _>)];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        let e = Element::alloc(dr, w)?;
        let s = e.square(dr)?;
        let five = Element::constant(dr, Fp::from(5));
        Ok((s.add(dr, &e), five))
    }
}
type V = Always<()>;
fn just<T: Send>(x: T) -> Always<T> {
    V::maybe_just(|| x)
}
fn malformed<T>(r: &Result<T>) -> bool {
    matches!(r, Err(Error::MalformedEncoding(_)))
}
/// One header, encoded in every way there is.
fn one<H: Header<Fp>, const HS: usize>(g: &mut Gen, data: H::Data, elements: Vec<Fp>, suffix: u64, shapes: &mut Vec<(vcs::Shape<Fp>, Vec<W>)>) -> R
where
    H::Data: Clone,
{
    let name = core::any::type_name::<H>();
    let len = elements.len();
    let fits = len < HS;
    let mut want = elements;
    if fits {
        want.resize(HS - 1, Fp::ZERO);
        want.push(Fp::from(suffix));
    }
    g.nt(fits);
    for uniform in [false, true] {
        let kind = if uniform { "uniform" } else { "gadget" };
        let mut em = Emulator::execute();
        let r = verif::encode::<H, HS, _>(&mut em, just(data.clone()), uniform);
        if !fits {
            ensure!(malformed(&r), "{name} in {HS} ({kind}) is not refused");
            continue;
        }
        let words: Vec<Fp> = r.map_err(|e| format!("{name} in {HS} ({kind}): {e:?}"))?.iter().map(|e| *e.value().take()).collect();
        ensure_eq!(words, want, "{name} in {HS} ({kind})");
        let mut dr = Rec::<Fp, Present>::new();
        let r = verif::encode::<H, HS, _>(&mut dr, just(data.clone()), uniform).map_err(|e| format!("{e:?}"))?;
        let ws: Vec<W> = r.iter().map(|e| *e.wire()).collect();
        ensure_eq!(ws.iter().map(|w| dr.value(*w)).collect::<Vec<_>>(), want, "wires of {name} in {HS} ({kind})");
        dr.satisfied().map_err(|e| format!("{name} in {HS} ({kind}): {e}"))?;
        if uniform {
            shapes.push((dr.shape(), ws));
        } else {
            // the padding and the suffix are of the circuit, not of the witness
            for (k, w) in ws.iter().enumerate().skip(len) {
                ensure!(dr.comb(*w).keys().all(|k| *k == 0), "element {k} of {name} in {HS} is up to the prover");
            }
        }
        // without a witness, the same circuit
        let mut no = Rec::<Fp, Absent>::new();
        verif::encode::<H, HS, _>(&mut no, <Absent as MaybeKind>::empty::<H::Data>(), uniform).map_err(|e| format!("{e:?}"))?;
        ensure!(no.shape() == dr.shape(), "{name} in {HS} ({kind}): the circuit depends on the witness");
    }
    // what a rerandomization proves
    if fits {
        let mut dr = Rec::<Fp, Present>::new();
        let r = verif::rerandomize_elements::<Pasta, H, TestRank, HS, _>(&mut dr, just(data)).map_err(|e| format!("{e:?}"))?;
        let ws: Vec<W> = r.iter().map(|e| *e.wire()).collect();
        ensure_eq!(ws.len(), 3 * HS, "elements of a rerandomization");
        let vals: Vec<Fp> = ws.iter().map(|w| dr.value(*w)).collect();
        ensure_eq!(vals[..HS], want[..], "left header of a rerandomization of {name}");
        ensure_eq!(vals[HS..2 * HS], Model::Unit.encoding(HS)[..], "right header of a rerandomization of {name}");
        ensure_eq!(vals[2 * HS..], want[..], "output of a rerandomization of {name}");
        ensure!(dr.free_output(&ws[..HS], &ws).is_none(), "a rerandomization of {name} may have another output than its input");
        dr.satisfied()?;
        shapes.push((dr.shape(), ws));
    }
    Ok(())
}
fn encodings_at<const HS: usize>(g: &mut Gen) -> R {
    let mut shapes = vec![];
    let p = a_point(g);
    let c = p.coordinates().unwrap();
    let v: Vec<Fp> = (0..9).map(|_| an_element(g)).collect();
    let b = g.bool();
    note!(g, "HEADER_SIZE {HS}: {v:?} {b} {p:?}");
    one::<(), HS>(g, (), vec![], 1, &mut shapes)?;
    one::<HEl, HS>(g, v[0], vec![v[0]], 2, &mut shapes)?;
    one::<HElB, HS>(g, v[0], vec![v[0]], 5, &mut shapes)?;
    one::<HPair, HS>(g, (v[0], v[1]), vec![v[0], v[1]], 9, &mut shapes)?;
    one::<HTri, HS>(g, ((v[0], v[1]), v[2]), vec![v[0], v[1], v[2]], 1002, &mut shapes)?;
    one::<HBit, HS>(g, b, vec![Fp::from(b as u64)], 3, &mut shapes)?;
    one::<HPt, HS>(g, p, vec![*c.x(), *c.y()], 4, &mut shapes)?;
    one::<Made, HS>(g, v[0], vec![v[0] * v[0] + v[0], Fp::from(5)], u64::MAX, &mut shapes)?;
    one::<Many<0, 40>, HS>(g, [], vec![], 42, &mut shapes)?;
    one::<Many<4, 41>, HS>(g, core::array::from_fn(|i| v[i]), v[..4].to_vec(), 43, &mut shapes)?;
    one::<Many<8, { 1 << 40 }>, HS>(g, core::array::from_fn(|i| v[i]), v[..8].to_vec(), (1 << 40) + 2, &mut shapes)?;
    one::<Many<9, 42>, HS>(g, core::array::from_fn(|i| v[i]), v.clone(), 44, &mut shapes)?;
    // encodings come in pairs: the uniform encoding, then the rerandomization
    for k in 0..2 {
        let mut it = shapes.iter().skip(k).step_by(2);
        let first = it.next().unwrap();
        for s in it {
            ensure!(s.1 == first.1 && s.0 == first.0, "{} circuits of two headers differ in {HS}", if k == 0 { "uniform" } else { "rerandomization" });
        }
    }
    Ok(())
}
fn encodings(g: &mut Gen) -> R {
    match g.below(7) {
        0 => encodings_at::<1>(g),
        1 => encodings_at::<2>(g),
        2 => encodings_at::<3>(g),
        3 => encodings_at::<4>(g),
        4 => encodings_at::<5>(g),
        5 => encodings_at::<9>(g),
        _ => encodings_at::<10>(g),
    }
}
/// The circuit of a step proves its headers.
fn circuit<S: Step<Pasta>, const HS: usize>(g: &mut Gen, step: S, name: &str, data: (<S::Left as Header<Fp>>::Data, <S::Right as Header<Fp>>::Data, S::Witness<'static>), models: [Model; 3], holds: bool) -> R
where
    S: 'static,
{
    note!(g, "{name} of {models:?}, which {}", if holds { "holds" } else { "does not" });
    let mut dr = Rec::<Fp, Present>::new();
    let r = verif::step_elements::<Pasta, S, ProductionRank, HS, _>(&mut dr, step, just(data)).map_err(|e| format!("{name}: {e:?}"))?;
    let ws: Vec<W> = r.iter().map(|e| *e.wire()).collect();
    ensure_eq!(ws.iter().map(|w| dr.value(*w)).collect::<Vec<_>>(), models.iter().flat_map(|m| m.encoding(HS)).collect::<Vec<_>>(), "public elements of {name}");
    if holds {
        dr.satisfied().map_err(|e| format!("{name}: {e}"))?;
    } else {
        ensure!(dr.satisfied().is_err(), "{name} with a false witness is satisfied");
    }
    for k in 0..3 {
        ensure!(dr.comb(ws[(k + 1) * HS - 1]).keys().all(|v| *v == 0), "a suffix of {name} is up to the prover");
    }
    Ok(())
}
fn circuits(g: &mut Gen) -> R {
    let (a, b, c, d) = (an_element(g), an_element(g), fe::<Fp>(g), fe::<Fp>(g));
    g.nt(true);
    let p = a_point(g);
    match g.below(6) {
        0 => circuit::<_, 4>(g, Leaf::<0>, "leaf", ((), (), a), [Model::Unit, Model::Unit, Model::El(a)], true),
        1 => circuit::<_, 7>(g, LeafPt::<3>, "leaf point", ((), (), p), [Model::Unit, Model::Unit, Model::Pt(p)], true),
        2 => circuit::<_, 3>(g, Pairing::<0>, "pairing", (a, b, ()), [Model::El(a), Model::El(b), Model::Pair(a, a * b)], true),
        3 => circuit::<_, 4>(g, Grow::<5>, "grow", ((a, b), c, d), [Model::Pair(a, b), Model::El(c), Model::Tri(a + c, b, c * c + d)], true),
        4 => {
            let e = nonzero::<Fp>(g);
            let lie = g.bool();
            let q = a * e.invert().unwrap() + if lie { nonzero::<Fp>(g) } else { Fp::ZERO };
            circuit::<_, 3>(g, Quot::<0>, "quotient", ((a, e), (), q), [Model::Pair(a, e), Model::Unit, Model::El(q)], !lie)
        }
        _ => {
            let bit = g.bool();
            circuit::<_, 5>(g, Choose::<0>, "choose", (bit, (c, d), ()), [Model::Bit(bit), Model::Pair(c, d), Model::El(if bit { d } else { c })], true)
        }
    }
}

/// A header of a suffix; `T` tells types of the same suffix apart.
pub struct Tag<const S: usize, const T: usize>;
impl<const S: usize, const T: usize> Header<Fp> for Tag<S, T> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = ();
    type Output = ();
    fn encode<'dr, D: Driver<'dr, F = Fp>>(_: &mut D, _: DriverValue<D, ()>) -> Result<()> {
        Ok(())
    }
}
struct Any<L, Rt, O, const I: usize>(core::marker::PhantomData<(L, Rt, O)>);
impl<L: Header<Fp>, Rt: Header<Fp>, O: Header<Fp, Data = ()>, const I: usize> Step<Pasta> for Any<L, Rt, O, I> {
    const INDEX: Index = Index::new(I);
    type Witness<'source> = ();
    type Aux<'source> = ();
    type Left = L;
    type Right = Rt;
    type Output = O;
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const HS: usize>(
        &self,
        dr: &mut D,
        _: DriverValue<D, ()>,
        l: DriverValue<D, L::Data>,
        r: DriverValue<D, Rt::Data>,
    ) -> Result<((Encoded<'dr, D, L, HS>, Encoded<'dr, D, Rt, HS>, Encoded<'dr, D, O, HS>), DriverValue<D, ()>, DriverValue<D, ()>)>
    where
        Self: 'dr,
    {
        let u = D::unit();
        Ok(((Encoded::new(dr, l)?, Encoded::new(dr, r)?, Encoded::new(dr, u)?), D::unit(), D::unit()))
    }
}
type Bl = ApplicationBuilder<'static, Pasta, TestRank, 3>;
fn registration(g: &mut Gen) -> R {
    // (suffix, type) of the headers to choose from
    const LEFT: [(usize, usize); 3] = [(0, 0), (0, 1), (usize::MAX - 3, 0)];
    const RIGHT: [(usize, usize); 2] = [(0, 0), (1, 0)];
    const OUT: [(usize, usize); 3] = [(0, 0), (1, 1), (2, 0)];
    let mut b: Bl = Bl::new();
    let mut known: BTreeMap<usize, usize> = BTreeMap::new();
    let mut n = 0;
    // most of the time in keeping with what is registered already
    let skew = g.chance(3, 4);
    for _ in 0..g.usize(1, 8) {
        let idx = if g.chance(1, 12) { g.usize(0, 3) } else { n.min(3) };
        let (l, r, o) = if skew && g.chance(5, 6) { (0, 0, *g.pick(&[0usize, 2])) } else { (g.usize(0, 2), g.usize(0, 1), g.usize(0, 2)) };
        let unit = g.chance(1, 3);
        macro_rules! reg {
            ($($i:literal $l:literal $r:literal $o:literal;)*) => { match (idx, l, r, o) {
                $( ($i, $l, $r, $o) => if unit {
                    b.register(Any::<(), Tag<{RIGHT[$r].0}, {RIGHT[$r].1}>, Tag<{OUT[$o].0}, {OUT[$o].1}>, $i>(core::marker::PhantomData))
                } else {
                    b.register(Any::<Tag<{LEFT[$l].0}, {LEFT[$l].1}>, Tag<{RIGHT[$r].0}, {RIGHT[$r].1}>, Tag<{OUT[$o].0}, {OUT[$o].1}>, $i>(core::marker::PhantomData))
                }, )*
                _ => unreachable!(),
            } };
        }
        macro_rules! all {
            ($($i:literal)*) => { reg! { $(
                $i 0 0 0; $i 0 0 1; $i 0 0 2; $i 0 1 0; $i 0 1 1; $i 0 1 2;
                $i 1 0 0; $i 1 0 1; $i 1 0 2; $i 1 1 0; $i 1 1 1; $i 1 1 2;
                $i 2 0 0; $i 2 0 1; $i 2 0 2; $i 2 1 0; $i 2 1 1; $i 2 1 2;
            )* } };
        }
        let res = all!(0 1 2 3);
        let mut ok = idx == n;
        let mut uses = vec![RIGHT[r], OUT[o]];
        if !unit {
            uses.push(LEFT[l]);
        }
        let mut then = known.clone();
        for (s, t) in uses.iter() {
            ok &= *then.entry(*s).or_insert(*t) == *t;
        }
        note!(g, "step {idx} with headers {uses:?}{}", if unit { " and nothing" } else { "" });
        match (res, ok) {
            (Ok(x), true) => {
                b = x;
                known = then;
                n += 1;
                g.nt(n > 1);
            }
            (Err(Error::Initialization(_)), false) => {
                g.label("refused");
                g.nt(true);
                return Ok(());
            }
            (Ok(_), false) => return Err(format!("step {idx} with headers {uses:?} is registered after {n} steps with {known:?}")),
            (Err(e), _) => return Err(format!("step {idx} with headers {uses:?} after {n} steps with {known:?}: {e:?}")),
        }
        if n > 3 {
            break;
        }
    }
    Ok(())
}
/// Many steps, each with a header of its own; the one after them has the suffix of an earlier
/// header, the same header, or an index that is too high.
fn crowd(g: &mut Gen) -> R {
    let n = g.usize(0, 23);
    let then = g.below(6);
    note!(g, "{n} steps, then {then}");
    g.nt(n > 3);
    let mut b: Bl = Bl::new();
    macro_rules! all {
        ($($i:literal)*) => { $(
            if $i < n {
                b = b.register(Any::<(), (), Tag<{ 10 + $i }, 0>, $i>(core::marker::PhantomData)).map_err(|e| format!("step {} of {n} in order: {e:?}", $i))?;
            } else if $i == n {
                // one of the headers before
                const OLD: usize = if $i == 0 { 10 } else { 10 + ($i * 7 + 3) % $i };
                const HALF: usize = 10 + $i * 3 / 4;
                const LAST: usize = if $i == 0 { 10 } else { 9 + $i };
                let (r, ok) = match then {
                    0 => (b.register(Any::<(), Tag<OLD, 1>, (), $i>(core::marker::PhantomData)), $i == 0),
                    4 => (b.register(Any::<(), Tag<HALF, 1>, (), $i>(core::marker::PhantomData)), $i == 0),
                    5 => (b.register(Any::<(), Tag<LAST, 1>, (), $i>(core::marker::PhantomData)), $i == 0),
                    1 => (b.register(Any::<(), Tag<OLD, 0>, (), $i>(core::marker::PhantomData)), true),
                    2 => (b.register(Any::<(), (), (), { $i + 256 }>(core::marker::PhantomData)), false),
                    _ => (b.register(Any::<(), (), (), { $i + (1 << 32) }>(core::marker::PhantomData)), false),
                };
                return match (r, ok) {
                    (Ok(_), true) | (Err(Error::Initialization(_)), false) => Ok(()),
                    (Ok(_), false) => Err(format!("after {n} steps one is registered that is not the next or has another header's suffix")),
                    (Err(e), _) => Err(format!("after {n} steps the next: {e:?}")),
                };
            }
        )* };
    }
    all!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23);
    unreachable!()
}
/// Suffixes past the last are refused: they would be those of nothing.
fn suffixes(g: &mut Gen) -> R {
    let k = usize::MAX - g.usize(0, 3);
    note!(g, "suffix {k}");
    g.nt(true);
    let r = catches(|| Suffix::new(k));
    ensure_eq!(r.is_ok(), k <= usize::MAX - 2, "whether suffix {k} is allowed");
    Ok(())
}
/// A step that is not of the application.
fn strangers(g: &mut Gen) -> R {
    let app = plain();
    let w = fe::<Fp>(g);
    let rng = &mut vcs::VRng::of(g);
    g.nt(true);
    let k = g.below(3);
    note!(g, "stranger {k}");
    let r = match k {
        0 => app.seed(rng, Pad::<11>, w).map(|x| x.0).map(|_| ()),
        1 => app.seed(rng, Pad::<1000>, w).map(|x| x.0).map(|_| ()),
        _ => {
            // another step at an index that is taken
            let p = catches(|| app.seed(rng, Pad::<0>, w).and_then(|p| app.verify(&p.0, vcs::VRng::of(g))));
            ensure!(!matches!(p, Ok(Ok(true))), "a step proves what another of its index would have to");
            return Ok(());
        }
    };
    ensure!(r.is_err(), "a step that is not registered proves something");
    Ok(())
}
pub fn headers() -> Prop {
    Prop {
        id: "T04",
        subs: vec![
            Sub::new("encodings", encodings, 200, 6000, "twelve headers (0 to 9 elements; booleans, points, constants, sums; suffixes up to the last) in HEADER_SIZE 1 to 10, kept as gadgets and uniformly: the elements, zeros and suffix, or MalformedEncoding when they do not fit; the suffix constant in the circuit; uniform and rerandomization circuits the same for all; a rerandomization's output its input; non-trivial when something fits"),
            Sub::new("circuits", circuits, 200, 6000, "the circuit of a step on a recording driver: public elements are the three encodings, satisfied exactly when the step's witness is true"),
            Sub::new("registration", registration, 3000, 60000, "up to 8 registrations of 72 types of steps with colliding suffixes and indices out of order, against a map from suffixes to types; non-trivial when more than one is registered or one refused"),
            Sub::new("crowd", crowd, 200, 4000, "up to 23 registrations in order, then one with the suffix of an earlier header or the header itself, or with an index too high by 2^8 or 2^32; non-trivial after more than three"),
            Sub::new("suffixes", suffixes, 16, 64, "the largest suffixes"),
            Sub::new("strangers", strangers, 16, 200, "steps never registered, by an index past the last or one that is taken, prove nothing"),
        ],
        assumptions: &[],
    }
}

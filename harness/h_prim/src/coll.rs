//! Gadgets made of primitives: writing them out, vectors of fixed length,
//! consistency of existing wires, demotion.
use group::prime::PrimeCurveAffine;
use ff::{Field, PrimeField};
use pasta_curves::{EpAffine, Fp};
use ragu_arithmetic::{Coeff, CurveAffine, PoseidonPermutation};
use ragu_core::{
    Error, Result,
    convert::WireMap,
    drivers::{
        Driver, DriverTypes,
        emulator::{Emulator, Wireless},
    },
    gadgets::{Bound, Gadget},
    maybe::{Always, Empty, Maybe},
};
use ragu_primitives::{
    Boolean, Element, GadgetExt, Point,
    consistent::Consistent,
    io::{Buffer, Pipe, Write},
    poseidon::SpongeState,
    vec::{CollectFixed, ConstLen, FixedVec, Len},
};
use std::collections::BTreeSet;
use std::marker::PhantomData;
use vcs::curve::*;
use vcs::prog::boom;
use vcs::solve::solutions;
use vcs::{Absent, Gf, Presence, Present, Rec, W, fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

fn is_boom(e: &Error, k: u64) -> bool {
    matches!(e, Error::InvalidWitness(x) if x.to_string() == format!("boom {k}"))
}

/// What a nest is made of, in the order its parts are declared.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Leaf {
    E,
    B,
    P,
}
impl Leaf {
    fn wires(self) -> usize {
        if self == Leaf::P { 2 } else { 1 }
    }
}
/// Where leaves come from.
pub trait Source<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> {
    fn e(&mut self) -> Element<'dr, D>;
    fn b(&mut self) -> Boolean<'dr, D>;
    fn p(&mut self) -> Point<'dr, D, C>;
}
pub trait Parts<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine>: Gadget<'dr, D, Kind: Write<D::F>> + Consistent<'dr, D> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self;
    fn leaves(o: &mut Vec<Leaf>);
    /// wires and values, read off without the library's traversals
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>);
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> Parts<'dr, D, C> for Element<'dr, D> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        s.e()
    }
    fn leaves(o: &mut Vec<Leaf>) {
        o.push(Leaf::E)
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        o.push((self.wire().clone(), *self.value().take()))
    }
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> Parts<'dr, D, C> for Boolean<'dr, D> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        s.b()
    }
    fn leaves(o: &mut Vec<Leaf>) {
        o.push(Leaf::B)
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        o.push((self.wire().clone(), if self.value().take() { D::F::ONE } else { D::F::ZERO }))
    }
}
struct Wires<D: DriverTypes>(Vec<D::ImplWire>);
impl<F: Field, D: DriverTypes<ImplField = F>> WireMap<F> for Wires<D> {
    type Src = D;
    type Dst = PhantomData<F>;
    fn convert_wire(&mut self, w: &D::ImplWire) -> Result<()> {
        self.0.push(w.clone());
        Ok(())
    }
}
fn coords<'dr, C: CurveAffine, D: Driver<'dr, F = C::Base>>(p: &Point<'dr, D, C>) -> Vec<D::Wire> {
    let mut m = Wires::<D>(vec![]);
    p.map(&mut m).unwrap();
    m.0
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> Parts<'dr, D, C> for Point<'dr, D, C> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        s.p()
    }
    fn leaves(o: &mut Vec<Leaf>) {
        o.push(Leaf::P)
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        let v = self.value().take().coordinates().into_option().map(|c| [*c.x(), *c.y()]).expect("coordinates");
        o.extend(coords::<C, D>(self).into_iter().zip(v));
    }
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> Parts<'dr, D, C> for () {
    fn build(_: &mut impl Source<'dr, D, C>) {}
    fn leaves(_: &mut Vec<Leaf>) {}
    fn list(&self, _: &mut Vec<(D::Wire, D::F)>) {}
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine, A: Parts<'dr, D, C>, B: Parts<'dr, D, C>> Parts<'dr, D, C> for (A, B) {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        (A::build(s), B::build(s))
    }
    fn leaves(o: &mut Vec<Leaf>) {
        A::leaves(o);
        B::leaves(o);
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        self.0.list(o);
        self.1.list(o);
    }
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine, A: Parts<'dr, D, C>> Parts<'dr, D, C> for Box<A> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        Box::new(A::build(s))
    }
    fn leaves(o: &mut Vec<Leaf>) {
        A::leaves(o)
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        (**self).list(o)
    }
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine, A: Parts<'dr, D, C>, const N: usize> Parts<'dr, D, C> for [A; N] {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        core::array::from_fn(|_| A::build(s))
    }
    fn leaves(o: &mut Vec<Leaf>) {
        (0..N).for_each(|_| A::leaves(o))
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        self.iter().for_each(|x| x.list(o))
    }
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine, A: Parts<'dr, D, C>, L: Len> Parts<'dr, D, C> for FixedVec<A, L> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        FixedVec::from_fn(|_| A::build(s))
    }
    fn leaves(o: &mut Vec<Leaf>) {
        (0..L::len()).for_each(|_| A::leaves(o))
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        self.iter().for_each(|x| x.list(o))
    }
}
/// Parameters of a sponge with a state of three; only the state is used here.
pub struct Three;
impl<F: Field> PoseidonPermutation<F> for Three {
    const T: usize = 3;
    const RATE: usize = 2;
    const FULL_ROUNDS: usize = 0;
    const PARTIAL_ROUNDS: usize = 0;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> {
        [].into_iter()
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> {
        [].into_iter()
    }
}
impl<'dr, D: Driver<'dr, F = C::Base>, C: CurveAffine> Parts<'dr, D, C> for SpongeState<'dr, D, Three> {
    fn build(s: &mut impl Source<'dr, D, C>) -> Self {
        SpongeState::from_elements(FixedVec::from_fn(|_| s.e()))
    }
    fn leaves(o: &mut Vec<Leaf>) {
        o.extend([Leaf::E; 3])
    }
    fn list(&self, o: &mut Vec<(D::Wire, D::F)>) {
        for x in self.clone().into_elements().iter() {
            o.push((x.wire().clone(), *x.value().take()));
        }
    }
}

type Dr<F> = Rec<F, Present>;
/// Leaves over freshly allocated wires.
struct Fresh<'a, 'g, C: CurveAffine> {
    dr: &'a mut Dr<C::Base>,
    g: &'g mut Gen,
    points: &'a [C],
    made: Vec<(W, C::Base)>,
}
impl<C: CurveAffine> Source<'static, Dr<C::Base>, C> for Fresh<'_, '_, C> {
    fn e(&mut self) -> Element<'static, Dr<C::Base>> {
        let v: C::Base = fe(self.g);
        let e = if self.g.chance(1, 6) {
            Element::constant(self.dr, v)
        } else {
            Element::alloc(self.dr, Always::<()>::just(|| v)).unwrap()
        };
        self.made.push((*e.wire(), v));
        e
    }
    fn b(&mut self) -> Boolean<'static, Dr<C::Base>> {
        let v = self.g.bool();
        let b = Boolean::alloc(self.dr, Always::<()>::just(|| v)).unwrap();
        self.made.push((*b.wire(), C::Base::from(v as u64)));
        b
    }
    fn p(&mut self) -> Point<'static, Dr<C::Base>, C> {
        let v = *self.g.pick(self.points);
        let p = Point::alloc(self.dr, Always::<()>::just(|| v)).unwrap();
        let c = v.coordinates().into_option().expect("coordinates");
        let w = coords::<C, Dr<C::Base>>(&p);
        assert_eq!(w.len(), 2, "wires of a point");
        self.made.push((w[0], *c.x()));
        self.made.push((w[1], *c.y()));
        p
    }
}
struct FailAt {
    seen: usize,
    at: usize,
    k: u64,
}
impl<'dr, D: Driver<'dr>> Buffer<'dr, D> for FailAt {
    fn write(&mut self, _: &mut D, _: &Element<'dr, D>) -> Result<()> {
        self.seen += 1;
        if self.seen > self.at { Err(boom(self.k)) } else { Ok(()) }
    }
}
struct Collect<D, E> {
    seen: Vec<W>,
    _d: PhantomData<(D, E)>,
}
impl<F: PrimeField> WireMap<F> for Collect<F, ()> {
    type Src = Dr<F>;
    type Dst = Emulator<Wireless<Always<()>, F>>;
    fn convert_wire(&mut self, w: &W) -> Result<()> {
        self.seen.push(*w);
        Ok(())
    }
}
fn made<C: CurveAffine, G: Parts<'static, Dr<C::Base>, C>>(g: &mut Gen, dr: &mut Dr<C::Base>, points: &[C]) -> (G, Vec<(W, C::Base)>) {
    let mut s = Fresh { dr, g, points, made: vec![] };
    let x = G::build(&mut s);
    (x, s.made)
}
fn written<'dr, F: PrimeField>(v: &[Element<'dr, Dr<F>>]) -> Vec<(W, F)> {
    v.iter().map(|e| (*e.wire(), *e.value().take())).collect()
}

/// The constraints from `cons` on are the equalities of corresponding wires.
fn pairwise<F: PrimeField>(dr: &Dr<F>, cons: usize, a: &[(W, F)], b: &[(W, F)], what: &str) -> R {
    let mut direct = vec![];
    for (a, b) in a.iter().zip(b) {
        let mut m = dr.comb(a.0).clone();
        for (v, c) in dr.comb(b.0) {
            *m.entry(*v).or_default() -= *c;
        }
        m.retain(|_, c| *c != F::ZERO);
        direct.push(m);
    }
    let norm = |m: &std::collections::BTreeMap<usize, F>| {
        let k = m.values().next().and_then(|v| v.invert().into_option()).unwrap_or(F::ONE);
        m.iter().map(|(v, c)| (*v, *c * k)).collect::<Vec<_>>()
    };
    let sorted = |m: &[std::collections::BTreeMap<usize, F>]| {
        let mut v: Vec<_> = m.iter().map(norm).collect();
        v.sort_by_key(|x| format!("{x:?}"));
        v
    };
    ensure_eq!(sorted(&dr.constraints[cons..]), sorted(&direct), "{what}");
    Ok(())
}
fn write_one<C: CurveAffine, G: Parts<'static, Dr<C::Base>, C>>(g: &mut Gen, name: &'static str, points: &[C]) -> R {
    let mut dr = Dr::<C::Base>::new();
    let (x, want) = made::<C, G>(g, &mut dr, points);
    note!(g, "{name}: {want:?}");
    let n = want.len();
    g.nt(n > 1);
    let (gates, cons, adds) = (dr.gates, dr.constraints.len(), dr.adds);
    let mut l = vec![];
    x.list(&mut l);
    ensure_eq!(l, want, "{name}: parts");
    let mut v: Vec<Element<'static, Dr<C::Base>>> = vec![];
    x.write(&mut dr, &mut v).map_err(|e| e.to_string())?;
    ensure_eq!(written(&v), want, "{name}: elements written");
    // more goes behind what is there, also through a borrow
    let mut borrowed = &mut v;
    x.write(&mut dr, &mut borrowed).map_err(|e| e.to_string())?;
    ensure_eq!(written(&v), [want.clone(), want.clone()].concat(), "{name}: written twice");
    x.write(&mut dr, &mut ()).map_err(|e| e.to_string())?;
    let start = g.usize(0, 5);
    let mut c = start;
    x.write(&mut dr, &mut c).map_err(|e| e.to_string())?;
    ensure_eq!(c, start + n, "{name}: elements counted");
    ensure_eq!((dr.gates, dr.constraints.len(), dr.adds), (gates, cons, adds), "{name}: writing is free");
    ensure_eq!(x.num_wires().map_err(|e| e.to_string())?, n, "{name}: wires");
    let mut m = Collect { seen: vec![], _d: PhantomData };
    x.map(&mut m).map_err(|e| e.to_string())?;
    ensure_eq!(m.seen, want.iter().map(|x| x.0).collect::<Vec<_>>(), "{name}: wires mapped in order");
    let (y, want_y) = made::<C, G>(g, &mut dr, points);
    let cons = dr.constraints.len();
    x.enforce_equal(&mut dr, &y).map_err(|e| e.to_string())?;
    pairwise(&dr, cons, &want, &want_y, &format!("{name}: equality"))?;
    // a buffer that fails stops everything
    let at = g.usize(0, n + 1);
    let k = g.below(1000);
    let mut f = FailAt { seen: 0, at, k };
    let r = x.write(&mut dr, &mut f);
    if at < n {
        ensure!(matches!(&r, Err(e) if is_boom(e, k)), "{name}: buffer failing at {at} gives {r:?}");
        ensure_eq!(f.seen, at + 1, "{name}: writes to a buffer failing at {at}");
    } else {
        ensure!(r.is_ok(), "{name}: {r:?}");
        ensure_eq!(f.seen, n, "{name}: writes");
    }
    // through a pipe into another circuit
    let mut other = Dr::<C::Base>::new();
    let mut out: Vec<Element<'static, Dr<C::Base>>> = vec![];
    x.write(&mut dr, &mut Pipe::new(&mut other, &mut out)).map_err(|e| e.to_string())?;
    let vals: Vec<C::Base> = want.iter().map(|x| x.1).collect();
    ensure_eq!(out.iter().map(|e| *e.value().take()).collect::<Vec<_>>(), vals, "{name}: values piped");
    ensure_eq!(out.iter().map(|e| other.value(*e.wire())).collect::<Vec<_>>(), vals, "{name}: wires piped");
    ensure_eq!((other.gates, other.constraints.len()), (n, 0), "{name}: one allocation per element piped");
    ensure_eq!(out.iter().map(|e| *e.wire()).collect::<BTreeSet<_>>().len(), n, "{name}: separate wires piped");
    let mut blind = Rec::<C::Base, Absent>::new();
    let mut bout: Vec<Element<'static, _>> = vec![];
    x.write(&mut dr, &mut Pipe::new(&mut blind, &mut bout)).map_err(|e| e.to_string())?;
    ensure!(blind.shape() == other.shape(), "{name}: piped circuit depends on values");
    ensure_eq!(bout.iter().map(|e| *e.wire()).collect::<Vec<_>>(), out.iter().map(|e| *e.wire()).collect::<Vec<_>>(), "{name}: piped wires");
    let mut f = FailAt { seen: 0, at, k };
    let r = x.write(&mut dr, &mut Pipe::new(&mut Dr::<C::Base>::new(), &mut f));
    ensure_eq!(r.is_err(), at < n, "{name}: failure behind a pipe");
    ensure!(!matches!(&r, Err(e) if !is_boom(e, k)), "{name}: failure behind a pipe {r:?}");
    Ok(())
}

type E<F> = Element<'static, Dr<F>>;
type B<F> = Boolean<'static, Dr<F>>;
type P<C> = Point<'static, Dr<<C as CurveAffine>::Base>, C>;
type V<T, const N: usize> = FixedVec<T, ConstLen<N>>;
type S<F> = SpongeState<'static, Dr<F>, Three>;
macro_rules! nests {
    ($f:ident, $C:ty, $F:ty, $g:expr, $($extra:expr),*) => {
        match $g.below(25) {
            0 => $f::<$C, ()>($g, "()", $($extra),*),
            1 => $f::<$C, E<$F>>($g, "E", $($extra),*),
            2 => $f::<$C, B<$F>>($g, "B", $($extra),*),
            3 => $f::<$C, P<$C>>($g, "P", $($extra),*),
            4 => $f::<$C, [P<$C>; 3]>($g, "[P; 3]", $($extra),*),
            5 => $f::<$C, (E<$F>, B<$F>)>($g, "(E, B)", $($extra),*),
            6 => $f::<$C, (B<$F>, (P<$C>, E<$F>))>($g, "(B, (P, E))", $($extra),*),
            7 => $f::<$C, V<E<$F>, 4>>($g, "V<E, 4>", $($extra),*),
            8 => $f::<$C, V<(P<$C>, B<$F>), 2>>($g, "V<(P, B), 2>", $($extra),*),
            9 => $f::<$C, Box<(P<$C>, E<$F>)>>($g, "Box<(P, E)>", $($extra),*),
            10 => $f::<$C, S<$F>>($g, "S", $($extra),*),
            11 => $f::<$C, (S<$F>, V<B<$F>, 3>)>($g, "(S, V<B, 3>)", $($extra),*),
            12 => $f::<$C, V<E<$F>, 0>>($g, "V<E, 0>", $($extra),*),
            13 => $f::<$C, [V<B<$F>, 2>; 3]>($g, "[V<B, 2>; 3]", $($extra),*),
            14 => $f::<$C, V<[E<$F>; 2], 3>>($g, "V<[E; 2], 3>", $($extra),*),
            15 => $f::<$C, (V<V<B<$F>, 2>, 2>, P<$C>)>($g, "(V<V<B, 2>, 2>, P)", $($extra),*),
            16 => $f::<$C, Box<V<Box<E<$F>>, 3>>>($g, "Box<V<Box<E>, 3>>", $($extra),*),
            17 => $f::<$C, ((), (V<(), 2>, B<$F>))>($g, "((), (V<(), 2>, B))", $($extra),*),
            18 => $f::<$C, ((P<$C>, P<$C>), [B<$F>; 1])>($g, "((P, P), [B; 1])", $($extra),*),
            19 => $f::<$C, [E<$F>; 33]>($g, "[E; 33]", $($extra),*),
            20 => match $g.below(5) {
                0 => $f::<$C, [B<$F>; 140]>($g, "[B; 140]", $($extra),*),
                1 => $f::<$C, V<E<$F>, 530>>($g, "V<E, 530>", $($extra),*),
                3 => $f::<$C, V<B<$F>, 310>>($g, "V<B, 310>", $($extra),*),
                2 => $f::<$C, V<[E<$F>; 6], 65>>($g, "V<[E; 6], 65>", $($extra),*),
                _ => $f::<$C, Box<[V<B<$F>, 3>; 90]>>($g, "Box<[V<B, 3>; 90]>", $($extra),*),
            },
            21 => $f::<$C, V<P<$C>, 36>>($g, "V<P, 36>", $($extra),*),
            22 => $f::<$C, V<B<$F>, 70>>($g, "V<B, 70>", $($extra),*),
            23 => $f::<$C, ([E<$F>; 9], V<(B<$F>, E<$F>), 20>)>($g, "([E; 9], V<(B, E), 20>)", $($extra),*),
            _ => $f::<$C, V<E<$F>, 17>>($g, "V<E, 17>", $($extra),*),
        }
    };
}
fn ep() -> &'static [EpAffine] {
    static T: std::sync::OnceLock<Vec<EpAffine>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut p: <EpAffine as CurveAffine>::CurveExt = EpAffine::generator().into();
        (0..12)
            .map(|i| {
                p = group::Group::double(&p) + EpAffine::generator();
                if i % 2 == 0 { p.into() } else { (-p).into() }
            })
            .collect()
    })
}
fn finite<C: CurveAffine>(v: Vec<C>) -> Vec<C> {
    v.into_iter().filter(|p| !bool::from(p.is_identity())).collect()
}
fn c7() -> Vec<C7> {
    all_points()
}
fn writes(g: &mut Gen) -> R {
    match g.below(2) {
        0 => nests!(write_one, EpAffine, Fp, g, ep()),
        _ => {
            let pts = finite(c7());
            nests!(write_one, C7, Gf<7>, g, &pts)
        }
    }
}

// ---------------------------------------------------------------- FixedVec
struct Any<const N: usize>;
impl<const N: usize> Len for Any<N> {
    fn len() -> usize {
        N
    }
}
fn vectors_of<L: Len>(g: &mut Gen) -> R {
    let n = L::len();
    let m = match g.below(8) {
        0..=3 => n,
        4 => (n + g.usize(0, 2)).saturating_sub(1),
        5 => *g.pick(&[n / 2, 2 * n, n + 256, n % 256, n % 64]),
        _ => g.usize(0, 9),
    };
    let v: Vec<u64> = (0..m).map(|_| g.below(100)).collect();
    note!(g, "length {n}, items {v:?}");
    g.nt(m != n || n > 1);
    ensure_eq!(L::range(), 0..n, "range");
    let check = |r: Result<FixedVec<u64, L>>, what: &str| -> R {
        match r {
            Ok(x) => {
                ensure_eq!(m, n, "{what}: wrong number of items accepted");
                ensure_eq!(x.to_vec(), v, "{what}: items");
                ensure_eq!(x.len(), n, "{what}: length");
                ensure_eq!(x.clone().into_inner(), v, "{what}: clone");
                ensure_eq!(x.clone().into_iter().collect::<Vec<_>>(), v, "{what}: iterated");
                let mut y = x.clone();
                y.reverse();
                ensure_eq!(x.into_inner(), v, "{what}: items out");
                ensure_eq!(y.into_inner(), v.iter().rev().copied().collect::<Vec<_>>(), "{what}: changed in place");
            }
            Err(Error::VectorLengthMismatch { expected, actual }) => {
                ensure!(m != n, "{what}: right number of items refused");
                ensure_eq!((expected, actual), (n, m), "{what}: mismatch reported");
            }
            Err(e) => return Err(format!("{what}: {e:?}")),
        }
        Ok(())
    };
    check(FixedVec::new(v.clone()), "new")?;
    check(FixedVec::try_from(v.clone()), "try_from")?;
    check(v.iter().copied().collect_fixed(), "collect_fixed")?;
    check(v.iter().copied().map(Ok).try_collect_fixed(), "try_collect_fixed")?;
    // one of the items fails
    let at = if g.bool() { g.usize(0, 9) } else { g.usize(0, n + 1) };
    let k = g.below(1000);
    let mut pulled = 0;
    let r: Result<FixedVec<u64, L>> = (0..m)
        .map(|i| {
            pulled += 1;
            if i >= at { Err(boom(k + i as u64)) } else { Ok(v[i]) }
        })
        .try_collect_fixed();
    if at < m {
        ensure!(matches!(&r, Err(e) if is_boom(e, k + at as u64)), "item {at} of {m} fails");
        ensure_eq!(pulled, at + 1, "items asked for when item {at} fails");
    } else {
        check(r, "try_collect_fixed of items that might fail")?;
    }
    let mut order = vec![];
    let x: FixedVec<u64, L> = FixedVec::from_fn(|i| {
        order.push(i);
        7 * i as u64
    });
    ensure_eq!(order, (0..n).collect::<Vec<_>>(), "from_fn: indices");
    ensure_eq!(x.into_inner(), (0..n as u64).map(|i| 7 * i).collect::<Vec<_>>(), "from_fn: items");
    let mut order = vec![];
    let r: Result<FixedVec<u64, L>> = FixedVec::try_from_fn(|i| {
        order.push(i);
        if i >= at { Err(boom(k + i as u64)) } else { Ok(9 * i as u64) }
    });
    ensure_eq!(order, (0..n.min(at + 1)).collect::<Vec<_>>(), "try_from_fn: indices");
    match r {
        Ok(x) => ensure_eq!(x.into_inner(), (0..n as u64).map(|i| 9 * i).collect::<Vec<_>>(), "try_from_fn: items"),
        Err(e) => ensure!(at < n && is_boom(&e, k + at as u64), "try_from_fn: {e:?}"),
    }
    Ok(())
}
fn vectors(g: &mut Gen) -> R {
    match g.below(14) {
        7 => vectors_of::<ConstLen<17>>(g),
        8 => vectors_of::<Any<33>>(g),
        9 => vectors_of::<ConstLen<64>>(g),
        10 => vectors_of::<Any<65>>(g),
        11 => vectors_of::<ConstLen<129>>(g),
        12 => vectors_of::<Any<300>>(g),
        13 => vectors_of::<ConstLen<1100>>(g),
        0 => vectors_of::<ConstLen<0>>(g),
        1 => vectors_of::<ConstLen<1>>(g),
        2 => vectors_of::<Any<2>>(g),
        3 => vectors_of::<ConstLen<3>>(g),
        4 => vectors_of::<Any<5>>(g),
        5 => vectors_of::<ConstLen<8>>(g),
        _ => vectors_of::<Any<9>>(g),
    }
}

// ---------------------------------------------------------------- consistency
/// Moves a gadget to fresh wires of another circuit, nothing being known about
/// them; the value of one wire may be changed on the way.
struct Move<'a, F: PrimeField, K> {
    src: &'a Dr<F>,
    dst: &'a mut Rec<F, K>,
    change: Option<(usize, F)>,
    wires: Vec<W>,
}
impl<F: PrimeField, K: Presence> WireMap<F> for Move<'_, F, K> {
    type Src = Dr<F>;
    type Dst = Rec<F, K>;
    fn convert_wire(&mut self, w: &W) -> Result<W> {
        let mut v = self.src.value(*w);
        if let Some((i, x)) = self.change {
            if i == self.wires.len() {
                v = x;
            }
        }
        let n = self.dst.alloc(|| Ok(Coeff::Arbitrary(v)))?;
        self.wires.push(n);
        Ok(n)
    }
}
trait Known: CurveAffine {
    fn allowed(l: Leaf) -> Option<BTreeSet<Vec<Self::Base>>>;
    fn solve(dr: &Dr<Self::Base>, fixed: &[(W, Self::Base)], outs: &[W]) -> Option<BTreeSet<Vec<Self::Base>>>;
}
impl Known for EpAffine {
    fn allowed(_: Leaf) -> Option<BTreeSet<Vec<Fp>>> {
        None
    }
    fn solve(_: &Dr<Fp>, _: &[(W, Fp)], _: &[W]) -> Option<BTreeSet<Vec<Fp>>> {
        None
    }
}
impl Known for C7 {
    fn allowed(l: Leaf) -> Option<BTreeSet<Vec<Gf<7>>>> {
        Some(match l {
            Leaf::E => (0..7).map(|x| vec![Gf(x)]).collect(),
            Leaf::B => (0..2).map(|x| vec![Gf(x)]).collect(),
            Leaf::P => finite(c7())
                .iter()
                .map(|p| {
                    let c = p.coordinates().into_option().expect("coordinates");
                    vec![*c.x(), *c.y()]
                })
                .collect(),
        })
    }
    fn solve(dr: &Dr<Gf<7>>, fixed: &[(W, Gf<7>)], outs: &[W]) -> Option<BTreeSet<Vec<Gf<7>>>> {
        solutions(dr, fixed, outs, 200_000)
    }
}
/// Without values it is the same circuit.
fn blind<C: Known, G>(src: &Dr<C::Base>, x: &G) -> std::result::Result<Rec<C::Base, Absent>, String>
where
    G: Parts<'static, Dr<C::Base>, C>,
    Bound<'static, Rec<C::Base, Absent>, G::Kind>: Consistent<'static, Rec<C::Base, Absent>>,
{
    let mut dst = Rec::<C::Base, Absent>::new();
    let mut m = Move { src, dst: &mut dst, change: None, wires: vec![] };
    let z = x.map(&mut m).map_err(|e| e.to_string())?;
    z.enforce_consistent(&mut dst).map_err(|e| e.to_string())?;
    Ok(dst)
}
fn consistent_one<C: Known, G>(g: &mut Gen, name: &'static str, points: &[C]) -> R
where
    G: Parts<'static, Dr<C::Base>, C>,
    Bound<'static, Rec<C::Base, Absent>, G::Kind>: Consistent<'static, Rec<C::Base, Absent>>,
    Bound<'static, Dr<C::Base>, G::Kind>: Consistent<'static, Dr<C::Base>>,
{
    let mut src = Dr::<C::Base>::new();
    let (x, want) = made::<C, G>(g, &mut src, points);
    let n = want.len();
    let mut leaves = vec![];
    G::leaves(&mut leaves);
    g.nt(leaves.iter().any(|l| *l != Leaf::E));
    note!(g, "{name}: {want:?}");
    let mut dst = Dr::<C::Base>::new();
    let mut m = Move { src: &src, dst: &mut dst, change: None, wires: vec![] };
    let y = x.map(&mut m).map_err(|e| e.to_string())?;
    let wires = m.wires;
    y.enforce_consistent(&mut dst).map_err(|e| e.to_string())?;
    ensure!(dst.satisfied().is_ok(), "{name}: consistent wires refused: {:?}", dst.satisfied());
    ensure!(blind::<C, G>(&src, &x)?.shape() == dst.shape(), "{name}: consistency depends on values");
    // what values the wires of one leaf can take, the others staying
    let mut at = 0;
    let which = g.usize(0, leaves.len().max(1) - 1);
    for (i, l) in leaves.iter().enumerate() {
        let mine = at..at + l.wires();
        at = mine.end;
        if i != which {
            continue;
        }
        if let Some(ok) = C::allowed(*l) {
            let fixed: Vec<(W, C::Base)> = (0..n).filter(|j| !mine.contains(j)).map(|j| (wires[j], want[j].1)).collect();
            if let Some(s) = C::solve(&dst, &fixed, &wires[mine.clone()]) {
                g.label("solved");
                ensure_eq!(s, ok, "{name}: values consistency allows for part {i} ({l:?})");
            }
        }
        // and a wire that differs from the value its gadget claims
        let j = g.usize(mine.start, mine.end - 1);
        let mut v: C::Base = fe(g);
        if v == want[j].1 {
            v += C::Base::ONE;
        }
        let mut dst = Dr::<C::Base>::new();
        let mut m = Move { src: &src, dst: &mut dst, change: Some((j, v)), wires: vec![] };
        let y = x.map(&mut m).map_err(|e| e.to_string())?;
        y.enforce_consistent(&mut dst).map_err(|e| e.to_string())?;
        ensure_eq!(dst.satisfied().is_ok(), *l == Leaf::E, "{name}: wire {j} (of a {l:?}) being {v:?} accepted");
    }
    Ok(())
}
fn consistency(g: &mut Gen) -> R {
    match g.below(4) {
        0 => nests!(consistent_one, EpAffine, Fp, g, ep()),
        _ => {
            let pts = finite(c7());
            nests!(consistent_one, C7, Gf<7>, g, &pts)
        }
    }
}

// ---------------------------------------------------------------- demotion
fn demote_one<C: CurveAffine, G: Parts<'static, Dr<C::Base>, C>>(g: &mut Gen, name: &'static str, points: &[C]) -> R
where
    Bound<'static, Dr<C::Base>, G::Kind>: Parts<'static, Dr<C::Base>, C>,
{
    let mut dr = Dr::<C::Base>::new();
    let (x, want) = made::<C, G>(g, &mut dr, points);
    let (y, want_y) = made::<C, G>(g, &mut dr, points);
    let n = want.len();
    g.nt(n > 1);
    note!(g, "{name}: {want:?} and {want_y:?}");
    let (gates, cons) = (dr.gates, dr.constraints.len());
    let d = x.demote().map_err(|e| e.to_string())?;
    ensure_eq!((dr.gates, dr.constraints.len()), (gates, cons), "{name}: demotion is free");
    ensure_eq!(d.num_wires().map_err(|e| e.to_string())?, n, "{name}: demoted wires");
    let ws: Vec<W> = want.iter().map(|x| x.0).collect();
    for d in [&d, &Clone::clone(&d)] {
        let mut m = Collect { seen: vec![], _d: PhantomData };
        d.map(&mut m).map_err(|e| e.to_string())?;
        ensure_eq!(m.seen, ws, "{name}: demoted wires in order");
    }
    // moved to another circuit: every wire converted once, in order, and kept
    let mut dst = Dr::<C::Base>::new();
    let mut m = Move { src: &dr, dst: &mut dst, change: None, wires: vec![] };
    let moved = d.map(&mut m).map_err(|e| e.to_string())?;
    let wires = m.wires;
    let mut m = Collect { seen: vec![], _d: PhantomData };
    moved.map(&mut m).map_err(|e| e.to_string())?;
    ensure_eq!(m.seen, wires, "{name}: demoted wires after a move");
    // equality of demoted gadgets: wire by wire
    let e = y.demote().map_err(|e| e.to_string())?;
    d.enforce_equal(&mut dr, &e).map_err(|e| e.to_string())?;
    pairwise(&dr, cons, &want, &want_y, &format!("{name}: equality of demoted gadgets"))?;
    // sent to another thread and back
    let s = Clone::clone(&x).sendable();
    let t = s.clone();
    let back = std::thread::scope(|sc| sc.spawn(move || t).join().unwrap());
    for (what, v) in [("sent", back.into_inner()), ("borrowed", Clone::clone(&*s)), ("unpacked", s.into_inner())] {
        let mut l = vec![];
        v.list(&mut l);
        ensure_eq!(l, want, "{name}: {what}");
    }
    Ok(())
}
fn demotion(g: &mut Gen) -> R {
    match g.below(2) {
        0 => nests!(demote_one, EpAffine, Fp, g, ep()),
        _ => {
            let pts = finite(c7());
            nests!(demote_one, C7, Gf<7>, g, &pts)
        }
    }
}
/// A demoted bit gets a value again, possibly on a driver without values.
fn promotion(g: &mut Gen) -> R {
    fn go<F: PrimeField>(g: &mut Gen) -> R {
        let mut dr = Dr::<F>::new();
        let v = g.bool();
        let b = Boolean::alloc(&mut dr, Always::<()>::just(|| v)).unwrap();
        let b = if g.bool() { b.not(&mut dr) } else { b };
        let before = (dr.gates, dr.constraints.len(), dr.adds);
        let to = g.bool();
        g.nt(to != b.value().take());
        note!(g, "{} becomes {to}", b.value().take());
        let d = b.demote().map_err(|e| e.to_string())?;
        let p = d.promote(Always::<()>::just(|| to));
        ensure_eq!(p.wire(), b.wire(), "wire of a promoted bit");
        ensure_eq!(p.value().take(), to, "value of a promoted bit");
        let e = p.element();
        ensure_eq!((e.wire(), *e.value().take()), (b.wire(), F::from(to as u64)), "element of a promoted bit");
        ensure_eq!((dr.gates, dr.constraints.len(), dr.adds), before, "promotion is free");
        let mut blind = Rec::<F, Absent>::new();
        let b = Boolean::alloc(&mut blind, Empty).unwrap();
        let p = b.demote().map_err(|e| e.to_string())?.promote(Empty);
        ensure_eq!(p.wire(), b.wire(), "wire of a promoted bit without value");
        Ok(())
    }
    if g.bool() { go::<Fp>(g) } else { go::<Gf<5>>(g) }
}

pub fn collections() -> Prop {
    Prop {
        id: "P06",
        subs: vec![
            Sub::new("writes", writes, 1500, 60000, "at least two elements written"),
            Sub::new("vectors", vectors, 2000, 60000, "wrong number of items, or more than one"),
        ],
        assumptions: &[],
    }
}
pub fn consistencies() -> Prop {
    Prop {
        id: "P07",
        subs: vec![
            Sub::new("consistency", consistency, 400, 20000, "a part that is more than an element"),
            Sub::new("demotion", demotion, 600, 20000, "at least two wires"),
            Sub::new("promotion", promotion, 200, 4000, "the value changes"),
        ],
        assumptions: &[],
    }
}

//! Support library for generated programs that exercise the derive macros:
//! recording drivers, hand-written leaf gadgets and the behavioural checks.
use core::fmt::Debug;
use core::marker::PhantomData;
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error, Result,
    convert::WireMap,
    drivers::{Driver, DriverTypes, DriverValue, LinearExpression},
    gadgets::{Bound, Gadget, GadgetKind},
    maybe::{Always, Empty, Maybe, MaybeKind},
};
use ragu_primitives::{
    Element,
    consistent::Consistent,
    io::{Buffer, Write},
    vec::{CollectFixed, ConstLen, FixedVec, Len},
};

pub use pasta_curves::Fp;
pub type Present = Always<()>;
pub type Absent = Empty;

/// Wire type; distinct for each driver number. Not `Copy`, so that it is cloned explicitly.
#[derive(Clone, Debug, PartialEq)]
pub struct Wr<const N: u8>(pub u64);

#[derive(Clone, Debug, Default)]
pub struct Lx(pub Vec<(u64, Fp)>, Option<Fp>);
fn cv(c: &Coeff<Fp>) -> Fp {
    match c {
        Coeff::Zero => Fp::ZERO,
        Coeff::One => Fp::ONE,
        Coeff::Two => Fp::ONE + Fp::ONE,
        Coeff::NegativeOne => -Fp::ONE,
        Coeff::Arbitrary(x) => *x,
        Coeff::NegativeArbitrary(x) => -*x,
    }
}
impl<const N: u8> LinearExpression<Wr<N>, Fp> for Lx {
    fn add_term(mut self, w: &Wr<N>, c: Coeff<Fp>) -> Self {
        let g = self.1.unwrap_or(Fp::ONE);
        self.0.push((w.0, cv(&c) * g));
        self
    }
    fn gain(mut self, c: Coeff<Fp>) -> Self {
        self.1 = Some(self.1.unwrap_or(Fp::ONE) * cv(&c));
        self
    }
}
/// Recording driver number `N`.
pub struct Td<const N: u8, K> {
    pub constraints: Vec<Vec<(u64, Fp)>>,
    pub next: u64,
    _k: PhantomData<K>,
}
impl<const N: u8, K> Default for Td<N, K> {
    fn default() -> Self {
        Td { constraints: vec![], next: 1_000_000, _k: PhantomData }
    }
}
impl<const N: u8, K: MaybeKind + 'static> DriverTypes for Td<N, K> {
    type ImplField = Fp;
    type ImplWire = Wr<N>;
    type MaybeKind = K;
    type LCadd = Lx;
    type LCenforce = Lx;
    fn gate(
        &mut self,
        _: impl Fn() -> Result<(Coeff<Fp>, Coeff<Fp>, Coeff<Fp>, Coeff<Fp>)>,
    ) -> Result<(Wr<N>, Wr<N>, Wr<N>, Wr<N>)> {
        let n = self.next;
        self.next += 4;
        Ok((Wr(n), Wr(n + 1), Wr(n + 2), Wr(n + 3)))
    }
}
impl<'dr, const N: u8, K: MaybeKind + 'static> Driver<'dr> for Td<N, K> {
    type F = Fp;
    type Wire = Wr<N>;
    const ONE: Wr<N> = Wr(u64::MAX);
    fn add(&mut self, _: impl Fn(Lx) -> Lx) -> Wr<N> {
        self.next += 1;
        Wr(self.next - 1)
    }
    fn enforce_zero(&mut self, lc: impl Fn(Lx) -> Lx) -> Result<()> {
        self.constraints.push(lc(Lx::default()).0);
        Ok(())
    }
}
/// A recording driver whose wires can be made from numbers.
pub trait TD<'dr>: Driver<'dr, F = Fp> {
    fn wire(n: u64) -> Self::Wire;
    fn id(w: &Self::Wire) -> u64;
}
impl<'dr, const N: u8, K: MaybeKind + 'static> TD<'dr> for Td<N, K> {
    fn wire(n: u64) -> Wr<N> {
        Wr(n)
    }
    fn id(w: &Wr<N>) -> u64 {
        w.0
    }
}

/// Source of numbered wires and values.
pub struct Cx {
    pub n: u64,
}
impl Cx {
    pub fn num(&mut self) -> u64 {
        self.n += 1;
        self.n - 1
    }
    pub fn w<'x, D: TD<'x>>(&mut self) -> D::Wire {
        D::wire(self.num())
    }
    pub fn v<'x, D: TD<'x>, T: Vt>(&mut self) -> DriverValue<D, T> {
        let n = self.num();
        D::just(|| T::of(n))
    }
}
/// Types of witness values.
pub trait Vt: Clone + Debug + Send + Sync + 'static {
    fn of(n: u64) -> Self;
}
impl Vt for u64 { fn of(n: u64) -> u64 { n } }
impl Vt for bool { fn of(n: u64) -> bool { n % 3 == 1 } }
impl Vt for Fp { fn of(n: u64) -> Fp { Fp::from(n) } }
impl Vt for String { fn of(n: u64) -> String { format!("s{n}") } }
impl Vt for Vec<u16> { fn of(n: u64) -> Vec<u16> { vec![n as u16; (n % 4) as usize] } }
impl Vt for [u8; 3] { fn of(n: u64) -> [u8; 3] { [n as u8, 1, 2] } }
impl Vt for (u32, Option<char>) { fn of(n: u64) -> Self { (n as u32, if n % 2 == 0 { None } else { Some('x') }) } }
impl Vt for &'static str { fn of(n: u64) -> Self { ["", "a", "bc", "defg"][(n % 4) as usize] } }
impl Vt for () { fn of(_: u64) {} }

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    W(u64),
    V(String),
    Absent,
}
#[derive(Default)]
pub struct L(pub Vec<Item>);
impl L {
    pub fn w<'x, D: TD<'x>>(&mut self, w: &D::Wire) {
        self.0.push(Item::W(D::id(w)));
    }
    pub fn v<'x, D: TD<'x>, T: Vt>(&mut self, v: &DriverValue<D, T>) {
        let mut got = Item::Absent;
        let _ = v.as_ref().map(|x| {
            got = Item::V(format!("{x:?}"));
        });
        self.0.push(got);
    }
    pub fn wires(&self) -> Vec<u64> {
        self.0.iter().filter_map(|x| if let Item::W(n) = x { Some(*n) } else { None }).collect()
    }
}
/// Built from, and listed as, numbered items.
pub trait Mk<'x, D: TD<'x>>: Sized {
    fn mk(c: &mut Cx) -> Self;
    /// everything, in declaration order
    fn all(&self, o: &mut L);
    /// what serialization must emit, in order
    fn written(&self, o: &mut L);
    /// wires whose own constraint must be enforced
    fn consist(&self, o: &mut L);
}

/// One wire; written as is; its constraint: the wire itself is zero.
pub struct Leaf<'dr, D: Driver<'dr>> {
    pub w: D::Wire,
    _m: PhantomData<&'dr ()>,
}
/// Two wires and a value; written second wire first; its constraint is on the second wire.
pub struct Pairy<'dr, D: Driver<'dr>> {
    pub a: D::Wire,
    pub v: DriverValue<D, u64>,
    pub b: D::Wire,
    _m: PhantomData<&'dr ()>,
}
impl<'dr, D: Driver<'dr>> Clone for Leaf<'dr, D> {
    fn clone(&self) -> Self {
        Leaf { w: self.w.clone(), _m: PhantomData }
    }
}
impl<'dr, D: Driver<'dr>> Clone for Pairy<'dr, D> {
    fn clone(&self) -> Self {
        Pairy { a: self.a.clone(), v: D::just(|| *self.v.as_ref().take()), b: self.b.clone(), _m: PhantomData }
    }
}
pub struct LeafK;
pub struct PairyK;
impl<'dr, D: Driver<'dr>> Gadget<'dr, D> for Leaf<'dr, D> {
    type Kind = LeafK;
}
impl<'dr, D: Driver<'dr>> Gadget<'dr, D> for Pairy<'dr, D> {
    type Kind = PairyK;
}
unsafe impl<F: Field> GadgetKind<F> for LeafK {
    type Rebind<'dr, D: Driver<'dr, F = F>> = Leaf<'dr, D>;
    fn map_gadget<'src, 'dst, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        Ok(Leaf { w: wm.convert_wire(&this.w)?, _m: PhantomData })
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = F>, D2: Driver<'dr, F = F, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        dr.enforce_equal(&a.w, &b.w)
    }
}
unsafe impl<F: Field> GadgetKind<F> for PairyK {
    type Rebind<'dr, D: Driver<'dr, F = F>> = Pairy<'dr, D>;
    fn map_gadget<'src, 'dst, WM: WireMap<F, Src: Driver<'src, F = F>, Dst: Driver<'dst, F = F>>>(
        this: &Bound<'src, WM::Src, Self>,
        wm: &mut WM,
    ) -> Result<Bound<'dst, WM::Dst, Self>> {
        let a = wm.convert_wire(&this.a)?;
        let b = wm.convert_wire(&this.b)?;
        Ok(Pairy { a, v: WM::Dst::just(|| *this.v.as_ref().take()), b, _m: PhantomData })
    }
    fn enforce_equal_gadget<'dr, D1: Driver<'dr, F = F>, D2: Driver<'dr, F = F, Wire = <D1 as Driver<'dr>>::Wire>>(
        dr: &mut D1,
        a: &Bound<'dr, D2, Self>,
        b: &Bound<'dr, D2, Self>,
    ) -> Result<()> {
        dr.enforce_equal(&a.a, &b.a)?;
        dr.enforce_equal(&a.b, &b.b)
    }
}
fn put<'dr, D: Driver<'dr>, B: Buffer<'dr, D>>(w: &D::Wire, dr: &mut D, buf: &mut B) -> Result<()> {
    let e = Element::promote(w.clone(), D::just(|| D::F::ZERO));
    buf.write(dr, &e)
}
impl<F: Field> Write<F> for LeafK {
    fn write_gadget<'dr, D: Driver<'dr, F = F>, B: Buffer<'dr, D>>(
        this: &Bound<'dr, D, Self>,
        dr: &mut D,
        buf: &mut B,
    ) -> Result<()> {
        put(&this.w, dr, buf)
    }
}
impl<F: Field> Write<F> for PairyK {
    fn write_gadget<'dr, D: Driver<'dr, F = F>, B: Buffer<'dr, D>>(
        this: &Bound<'dr, D, Self>,
        dr: &mut D,
        buf: &mut B,
    ) -> Result<()> {
        put(&this.b, dr, buf)?;
        put(&this.a, dr, buf)
    }
}
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Leaf<'dr, D> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        dr.enforce_zero(|lc| lc.add(&self.w))
    }
}
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Pairy<'dr, D> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        dr.enforce_zero(|lc| lc.add(&self.b))
    }
}
impl<'x, D: TD<'x>> Mk<'x, D> for Leaf<'x, D> {
    fn mk(c: &mut Cx) -> Self {
        Leaf { w: c.w::<D>(), _m: PhantomData }
    }
    fn all(&self, o: &mut L) {
        o.w::<D>(&self.w)
    }
    fn written(&self, o: &mut L) {
        o.w::<D>(&self.w)
    }
    fn consist(&self, o: &mut L) {
        o.w::<D>(&self.w)
    }
}
impl<'x, D: TD<'x>> Mk<'x, D> for Pairy<'x, D> {
    fn mk(c: &mut Cx) -> Self {
        Pairy { a: c.w::<D>(), v: c.v::<D, u64>(), b: c.w::<D>(), _m: PhantomData }
    }
    fn all(&self, o: &mut L) {
        o.w::<D>(&self.a);
        o.v::<D, u64>(&self.v);
        o.w::<D>(&self.b);
    }
    fn written(&self, o: &mut L) {
        o.w::<D>(&self.b);
        o.w::<D>(&self.a);
    }
    fn consist(&self, o: &mut L) {
        o.w::<D>(&self.b);
    }
}
impl<'x, D: TD<'x>> Mk<'x, D> for Element<'x, D> {
    fn mk(c: &mut Cx) -> Self {
        let w = c.w::<D>();
        Element::promote(w, c.v::<D, Fp>())
    }
    fn all(&self, o: &mut L) {
        o.w::<D>(self.wire());
        let f = D::just(|| *self.value().take());
        o.v::<D, Fp>(&f);
    }
    fn written(&self, o: &mut L) {
        o.w::<D>(self.wire());
    }
    fn consist(&self, _: &mut L) {}
}
impl<'x, D: TD<'x>> Mk<'x, D> for () {
    fn mk(_: &mut Cx) -> Self {}
    fn all(&self, _: &mut L) {}
    fn written(&self, _: &mut L) {}
    fn consist(&self, _: &mut L) {}
}
impl<'x, D: TD<'x>, A: Mk<'x, D>, B: Mk<'x, D>> Mk<'x, D> for (A, B) {
    fn mk(c: &mut Cx) -> Self {
        (A::mk(c), B::mk(c))
    }
    fn all(&self, o: &mut L) {
        self.0.all(o);
        self.1.all(o);
    }
    fn written(&self, o: &mut L) {
        self.0.written(o);
        self.1.written(o);
    }
    fn consist(&self, o: &mut L) {
        self.0.consist(o);
        self.1.consist(o);
    }
}
impl<'x, D: TD<'x>, A: Mk<'x, D>, const N: usize> Mk<'x, D> for [A; N] {
    fn mk(c: &mut Cx) -> Self {
        core::array::from_fn(|_| A::mk(c))
    }
    fn all(&self, o: &mut L) {
        self.iter().for_each(|x| x.all(o))
    }
    fn written(&self, o: &mut L) {
        self.iter().for_each(|x| x.written(o))
    }
    fn consist(&self, o: &mut L) {
        self.iter().for_each(|x| x.consist(o))
    }
}
impl<'x, D: TD<'x>, A: Mk<'x, D>> Mk<'x, D> for Box<A> {
    fn mk(c: &mut Cx) -> Self {
        Box::new(A::mk(c))
    }
    fn all(&self, o: &mut L) {
        (**self).all(o)
    }
    fn written(&self, o: &mut L) {
        (**self).written(o)
    }
    fn consist(&self, o: &mut L) {
        (**self).consist(o)
    }
}
impl<'x, D: TD<'x>, A: Mk<'x, D>, N: Len> Mk<'x, D> for FixedVec<A, N> {
    fn mk(c: &mut Cx) -> Self {
        (0..N::len()).map(|_| A::mk(c)).collect_fixed().unwrap()
    }
    fn all(&self, o: &mut L) {
        self.iter().for_each(|x| x.all(o))
    }
    fn written(&self, o: &mut L) {
        self.iter().for_each(|x| x.written(o))
    }
    fn consist(&self, o: &mut L) {
        self.iter().for_each(|x| x.consist(o))
    }
}
pub type Fv<T, const N: usize> = FixedVec<T, ConstLen<N>>;

/// Renames wires (and stops at wire number `fail`), logging what it saw.
struct Ren<A, B> {
    seen: Vec<u64>,
    fail: Option<usize>,
    _p: PhantomData<(A, B)>,
}
impl<const M: u8, const N: u8, J: MaybeKind + 'static, K: MaybeKind + 'static> WireMap<Fp> for Ren<Td<M, J>, Td<N, K>> {
    type Src = Td<M, J>;
    type Dst = Td<N, K>;
    fn convert_wire(&mut self, w: &Wr<M>) -> Result<Wr<N>> {
        if self.fail == Some(self.seen.len()) {
            return Err(Error::GateBoundExceeded { limit: 77_001 });
        }
        self.seen.push(w.0);
        Ok(Wr(w.0 * 7 + 1000))
    }
}

type P1 = Td<1, Present>;
type A1 = Td<1, Absent>;
type P2 = Td<2, Present>;
type A2 = Td<2, Absent>;

pub type Fails = Vec<String>;
macro_rules! want {
    ($o:expr, $a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { $o.push(format!("{}: got {:?}, want {:?}", format!($($t)*), a, b)); }
    }};
}
fn all<'x, D: TD<'x>, G: Mk<'x, D>>(g: &G) -> Vec<Item> {
    let mut l = L::default();
    g.all(&mut l);
    l.0
}
fn wires<'x, D: TD<'x>, G: Mk<'x, D>>(g: &G) -> Vec<u64> {
    let mut l = L::default();
    g.all(&mut l);
    l.wires()
}
fn mapped<const M: u8, const N: u8, J: MaybeKind + 'static, K2: MaybeKind + 'static, K: GadgetKind<Fp>>(
    o: &mut Fails,
    what: &str,
    keep: bool,
) where
    Bound<'static, Td<M, J>, K>: Mk<'static, Td<M, J>>,
    Bound<'static, Td<N, K2>, K>: Mk<'static, Td<N, K2>>,
{
    let g: Bound<'static, Td<M, J>, K> = Mk::mk(&mut Cx { n: 3 });
    let mut wm = Ren::<Td<M, J>, Td<N, K2>> { seen: vec![], fail: None, _p: PhantomData };
    let before = all::<Td<M, J>, _>(&g);
    match g.map(&mut wm) {
        Err(e) => o.push(format!("map {what}: {e}")),
        Ok(h) => {
            let got = all::<Td<N, K2>, _>(&h);
            let want: Vec<Item> = before
                .iter()
                .map(|i| match i {
                    Item::W(n) => Item::W(n * 7 + 1000),
                    Item::V(s) if keep => Item::V(s.clone()),
                    _ => Item::Absent,
                })
                .collect();
            want!(o, got, want, "map {what}");
        }
    }
    let mut want = wires::<Td<M, J>, _>(&g);
    let mut seen = wm.seen.clone();
    want!(o, seen, want, "order in which map {what} visits the wires");
    seen.sort();
    want.sort();
    want!(o, seen, want, "wires visited by map {what}");
    want!(o, all::<Td<M, J>, _>(&g), before, "gadget after map {what}");
    for i in 0..want.len() {
        let mut wm = Ren::<Td<M, J>, Td<N, K2>> { seen: vec![], fail: Some(i), _p: PhantomData };
        match g.map(&mut wm) {
            Ok(_) => o.push(format!("map {what}: failure at wire {i} is lost")),
            Err(Error::GateBoundExceeded { limit: 77_001 }) => want!(o, wm.seen.len(), i, "wires visited before the failure"),
            Err(e) => o.push(format!("map {what}: other failure {e}")),
        }
    }
}

/// Clone, map, wire count and equality of the gadget of kind `K`.
pub fn check_gadget<K: GadgetKind<Fp>>(o: &mut Fails)
where
    Bound<'static, P1, K>: Mk<'static, P1>,
    Bound<'static, A1, K>: Mk<'static, A1>,
    Bound<'static, P2, K>: Mk<'static, P2>,
    Bound<'static, A2, K>: Mk<'static, A2>,
{
    let g: Bound<'static, P1, K> = Mk::mk(&mut Cx { n: 5 });
    let before = all::<P1, _>(&g);
    let c = g.clone();
    want!(o, all::<P1, _>(&c), before, "clone");
    want!(o, all::<P1, _>(&g), before, "original after clone");
    drop(g);
    want!(o, all::<P1, _>(&c), before, "clone after the original is gone");
    let a: Bound<'static, A1, K> = Mk::mk(&mut Cx { n: 5 });
    want!(o, all::<A1, _>(&a.clone()), all::<A1, _>(&a), "clone without values");

    mapped::<1, 2, Present, Present, K>(o, "with values", true);
    mapped::<1, 2, Present, Absent, K>(o, "dropping values", false);
    mapped::<2, 1, Absent, Absent, K>(o, "without values", false);
    mapped::<1, 1, Present, Present, K>(o, "to the same driver", true);

    want!(o, c.num_wires().ok(), Some(wires::<P1, _>(&c).len()), "number of wires");

    // equality: each pair of corresponding wires, nothing else
    let b: Bound<'static, P1, K> = Mk::mk(&mut Cx { n: 5000 });
    let want = pairs(&wires::<P1, _>(&c), &wires::<P1, _>(&b));
    let mut dr = P1::default();
    if let Err(e) = c.enforce_equal(&mut dr, &b) {
        o.push(format!("enforce_equal: {e}"));
    }
    want!(o, canon(&dr.constraints), want, "equality constraints");
    let mut dr = A1::default();
    if let Err(e) = c.enforce_equal(&mut dr, &b) {
        o.push(format!("enforce_equal through another driver: {e}"));
    }
    want!(o, canon(&dr.constraints), want, "equality constraints through another driver");
}
/// Constraints up to order, sign and term order.
fn canon(c: &[Vec<(u64, Fp)>]) -> Vec<String> {
    let mut v: Vec<String> = c
        .iter()
        .map(|t| {
            let mut t = t.clone();
            t.sort_by_key(|x| x.0);
            if t.first().is_some_and(|x| x.1 != Fp::ONE) {
                let inv = Option::<Fp>::from(t[0].1.invert()).unwrap_or(Fp::ONE);
                t.iter_mut().for_each(|x| x.1 *= inv);
            }
            t.iter().map(|(w, c)| format!("{w}*{:?} ", c.to_repr().as_ref())).collect()
        })
        .collect();
    v.sort();
    v
}
fn pairs(a: &[u64], b: &[u64]) -> Vec<String> {
    canon(&a.iter().zip(b).map(|(x, y)| vec![(*x, Fp::ONE), (*y, -Fp::ONE)]).collect::<Vec<_>>())
}

struct Log(Vec<u64>, Option<usize>);
impl<const N: u8, K: MaybeKind + 'static> Buffer<'static, Td<N, K>> for Log {
    fn write(&mut self, _: &mut Td<N, K>, e: &Element<'static, Td<N, K>>) -> Result<()> {
        if self.1 == Some(self.0.len()) {
            return Err(Error::GateBoundExceeded { limit: 77_002 });
        }
        self.0.push(e.wire().0);
        Ok(())
    }
}
pub fn check_write<K: Write<Fp>>(o: &mut Fails)
where
    Bound<'static, P1, K>: Mk<'static, P1>,
    Bound<'static, A2, K>: Mk<'static, A2>,
{
    fn one<const N: u8, J: MaybeKind + 'static, K: Write<Fp>>(o: &mut Fails, what: &str)
    where
        Bound<'static, Td<N, J>, K>: Mk<'static, Td<N, J>>,
    {
        let g: Bound<'static, Td<N, J>, K> = Mk::mk(&mut Cx { n: 5 });
        let mut l = L::default();
        g.written(&mut l);
        let want = l.wires();
        let mut log = Log(vec![], None);
        let mut dr = Td::<N, J>::default();
        if let Err(e) = K::write_gadget(&g, &mut dr, &mut log) {
            o.push(format!("write {what}: {e}"));
        }
        want!(o, log.0, want, "wires written {what}");
        want!(o, dr.constraints.len(), 0, "constraints added by writing {what}");
        for i in 0..want.len() {
            let mut log = Log(vec![], Some(i));
            match K::write_gadget(&g, &mut dr, &mut log) {
                Ok(_) => o.push(format!("write {what}: failure at element {i} is lost")),
                Err(Error::GateBoundExceeded { limit: 77_002 }) => {}
                Err(e) => o.push(format!("write {what}: other failure {e}")),
            }
        }
    }
    one::<1, Present, K>(o, "with values");
    one::<2, Absent, K>(o, "without values");
}
pub fn check_consistent<K: GadgetKind<Fp>>(o: &mut Fails)
where
    Bound<'static, P1, K>: Mk<'static, P1> + Consistent<'static, P1>,
    Bound<'static, A2, K>: Mk<'static, A2> + Consistent<'static, A2>,
{
    let g: Bound<'static, P1, K> = Mk::mk(&mut Cx { n: 5 });
    let mut l = L::default();
    g.consist(&mut l);
    let want = canon(&l.wires().iter().map(|w| vec![(*w, Fp::ONE)]).collect::<Vec<_>>());
    let mut dr = P1::default();
    if let Err(e) = g.enforce_consistent(&mut dr) {
        o.push(format!("consistent: {e}"));
    }
    want!(o, canon(&dr.constraints), want, "consistency constraints");
    let g: Bound<'static, A2, K> = Mk::mk(&mut Cx { n: 5 });
    let mut dr = A2::default();
    if let Err(e) = g.enforce_consistent(&mut dr) {
        o.push(format!("consistent: {e}"));
    }
    want!(o, canon(&dr.constraints), want, "consistency constraints without values");
}
/// `A` names the kind of gadgets of kind `B`.
pub fn check_same<A: 'static, B: 'static>(o: &mut Fails, what: &str) {
    want!(o, core::any::TypeId::of::<A>(), core::any::TypeId::of::<B>(), "{what}: {} and {}", core::any::type_name::<A>(), core::any::type_name::<B>());
}
pub fn need_send<T: Send>() {}

/// Bounds beside the driver's, with names like its.
pub trait AnyDriver {}
impl<T: ?Sized> AnyDriver for T {}
pub trait DriverOver<'a> {}
impl<'a, T: ?Sized> DriverOver<'a> for T {}
pub trait Drivers<T> {}
impl<T, U: ?Sized> Drivers<T> for U {}

/// Trait for extra type parameters of generated structs.
pub trait Aux<F>: 'static {
    type Base;
}
#[derive(Clone, Debug)]
pub struct AuxFp;
impl<F: Field> Aux<F> for AuxFp {
    type Base = F;
}
pub struct Wrap<T>(PhantomData<T>);
impl<F: Field> Aux<Wrap<F>> for AuxFp {
    type Base = (Wrap<F>, F);
}
pub trait Same<T> {}
impl<T> Same<T> for T {}
pub trait HasF: 'static {
    type F: Field;
}
impl HasF for AuxFp {
    type F = Fp;
}
/// As [`Aux`], for tuples.
/// Takes an argument in a segment that is not the last one of a path.
pub trait PickT<T> {
    type Out;
}
impl<T> PickT<T> for u8 {
    type Out = (T, u16);
}
pub trait Aux3<T>: 'static {}
impl<T> Aux3<T> for AuxFp {}
/// A type with a lifetime and a type argument, for placeholders to occur in.
pub struct Lt<'a, T>(PhantomData<(&'a (), T)>);
unsafe impl<T> Send for Lt<'_, T> {}

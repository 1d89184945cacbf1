//! A typed application over several headers, and its plain model.
use ff::Field;
use pasta_curves::{EpAffine, Fp, arithmetic::CurveAffine as _};
use ragu_arithmetic::Cycle;
use ragu_circuits::polynomials::ProductionRank;
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Kind},
    maybe::Maybe,
};
use ragu_pasta::{Pasta, PoseidonFp};
use ragu_pcd::{
    Application, ApplicationBuilder, Pcd, Proof,
    header::{Header, Suffix},
    step::{Encoded, Index, Step},
};
use ragu_primitives::{Boolean, Element, Point, poseidon::Sponge};
use std::cell::OnceCell;
use vcs::{VRng, fe};
use vlib::Gen;

pub type Rk = ProductionRank;
pub type Pf = Proof<Pasta, Rk>;
pub type Carried<H> = Pcd<Pasta, Rk, H>;

pub fn poseidon() -> &'static PoseidonFp {
    Pasta::circuit_poseidon(Pasta::baked())
}

macro_rules! header {
    ($name:ident, $suffix:expr, $data:ty, $kind:ty, |$dr:ident, $w:ident| $body:expr) => {
        pub struct $name;
        impl Header<Fp> for $name {
            const SUFFIX: Suffix = Suffix::new($suffix);
            type Data = $data;
            type Output = $kind;
            fn encode<'dr, D: Driver<'dr, F = Fp>>($dr: &mut D, $w: DriverValue<D, $data>) -> Result<Bound<'dr, D, Self::Output>> {
                $body
            }
        }
    };
}
header!(HEl, 0, Fp, Kind![Fp; Element<'_, _>], |dr, w| Element::alloc(dr, w));
header!(HPair, 7, (Fp, Fp), Kind![Fp; (Element<'_, _>, Element<'_, _>)], |dr, w| {
    let (a, b) = w.cast();
    Ok((Element::alloc(dr, a)?, Element::alloc(dr, b)?))
});
header!(HTri, 1000, ((Fp, Fp), Fp), Kind![Fp; ((Element<'_, _>, Element<'_, _>), Element<'_, _>)], |dr, w| {
    let (ab, c) = w.cast();
    let (a, b) = ab.cast();
    Ok(((Element::alloc(dr, a)?, Element::alloc(dr, b)?), Element::alloc(dr, c)?))
});
header!(HBit, 1, bool, Kind![Fp; Boolean<'_, _>], |dr, w| Boolean::alloc(dr, w));
header!(HPt, 2, EpAffine, Kind![Fp; Point<'_, _, EpAffine>], |dr, w| Point::alloc(dr, w));
// The same data as others carry, under other suffixes.
header!(HElB, 3, Fp, Kind![Fp; Element<'_, _>], |dr, w| Element::alloc(dr, w));
header!(HPairB, 8, (Fp, Fp), Kind![Fp; (Element<'_, _>, Element<'_, _>)], |dr, w| {
    let (a, b) = w.cast();
    Ok((Element::alloc(dr, a)?, Element::alloc(dr, b)?))
});

type Enc<'dr, D, H, const HS: usize> = Encoded<'dr, D, H, HS>;
type Made<'dr, D, L, Rt, O, A, const HS: usize> = Result<(
    (Enc<'dr, D, L, HS>, Enc<'dr, D, Rt, HS>, Enc<'dr, D, O, HS>),
    DriverValue<D, <O as Header<Fp>>::Data>,
    DriverValue<D, A>,
)>;
/// Steps are registered from index `B` on.
macro_rules! step {
    ($name:ident, $k:expr, $l:ty, $r:ty, $o:ty, $w:ty, $aux:ty, |$dr:ident, $wit:ident, $left:ident, $right:ident| $body:expr) => {
        pub struct $name<const B: usize>;
        impl<const B: usize> Step<Pasta> for $name<B> {
            const INDEX: Index = Index::new(B + $k);
            type Witness<'source> = $w;
            type Aux<'source> = $aux;
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const HS: usize>(
                &self,
                $dr: &mut D,
                $wit: DriverValue<D, $w>,
                $left: DriverValue<D, <$l as Header<Fp>>::Data>,
                $right: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Made<'dr, D, $l, $r, $o, $aux, HS>
            where
                Self: 'dr,
            {
                $body
            }
        }
    };
}
step!(Leaf, 0, (), (), HEl, Fp, (), |dr, w, l, r| {
    let (l, r) = (Enc::new(dr, l)?, Enc::new(dr, r)?);
    let e = Element::alloc(dr, w)?;
    let d = e.value().map(|v| *v);
    Ok(((l, r, Enc::from_gadget(e)), d, D::unit()))
});
step!(LeafPt, 1, (), (), HPt, EpAffine, (), |dr, w, _l, _r| {
    let e = Point::alloc(dr, w)?;
    let d = e.value();
    Ok(((Enc::from_gadget(()), Enc::from_gadget(()), Enc::from_gadget(e)), d, D::unit()))
});
// (a, a b), telling a + b
step!(Pairing, 2, HEl, HEl, HPair, (), Fp, |dr, _w, l, r| {
    let l = Enc::<_, HEl, HS>::new(dr, l)?;
    let r = Enc::<_, HEl, HS>::new(dr, r)?;
    let p = l.as_gadget().mul(dr, r.as_gadget())?;
    let a = l.as_gadget().clone();
    let d = D::just(|| (*a.value().take(), *p.value().take()));
    let aux = D::just(|| *l.as_gadget().value().take() + *r.as_gadget().value().take());
    Ok(((l, r, Enc::from_gadget((a, p))), d, aux))
});
// ((a + e, b), e^2 + w)
step!(Grow, 3, HPair, HEl, HTri, Fp, Fp, |dr, w, l, r| {
    let l = Enc::<_, HPair, HS>::new(dr, l)?;
    let r = Enc::<_, HEl, HS>::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let (a, b) = l.as_gadget().clone();
    let e = r.as_gadget().clone();
    let s = a.add(dr, &e);
    let q = e.square(dr)?;
    let q = q.add(dr, &w);
    let d = D::just(|| ((*s.value().take(), *b.value().take()), *q.value().take()));
    let aux = D::just(|| *w.value().take());
    Ok(((l, r, Enc::from_gadget(((s, b), q))), d, aux))
});
// inner product
step!(Squash, 4, HTri, HTri, HEl, (), (), |dr, _w, l, r| {
    let l = Enc::<_, HTri, HS>::new(dr, l)?;
    let r = Enc::<_, HTri, HS>::new(dr, r)?;
    let ((a, b), c) = l.as_gadget().clone();
    let ((x, y), z) = r.as_gadget().clone();
    let s = a.mul(dr, &x)?;
    let t = b.mul(dr, &y)?;
    let u = c.mul(dr, &z)?;
    let o = s.add(dr, &t).add(dr, &u);
    let d = o.value().map(|v| *v);
    Ok(((l, r, Enc::from_gadget(o)), d, D::unit()))
});
// q with q b = a, told by the witness; the right proof must be of nothing
step!(Quot, 5, HPair, (), HEl, Fp, (Fp, u64), |dr, w, l, r| {
    let l = Enc::<_, HPair, HS>::new(dr, l)?;
    let r = Enc::<_, (), HS>::new(dr, r)?;
    let (a, b) = l.as_gadget().clone();
    let q = Element::alloc(dr, w)?;
    let qb = q.mul(dr, &b)?;
    let diff = qb.sub(dr, &a);
    diff.enforce_zero(dr)?;
    let d = q.value().map(|v| *v);
    let aux = q.value().map(|v| (v.double(), 9));
    Ok(((l, r, Enc::from_gadget(q)), d, aux))
});
// -2 phi(P)
step!(Turn, 6, HPt, HEl, HPt, (), (), |dr, _w, l, r| {
    let l = Enc::<_, HPt, HS>::new(dr, l)?;
    let r = Enc::<_, HEl, HS>::new(dr, r)?;
    let p = l.as_gadget().endo(dr).double(dr)?.negate(dr);
    let d = p.value();
    Ok(((l, r, Enc::from_gadget(p)), d, D::unit()))
});
step!(IsZero, 7, (), HEl, HBit, (), (), |dr, _w, l, r| {
    let l = Enc::<_, (), HS>::new(dr, l)?;
    let r = Enc::<_, HEl, HS>::new(dr, r)?;
    let b = r.as_gadget().is_zero(dr)?;
    let d = b.value();
    Ok(((l, r, Enc::from_gadget(b)), d, D::unit()))
});
// second of the pair if the bit is set, first otherwise
step!(Choose, 8, HBit, HPair, HEl, (), (), |dr, _w, l, r| {
    let l = Enc::<_, HBit, HS>::new(dr, l)?;
    let r = Enc::<_, HPair, HS>::new(dr, r)?;
    let (a, b) = r.as_gadget().clone();
    let e = l.as_gadget().conditional_select(dr, &a, &b)?;
    let d = e.value().map(|v| *v);
    Ok(((l, r, Enc::from_gadget(e)), d, D::unit()))
});
// a hash, by a routine
step!(Hash, 9, HEl, HEl, HEl, (), (), |dr, _w, l, r| {
    let l = Enc::<_, HEl, HS>::new(dr, l)?;
    let r = Enc::<_, HEl, HS>::new(dr, r)?;
    let mut s = Sponge::new(dr, poseidon());
    s.absorb(dr, l.as_gadget())?;
    s.absorb(dr, r.as_gadget())?;
    let o = s.squeeze(dr)?;
    let d = o.value().map(|v| *v);
    Ok(((l, r, Enc::from_gadget(o)), d, D::unit()))
});
// nothing, out of nothing and nothing
step!(Nothing, 10, (), (), (), (), (), |dr, _w, l, r| {
    let l = Enc::<_, (), HS>::new(dr, l)?;
    let r = Enc::<_, (), HS>::new(dr, r)?;
    Ok(((l, r, Enc::from_gadget(())), D::unit(), D::unit()))
});
pub const STEPS: usize = 11;
// fills an index
step!(Pad, 0, (), (), HElB, Fp, Fp, |dr, w, l, r| {
    let (l, r) = (Enc::new(dr, l)?, Enc::new(dr, r)?);
    let k = Element::constant(dr, Fp::from(B as u64));
    let e = Element::alloc(dr, w.clone())?.mul(dr, &k)?;
    let d = e.value().map(|v| *v);
    Ok(((l, r, Enc::from_gadget(e)), d, w))
});

pub type App<const HS: usize> = Application<'static, Pasta, Rk, HS>;
pub type Build<const HS: usize> = ApplicationBuilder<'static, Pasta, Rk, HS>;
pub fn steps<const HS: usize, const B: usize>(b: Build<HS>) -> Result<Build<HS>> {
    b.register(Leaf::<B>)?
        .register(LeafPt::<B>)?
        .register(Pairing::<B>)?
        .register(Grow::<B>)?
        .register(Squash::<B>)?
        .register(Quot::<B>)?
        .register(Turn::<B>)?
        .register(IsZero::<B>)?
        .register(Choose::<B>)?
        .register(Hash::<B>)?
        .register(Nothing::<B>)
}
macro_rules! pads {
    ($b:expr; $($i:literal)*) => {{ let b = $b; $( let b = b.register(Pad::<$i>)?; )* Ok(b) }};
}
/// Padding steps from 0 to 17.
pub fn pads0<const HS: usize>(b: Build<HS>) -> Result<Build<HS>> {
    pads!(b; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17)
}
/// Padding steps after the others, so that there are 32 circuits in all.
pub fn pads11<const HS: usize>(b: Build<HS>) -> Result<Build<HS>> {
    pads!(b; 11 12 13 14 15 16)
}
pub fn first_pads<const HS: usize>(n: usize) -> Result<App<HS>> {
    let b: Build<HS> = Build::new();
    let b = match n {
        0 => b,
        1 => b.register(Pad::<0>)?,
        2 => b.register(Pad::<0>)?.register(Pad::<1>)?,
        3 => b.register(Pad::<0>)?.register(Pad::<1>)?.register(Pad::<2>)?,
        17 => {
            let r: Result<_> = (|| pads!(b; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16))();
            r?
        }
        18 => pads0(b)?,
        _ => unreachable!(),
    };
    b.finalize(Pasta::baked())
}
macro_rules! apps {
    ($($f:ident $hs:literal $e:expr;)*) => { $(
        pub fn $f() -> &'static App<$hs> {
            thread_local! { static A: OnceCell<&'static App<$hs>> = const { OnceCell::new() }; }
            A.with(|a| *a.get_or_init(|| {
                let r: Result<Build<$hs>> = $e(Build::new());
                Box::leak(Box::new(r.and_then(|b| b.finalize(Pasta::baked())).expect("an application")))
            }))
        }
    )* };
}
apps! {
    plain 4 steps::<4, 0>;
    full 4 |b| pads11(steps::<4, 0>(b)?);
    crook 4 |b: Build<4>| b.register(crate::crook::Crooked);
    wide 9 |b| steps::<9, 18>(pads0(b)?);
}

/// A value with the proof of it.
#[derive(Clone)]
pub enum Val {
    Unit(Carried<()>),
    El(Carried<HEl>),
    Pair(Carried<HPair>),
    Tri(Carried<HTri>),
    Bit(Carried<HBit>),
    Pt(Carried<HPt>),
}
/// The value alone.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Model {
    Unit,
    El(Fp),
    Pair(Fp, Fp),
    Tri(Fp, Fp, Fp),
    Bit(bool),
    Pt(EpAffine),
}
/// Runs `$e` for whichever header the value has.
#[macro_export]
macro_rules! each {
    ($v:expr, $p:ident => $e:expr) => {
        match $v {
            $crate::app::Val::Unit($p) => $e,
            $crate::app::Val::El($p) => $e,
            $crate::app::Val::Pair($p) => $e,
            $crate::app::Val::Tri($p) => $e,
            $crate::app::Val::Bit($p) => $e,
            $crate::app::Val::Pt($p) => $e,
        }
    };
}
impl Val {
    pub fn proof(&self) -> Pf {
        each!(self.clone(), p => ragu_pcd::verif::proof(p))
    }
    pub fn model(&self) -> Model {
        match self {
            Val::Unit(_) => Model::Unit,
            Val::El(p) => Model::El(*p.data()),
            Val::Pair(p) => Model::Pair(p.data().0, p.data().1),
            Val::Tri(p) => Model::Tri(p.data().0.0, p.data().0.1, p.data().1),
            Val::Bit(p) => Model::Bit(*p.data()),
            Val::Pt(p) => Model::Pt(*p.data()),
        }
    }
    pub fn carry(m: Model, p: Pf) -> Val {
        match m {
            Model::Unit => Val::Unit(p.carry(())),
            Model::El(a) => Val::El(p.carry(a)),
            Model::Pair(a, b) => Val::Pair(p.carry((a, b))),
            Model::Tri(a, b, c) => Val::Tri(p.carry(((a, b), c))),
            Model::Bit(b) => Val::Bit(p.carry(b)),
            Model::Pt(q) => Val::Pt(p.carry(q)),
        }
    }
    pub fn verify<const HS: usize>(&self, app: &App<HS>, g: &mut Gen) -> Result<bool> {
        each!(self, p => app.verify(p, VRng::of(g)))
    }
    pub fn rerandomize<const HS: usize>(self, app: &App<HS>, g: &mut Gen) -> Result<Val> {
        let rng = &mut VRng::of(g);
        Ok(match self {
            Val::Unit(p) => Val::Unit(app.rerandomize(p, rng)?),
            Val::El(p) => Val::El(app.rerandomize(p, rng)?),
            Val::Pair(p) => Val::Pair(app.rerandomize(p, rng)?),
            Val::Tri(p) => Val::Tri(app.rerandomize(p, rng)?),
            Val::Bit(p) => Val::Bit(app.rerandomize(p, rng)?),
            Val::Pt(p) => Val::Pt(app.rerandomize(p, rng)?),
        })
    }
}
impl Model {
    /// What the header encodes it as: its elements, zeros, and the suffix, as
    /// the recursion places them.
    pub fn encoding(&self, hs: usize) -> Vec<Fp> {
        let (mut v, s) = match self {
            Model::Unit => (vec![], 1u64),
            Model::El(a) => (vec![*a], 2),
            Model::Pair(a, b) => (vec![*a, *b], 9),
            Model::Tri(a, b, c) => (vec![*a, *b, *c], 1002),
            Model::Bit(b) => (vec![Fp::from(*b as u64)], 3),
            Model::Pt(p) => {
                let c = p.coordinates().unwrap();
                (vec![*c.x(), *c.y()], 4)
            }
        };
        v.resize(hs - 1, Fp::ZERO);
        v.push(Fp::from(s));
        v
    }
}
pub fn a_point(g: &mut Gen) -> EpAffine {
    use group::{Curve, Group};
    use pasta_curves::{Ep, Fq};
    (Ep::generator() * (Fq::from(g.u64() >> 8) + Fq::ONE)).to_affine()
}
pub fn an_element(g: &mut Gen) -> Fp {
    match g.below(4) {
        0 => Fp::ZERO,
        _ => fe(g),
    }
}
/// What came out of a step, and what should have.
pub struct Out {
    pub step: &'static str,
    pub val: Result<Val>,
    pub model: Model,
    /// whether what the step tells on the side is right
    pub aux: bool,
    pub inputs: [Model; 2],
}
/// Applies a step that fits values in the pool; `lie` has it go wrong where a
/// witness can.
pub fn apply<const HS: usize, const B: usize>(g: &mut Gen, app: &App<HS>, pool: &[Val], lie: bool) -> Option<Out> {
    let rng = &mut VRng::of(g);
    let has: Vec<Vec<&Val>> = (0..6)
        .map(|k| pool.iter().filter(|v| k == match v { Val::Unit(_) => 0, Val::El(_) => 1, Val::Pair(_) => 2, Val::Tri(_) => 3, Val::Bit(_) => 4, Val::Pt(_) => 5 }).collect())
        .collect();
    let els: Vec<&Val> = has[1].clone();
    let mut can = if els.len() < 2 { vec![0, 0, 0, 1, 10] } else { vec![0, 1] };
    if els.len() > 0 {
        can.extend([2, 2, 2, 9]);
        if !has[0].is_empty() {
            can.push(7);
        }
        if !has[2].is_empty() {
            can.extend([3, 3, 3]);
        }
        if !has[5].is_empty() {
            can.extend([6, 6]);
        }
    }
    if !has[3].is_empty() {
        can.extend([4, 4]);
    }
    if !has[4].is_empty() && !has[2].is_empty() {
        can.extend([8, 8, 8]);
    }
    let quots: Vec<&Val> = has[2].iter().filter(|v| matches!(v.model(), Model::Pair(_, b) if b != Fp::ZERO)).copied().collect();
    if !quots.is_empty() && !has[0].is_empty() {
        can.extend([5, 5]);
    }
    if has[0].is_empty() {
        can.push(10);
    }
    if lie {
        if quots.is_empty() || has[0].is_empty() {
            return None;
        }
        can = vec![5];
    }
    macro_rules! take {
        ($from:expr, $k:ident) => {{
            let v = *g.pick(&$from);
            let m = v.model();
            match v {
                Val::$k(p) => (p.clone(), m),
                _ => unreachable!(),
            }
        }};
    }
    macro_rules! out {
        ($name:literal, $k:ident, $res:expr, $aux:expr, $model:expr, $l:expr, $r:expr) => {{
            let (val, aux) = match $res {
                Ok((p, a)) => (Ok(Val::$k(p)), a == $aux),
                Err(e) => (Err(e), true),
            };
            Some(Out { step: $name, val, model: $model, aux, inputs: [$l, $r] })
        }};
    }
    match *g.pick(&can) {
        0 => {
            let w = an_element(g);
            out!("leaf", El, app.seed(rng, Leaf::<B>, w), (), Model::El(w), Model::Unit, Model::Unit)
        }
        1 => {
            let w = a_point(g);
            out!("leaf point", Pt, app.seed(rng, LeafPt::<B>, w), (), Model::Pt(w), Model::Unit, Model::Unit)
        }
        2 => {
            let ((l, ml), (r, mr)) = (take!(els, El), take!(els, El));
            let (a, b) = (*l.data(), *r.data());
            out!("pairing", Pair, app.fuse(rng, Pairing::<B>, (), l, r), a + b, Model::Pair(a, a * b), ml, mr)
        }
        3 => {
            let ((l, ml), (r, mr)) = (take!(has[2], Pair), take!(els, El));
            let ((a, b), e, w) = (*l.data(), *r.data(), an_element(g));
            out!("grow", Tri, app.fuse(rng, Grow::<B>, w, l, r), w, Model::Tri(a + e, b, e * e + w), ml, mr)
        }
        4 => {
            let ((l, ml), (r, mr)) = (take!(has[3], Tri), take!(has[3], Tri));
            let (((a, b), c), ((x, y), z)) = (*l.data(), *r.data());
            out!("squash", El, app.fuse(rng, Squash::<B>, (), l, r), (), Model::El(a * x + b * y + c * z), ml, mr)
        }
        5 => {
            let ((l, ml), (r, mr)) = (take!(quots, Pair), take!(has[0], Unit));
            let (a, b) = *l.data();
            let mut q = a * b.invert().unwrap();
            if lie {
                q += if g.bool() { Fp::ONE } else { vcs::nonzero(g) };
            }
            out!("quotient", El, app.fuse(rng, Quot::<B>, q, l, r), (q.double(), 9), Model::El(q), ml, mr)
        }
        6 => {
            let ((l, ml), (r, mr)) = (take!(has[5], Pt), take!(els, El));
            use group::Curve;
            use pasta_curves::arithmetic::CurveExt as _;
            let p = pasta_curves::Ep::from(*l.data());
            let q = -(p.endo() + p.endo());
            out!("turn", Pt, app.fuse(rng, Turn::<B>, (), l, r), (), Model::Pt(q.to_affine()), ml, mr)
        }
        7 => {
            let ((l, ml), (r, mr)) = (take!(has[0], Unit), take!(els, El));
            let z = *r.data() == Fp::ZERO;
            out!("is zero", Bit, app.fuse(rng, IsZero::<B>, (), l, r), (), Model::Bit(z), ml, mr)
        }
        8 => {
            let ((l, ml), (r, mr)) = (take!(has[4], Bit), take!(has[2], Pair));
            let e = if *l.data() { r.data().1 } else { r.data().0 };
            out!("choose", El, app.fuse(rng, Choose::<B>, (), l, r), (), Model::El(e), ml, mr)
        }
        9 => {
            let ((l, ml), (r, mr)) = (take!(els, El), take!(els, El));
            let mut s = crate::plain::Plain::<Fp, PoseidonFp>::new(poseidon());
            s.absorb(*l.data());
            s.absorb(*r.data());
            let o = s.squeeze();
            out!("hash", El, app.fuse(rng, Hash::<B>, (), l, r), (), Model::El(o), ml, mr)
        }
        _ => out!("nothing", Unit, app.seed(rng, Nothing::<B>, ()), (), Model::Unit, Model::Unit, Model::Unit),
    }
}

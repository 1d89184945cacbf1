//! Gadgets made of gadgets: mapping, counting, comparing.
use core::marker::PhantomData;
use ff::PrimeField;
use pasta_curves::Fp;
use ragu_arithmetic::Coeff;
use ragu_core::{
    Error, Result,
    convert::{CloneWires, StripWires, WireMap},
    drivers::{
        Driver,
        emulator::{Emulator, Wired, Wireless},
    },
    gadgets::{Bound, Gadget},
    maybe::{Always, Maybe},
};
use vcs::prog::{Reg, boom};
use vcs::{Gf, Present, Rec, W, fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

/// The wires of a nest of registers in the order its parts are declared, read
/// off without the library.
trait Parts<'dr, D: Driver<'dr>>: Gadget<'dr, D> {
    fn build(next: &mut impl FnMut() -> Reg<'dr, D>) -> Self;
    fn list(&self, out: &mut Vec<(D::Wire, D::F)>);
}
impl<'dr, D: Driver<'dr>> Parts<'dr, D> for Reg<'dr, D> {
    fn build(next: &mut impl FnMut() -> Reg<'dr, D>) -> Self {
        next()
    }
    fn list(&self, out: &mut Vec<(D::Wire, D::F)>) {
        out.push((self.w.clone(), *self.v.snag()));
    }
}
impl<'dr, D: Driver<'dr>> Parts<'dr, D> for () {
    fn build(_: &mut impl FnMut() -> Reg<'dr, D>) {}
    fn list(&self, _: &mut Vec<(D::Wire, D::F)>) {}
}
impl<'dr, D: Driver<'dr>, A: Parts<'dr, D>, B: Parts<'dr, D>> Parts<'dr, D> for (A, B) {
    fn build(next: &mut impl FnMut() -> Reg<'dr, D>) -> Self {
        (A::build(next), B::build(next))
    }
    fn list(&self, out: &mut Vec<(D::Wire, D::F)>) {
        self.0.list(out);
        self.1.list(out);
    }
}
impl<'dr, D: Driver<'dr>, A: Parts<'dr, D>> Parts<'dr, D> for Box<A> {
    fn build(next: &mut impl FnMut() -> Reg<'dr, D>) -> Self {
        Box::new(A::build(next))
    }
    fn list(&self, out: &mut Vec<(D::Wire, D::F)>) {
        (**self).list(out)
    }
}
impl<'dr, D: Driver<'dr>, A: Parts<'dr, D>, const N: usize> Parts<'dr, D> for [A; N] {
    fn build(next: &mut impl FnMut() -> Reg<'dr, D>) -> Self {
        core::array::from_fn(|_| A::build(next))
    }
    fn list(&self, out: &mut Vec<(D::Wire, D::F)>) {
        for x in self {
            x.list(out);
        }
    }
}

type Dr<F> = Rec<F, Present>;
type Em<F> = Emulator<Wired<F>>;

/// Numbers the wires it sees; stops at one of them.
struct Number<F: PrimeField> {
    seen: Vec<W>,
    stop: Option<usize>,
    _f: PhantomData<F>,
}
impl<F: PrimeField> WireMap<F> for Number<F> {
    type Src = Dr<F>;
    type Dst = Em<F>;
    fn convert_wire(&mut self, w: &W) -> Result<F> {
        if Some(self.seen.len()) == self.stop {
            return Err(boom(self.seen.len() as u64));
        }
        self.seen.push(*w);
        Ok(F::from(100 + self.seen.len() as u64))
    }
}

fn nest<F: PrimeField, G>(g: &mut Gen, name: &'static str) -> R
where
    G: Parts<'static, Dr<F>>,
    Bound<'static, Em<F>, G::Kind>: Parts<'static, Em<F>>,
    Bound<'static, Emulator<Wireless<Always<()>, F>>, G::Kind>: Gadget<'static, Emulator<Wireless<Always<()>, F>>, Kind = G::Kind>,
{
    let mut dr = Dr::<F>::new();
    // wires out of order and sometimes shared
    let pool: Vec<Reg<'static, Dr<F>>> = (0..24)
        .map(|_| {
            let v: F = fe(g);
            Reg { w: dr.alloc(|| Ok(Coeff::Arbitrary(v))).unwrap(), v: Always::<()>::just(|| v) }
        })
        .collect();
    let mut idx = vec![];
    let mut pick = |g: &mut Gen| {
        let i = g.usize(0, 23);
        idx.push(i);
        pool[i].clone()
    };
    let a = G::build(&mut || pick(g));
    let b = G::build(&mut || pick(g));
    note!(g, "{name}: wires {idx:?}");
    let (mut la, mut lb) = (vec![], vec![]);
    a.list(&mut la);
    b.list(&mut lb);
    let n = la.len();
    g.nt(n > 1);
    ensure_eq!(a.num_wires().map_err(|e| e.to_string())?, n, "{name}: number of wires");
    // a clone has the same wires
    let mut lc = vec![];
    Clone::clone(&a).list(&mut lc);
    ensure_eq!(lc, la, "{name}: clone");
    // every wire converted once, in order, landing where it came from
    let mut m = Number { seen: vec![], stop: None, _f: PhantomData };
    let o = a.map(&mut m).map_err(|e| e.to_string())?;
    ensure_eq!(m.seen, la.iter().map(|x| x.0).collect::<Vec<_>>(), "{name}: wires in the order they are converted");
    let mut lo = vec![];
    o.list(&mut lo);
    let want: Vec<(F, F)> = la.iter().enumerate().map(|(i, x)| (F::from(101 + i as u64), x.1)).collect();
    ensure_eq!(lo, want, "{name}: converted wires and values");
    ensure_eq!(Em::<F>::extractor().wires(&o).unwrap(), want.iter().map(|x| x.0).collect::<Vec<_>>(), "{name}: wires listed");
    // a failing conversion
    if n > 0 {
        let k = g.usize(0, n - 1);
        let mut m = Number { seen: vec![], stop: Some(k), _f: PhantomData };
        match a.map(&mut m) {
            Ok(_) => return Err(format!("{name}: failed conversion of wire {k} goes unnoticed")),
            Err(Error::InvalidWitness(e)) => ensure_eq!(e.to_string(), format!("boom {k}"), "{name}"),
            Err(e) => return Err(format!("{name}: failure {e:?}")),
        }
        ensure_eq!(m.seen.len(), k, "{name}: conversions before the failing one");
    }
    // copies between drivers
    let c: Bound<'static, Dr<F>, G::Kind> = CloneWires::<Dr<F>, Dr<F>>::remap(&a).map_err(|e| e.to_string())?;
    let mut l = vec![];
    c.list(&mut l);
    ensure_eq!(l, la, "{name}: wires cloned");
    let s: Bound<'static, Emulator<Wireless<Always<()>, F>>, G::Kind> = StripWires::<Dr<F>>::remap(&a).map_err(|e| e.to_string())?;
    ensure_eq!(s.num_wires().map_err(|e| e.to_string())?, n, "{name}: stripped wires");
    // equality: wire by wire, in order
    let before = dr.constraints.len();
    a.enforce_equal(&mut dr, &b).map_err(|e| e.to_string())?;
    let got: Vec<Vec<(W, F)>> = dr.raw_constraints[before..].to_vec();
    ensure_eq!(got.len(), n, "{name}: constraints of an equality");
    // in any order; the sign of an equation does not matter
    let norm = |m: std::collections::BTreeMap<W, F>| {
        let k = m.values().next().map(|c| if *c == F::ONE { F::ONE } else { -F::ONE }).unwrap_or(F::ONE);
        m.into_iter().map(|(w, c)| (w, c * k)).collect::<Vec<_>>()
    };
    let comb = |t: &mut dyn Iterator<Item = (W, F)>| {
        let mut m: std::collections::BTreeMap<W, F> = Default::default();
        for (w, c) in t {
            *m.entry(w).or_default() += c;
        }
        m.retain(|_, c| *c != F::ZERO);
        norm(m)
    };
    let mut have: Vec<Vec<(W, F)>> = got.iter().map(|t| comb(&mut t.iter().copied())).collect();
    let mut need: Vec<Vec<(W, F)>> = la.iter().zip(&lb).map(|(x, y)| comb(&mut [(x.0, F::ONE), (y.0, -F::ONE)].into_iter())).collect();
    have.sort_by_key(|x| format!("{x:?}"));
    need.sort_by_key(|x| format!("{x:?}"));
    ensure_eq!(have, need, "{name}: equations of an equality");
    ensure_eq!(dr.satisfied().is_ok(), la.iter().zip(&lb).all(|(x, y)| x.1 == y.1), "{name}: equality holds");
    Ok(())
}
type Rg<F> = Reg<'static, Dr<F>>;
fn composites_in<F: PrimeField>(g: &mut Gen) -> R {
    match g.below(18) {
        0 => nest::<F, ()>(g, "()"),
        1 => nest::<F, Rg<F>>(g, "R"),
        2 => nest::<F, [Rg<F>; 0]>(g, "[R; 0]"),
        3 => nest::<F, [Rg<F>; 1]>(g, "[R; 1]"),
        4 => nest::<F, [Rg<F>; 7]>(g, "[R; 7]"),
        5 => nest::<F, (Rg<F>, Rg<F>)>(g, "(R, R)"),
        6 => nest::<F, Box<Rg<F>>>(g, "Box<R>"),
        7 => nest::<F, ((Rg<F>, [Rg<F>; 3]), Rg<F>)>(g, "((R, [R; 3]), R)"),
        8 => nest::<F, (Rg<F>, ([Rg<F>; 2], (Rg<F>, ())))>(g, "(R, ([R; 2], (R, ())))"),
        9 => nest::<F, [[Rg<F>; 2]; 3]>(g, "[[R; 2]; 3]"),
        10 => nest::<F, [(Rg<F>, [Rg<F>; 2]); 4]>(g, "[(R, [R; 2]); 4]"),
        11 => nest::<F, Box<(Box<Rg<F>>, [Box<Rg<F>>; 3])>>(g, "Box<(Box<R>, [Box<R>; 3])>"),
        12 => nest::<F, ([(); 3], Rg<F>)>(g, "([(); 3], R)"),
        13 => nest::<F, ((), (Rg<F>, ()))>(g, "((), (R, ()))"),
        14 => nest::<F, [Rg<F>; 23]>(g, "[R; 23]"),
        15 => nest::<F, [Rg<F>; 33]>(g, "[R; 33]"),
        16 => match g.below(5) {
            0 => nest::<F, [Rg<F>; 65]>(g, "[R; 65]"),
            1 => nest::<F, [(Rg<F>, [Rg<F>; 2]); 130]>(g, "[(R, [R; 2]); 130]"),
            2 => nest::<F, [[Rg<F>; 36]; 2]>(g, "[[R; 36]; 2]"),
            3 => nest::<F, Box<[Box<Rg<F>>; 270]>>(g, "Box<[Box<R>; 270]>"),
            _ => nest::<F, ([Rg<F>; 40], ([Rg<F>; 40], [Rg<F>; 41]))>(g, "([R; 40], ([R; 40], [R; 41]))"),
        },
        _ => nest::<F, (([Rg<F>; 2], [Rg<F>; 3]), ([Rg<F>; 4], [Rg<F>; 5]))>(g, "(([R; 2], [R; 3]), ([R; 4], [R; 5]))"),
    }
}
fn composites(g: &mut Gen) -> R {
    match g.below(2) {
        0 => composites_in::<Fp>(g),
        _ => composites_in::<Gf<13>>(g),
    }
}
pub fn prop() -> Prop {
    Prop {
        id: "D04",
        subs: vec![Sub::new("composites", composites, 4000, 200000, "at least two wires")],
        assumptions: &[],
    }
}

//! The sponge: generated histories against a plain implementation.
use ff::{Field, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_arithmetic::PoseidonPermutation;
use ragu_core::{
    Error, Result,
    drivers::{
        Driver, DriverValue,
        emulator::{Emulator, Wired, Wireless},
    },
    gadgets::Gadget,
    maybe::{Always, Empty, Maybe},
};
use ragu_pasta::{PoseidonFp, PoseidonFq};
use ragu_primitives::{
    Element, GadgetExt, Simulator,
    io::Buffer,
    poseidon::{SaveError, Sponge, SpongeState},
};
use std::collections::BTreeSet;
use vcs::solve::solutions;
use vcs::{Absent, Gf, Present, Rec, W, fe, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

/// Made-up parameters of any shape.
pub struct Mini<F, const T: usize, const RATE: usize, const FULL: usize, const PARTIAL: usize> {
    rc: Vec<Vec<F>>,
    m: Vec<Vec<F>>,
}
impl<F: Field, const T: usize, const RATE: usize, const FULL: usize, const PARTIAL: usize> Mini<F, T, RATE, FULL, PARTIAL> {
    fn new(mut f: impl FnMut() -> F) -> Self {
        let mut row = |n| (0..n).map(|_| f()).collect::<Vec<F>>();
        Mini { rc: (0..FULL + PARTIAL).map(|_| row(T)).collect(), m: (0..T).map(|_| row(T)).collect() }
    }
}
impl<F: Field, const T: usize, const R_: usize, const FULL: usize, const PARTIAL: usize> PoseidonPermutation<F> for Mini<F, T, R_, FULL, PARTIAL> {
    const T: usize = T;
    const RATE: usize = R_;
    const FULL_ROUNDS: usize = FULL;
    const PARTIAL_ROUNDS: usize = PARTIAL;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> {
        self.rc.iter().map(|r| &r[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> {
        self.m.iter().map(|r| &r[..])
    }
}
/// The sponge, plainly.
#[derive(Clone)]
struct Plain<F> {
    s: Vec<F>,
    absorbing: bool,
    /// absorbed since the last permutation / not yet squeezed
    pending: Vec<F>,
    perms: usize,
}
impl<F: PrimeField> Plain<F> {
    fn new(t: usize) -> Self {
        Plain { s: vec![F::ZERO; t], absorbing: true, pending: vec![], perms: 0 }
    }
    fn permute<P: PoseidonPermutation<F>>(&mut self, p: &P) {
        self.perms += 1;
        let rcs: Vec<Vec<F>> = p.round_constants().map(|r| r.to_vec()).collect();
        let m: Vec<Vec<F>> = p.mds_matrix().map(|r| r.to_vec()).collect();
        let half = P::FULL_ROUNDS / 2;
        for r in 0..P::FULL_ROUNDS + P::PARTIAL_ROUNDS {
            for i in 0..P::T {
                self.s[i] += rcs[r][i];
            }
            let full = r < half || r >= half + P::PARTIAL_ROUNDS;
            for i in 0..if full { P::T } else { 1 } {
                let x = self.s[i];
                self.s[i] = x * x * x * x * x;
            }
            self.s = (0..P::T).map(|i| (0..P::T).map(|j| m[i][j] * self.s[j]).sum()).collect();
        }
    }
    fn mix<P: PoseidonPermutation<F>>(&mut self, p: &P) {
        for i in 0..self.pending.len() {
            self.s[i] += self.pending[i];
        }
        self.pending.clear();
        self.permute(p);
    }
    fn absorb<P: PoseidonPermutation<F>>(&mut self, p: &P, x: F) {
        if !self.absorbing {
            self.pending.clear();
        }
        self.absorbing = true;
        if self.pending.len() == P::RATE {
            self.mix(p);
        }
        self.pending.push(x);
    }
    fn squeeze<P: PoseidonPermutation<F>>(&mut self, p: &P) -> Option<F> {
        if self.absorbing {
            if self.pending.is_empty() {
                return None;
            }
            self.mix(p);
            self.resume::<P>();
        } else if self.pending.is_empty() {
            self.permute(p);
            self.resume::<P>();
        }
        Some(self.pending.remove(0))
    }
    fn resume<P: PoseidonPermutation<F>>(&mut self) {
        self.absorbing = false;
        self.pending = self.s[..P::RATE].to_vec();
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// one of the inputs
    Absorb(usize),
    Write(usize),
    /// something squeezed before
    AbsorbOut(usize),
    Squeeze,
    /// keep the other copy from here on
    Fork,
    Swap,
    Save,
    /// save, take the state apart, put it together, resume
    SaveApart,
}
/// What is observed: squeezed and saved values; errors by kind.
#[derive(Clone, PartialEq, Debug)]
enum Ev<T> {
    Out(T),
    State(Vec<T>),
    CannotSqueeze,
    Save(SaveError),
}
fn plain_run<F: PrimeField, P: PoseidonPermutation<F>>(ops: &[Op], p: &P, x: &[F]) -> (Vec<Ev<F>>, usize) {
    let mut s = Plain::new(P::T);
    let mut other = s.clone();
    let mut perms = 0;
    let mut ev = vec![];
    let mut outs = vec![];
    for op in ops {
        let before = s.perms;
        match op {
            Op::Absorb(i) | Op::Write(i) => s.absorb(p, x[*i]),
            Op::AbsorbOut(i) => {
                if !outs.is_empty() {
                    s.absorb(p, outs[i % outs.len()])
                }
            }
            Op::Squeeze => match s.squeeze(p) {
                Some(v) => {
                    outs.push(v);
                    ev.push(Ev::Out(v))
                }
                None => ev.push(Ev::CannotSqueeze),
            },
            Op::Fork => other = Plain { perms: 0, ..s.clone() },
            Op::Swap => {
                std::mem::swap(&mut s, &mut other);
                s.perms = 0;
                continue;
            }
            Op::Save | Op::SaveApart => {
                if !s.absorbing {
                    ev.push(Ev::Save(SaveError::AlreadyInSqueezeMode));
                } else if s.pending.is_empty() {
                    ev.push(Ev::Save(SaveError::NothingAbsorbed));
                } else {
                    s.mix(p);
                    ev.push(Ev::State(s.s.clone()));
                    s.resume::<P>();
                }
            }
        }
        perms += s.perms - before;
    }
    (ev, perms)
}
type Evs<'dr, D> = Vec<Ev<Element<'dr, D>>>;
fn run<'dr, F: PrimeField, D: Driver<'dr, F = F>, P: PoseidonPermutation<F>>(dr: &mut D, ops: &[Op], p: &'dr P, x: DriverValue<D, Vec<F>>) -> Result<(Vec<Element<'dr, D>>, Evs<'dr, D>)> {
    let ins = (0..4).map(|i| Element::alloc(dr, D::just(|| x.snag()[i]))).collect::<Result<Vec<_>>>()?;
    let mut s = Sponge::new(dr, p);
    let mut other = s.clone();
    let mut ev = vec![];
    let mut outs: Vec<Element<'dr, D>> = vec![];
    for op in ops {
        match op {
            Op::Absorb(i) => s.absorb(dr, &ins[*i])?,
            Op::Write(i) => ins[*i].write(dr, &mut s)?,
            Op::AbsorbOut(i) => {
                if !outs.is_empty() {
                    Buffer::write(&mut s, dr, &outs[i % outs.len()])?;
                }
            }
            Op::Squeeze => match s.squeeze(dr) {
                Ok(v) => {
                    outs.push(v.clone());
                    ev.push(Ev::Out(v))
                }
                Err(Error::Initialization(_)) => ev.push(Ev::CannotSqueeze),
                Err(e) => return Err(e),
            },
            Op::Fork => other = s.clone(),
            Op::Swap => std::mem::swap(&mut s, &mut other),
            Op::Save | Op::SaveApart => {
                let keep = s.clone();
                match s.save_state(dr) {
                    Ok(st) => {
                        let mut v: Vec<Element<'dr, D>> = vec![];
                        st.write(dr, &mut v)?;
                        ev.push(Ev::State(v));
                        let st = if *op == Op::Save { st } else { SpongeState::from_elements(st.into_elements()) };
                        assert_eq!(st.num_wires()?, P::T);
                        s = Sponge::resume(st, p);
                    }
                    Err(e) => {
                        ev.push(Ev::Save(e));
                        s = keep;
                    }
                }
            }
        }
    }
    Ok((ins, ev))
}
fn see<'dr, D: Driver<'dr>, T>(ev: &Evs<'dr, D>, f: impl Fn(&Element<'dr, D>) -> T) -> Vec<Ev<T>> {
    ev.iter()
        .map(|e| match e {
            Ev::Out(x) => Ev::Out(f(x)),
            Ev::State(v) => Ev::State(v.iter().map(&f).collect()),
            Ev::CannotSqueeze => Ev::CannotSqueeze,
            Ev::Save(e) => Ev::Save(*e),
        })
        .collect()
}
fn gen_ops(g: &mut Gen, max: usize) -> Vec<Op> {
    let calm = g.bool();
    g.vec(1, max, |g| match g.below(if calm { 10 } else { 16 }) {
        0..=3 => Op::Absorb(g.usize(0, 3)),
        4 => Op::Write(g.usize(0, 3)),
        5..=9 => Op::Squeeze,
        10 => Op::AbsorbOut(g.usize(0, 3)),
        11 => Op::Fork,
        12 | 13 => Op::Swap,
        14 => Op::Save,
        _ => Op::SaveApart,
    })
}
fn interesting<T>(ev: &[Ev<T>]) -> bool {
    ev.iter().filter(|e| matches!(e, Ev::Out(_) | Ev::State(_))).count() > 1
}
fn history<F: PrimeField, P: PoseidonPermutation<F>>(g: &mut Gen, p: &P, max: usize) -> R {
    let max = if g.chance(1, 25) { max * 8 } else { max };
    let ops = gen_ops(g, max);
    let x: Vec<F> = (0..4).map(|_| fe(g)).collect();
    let (want, _) = plain_run(&ops, p, &x);
    note!(g, "width {} rate {}: {ops:?} on {x:?}", P::T, P::RATE);
    g.nt(interesting(&want));
    let mut rec = Rec::<F, Present>::new();
    let (_, ev) = run(&mut rec, &ops, p, Present::just(|| x.clone())).map_err(|e| e.to_string())?;
    ensure_eq!(see(&ev, |e| *e.value().take()), want, "values");
    ensure_eq!(see(&ev, |e| rec.value(*e.wire())), want, "wires");
    ensure_eq!(rec.satisfied(), Ok(()), "honest assignment");
    let mut un = Rec::<F, Absent>::new();
    run(&mut un, &ops, p, Empty).map_err(|e| e.to_string())?;
    ensure!(rec.shape() == un.shape(), "the circuit depends on the witness");
    let w = Emulator::<Wired<F>>::emulate_wired(x.clone(), |dr, w| Ok(see(&run(dr, &ops, p, w)?.1, |e| *e.wire()))).map_err(|e| e.to_string())?;
    ensure_eq!(w, want, "wires on the emulator");
    let w = Emulator::emulate_wireless(x.clone(), |dr: &mut Emulator<Wireless<Always<()>, F>>, w| Ok(see(&run(dr, &ops, p, w)?.1, |e| *e.value().take())))
        .map_err(|e| e.to_string())?;
    ensure_eq!(w, want, "values without wires");
    Simulator::<F>::simulate(x.clone(), |dr, w| run(dr, &ops, p, w).map(|_| ())).map_err(|e| format!("simulator: {e}"))?;
    Ok(())
}
/// Every satisfying assignment has the same squeezed values.
fn sound_in<const P: u64, Q: PoseidonPermutation<Gf<P>>>(g: &mut Gen, p: &Q) -> R {
    let mut ops = vec![Op::Absorb(0)];
    ops.extend(gen_ops(g, 6));
    ops.push(Op::Squeeze);
    let x: Vec<Gf<P>> = (0..4).map(|_| fe(g)).collect();
    let (want, _) = plain_run(&ops, p, &x);
    note!(g, "field of {P}, width {} rate {}: {ops:?} on {x:?}", Q::T, Q::RATE);
    g.nt(interesting(&want));
    let mut rec = Rec::<Gf<P>, Absent>::new();
    let (ins, ev) = run(&mut rec, &ops, p, Empty).map_err(|e| e.to_string())?;
    let fixed: Vec<(W, Gf<P>)> = ins.iter().zip(&x).map(|(e, v)| (*e.wire(), *v)).collect();
    let fl = |e: Vec<Ev<W>>| -> Vec<W> {
        e.into_iter()
            .flat_map(|e| match e {
                Ev::Out(w) => vec![w],
                Ev::State(v) => v,
                _ => vec![],
            })
            .collect()
    };
    let outs = fl(see(&ev, |e| *e.wire()));
    let w: Vec<Gf<P>> = want
        .into_iter()
        .flat_map(|e| match e {
            Ev::Out(w) => vec![w],
            Ev::State(v) => v,
            _ => vec![],
        })
        .collect();
    let Some(all) = solutions(&rec, &fixed, &outs, 40000) else {
        return Ok(());
    };
    ensure_eq!(all, BTreeSet::from([w]), "squeezed values over all satisfying assignments");
    Ok(())
}
macro_rules! mini {
    ($g:expr, $F:ty, |$p:ident| $e:expr; $([$t:literal $r:literal $full:literal $part:literal])*) => {{
        let n = [$($t),*].len() as u64;
        let mut k = $g.below(n);
        $(
            if k == 0 {
                let seed: $F = fe($g);
                let mut s: $F = seed + <$F>::ONE;
                let $p = &Mini::<$F, $t, $r, $full, $part>::new(|| { s = s * s + seed + <$F>::ONE; s });
                return $e;
            }
            k = k.wrapping_sub(1);
        )*
        let _ = k;
        unreachable!()
    }};
}
fn histories(g: &mut Gen) -> R {
    match g.below(6) {
        0 => history::<Fp, _>(g, &PoseidonFp, 12),
        1 => history::<Fq, _>(g, &PoseidonFq, 12),
        2 | 3 => mini!(g, Gf<257>, |p| history(g, p, 24); [2 1 2 1] [3 2 4 3] [4 1 2 0] [5 4 2 5] [3 1 0 2] [6 5 6 1]),
        4 => mini!(g, Gf<13>, |p| history(g, p, 24); [2 1 2 1] [3 2 2 3] [4 3 2 0]),
        _ => mini!(g, Fp, |p| history(g, p, 24); [2 1 2 1] [3 2 4 3] [9 8 4 4] [4 2 2 2]),
    }
}
fn sound(g: &mut Gen) -> R {
    if g.bool() {
        mini!(g, Gf<7>, |p| sound_in(g, p); [2 1 2 1] [3 2 2 1] [2 1 0 2])
    } else {
        mini!(g, Gf<13>, |p| sound_in(g, p); [2 1 2 0] [3 2 0 2])
    }
}
/// Over the real parameters: squeezed values are determined, a changed gate is noticed.
fn tampered_in<F: PrimeField, P: PoseidonPermutation<F>>(g: &mut Gen, p: &P) -> R {
    let mut ops = vec![Op::Absorb(0)];
    ops.extend(gen_ops(g, 4));
    ops.push(Op::Squeeze);
    let x: Vec<F> = (0..4).map(|_| rand_fe(g)).collect();
    note!(g, "{ops:?}");
    let mut rec = Rec::<F, Present>::new();
    let (ins, ev) = run(&mut rec, &ops, p, Present::just(|| x.clone())).map_err(|e| e.to_string())?;
    let ins: Vec<W> = ins.iter().map(|e| *e.wire()).collect();
    let outs: Vec<W> = see(&ev, |e| *e.wire()).into_iter().filter_map(|e| if let Ev::Out(w) = e { Some(w) } else { None }).collect();
    g.nt(!outs.is_empty());
    if let Some(k) = rec.free_output(&ins, &outs) {
        return Err(format!("squeezed value {k} is not determined by what was absorbed"));
    }
    for _ in 0..3 {
        let k = g.usize(0, rec.gates - 1);
        let mut bad = Rec::<F, Present>::with_tamper(vcs::tamper_gate(k, g.below(3), rand_fe(g), rand_fe(g)));
        run(&mut bad, &ops, p, Present::just(|| x.clone())).map_err(|e| e.to_string())?;
        if bad.satisfied().is_ok() {
            let same = ins.iter().all(|w| rec.value(*w) == bad.value(*w));
            ensure!(!same || outs.iter().all(|w| rec.value(*w) == bad.value(*w)), "another value at gate {k} goes unnoticed");
        }
    }
    Ok(())
}
fn tampered(g: &mut Gen) -> R {
    if g.bool() { tampered_in::<Fp, _>(g, &PoseidonFp) } else { tampered_in::<Fq, _>(g, &PoseidonFq) }
}
/// Different histories give unrelated values: what is squeezed depends on every
/// absorbed value and its position.
fn binding(g: &mut Gen) -> R {
    let p = &PoseidonFp;
    let n = if g.chance(1, 20) { g.usize(10, 90) } else { g.usize(1, 9) };
    let x: Vec<Fp> = (0..n).map(|_| fe(g)).collect();
    let mut y = x.clone();
    match g.below(3) {
        0 => {
            let i = g.usize(0, n - 1);
            y[i] += Fp::from(g.range(1, 5));
        }
        1 => {
            let (i, j) = (g.usize(0, n - 1), g.usize(0, n - 1));
            y.swap(i, j);
        }
        // one longer; padding with zeros up to the rate is not told apart by design
        _ => y.push(fe(g)),
    }
    let pad = |v: &[Fp]| {
        let mut v = v.to_vec();
        while v.len() % 4 != 0 {
            v.push(Fp::ZERO);
        }
        v
    };
    note!(g, "{x:?} and {y:?}");
    g.nt(pad(&x) != pad(&y));
    let h = |v: &[Fp]| {
        Emulator::emulate_wireless(v.to_vec(), |dr: &mut Emulator<Wireless<Always<()>, Fp>>, w| {
            let mut s = Sponge::new(dr, p);
            for i in 0..v.len() {
                let e = Element::alloc(dr, w.as_ref().map(|w| w[i]))?;
                s.absorb(dr, &e)?;
            }
            Ok(*s.squeeze(dr)?.value().take())
        })
        .map_err(|e| e.to_string())
    };
    ensure_eq!(h(&x)? == h(&y)?, pad(&x) == pad(&y), "the same digest");
    Ok(())
}
pub fn sponges() -> Prop {
    Prop {
        id: "P05",
        subs: vec![
            Sub::new("histories", histories, 60, 6000, "at least two squeezed or saved"),
            Sub::new("sound", sound, 40, 4000, "at least two squeezed or saved"),
            Sub::new("tampered", tampered, 2, 200, "something squeezed"),
            Sub::new("binding", binding, 10, 1000, "different inputs"),
        ],
        assumptions: &[],
    }
}

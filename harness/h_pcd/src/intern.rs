//! The circuits of the recursion, each against a plain account of what it
//! derives, on witnesses made up for it.
use crate::app::{App, Pf, Rk, a_point, poseidon};
use crate::plain::Plain;
use ff::Field;
use pasta_curves::{EpAffine, Fp, arithmetic::CurveAffine as _};
use ragu_circuits::{
    Circuit,
    polynomials::Rank as _,
    registry::CircuitIndex,
    staging::Stage,
};
use ragu_core::{
    drivers::emulator::Emulator,

    maybe::{Always, Maybe, MaybeKind},
};
use ragu_pasta::{Pasta, PoseidonFp};
use ragu_pcd::verif::{
    self,
    fold_revdot::{ClaimFolder, NumErrorTerms, Parameters},
    native::{
        InternalCircuitIndex, InternalCircuitValues, RevdotParameters, RxComponent, RxIndex, RxValues,
        circuits::{compute_v, hashes_1, hashes_2, inner_collapse, outer_collapse},
        claims,
        stages::{eval, inner_error, outer_error, preamble, query},
        unified,
    },
};
use ragu_primitives::{Element, GadgetExt, vec::{CollectFixed, ConstLen, FixedVec, Len}};
use std::collections::HashMap;
use std::sync::OnceLock;
use vcs::{Present, Rec, W, fe, nonzero, rand_fe};
use vlib::{Gen, Prop, R, Sub, ensure, ensure_eq, note};

const HS0: usize = 4;
type D = Rec<Fp, Present>;
type Q = RevdotParameters;
type PreS = preamble::Stage<Pasta, Rk, HS0>;
type OutS = outer_error::Stage<Pasta, Rk, HS0, Q>;
type InS = inner_error::Stage<Pasta, Rk, HS0, Q>;
type QueS = query::Stage<Pasta, Rk, HS0>;
type EvS = eval::Stage<Pasta, Rk, HS0>;
type Header = FixedVec<Fp, ConstLen<HS0>>;

fn just<T: Send>(x: T) -> Always<T> {
    Always::<()>::maybe_just(|| x)
}
fn xy(p: &EpAffine) -> [Fp; 2] {
    let c = p.coordinates().unwrap();
    [*c.x(), *c.y()]
}

/// Names of what a unified instance consists of; points have two places.
const POINTS: [&str; 8] = ["bridge_preamble", "bridge_s_prime", "bridge_inner_error", "bridge_outer_error", "bridge_ab", "bridge_query", "bridge_f", "bridge_eval"];
const SCALARS: [&str; 13] = ["w", "y", "z", "mu", "nu", "mu_prime", "nu_prime", "c", "x", "alpha", "u", "pre_beta", "v"];

#[derive(Clone)]
pub struct Uni {
    pub points: HashMap<&'static str, EpAffine>,
    pub scalars: HashMap<&'static str, Fp>,
}
impl Uni {
    fn random(g: &mut Gen) -> Self {
        Uni {
            points: POINTS.iter().map(|n| (*n, a_point(g))).collect(),
            scalars: SCALARS.iter().map(|n| (*n, rand_fe(g))).collect(),
        }
    }
    fn s(&self, n: &str) -> Fp {
        self.scalars[n]
    }
    fn instance(&self) -> unified::Instance<Pasta> {
        unified::Instance {
            bridge_preamble_commitment: self.points["bridge_preamble"],
            w: self.s("w"),
            bridge_s_prime_commitment: self.points["bridge_s_prime"],
            y: self.s("y"),
            z: self.s("z"),
            bridge_inner_error_commitment: self.points["bridge_inner_error"],
            mu: self.s("mu"),
            nu: self.s("nu"),
            bridge_outer_error_commitment: self.points["bridge_outer_error"],
            mu_prime: self.s("mu_prime"),
            nu_prime: self.s("nu_prime"),
            c: self.s("c"),
            bridge_ab_commitment: self.points["bridge_ab"],
            x: self.s("x"),
            bridge_query_commitment: self.points["bridge_query"],
            alpha: self.s("alpha"),
            bridge_f_commitment: self.points["bridge_f"],
            u: self.s("u"),
            bridge_eval_commitment: self.points["bridge_eval"],
            pre_beta: self.s("pre_beta"),
            v: self.s("v"),
            coverage: Default::default(),
        }
    }
    fn put(&self, pf: &mut Pf) {
        let mut p = verif::parts(pf);
        for (n, c) in p.bridges.iter_mut() {
            **c = self.points[*n];
        }
        for (n, s) in p.scalars.iter_mut() {
            **s = self.scalars[*n];
        }
    }
    /// The values in the order an instance is written.
    fn written(&self) -> Vec<Fp> {
        order().iter().map(|(n, k)| if *k < 2 { xy(&self.points[*n])[*k] } else { self.scalars[*n] }).collect()
    }
}
/// The order in which an instance is written: name, and coordinate or 2.
fn order() -> &'static Vec<(&'static str, usize)> {
    static O: OnceLock<Vec<(&'static str, usize)>> = OnceLock::new();
    O.get_or_init(|| {
        let g = &mut Gen::from_seed(77, 0);
        let u = Uni::random(g);
        let mut pf = blank();
        u.put(&mut pf);
        let mut dr = Emulator::<ragu_core::drivers::emulator::Wireless<Always<()>, Fp>>::wireless();
        let out = unified::Output::<_, Pasta>::alloc_from_proof(&mut dr, just(&pf)).unwrap();
        let mut v: Vec<Element<'_, _>> = vec![];
        out.write(&mut dr, &mut v).unwrap();
        let names: Vec<(Fp, (&'static str, usize))> = POINTS
            .iter()
            .flat_map(|n| (0..2).map(|k| (xy(&u.points[n])[k], (*n, k))).collect::<Vec<_>>())
            .chain(SCALARS.iter().map(|n| (u.scalars[n], (*n, 2))))
            .collect();
        v.iter().map(|e| names.iter().find(|x| x.0 == *e.value().take()).expect("an instance has other values").1).collect()
    })
}
fn blank() -> Pf {
    thread_local! { static B: Pf = verif::trivial_proof(app()); }
    B.with(|b| b.clone())
}
fn app() -> &'static App<HS0> {
    crate::app::plain()
}

/// A child proof as the preamble has it.
struct Child {
    pf: Pf,
    uni: Uni,
    headers: [Vec<Fp>; 2],
    output: Vec<Fp>,
    id: Fp,
}
fn child(g: &mut Gen, log2: u32, trivial: bool) -> Child {
    let mut pf = blank();
    let uni = Uni::random(g);
    uni.put(&mut pf);
    let headers: [Vec<Fp>; 2] = std::array::from_fn(|_| (0..HS0).map(|_| rand_fe(g)).collect());
    let mut output: Vec<Fp> = (0..HS0).map(|_| rand_fe(g)).collect();
    if trivial {
        output[HS0 - 1] = Fp::ONE;
    }
    let index = CircuitIndex::new(g.usize(0, (1 << log2) - 1));
    {
        let p = verif::parts(&mut pf);
        *p.circuit_id = index;
        for k in 0..2 {
            *p.headers[k] = headers[k].clone();
        }
    }
    Child { pf, uni, headers, output, id: index.omega_j() }
}
fn fixed(v: &[Fp]) -> Header {
    v.iter().copied().collect_fixed().unwrap()
}
fn pre<'a>(l: &'a Child, r: &'a Child) -> preamble::Witness<'a, Pasta, Rk, HS0> {
    preamble::Witness {
        left: preamble::ChildWitness { output_header: fixed(&l.output), proof: &l.pf },
        right: preamble::ChildWitness { output_header: fixed(&r.output), proof: &r.pf },
    }
}
/// The polynomial with these coefficients, highest first, then one more.
fn ky<'a>(y: Fp, v: impl IntoIterator<Item = &'a Fp>) -> Fp {
    v.into_iter().fold(Fp::ZERO, |acc, x| acc * y + x) * y + Fp::ONE
}
impl Child {
    /// Application, unified, and unified with the headers.
    fn kys(&self, y: Fp) -> [Fp; 3] {
        let zero = [Fp::ZERO];
        let u = self.uni.written();
        let [l, r] = &self.headers;
        [
            ky(y, l.iter().chain(r).chain(&self.output)),
            ky(y, u.iter().chain(&zero)),
            ky(y, u.iter().chain(l).chain(r).chain(&zero)),
        ]
    }
}

fn outer(g: &mut Gen, kys: [[Fp; 3]; 2], sponge: &[Fp]) -> outer_error::Witness<Pasta, Q> {
    let [l, r] = kys.map(|[application, unified, unified_bridge]| outer_error::ChildKyValues { application, unified, unified_bridge });
    outer_error::Witness {
        error_terms: FixedVec::from_fn(|_| rand_fe(g)),
        collapsed: FixedVec::from_fn(|_| rand_fe(g)),
        ky: outer_error::KyValues { left: l, right: r },
        sponge_state_elements: sponge.iter().copied().collect_fixed().unwrap(),
    }
}
/// The values a stage has, in the order of its wires.
fn values<S: Stage<Fp, Rk> + Default>(w: S::Witness<'_>) -> Vec<Fp> {
    let mut dr = Emulator::extractor();
    let out = S::default().witness(&mut dr, just(w)).unwrap();
    dr.wires(&out).unwrap()
}
/// The wires of a stage: stages allocate one wire a gate, before all else.
fn wires<S: Stage<Fp, Rk>>() -> Vec<W> {
    let first = 2 * (S::skip_gates() - 1);
    (first..first + S::values()).map(|k| W(2 + 4 * k)).collect()
}
fn place<S: Stage<Fp, Rk>>(dr: &mut D, v: &[Fp]) {
    for (w, x) in wires::<S>().iter().zip(v) {
        dr.vals[w.0] = *x;
    }
}
/// The wires of a stage with these values.
fn named<S: Stage<Fp, Rk>>(v: &[Fp], which: impl IntoIterator<Item = Fp>) -> Vec<W> {
    let ws = wires::<S>();
    which.into_iter().map(|x| ws[v.iter().position(|y| *y == x).expect("a stage lacks a value")]).collect()
}
struct Ran {
    dr: D,
    /// what is output, named as in the instance, then whatever follows
    out: HashMap<(&'static str, usize), W>,
    more: Vec<W>,
}
impl Ran {
    fn of<'w, C: Circuit<Fp>>(c: &C, w: C::Witness<'w>) -> Result<Self, String>
    where
        C::Output: ragu_primitives::io::Write<Fp>,
    {
        let mut dr = D::new();
        let out = c.witness(&mut dr, just(w)).map_err(|e| format!("{e:?}"))?.into_output();
        let mut v: Vec<Element<'_, D>> = vec![];
        out.write(&mut dr, &mut v).map_err(|e| format!("{e:?}"))?;
        let w: Vec<W> = v.iter().map(|e| *e.wire()).collect();
        let n = order().len();
        Ok(Ran { dr, out: order().iter().copied().zip(w.iter().copied()).collect(), more: w[n..].to_vec() })
    }
    fn w(&self, n: &'static str) -> W {
        self.out[&(n, 2)]
    }
    fn point(&self, n: &'static str) -> [W; 2] {
        [self.out[&(n, 0)], self.out[&(n, 1)]]
    }
    fn val(&self, w: W) -> Fp {
        self.dr.value(w)
    }
    /// The instance has the values given except for those that are derived, and
    /// what follows is zero at the end.
    fn instance(&self, u: &Uni, derived: &[&str]) -> R {
        for (k, v) in order().iter().zip(u.written()) {
            if !derived.contains(&k.0) {
                ensure!(self.val(self.out[k]) == v, "{} is not what the instance says", k.0);
            }
        }
        let last = *self.more.last().ok_or("no suffix")?;
        ensure!(self.dr.comb(last).is_empty(), "the suffix is not zero whatever the witness");
        Ok(())
    }
    fn fixed_by(&self, what: &str, ins: &[W], outs: &[W]) -> R {
        match self.dr.free_output(ins, outs) {
            None => Ok(()),
            Some(k) => Err(format!("{what}: output {k} of {} is not determined by what it derives from", outs.len())),
        }
    }
}
fn absorb(t: &mut Plain<Fp, PoseidonFp>, p: &EpAffine) {
    for x in xy(p) {
        t.absorb(x);
    }
}

fn first(g: &mut Gen) -> R {
    let log2 = g.usize(1, 12) as u32;
    let mut kids = [child(g, log2, false), child(g, log2, false)];
    let uni = Uni::random(g);
    let mut t = Plain::<Fp, PoseidonFp>::tagged(poseidon(), b"FIXME");
    absorb(&mut t, &uni.points["bridge_preamble"]);
    let w = t.squeeze();
    absorb(&mut t, &uni.points["bridge_s_prime"]);
    let (y, z) = (t.squeeze(), t.squeeze());
    absorb(&mut t, &uni.points["bridge_inner_error"]);
    let mut sponge = t.saved();
    let mut kys = [kids[0].kys(y), kids[1].kys(y)];
    // one thing that is wrong
    let wrong = if g.chance(1, 4) { 0 } else { g.usize(1, 5) };
    let what = match wrong {
        0 => "nothing".to_string(),
        1 => {
            let (s, k) = (g.usize(0, 1), g.usize(0, 2));
            kys[s][k] += nonzero::<Fp>(g);
            format!("k(y) {k} of child {s}")
        }
        2 => {
            let k = g.usize(0, sponge.len() - 1);
            sponge[k] += nonzero::<Fp>(g);
            format!("element {k} of the state")
        }
        3 => {
            let s = g.usize(0, 1);
            let id = CircuitIndex::new(g.usize(1 << log2, (1 << (log2 + 3)) - 1));
            *verif::parts(&mut kids[s].pf).circuit_id = id;
            format!("circuit {id:?} of child {s} among 2^{log2}")
        }
        4 => {
            let (s, k, i) = (g.usize(0, 1), g.usize(0, 2), g.usize(0, HS0 - 1));
            let d = nonzero::<Fp>(g);
            if k == 2 {
                kids[s].output[i] += d;
            } else {
                verif::parts(&mut kids[s].pf).headers[k][i] += d;
            }
            format!("element {i} of header {k} of child {s}")
        }
        _ => {
            let s = g.usize(0, 1);
            let mut u = kids[s].uni.clone();
            let n = if g.bool() {
                let n = *g.pick(&POINTS);
                u.points.insert(n, a_point(g));
                n
            } else {
                let n = *g.pick(&SCALARS);
                *u.scalars.get_mut(n).unwrap() += nonzero::<Fp>(g);
                n
            };
            u.put(&mut kids[s].pf);
            format!("{n} of child {s}")
        }
    };
    note!(g, "2^{log2} circuits, wrong: {what}");
    g.label(["right", "ky", "state", "circuit", "header", "instance"][wrong]);
    let ow = outer(g, kys, &sponge);
    let pw = pre(&kids[0], &kids[1]);
    let c = hashes_1::Circuit::<Pasta, Rk, HS0, Q>::new(Pasta::baked(), log2);
    let mut r = Ran::of(&c, hashes_1::Witness { unified: uni.instance(), preamble_witness: &pw, outer_error_witness: &ow })?;
    let (pv, ov) = (values::<PreS>(&pw), values::<OutS>(&ow));
    place::<PreS>(&mut r.dr, &pv);
    place::<OutS>(&mut r.dr, &ov);
    if wrong > 0 {
        g.nt(true);
        ensure!(r.dr.satisfied().is_err(), "the first hash circuit holds though {what} is wrong");
        return Ok(());
    }
    r.dr.satisfied().map_err(|e| format!("the first hash circuit does not hold: {e}"))?;
    r.instance(&uni, &["w", "y", "z"])?;
    for (n, x) in [("w", w), ("y", y), ("z", z)] {
        ensure!(r.val(r.w(n)) == x, "{n} is not what the transcript gives");
    }
    let heads: Vec<Fp> = kids.iter().flat_map(|k| k.output.clone()).collect();
    let got: Vec<Fp> = r.more[..r.more.len() - 1].iter().map(|w| r.val(*w)).collect();
    ensure_eq!(got, heads, "the headers output");
    if g.chance(1, 6) {
        g.label("determined");
        g.nt(true);
        let mut ins = wires::<PreS>();
        for p in ["bridge_preamble", "bridge_s_prime", "bridge_inner_error"] {
            ins.extend(r.point(p));
        }
        let mut outs = named::<OutS>(&ov, kys.iter().flatten().copied().chain(sponge));
        outs.extend(["w", "y", "z"].map(|n| r.w(n)));
        outs.extend(&r.more);
        r.fixed_by("the first hash circuit", &ins, &outs)?;
    }
    Ok(())
}
fn second(g: &mut Gen) -> R {
    let uni = Uni::random(g);
    let state: Vec<Fp> = (0..5).map(|_| fe(g)).collect();
    let ow = outer(g, [[Fp::ZERO; 3]; 2], &state);
    let c = hashes_2::Circuit::<Pasta, Rk, HS0, Q>::new(Pasta::baked());
    let mut r = Ran::of(&c, hashes_2::Witness { unified: uni.instance(), outer_error_witness: &ow })?;
    let ov = values::<OutS>(&ow);
    place::<OutS>(&mut r.dr, &ov);
    r.dr.satisfied().map_err(|e| format!("the second hash circuit does not hold: {e}"))?;
    let mut t = Plain::<Fp, PoseidonFp>::resumed(poseidon(), &state);
    let mut want = vec![("mu", t.squeeze()), ("nu", t.squeeze())];
    for (p, outs) in [
        ("bridge_outer_error", &["mu_prime", "nu_prime"][..]),
        ("bridge_ab", &["x"]),
        ("bridge_query", &["alpha"]),
        ("bridge_f", &["u"]),
        ("bridge_eval", &["pre_beta"]),
    ] {
        absorb(&mut t, &uni.points[p]);
        want.extend(outs.iter().map(|o| (*o, t.squeeze())));
    }
    let derived: Vec<&str> = want.iter().map(|x| x.0).collect();
    r.instance(&uni, &derived)?;
    for (n, x) in &want {
        ensure!(r.val(r.w(n)) == *x, "{n} is not what the transcript gives");
    }
    g.nt(true);
    if g.chance(1, 6) {
        g.label("determined");
        let ws = wires::<OutS>();
        let mut ins: Vec<W> = ws[ov.len() - state.len()..].to_vec();
        for p in &POINTS[3..] {
            ins.extend(r.point(p));
        }
        r.fixed_by("the second hash circuit", &ins, &derived_wires(&r, &want))?;
    }
    Ok(())
}
fn derived_wires(r: &Ran, want: &[(&'static str, Fp)]) -> Vec<W> {
    want.iter().map(|x| r.w(x.0)).collect()
}
pub fn hashes() -> Prop {
    Prop {
        id: "T09",
        subs: vec![
            Sub::new("first", first, 900, 12000, "the first hash circuit on made-up children, commitments and stages, three quarters with one thing wrong: a k(y), an element of the saved state, a circuit out of the domain, a header or a value of a child's instance; against a plain transcript and plain evaluation; non-trivial when something is wrong, or what is derived is shown to be determined"),
            Sub::new("second", second, 240, 4000, "the second hash circuit on made-up states and commitments, against a plain transcript; some shown to determine what they derive"),
        ],
        assumptions: &["the saved state is the last thing the outer error stage holds"],
    }
}

/// What one layer folds to.
fn folded<P: Parameters>(mu: Fp, nu: Fp, errors: &[Fp], kys: &[Fp], inner: bool) -> Fp {
    let mut dr = Emulator::<ragu_core::drivers::emulator::Wireless<Always<()>, Fp>>::wireless();
    let dr = &mut dr;
    let e = |dr: &mut _, x: Fp| Element::alloc(dr, just(x)).unwrap();
    let (mu, nu) = (e(dr, mu), e(dr, nu));
    let f = ClaimFolder::new(dr, &mu, &nu).unwrap();
    let c = if inner {
        let er: FixedVec<_, NumErrorTerms<P::GroupSize>> = errors.iter().map(|x| e(dr, *x)).collect::<Vec<_>>().into_iter().collect_fixed().unwrap();
        let k: FixedVec<_, P::GroupSize> = kys.iter().map(|x| e(dr, *x)).collect::<Vec<_>>().into_iter().collect_fixed().unwrap();
        f.fold_inner::<P>(dr, &er, &k)
    } else {
        let er: FixedVec<_, NumErrorTerms<P::NumGroups>> = errors.iter().map(|x| e(dr, *x)).collect::<Vec<_>>().into_iter().collect_fixed().unwrap();
        let k: FixedVec<_, P::NumGroups> = kys.iter().map(|x| e(dr, *x)).collect::<Vec<_>>().into_iter().collect_fixed().unwrap();
        f.fold_outer::<P>(dr, &er, &k)
    };
    let v = *c.unwrap().value().take();
    v
}
/// The order in which claims are made, of plain values.
struct Kys {
    c: [Fp; 2],
    kys: [[Fp; 3]; 2],
}
impl claims::KySource for Kys {
    type Ky = Fp;
    fn raw_c(&self) -> impl Iterator<Item = Fp> {
        self.c.into_iter()
    }
    fn application_ky(&self) -> impl Iterator<Item = Fp> {
        self.kys.map(|k| k[0]).into_iter()
    }
    fn unified_bridge_ky(&self) -> impl Iterator<Item = Fp> {
        self.kys.map(|k| k[2]).into_iter()
    }
    fn unified_ky(&self) -> impl Iterator<Item = Fp> + Clone {
        self.kys.map(|k| k[1]).into_iter()
    }
    fn zero(&self) -> Fp {
        Fp::ZERO
    }
}
fn inner(g: &mut Gen) -> R {
    let kids = [child(g, 5, false), child(g, 5, false)];
    let mut uni = Uni::random(g);
    let mut kys: [[Fp; 3]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| rand_fe(g)));
    let (n, m) = (<Q as Parameters>::NumGroups::len(), <Q as Parameters>::GroupSize::len());
    let mut errors: Vec<Vec<Fp>> = (0..n).map(|_| (0..m * m - m).map(|_| rand_fe(g)).collect()).collect();
    let source = Kys { c: [kids[0].uni.s("c"), kids[1].uni.s("c")], kys };
    let all: Vec<Fp> = claims::ky_values(&source).take(n * m).collect();
    for (k, x) in kys.iter().enumerate().flat_map(|(k, v)| v.iter().chain([&source.c[k]]).map(move |x| (k, x))) {
        ensure!(all.contains(x), "a claim of child {k} is left out");
    }
    let collapsed: Vec<Fp> = (0..n).map(|i| folded::<Q>(uni.s("mu"), uni.s("nu"), &errors[i], &all[i * m..(i + 1) * m], true)).collect();
    let state: Vec<Fp> = (0..5).map(|_| rand_fe(g)).collect();
    let mut ow = outer(g, kys, &state);
    ow.collapsed = collapsed.iter().copied().collect_fixed().unwrap();
    let d = nonzero::<Fp>(g);
    let wrong = if g.chance(1, 4) { 0 } else { g.usize(1, 5) };
    let mut kids = kids;
    let what = match wrong {
        0 => "nothing".to_string(),
        1 => {
            let i = g.usize(0, n - 1);
            ow.collapsed[i] += d;
            format!("collapsed claim {i}")
        }
        2 => {
            let (i, j) = (g.usize(0, n - 1), g.usize(0, m * m - m - 1));
            errors[i][j] += d;
            format!("error term {j} of group {i}")
        }
        3 => {
            let (s, k) = (g.usize(0, 1), g.usize(0, 2));
            kys[s][k] += d;
            let l = &mut if s == 0 { &mut ow.ky.left } else { &mut ow.ky.right };
            *[&mut l.application, &mut l.unified, &mut l.unified_bridge][k] += d;
            format!("k(y) {k} of child {s}")
        }
        4 => {
            let s = g.usize(0, 1);
            let mut u = kids[s].uni.clone();
            *u.scalars.get_mut("c").unwrap() += d;
            u.put(&mut kids[s].pf);
            format!("c of child {s}")
        }
        _ => {
            let n = *g.pick(&["mu", "nu"]);
            *uni.scalars.get_mut(n).unwrap() += d;
            n.to_string()
        }
    };
    note!(g, "wrong: {what}");
    g.label(["right", "collapsed", "error", "ky", "c", "challenge"][wrong]);
    let iw = inner_error::Witness::<Pasta, Q> {
        error_terms: errors.iter().map(|v| v.iter().copied().collect_fixed().unwrap()).collect::<Vec<_>>().into_iter().collect_fixed().unwrap(),
    };
    let pw = pre(&kids[0], &kids[1]);
    let c = inner_collapse::Circuit::<Pasta, Rk, HS0, Q>::new();
    let mut r = Ran::of(&c, inner_collapse::Witness { preamble_witness: &pw, unified: uni.instance(), inner_error_witness: &iw, outer_error_witness: &ow })?;
    let (pv, ov, iv) = (values::<PreS>(&pw), values::<OutS>(&ow), values::<InS>(&iw));
    place::<PreS>(&mut r.dr, &pv);
    place::<OutS>(&mut r.dr, &ov);
    place::<InS>(&mut r.dr, &iv);
    if wrong > 0 {
        g.nt(true);
        ensure!(r.dr.satisfied().is_err(), "the inner collapse holds though {what} is wrong");
        return Ok(());
    }
    r.dr.satisfied().map_err(|e| format!("the inner collapse does not hold: {e}"))?;
    r.instance(&uni, &[])?;
    if g.chance(1, 6) {
        g.label("determined");
        g.nt(true);
        let mut ins = named::<PreS>(&pv, source.c);
        ins.extend(named::<OutS>(&ov, kys.into_iter().flatten()));
        ins.extend(wires::<InS>());
        ins.extend([r.w("mu"), r.w("nu")]);
        r.fixed_by("the inner collapse", &ins, &named::<OutS>(&ov, collapsed))?;
    }
    Ok(())
}
fn outermost(g: &mut Gen) -> R {
    let trivial = [g.bool(), g.bool()];
    let kids = trivial.map(|t| child(g, 5, t));
    let base = trivial == [true; 2];
    let mut uni = Uni::random(g);
    let state: Vec<Fp> = (0..5).map(|_| rand_fe(g)).collect();
    let mut ow = outer(g, [[Fp::ZERO; 3]; 2], &state);
    let (e, k): (Vec<Fp>, Vec<Fp>) = (ow.error_terms.iter().copied().collect(), ow.collapsed.iter().copied().collect());
    let c = folded::<Q>(uni.s("mu_prime"), uni.s("nu_prime"), &e, &k, false);
    uni.scalars.insert("c", c);
    let d = nonzero::<Fp>(g);
    let wrong = if g.chance(1, 4) { 0 } else { g.usize(1, 4) };
    let what = match wrong {
        0 => "nothing".to_string(),
        1 => {
            let x = if g.bool() { Fp::ZERO } else { c + d };
            uni.scalars.insert("c", x);
            "c".into()
        }
        2 => {
            let i = g.usize(0, k.len() - 1);
            ow.collapsed[i] += d;
            format!("collapsed claim {i}")
        }
        3 => {
            let i = g.usize(0, e.len() - 1);
            ow.error_terms[i] += d;
            format!("error term {i}")
        }
        _ => {
            let n = *g.pick(&["mu_prime", "nu_prime"]);
            *uni.scalars.get_mut(n).unwrap() += d;
            n.to_string()
        }
    };
    note!(g, "children trivial: {trivial:?}, wrong: {what}");
    g.label(["right", "c", "collapsed", "error", "challenge"][wrong]);
    if base {
        g.label("base case");
    }
    let pw = pre(&kids[0], &kids[1]);
    let circ = outer_collapse::Circuit::<Pasta, Rk, HS0, Q>::new();
    let mut r = Ran::of(&circ, outer_collapse::Witness { unified: uni.instance(), preamble_witness: &pw, outer_error_witness: &ow })?;
    let (pv, ov) = (values::<PreS>(&pw), values::<OutS>(&ow));
    place::<PreS>(&mut r.dr, &pv);
    place::<OutS>(&mut r.dr, &ov);
    if wrong > 0 && !base {
        g.nt(true);
        ensure!(r.dr.satisfied().is_err(), "the outer collapse holds though {what} is wrong");
        return Ok(());
    }
    r.dr.satisfied().map_err(|e| format!("the outer collapse does not hold, children trivial: {trivial:?}: {e}"))?;
    r.instance(&uni, &[])?;
    if !base && g.chance(1, 6) {
        g.label("determined");
        g.nt(true);
        let mut ins = wires::<PreS>();
        ins.extend(named::<OutS>(&ov, e.into_iter().chain(k)));
        ins.extend([r.w("mu_prime"), r.w("nu_prime")]);
        r.fixed_by("the outer collapse", &ins, &[r.w("c")])?;
    }
    Ok(())
}
pub fn collapses() -> Prop {
    Prop {
        id: "T10",
        subs: vec![
            Sub::new("inner", inner, 1200, 20000, "the inner collapse on made-up claims, error terms and challenges, three quarters with one of them, or what they collapse to, wrong; non-trivial when something is wrong, or what is derived is shown to be determined"),
            Sub::new("outer", outermost, 2400, 30000, "the outer collapse on made-up groups, error terms and challenges, of children that are trivial or not, three quarters with one of them, or the claim, wrong: it holds exactly when nothing is or both children are trivial; non-trivial when something is wrong, or what is derived is shown to be determined"),
        ],
        assumptions: &["folding itself is decided by T06 and is used to say what is right"],
    }
}

/// One child's answers, or the polynomials' values at u.
fn rxs(g: &mut Gen) -> RxValues<Fp> {
    RxValues::from_fn(|_| rand_fe(g))
}
struct Ask {
    pre: [Child; 2],
    uni: Uni,
    q: query::Witness<Pasta>,
    e: eval::Witness<Fp>,
}
fn ask(g: &mut Gen) -> Ask {
    fn qc(g: &mut Gen) -> query::ChildEvaluationsWitness<Fp> {
        query::ChildEvaluationsWitness {
            rx: rxs(g),
            a_poly_at_xz: rand_fe(g),
            b_poly_at_x: rand_fe(g),
            child_registry_xy_at_current_w: rand_fe(g),
            current_registry_xy_at_child_circuit_id: rand_fe(g),
            current_registry_wy_at_child_x: rand_fe(g),
        }
    }
    fn ec(g: &mut Gen) -> eval::ChildEvaluationsWitness<Fp> {
        eval::ChildEvaluationsWitness { rx: rxs(g), a_poly: rand_fe(g), b_poly: rand_fe(g), registry_xy_poly: rand_fe(g), p_poly: rand_fe(g) }
    }
    Ask {
        pre: [child(g, 5, false), child(g, 5, false)],
        uni: Uni::random(g),
        q: query::Witness { fixed_registry: InternalCircuitValues::from_fn(|_| rand_fe(g)), registry_wxy: rand_fe(g), left: qc(g), right: qc(g) },
        e: eval::Witness {
            left: ec(g),
            right: ec(g),
            current: eval::CurrentStepWitness {
                registry_wx0: rand_fe(g),
                registry_wx1: rand_fe(g),
                registry_wy: rand_fe(g),
                a_poly: rand_fe(g),
                b_poly: rand_fe(g),
                registry_xy: rand_fe(g),
            },
        },
    }
}
struct Answers<'a>(&'a query::Witness<Pasta>);
impl verif::claims::Source for Answers<'_> {
    type RxComponent = RxComponent;
    type Rx = Fp;
    type AppCircuitId = Fp;
    fn rx(&self, c: RxComponent) -> impl Iterator<Item = Fp> {
        [&self.0.left, &self.0.right]
            .map(|q| match c {
                RxComponent::AbA => q.a_poly_at_xz,
                RxComponent::AbB => q.b_poly_at_x,
                RxComponent::Rx(i) => *q.rx.get(i),
            })
            .into_iter()
    }
    fn app_circuits(&self) -> impl Iterator<Item = Fp> {
        [&self.0.left, &self.0.right].map(|q| q.current_registry_xy_at_child_circuit_id).into_iter()
    }
}
struct Axbx<'a> {
    reg: &'a InternalCircuitValues<Fp>,
    z: Fp,
    t: Fp,
    ab: Vec<(Fp, Fp)>,
}
impl claims::Processor<Fp, Fp> for Axbx<'_> {
    fn raw_claim(&mut self, a: Fp, b: Fp) {
        self.ab.push((a, b));
    }
    fn circuit(&mut self, s: Fp, rx: Fp) {
        self.ab.push((rx, rx + s + self.t));
    }
    fn internal_circuit(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = Fp>) {
        let rx: Fp = rxs.sum();
        self.ab.push((rx, rx + *self.reg.get(id) + self.t));
    }
    fn bonding(&mut self, id: InternalCircuitIndex, rxs: impl Iterator<Item = Fp>) -> ragu_core::Result<()> {
        let a = rxs.fold(Fp::ZERO, |acc, x| acc * self.z + x);
        self.ab.push((a, *self.reg.get(id)));
        Ok(())
    }
}
/// a and b at a point, from what they are folded from.
fn two_layers(v: &[Fp], s1: Fp, s2: Fp) -> Fp {
    let (n, m) = (<Q as Parameters>::NumGroups::len(), <Q as Parameters>::GroupSize::len());
    let fold = |v: &[Fp], n: usize, s: Fp| (0..n).fold(Fp::ZERO, |acc, i| acc * s + v.get(i).copied().unwrap_or(Fp::ZERO));
    let groups: Vec<Fp> = (0..n).map(|i| fold(v.get(i * m..).map_or(&[][..], |v| &v[..v.len().min(m)]), m, s1)).collect();
    fold(&groups, n, s2)
}
impl Ask {
    fn v(&self) -> Result<Fp, String> {
        let pw = pre(&self.pre[0], &self.pre[1]);
        let w = compute_v::Witness { unified: self.uni.instance(), preamble_witness: &pw, query_witness: &self.q, eval_witness: &self.e };
        let c = compute_v::Circuit::<Pasta, Rk, HS0>::new();
        let mut dr = Emulator::<ragu_core::drivers::emulator::Wireless<Always<()>, Fp>>::wireless();
        let out = c.witness(&mut dr, just(w)).map_err(|e| format!("{e:?}"))?.into_output();
        let mut v: Vec<Element<'_, _>> = vec![];
        out.write(&mut dr, &mut v).map_err(|e| format!("{e:?}"))?;
        let k = order().iter().position(|n| n.0 == "v").unwrap();
        let x = *v[k].value().take();
        Ok(x)
    }
    fn axbx(&self) -> (Fp, Fp) {
        let s = |n: &str| self.uni.s(n);
        let t = Rk::txz(s("x"), s("z"));
        let mut p = Axbx { reg: &self.q.fixed_registry, z: s("z"), t, ab: vec![] };
        claims::build(&Answers(&self.q), &mut p).unwrap();
        let (a, b): (Vec<Fp>, Vec<Fp>) = p.ab.into_iter().unzip();
        let inv = |x: Fp| x.invert().unwrap();
        (
            two_layers(&a, inv(s("mu")), inv(s("mu_prime"))),
            two_layers(&b, s("mu") * s("nu"), s("mu_prime") * s("nu_prime")),
        )
    }
    /// All that has to be a polynomial: value at u, value claimed, and where.
    fn queries(&self) -> Vec<(String, Fp, Fp, Fp)> {
        let s = |n: &str| self.uni.s(n);
        let (q, e) = (&self.q, &self.e);
        let cur = &e.current;
        let (x, y, w, xz) = (s("x"), s("y"), s("w"), s("x") * s("z"));
        let (ax, bx) = self.axbx();
        let mut v: Vec<(String, Fp, Fp, Fp)> = vec![
            ("registry_wy at x".into(), cur.registry_wy, q.registry_wxy, x),
            ("registry_xy at w".into(), cur.registry_xy, q.registry_wxy, w),
            ("a at xz".into(), cur.a_poly, ax, xz),
            ("b at x".into(), cur.b_poly, bx, x),
        ];
        for (k, (q, e, wx)) in [(&q.left, &e.left, cur.registry_wx0), (&q.right, &e.right, cur.registry_wx1)].into_iter().enumerate() {
            let c = &self.pre[k];
            v.push((format!("p of child {k}"), e.p_poly, c.uni.s("v"), c.uni.s("u")));
            v.push((format!("registry_xy of child {k} at w"), e.registry_xy_poly, q.child_registry_xy_at_current_w, w));
            v.push((format!("registry_wx of child {k} at its y"), wx, q.child_registry_xy_at_current_w, c.uni.s("y")));
            v.push((format!("registry_wx of child {k} at y"), wx, q.current_registry_wy_at_child_x, y));
            v.push((format!("registry_wy at x of child {k}"), cur.registry_wy, q.current_registry_wy_at_child_x, c.uni.s("x")));
            v.push((format!("registry_xy at circuit of child {k}"), cur.registry_xy, q.current_registry_xy_at_child_circuit_id, c.id));
            v.push((format!("a of child {k} at xz"), e.a_poly, q.a_poly_at_xz, xz));
            v.push((format!("b of child {k} at x"), e.b_poly, q.b_poly_at_x, x));
            for i in RxIndex::ALL {
                v.push((format!("{i:?} of child {k} at xz"), *e.rx.get(i), *q.rx.get(i), xz));
            }
        }
        for i in InternalCircuitIndex::ALL {
            v.push((format!("registry_xy at {i:?}"), cur.registry_xy, *q.fixed_registry.get(i), i.circuit_index().omega_j()));
        }
        v
    }
    /// What v has to be apart from the quotients, and what these are scaled by.
    fn rest(&self) -> (Fp, Fp) {
        let beta: Fp = ragu_primitives::lift_endoscalar(ragu_primitives::extract_endoscalar(self.uni.s("pre_beta")));
        let mut dr = Emulator::<ragu_core::drivers::emulator::Wireless<Always<()>, Fp>>::wireless();
        let out = EvS::default().witness(&mut dr, just(&self.e)).unwrap();
        let mut v: Vec<Element<'_, _>> = vec![];
        out.write(&mut dr, &mut v).unwrap();
        let n = v.len();
        (v.iter().fold(Fp::ZERO, |acc, x| acc * beta + *x.value().take()), beta.pow_vartime([n as u64]))
    }
}
/// The coefficients of the polynomial of least degree through the points.
fn interpolate(pts: &[(Fp, Fp)]) -> Vec<Fp> {
    // Newton's differences
    let n = pts.len();
    let mut d: Vec<Fp> = pts.iter().map(|p| p.1).collect();
    for k in 1..n {
        for i in (k..n).rev() {
            d[i] = (d[i] - d[i - 1]) * (pts[i].0 - pts[i - k].0).invert().unwrap();
        }
    }
    let mut c = vec![Fp::ZERO; n];
    for i in (0..n).rev() {
        // c = c * (X - x_i) + d_i
        for j in (0..n).rev() {
            c[j] = (if j > 0 { c[j - 1] } else { Fp::ZERO }) - c[j] * pts[i].0;
        }
        c[0] += d[i];
    }
    c
}
fn quotients(g: &mut Gen) -> R {
    let mut a = ask(g);
    let want = a.queries();
    let (rest, scale) = a.rest();
    let inv = scale.invert().unwrap();
    let pts: Vec<(Fp, Fp)> = (0..want.len() + 3)
        .map(|_| {
            let alpha = rand_fe(g);
            a.uni.scalars.insert("alpha", alpha);
            a.v().map(|v| (alpha, (v - rest) * inv))
        })
        .collect::<Result<_, _>>()?;
    let mut got = interpolate(&pts);
    g.nt(true);
    note!(g, "{} queries", want.len());
    let u = a.uni.s("u");
    for (n, pu, v, x) in &want {
        let q = (*pu - v) * (u - x).invert().unwrap();
        let k = got.iter().position(|c| *c == q).ok_or(format!("v does not bind {n}"))?;
        got[k] = Fp::ZERO;
    }
    ensure!(got.iter().all(|c| *c == Fp::ZERO), "v has more to it than the queries");
    Ok(())
}
fn derived_v(g: &mut Gen) -> R {
    let a = ask(g);
    let pw = pre(&a.pre[0], &a.pre[1]);
    let c = compute_v::Circuit::<Pasta, Rk, HS0>::new();
    let mut r = Ran::of(&c, compute_v::Witness { unified: a.uni.instance(), preamble_witness: &pw, query_witness: &a.q, eval_witness: &a.e })?;
    let pv = values::<PreS>(&pw);
    place::<PreS>(&mut r.dr, &pv);
    place::<QueS>(&mut r.dr, &values::<QueS>(&a.q));
    place::<EvS>(&mut r.dr, &values::<EvS>(&a.e));
    r.dr.satisfied().map_err(|e| format!("compute_v does not hold: {e}"))?;
    r.instance(&a.uni, &["v"])?;
    ensure!(r.val(r.w("v")) == a.v()?, "v is another in the circuit");
    g.nt(true);
    if g.chance(1, 4) {
        g.label("determined");
        // points of the children are on the curve: y follows from x
        let ys: Vec<Fp> = a.pre.iter().flat_map(|c| c.uni.points.values().map(|p| xy(p)[1]).collect::<Vec<_>>()).collect();
        let outs = named::<PreS>(&pv, ys);
        let mut ins: Vec<W> = wires::<PreS>().into_iter().filter(|w| !outs.contains(w)).collect();
        ins.extend(wires::<QueS>());
        ins.extend(wires::<EvS>());
        ins.extend(SCALARS.iter().filter(|n| !["v", "c"].contains(n)).map(|n| r.w(n)));
        let outs: Vec<W> = outs.into_iter().chain([r.w("v")]).collect();
        r.fixed_by("compute_v", &ins, &outs)?;
    }
    Ok(())
}
/// Points that coincide have no quotient, and then nothing holds.
fn coincide(g: &mut Gen) -> R {
    let mut a = ask(g);
    let u = a.uni.s("u");
    let s = g.usize(0, 1);
    let what = match g.below(6) {
        0 => {
            a.uni.scalars.insert("w", u);
            "w".to_string()
        }
        1 => {
            a.uni.scalars.insert("x", u);
            "x".into()
        }
        2 => {
            a.uni.scalars.insert("y", u);
            "y".into()
        }
        3 => {
            let i = *g.pick(&InternalCircuitIndex::ALL);
            a.uni.scalars.insert("u", i.circuit_index().omega_j());
            format!("the point of {i:?}")
        }
        4 => {
            let id = a.pre[s].id;
            a.uni.scalars.insert("u", id);
            format!("the circuit of child {s}")
        }
        _ => {
            let n = *g.pick(&["u", "y", "x"]);
            let x = a.pre[s].uni.s(n);
            a.uni.scalars.insert("u", x);
            format!("{n} of child {s}")
        }
    };
    note!(g, "u is {what}");
    g.nt(true);
    let pw = pre(&a.pre[0], &a.pre[1]);
    let c = compute_v::Circuit::<Pasta, Rk, HS0>::new();
    let r = Ran::of(&c, compute_v::Witness { unified: a.uni.instance(), preamble_witness: &pw, query_witness: &a.q, eval_witness: &a.e });
    if let Ok(mut r) = r {
        place::<PreS>(&mut r.dr, &values::<PreS>(&pw));
        place::<QueS>(&mut r.dr, &values::<QueS>(&a.q));
        place::<EvS>(&mut r.dr, &values::<EvS>(&a.e));
        ensure!(r.dr.satisfied().is_err(), "compute_v holds though u is {what}");
    }
    Ok(())
}
pub fn evaluation() -> Prop {
    Prop {
        id: "T11",
        subs: vec![
            Sub::new("quotients", quotients, 60, 1000, "made-up answers and values: v as a polynomial in alpha, interpolated, has exactly the quotients of all queries of the protocol as its coefficients, a and b being folded from the answers"),
            Sub::new("derived", derived_v, 240, 4000, "the circuit holds and outputs that v; v and the children's points being on the curve are shown to be determined"),
            Sub::new("coincide", coincide, 160, 3000, "u is one of the points asked at: the circuit does not hold"),
        ],
        assumptions: &["the order in which claims are folded is the prover's, as its own code gives it; T02 and T03 decide that all are there"],
    }
}

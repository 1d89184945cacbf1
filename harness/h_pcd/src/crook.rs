//! Steps whose witness breaks the rules of gates and constraints in ways that
//! cancel out for some choice of the verifier's randomness.
use crate::app::*;
use ff::{Field, PrimeField};
use pasta_curves::Fp;
use ragu_arithmetic::Coeff;
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    maybe::Maybe,
};
use ragu_pasta::Pasta;
use ragu_pcd::step::{Encoded, Index, Step};
use ragu_primitives::Element;
use vcs::{VRng, rand_fe};
use vlib::{Gen, R, catches, ensure, note};

const GATES: usize = 4;
const ZEROS: usize = 4;
/// Gates, and values that ought to be zero.
type Wit = ([[Fp; 4]; GATES], [Fp; ZEROS]);

pub struct Crooked;
impl Step<Pasta> for Crooked {
    const INDEX: Index = Index::new(0);
    type Witness<'source> = Wit;
    type Aux<'source> = ();
    type Left = ();
    type Right = ();
    type Output = HEl;
    #[allow(clippy::type_complexity)]
    fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const HS: usize>(
        &self,
        dr: &mut D,
        w: DriverValue<D, Wit>,
        l: DriverValue<D, ()>,
        r: DriverValue<D, ()>,
    ) -> Result<(
        (Encoded<'dr, D, (), HS>, Encoded<'dr, D, (), HS>, Encoded<'dr, D, HEl, HS>),
        DriverValue<D, Fp>,
        DriverValue<D, ()>,
    )>
    where
        Self: 'dr,
    {
        let (l, r) = (Encoded::new(dr, l)?, Encoded::new(dr, r)?);
        let mut zeros = vec![];
        for i in 0..ZEROS {
            zeros.push(Element::alloc(dr, w.as_ref().map(|w| w.1[i]))?);
        }
        for i in 0..GATES {
            dr.gate(|| {
                let [a, b, c, d] = w.as_ref().take().0[i].map(Coeff::Arbitrary);
                Ok((a, b, c, d))
            })?;
        }
        for z in &zeros {
            z.enforce_zero(dr)?;
        }
        let e = Element::alloc(dr, w.as_ref().map(|w| w.0[0][0]))?;
        let d = e.value().map(|v| *v);
        Ok(((l, r, Encoded::from_gadget(e)), d, D::unit()))
    }
}

fn fair(g: &mut Gen) -> [Fp; 4] {
    let (a, b) = (rand_fe(g), rand_fe(g));
    match g.below(3) {
        0 => [a, Fp::ZERO, Fp::ZERO, rand_fe(g)],
        1 => [Fp::ZERO, b, Fp::ZERO, rand_fe(g)],
        _ => [a, b, a * b, Fp::ZERO],
    }
}
/// What the weights of neighbouring rules could be in proportion to each other.
fn ratio(g: &mut Gen) -> Fp {
    match g.below(8) {
        0 | 1 => Fp::ONE,
        2 => -Fp::ONE,
        3 => Fp::from(2),
        4 => Fp::TWO_INV,
        5 => Fp::ROOT_OF_UNITY.pow_vartime([1 << g.below(31)]),
        6 => Fp::from(g.u64()),
        _ => Fp::ZERO,
    }
}
pub fn crooked(g: &mut Gen) -> R {
    let app = crook();
    let mut w: Wit = ([(); GATES].map(|_| fair(g)), [Fp::ZERO; ZEROS]);
    // an honest one every now and then
    if g.index >= 10 && g.chance(1, 8) {
        note!(g, "honest");
        g.label("honest");
        let p = app.seed(&mut VRng::of(g), Crooked, w).map_err(|e| format!("{e}"))?.0;
        ensure!(matches!(app.verify(&p, VRng::of(g)), Ok(true)), "an honest proof does not verify");
        return Ok(());
    }
    let e = rand_fe::<Fp>(g);
    // the plainest ways first
    let at_first = (g.index < 10).then_some(g.index as usize);
    let q = at_first.map_or_else(|| ratio(g), |i| [Fp::ONE, -Fp::ONE, Fp::from(2), Fp::TWO_INV, Fp::ZERO][i / 2]);
    let k = at_first.map_or_else(|| g.usize(1, 4), |_| 2);
    let mut at: Vec<usize> = (0..4).collect();
    g.shuffle(&mut at);
    let broken = |x: &mut [Fp; 4], e: Fp, second: bool| {
        if second {
            // of the second kind: c d = e
            *x = [Fp::ONE, Fp::ONE, Fp::ONE, e];
        } else {
            *x = [x[0], x[1], x[0] * x[1] + e, Fp::ZERO];
        }
    };
    // errors that add up to nothing, each so many times the one before
    let mut errs = [Fp::ZERO; 4];
    if k == 1 {
        errs[at[0]] = e;
    } else {
        // chosen, but for one that makes up for the others
        let mut sum = Fp::ZERO;
        let r = |i: usize| q.pow_vartime([i as u64]);
        for &i in &at[1..k] {
            errs[i] = rand_fe(g);
            sum += errs[i] * r(i);
        }
        errs[at[0]] = match Option::<Fp>::from(r(at[0]).invert()) {
            Some(v) => -sum * v,
            None => rand_fe(g),
        };
    }
    let kind = at_first.map_or_else(|| g.below(5), |i| (i as u64 % 2) * 2);
    let what = match kind {
        0 | 1 => {
            let second = at_first.is_none() && g.chance(1, 3);
            for i in 0..GATES {
                if errs[i] != Fp::ZERO {
                    broken(&mut w.0[i], errs[i], second);
                }
            }
            if second { "c d = 0 broken" } else { "a b = c broken" }
        }
        2 | 3 => {
            w.1 = errs;
            "constraints broken"
        }
        _ => {
            // one of each, opposed
            let (i, j) = (g.usize(0, 3), g.usize(0, 3));
            broken(&mut w.0[i], e, g.bool());
            w.1[j] = if g.bool() { e } else { -e };
            "a gate and a constraint broken"
        }
    };
    note!(g, "{what}, {k} errors cancelling at {q:?}");
    g.nt(true);
    let p = match catches(|| app.seed(&mut VRng::of(g), Crooked, w)) {
        Ok(Ok(p)) => p.0,
        _ => {
            g.label("no proof");
            return Ok(());
        }
    };
    let r = catches(|| app.verify(&p, VRng::of(g)));
    ensure!(!matches!(r, Ok(Ok(true))), "a proof of a step with {what} is accepted (errors that cancel at {q:?})");
    if g.chance(1, 4) {
        let r = catches(|| app.rerandomize(p, &mut VRng::of(g)).and_then(|p| app.verify(&p, VRng::of(g))));
        ensure!(!matches!(r, Ok(Ok(true))), "the rerandomization of a proof of a step with {what} is accepted");
        g.label("rerandomized");
    }
    Ok(())
}

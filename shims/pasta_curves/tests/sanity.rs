use ff::*;
use group::{Curve, Group, GroupEncoding, WnafBase, WnafScalar, prime::PrimeCurveAffine};
use pasta_curves::arithmetic::*;
use pasta_curves::*;

fn fields<F: PrimeField + WithSmallOrderMulGroup<3>>() {
    assert_eq!(F::TWO_INV.double(), F::ONE);
    assert_eq!(F::ROOT_OF_UNITY.pow([1u64 << 32]), F::ONE);
    assert_ne!(F::ROOT_OF_UNITY.pow([1u64 << 31]), F::ONE);
    assert_eq!(F::ROOT_OF_UNITY * F::ROOT_OF_UNITY_INV, F::ONE);
    assert_eq!(F::MULTIPLICATIVE_GENERATOR, F::from(5));
    assert_eq!(F::DELTA, F::from(5).pow([1u64 << 32]));
    assert_eq!(F::ZETA.cube(), F::ONE);
    assert_ne!(F::ZETA, F::ONE);
    let mut x = F::from(3);
    for _ in 0..200 {
        x = x.square() + F::DELTA;
        assert_eq!(x * x.invert().unwrap(), F::ONE);
        assert_eq!(x - x, F::ZERO);
        assert_eq!(-x + x, F::ZERO);
        assert_eq!(F::from_repr(x.to_repr()).unwrap(), x);
        let s = x.square().sqrt().unwrap();
        assert!(s == x || s == -x);
        assert!(bool::from((x.square() * F::MULTIPLICATIVE_GENERATOR).sqrt().is_none()));
    }
    assert_eq!(F::ZERO.sqrt().unwrap(), F::ZERO);
    assert_eq!(F::from_u128((7u128 << 64) + 5), F::from(7) * F::from(2).pow([64]) + F::from(5));
}

fn curve<C: CurveExt>() {
    let g = C::generator();
    assert!(bool::from(g.is_on_curve()));
    let mut p = g;
    let mut acc = C::identity();
    for i in 0u64..40 {
        assert_eq!(acc, g * C::ScalarExt::from(i));
        assert_eq!(acc.to_affine().to_curve(), acc);
        acc += g;
        p = p.double() + g;
        assert!(bool::from(p.is_on_curve()));
        assert_eq!(p.endo(), p * C::ScalarExt::ZETA);
        assert_eq!(p - p, C::identity());
        assert_eq!(p + p, p.double());
        assert_eq!(C::from_bytes(&p.to_bytes()).unwrap(), p);
        let s = C::ScalarExt::DELTA * C::ScalarExt::from(i);
        assert_eq!(&WnafBase::<C, 4>::new(p) * &WnafScalar::<_, 4>::new(&s), p * s);
        assert_eq!(&WnafBase::<C, 4>::new(p) * &WnafScalar::<_, 4>::new(&-s), -(p * s));
    }
    assert_eq!(g * (-C::ScalarExt::ONE), -g);
    let h = C::hash_to_curve("x");
    assert!(bool::from(h(b"a").is_on_curve()));
    assert_ne!(h(b"a"), h(b"b"));
    let _ = C::AffineExt::identity();
}

#[test]
fn all() {
    fields::<Fp>();
    fields::<Fq>();
    curve::<Ep>();
    curve::<Eq>();
    // RFC 7693 appendix A
    let h = blake2b_simd::blake2b(b"abc").to_hex();
    assert!(h.starts_with("ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d1"));
}

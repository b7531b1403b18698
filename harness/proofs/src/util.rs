use ff::{Field, PrimeField};
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use group::{Curve, Group as _};
use num_bigint::BigUint;
use vh_common::G;
pub use vh_lab::Rng;

/// field element with weight on special values
pub fn fe<F: FieldExt>(g: &mut G) -> F {
    match g.below(12) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 | 4 => F::from(g.below(300)),
        5 => -F::from(g.below(300)),
        6 => F::from(1u64 << g.below(64)).square(),
        _ => rnd(g),
    }
}
pub fn rnd<F: FieldExt>(g: &mut G) -> F {
    F::random(Rng(g.xo()))
}
pub fn nz<F: FieldExt>(g: &mut G) -> F {
    let v = fe::<F>(g);
    if bool::from(v.is_zero()) {
        F::from(7)
    } else {
        v
    }
}
pub fn fes<F: FieldExt>(g: &mut G, n: usize) -> Vec<F> {
    // long vectors are expanded from one draw so that tapes stay short
    if n <= 12 {
        (0..n).map(|_| fe(g)).collect()
    } else {
        let mut r = Rng(g.xo());
        use rand_core::RngCore;
        (0..n)
            .map(|_| match r.next_u32() % 8 {
                0 => F::zero(),
                1 => F::one(),
                2 => -F::one(),
                3 => F::from(r.next_u32() as u64),
                _ => F::random(&mut r),
            })
            .collect()
    }
}
pub fn big<F: PrimeField>(f: &F) -> BigUint {
    BigUint::from_bytes_le(f.to_repr().as_ref())
}
/// scalar multiplication by plain double and add
pub fn mul<C: CurveAffine>(p: C, s: &C::ScalarExt) -> C::CurveExt {
    let k = big(s);
    let mut acc = C::CurveExt::identity();
    for i in (0..k.bits()).rev() {
        acc = acc.double();
        if k.bit(i) {
            acc += p;
        }
    }
    acc
}
/// curve point with weight on special ones; never the identity
pub fn pt<C: CurveAffine>(g: &mut G) -> C {
    let base = C::generator();
    match g.below(6) {
        0 => base,
        1 => (-base.to_curve()).to_affine(),
        2 => base.to_curve().double().to_affine(),
        _ => {
            let s = nz::<C::ScalarExt>(g);
            (base * s).to_affine()
        }
    }
}
pub fn pow<F: Field>(b: F, mut e: u64) -> F {
    let mut r = F::one();
    let mut b = b;
    while e > 0 {
        if e & 1 == 1 {
            r *= b;
        }
        b = b.square();
        e >>= 1;
    }
    r
}
/// sum c_i x^i, low to high
pub fn ev<F: Field>(c: &[F], x: F) -> F {
    let mut p = F::one();
    let mut s = F::zero();
    for a in c {
        s += *a * p;
        p *= x;
    }
    s
}

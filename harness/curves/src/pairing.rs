//! C25: pairing laws.
use crate::ext::*;
use crate::fields::*;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2curves::bn256::{multi_miller_loop, pairing, Bn256, Fr, G1Affine, G2Affine, G2Prepared, Gt, G1, G2};
use halo2curves::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use vh_common::bigref::*;
use vh_common::*;

fn sc(g: &mut G) -> BigUint {
    match g.below(8) {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => bnr() - 1u32,
        3 => BigUint::from(g.below(1000)),
        _ => edge_int(g, bnr()),
    }
}
fn p1(k: &BigUint) -> G1Affine {
    (G1::generator() * fe::<Fr>(k)).to_affine()
}
fn p2(k: &BigUint) -> G2Affine {
    (G2::generator() * fe::<Fr>(k)).to_affine()
}
fn gt_pow(base: &Gt, k: &BigUint) -> Gt {
    let mut acc = Gt::identity();
    for i in (0..k.bits()).rev() {
        acc = acc.double();
        if k.bit(i) {
            acc = acc + base;
        }
    }
    acc
}

fn bilinear(g: &mut G) -> R {
    let (a, b) = (sc(g), sc(g));
    g.desc(|| format!("e([{:x}]G1,[{:x}]G2)", a, b));
    if a.is_zero() || b.is_zero() {
        g.class("identity");
    } else {
        g.nontrivial();
    }
    let e0 = pairing(&G1Affine::generator(), &G2Affine::generator());
    ensure!(!bool::from(e0.is_identity()), "pairing degenerate on generators");
    let got = pairing(&p1(&a), &p2(&b));
    let ab = mulm(&a, &b, bnr());
    ensure!(got == gt_pow(&e0, &ab), "e(aG,bH) != e(G,H)^(ab), a=0x{:x} b=0x{:x}", a, b);
    ensure_eq!(bool::from(got.is_identity()), ab.is_zero(), "degeneracy a=0x{:x} b=0x{:x}", a, b);
    ensure!(got == e0 * fe::<Fr>(&ab), "Gt scalar multiplication");
    ensure!(got == pairing(&p1(&ab), &G2Affine::generator()), "e(abG,H)");
    ensure!(got == Bn256::pairing(&p1(&a), &p2(&b)), "Engine::pairing");
    ensure!(got == p1(&a).pairing_with(&p2(&b)), "G1 pairing_with");
    ensure!(got == p2(&b).pairing_with(&p1(&a)), "G2 pairing_with");
    // additivity
    let c = sc(g);
    let s = addm(&a, &c, bnr());
    ensure!(pairing(&p1(&s), &p2(&b)) == got + pairing(&p1(&c), &p2(&b)), "additive in the first argument");
    let s = addm(&b, &c, bnr());
    ensure!(pairing(&p1(&a), &p2(&s)) == got + pairing(&p1(&a), &p2(&c)), "additive in the second argument");
    // inverses
    ensure!(pairing(&-p1(&a), &p2(&b)) == -got, "negation");
    ensure!(bool::from((got - got).is_identity()), "x - x");
    ensure!(gt_pow(&got, bnr()) == Gt::identity(), "order of the target group");
    let k = sc(g);
    ensure!(got * fe::<Fr>(&k) == gt_pow(&got, &k), "Gt mul");
    let mut t = got;
    t *= fe::<Fr>(&k);
    ensure!(t == gt_pow(&got, &k), "Gt mul_assign");
    ensure!(got.double() == got + got, "double");
    let sum: Gt = [got, e0, got].iter().sum();
    ensure!(sum == got + e0 + got, "sum");
    g.evals(16);
    Ok(())
}

fn multi(g: &mut G) -> R {
    let n = g.usize(6);
    let v: Vec<(BigUint, BigUint)> = (0..n).map(|_| (sc(g), sc(g))).collect();
    g.desc(|| format!("multi pairing {:?}", v.iter().map(|(a, b)| format!("{:x}*{:x}", a, b)).collect::<Vec<_>>()));
    if n != 1 || v.iter().any(|(a, b)| a.is_zero() || b.is_zero()) {
        g.nontrivial();
    }
    let pts: Vec<(G1Affine, G2Prepared)> = v.iter().map(|(a, b)| (p1(a), G2Prepared::from(p2(b)))).collect();
    for ((_, b), (_, q)) in v.iter().zip(&pts) {
        ensure_eq!(q.is_zero(), b.is_zero(), "prepared identity");
    }
    let refs: Vec<(&G1Affine, &G2Prepared)> = pts.iter().map(|(a, b)| (a, b)).collect();
    let got = multi_miller_loop(&refs).final_exponentiation();
    let got2 = Bn256::multi_miller_loop(&refs).final_exponentiation();
    let mut e = BigUint::zero();
    for (a, b) in &v {
        e = addm(&e, &mulm(a, b, bnr()), bnr());
    }
    let e0 = pairing(&G1Affine::generator(), &G2Affine::generator());
    let want = gt_pow(&e0, &e);
    ensure!(got == want, "multi pairing differs from the product of pairings");
    ensure!(got2 == want, "engine multi pairing");
    // a vanishing combination is recognised
    let mut v2 = pts.clone();
    let (a, b) = (sc(g), sc(g));
    v2.push((p1(&a), G2Prepared::from(p2(&b))));
    let ne = subm(&BigUint::zero(), &addm(&e, &mulm(&a, &b, bnr()), bnr()), bnr());
    v2.push((p1(&ne), G2Prepared::from(G2Affine::generator())));
    let refs: Vec<(&G1Affine, &G2Prepared)> = v2.iter().map(|(a, b)| (a, b)).collect();
    ensure!(bool::from(multi_miller_loop(&refs).final_exponentiation().is_identity()), "vanishing product not the identity");
    Ok(())
}

pub fn c25() -> Check {
    Check {
        id: "C25",
        rule: "bilinearity cases with both scalars non-zero, and multi-pairings with several terms or an identity operand",
        assumptions: vec!["group exponents are reduced with num-bigint"],
        laws: vec![Law::new("bilinear", 700, 15_000, bilinear).shrink(40), Law::new("multi", 700, 15_000, multi).shrink(40)],
    }
}

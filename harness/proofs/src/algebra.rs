//! C16 evaluation domains, C17 polynomial and curve helpers, C19 deferred fractions.
use crate::util::*;
use ff::Field;
use group::{Curve, Group as _};
use halo2_proofs::arithmetic::*;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::Assigned;
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use halo2curves::{bn256, pasta, secp256k1};
use num_bigint::BigUint;
use vh_common::*;

// ------------------------------------------------------------------ C16

/// primitive 2^k-th root of unity, computed from the documented generator of the two-adic part
fn root<F: FieldExt>(k: u32) -> F {
    let mut w = F::root_of_unity();
    for _ in k..F::S {
        w = w.square();
    }
    w
}

fn dom_size(g: &mut G, small: bool) -> (u32, u32) {
    let k = if small { g.range(0, 4) } else { g.range(0, 7) } as u32;
    let jmax = if k > 5 { 6 } else { 12 };
    let j = g.range(2, jmax) as u32;
    (j, k)
}

fn dom_constants<F: FieldExt + Group<Scalar = F>>(g: &mut G) -> R {
    let (j, k) = (g.range(1, 20) as u32, g.range(0, 16) as u32);
    g.desc(|| format!("constants j={j} k={k}"));
    g.nontrivial();
    let d = EvaluationDomain::<F>::new(j, k);
    let n = 1u64 << k;
    ensure_eq!(d.k(), k, "k");
    let mut ek = k;
    while (1u64 << ek) < n * (j as u64 - 1) {
        ek += 1;
    }
    ensure_eq!(d.extended_k(), ek, "extended_k (smallest domain holding the quotient)");
    ensure_eq!(d.extended_len(), 1usize << ek, "extended_len");
    ensure_eq!(d.get_quotient_poly_degree(), (j - 1) as usize, "quotient degree");
    let w: F = root(k);
    ensure_eq!(d.get_omega(), w, "omega");
    ensure_eq!(pow(w, n), F::one(), "omega^n");
    if k > 0 {
        ensure_eq!(pow(w, n / 2), -F::one(), "omega is primitive");
    }
    ensure_eq!(d.get_omega() * d.get_omega_inv(), F::one(), "omega_inv");
    ensure_eq!(d.get_extended_omega(), root::<F>(ek), "extended omega");
    for _ in 0..4 {
        let r = match g.below(4) {
            0 => g.below(8) as i64,
            1 => -(g.below(8) as i64),
            2 => *g.pick(&[i32::MAX as i64, i32::MIN as i64, -(n as i64), n as i64]) as i64,
            _ => g.below(1 << 32) as i64 - (1 << 31),
        } as i32;
        let x: F = fe(g);
        let e = (r as i64).rem_euclid(n as i64) as u64;
        ensure_eq!(d.rotate_omega(x, Rotation(r)), x * pow(w, e), "rotate_omega r={r} k={k}");
    }
    Ok(())
}

fn dom_transforms<F: FieldExt + Group<Scalar = F>>(g: &mut G) -> R {
    let (j, k) = dom_size(g, false);
    let n = 1usize << k;
    g.desc(|| format!("transforms j={j} k={k}"));
    if k > 0 {
        g.nontrivial();
    } else {
        g.class("k=0");
    }
    let d = EvaluationDomain::<F>::new(j, k);
    let w: F = root(k);
    let ew: F = root(d.extended_k());
    let en = d.extended_len();
    let c: Vec<F> = fes(g, n);
    // evaluations on the domain
    let mut pts = vec![F::one(); n];
    for i in 1..n {
        pts[i] = pts[i - 1] * w;
    }
    let evals: Vec<F> = pts.iter().map(|x| ev(&c, *x)).collect();
    let mut f = c.clone();
    best_fft(&mut f, w, k);
    ensure_eq!(f, evals, "best_fft");
    let back = d.lagrange_to_coeff(d.lagrange_from_vec(evals.clone()));
    ensure_eq!(back[..].to_vec(), c, "lagrange_to_coeff");
    // extended coset
    let zeta = F::ZETA;
    ensure!(zeta != F::one() && zeta.square() * zeta == F::one(), "ZETA is a primitive cube root of unity");
    let mut epts = vec![zeta; en];
    for i in 1..en {
        epts[i] = epts[i - 1] * ew;
    }
    let ext = d.coeff_to_extended(d.coeff_from_vec(c.clone()));
    let want: Vec<F> = epts.iter().map(|x| ev(&c, *x)).collect();
    ensure_eq!(ext[..].to_vec(), want, "coeff_to_extended");
    let parts = d.coeff_to_extended_parts(&d.coeff_from_vec(c.clone()));
    ensure_eq!(parts.len(), en / n, "number of parts");
    for (m, p) in parts.iter().enumerate() {
        let want: Vec<F> = pts.iter().map(|x| ev(&c, zeta * pow(ew, m as u64) * x)).collect();
        ensure_eq!(p[..].to_vec(), want, "extended part {m}");
    }
    let c2: Vec<F> = fes(g, n);
    let b = d.batched_coeff_to_extended_parts(&[d.coeff_from_vec(c.clone()), d.coeff_from_vec(c2.clone())]);
    for (m, ps) in b.iter().enumerate() {
        ensure_eq!(ps[0][..].to_vec(), parts[m][..].to_vec(), "batched part {m} of the first");
        let want: Vec<F> = pts.iter().map(|x| ev(&c2, zeta * pow(ew, m as u64) * x)).collect();
        ensure_eq!(ps[1][..].to_vec(), want, "batched part {m} of the second");
    }
    let m = g.usize(en / n);
    let one = d.coeff_to_extended_part(d.coeff_from_vec(c2.clone()), pow(ew, m as u64));
    ensure_eq!(one[..].to_vec(), b[m][1][..].to_vec(), "single part {m}");
    let joined = d.extended_from_lagrange_vec(parts);
    ensure_eq!(joined[..].to_vec(), ext[..].to_vec(), "extended_from_lagrange_vec");
    // rotation of the extended form: f(w^r X)
    let r = g.range(0, 2 * n) as i32 - n as i32;
    let rot = d.rotate_extended(&ext, Rotation(r));
    let shift = pow(w, (r as i64).rem_euclid(n as i64) as u64);
    let want: Vec<F> = epts.iter().map(|x| ev(&c, *x * shift)).collect();
    ensure_eq!(rot[..].to_vec(), want, "rotate_extended by {r}");
    let lag = d.lagrange_from_vec(evals.clone());
    let lrot = lag.rotate(Rotation(r));
    let want: Vec<F> = pts.iter().map(|x| ev(&c, *x * shift)).collect();
    ensure_eq!(lrot[..].to_vec(), want, "Lagrange rotate by {r}");
    // back to coefficients (as much as the quotient degree keeps)
    let keep = n * (j as usize - 1);
    let mut wantc = c.clone();
    wantc.resize(en, F::zero());
    wantc.truncate(keep);
    ensure_eq!(d.extended_to_coeff(ext.clone()), wantc, "extended_to_coeff of an embedded polynomial");
    // a full-size quotient: q * (X^n - 1) divided by the vanishing polynomial
    let q: Vec<F> = fes(g, keep);
    let qe: Vec<F> = epts.iter().map(|x| ev(&q, *x) * (pow(*x, n as u64) - F::one())).collect();
    let mut e = d.empty_extended();
    ensure!(e.iter().all(|v| *v == F::zero()) && e.len() == en, "empty_extended");
    for (a, b) in e.iter_mut().zip(qe) {
        *a = b;
    }
    let div = d.divide_by_vanishing_poly(e);
    for (i, v) in div.iter().enumerate() {
        ensure_eq!(*v, ev(&q, epts[i]), "divide_by_vanishing_poly at {i}");
    }
    ensure_eq!(d.extended_to_coeff(div), q, "quotient coefficients");
    // pointwise operations
    let s: F = fe(g);
    let l2 = d.lagrange_from_vec(fes(g, n));
    let sum = lag.clone() + &l2;
    let dif = lag.clone() - &l2;
    let sc = lag.clone() * s;
    let shifted = &lag - s;
    for i in 0..n {
        ensure_eq!(sum[i], lag[i] + l2[i], "add");
        ensure_eq!(dif[i], lag[i] - l2[i], "sub");
        ensure_eq!(sc[i], lag[i] * s, "scale");
        ensure_eq!(shifted[i], if i == 0 { lag[0] - s } else { lag[i] }, "subtract from the constant term");
    }
    ensure!(d.constant_lagrange(s).iter().all(|v| *v == s) && d.constant_lagrange(s).len() == n, "constant_lagrange");
    ensure!(d.constant_extended(s).iter().all(|v| *v == s) && d.constant_extended(s).len() == en, "constant_extended");
    ensure!(d.empty_coeff().iter().all(|v| *v == F::zero()) && d.empty_coeff().num_coeffs() == n, "empty_coeff");
    ensure!(d.empty_lagrange().iter().all(|v| *v == F::zero()) && d.empty_lagrange().num_coeffs() == n, "empty_lagrange");
    Ok(())
}

/// values of a large vector, from one draw
fn many<F: Field>(g: &mut G, n: usize) -> Vec<F> {
    use rand_core::SeedableRng;
    let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(g.u64());
    (0..n).map(|_| F::random(&mut r)).collect()
}
/// evaluations at 1, w, w^2, … by the recursive definition (own code)
fn rfft<F: Field>(c: &[F], w: F) -> Vec<F> {
    let n = c.len();
    if n == 1 {
        return c.to_vec();
    }
    let e: Vec<F> = c.iter().copied().step_by(2).collect();
    let o: Vec<F> = c.iter().copied().skip(1).step_by(2).collect();
    let (e, o) = (rfft(&e, w.square()), rfft(&o, w.square()));
    let mut p = F::one();
    let mut r = vec![F::zero(); n];
    for i in 0..n / 2 {
        r[i] = e[i] + p * o[i];
        r[i + n / 2] = e[i] - p * o[i];
        p *= w;
    }
    r
}
fn coset<F: Field>(c: &[F], z: F, w: F, n: usize) -> Vec<F> {
    let mut v = c.to_vec();
    v.resize(n, F::zero());
    let mut p = F::one();
    for x in v.iter_mut() {
        *x *= p;
        p *= z;
    }
    rfft(&v, w)
}

fn dom_large<F: FieldExt + Group<Scalar = F>>(g: &mut G) -> R {
    let k = match g.below(6) {
        0 => 12,
        1 => 11,
        _ => g.range(8, 10),
    } as u32;
    let j = g.range(2, if k > 10 { 4 } else { 10 }) as u32;
    let n = 1usize << k;
    g.desc(|| format!("large transforms j={j} k={k}"));
    g.nontrivial();
    g.class(&format!("k={k}"));
    let d = EvaluationDomain::<F>::new(j, k);
    let (w, ew): (F, F) = (root(k), root(d.extended_k()));
    let en = d.extended_len();
    let c: Vec<F> = many(g, n);
    let evals = rfft(&c, w);
    for _ in 0..2 {
        let i = g.usize(n);
        ensure_eq!(evals[i], ev(&c, pow(w, i as u64)), "reference transform");
    }
    let mut f = c.clone();
    best_fft(&mut f, w, k);
    ensure!(f == evals, "best_fft of size 2^{k}");
    ensure!(d.lagrange_to_coeff(d.lagrange_from_vec(evals.clone()))[..] == c[..], "lagrange_to_coeff of size 2^{k}");
    let zeta = F::ZETA;
    let want = coset(&c, zeta, ew, en);
    let ext = d.coeff_to_extended(d.coeff_from_vec(c.clone()));
    ensure!(ext[..] == want[..], "coeff_to_extended of size 2^{k}, j={j}");
    let parts = d.coeff_to_extended_parts(&d.coeff_from_vec(c.clone()));
    ensure!(parts.len() == en / n && parts.iter().enumerate().all(|(m, p)| p.iter().enumerate().all(|(i, v)| *v == want[m + i * (en / n)])), "extended parts of size 2^{k}, j={j}");
    ensure!(d.extended_from_lagrange_vec(parts)[..] == want[..], "extended_from_lagrange_vec of size 2^{k}, j={j}");
    let r = g.range(0, 2 * n) as i32 - n as i32;
    let by = (r as i64 * (en / n) as i64).rem_euclid(en as i64) as usize;
    let rot = d.rotate_extended(&ext, Rotation(r));
    ensure!((0..en).all(|i| rot[i] == want[(i + by) % en]), "rotate_extended by {r} of size 2^{k}");
    let lrot = d.lagrange_from_vec(evals.clone()).rotate(Rotation(r));
    ensure!((0..n).all(|i| lrot[i] == evals[(i as i64 + r as i64).rem_euclid(n as i64) as usize]), "Lagrange rotate by {r} of size 2^{k}");
    let keep = n * (j as usize - 1);
    let q: Vec<F> = many(g, keep);
    let qv = coset(&q, zeta, ew, en);
    let mut e = d.empty_extended();
    let (zn, wn) = (pow(zeta, n as u64), pow(ew, n as u64));
    let mut t = zn;
    for i in 0..en {
        e[i] = qv[i] * (t - F::one());
        t *= wn;
    }
    let div = d.divide_by_vanishing_poly(e);
    ensure!(div[..] == qv[..], "divide_by_vanishing_poly of size 2^{k}, j={j}");
    ensure!(d.extended_to_coeff(div) == q, "extended_to_coeff of size 2^{k}, j={j}");
    Ok(())
}

fn msm_large<C: CurveAffine>(g: &mut G) -> R {
    let n = match g.below(6) {
        0 => *g.pick(&[127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
        1 => g.range(1000, 2600),
        _ => g.range(140, 900),
    };
    g.desc(|| format!("multiexp of {n} terms with known logarithms"));
    g.nontrivial();
    let s: Vec<C::ScalarExt> = many(g, n);
    let ab: Vec<C::ScalarExt> = many(g, 2);
    let (mut p, q) = (mul(C::generator(), &ab[0]), mul(C::generator(), &ab[1]).to_affine());
    let mut pts = vec![];
    let mut l = ab[0];
    let mut sum = C::ScalarExt::zero();
    for x in &s {
        pts.push(p.to_affine());
        sum += *x * l;
        l += ab[1];
        p += q;
    }
    ensure!(best_multiexp(&s, &pts) == mul(C::generator(), &sum), "best_multiexp of {n} terms");
    if n < 300 {
        ensure!(small_multiexp(&s, &pts) == mul(C::generator(), &sum), "small_multiexp of {n} terms");
    }
    Ok(())
}

fn polys_large<F: FieldExt>(g: &mut G) -> R {
    let n = g.range(41, 5000);
    g.desc(|| format!("polynomial helpers n={n}"));
    g.nontrivial();
    let c: Vec<F> = many(g, n);
    let b: Vec<F> = many(g, n);
    let x: F = fe(g);
    let y = ev(&c, x);
    ensure_eq!(eval_polynomial(&c, x), y, "eval_polynomial n={n}");
    ensure_eq!(compute_inner_product(&c, &b), c.iter().zip(&b).fold(F::zero(), |a, (x, y)| a + *x * y), "compute_inner_product n={n}");
    let q = kate_division(&c, x);
    ensure_eq!(q.len(), n - 1, "quotient length");
    for i in 0..n {
        let hi = if i > 0 { q[i - 1] } else { y };
        let lo = if i < n - 1 { q[i] * x } else { F::zero() };
        ensure_eq!(hi - lo, c[i], "kate_division coefficient {i} of {n}");
    }
    let m = g.range(13, 48);
    let (pts, evs): (Vec<F>, Vec<F>) = (many(g, m), many(g, m));
    let poly = lagrange_interpolate(&pts, &evs);
    ensure!(poly.len() == m && pts.iter().zip(&evs).all(|(p, e)| ev(&poly, *p) == *e), "interpolation through {m} points");
    let mut v: Vec<u64> = vec![0; n];
    parallelize(&mut v, |s, start| {
        for (i, e) in s.iter_mut().enumerate() {
            *e += 1 + (start + i) as u64 * 10_000;
        }
    });
    ensure!(v.iter().enumerate().all(|(i, e)| *e == 1 + i as u64 * 10_000), "parallelize of {n} elements");
    Ok(())
}

fn dom_lagrange<F: FieldExt + Group<Scalar = F>>(g: &mut G) -> R {
    let (j, k) = dom_size(g, false);
    let n = 1usize << k;
    let d = EvaluationDomain::<F>::new(j, k);
    let w: F = root(k);
    let x: F = match g.below(4) {
        0 => F::zero(),
        1 => F::from(2 + g.below(1000)),
        _ => rnd(g),
    };
    let xn = pow(x, n as u64);
    if xn == F::one() {
        return Ok(()); // points of the domain itself are outside the formula's range
    }
    g.nontrivial();
    let lo = -(g.range(0, 2 * n) as i32);
    let len = g.range(0, 2 * n + 3) as i32;
    g.desc(|| format!("l_i_range k={k} rotations {lo}..{}", lo + len));
    let got = d.l_i_range(x, xn, lo..lo + len);
    ensure_eq!(got.len(), len as usize, "number of evaluations");
    for (i, v) in (lo..lo + len).zip(got) {
        let i = (i as i64).rem_euclid(n as i64) as u64;
        let wi = pow(w, i);
        // l_i(x) as the product definition
        let (mut num, mut den) = (F::one(), F::one());
        let mut p = F::one();
        for m in 0..n as u64 {
            if m != i {
                num *= x - p;
                den *= wi - p;
            }
            p *= w;
        }
        ensure_eq!(v, num * den.invert().unwrap(), "l_{i}(x) for k={k}");
    }
    Ok(())
}

fn dom_group(g: &mut G) -> R {
    // the same transforms over curve points: must commute with the exponent map
    use bn256::{Fr, G1};
    let (j, k) = dom_size(g, true);
    let n = 1usize << k;
    g.desc(|| format!("domain over points j={j} k={k}"));
    g.nontrivial();
    let d = EvaluationDomain::<G1>::new(j, k);
    let ds = EvaluationDomain::<Fr>::new(j, k);
    let c: Vec<Fr> = fes(g, n);
    let lift = |v: &[Fr]| -> Vec<G1> { v.iter().map(|s| G1::generator() * s).collect() };
    let got = d.lagrange_to_coeff(d.lagrange_from_vec(lift(&c)));
    let want = lift(&ds.lagrange_to_coeff(ds.lagrange_from_vec(c.clone())));
    ensure!(got[..] == want[..], "lagrange_to_coeff over points");
    let got = d.coeff_to_extended(d.coeff_from_vec(lift(&c)));
    let wants = ds.coeff_to_extended(ds.coeff_from_vec(c.clone()));
    ensure!(got[..] == lift(&wants)[..], "coeff_to_extended over points");
    ensure!(d.extended_to_coeff(got)[..] == lift(&ds.extended_to_coeff(wants))[..], "extended_to_coeff over points");
    Ok(())
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        rule: "domain with more than one row (k >= 1), or evaluation point outside the domain",
        assumptions: vec![
            "oracle: direct evaluation of the coefficient form at the powers of the documented root of unity, and the product definition of Lagrange basis polynomials",
            "fields with a two-adic root: bn256 Fr, pasta Fp, pasta Fq; k up to 12 for transforms (above 7 against a recursive transform spot-checked by evaluation), 16 for constants; l_i is only asked outside the domain",
        ],
        laws: vec![
            Law::new("constants bn256", 250, 4000, dom_constants::<bn256::Fr>),
            Law::new("constants pasta Fp", 120, 2000, dom_constants::<pasta::Fp>),
            Law::new("constants pasta Fq", 120, 2000, dom_constants::<pasta::Fq>),
            Law::new("transforms bn256", 160, 3000, dom_transforms::<bn256::Fr>),
            Law::new("transforms pasta Fp", 100, 2000, dom_transforms::<pasta::Fp>),
            Law::new("transforms pasta Fq", 60, 1000, dom_transforms::<pasta::Fq>),
            Law::new("lagrange bn256", 160, 3000, dom_lagrange::<bn256::Fr>),
            Law::new("lagrange pasta Fp", 100, 1500, dom_lagrange::<pasta::Fp>),
            Law::new("large transforms bn256", 5, 100, dom_large::<bn256::Fr>),
            Law::new("large transforms pasta Fp", 3, 60, dom_large::<pasta::Fp>),
            Law::new("large transforms pasta Fq", 2, 40, dom_large::<pasta::Fq>),
            Law::new("points", 25, 300, dom_group),
        ],
    }
}

// ------------------------------------------------------------------ C17

fn msm<C: CurveAffine>(g: &mut G) -> R {
    let n = match g.below(8) {
        0 => g.range(0, 4),
        1 => *g.pick(&[3usize, 4, 5, 31, 32, 33]),
        2 => g.range(30, 70),
        3 => g.range(100, 140),
        _ => g.range(0, 34),
    };
    g.desc(|| format!("multiexp of {n} terms"));
    if n > 0 {
        g.nontrivial();
    }
    let mut s: Vec<C::ScalarExt> = (0..n)
        .map(|_| match g.below(5) {
            0 => {
                // scalars with structured bit patterns
                let b = g.below(254);
                let x = pow(C::ScalarExt::from(2), b);
                if g.bool() { x } else { x - C::ScalarExt::one() }
            }
            _ => fe(g),
        })
        .collect();
    let mut p: Vec<C> = (0..n)
        .map(|_| if g.below(8) == 0 { C::identity() } else { pt::<C>(g) })
        .collect();
    if n > 2 && g.bool() {
        // equal points and opposite points in one bucket
        let i = g.usize(n);
        let k = g.usize(n);
        p[i] = p[k];
        if g.bool() {
            p[i] = -p[k];
        }
        s[i] = s[k];
    }
    let mut want = C::CurveExt::identity();
    for (a, b) in s.iter().zip(&p) {
        want += mul(*b, a);
    }
    ensure!(best_multiexp(&s, &p) == want, "best_multiexp of {n} terms differs from the sum of products: {s:?}");
    ensure!(small_multiexp(&s, &p) == want, "small_multiexp of {n} terms differs: {s:?}");
    if n > 0 {
        let short = guarded(|| best_multiexp(&s[1..], &p));
        ensure!(short.is_err(), "length mismatch must not be accepted");
    }
    Ok(())
}

fn polys<F: FieldExt>(g: &mut G) -> R {
    let n = g.range(0, 40);
    g.desc(|| format!("polynomial helpers n={n}"));
    let c: Vec<F> = fes(g, n);
    let x: F = fe(g);
    if n > 1 {
        g.nontrivial();
    }
    ensure_eq!(eval_polynomial(&c, x), ev(&c, x), "eval_polynomial");
    let b: Vec<F> = fes(g, n);
    let mut ip = F::zero();
    for i in 0..n {
        ip += c[i] * b[i];
    }
    ensure_eq!(compute_inner_product(&c, &b), ip, "compute_inner_product");
    if n > 0 {
        let q = kate_division(&c, x);
        ensure_eq!(q.len(), n - 1, "quotient length");
        // q * (X - x) + c(x) == c
        let mut prod = vec![F::zero(); n];
        for (i, v) in q.iter().enumerate() {
            prod[i + 1] += *v;
            prod[i] -= *v * x;
        }
        prod[0] += ev(&c, x);
        ensure_eq!(prod, c, "kate_division");
    }
    let m = g.range(0, 12);
    let mut pts: Vec<F> = vec![];
    while pts.len() < m {
        let mut v: F = fe(g);
        while pts.contains(&v) {
            v += F::one();
        }
        pts.push(v);
    }
    let evs: Vec<F> = fes(g, m);
    let poly = lagrange_interpolate(&pts, &evs);
    ensure_eq!(poly.len(), m, "interpolation length");
    for (p, e) in pts.iter().zip(&evs) {
        ensure_eq!(ev(&poly, *p), *e, "interpolated value");
    }
    // parallelize: every element visited once, with its own index
    let len = g.range(0, 60);
    let mut v: Vec<u64> = vec![0; len];
    parallelize(&mut v, |s, start| {
        for (i, e) in s.iter_mut().enumerate() {
            *e += 1 + (start + i) as u64 * 1000;
        }
    });
    for (i, e) in v.iter().enumerate() {
        ensure_eq!(*e, 1 + i as u64 * 1000, "parallelize element {i} of {len}");
    }
    Ok(())
}

fn twiddle<F: FieldExt>(g: &mut G) -> R {
    let log_n = g.range(0, 9) as u32;
    let sparse = g.range(1, 10) as u32;
    let with_last = g.bool();
    if !with_last && sparse == log_n {
        return Ok(()); // 2^(log_n - sparse - 1) is not an integer there
    }
    g.nontrivial();
    g.desc(|| format!("twiddle table log_n={log_n} sparse={sparse} with_last_level={with_last}"));
    let w: F = root(log_n);
    let t = generate_twiddle_lookup_table(w, log_n, sparse, with_last);
    if sparse > log_n {
        ensure_eq!(t.len(), 1usize << log_n, "dense length");
        for (i, v) in t.iter().enumerate() {
            ensure_eq!(*v, pow(w, i as u64), "dense entry {i}");
        }
    } else {
        let hi = 1usize << (log_n - sparse - (!with_last) as u32);
        ensure_eq!(t.len(), (1usize << sparse) + hi, "sparse length");
        for i in 0..1usize << sparse {
            ensure_eq!(t[i], pow(w, i as u64), "low entry {i}");
        }
        for i in 0..hi {
            ensure_eq!(t[(1 << sparse) + i], pow(w, (i << sparse) as u64), "high entry {i}");
        }
    }
    Ok(())
}

fn gfft<C: CurveAffine>(g: &mut G) -> R
where
    C::CurveExt: Group<Scalar = C::ScalarExt>,
{
    let k = g.range(0, 5) as u32;
    let n = 1usize << k;
    g.desc(|| format!("group FFT k={k}"));
    g.nontrivial();
    let e: Vec<C::ScalarExt> = fes(g, n);
    let a: Vec<C::CurveExt> = e.iter().map(|s| mul(C::generator(), s)).collect();
    let w: C::ScalarExt = root(k);
    let mut b = a.clone();
    best_fft(&mut b, w, k);
    for i in 0..n {
        ensure!(b[i] == mul(C::generator(), &ev(&e, pow(w, i as u64))), "group FFT entry {i} of {n}");
    }
    // g_to_lagrange: sum_i f(w^i) L_i == sum_i c_i G_i
    let l: Vec<C> = g_to_lagrange(a.clone(), k);
    ensure_eq!(l.len(), n, "lagrange bases");
    let c: Vec<C::ScalarExt> = fes(g, n);
    let mut lhs = C::CurveExt::identity();
    let mut rhs = C::CurveExt::identity();
    for i in 0..n {
        lhs += mul(l[i], &ev(&c, pow(w, i as u64)));
        rhs += mul(a[i].to_affine(), &c[i]);
    }
    ensure!(lhs == rhs, "Lagrange bases of size {n} do not commit to the same polynomial");
    Ok(())
}

fn bits(g: &mut G) -> R {
    use halo2_proofs::helpers::{bn_to_field, field_to_bn, pack, unpack};
    let n = g.range(0, 8);
    let v: Vec<bool> = (0..n).map(|_| g.bool()).collect();
    let b = pack(&v);
    let mut want = 0u32;
    for (i, x) in v.iter().enumerate() {
        want += (*x as u32) << i;
    }
    ensure_eq!(b as u32, want, "pack");
    let mut out = vec![true; n];
    unpack(b, &mut out);
    ensure_eq!(out, v, "unpack");
    ensure!(guarded(|| pack(&[false; 9])).is_err(), "pack of nine bits");
    // integers and field elements
    let len = g.range(0, 64);
    let x = BigUint::from_bytes_le(&g.bytes(len));
    g.nontrivial();
    g.desc(|| format!("pack {v:?}, integer 0x{x:x}"));
    macro_rules! f {
        ($f:ty) => {{
            let p = big(&(-<$f>::one())) + 1u32;
            let e: $f = bn_to_field(&x);
            ensure_eq!(big(&e), &x % &p, "bn_to_field");
            ensure_eq!(field_to_bn(&e), &x % &p, "field_to_bn");
        }};
    }
    f!(bn256::Fr);
    f!(bn256::Fq);
    f!(pasta::Fp);
    f!(pasta::Fq);
    Ok(())
}

pub fn c17() -> Check {
    Check {
        id: "C17",
        rule: "at least one term / two coefficients",
        assumptions: vec![
            "oracle: textbook definitions (double-and-add sums, power sums, polynomial identities)",
            "precondition kept: interpolation points distinct, FFT sizes powers of two, integers below 2^512",
        ],
        laws: vec![
            Law::new("multiexp bn256", 200, 4000, msm::<bn256::G1Affine>),
            Law::new("multiexp pallas", 100, 2000, msm::<pasta::EpAffine>),
            Law::new("multiexp vesta", 100, 2000, msm::<pasta::EqAffine>),
            Law::new("multiexp secp256k1", 80, 1500, msm::<secp256k1::Secp256k1Affine>),
            Law::new("large multiexp bn256", 4, 100, msm_large::<bn256::G1Affine>),
            Law::new("large multiexp pallas", 2, 50, msm_large::<pasta::EpAffine>),
            Law::new("large multiexp secp256k1", 2, 50, msm_large::<secp256k1::Secp256k1Affine>),
            Law::new("large polynomials bn256 Fr", 10, 300, polys_large::<bn256::Fr>),
            Law::new("large polynomials pasta Fp", 8, 200, polys_large::<pasta::Fp>),
            Law::new("polynomials bn256 Fr", 1500, 30000, polys::<bn256::Fr>),
            Law::new("polynomials pasta Fp", 1000, 20000, polys::<pasta::Fp>),
            Law::new("polynomials secp256k1 Fq", 500, 10000, polys::<secp256k1::Fq>),
            Law::new("twiddle tables", 600, 8000, twiddle::<bn256::Fr>),
            Law::new("group FFT bn256", 40, 600, gfft::<bn256::G1Affine>),
            Law::new("group FFT pallas", 25, 400, gfft::<pasta::EpAffine>),
            Law::new("group FFT vesta", 25, 400, gfft::<pasta::EqAffine>),
            Law::new("bits and integers", 4000, 60000, bits),
        ],
    }
}

// ------------------------------------------------------------------ C19

/// builds a random expression and evaluates it in both worlds
fn frac<F: FieldExt>(g: &mut G) -> R {
    let mut v: Vec<(Assigned<F>, F)> = vec![];
    let leaf = |g: &mut G| -> (Assigned<F>, F) {
        match g.below(6) {
            0 => (Assigned::Zero, F::zero()),
            1 => {
                let x: F = fe(g);
                if g.bool() { (Assigned::Trivial(x), x) } else { (Assigned::from(&x), x) }
            }
            _ => {
                let (a, b): (F, F) = (fe(g), fe(g));
                (Assigned::from((a, b)), a * b.invert().unwrap_or(F::zero()))
            }
        }
    };
    for _ in 0..g.range(1, 3) {
        v.push(leaf(g));
    }
    let steps = g.range(1, 12);
    let mut text = String::new();
    for _ in 0..steps {
        let (a, x) = v[g.usize(v.len())];
        let (b, y) = if g.bool() { leaf(g) } else { v[g.usize(v.len())] };
        let s: F = fe(g);
        let op = g.below(24);
        text += &format!("{op} ");
        let r = match op {
            0 => (a + b, x + y),
            1 => (a + &b, x + y),
            2 => (&a + b, x + y),
            3 => (&a + &b, x + y),
            4 => (a + s, x + s),
            5 => (&a + s, x + s),
            6 => (a - b, x - y),
            7 => (a - &b, x - y),
            8 => (&a - b, x - y),
            9 => (&a - &b, x - y),
            10 => (a - s, x - s),
            11 => (&a - s, x - s),
            12 => (a * b, x * y),
            13 => (a * &b, x * y),
            14 => (a * s, x * s),
            15 => (&a * s, x * s),
            16 => (-a, -x),
            17 => (-&a, -x),
            18 => (a.double(), x + x),
            19 => (a.square(), x * x),
            20 => (a.cube(), x * x * x),
            21 | 22 => (a.invert(), x.invert().unwrap_or(F::zero())),
            _ => {
                let mut t = a;
                let mut z = x;
                match g.below(6) {
                    0 => { t += b; z += y }
                    1 => { t += &b; z += y }
                    2 => { t -= b; z -= y }
                    3 => { t -= &b; z -= y }
                    4 => { t *= b; z *= y }
                    _ => { t *= &b; z *= y }
                }
                (t, z)
            }
        };
        ensure_eq!(r.0.evaluate(), r.1, "operation {op} on {a:?} and {b:?} / {s:?}");
        ensure_eq!(r.0.is_zero_vartime(), r.1 == F::zero(), "is_zero of {:?}", r.0);
        ensure_eq!(a == b, x == y, "equality of {a:?} and {b:?}");
        ensure_eq!(b == a, x == y, "equality of {b:?} and {a:?}");
        let d = r.0.denominator().unwrap_or(F::one());
        ensure_eq!(r.0.numerator() * d.invert().unwrap_or(F::zero()), r.1, "numerator / denominator");
        if r.0.denominator().is_some() {
            g.nontrivial();
        }
        v.push(r);
    }
    g.desc(|| format!("operations {text}"));
    g.evals(steps);
    Ok(())
}

macro_rules! same { ($e:expr, $w:expr, $n:expr) => { ensure_eq!(opt($e), $w, $n); } }
fn opt<T>(v: Value<T>) -> Option<T> {
    v.inner
}

/// deferred witness values lift pointwise
macro_rules! values_for { ($name:ident, $f:ty) => {
fn $name(g: &mut G) -> R {
    type F = $f;
    let a: Option<F> = if g.below(5) == 0 { None } else { Some(fe(g)) };
    let b: Option<F> = if g.below(5) == 0 { None } else { Some(fe(g)) };
    let mk = |o: Option<F>| o.map(Value::known).unwrap_or_else(Value::unknown);
    let (x, y) = (mk(a), mk(b));
    g.desc(|| format!("{a:?} {b:?}"));
    if a.is_some() && b.is_some() {
        g.nontrivial();
    } else {
        g.class("unknown operand");
    }
    let z = a.zip(b);
    let add = z.map(|(p, q)| p + q);
    let sub = z.map(|(p, q)| p - q);
    let prod = z.map(|(p, q)| p * q);
    same!(x + y, add, "add");
    same!(&x + &y, add, "add refs");
    same!(x + y.as_ref(), add, "add ref");
    same!(x.as_ref() + y, add, "ref add");
    same!(x + &y, add, "add &");
    same!(&x + y, add, "& add");
    same!(x - y, sub, "sub");
    same!(&x - &y, sub, "sub refs");
    same!(x - y.as_ref(), sub, "sub ref");
    same!(x.as_ref() - y, sub, "ref sub");
    same!(x - &y, sub, "sub &");
    same!(&x - y, sub, "& sub");
    same!(x * y, prod, "mul");
    same!(&x * &y, prod, "mul refs");
    same!(x * y.as_ref(), prod, "mul ref");
    same!(x.as_ref() * y, prod, "ref mul");
    same!(x * &y, prod, "mul &");
    same!(&x * y, prod, "& mul");
    same!(-x, a.map(|v| -v), "neg");
    same!(x.map(|v| v.double()), a.map(|v| v.double()), "map");
    same!(x.and_then(|_| y), a.and_then(|_| b), "and_then");
    same!(x.zip(y), z, "zip");
    let (u, w) = x.zip(y).unzip();
    same!(u, z.map(|t| t.0), "unzip left");
    same!(w, z.map(|t| t.1), "unzip right");
    same!(x.as_ref().copied(), a, "copied");
    same!(x.as_ref().cloned(), a, "cloned");
    same!({ let mut t = x; t.as_mut().map(|v| *v += F::one()); t }, a.map(|v| v + F::one()), "as_mut");
    ensure_eq!(x.is_none(), a.is_none(), "is_none");
    let coll: Value<Vec<F>> = vec![x, y, x].into_iter().collect();
    same!(coll, z.map(|(p, q)| vec![p, q, p]), "collect");
    let arr = x.zip(y).map(|(p, q)| [p, q]).transpose_array();
    ensure_eq!([opt(arr[0]), opt(arr[1])], [z.map(|t| t.0), z.map(|t| t.1)], "transpose_array");
    let tv = x.zip(y).map(|(p, q)| vec![p, q]).transpose_vec(2);
    ensure_eq!(tv.iter().map(|t| opt(*t)).collect::<Vec<_>>(), vec![z.map(|t| t.0), z.map(|t| t.1)], "transpose_vec");
    ensure_eq!(x.error_if_known_and(|v| *v == F::zero()).is_err(), a == Some(F::zero()), "error_if_known_and");
    ensure_eq!(guarded(|| x.assert_if_known(|v| *v != F::zero())).is_err(), a == Some(F::zero()), "assert_if_known");
    // fractions inside values
    let (n, d): (F, F) = (fe(g), fe(g));
    let fr = n * d.invert().unwrap_or(F::zero());
    let av: Value<Assigned<F>> = if a.is_some() { Value::known(Assigned::from((n, d))) } else { Value::unknown() };
    let fa = a.map(|_| fr);
    let s: F = fe(g);
    let lifted: Value<Assigned<F>> = Value::from(y);
    same!(lifted.evaluate(), b, "from field");
    same!(y.to_field::<F>().evaluate(), b, "to_field");
    same!(y.into_field::<F>().evaluate(), b, "into_field");
    let zz = fa.zip(b);
    same!((av + y).evaluate(), zz.map(|(p, q)| p + q), "fraction + value");
    same!((av.as_ref() + y).evaluate(), zz.map(|(p, q)| p + q), "&fraction + value");
    same!((av + s).evaluate(), fa.map(|p| p + s), "fraction + field");
    same!((av.as_ref() + s).evaluate(), fa.map(|p| p + s), "&fraction + field");
    same!((av - y).evaluate(), zz.map(|(p, q)| p - q), "fraction - value");
    same!((av.as_ref() - y).evaluate(), zz.map(|(p, q)| p - q), "&fraction - value");
    same!((av - s).evaluate(), fa.map(|p| p - s), "fraction - field");
    same!((av.as_ref() - s).evaluate(), fa.map(|p| p - s), "&fraction - field");
    same!((av * y).evaluate(), zz.map(|(p, q)| p * q), "fraction * value");
    same!((av.as_ref() * y).evaluate(), zz.map(|(p, q)| p * q), "&fraction * value");
    same!((av * s).evaluate(), fa.map(|p| p * s), "fraction * field");
    same!((av.as_ref() * s).evaluate(), fa.map(|p| p * s), "&fraction * field");
    same!(av.double::<F>().evaluate(), fa.map(|p| p + p), "double");
    same!(av.square::<F>().evaluate(), fa.map(|p| p * p), "square");
    same!(av.cube::<F>().evaluate(), fa.map(|p| p * p * p), "cube");
    same!(av.invert::<F>().evaluate(), fa.map(|p| p.invert().unwrap_or(F::zero())), "invert");
    ensure!(opt(Value::<F>::default()).is_none(), "default is unknown");
    Ok(())
}
}}
values_for!(values_bn, bn256::Fr);
values_for!(values_pasta, pasta::Fq);

pub fn c19_laws() -> Vec<Law> {
    vec![
        Law::new("fractions bn256", 6000, 150000, frac::<bn256::Fr>),
        Law::new("fractions pasta", 4000, 80000, frac::<pasta::Fp>),
        Law::new("values bn256", 3000, 60000, values_bn),
        Law::new("values pasta", 2000, 40000, values_pasta),
    ]
}

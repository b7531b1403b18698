//! C18: polynomial commitments, multi-point openings, accumulators.
use crate::argu::{taken, Ev, Rec};
use crate::transcripts::{Kind, KB, KK};
use crate::util::*;
use crate::plonk::{cached, kzg_shared};
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group as _};
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA};
use halo2_proofs::poly::ipa::multiopen::{ProverIPA, VerifierIPA};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::*;
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::{EpAffine, EqAffine, Fp, Fq};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex, OnceLock};
use vh_common::*;

/// what a query is about: a commitment itself or a combination of several
#[derive(Clone, Debug)]
pub enum Target<F> {
    One(usize),
    Mix(Vec<(F, usize)>),
}
/// query: index into the targets, point
#[derive(Clone, Debug)]
pub struct Plan<F> {
    pub polys: Vec<Vec<F>>,
    pub blinds: Vec<F>,
    pub targets: Vec<Target<F>>,
    pub queries: Vec<(usize, F)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Claim<F, C> {
    /// commitments the targets refer to
    pub com: Vec<C>,
    /// target, point, value
    pub q: Vec<(usize, F, F)>,
}

pub trait Open: 'static {
    const NAME: &'static str;
    type F: FieldExt;
    type C: CurveAffine<ScalarExt = Self::F>;
    type P: Send + Sync + 'static;
    fn params(k: u32) -> Arc<Self::P>;
    fn commit(p: &Self::P, c: &[Self::F], blind: Self::F) -> Self::C;
    fn commit_lagrange(p: &Self::P, c: &[Self::F], blind: Self::F) -> Self::C;
    fn prove<K: Kind<Self::C>>(p: &Self::P, nonce: u64, plan: &Plan<Self::F>, rng: Rng) -> std::io::Result<Vec<u8>>;
    /// every job on its own
    fn single<K: Kind<Self::C>>(p: &Self::P, job: &Job<Self::F, Self::C>) -> bool;
    /// all jobs in one accumulator
    fn batch<K: Kind<Self::C>>(p: &Self::P, jobs: &[Job<Self::F, Self::C>]) -> bool;
}
#[derive(Clone)]
pub struct Job<F, C> {
    pub nonce: u64,
    pub targets: Vec<Target<F>>,
    pub claim: Claim<F, C>,
    pub proof: Vec<u8>,
}

fn mix_poly<F: Field>(polys: &[Vec<F>], t: &Target<F>) -> Vec<F> {
    match t {
        Target::One(i) => polys[*i].clone(),
        Target::Mix(v) => {
            let mut r = vec![F::zero(); polys[0].len()];
            for (c, i) in v {
                for (a, b) in r.iter_mut().zip(&polys[*i]) {
                    *a += *c * *b;
                }
            }
            r
        }
    }
}
fn mix_blind<F: Field>(blinds: &[F], t: &Target<F>) -> F {
    match t {
        Target::One(i) => blinds[*i],
        Target::Mix(v) => v.iter().fold(F::zero(), |a, (c, i)| a + *c * blinds[*i]),
    }
}

macro_rules! open {
    ($n:ident, $name:expr, $f:ty, $c:ty, $scheme:ty, $params:ty, $get:expr, $prover:ty, $verifier:ty, $single:ty, $acc:ty) => {
        pub struct $n;
        impl Open for $n {
            const NAME: &'static str = $name;
            type F = $f;
            type C = $c;
            type P = $params;
            fn params(k: u32) -> Arc<$params> {
                $get(k)
            }
            fn commit(p: &Self::P, c: &[$f], b: $f) -> $c {
                let d = EvaluationDomain::<$f>::new(2, c.len().trailing_zeros());
                ParamsProver::commit(p, &d.coeff_from_vec(c.to_vec()), Blind(b)).to_affine()
            }
            fn commit_lagrange(p: &Self::P, c: &[$f], b: $f) -> $c {
                let d = EvaluationDomain::<$f>::new(2, c.len().trailing_zeros());
                Params::commit_lagrange(p, &d.lagrange_from_vec(c.to_vec()), Blind(b)).to_affine()
            }
            fn prove<K: Kind<$c>>(p: &Self::P, nonce: u64, plan: &Plan<$f>, rng: Rng) -> std::io::Result<Vec<u8>> {
                let d = EvaluationDomain::<$f>::new(2, plan.polys[0].len().trailing_zeros());
                let polys: Vec<_> = plan.targets.iter().map(|t| d.coeff_from_vec(mix_poly(&plan.polys, t))).collect();
                let blinds: Vec<_> = plan.targets.iter().map(|t| mix_blind(&plan.blinds, t)).collect();
                let queries: Vec<_> = plan.queries.iter().map(|(t, x)| ProverQuery::new(*x, &polys[*t], Blind(blinds[*t]))).collect();
                let mut t = K::w();
                t.common_scalar(<$f>::from(nonce)).unwrap();
                <$prover as Prover<'_, $scheme>>::new(p).create_proof(rng, &mut t, queries).map_err(|e| std::io::Error::new(std::io::ErrorKind::Other, format!("{:?}", e)))?;
                Ok(K::fin(t))
            }
            fn single<K: Kind<$c>>(p: &Self::P, job: &Job<$f, $c>) -> bool {
                let vp = p.verifier_params();
                let msms: Vec<_> = job.targets.iter().map(|t| msm_of(|| vp.empty_msm(), t, &job.claim.com)).collect();
                let q = job.claim.q.iter().map(|(t, x, v)| match &job.targets[*t] {
                    Target::One(i) => VerifierQuery::new_commitment(&job.claim.com[*i], *x, *v),
                    Target::Mix(_) => VerifierQuery::new_msm(&msms[*t], *x, *v),
                });
                let mut t = K::r(&job.proof);
                t.common_scalar(<$f>::from(job.nonce)).unwrap();
                let st: $single = VerificationStrategy::<$scheme, $verifier>::new(vp);
                VerificationStrategy::<$scheme, $verifier>::process(st, |acc| <$verifier as Verifier<'_, $scheme>>::new(vp).verify_proof(&mut t, q, acc).map_err(|_| halo2_proofs::plonk::Error::Opening)).is_ok()
            }
            fn batch<K: Kind<$c>>(p: &Self::P, jobs: &[Job<$f, $c>]) -> bool {
                let vp = p.verifier_params();
                let mut st: $acc = VerificationStrategy::<$scheme, $verifier>::new(vp);
                for job in jobs {
                    let msms: Vec<_> = job.targets.iter().map(|t| msm_of(|| vp.empty_msm(), t, &job.claim.com)).collect();
                    let q = job.claim.q.iter().map(|(t, x, v)| match &job.targets[*t] {
                        Target::One(i) => VerifierQuery::new_commitment(&job.claim.com[*i], *x, *v),
                        Target::Mix(_) => VerifierQuery::new_msm(&msms[*t], *x, *v),
                    });
                    let mut t = K::r(&job.proof);
                    t.common_scalar(<$f>::from(job.nonce)).unwrap();
                    st = match VerificationStrategy::<$scheme, $verifier>::process(st, |acc| <$verifier as Verifier<'_, $scheme>>::new(vp).verify_proof(&mut t, q, acc).map_err(|_| halo2_proofs::plonk::Error::Opening)) {
                        Ok(s) => s,
                        Err(_) => return false,
                    };
                }
                VerificationStrategy::<$scheme, $verifier>::finalize(st)
            }
        }
    };
}
fn msm_of<C: CurveAffine, M: MSM<C>>(new: impl FnOnce() -> M, t: &Target<C::ScalarExt>, com: &[C]) -> M {
    let mut m = new();
    match t {
        Target::One(i) => m.append_term(C::ScalarExt::one(), com[*i].into()),
        Target::Mix(v) => {
            for (c, i) in v {
                m.append_term(*c, com[*i].into())
            }
        }
    }
    m
}
fn ipa<C: CurveAffine>(k: u32) -> ParamsIPA<C> {
    ParamsIPA::new(k)
}
fn ipa_eq(k: u32) -> Arc<ParamsIPA<EqAffine>> {
    static M: OnceLock<Mutex<HashMap<u32, Arc<ParamsIPA<EqAffine>>>>> = OnceLock::new();
    cached(&M, k, || ipa(k))
}
fn ipa_ep(k: u32) -> Arc<ParamsIPA<EpAffine>> {
    static M: OnceLock<Mutex<HashMap<u32, Arc<ParamsIPA<EpAffine>>>>> = OnceLock::new();
    cached(&M, k, || ipa(k))
}
mod ks {
    pub use halo2_proofs::poly::kzg::strategy::*;
}
mod is {
    pub use halo2_proofs::poly::ipa::strategy::*;
}
open!(OGwc, "gwc", Fr, G1Affine, KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, kzg_shared, ProverGWC<Bn256>, VerifierGWC<Bn256>, ks::SingleStrategy<Bn256>, ks::AccumulatorStrategy<Bn256>);
open!(OShp, "shplonk", Fr, G1Affine, KZGCommitmentScheme<Bn256>, ParamsKZG<Bn256>, kzg_shared, ProverSHPLONK<Bn256>, VerifierSHPLONK<Bn256>, ks::SingleStrategy<Bn256>, ks::AccumulatorStrategy<Bn256>);
open!(OEq, "ipa-eq", Fp, EqAffine, IPACommitmentScheme<EqAffine>, ParamsIPA<EqAffine>, ipa_eq, ProverIPA<EqAffine>, VerifierIPA<EqAffine>, is::SingleStrategy<EqAffine>, is::AccumulatorStrategy<EqAffine>);
open!(OEp, "ipa-ep", Fq, EpAffine, IPACommitmentScheme<EpAffine>, ParamsIPA<EpAffine>, ipa_ep, ProverIPA<EpAffine>, VerifierIPA<EpAffine>, is::SingleStrategy<EpAffine>, is::AccumulatorStrategy<EpAffine>);

// ------------------------------------------------------------------ commitments

fn poly<F: FieldExt>(g: &mut G, n: usize) -> Vec<F> {
    match g.below(8) {
        0 => vec![F::zero(); n],
        1 => {
            let mut v = vec![F::zero(); n];
            v[0] = fe(g);
            v
        }
        2 => {
            let mut v = vec![F::zero(); n];
            let i = g.usize(n);
            v[i] = nz(g);
            v
        }
        3 => vec![fe(g); n],
        _ => {
            let mut r = Rng(g.xo());
            let mut v: Vec<F> = (0..n).map(|_| F::random(&mut r)).collect();
            if g.chance(1, 3) {
                // low degree
                let d = g.usize(n) + 1;
                for x in v.iter_mut().skip(d) {
                    *x = F::zero();
                }
            }
            v
        }
    }
}

/// naive sum
fn lin<C: CurveAffine>(s: &[C::ScalarExt], b: &[C]) -> C {
    let mut acc = C::CurveExt::identity();
    for (s, b) in s.iter().zip(b) {
        acc += mul(*b, s);
    }
    acc.to_affine()
}
fn add<C: CurveAffine>(a: C, b: C) -> C {
    (a.to_curve() + b).to_affine()
}

fn commitments<O: Open>(g: &mut G, g_of: impl Fn(&O::P) -> Vec<O::C>, blinded: bool) -> R {
    let k = g.range(1, 6) as u32;
    let n = 1usize << k;
    let p = O::params(k);
    let a: Vec<O::F> = poly(g, n);
    let b: Vec<O::F> = poly(g, n);
    let (ra, rb): (O::F, O::F) = (fe(g), fe(g));
    let (x, y): (O::F, O::F) = (fe(g), fe(g));
    g.class(O::NAME);
    if a.iter().filter(|x| !bool::from(x.is_zero())).count() > 1 {
        g.nontrivial();
    }
    g.desc(|| format!("{} k={} a={:?} b={:?} blinds {:?} {:?} factors {:?} {:?}", O::NAME, k, a, b, ra, rb, x, y));
    let ca = O::commit(&p, &a, ra);
    // evaluation form: values at the powers of the n-th root, computed here
    let d = EvaluationDomain::<O::F>::new(2, k);
    let w = d.get_omega();
    ensure!(pow(w, n as u64) == O::F::one() && (n == 1 || pow(w, n as u64 / 2) == -O::F::one()), "omega is not a root of order n");
    let vals: Vec<O::F> = (0..n).map(|i| ev(&a, pow(w, i as u64))).collect();
    ensure_eq!(O::commit_lagrange(&p, &vals, ra), ca, "commitment from evaluation form and coefficient form");
    // definition
    let gs = g_of(&p);
    ensure_eq!(gs.len(), n, "number of generators");
    let zero = vec![O::F::zero(); n];
    let one = O::F::one();
    let h = O::commit(&p, &zero, one);
    let expect = if blinded { add(lin(&a, &gs), mul(h, &ra).to_affine()) } else { lin(&a, &gs) };
    ensure_eq!(ca, expect, "commitment is the sum over the generators");
    ensure!(blinded != bool::from(h.is_identity()), "blinding generator");
    // linear
    let cb = O::commit(&p, &b, rb);
    let sum: Vec<O::F> = a.iter().zip(&b).map(|(s, t)| x * s + y * t).collect();
    let want = (mul(ca, &x) + mul(cb, &y)).to_affine();
    ensure_eq!(O::commit(&p, &sum, x * ra + y * rb), want, "linearity");
    // binding on samples: different polynomial, same blind
    if a != b {
        ensure!(O::commit(&p, &b, ra) != ca, "two polynomials, one commitment");
    }
    Ok(())
}
fn kzg_structure(g: &mut G) -> R {
    // the parameters for a known secret
    let k = g.range(1, 7) as u32;
    let n = 1usize << k;
    let d = EvaluationDomain::<Fr>::new(2, k);
    let mut s: Fr = fe(g);
    if pow(s, n as u64) == Fr::one() || g.chance(1, 2) {
        s = rnd(g);
    }
    g.nontrivial();
    g.desc(|| format!("k={} s={:?}", k, s));
    let p = ParamsKZG::<Bn256>::unsafe_setup_with_s(k, s);
    let gen = G1Affine::generator();
    let gs = ParamsProver::get_g(&p);
    ensure_eq!(gs.len(), n, "number of generators");
    for (i, x) in gs.iter().enumerate() {
        ensure_eq!(*x, mul(gen, &pow(s, i as u64)).to_affine(), "generator {}", i);
    }
    let a: Vec<Fr> = poly(g, n);
    let c = mul(gen, &ev(&a, s)).to_affine();
    ensure_eq!(ParamsProver::commit(&p, &d.coeff_from_vec(a.clone()), Blind(Fr::from(5))).to_affine(), c, "commitment is p(s) G");
    let vals: Vec<Fr> = (0..n).map(|i| ev(&a, pow(d.get_omega(), i as u64))).collect();
    ensure_eq!(Params::commit_lagrange(&p, &d.lagrange_from_vec(vals), Blind(Fr::from(5))).to_affine(), c, "commitment from evaluations is p(s) G");
    use halo2curves::pairing::Engine;
    ensure_eq!(Bn256::pairing(&gs[1], &p.g2()), Bn256::pairing(&gs[0], &p.s_g2()), "second group carries the same secret");
    Ok(())
}

// ------------------------------------------------------------------ openings

fn plan<F: FieldExt>(g: &mut G, k: u32) -> Plan<F> {
    let n = 1usize << k;
    let np = g.range(1, 5);
    let mut polys: Vec<Vec<F>> = (0..np).map(|_| poly(g, n)).collect();
    let blinds: Vec<F> = (0..np).map(|_| fe(g)).collect();
    if np > 1 && g.chance(1, 6) {
        // equal polynomials under different names
        polys[1] = polys[0].clone();
    }
    let w = EvaluationDomain::<F>::new(2, k).get_omega();
    let x: F = rnd(g);
    // a polynomial is given by its values at n points, so never ask for more of them
    let nx = g.range(1, n.min(5));
    let mut points: Vec<F> = vec![];
    for i in 0..nx {
        let p = match g.below(6) {
            0 => fe(g),
            1 => pow(w, g.below(n as u64)),
            2 | 3 => x * pow(w, i as u64),
            4 => x * pow(w, (n - 1) as u64),
            _ => rnd(g),
        };
        if !points.contains(&p) {
            points.push(p);
        }
    }
    let mut targets: Vec<Target<F>> = (0..np).map(Target::One).collect();
    for _ in 0..g.below(3) {
        let m = g.range(1, 3);
        targets.push(Target::Mix((0..m).map(|_| (fe(g), g.usize(np))).collect()));
    }
    let mut queries = vec![];
    // each target gets some set of points; sets coincide often
    let sets: Vec<Vec<F>> = (0..2)
        .map(|_| {
            let m = g.range(1, points.len());
            let mut s = points.clone();
            for i in (1..s.len()).rev() {
                let j = g.usize(i + 1);
                s.swap(i, j);
            }
            s.truncate(m);
            s
        })
        .collect();
    for t in 0..targets.len() {
        if t > 0 && g.chance(1, 8) {
            continue;
        }
        let s = if g.chance(1, 4) { vec![*g.pick(&points)] } else { g.pick(&sets).clone() };
        for p in s {
            queries.push((t, p));
        }
    }
    if g.bool() {
        for i in (1..queries.len()).rev() {
            let j = g.usize(i + 1);
            queries.swap(i, j);
        }
    }
    if g.chance(1, 5) {
        // a query twice
        let q = *g.pick(&queries);
        let at = g.usize(queries.len() + 1);
        queries.insert(at, q);
    }
    Plan { polys, blinds, targets, queries }
}
fn claim<O: Open>(p: &O::P, plan: &Plan<O::F>) -> Claim<O::F, O::C> {
    Claim {
        com: plan.polys.iter().zip(&plan.blinds).map(|(c, b)| O::commit(p, c, *b)).collect(),
        q: plan.queries.iter().map(|(t, x)| (*t, *x, ev(&mix_poly(&plan.polys, &plan.targets[*t]), *x))).collect(),
    }
}
fn honest<O: Open, K: Kind<O::C>>(g: &mut G, k: u32) -> Result<(Arc<O::P>, Plan<O::F>, Job<O::F, O::C>), Fail> {
    let p = O::params(k);
    let pl: Plan<O::F> = plan(g, k);
    let nonce = g.below(1 << 40);
    let rng = Rng(g.xo());
    let proof = match guarded(|| O::prove::<K>(&p, nonce, &pl, rng)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => fail!("{}: honest opening failed: {:?} for {:?}", O::NAME, e, pl),
        Err(e) => fail!("{}: honest opening panicked: {} for {:?}", O::NAME, e, pl),
    };
    let c = claim::<O>(&p, &pl);
    let job = Job { nonce, targets: pl.targets.clone(), claim: c, proof };
    Ok((p, pl, job))
}
fn both<O: Open, K: Kind<O::C>>(p: &O::P, j: &Job<O::F, O::C>) -> Result<(bool, bool), Fail> {
    match guarded(|| (O::single::<K>(p, j), O::batch::<K>(p, std::slice::from_ref(j)))) {
        Ok(x) => Ok(x),
        Err(e) => fail!("{}: verification panicked: {}", O::NAME, e),
    }
}

fn note<F: FieldExt>(g: &mut G, name: &'static str, pl: &Plan<F>) {
    g.class(name);
    if pl.queries.len() > 1 {
        g.nontrivial();
    }
    let mut per: BTreeMap<usize, usize> = BTreeMap::new();
    for (t, _) in &pl.queries {
        *per.entry(*t).or_default() += 1;
    }
    if per.values().any(|x| *x > 1) {
        g.class("several points");
    }
    if per.len() > 1 {
        g.class("several polynomials");
    }
    if pl.targets.iter().any(|t| matches!(t, Target::Mix(_))) {
        g.class("combination");
    }
}

fn openings<O: Open, K: Kind<O::C>>(g: &mut G) -> R {
    let k = g.range(2, 5) as u32;
    let (p, pl, job) = honest::<O, K>(g, k)?;
    note(g, O::NAME, &pl);
    g.desc(|| format!("{} {:?}", O::NAME, pl));
    let (a, b) = both::<O, K>(&p, &job)?;
    ensure!(a, "{}: honest opening rejected by the single strategy", O::NAME);
    ensure!(b, "{}: honest opening rejected by the accumulator", O::NAME);
    Ok(())
}

/// is the statement still true, as far as this machinery can tell
fn altered<O: Open, K: Kind<O::C>>(g: &mut G) -> R {
    let k = g.range(2, 4) as u32;
    let (p, pl, job) = honest::<O, K>(g, k)?;
    note(g, O::NAME, &pl);
    g.desc(|| format!("{} {:?}", O::NAME, pl));
    let (a, b) = both::<O, K>(&p, &job)?;
    ensure!(a && b, "{}: honest opening rejected", O::NAME);
    for _ in 0..3 {
        let mut j = job.clone();
        // polynomial behind each commitment after the alteration, to decide whether the claim is still true
        let mut still_true = false;
        let what = match g.below(11) {
            0 | 1 => {
                let i = g.usize(j.claim.q.len());
                j.claim.q[i].2 += nz::<O::F>(g);
                "evaluation"
            }
            8 | 9 => {
                // two evaluations, by opposite or equal amounts
                let x = g.usize(j.claim.q.len());
                let ys: Vec<usize> = (0..j.claim.q.len()).filter(|y| *y != x && (g.index % 2 == 0 || j.claim.q[*y].1 == j.claim.q[x].1 || j.claim.q[*y].0 == j.claim.q[x].0)).collect();
                if ys.is_empty() {
                    continue;
                }
                let y = *g.pick(&ys);
                let d = nz::<O::F>(g);
                let mut f = *g.pick(&[-O::F::one(), O::F::one(), -O::F::from(2), -O::F::TWO_INV]);
                if j.claim.q[x].1 == j.claim.q[y].1 && g.bool() {
                    // the amounts that cancel when the point sets are added up without weights
                    let pt = j.claim.q[x].1;
                    let away = |t: usize| {
                        let mut s: Vec<O::F> = j.claim.q.iter().filter(|q| q.0 == t && q.1 != pt).map(|q| q.1).collect();
                        s.sort();
                        s.dedup();
                        s.iter().fold(O::F::one(), |a, x| a * (pt - x))
                    };
                    f = -away(j.claim.q[y].0) * away(j.claim.q[x].0).invert().unwrap();
                }
                j.claim.q[x].2 += d;
                j.claim.q[y].2 += d * f;
                "two evaluations"
            }
            10 => {
                // two commitments, by opposite amounts
                let n = j.claim.com.len();
                let (x, y) = (g.usize(n), g.usize(n));
                let d = pt::<O::C>(g);
                j.claim.com[x] = add(j.claim.com[x], d);
                j.claim.com[y] = add(j.claim.com[y], (-d.to_curve()).to_affine());
                let c = |t: &Target<O::F>| match t {
                    Target::One(i) => O::F::from((*i == x) as u64) - O::F::from((*i == y) as u64),
                    Target::Mix(v) => v.iter().fold(O::F::zero(), |a, t| a + t.0 * (O::F::from((t.1 == x) as u64) - O::F::from((t.1 == y) as u64))),
                };
                still_true = j.claim.q.iter().all(|q| c(&j.targets[q.0]) == O::F::zero());
                "two commitments"
            }
            2 => {
                let i = g.usize(j.claim.q.len());
                j.claim.q[i].1 = if g.bool() { rnd(g) } else { pl.queries[g.usize(pl.queries.len())].1 };
                let (t, x, v) = j.claim.q[i];
                still_true = ev(&mix_poly(&pl.polys, &pl.targets[t]), x) == v;
                "point"
            }
            3 => {
                let i = g.usize(j.claim.com.len());
                j.claim.com[i] = add(j.claim.com[i], pt::<O::C>(g));
                // is it used at all?
                still_true = !used(&j, i);
                "commitment"
            }
            4 => {
                // two evaluations exchanged
                let (x, y) = (g.usize(j.claim.q.len()), g.usize(j.claim.q.len()));
                let t = j.claim.q[x].2;
                j.claim.q[x].2 = j.claim.q[y].2;
                j.claim.q[y].2 = t;
                still_true = j.claim == job.claim;
                "exchanged evaluations"
            }
            5 => {
                // another target
                let i = g.usize(j.claim.q.len());
                j.claim.q[i].0 = g.usize(j.targets.len());
                let (t, x, v) = j.claim.q[i];
                still_true = ev(&mix_poly(&pl.polys, &pl.targets[t]), x) == v;
                "target"
            }
            6 => {
                let ts: Vec<usize> = (0..j.targets.len()).filter(|t| matches!(j.targets[*t], Target::Mix(_)) && j.claim.q.iter().any(|q| q.0 == *t)).collect();
                match ts.first() {
                    Some(t) => {
                        if let Target::Mix(v) = &mut j.targets[*t] {
                            let i = g.usize(v.len());
                            v[i].0 += nz::<O::F>(g);
                            let c = v[i].1;
                            // adding a multiple of a zero polynomial with zero blinding changes nothing
                            still_true = bool::from(job.claim.com[c].is_identity());
                        }
                        let t = *t;
                        still_true |= j.claim.q.iter().filter(|q| q.0 == t).all(|q| ev(&mix_poly(&pl.polys, &j.targets[t]), q.1) == q.2);
                        "coefficient"
                    }
                    None => continue,
                }
            }
            _ => {
                if j.proof.is_empty() {
                    continue;
                }
                let i = g.usize(j.proof.len());
                j.proof[i] ^= 1 << g.below(8);
                "proof"
            }
        };
        if still_true {
            g.class("still true");
            continue;
        }
        g.class(what);
        let (a, b) = both::<O, K>(&p, &j)?;
        ensure!(!a, "{}: altered {} accepted by the single strategy: {:?} instead of {:?}", O::NAME, what, j.claim, job.claim);
        ensure!(!b, "{}: altered {} accepted by the accumulator: {:?} instead of {:?}", O::NAME, what, j.claim, job.claim);
    }
    Ok(())
}
fn used<F: Field, C>(j: &Job<F, C>, i: usize) -> bool {
    // (contributions can cancel inside a combination)
    j.claim.q.iter().any(|q| match &j.targets[q.0] {
        Target::One(x) => *x == i,
        Target::Mix(v) => !bool::from(v.iter().filter(|x| x.1 == i).fold(F::zero(), |a, x| a + x.0).is_zero()),
    })
}

/// one commitment claimed to take two values at one point
fn conflict<O: Open, K: Kind<O::C>>(g: &mut G) -> R {
    let k = g.range(2, 4) as u32;
    let (p, pl, _) = honest::<O, K>(g, k)?;
    let mut pl = pl;
    let i = g.usize(pl.queries.len());
    let q = pl.queries[i];
    let at = g.usize(pl.queries.len() + 1);
    pl.queries.insert(at, q);
    let nonce = g.below(1 << 40);
    let rng = Rng(g.xo());
    let proof = match guarded(|| O::prove::<K>(&p, nonce, &pl, rng)) {
        Ok(Ok(x)) => x,
        e => fail!("{}: honest opening failed: {:?}", O::NAME, e.map(|x| x.err().map(|e| e.to_string()))),
    };
    let c = claim::<O>(&p, &pl);
    let job = Job { nonce, targets: pl.targets.clone(), claim: c, proof };
    g.class(O::NAME);
    g.nontrivial();
    g.desc(|| format!("{} {:?} query {} repeated", O::NAME, pl, at));
    let (a, b) = both::<O, K>(&p, &job)?;
    ensure!(a && b, "{}: honest opening with a repeated query rejected", O::NAME);
    let which: Vec<usize> = (0..pl.queries.len()).filter(|i| pl.queries[*i] == q).collect();
    for w in which {
        let mut j = job.clone();
        j.claim.q[w].2 += nz::<O::F>(g);
        let (a, b) = both::<O, K>(&p, &j)?;
        ensure!(!a && !b, "{}: the same commitment opened to two values at one point (copy {} wrong)", O::NAME, w);
    }
    Ok(())
}

/// Every challenge of an opening is drawn after the messages it has to bind, on both sides, and
/// both sides see the same messages.
fn order<O: Open, K: Kind<O::C>>(g: &mut G) -> R {
    let k = g.range(2, 5) as u32;
    taken();
    let (p, pl, job) = honest::<O, Rec<K>>(g, k)?;
    let by_prover = taken();
    note(g, O::NAME, &pl);
    g.desc(|| format!("{} {:?}", O::NAME, pl));
    ensure!(matches!(guarded(|| O::single::<Rec<K>>(&p, &job)), Ok(true)), "{}: honest opening rejected", O::NAME);
    let by_verifier = taken();
    let mut pts: Vec<O::F> = pl.queries.iter().map(|q| q.1).collect();
    pts.sort();
    pts.dedup();
    // (points, scalars) at least, before each challenge; the first scalar is the nonce
    let need: Vec<(usize, usize)> = match O::NAME {
        "gwc" => vec![(0, 1), (pts.len(), 1)],
        "shplonk" => vec![(0, 1), (0, 1), (1, 1)],
        _ => [(0, 1), (0, 1), (1, 1), (1, 2), (2, 2), (2, 2)].into_iter().chain((1..=k as usize).map(|i| (2 + 2 * i, 2))).collect(),
    };
    for (who, l) in [("prover", &by_prover), ("verifier", &by_verifier)] {
        let (mut points, mut scalars, mut sq) = (0, 0, 0);
        for e in l {
            match e {
                Ev::Point(_) => points += 1,
                Ev::Scalar(_) => scalars += 1,
                Ev::Squeeze => {
                    ensure!(sq < need.len(), "{}: the {} draws more than {} challenges", O::NAME, who, sq);
                    let (a, b) = need[sq];
                    ensure!(points >= a && scalars >= b, "{}: the {} draws challenge {} after {} points and {} scalars, and should after {} and {}", O::NAME, who, sq, points, scalars, a, b);
                    sq += 1;
                }
            }
        }
        // the prover need not draw what it has no use for
        ensure!(sq == need.len() || who == "prover", "{}: the {} draws {} challenges and not {}", O::NAME, who, sq, need.len());
    }
    let messages = |l: &[Ev]| -> Vec<Ev> { l.iter().filter(|e| **e != Ev::Squeeze).cloned().collect() };
    ensure!(by_verifier.starts_with(&by_prover) || messages(&by_prover) == messages(&by_verifier), "{}: prover and verifier saw different messages", O::NAME);
    Ok(())
}

// ------------------------------------------------------------------ batches

fn batches<O: Open, K: Kind<O::C>>(g: &mut G) -> R {
    let k = g.range(2, 4) as u32;
    let n = g.range(1, 4);
    let mut jobs = vec![];
    let mut bad = 0;
    let mut p = None;
    for _ in 0..n {
        let (pp, pl, mut j) = honest::<O, K>(g, k)?;
        if g.chance(1, 3) {
            let i = g.usize(j.claim.q.len());
            let _ = pl;
            j.claim.q[i].2 += nz::<O::F>(g);
            bad += 1;
        }
        p = Some(pp);
        jobs.push(j);
    }
    let p = p.unwrap();
    if bad > 1 && g.bool() {
        // the same false proof several times
        let c = jobs.iter().position(|j| !O::single::<K>(&p, j)).unwrap();
        let j = jobs[c].clone();
        for x in jobs.iter_mut() {
            *x = j.clone();
        }
    }
    g.class(O::NAME);
    g.class(match bad {
        0 => "all valid",
        1 => "one false",
        _ => "several false",
    });
    if n > 1 {
        g.nontrivial();
    }
    let claims: Vec<_> = jobs.iter().map(|j| j.claim.clone()).collect();
    g.desc(|| format!("{} {} proofs, {} false: {:?}", O::NAME, n, bad, claims));
    let each: Vec<bool> = jobs.iter().map(|j| O::single::<K>(&p, j)).collect();
    ensure_eq!(each.iter().filter(|x| !**x).count() == 0, bad == 0, "{}: single verdicts {:?}", O::NAME, each);
    let b = match guarded(|| O::batch::<K>(&p, &jobs)) {
        Ok(b) => b,
        Err(e) => fail!("{}: batch panicked: {}", O::NAME, e),
    };
    ensure_eq!(b, bad == 0, "{}: batch of {} with {} false proofs accepted", O::NAME, n, bad);
    Ok(())
}

/// factors an accumulator could be using to keep proofs apart without looking at them
fn fixed_factors<F: FieldExt>() -> Vec<F> {
    use rand_chacha::rand_core::SeedableRng;
    let mut v = vec![F::one(), F::from(42), F::from(2), -F::one()];
    for s in [0u64, 1, 42] {
        v.push(F::random(rand_chacha::ChaCha20Rng::seed_from_u64(s)));
    }
    v
}

/// Two false GWC proofs whose errors cancel if the accumulator weighs them with a factor the
/// prover can predict: the first witness point of each is shifted.
fn cancel_gwc(g: &mut G) -> R {
    let k = g.range(2, 4) as u32;
    let (p, pl1, j1) = honest::<OGwc, KB>(g, k)?;
    let (_, pl2, j2) = honest::<OGwc, KB>(g, k)?;
    g.nontrivial();
    let (z1, z2) = (pl1.queries[0].1, pl2.queries[0].1);
    let s = ParamsProver::get_g(&*p);
    let e: Fr = nz(g);
    g.desc(|| format!("first points {:?} {:?}, e={:?}; {:?} / {:?}", z1, z2, e, pl1, pl2));
    let shift = |j: &Job<Fr, G1Affine>, d: G1Affine| -> Job<Fr, G1Affine> {
        use group::GroupEncoding;
        let mut j = j.clone();
        let mut r = <G1Affine as GroupEncoding>::Repr::default();
        r.as_mut().copy_from_slice(&j.proof[..32]);
        let w = G1Affine::from_bytes(&r).unwrap();
        j.proof[..32].copy_from_slice(add(w, d).to_bytes().as_ref());
        j
    };
    let mut fs = fixed_factors::<Fr>();
    fs.extend(fixed_factors::<Fr>().iter().map(|x| x.invert().unwrap()));
    for r in fs {
        // r (s - z1) D1 + (s - z2) D2 = 0
        let d1 = mul((mul(s[0], &-z2) + s[1]).to_affine(), &e).to_affine();
        let d2 = mul((mul(s[0], &-z1) + s[1]).to_affine(), &(-e * r)).to_affine();
        let (a, b) = (shift(&j1, d1), shift(&j2, d2));
        ensure!(!OGwc::single::<KB>(&p, &a) && !OGwc::single::<KB>(&p, &b), "a shifted witness was accepted");
        match guarded(|| OGwc::batch::<KB>(&p, &[a, b])) {
            Ok(x) => ensure!(!x, "two false proofs, made to cancel for the factor {:?}, were accepted together", r),
            Err(e) => fail!("batch panicked: {}", e),
        }
    }
    Ok(())
}
/// The same for the inner product argument: the last scalar of each proof is shifted.
fn cancel_ipa<O: Open>(g: &mut G) -> R {
    let k = g.range(2, 3) as u32;
    let (p, pl1, j1) = honest::<O, KB>(g, k)?;
    let (_, pl2, j2) = honest::<O, KB>(g, k)?;
    g.nontrivial();
    g.desc(|| format!("{:?} / {:?}", pl1, pl2));
    let e: O::F = nz(g);
    let shift = |j: &Job<O::F, O::C>, d: O::F| -> Job<O::F, O::C> {
        let mut j = j.clone();
        let n = j.proof.len();
        let mut r = <O::F as PrimeField>::Repr::default();
        r.as_mut().copy_from_slice(&j.proof[n - 32..]);
        let f = O::F::from_repr(r).unwrap() + d;
        j.proof[n - 32..].copy_from_slice(f.to_repr().as_ref());
        j
    };
    // the second verifier run also scales what it is given by its own x4, once per point set
    let sets = {
        let mut per: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
        for (t, x) in &pl2.queries {
            per.entry(*t).or_default().push(x.to_repr().as_ref().to_vec());
        }
        let mut s: Vec<Vec<Vec<u8>>> = per
            .into_iter()
            .map(|(_, mut v)| {
                v.sort();
                v.dedup();
                v
            })
            .collect();
        s.sort();
        s.dedup();
        s.len()
    };
    let x4: O::F = {
        let mut t = <KB as Kind<O::C>>::r(&j2.proof);
        t.common_scalar(O::F::from(j2.nonce)).unwrap();
        let _ = *t.squeeze_challenge_scalar::<()>();
        let _ = *t.squeeze_challenge_scalar::<()>();
        t.read_point().map_err(|e| Fail::from(format!("{:?}", e)))?;
        let _ = *t.squeeze_challenge_scalar::<()>();
        for _ in 0..sets {
            t.read_scalar().map_err(|e| Fail::from(format!("{:?}", e)))?;
        }
        *t.squeeze_challenge_scalar::<()>()
    };
    let mut fs = fixed_factors::<O::F>();
    fs.extend(fixed_factors::<O::F>().iter().map(|x| x.invert().unwrap()));
    for r in fs {
        for y in [O::F::one(), pow(x4, sets as u64)] {
            let (a, b) = (shift(&j1, e), shift(&j2, -e * r * y));
            ensure!(!O::single::<KB>(&p, &a) && !O::single::<KB>(&p, &b), "a shifted scalar was accepted");
            match guarded(|| O::batch::<KB>(&p, &[a, b])) {
                Ok(x) => ensure!(!x, "two false proofs, made to cancel for the factor {:?}, were accepted together", r),
                Err(e) => fail!("batch panicked: {}", e),
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ multi-scalar accumulators

fn msm_model<C: CurveAffine, M: MSM<C>>(g: &mut G, new: impl Fn() -> M, extra: &dyn Fn(&mut G, &mut M, &mut C::CurveExt)) -> R {
    let mut ms: Vec<(M, C::CurveExt)> = (0..2).map(|_| (new(), C::CurveExt::identity())).collect();
    let pool: Vec<C> = (0..3).map(|_| pt(g)).collect();
    let steps = g.range(1, 12);
    let mut log: Vec<String> = vec![];
    for _ in 0..steps {
        let i = g.usize(2);
        match g.below(6) {
            0 | 1 | 2 => {
                let s: C::ScalarExt = fe(g);
                let b: C = match g.below(5) {
                    0 => C::identity(),
                    1 => (-g.pick(&pool).to_curve()).to_affine(),
                    2 => pt(g),
                    _ => *g.pick(&pool),
                };
                log.push(format!("{}: append {:?} {:?}", i, s, b));
                ms[i].0.append_term(s, b.into());
                ms[i].1 = ms[i].1 + mul(b, &s);
            }
            3 => {
                let f: C::ScalarExt = fe(g);
                log.push(format!("{}: scale {:?}", i, f));
                ms[i].0.scale(f);
                ms[i].1 = mul(ms[i].1.to_affine(), &f);
            }
            4 => {
                let o = ms[1 - i].0.clone();
                log.push(format!("{}: add other", i));
                ms[i].0.add_msm(&o);
                let v = ms[1 - i].1;
                ms[i].1 = ms[i].1 + v;
            }
            _ => {
                log.push(format!("{}: extra", i));
                let (m, v) = &mut ms[i];
                extra(g, m, v);
            }
        }
    }
    g.nontrivial();
    g.desc(|| format!("{:?}", log));
    for (m, v) in &ms {
        ensure_eq!(m.eval().to_affine(), v.to_affine(), "value of the sum after {:?}", log);
        ensure_eq!(m.check(), bool::from(v.is_identity()), "zero check after {:?}", log);
        // ... and exactly at zero
        let mut z = m.clone();
        z.append_term(-C::ScalarExt::one(), *v);
        ensure!(z.check(), "sum minus its value is zero, after {:?}", log);
        z.append_term(C::ScalarExt::one(), C::generator().into());
        ensure!(!z.check(), "sum off by a generator, after {:?}", log);
    }
    Ok(())
}
fn msms(g: &mut G) -> R {
    use halo2_proofs::poly::ipa::msm::MSMIPA;
    use halo2_proofs::poly::kzg::msm::MSMKZG;
    match g.below(3) {
        0 => {
            g.class("kzg");
            msm_model::<G1Affine, _>(g, MSMKZG::<Bn256>::new, &|_, _, _| {})
        }
        x => {
            g.class("ipa");
            let k = 2;
            let p = ipa_eq(k);
            let gs = ParamsProver::get_g(&*p).to_vec();
            let w = OEq::commit(&p, &vec![Fp::zero(); 4], Fp::one());
            let _ = x;
            msm_model::<EqAffine, _>(g, || MSMIPA::new(&p), &|g: &mut G, m: &mut MSMIPA<EqAffine>, v: &mut _| match g.below(3) {
                0 => {
                    let s: Fp = fe(g);
                    m.add_constant_term(s);
                    *v = *v + mul(gs[0], &s);
                }
                1 => {
                    let s: Vec<Fp> = (0..4).map(|_| fe(g)).collect();
                    m.add_to_g_scalars(&s);
                    for (a, b) in s.iter().zip(&gs) {
                        *v = *v + mul(*b, a);
                    }
                }
                _ => {
                    let s: Fp = fe(g);
                    m.add_to_w_scalar(s);
                    *v = *v + mul(w, &s);
                }
            })
        }
    }
}

/// single polynomial, single point, directly on the inner product argument
fn ipa_direct<O: Open<P = ParamsIPA<C>, C = C, F = F>, C: CurveAffine<ScalarExt = F>, F: FieldExt>(g: &mut G) -> R {
    use halo2_proofs::poly::ipa::commitment::{create_proof, verify_proof};
    use halo2_proofs::poly::ipa::msm::MSMIPA;
    let k = g.range(1, 4) as u32;
    let n = 1usize << k;
    let p = O::params(k);
    let a: Vec<F> = poly(g, n);
    let r: F = fe(g);
    let x: F = fe(g);
    let v = ev(&a, x);
    let c = O::commit(&p, &a, r);
    g.nontrivial();
    g.desc(|| format!("{} {:?} blind {:?} at {:?}", O::NAME, a, r, x));
    let d = EvaluationDomain::<F>::new(2, k);
    let mut t = Blake2bWrite::<Vec<u8>, C, Challenge255<C>>::init(vec![]);
    let rng = Rng(g.xo());
    if let Err(e) = create_proof(&p, rng, &mut t, &d.coeff_from_vec(a.clone()), Blind(r), x) {
        fail!("opening failed: {:?}", e)
    }
    let proof = t.finalize();
    let check = |c: C, x: F, v: F, proof: &[u8]| -> Result<[bool; 3], Fail> {
        let r = guarded(|| {
            let mut t = Blake2bRead::<_, C, Challenge255<C>>::init(proof);
            let mut m = MSMIPA::new(&*p);
            m.append_term(F::one(), c.into());
            let gd = match verify_proof(&*p, m, &mut t, x, v) {
                Ok(g) => g,
                Err(_) => return [false; 3],
            };
            let a = gd.clone().use_challenges().check();
            let gp = gd.compute_g();
            let (m, acc) = gd.clone().use_g(gp);
            let b = m.check() && acc.g == gp;
            let (m, _) = gd.use_g(add(gp, C::generator()));
            [a, b, m.check()]
        });
        r.map_err(|e| Fail::from(format!("verification panicked: {}", e)))
    };
    let h = check(c, x, v, &proof)?;
    ensure!(h[0], "honest opening rejected");
    ensure!(h[1], "honest opening rejected when the folded generator is supplied");
    ensure!(!h[2], "a wrong folded generator is accepted");
    let (c2, x2, v2, proof2) = match g.below(4) {
        0 => (c, x, v + nz::<F>(g), proof.clone()),
        1 => (add(c, pt(g)), x, v, proof.clone()),
        2 => {
            let x2 = fe::<F>(g);
            if ev(&a, x2) == v {
                return Ok(());
            }
            (c, x2, v, proof.clone())
        }
        _ => {
            let mut q = proof.clone();
            let i = g.usize(q.len());
            q[i] ^= 1 << g.below(8);
            (c, x, v, q)
        }
    };
    let h = check(c2, x2, v2, &proof2)?;
    ensure!(!h[0] && !h[1], "false opening accepted: {:?}", h);
    Ok(())
}

macro_rules! each {
    ($g:ident, $f:ident) => {
        match $g.below(6) {
            0 => $f::<OGwc, KB>($g),
            1 => $f::<OShp, KB>($g),
            2 => $f::<OShp, KK>($g),
            3 => $f::<OEq, KB>($g),
            4 => $f::<OEp, KB>($g),
            _ => $f::<OGwc, KK>($g),
        }
    };
}

pub fn c18() -> Check {
    Check {
        id: "C18",
        rule: "a polynomial with two or more non-zero coefficients, two or more queries, or a batch",
        assumptions: vec![],
        laws: vec![
            Law::new("commitments", 60, 1500, |g| match g.below(3) {
                0 => commitments::<OGwc>(g, |p| ParamsProver::get_g(p).to_vec(), false),
                1 => commitments::<OEq>(g, |p| ParamsProver::get_g(p).to_vec(), true),
                _ => commitments::<OEp>(g, |p| ParamsProver::get_g(p).to_vec(), true),
            }),
            Law::new("parameters for a known secret", 10, 150, kzg_structure),
            Law::new("honest openings", 60, 3000, |g| each!(g, openings)).shrink(150),
            Law::new("altered openings", 120, 4000, |g| each!(g, altered)).shrink(150),
            Law::new("what opening challenges depend on", 40, 1500, |g| each!(g, order)).shrink(100),
            Law::new("one commitment, one point, two values", 24, 600, |g| each!(g, conflict)).shrink(100),
            Law::new("batches", 40, 1500, |g| each!(g, batches)).shrink(100),
            Law::new("cancelling false proofs", 6, 60, |g| match g.below(4) {
                0 | 1 => cancel_gwc(g),
                2 => cancel_ipa::<OEq>(g),
                _ => cancel_ipa::<OEp>(g),
            })
            .shrink(30),
            Law::new("sums of scalar multiples", 150, 6000, msms),
            Law::new("inner product argument", 40, 1500, |g| if g.bool() { ipa_direct::<OEq, _, _>(g) } else { ipa_direct::<OEp, _, _>(g) }),
        ],
    }
}

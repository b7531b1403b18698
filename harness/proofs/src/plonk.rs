//! C09, C10: real proofs for generated circuits.
use crate::rcirc::*;
use crate::rgen::*;
use crate::transcripts::{Kind, KB, KK, KP};
use crate::util::*;
use ff::Field;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver};
use halo2_proofs::poly::{EvaluationDomain, VerificationStrategy};
use halo2curves::bn256::{Bn256, Fr, G1Affine};
use halo2curves::pasta::{EpAffine, EqAffine, Fp, Fq};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use vh_common::*;
use vh_lab::Lab;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Strat {
    Single,
    Acc,
}

/// A commitment scheme with one of its multi-opening protocols.
pub trait Sys: 'static + Send + Sync {
    const NAME: &'static str;
    /// public inputs are absorbed as commitments
    const COMMITS_INSTANCE: bool;
    type F: FieldExt;
    type C: CurveAffine<ScalarExt = Self::F>;
    type P: Send + Sync + 'static;
    fn params(k: u32) -> Arc<Self::P>;
    fn vk<C: Circuit<Self::F>>(p: &Self::P, c: &C) -> Result<VerifyingKey<Self::C>, Error>;
    fn pk<C: Circuit<Self::F>>(p: &Self::P, vk: VerifyingKey<Self::C>, c: &C) -> Result<ProvingKey<Self::C>, Error>;
    fn pk2<C: Circuit<Self::F>>(p: &Self::P, c: &C) -> Result<ProvingKey<Self::C>, Error>;
    fn prove<K: Kind<Self::C>, C: Circuit<Self::F>>(p: &Self::P, pk: &ProvingKey<Self::C>, cs: &[C], inst: &[Vec<Vec<Self::F>>], rng: Rng) -> Result<Vec<u8>, Error>;
    fn commit(p: &Self::P, values: &[Self::F]) -> Self::C;
    /// several proofs checked together
    fn verify<K: Kind<Self::C>>(p: &Self::P, s: Strat, jobs: &[(&VerifyingKey<Self::C>, &[Vec<Vec<Self::F>>], &[u8])]) -> Result<(), String>;
}

pub fn cached<T: Send + Sync + 'static>(m: &'static OnceLock<Mutex<HashMap<u32, Arc<T>>>>, k: u32, f: impl FnOnce() -> T) -> Arc<T> {
    let m = m.get_or_init(Default::default);
    let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
    m.entry(k).or_insert_with(|| Arc::new(f())).clone()
}

pub fn refs<F>(inst: &[Vec<Vec<F>>]) -> Vec<Vec<&[F]>> {
    inst.iter().map(|c| c.iter().map(|v| &v[..]).collect()).collect()
}

macro_rules! sys {
    ($n:ident, $name:expr, $f:ty, $c:ty, $scheme:ty, $params:ty, $setup:expr, $prover:ty, $verifier:ty, $single:ty, $acc:ty) => {
        pub struct $n;
        impl Sys for $n {
            const NAME: &'static str = $name;
            const COMMITS_INSTANCE: bool = <$verifier as halo2_proofs::poly::commitment::Verifier<'static, $scheme>>::QUERY_INSTANCE;
            type F = $f;
            type C = $c;
            type P = $params;
            fn params(k: u32) -> Arc<Self::P> {
                static M: OnceLock<Mutex<HashMap<u32, Arc<$params>>>> = OnceLock::new();
                cached(&M, k, || $setup(k))
            }
            fn vk<C: Circuit<$f>>(p: &Self::P, c: &C) -> Result<VerifyingKey<$c>, Error> {
                keygen_vk(p, c)
            }
            fn pk<C: Circuit<$f>>(p: &Self::P, vk: VerifyingKey<$c>, c: &C) -> Result<ProvingKey<$c>, Error> {
                keygen_pk(p, vk, c)
            }
            fn pk2<C: Circuit<$f>>(p: &Self::P, c: &C) -> Result<ProvingKey<$c>, Error> {
                keygen_pk2(p, c)
            }
            fn prove<K: Kind<$c>, C: Circuit<$f>>(p: &Self::P, pk: &ProvingKey<$c>, cs: &[C], inst: &[Vec<Vec<$f>>], rng: Rng) -> Result<Vec<u8>, Error> {
                let r = refs(inst);
                let r: Vec<&[&[$f]]> = r.iter().map(|c| &c[..]).collect();
                let mut t = K::w();
                create_proof::<$scheme, $prover, _, _, _, _>(p, pk, cs, &r, rng, &mut t)?;
                Ok(K::fin(t))
            }
            fn commit(p: &Self::P, values: &[$f]) -> $c {
                let k = values.len().trailing_zeros();
                let d = EvaluationDomain::<$f>::new(2, k);
                group::Curve::to_affine(&Params::commit_lagrange(p, &d.lagrange_from_vec(values.to_vec()), Blind::default()))
            }
            fn verify<K: Kind<$c>>(p: &Self::P, s: Strat, jobs: &[(&VerifyingKey<$c>, &[Vec<Vec<$f>>], &[u8])]) -> Result<(), String> {
                let vp = p.verifier_params();
                match s {
                    Strat::Single => {
                        for (vk, inst, proof) in jobs {
                            let r = refs(inst);
                            let r: Vec<&[&[$f]]> = r.iter().map(|c| &c[..]).collect();
                            let mut t = K::r(proof);
                            let st = <$single>::new(vp);
                            verify_proof::<$scheme, $verifier, _, _, _>(vp, vk, st, &r, &mut t).map_err(|e| format!("{:?}", e))?;
                        }
                        Ok(())
                    }
                    Strat::Acc => {
                        let mut st = <$acc>::new(vp);
                        for (vk, inst, proof) in jobs {
                            let r = refs(inst);
                            let r: Vec<&[&[$f]]> = r.iter().map(|c| &c[..]).collect();
                            let mut t = K::r(proof);
                            st = verify_proof::<$scheme, $verifier, _, _, _>(vp, vk, st, &r, &mut t).map_err(|e| format!("{:?}", e))?;
                        }
                        if VerificationStrategy::<$scheme, $verifier>::finalize(st) {
                            Ok(())
                        } else {
                            Err("finalize false".into())
                        }
                    }
                }
            }
        }
    };
}
mod k {
    pub use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
    pub use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
    pub use halo2_proofs::poly::kzg::strategy::{AccumulatorStrategy, SingleStrategy};
}
mod i {
    pub use halo2_proofs::poly::ipa::commitment::{IPACommitmentScheme, ParamsIPA};
    pub use halo2_proofs::poly::ipa::multiopen::{ProverIPA, VerifierIPA};
    pub use halo2_proofs::poly::ipa::strategy::{AccumulatorStrategy, SingleStrategy};
}
pub fn kzg_setup(k: u32) -> k::ParamsKZG<Bn256> {
    k::ParamsKZG::setup(k, Rng::new(0xabc0 + k as u64))
}
pub fn kzg_shared(k: u32) -> Arc<k::ParamsKZG<Bn256>> {
    static M: OnceLock<Mutex<HashMap<u32, Arc<k::ParamsKZG<Bn256>>>>> = OnceLock::new();
    cached(&M, k, || kzg_setup(k))
}
sys!(Gwc, "kzg-gwc", Fr, G1Affine, k::KZGCommitmentScheme<Bn256>, k::ParamsKZG<Bn256>, kzg_setup, k::ProverGWC<Bn256>, k::VerifierGWC<Bn256>, k::SingleStrategy<Bn256>, k::AccumulatorStrategy<Bn256>);
sys!(Shp, "kzg-shplonk", Fr, G1Affine, k::KZGCommitmentScheme<Bn256>, k::ParamsKZG<Bn256>, kzg_setup, k::ProverSHPLONK<Bn256>, k::VerifierSHPLONK<Bn256>, k::SingleStrategy<Bn256>, k::AccumulatorStrategy<Bn256>);
sys!(IpaEq, "ipa-eq", Fp, EqAffine, i::IPACommitmentScheme<EqAffine>, i::ParamsIPA<EqAffine>, i::ParamsIPA::<EqAffine>::new, i::ProverIPA<EqAffine>, i::VerifierIPA<EqAffine>, i::SingleStrategy<EqAffine>, i::AccumulatorStrategy<EqAffine>);
sys!(IpaEp, "ipa-ep", Fq, EpAffine, i::IPACommitmentScheme<EpAffine>, i::ParamsIPA<EpAffine>, i::ParamsIPA::<EpAffine>::new, i::ProverIPA<EpAffine>, i::VerifierIPA<EpAffine>, i::SingleStrategy<EpAffine>, i::AccumulatorStrategy<EpAffine>);

/// verification that must not panic
pub fn verdict<S: Sys, K: Kind<S::C>>(p: &S::P, s: Strat, jobs: &[(&VerifyingKey<S::C>, &[Vec<Vec<S::F>>], &[u8])]) -> Result<Result<(), String>, Fail> {
    match guarded(|| S::verify::<K>(p, s, jobs)) {
        Ok(r) => Ok(r),
        Err(e) => fail!("the verifier panicked: {}", e),
    }
}

fn strat(g: &mut G) -> Strat {
    *g.pick(&[Strat::Single, Strat::Acc])
}

fn honest<S: Sys, K: Kind<S::C>, P: halo2_proofs::plonk::FloorPlanner>(g: &mut G, o: Opt) -> R {
    let spec: Arc<Spec<S::F>> = Arc::new(gen(g, o));
    let slack = if g.chance(1, 5) { 1 } else { 0 };
    let (c, k) = build::<S::F, P>(spec.clone(), g.u64(), slack);
    set_spec(&spec);
    classes(g, &spec);
    let copies = [1, 1, 1, 2, 3][g.usize(5)];
    g.class(&format!("{} copies", copies));
    g.class(&format!("k={}", k));
    let cs: Vec<RC<S::F, P>> = (0..copies).map(|i| if i == 0 { c.clone() } else { c.with_seed(g.u64()) }).collect();
    let inst: Vec<Vec<Vec<S::F>>> = cs.iter().map(|c| c.inst.clone()).collect();
    g.desc(|| format!("k={} copies={} {:?}", k, copies, spec));
    // the generator promises satisfied circuits; judged independently
    for c in &cs {
        let lab = Lab::synth(k, c, &c.inst, g.u64()).map_err(|e| Fail::from(format!("lab: {:?}", e)))?;
        let bad = lab.check(3);
        ensure!(bad.is_empty(), "generated circuit is not satisfied: {:?}", bad);
    }
    let p = S::params(k);
    let keys = guarded(|| {
        let wc = cs[0].without_witnesses();
        if g.bool() {
            let vk = S::vk(&p, &wc)?;
            S::pk(&p, vk, &wc)
        } else {
            S::pk2(&p, &cs[0])
        }
    });
    let pk = match keys {
        Ok(Ok(pk)) => pk,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    let proof = match guarded(|| S::prove::<K, _>(&p, &pk, &cs, &inst, Rng(g.xo()))) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => fail!("proving failed: {:?}", e),
        Err(e) => fail!("proving panicked: {}", e),
    };
    for s in [Strat::Single, Strat::Acc] {
        let v = verdict::<S, K>(&p, s, &[(pk.get_vk(), &inst, &proof)])?;
        ensure!(v.is_ok(), "honest proof refused under {:?}: {:?}", s, v);
    }
    Ok(())
}

pub fn any_planner<S: Sys, K: Kind<S::C>>(g: &mut G, o: Opt) -> R {
    if g.bool() {
        honest::<S, K, V1>(g, o)
    } else {
        honest::<S, K, SimpleFloorPlanner>(g, o)
    }
}

fn honest_law<S: Sys>(name: &'static str, q: usize, t: usize, o: Opt) -> Law {
    Law::new(name, q, t, move |g| match g.below(3) {
        0 => {
            g.class("blake2b");
            any_planner::<S, KB>(g, o)
        }
        1 => {
            g.class("keccak");
            any_planner::<S, KK>(g, o)
        }
        _ => {
            g.class("poseidon");
            any_planner::<S, KP>(g, o)
        }
    })
    .shrink(150)
}

pub fn c09() -> Check {
    let d = Opt::default();
    Check {
        id: "C09",
        rule: "the circuit has at least one active gate or lookup",
        assumptions: vec!["the generated circuit is satisfied: established separately for every case by evaluating all gates, lookups and copies on the assignment"],
        laws: vec![
            honest_law::<Gwc>("gwc", 40, 600, d),
            honest_law::<Shp>("shplonk", 40, 600, d),
            honest_law::<IpaEq>("ipa eq", 25, 400, d),
            honest_law::<IpaEp>("ipa ep", 15, 300, d),
        ],
    }
}

// ------------------------------------------------------------------ C10

struct Job<S: Sys, P> {
    k: u32,
    spec: Arc<Spec<S::F>>,
    cs: Vec<RC<S::F, P>>,
    inst: Vec<Vec<Vec<S::F>>>,
    pk: ProvingKey<S::C>,
    p: Arc<S::P>,
}
fn job<S: Sys, P: FloorPlanner>(g: &mut G, o: Opt, max_copies: usize) -> Result<Job<S, P>, Fail> {
    let spec: Arc<Spec<S::F>> = Arc::new(gen(g, o));
    let (c, k) = build::<S::F, P>(spec.clone(), g.u64(), 0);
    set_spec(&spec);
    classes(g, &spec);
    let copies = g.range(1, max_copies);
    let cs: Vec<RC<S::F, P>> = (0..copies).map(|i| if i == 0 { c.clone() } else { c.with_seed(g.u64()) }).collect();
    let inst = cs.iter().map(|c| c.inst.clone()).collect();
    let p = S::params(k);
    let pk = match guarded(|| S::pk2(&p, &cs[0])) {
        Ok(Ok(pk)) => pk,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    Ok(Job { k, spec, cs, inst, pk, p })
}

/// every advice cell with the number of ways the spec ties it
fn targets<F: FieldExt>(s: &Spec<F>) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (r, reg) in s.regs.iter().enumerate() {
        for ((c, o), rule) in &reg.adv {
            v.push((r, *c, *o));
            if !matches!(rule, Rule::Free) {
                v.push((r, *c, *o));
                v.push((r, *c, *o));
            }
        }
    }
    v
}
pub fn false_value<F: FieldExt>(g: &mut G, old: Option<F>) -> F {
    match (g.below(4), old) {
        (0, Some(v)) => v + F::one(),
        (1, Some(v)) => -v,
        (2, _) => fe(g),
        _ => rnd(g),
    }
}

fn false_witness<S: Sys, K: Kind<S::C>, P: FloorPlanner>(g: &mut G, o: Opt) -> R {
    let mut j = job::<S, P>(g, o, 2)?;
    let which = g.usize(j.cs.len());
    let t = targets(&j.spec);
    let mut found = vec![];
    for _ in 0..4 {
        let (r, c, off) = *g.pick(&t);
        let id = (r, Co::A(c), off);
        let old = {
            let ch = vec![halo2_proofs::circuit::Value::unknown(); j.spec.chals.len()];
            let mut x = None;
            j.cs[which].eval(&ch)[&id].map(|v| x = Some(v));
            x
        };
        let v = false_value(g, old);
        j.cs[which].over.insert(id, v);
        let lab = Lab::synth(j.k, &j.cs[which], &j.cs[which].inst, g.u64()).map_err(|e| Fail::from(format!("lab: {:?}", e)))?;
        found = lab.check(4);
        if !found.is_empty() || g.chance(1, 3) {
            break;
        }
    }
    g.desc(|| format!("k={} over={:?} broken={:?} {:?}", j.k, j.cs[which].over, found, j.spec));
    let proof = match guarded(|| S::prove::<K, _>(&j.p, &j.pk, &j.cs, &j.inst, Rng(g.xo()))) {
        Ok(Ok(p)) => Some(p),
        Ok(Err(e)) => {
            ensure!(!found.is_empty(), "proving refused a satisfied circuit: {:?}", e);
            g.class("prover refused");
            None
        }
        Err(e) => {
            ensure!(!found.is_empty(), "proving a satisfied circuit panicked: {}", e);
            g.class("prover panicked");
            None
        }
    };
    for f in &found {
        g.class(match f {
            vh_lab::Bad::Gate { .. } => "broken gate",
            vh_lab::Bad::Lookup { .. } => "broken lookup",
            vh_lab::Bad::Copy(..) => "broken copy",
        });
        g.nontrivial();
    }
    if let Some(proof) = proof {
        for s in [Strat::Single, Strat::Acc] {
            let v = verdict::<S, K>(&j.p, s, &[(j.pk.get_vk(), &j.inst, &proof)])?;
            if found.is_empty() {
                g.class("harmless change");
                ensure!(v.is_ok(), "proof of a satisfied circuit refused: {:?}", v);
            } else {
                ensure!(v.is_err(), "a proof of a false statement verified; violated: {:?}", found);
            }
        }
    }
    Ok(())
}

fn honest_proof<S: Sys, K: Kind<S::C>, P: FloorPlanner>(g: &mut G, o: Opt) -> Result<(Job<S, P>, Vec<u8>), Fail> {
    let j = job::<S, P>(g, o, 2)?;
    let proof = match guarded(|| S::prove::<K, _>(&j.p, &j.pk, &j.cs, &j.inst, Rng(g.xo()))) {
        Ok(Ok(p)) => p,
        e => fail!("proving failed: {:?}", e),
    };
    Ok((j, proof))
}

fn tampered<S: Sys, K: Kind<S::C>, P: FloorPlanner>(g: &mut G, o: Opt) -> R {
    let (j, proof) = honest_proof::<S, K, P>(g, o)?;
    ensure!(proof.len() % 32 == 0, "proof length");
    let chunks = proof.len() / 32;
    let vk = j.pk.get_vk();
    g.nontrivial();
    for round in 0..24 {
        let mut b = proof.clone();
        let i = g.usize(chunks);
        let what = match g.below(9) {
            0 => {
                let at = g.usize(b.len());
                b[at] ^= 1 << g.below(8);
                format!("bit flip in byte {}", at)
            }
            1 => {
                let at = g.usize(b.len());
                b[at] = b[at].wrapping_add(1 + g.below(255) as u8);
                format!("byte {} changed", at)
            }
            2 => {
                let l = g.usize(b.len());
                b.truncate(l);
                format!("truncated to {}", l)
            }
            3 => {
                // the most significant byte carries flags of points
                b[32 * i + 31] ^= 1 << (4 + g.below(4));
                format!("flag bits of element {}", i)
            }
            4 => {
                let k = g.usize(chunks);
                for x in 0..32 {
                    b.swap(32 * i + x, 32 * k + x);
                }
                format!("elements {} and {} swapped", i, k)
            }
            5 => {
                let k = g.usize(chunks);
                let src = proof[32 * k..32 * k + 32].to_vec();
                b[32 * i..32 * i + 32].copy_from_slice(&src);
                format!("element {} replaced by {}", i, k)
            }
            6 => {
                let src = proof[32 * i..32 * i + 32].to_vec();
                b.drain(32 * i..32 * i + 32);
                let k = g.usize(chunks);
                for (x, v) in src.into_iter().enumerate() {
                    b.insert(32 * k + x, v);
                }
                format!("element {} moved to {}", i, k)
            }
            7 => {
                let z = if g.bool() { 0u8 } else { 0xff };
                for x in 0..32 {
                    b[32 * i + x] = z;
                }
                format!("element {} set to {:02x}..", i, z)
            }
            _ => {
                // a scalar plus the modulus or one, when the element is a scalar
                let m = big(&(-S::F::from(1u64))) + 1u32;
                let v = num_bigint::BigUint::from_bytes_le(&b[32 * i..32 * i + 32]);
                let w = if g.bool() { v + m } else { v + 1u32 };
                let w = w.to_bytes_le();
                if w.len() > 32 {
                    continue;
                }
                for x in 0..32 {
                    b[32 * i + x] = w.get(x).copied().unwrap_or(0);
                }
                format!("element {} shifted", i)
            }
        };
        if b == proof {
            continue;
        }
        g.evals(1);
        let s = strat(g);
        let v = verdict::<S, K>(&j.p, s, &[(vk, &j.inst, &b)]).map_err(|e| Fail::from(format!("{} ({})", e.msg, what)))?;
        ensure!(v.is_err(), "altered proof verified under {:?} ({}; {} elements; round {})", s, what, chunks, round);
    }
    // every element altered once
    for i in 0..chunks {
        let mut b = proof.clone();
        b[32 * i] ^= 1;
        g.evals(1);
        let v = verdict::<S, K>(&j.p, Strat::Single, &[(vk, &j.inst, &b)])?;
        ensure!(v.is_err(), "altered proof verified (element {} of {})", i, chunks);
    }
    g.desc(|| format!("k={} elements={} {:?}", j.k, chunks, j.spec));
    Ok(())
}

fn same_statement<F: FieldExt>(a: &[Vec<Vec<F>>], b: &[Vec<Vec<F>>]) -> bool {
    let cut = |v: &Vec<F>| {
        let mut v = v.clone();
        while v.last() == Some(&F::zero()) {
            v.pop();
        }
        v
    };
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| cut(p) == cut(q)))
}

/// changes the meaning of a spec without changing its witness shape
pub fn vary<F: FieldExt>(g: &mut G, s: &Spec<F>) -> Option<(Spec<F>, &'static str)> {
    let mut t = s.clone();
    let fixed: Vec<(usize, (usize, usize))> = s.regs.iter().enumerate().flat_map(|(r, g)| g.fix.keys().map(move |k| (r, *k))).collect();
    let sels: Vec<(usize, (usize, usize))> = s.regs.iter().enumerate().flat_map(|(r, g)| g.sels.iter().map(move |k| (r, *k))).collect();
    let consts: Vec<(usize, (usize, usize))> = s.regs.iter().enumerate().flat_map(|(r, g)| g.adv.iter().filter(|x| matches!(x.1, Rule::Const(..))).map(move |k| (r, *k.0))).collect();
    let copies: Vec<(usize, (usize, usize))> = s.regs.iter().enumerate().flat_map(|(r, g)| g.adv.iter().filter(|x| matches!(x.1, Rule::Copy(..) | Rule::FixCopy(..))).map(move |k| (r, *k.0))).collect();
    match g.below(9) {
        0 if !fixed.is_empty() => {
            let (r, k) = *g.pick(&fixed);
            let v = t.regs[r].fix.get_mut(&k).unwrap();
            *v = *v + nz::<F>(g);
            Some((t, "fixed value"))
        }
        1 if !sels.is_empty() => {
            let (r, k) = *g.pick(&sels);
            t.regs[r].sels.remove(&k);
            Some((t, "selector activation"))
        }
        2 if !consts.is_empty() => {
            let (r, k) = *g.pick(&consts);
            if let Rule::Const(f, _) = t.regs[r].adv.get_mut(&k).unwrap() {
                *f = *f + nz::<F>(g);
            }
            Some((t, "constant"))
        }
        3 if !copies.is_empty() => {
            // redundant equalities may still imply the copy
            let (r, k) = *g.pick(&copies);
            t.regs[r].adv.insert(k, Rule::Free);
            for reg in &mut t.regs {
                reg.eqs.clear();
            }
            let mut u = s.clone();
            for reg in &mut u.regs {
                reg.eqs.clear();
            }
            if s.regs.iter().any(|r| !r.eqs.is_empty()) {
                return None;
            }
            Some((t, "copy"))
        }
        4 if !s.gates.is_empty() => {
            let i = g.usize(s.gates.len());
            let p = g.usize(s.gates[i].polys.len());
            let f = nz(g);
            match &mut t.gates[i].polys[p] {
                Poly::Out { e, .. } => *e = X::Add(Box::new(e.clone()), Box::new(X::C(f))),
                Poly::Small { m, .. } => *m += 1,
            }
            Some((t, "gate"))
        }
        5 if !s.tables.is_empty() => {
            let i = g.usize(s.tables.len());
            let r = g.usize(s.tables[i].rows.len());
            let c = g.usize(s.tables[i].cols.len());
            let v = &mut t.tables[i].rows[r][c];
            *v = *v + nz::<F>(g);
            Some((t, "table value"))
        }
        6 if !s.lks.is_empty() => {
            let i = g.usize(s.lks.len());
            let f = nz(g);
            let e = &mut t.lks[i].ins[0].2;
            *e = X::Add(Box::new(e.clone()), Box::new(X::C(f)));
            Some((t, "lookup input"))
        }
        7 => {
            let i = g.usize(s.adv.len());
            if s.adv[i].eq {
                return None;
            }
            t.adv[i].eq = true;
            Some((t, "equality column"))
        }
        8 => {
            t.fix.push(Fix { eq: false, kind: FixKind::Data });
            Some((t, "column count"))
        }
        _ => None,
    }
}

fn wrong_statement<S: Sys, K: Kind<S::C>, K2: Kind<S::C>, P: FloorPlanner>(g: &mut G, o: Opt, other: &dyn Fn(u32) -> Option<S::P>) -> R {
    let (j, proof) = honest_proof::<S, K, P>(g, o)?;
    let vk = j.pk.get_vk();
    g.desc(|| format!("k={} {:?}", j.k, j.spec));
    let s = strat(g);
    // public inputs
    for _ in 0..6 {
        let mut inst = j.inst.clone();
        let what;
        let i = g.usize(inst.len());
        let ncol = inst[i].len();
        match g.below(6) {
            0 if ncol > 0 => {
                let c = g.usize(ncol);
                if inst[i][c].is_empty() {
                    continue;
                }
                let r = g.usize(inst[i][c].len());
                let old = inst[i][c][r];
                inst[i][c][r] = false_value(g, Some(old));
                what = "value";
            }
            1 if ncol > 0 => {
                let c = g.usize(ncol);
                inst[i][c].push(fe(g));
                what = "appended value";
            }
            2 if ncol > 0 => {
                let c = g.usize(ncol);
                inst[i][c].pop();
                what = "removed value";
            }
            3 if inst.len() > 1 => {
                inst.swap(0, 1);
                what = "swapped copies";
            }
            4 if ncol > 1 => {
                let (a, b) = (g.usize(ncol), g.usize(ncol));
                inst[i].swap(a, b);
                what = "swapped columns";
            }
            5 => {
                // shape errors
                match g.below(4) {
                    0 if ncol > 0 => {
                        let c = g.usize(ncol);
                        let extra = (1usize << j.k) + g.usize(5);
                        inst[i][c].resize(extra, S::F::one());
                    }
                    1 => inst[i].push(vec![fe(g)]),
                    2 if ncol > 0 => {
                        inst[i].pop();
                    }
                    _ => {
                        let x = inst[0].clone();
                        inst.push(x);
                    }
                }
                what = "shape";
            }
            _ => continue,
        }
        if same_statement(&inst, &j.inst) {
            continue;
        }
        // Columns are absorbed as one sequence of values, so moving values across a column
        // border is only caught through the constraints that read them.
        let flat = |v: &[Vec<Vec<S::F>>]| v.iter().flatten().flatten().copied().collect::<Vec<_>>();
        if flat(&inst) == flat(&j.inst) && inst.len() == j.inst.len() {
            let mut holds = true;
            for (c, i) in j.cs.iter().zip(&inst) {
                match guarded(|| Lab::synth(j.k, c, i, 1).map(|l| l.accepts())) {
                    Ok(Ok(b)) => holds &= b,
                    _ => holds = false,
                }
            }
            if holds {
                g.class("instance: same values, unread columns");
                continue;
            }
        }
        g.class(&format!("instance: {}", what));
        g.nontrivial();
        g.evals(1);
        let v = verdict::<S, K>(&j.p, s, &[(vk, &inst, &proof)])?;
        ensure!(v.is_err(), "proof verified against other public inputs ({})", what);
    }
    // other transcript
    let v = verdict::<S, K2>(&j.p, s, &[(vk, &j.inst, &proof)])?;
    ensure!(v.is_err(), "proof verified under another transcript hash");
    // other parameters
    if let Some(p2) = other(j.k) {
        g.class("other parameters");
        let v = verdict::<S, K>(&p2, s, &[(vk, &j.inst, &proof)])?;
        ensure!(v.is_err(), "proof verified under other parameters");
    }
    // (the secret is not shared between sizes here, so this is a different setup)
    for k in [j.k + 1, j.k - 1] {
        let p3 = S::params(k);
        // a key and parameters that do not fit together may also be refused by an assertion
        let v = verdict::<S, K>(&p3, s, &[(vk, &j.inst, &proof)]);
        ensure!(!matches!(v, Ok(Ok(()))), "proof verified under parameters of another size");
    }
    // other key
    if let Some((t, what)) = vary(g, &j.spec) {
        g.class(&format!("other key: {}", what));
        let t = Arc::new(t);
        set_spec(&t);
        let mut c2 = j.cs[0].clone();
        c2.spec = t.clone();
        let vk2 = guarded(|| S::vk(&j.p, &c2.without_witnesses()));
        set_spec(&j.spec);
        if let Ok(Ok(vk2)) = vk2 {
            let v = verdict::<S, K>(&j.p, s, &[(&vk2, &j.inst, &proof)])?;
            ensure!(v.is_err(), "proof verified under the key of another circuit ({})", what);
        }
    }
    Ok(())
}

fn garbage<S: Sys, K: Kind<S::C>, P: FloorPlanner>(g: &mut G, o: Opt) -> R {
    let j = job::<S, P>(g, o, 2)?;
    let len = g.usize(40 * 32);
    let proof = match g.below(3) {
        0 => vec![0u8; len],
        1 => g.bytes(len),
        _ => {
            // decodable elements
            let mut b = vec![];
            for _ in 0..len / 32 + 60 {
                if g.bool() {
                    use group::GroupEncoding;
                    b.extend_from_slice(pt::<S::C>(g).to_bytes().as_ref());
                } else {
                    use ff::PrimeField;
                    b.extend_from_slice(fe::<S::F>(g).to_repr().as_ref());
                }
            }
            b
        }
    };
    g.nontrivial();
    let s = strat(g);
    let v = verdict::<S, K>(&j.p, s, &[(j.pk.get_vk(), &j.inst, &proof)])?;
    ensure!(v.is_err(), "garbage accepted as a proof");
    Ok(())
}

fn kzg_other(k: u32) -> Option<k::ParamsKZG<Bn256>> {
    static M: OnceLock<Mutex<HashMap<u32, Arc<k::ParamsKZG<Bn256>>>>> = OnceLock::new();
    Some((*cached(&M, k, || k::ParamsKZG::setup(k, Rng::new(0xdef0 + k as u64)))).clone())
}

macro_rules! by_hash {
    ($g:ident, $f:ident, $s:ty, $p:ty, $o:expr) => {
        match $g.below(3) {
            0 => $f::<$s, KB, $p>($g, $o),
            1 => $f::<$s, KK, $p>($g, $o),
            _ => $f::<$s, KP, $p>($g, $o),
        }
    };
}

pub fn c10() -> Check {
    let d = Opt::default();
    let small = Opt { max_gates: 2, max_regs: 3, ..d };
    let mut laws = vec![];
    macro_rules! add {
        ($s:ty, $n:expr, $q:expr, $t:expr, $other:expr) => {
            laws.push(Law::new(concat!("false witness ", $n), 4 * $q, 4 * $t, move |g| if g.bool() { by_hash!(g, false_witness, $s, V1, d) } else { by_hash!(g, false_witness, $s, SimpleFloorPlanner, d) }).shrink(150));
            laws.push(Law::new(concat!("altered proof ", $n), $q, $t, move |g| by_hash!(g, tampered, $s, SimpleFloorPlanner, small)).shrink(80));
            laws.push(
                Law::new(concat!("wrong statement ", $n), 2 * $q, 2 * $t, move |g| match g.below(3) {
                    0 => wrong_statement::<$s, KB, KK, V1>(g, small, &$other),
                    1 => wrong_statement::<$s, KK, KP, SimpleFloorPlanner>(g, small, &$other),
                    _ => wrong_statement::<$s, KP, KB, V1>(g, small, &$other),
                })
                .shrink(80),
            );
            laws.push(Law::new(concat!("garbage ", $n), $q, $t, move |g| by_hash!(g, garbage, $s, SimpleFloorPlanner, small)).shrink(80));
        };
    }
    add!(Gwc, "gwc", 12, 120, kzg_other);
    add!(Shp, "shplonk", 12, 120, kzg_other);
    add!(IpaEq, "ipa eq", 8, 80, |_| None);
    add!(IpaEp, "ipa ep", 4, 60, |_| None);
    laws.extend(crate::argu::laws());
    Check { id: "C10", rule: "a constraint was really violated, an element really altered, or the statement really different", assumptions: vec!["whether an altered witness violates the circuit is decided by direct evaluation of all gates, lookups and copies"], laws }
}

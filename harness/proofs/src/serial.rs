//! C12: keys and parameters through bytes.
use crate::plonk::*;
use crate::rcirc::*;
use crate::rgen::*;
use crate::transcripts::{Kind, KB, KK};
use crate::util::*;
use ff::{Field, PrimeField};
use group::GroupEncoding;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::helpers::SerdeFormat;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver};
use halo2_proofs::poly::ipa::commitment::ParamsIPA;
use halo2_proofs::poly::kzg::commitment::ParamsKZG;
use halo2_proofs::poly::EvaluationDomain;
use halo2curves::bn256::{Bn256, Fq, Fr, G1Affine, G2Affine};
use halo2curves::pasta::{EpAffine, EqAffine};
use halo2curves::serde::SerdeObject;
use halo2curves::CurveAffine;
use std::sync::Arc;
use vh_common::*;

const FORMATS: [SerdeFormat; 3] = [SerdeFormat::Processed, SerdeFormat::RawBytes, SerdeFormat::RawBytesUnchecked];
fn checked(f: SerdeFormat) -> bool {
    !matches!(f, SerdeFormat::RawBytesUnchecked)
}
fn point_len(f: SerdeFormat) -> usize {
    match f {
        SerdeFormat::Processed => 32,
        _ => 64,
    }
}

type VK = VerifyingKey<G1Affine>;
type PK = ProvingKey<G1Affine>;
fn vk_bytes(vk: &VK, f: SerdeFormat) -> Result<Vec<u8>, Fail> {
    let mut b = vec![];
    match guarded(|| vk.write(&mut b, f)) {
        Ok(Ok(())) => Ok(b),
        e => fail!("writing a verifying key in {:?}: {:?}", f, e),
    }
}
fn pk_bytes(pk: &PK, f: SerdeFormat) -> Result<Vec<u8>, Fail> {
    let mut b = vec![];
    match guarded(|| pk.write(&mut b, f)) {
        Ok(Ok(())) => Ok(b),
        e => fail!("writing a proving key in {:?}: {:?}", f, e),
    }
}
fn try_vk<P: FloorPlanner>(b: &mut &[u8], f: SerdeFormat) -> Result<Result<VK, String>, Fail> {
    match guarded(|| VK::read::<_, RC<Fr, P>>(b, f)) {
        Ok(r) => Ok(r.map_err(|e| format!("{:?}", e))),
        Err(e) => fail!("reading a verifying key in {:?} panicked: {}", f, e),
    }
}
fn try_pk<P: FloorPlanner>(b: &mut &[u8], f: SerdeFormat) -> Result<Result<PK, String>, Fail> {
    match guarded(|| PK::read::<_, RC<Fr, P>>(b, f)) {
        Ok(r) => Ok(r.map_err(|e| format!("{:?}", e))),
        Err(e) => fail!("reading a proving key in {:?} panicked: {}", f, e),
    }
}

fn keys<S: Sys<F = Fr, C = G1Affine>, K: Kind<G1Affine>, P: FloorPlanner>(g: &mut G) -> R {
    let spec: Arc<Spec<Fr>> = Arc::new(gen(g, Opt { max_gates: 6, ..Opt::default() }));
    let slack = if g.chance(1, 6) { 1 } else { 0 };
    let (c, k) = build::<Fr, P>(spec.clone(), g.u64(), slack);
    set_spec(&spec);
    classes(g, &spec);
    g.desc(|| format!("k={} {:?}", k, spec));
    let p = S::params(k);
    let pk = match guarded(|| S::pk2(&p, &c)) {
        Ok(Ok(pk)) => pk,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    let inst = vec![c.inst.clone()];
    let prove = |pk: &PK, xo: Xo| match guarded(|| S::prove::<K, _>(&p, pk, &[c.clone()], &inst, Rng(xo))) {
        Ok(Ok(p)) => Ok(p),
        e => Err(Fail::from(format!("proving failed: {:?}", e))),
    };
    let xo = g.xo();
    let proof = prove(&pk, xo.clone())?;
    let pinned = format!("{:?}", pk.get_vk().pinned());
    let shown = format!("{:?}", pk.get_vk());
    for f in FORMATS {
        let vb = vk_bytes(pk.get_vk(), f)?;
        let pb = pk_bytes(&pk, f)?;
        match guarded(|| (pk.get_vk().to_bytes(f), pk.to_bytes(f))) {
            Ok((a, b)) => {
                ensure!(a == vb, "to_bytes of the verifying key differs from write in {:?}", f);
                ensure!(b == pb, "to_bytes of the proving key differs from write in {:?}", f);
            }
            Err(e) => fail!("to_bytes panicked: {}", e),
        }
        // two objects one after the other
        let mut all = vb.clone();
        all.extend_from_slice(&pb);
        all.extend_from_slice(&vb);
        let mut r = &all[..];
        let vk1 = match try_vk::<P>(&mut r, f)? {
            Ok(v) => v,
            Err(e) => fail!("verifying key not read back in {:?}: {}", f, e),
        };
        ensure_eq!(r.len(), all.len() - vb.len(), "bytes consumed by a verifying key");
        let pk1 = match try_pk::<P>(&mut r, f)? {
            Ok(v) => v,
            Err(e) => fail!("proving key not read back in {:?}: {}", f, e),
        };
        ensure_eq!(r.len(), vb.len(), "bytes consumed by a proving key");
        let vk2 = match try_vk::<P>(&mut r, f)? {
            Ok(v) => v,
            Err(e) => fail!("second verifying key not read back in {:?}: {}", f, e),
        };
        ensure_eq!(r.len(), 0, "bytes left");
        match guarded(|| (VK::from_bytes::<RC<Fr, P>>(&vb, f).map(|v| v.to_bytes(f)), PK::from_bytes::<RC<Fr, P>>(&pb, f).map(|v| v.to_bytes(f)))) {
            Ok((Ok(a), Ok(b))) => ensure!(a == vb && b == pb, "from_bytes changes the key in {:?}", f),
            e => fail!("from_bytes failed in {:?}: {:?}", f, e.map(|(a, b)| (a.err(), b.err()))),
        }
        for (what, vk) in [("first", &vk1), ("second", &vk2), ("inside the proving key", pk1.get_vk())] {
            for f2 in FORMATS {
                ensure!(vk_bytes(vk, f2)? == vk_bytes(pk.get_vk(), f2)?, "verifying key ({}) changed through {:?}", what, f);
            }
            ensure_eq!(format!("{:?}", vk.pinned()), pinned, "pinned form through {:?}", f);
            ensure_eq!(format!("{:?}", vk), shown, "verifying key through {:?}", f);
            for s in [Strat::Single, Strat::Acc] {
                let v = verdict::<S, K>(&p, s, &[(vk, &inst, &proof)])?;
                ensure!(v.is_ok(), "proof refused under the key ({}) read in {:?}: {:?}", what, f, v);
            }
        }
        for f2 in FORMATS {
            ensure!(pk_bytes(&pk1, f2)? == pk_bytes(&pk, f2)?, "proving key changed through {:?}", f);
        }
        let proof1 = prove(&pk1, xo.clone())?;
        ensure!(proof1 == proof, "a proving key read in {:?} creates another proof", f);
        // a false statement stays false under the key read back
        if !inst[0].is_empty() {
            let i = g.usize(inst[0].len());
            let mut bad = inst.clone();
            bad[0][i].push(Fr::one());
            let v = verdict::<S, K>(&p, Strat::Single, &[(&vk1, &bad, &proof)])?;
            ensure!(v.is_err(), "altered public inputs accepted under the key read in {:?}", f);
        }
        if !checked(f) {
            continue;
        }
        // truncation
        let cut = |g: &mut G, n: usize| match g.below(4) {
            0 => n - 1 - g.usize(n.min(40)),
            1 => g.usize(n.min(200)),
            _ => g.usize(n),
        };
        for _ in 0..12 {
            let n = cut(g, vb.len());
            let r = try_vk::<P>(&mut &vb[..n], f)?;
            ensure!(r.is_err(), "verifying key cut to {} of {} bytes accepted in {:?}", n, vb.len(), f);
        }
        for _ in 0..8 {
            let n = cut(g, pb.len());
            let r = try_pk::<P>(&mut &pb[..n], f)?;
            ensure!(r.is_err(), "proving key cut to {} of {} bytes accepted in {:?}", n, pb.len(), f);
        }
        // what is no group element
        let np = pk.get_vk().fixed_commitments().len() + pk.get_vk().permutation().commitments().len();
        let pl = point_len(f);
        for _ in 0..6 {
            if np == 0 {
                break;
            }
            let i = g.usize(np);
            // the fixed commitments and the permutation's follow each other
            let off = 8 + i * pl;
            let mut b = vb.clone();
            let bad = no_point(g, f, &b[off..off + pl]);
            b[off..off + pl].copy_from_slice(&bad);
            let r = try_vk::<P>(&mut &b[..], f)?;
            ensure!(r.is_err(), "verifying key with an invalid point accepted in {:?} ({} of {})", f, i, np);
            // any other change of a point is refused or kept
            let mut b = vb.clone();
            b[off + g.usize(pl)] ^= 1 << g.below(8);
            if let Ok(v) = try_vk::<P>(&mut &b[..], f)? {
                ensure!(vk_bytes(&v, f)? == b, "another verifying key than written in {:?}", f);
            }
        }
        // what is no field element: the polynomials after the verifying key
        for _ in 0..6 {
            let n = 1usize << k;
            // l0, l_last, l_active_row: length and values
            let which = g.usize(3);
            let off = vb.len() + which * (4 + 32 * n) + 4 + 32 * g.usize(n);
            let mut b = pb.clone();
            let m = Fr::zero() - Fr::one();
            let mut v: Vec<u8> = match g.below(3) {
                0 => vec![0xff; 32],
                _ => (big(&m) + 1u8 + g.below(5)).to_bytes_le(),
            };
            v.resize(32, 0);
            b[off..off + 32].copy_from_slice(&v);
            let r = try_pk::<P>(&mut &b[..], f)?;
            ensure!(r.is_err(), "proving key with a number beyond the modulus accepted in {:?}", f);
        }
    }
    Ok(())
}

fn residue(v: Fq) -> bool {
    let e = (big(&(Fq::zero() - Fq::one()))) / 2u8;
    let d = e.to_u64_digits();
    v.pow_vartime(&[d[0], d[1], d[2], d[3]]) != -Fq::one()
}
/// bytes which encode no point, starting from a point's bytes
fn no_point(g: &mut G, f: SerdeFormat, old: &[u8]) -> Vec<u8> {
    let modulus = || -> Vec<u8> {
        let mut v = (big(&(-Fq::one())) + 1u8).to_bytes_le();
        v.resize(32, 0);
        v
    };
    match f {
        SerdeFormat::Processed => loop {
            if g.chance(1, 4) {
                return modulus();
            }
            let x: Fq = if g.bool() { Fq::from(1 + g.below(1000)) } else { Fq::random(Rng(g.xo())) };
            // (x = 0 would be the encoding of the identity)
            if x != Fq::zero() && !residue(x * x * x + Fq::from(3)) {
                return x.to_repr().as_ref().to_vec();
            }
        },
        _ => {
            let mut v = old.to_vec();
            match g.below(4) {
                0 => v[32..64].copy_from_slice(&modulus()),
                1 => v[..32].copy_from_slice(&[0xff; 32]),
                2 => {
                    // (0, 0) stands for the identity, so one coordinate must not be zero
                    let b = g.usize(30) * 8 + g.usize(8);
                    v[32 + b / 8] ^= 1 << (b % 8);
                    if v.iter().all(|x| *x == 0) {
                        v[32] = 2;
                    }
                }
                _ => {
                    let x = Fq::random(Rng(g.xo()));
                    let mut y = Fq::random(Rng(g.xo()));
                    while y * y == x * x * x + Fq::from(3) {
                        y += Fq::one();
                    }
                    v = x.to_raw_bytes();
                    v.extend(y.to_raw_bytes());
                }
            }
            v
        }
    }
}

// ------------------------------------------------------------------ parameters

fn kzg_params(g: &mut G) -> R {
    let k = g.range(1, 6) as u32;
    g.class(&format!("k={}", k));
    g.nontrivial();
    let n = 1usize << k;
    let p: ParamsKZG<Bn256> = ParamsKZG::setup(k, Rng(g.xo()));
    g.desc(|| format!("k={}", k));
    let d = EvaluationDomain::<Fr>::new(2, k);
    let poly = d.lagrange_from_vec(fes(g, n));
    let cp = d.lagrange_to_coeff(poly.clone());
    for f in FORMATS {
        let mut b = vec![];
        match guarded(|| p.write_custom(&mut b, f)) {
            Ok(Ok(())) => {}
            e => fail!("write {:?}: {:?}", f, e),
        }
        if matches!(f, SerdeFormat::RawBytes) {
            let mut b2 = vec![];
            Params::write(&p, &mut b2).map_err(|e| Fail::from(format!("{:?}", e)))?;
            match guarded(|| <ParamsKZG<Bn256> as Params<_>>::read(&mut &b2[..])) {
                Ok(Ok(q)) => {
                    let mut b3 = vec![];
                    Params::write(&q, &mut b3).unwrap();
                    ensure!(b2 == b3, "parameters changed by write and read");
                }
                e => fail!("read: {:?}", e.map(|r| r.err())),
            }
        }
        let mut all = b.clone();
        all.extend_from_slice(&[7; 5]);
        let mut r = &all[..];
        let q = match guarded(|| ParamsKZG::<Bn256>::read_custom(&mut r, f)) {
            Ok(Ok(q)) => q,
            e => fail!("parameters not read back in {:?}: {:?}", f, e.map(|r| r.err())),
        };
        ensure_eq!(r.len(), 5, "bytes left");
        for f2 in FORMATS {
            let (mut x, mut y) = (vec![], vec![]);
            p.write_custom(&mut x, f2).unwrap();
            q.write_custom(&mut y, f2).unwrap();
            ensure!(x == y, "parameters changed through {:?}", f);
        }
        ensure_eq!((q.k(), q.n()), (k, n as u64), "size");
        ensure_eq!((q.g2(), q.s_g2()), (p.g2(), p.s_g2()), "second group");
        ensure_eq!(q.commit_lagrange(&poly, Blind::default()), p.commit_lagrange(&poly, Blind::default()), "commitment by values");
        ensure_eq!(q.commit(&cp, Blind::default()), p.commit(&cp, Blind::default()), "commitment by coefficients");
        if !checked(f) {
            continue;
        }
        let read = |b: &[u8]| -> Result<bool, Fail> {
            match guarded(|| ParamsKZG::<Bn256>::read_custom(&mut &b[..], f)) {
                Ok(r) => Ok(r.is_ok()),
                Err(e) => fail!("reading parameters in {:?} panicked: {}", f, e),
            }
        };
        for _ in 0..6 {
            let cut = if g.bool() { b.len() - 1 - g.usize(80.min(b.len())) } else { g.usize(b.len()) };
            ensure!(!read(&b[..cut])?, "parameters cut to {} of {} accepted in {:?}", cut, b.len(), f);
        }
        let pl = point_len(f);
        for _ in 0..4 {
            let i = g.usize(2 * n);
            let mut b = b.clone();
            let off = 4 + i * pl;
            let bad = no_point(g, f, &b[off..off + pl]);
            b[off..off + pl].copy_from_slice(&bad);
            ensure!(!read(&b)?, "parameters with an invalid point accepted in {:?}", f);
        }
        // second group: coordinates beyond the modulus, points off the curve
        {
            let off = 4 + 2 * n * pl + if g.bool() { 2 * pl } else { 0 };
            let mut v = b.clone();
            v[off..off + 32].copy_from_slice(&[0xff; 32]);
            ensure!(!read(&v)?, "second group coordinate beyond the modulus accepted in {:?}", f);
            if matches!(f, SerdeFormat::RawBytes) {
                let mut v = b.clone();
                v[off + 64 + g.usize(28)] ^= 1 << g.below(8);
                ensure!(!read(&v)?, "second group point off the curve accepted in {:?}", f);
            }
        }
    }
    // smaller parameters
    let k2 = g.range(1, k as usize) as u32;
    let mut q = p.clone();
    q.downsize(k2);
    ensure_eq!((q.k(), q.n()), (k2, 1 << k2), "downsized");
    let d2 = EvaluationDomain::<Fr>::new(2, k2);
    let poly = d2.lagrange_from_vec(fes(g, 1 << k2));
    let cp = d2.lagrange_to_coeff(poly.clone());
    ensure_eq!(q.commit_lagrange(&poly, Blind::default()), q.commit(&cp, Blind::default()), "downsized: two forms");
    let mut wide: Vec<Fr> = cp.iter().copied().collect();
    wide.resize(n, Fr::zero());
    ensure_eq!(p.commit(&d.coeff_from_vec(wide), Blind::default()), q.commit(&cp, Blind::default()), "downsized: same secret");
    let mut b = vec![];
    q.write_custom(&mut b, SerdeFormat::RawBytes).unwrap();
    match guarded(|| ParamsKZG::<Bn256>::read_custom(&mut &b[..], SerdeFormat::RawBytes)) {
        Ok(Ok(r)) => {
            let mut b2 = vec![];
            r.write_custom(&mut b2, SerdeFormat::RawBytes).unwrap();
            ensure!(b == b2, "downsized parameters changed");
        }
        e => fail!("downsized parameters not read back: {:?}", e.map(|r| r.err())),
    }
    Ok(())
}

fn ipa_params<C: CurveAffine>(g: &mut G) -> R {
    let k = g.range(1, 5) as u32;
    g.class(&format!("k={}", k));
    g.nontrivial();
    let n = 1usize << k;
    let mut p: ParamsIPA<C> = ParamsIPA::new(k);
    let k2 = g.range(1, k as usize) as u32;
    g.desc(|| format!("k={} to {}", k, k2));
    let big_p = p.clone();
    if k2 < k {
        p.downsize(k2);
        let q: ParamsIPA<C> = ParamsIPA::new(k2);
        let (mut a, mut b) = (vec![], vec![]);
        p.write(&mut a).unwrap();
        q.write(&mut b).unwrap();
        ensure!(a == b, "downsized parameters differ from parameters of that size");
        ensure_eq!((p.k(), p.n()), (k2, 1 << k2), "downsized");
        p = big_p;
    }
    let mut b = vec![];
    p.write(&mut b).unwrap();
    let mut all = b.clone();
    all.extend_from_slice(&[9; 3]);
    let mut r = &all[..];
    let q = match guarded(|| ParamsIPA::<C>::read(&mut r)) {
        Ok(Ok(q)) => q,
        e => fail!("parameters not read back: {:?}", e.map(|r| r.err())),
    };
    ensure_eq!(r.len(), 3, "bytes left");
    let mut b2 = vec![];
    q.write(&mut b2).unwrap();
    ensure!(b == b2, "parameters changed");
    ensure_eq!((q.k(), q.n()), (k, n as u64), "size");
    let d = EvaluationDomain::<C::ScalarExt>::new(2, k);
    let poly = d.lagrange_from_vec(fes(g, n));
    let cp = d.lagrange_to_coeff(poly.clone());
    let r = Blind(rnd(g));
    ensure_eq!(q.commit_lagrange(&poly, r), p.commit_lagrange(&poly, r), "commitment by values");
    ensure_eq!(q.commit(&cp, r), p.commit(&cp, r), "commitment by coefficients");
    let read = |b: &[u8]| -> Result<bool, Fail> {
        match guarded(|| ParamsIPA::<C>::read(&mut &b[..])) {
            Ok(r) => Ok(r.is_ok()),
            Err(e) => fail!("reading parameters panicked: {}", e),
        }
    };
    for _ in 0..5 {
        let cut = if g.bool() { b.len() - 1 - g.usize(70.min(b.len())) } else { g.usize(b.len()) };
        ensure!(!read(&b[..cut])?, "parameters cut to {} of {} accepted", cut, b.len());
    }
    // an x coordinate beyond the modulus, or without a point
    for _ in 0..4 {
        let i = g.usize(2 * n + 2);
        let off = 4 + 32 * i;
        let mut v = b.clone();
        if g.bool() {
            v[off..off + 32].copy_from_slice(&[0xff; 32]);
            v[off + 31] = 0x7f;
        } else {
            loop {
                let x = C::Base::random(Rng(g.xo()));
                let y2 = x * x * x + C::a() * x + C::b();
                if bool::from(y2.sqrt().is_none()) {
                    v[off..off + 32].copy_from_slice(x.to_repr().as_ref());
                    break;
                }
            }
        }
        ensure!(!read(&v)?, "parameters with an invalid point accepted");
    }
    Ok(())
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "keys of a circuit with an active gate or lookup; parameters of any size",
        assumptions: vec![],
        laws: vec![
            Law::new("keys gwc", 20, 250, |g| keys::<Gwc, KK, V1>(g)).shrink(120),
            Law::new("keys shplonk", 20, 250, |g| keys::<Shp, KB, SimpleFloorPlanner>(g)).shrink(120),
            Law::new("kzg parameters", 40, 600, kzg_params).shrink(200),
            Law::new("ipa parameters", 40, 600, |g| if g.bool() { ipa_params::<EqAffine>(g) } else { ipa_params::<EpAffine>(g) }).shrink(200),
        ],
    }
}
#[allow(dead_code)]
fn _t(_: G2Affine) {
    let _ = G1Affine::default().to_bytes();
}

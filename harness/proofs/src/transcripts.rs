//! C15: Fiat-Shamir transcripts against an explicit log of everything absorbed.
use crate::util::*;
use ff::{Field, PrimeField};
use group::Curve;
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use halo2_proofs::transcript::*;
use halo2curves::{bn256, pasta, secp256k1};
use num_bigint::BigUint;
use sha3::{Digest, Keccak256};
use vh_common::*;

#[derive(Clone, Debug, PartialEq)]
pub enum M<C: CurveAffine> {
    P(C),
    S(C::ScalarExt),
    CP(C),
    CS(C::ScalarExt),
    Sq,
    SqScalar,
}

#[derive(Clone, Debug, PartialEq)]
enum Ab<C: CurveAffine> {
    P(C),
    S(C::ScalarExt),
    Sq,
}

fn wide<F: FieldExt>(b: &[u8]) -> F {
    let p = big(&(-F::one())) + 1u32;
    let x = BigUint::from_bytes_le(b) % p;
    let mut r = F::Repr::default();
    let v = x.to_bytes_le();
    r.as_mut()[..v.len()].copy_from_slice(&v);
    Option::<F>::from(F::from_repr(r)).unwrap()
}

fn coords<C: CurveAffine>(p: &C) -> (C::Base, C::Base) {
    let c = p.coordinates().unwrap();
    (*c.x(), *c.y())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hash {
    Blake,
    Keccak,
    Poseidon,
}

/// challenges prescribed for the absorbed history
fn oracle<C: CurveAffine>(h: Hash, log: &[Ab<C>]) -> Vec<C::ScalarExt> {
    let mut out = vec![];
    if h == Hash::Poseidon {
        let mut st = poseidon::Poseidon::<C::ScalarExt, 9, 8>::new(8, 63);
        for a in log {
            match a {
                Ab::P(p) => {
                    let (x, y) = coords(p);
                    st.update(&[wide::<C::ScalarExt>(x.to_repr().as_ref()), wide::<C::ScalarExt>(y.to_repr().as_ref())]);
                }
                Ab::S(s) => st.update(&[*s]),
                Ab::Sq => out.push(st.squeeze()),
            }
        }
        return out;
    }
    let mut bytes: Vec<u8> = vec![];
    for a in log {
        match a {
            Ab::P(p) => {
                bytes.push(1);
                let (x, y) = coords(p);
                bytes.extend_from_slice(x.to_repr().as_ref());
                bytes.extend_from_slice(y.to_repr().as_ref());
            }
            Ab::S(s) => {
                bytes.push(2);
                bytes.extend_from_slice(s.to_repr().as_ref());
            }
            Ab::Sq => {
                bytes.push(0);
                let d: Vec<u8> = if h == Hash::Blake {
                    blake2b_simd::Params::new().hash_length(64).personal(b"Halo2-Transcript").hash(&bytes).as_bytes().to_vec()
                } else {
                    let one = |t: u8| {
                        let mut k = Keccak256::new();
                        k.update(b"Halo2-Transcript");
                        k.update(&bytes);
                        k.update(&[t]);
                        k.finalize().to_vec()
                    };
                    let mut v = one(10);
                    v.extend(one(11));
                    v
                };
                out.push(wide(&d));
            }
        }
    }
    out
}

pub trait Kind<C: CurveAffine> {
    const H: Hash;
    type W: TranscriptWrite<C, Challenge255<C>> + Clone;
    type Rd<'a>: TranscriptRead<C, Challenge255<C>>;
    fn w() -> Self::W;
    fn fin(w: Self::W) -> Vec<u8>;
    fn r<'a>(b: &'a [u8]) -> Self::Rd<'a>;
}
pub struct KB;
pub struct KK;
pub struct KP;
macro_rules! kind {
    ($k:ident, $h:expr, $w:ident, $r:ident) => {
        impl<C: CurveAffine> Kind<C> for $k {
            const H: Hash = $h;
            type W = $w<Vec<u8>, C, Challenge255<C>>;
            type Rd<'a> = $r<&'a [u8], C, Challenge255<C>>;
            fn w() -> Self::W {
                $w::init(vec![])
            }
            fn fin(w: Self::W) -> Vec<u8> {
                w.finalize()
            }
            fn r<'a>(b: &'a [u8]) -> Self::Rd<'a> {
                $r::init(b)
            }
        }
    };
}
kind!(KB, Hash::Blake, Blake2bWrite, Blake2bRead);
kind!(KK, Hash::Keccak, Keccak256Write, Keccak256Read);
kind!(KP, Hash::Poseidon, PoseidonWrite, PoseidonRead);

fn msgs<C: CurveAffine>(g: &mut G, max: usize) -> Vec<M<C>> {
    let n = g.range(1, max);
    (0..n)
        .map(|_| match g.below(8) {
            0 | 1 => M::P(pt::<C>(g)),
            2 | 3 => M::S(fe(g)),
            4 => M::CP(pt::<C>(g)),
            5 => M::CS(fe(g)),
            6 => M::Sq,
            _ => M::SqScalar,
        })
        .collect()
}

fn log_of<C: CurveAffine>(ms: &[M<C>]) -> Vec<Ab<C>> {
    ms.iter()
        .map(|m| match m {
            M::P(p) | M::CP(p) => Ab::P(*p),
            M::S(s) | M::CS(s) => Ab::S(*s),
            M::Sq | M::SqScalar => Ab::Sq,
        })
        .collect()
}

fn run_write<C: CurveAffine, K: Kind<C>>(ms: &[M<C>]) -> Result<(Vec<C::ScalarExt>, Vec<u8>), String> {
    let mut w = K::w();
    let mut ch = vec![];
    for m in ms {
        match m {
            M::P(p) => w.write_point(*p).map_err(|e| format!("{e:?}"))?,
            M::S(s) => w.write_scalar(*s).map_err(|e| format!("{e:?}"))?,
            M::CP(p) => w.common_point(*p).map_err(|e| format!("{e:?}"))?,
            M::CS(s) => w.common_scalar(*s).map_err(|e| format!("{e:?}"))?,
            M::Sq => ch.push(w.squeeze_challenge().get_scalar()),
            M::SqScalar => ch.push(*w.squeeze_challenge_scalar::<()>()),
        }
    }
    Ok((ch, K::fin(w)))
}

fn run_read<C: CurveAffine, K: Kind<C>>(ms: &[M<C>], b: &[u8]) -> Result<(Vec<M<C>>, Vec<C::ScalarExt>), String> {
    let mut r = K::r(b);
    let mut ch = vec![];
    let mut seen = vec![];
    for m in ms {
        seen.push(match m {
            M::P(_) => M::P(r.read_point().map_err(|e| format!("{e:?}"))?),
            M::S(_) => M::S(r.read_scalar().map_err(|e| format!("{e:?}"))?),
            M::CP(p) => {
                r.common_point(*p).map_err(|e| format!("{e:?}"))?;
                m.clone()
            }
            M::CS(s) => {
                r.common_scalar(*s).map_err(|e| format!("{e:?}"))?;
                m.clone()
            }
            M::Sq => {
                ch.push(r.squeeze_challenge().get_scalar());
                m.clone()
            }
            M::SqScalar => {
                ch.push(*r.squeeze_challenge_scalar::<()>());
                m.clone()
            }
        });
    }
    Ok((seen, ch))
}

fn replay<C: CurveAffine, K: Kind<C>>(g: &mut G) -> R {
    let max = if g.below(6) == 0 { 60 } else { 14 };
    let ms = msgs::<C>(g, max);
    let nsq = ms.iter().filter(|m| matches!(m, M::Sq | M::SqScalar)).count();
    g.desc(|| format!("{:?} {} messages, {nsq} challenges", K::H, ms.len()));
    if nsq > 0 && nsq < ms.len() {
        g.nontrivial();
    }
    let (ch, proof) = run_write::<C, K>(&ms).map_err(|e| format!("writer refused: {e}"))?;
    ensure_eq!(ch, oracle(K::H, &log_of(&ms)), "challenges of the writer against the hash of {ms:?}");
    // bytes of the proof: exactly the written messages
    let mut want = vec![];
    for m in &ms {
        match m {
            M::P(p) => want.extend_from_slice(p.to_bytes().as_ref()),
            M::S(s) => want.extend_from_slice(s.to_repr().as_ref()),
            _ => {}
        }
    }
    ensure_eq!(proof, want, "proof bytes");
    let (seen, rch) = run_read::<C, K>(&ms, &proof).map_err(|e| format!("reader refused an honest proof: {e}"))?;
    ensure_eq!(seen, ms, "messages read");
    ensure_eq!(rch, ch, "challenges of the reader");
    // missing bytes
    if !proof.is_empty() {
        let cut = g.usize(proof.len());
        match guarded(|| run_read::<C, K>(&ms, &proof[..cut])) {
            Ok(r) => ensure!(r.is_err(), "proof cut from {} to {cut} bytes was read", proof.len()),
            Err(e) => fail!("proof cut to {cut} bytes: {e}"),
        }
        // one altered byte: an error, or another message which the challenges after it show
        let mut b = proof.clone();
        let i = g.usize(b.len());
        b[i] ^= 1 << g.below(8);
        match guarded(|| run_read::<C, K>(&ms, &b)) {
            Ok(Err(_)) => g.class("altered byte refused"),
            Ok(Ok((seen2, ch2))) => {
                g.class("altered byte read as another message");
                ensure!(seen2 != ms, "altered byte {i} went unnoticed");
                let pos = seen2.iter().zip(&ms).position(|(a, b)| a != b).unwrap();
                let before = ms[..pos].iter().filter(|m| matches!(m, M::Sq | M::SqScalar)).count();
                ensure_eq!(ch2[..before].to_vec(), ch[..before].to_vec(), "challenges before the altered message");
                for q in before..ch.len() {
                    ensure!(ch2[q] != ch[q], "challenge {q} does not depend on message {pos}");
                }
            }
            Err(e) => fail!("altered byte {i}: {e}"),
        }
    }
    Ok(())
}

fn binding<C: CurveAffine, K: Kind<C>>(g: &mut G) -> R {
    let mut ms = msgs::<C>(g, 10);
    if !ms.iter().any(|m| !matches!(m, M::Sq | M::SqScalar)) {
        ms.insert(0, M::S(fe(g)));
    }
    ms.push(M::Sq);
    let (ch, _) = run_write::<C, K>(&ms).map_err(|e| e)?;
    let data: Vec<usize> = (0..ms.len()).filter(|i| !matches!(ms[*i], M::Sq | M::SqScalar)).collect();
    let at = data[g.usize(data.len())];
    let mut m2 = ms.clone();
    let kind = g.below(5);
    let what;
    match kind {
        0 => {
            what = "value changed";
            m2[at] = match &ms[at] {
                M::P(p) => M::P((p.to_curve() + C::generator().to_curve()).to_affine()),
                M::CP(p) => M::CP(-*p),
                M::S(s) => M::S(*s + C::ScalarExt::one()),
                M::CS(s) => M::CS(-*s - C::ScalarExt::from(3)),
                x => x.clone(),
            };
            // 2G + ... could hit the identity
            if let M::P(p) = &m2[at] {
                if bool::from(p.is_identity()) {
                    return Ok(());
                }
            }
            if m2[at] == ms[at] {
                return Ok(());
            }
        }
        1 => {
            what = "message dropped";
            m2.remove(at);
        }
        2 => {
            what = "message added";
            let m = if g.bool() { M::CS(fe(g)) } else { M::CP(pt::<C>(g)) };
            m2.insert(at, m);
        }
        3 => {
            what = "messages swapped";
            let other = data[g.usize(data.len())];
            m2.swap(at, other);
            if log_of(&m2) == log_of(&ms) {
                return Ok(());
            }
        }
        _ => {
            what = "challenge added";
            m2.insert(at, M::Sq);
        }
    }
    g.nontrivial();
    g.desc(|| format!("{:?} {what} at {at} of {}", K::H, ms.len()));
    let (ch2, _) = match run_write::<C, K>(&m2) {
        Ok(v) => v,
        Err(_) => return Ok(()),
    };
    // challenges after the first difference, aligned from the end
    let (l1, l2) = (log_of(&ms), log_of(&m2));
    let p = l1.iter().zip(&l2).position(|(a, b)| a != b).unwrap_or(l1.len().min(l2.len()));
    let before = l1[..p].iter().filter(|m| matches!(m, Ab::Sq)).count();
    ensure_eq!(ch2[..before].to_vec(), ch[..before].to_vec(), "challenges before the change");
    let (a, b) = (&ch[before..], &ch2[before..]);
    // past the last point of difference every challenge must differ
    let mut tail = 0;
    while tail < l1.len() - p && tail < l2.len() - p && l1[l1.len() - 1 - tail] == l2[l2.len() - 1 - tail] {
        tail += 1;
    }
    let common = l1[l1.len() - tail..].iter().filter(|m| matches!(m, Ab::Sq)).count().min(a.len()).min(b.len());
    for i in 1..=common {
        ensure!(a[a.len() - i] != b[b.len() - i], "{what} at {at}: challenge {i} from the end is unchanged ({ms:?})");
    }
    g.evals(common);
    // all challenges of one transcript are distinct
    for i in 0..ch.len() {
        for j in 0..i {
            ensure!(ch[i] != ch[j], "challenges {j} and {i} coincide");
        }
    }
    Ok(())
}

/// malformed encodings and points at infinity
fn malformed<C: CurveAffine, K: Kind<C>>(g: &mut G) -> R {
    // the point at infinity: written and read alike, or refused on both sides
    let ms = vec![M::S(fe(g)), M::P(C::identity()), M::Sq];
    let enc = C::identity().to_bytes();
    match run_write::<C, K>(&ms) {
        Ok((ch, bytes)) => {
            g.class("infinity absorbed");
            let (seen, rch) = run_read::<C, K>(&ms, &bytes).map_err(|e| format!("point at infinity written but not read: {e}"))?;
            ensure_eq!(seen, ms, "point at infinity read back");
            ensure_eq!(rch, ch, "challenge after a point at infinity");
        }
        Err(_) => {
            g.class("infinity refused");
            ensure!(K::r(enc.as_ref()).read_point().is_err(), "the point at infinity cannot be written but was read");
        }
    }
    // scalars not below the modulus
    let p = big(&(-C::ScalarExt::one())) + 1u32;
    let top = (BigUint::from(1u32) << 256u32) - 1u32;
    let x = match g.below(3) {
        0 => p.clone() + g.below(3),
        1 => top.clone() - g.below(1000),
        _ => {
            let r = BigUint::from_bytes_le(&g.bytes(32));
            &p + r % (&top - &p + 1u32)
        }
    };
    let mut b = x.to_bytes_le();
    b.resize(32, 0);
    g.nontrivial();
    g.desc(|| format!("{:?} scalar bytes of 0x{x:x}", K::H));
    match guarded(|| K::r(&b).read_scalar().map(|_| ()).map_err(|_| ())) {
        Ok(r) => ensure!(r.is_err(), "non-canonical scalar 0x{x:x} was read"),
        Err(e) => fail!("non-canonical scalar: {e}"),
    }
    // random point bytes: either refused or read as the point they encode
    let mut repr = C::Repr::default();
    let n = repr.as_ref().len();
    repr.as_mut().copy_from_slice(&g.bytes(n));
    let got = guarded(|| K::r(repr.as_ref()).read_point().map_err(|e| format!("{e:?}")));
    match got {
        Ok(Ok(pt)) => {
            ensure!(bool::from(pt.is_on_curve()), "point off the curve was read");
            ensure_eq!(pt.to_bytes().as_ref().to_vec(), repr.as_ref().to_vec(), "bytes of the point read");
        }
        Ok(Err(_)) => ensure!(
            Option::<C>::from(C::from_bytes(&repr)).map(|p| bool::from(p.is_identity())).unwrap_or(true),
            "valid point encoding refused"
        ),
        Err(e) => fail!("point bytes: {e}"),
    }
    Ok(())
}

pub fn c15() -> Check {
    let mut laws = vec![];
    macro_rules! all {
        ($c:ty, $n:literal, $q:expr, $t:expr, $pq:expr, $pt:expr) => {
            laws.push(Law::new(concat!("replay blake2b ", $n), $q, $t, replay::<$c, KB>));
            laws.push(Law::new(concat!("replay keccak ", $n), $q, $t, replay::<$c, KK>));
            laws.push(Law::new(concat!("replay poseidon ", $n), $pq, $pt, replay::<$c, KP>));
            laws.push(Law::new(concat!("binding blake2b ", $n), $q, $t, binding::<$c, KB>));
            laws.push(Law::new(concat!("binding keccak ", $n), $q, $t, binding::<$c, KK>));
            laws.push(Law::new(concat!("binding poseidon ", $n), $pq, $pt, binding::<$c, KP>));
            laws.push(Law::new(concat!("malformed blake2b ", $n), $q, $t, malformed::<$c, KB>));
            laws.push(Law::new(concat!("malformed keccak ", $n), $q, $t, malformed::<$c, KK>));
            laws.push(Law::new(concat!("malformed poseidon ", $n), $pq / 2, $pt / 2, malformed::<$c, KP>));
        };
    }
    all!(bn256::G1Affine, "bn256", 1500, 30000, 40, 800);
    all!(pasta::EpAffine, "pallas", 400, 8000, 12, 200);
    all!(pasta::EqAffine, "vesta", 800, 16000, 20, 400);
    all!(secp256k1::Secp256k1Affine, "secp256k1", 200, 4000, 8, 100);
    Check {
        id: "C15",
        rule: "history mixes absorbed messages and challenges (replay), or really differs from the original (binding)",
        assumptions: vec![
            "oracle: explicit byte log hashed with the blake2b_simd / sha3 crates, reduced with big integers; Poseidon sponge of the poseidon crate (itself decided by C26)",
            "a Poseidon transcript absorbs field elements without type tags, so only changes of the absorbed sequence are judged",
            "collisions have negligible probability",
        ],
        laws,
    }
}

//! C20 / C21: prime fields against big-integer arithmetic.
use ff::{Field, PrimeField};
use halo2curves::serde::SerdeObject;
use halo2curves::{bn256, secp256k1, FieldExt};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vh_common::bigref::*;
use vh_common::*;

pub struct RngAdapter(pub Xo);
impl rand_core::RngCore for RngAdapter {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.0.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub const BN_Q: &str = "30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47";
pub const BN_R: &str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
pub const SECP_P: &str = "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f";
pub const SECP_N: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";

/// What the harness needs beyond the library's own traits.
pub trait TF: FieldExt + PrimeField<Repr = [u8; 32]> + SerdeObject + std::hash::Hash {
    const NAME: &'static str;
    const P: &'static str;
    /// root of unity / generator / delta available
    const FULL: bool;
    const HAS_ZETA: bool;
    fn raw(v: [u64; 4]) -> Self;
    fn frombytes(b: &[u8; 32]) -> Option<Self>;
    fn tobytes(&self) -> [u8; 32];
    fn legendre_(&self) -> Option<i32> {
        None
    }
}
macro_rules! tf {
    ($t:ty, $n:literal, $p:expr, $full:expr, $zeta:expr, $leg:expr) => {
        impl TF for $t {
            const NAME: &'static str = $n;
            const P: &'static str = $p;
            const FULL: bool = $full;
            const HAS_ZETA: bool = $zeta;
            fn raw(v: [u64; 4]) -> Self {
                <$t>::from_raw(v)
            }
            fn frombytes(b: &[u8; 32]) -> Option<Self> {
                Option::from(<$t>::from_bytes(b))
            }
            fn tobytes(&self) -> [u8; 32] {
                <$t>::to_bytes(self)
            }
            fn legendre_(&self) -> Option<i32> {
                let f: Option<fn(&$t) -> i32> = $leg;
                f.map(|f| f(self))
            }
        }
    };
}
fn leg(x: &bn256::Fq) -> i32 {
    match x.legendre() {
        bn256::LegendreSymbol::Zero => 0,
        bn256::LegendreSymbol::QuadraticResidue => 1,
        bn256::LegendreSymbol::QuadraticNonResidue => -1,
    }
}
tf!(bn256::Fq, "bn256_fq", BN_Q, false, true, Some(leg));
tf!(bn256::Fr, "bn256_fr", BN_R, true, true, None);
tf!(secp256k1::Fp, "secp_fp", SECP_P, false, false, None);
tf!(secp256k1::Fq, "secp_fq", SECP_N, true, false, None);

pub fn limbs(x: &BigUint) -> [u64; 4] {
    let b = to_le(x, 32);
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    l
}
/// library element from an integer below p
pub fn fe<F: TF>(x: &BigUint) -> F {
    F::raw(limbs(x))
}
pub fn fi<F: PrimeField>(x: &F) -> BigUint {
    le(x.to_repr().as_ref())
}

fn montgomery_edge<F: TF>(g: &mut G, p: &BigUint) -> BigUint {
    // value whose *internal* (Montgomery) representation is an edge pattern
    let m = edge_int(g, p);
    let rinv = invm(&((BigUint::one() << 256u32) % p), p).unwrap();
    mulm(&m, &rinv, p)
}
pub fn operand<F: TF>(g: &mut G, p: &BigUint) -> BigUint {
    if g.bool() {
        montgomery_edge::<F>(g, p)
    } else {
        edge_int(g, p)
    }
}
fn is_edge(x: &BigUint, p: &BigUint) -> bool {
    x.bits() < 200 || (p - x).bits() < 200
}

fn binops<F: TF>(g: &mut G) -> R {
    let p = hex(F::P);
    let n = 40;
    for i in 0..n {
        let a = operand::<F>(g, &p);
        let b = match g.below(6) {
            0 => a.clone(),
            1 => (&p - &a) % &p,
            _ => operand::<F>(g, &p),
        };
        if is_edge(&a, &p) || is_edge(&b, &p) {
            g.nontrivial();
        }
        if i == 0 {
            g.desc(|| format!("{} a=0x{:x} b=0x{:x}", F::NAME, a, b));
        }
        let (x, y): (F, F) = (fe(&a), fe(&b));
        ensure_eq!(fi(&x), a, "{} from_raw/to_repr of 0x{:x}", F::NAME, a);
        let chk = |name: &str, got: F, want: BigUint| -> R {
            let gi = fi(&got);
            ensure!(gi == want, "{} {}: a=0x{:x} b=0x{:x} got 0x{:x} want 0x{:x}", F::NAME, name, a, b, gi, want);
            // the result must be a canonical internal value: equality with a fresh element
            ensure!(got == fe::<F>(&want), "{} {}: a=0x{:x} b=0x{:x} result not equal to the same integer built afresh", F::NAME, name, a, b);
            Ok(())
        };
        chk("add", x + y, addm(&a, &b, &p))?;
        chk("add ref", x + &y, addm(&a, &b, &p))?;
        let mut t = x;
        t += y;
        chk("add_assign", t, addm(&a, &b, &p))?;
        let mut t = x;
        t += &y;
        chk("add_assign ref", t, addm(&a, &b, &p))?;
        chk("sub", x - y, subm(&a, &b, &p))?;
        chk("sub ref", x - &y, subm(&a, &b, &p))?;
        let mut t = x;
        t -= y;
        chk("sub_assign", t, subm(&a, &b, &p))?;
        chk("mul", x * y, mulm(&a, &b, &p))?;
        chk("mul ref", x * &y, mulm(&a, &b, &p))?;
        let mut t = x;
        t *= y;
        chk("mul_assign", t, mulm(&a, &b, &p))?;
        let mut t = x;
        t *= &y;
        chk("mul_assign ref", t, mulm(&a, &b, &p))?;
        chk("square", x.square(), mulm(&a, &a, &p))?;
        chk("double", x.double(), addm(&a, &a, &p))?;
        chk("neg", -x, (&p - &a) % &p)?;
        let mut t = x;
        t.group_add(&y);
        chk("group_add", t, addm(&a, &b, &p))?;
        let mut t = x;
        t.group_sub(&y);
        chk("group_sub", t, subm(&a, &b, &p))?;
        let mut t = x;
        t.group_scale(&y);
        chk("group_scale", t, mulm(&a, &b, &p))?;
        ensure_eq!(x == y, a == b, "{} ==", F::NAME);
        ensure_eq!(bool::from(x.ct_eq(&y)), a == b, "{} ct_eq", F::NAME);
        ensure_eq!(x.cmp(&y), a.cmp(&b), "{} cmp 0x{:x} 0x{:x}", F::NAME, a, b);
        ensure_eq!(x < y, a < b, "{} <", F::NAME);
        ensure_eq!(x >= y, a >= b, "{} >=", F::NAME);
        chk("select0", F::conditional_select(&x, &y, Choice::from(0)), a.clone())?;
        chk("select1", F::conditional_select(&x, &y, Choice::from(1)), b.clone())?;
        ensure_eq!(bool::from(x.is_odd()), a.bit(0), "{} is_odd", F::NAME);
        ensure_eq!(bool::from(x.is_even()), !a.bit(0), "{} is_even", F::NAME);
        ensure_eq!(bool::from(x.is_zero()), a.is_zero(), "{} is_zero", F::NAME);
        ensure_eq!(BigUint::from(x.get_lower_128()), &a % (BigUint::one() << 128u32), "{} get_lower_128", F::NAME);
        ensure_eq!(x.get_lower_32(), (&a % (1u64 << 32)).iter_u64_digits().next().unwrap_or(0) as u32, "{} get_lower_32", F::NAME);
        ensure_eq!(format!("{:?}", x), format!("0x{:0>64}", format!("{:x}", a)), "{} Debug", F::NAME);
        if let Some(l) = x.legendre_() {
            let want = if a.is_zero() { 0 } else if is_qr(&a, &p) { 1 } else { -1 };
            ensure_eq!(l, want, "{} legendre", F::NAME);
        }
    }
    g.evals(n * 30);
    Ok(())
}

fn unops<F: TF>(g: &mut G) -> R {
    let p = hex(F::P);
    let a = operand::<F>(g, &p);
    g.desc(|| format!("{} a=0x{:x}", F::NAME, a));
    if is_edge(&a, &p) {
        g.nontrivial();
    }
    let x: F = fe(&a);
    let inv: Option<F> = Option::from(x.invert());
    match (inv, invm(&a, &p)) {
        (None, None) => g.class("zero"),
        (Some(i), Some(w)) => ensure_eq!(fi(&i), w, "{} invert 0x{:x}", F::NAME, a),
        (i, w) => fail!("{} invert of 0x{:x}: {:?} vs {:?}", F::NAME, a, i, w),
    }
    let s: Option<F> = Option::from(x.sqrt());
    let qr = is_qr(&a, &p);
    ensure_eq!(s.is_some(), qr, "{} sqrt existence for 0x{:x}", F::NAME, a);
    if let Some(s) = s {
        ensure_eq!(mulm(&fi(&s), &fi(&s), &p), a, "{} sqrt value", F::NAME);
        g.class("square");
    }
    // square of a: root must be +-a
    let sq: F = fe(&mulm(&a, &a, &p));
    let s: Option<F> = Option::from(sq.sqrt());
    match s {
        Some(s) => {
            let si = fi(&s);
            ensure!(si == a || addm(&si, &a, &p).is_zero(), "{} sqrt(a^2) != +-a for 0x{:x}", F::NAME, a);
        }
        None => fail!("{} a^2 reported as non-square, a=0x{:x}", F::NAME, a),
    }
    // powers with multi-limb exponents
    let nl = g.range(1, 5);
    let e: Vec<u64> = (0..nl)
        .map(|_| match g.below(4) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            _ => g.u64(),
        })
        .collect();
    let mut eb = BigUint::zero();
    for (i, l) in e.iter().enumerate() {
        eb += BigUint::from(*l) << (64 * i);
    }
    ensure_eq!(fi(&x.pow_vartime(&e)), a.modpow(&eb, &p), "{} pow_vartime 0x{:x}^0x{:x}", F::NAME, a, eb);
    let e4 = limbs(&edge_int(g, &(BigUint::one() << 256u32)));
    let mut eb = BigUint::zero();
    for (i, l) in e4.iter().enumerate() {
        eb += BigUint::from(*l) << (64 * i);
    }
    ensure_eq!(fi(&x.pow(&e4)), a.modpow(&eb, &p), "{} pow 0x{:x}^0x{:x}", F::NAME, a, eb);
    // cube / sum / product helpers
    ensure_eq!(fi(&x.cube()), mulm(&mulm(&a, &a, &p), &a, &p), "{} cube", F::NAME);
    Ok(())
}

fn conv<F: TF>(g: &mut G) -> R {
    let p = hex(F::P);
    // from_raw accepts any 256-bit integer and reduces it
    let two256 = BigUint::one() << 256u32;
    let v = match g.below(5) {
        0 => edge_int(g, &two256),
        1 => (&p + BigUint::from(g.below(3))).min(&two256 - 1u32),
        2 => {
            let k = (&two256 - 1u32) / &p;
            let m = BigUint::from(g.below(8)) % (&k + 1u32);
            (&p * m + BigUint::from(g.below(3))) % &two256
        }
        3 => &two256 - 1u32 - BigUint::from(g.below(3)),
        _ => le(&g.bytes(32)),
    };
    if v >= p {
        g.nontrivial();
        g.class("needs reduction");
    }
    g.desc(|| format!("{} raw=0x{:x}", F::NAME, v));
    let x = F::raw(limbs(&v));
    ensure_eq!(fi(&x), &v % &p, "{} from_raw(0x{:x})", F::NAME, v);
    ensure!(x == fe::<F>(&(&v % &p)), "{} from_raw(0x{:x}) not canonical", F::NAME, v);
    // 512-bit
    let two512 = BigUint::one() << 512u32;
    let w = match g.below(5) {
        0 => edge_int(g, &two512),
        1 => (&two512 / &p - BigUint::from(g.below(2))) * &p + BigUint::from(g.below(2)),
        2 => &two512 - 1u32 - BigUint::from(g.below(3)),
        3 => {
            let hi = if g.bool() { edge_int(g, &two256) } else { p.clone() - BigUint::from(g.below(2)) };
            let lo = if g.bool() { edge_int(g, &two256) } else { &two256 - 1u32 - BigUint::from(g.below(3)) };
            (hi << 256u32) + lo
        }
        _ => le(&g.bytes(64)),
    } % &two512;
    let mut b = [0u8; 64];
    b.copy_from_slice(&to_le(&w, 64));
    let x = F::from_bytes_wide(&b);
    ensure_eq!(fi(&x), &w % &p, "{} from_bytes_wide(0x{:x})", F::NAME, w);
    ensure!(x == fe::<F>(&(&w % &p)), "{} from_bytes_wide(0x{:x}) not canonical", F::NAME, w);
    let u = match g.below(4) {
        0 => g.below(3),
        1 => u64::MAX - g.below(3),
        _ => g.u64(),
    };
    ensure_eq!(fi(&F::from(u)), BigUint::from(u), "{} From<u64> {}", F::NAME, u);
    let hi = match g.below(3) {
        0 => u64::MAX,
        1 => 0,
        _ => g.u64(),
    };
    let u2 = ((hi as u128) << 64) | u as u128;
    ensure_eq!(fi(&F::from_u128(u2)), BigUint::from(u2), "{} from_u128 {}", F::NAME, u2);
    ensure_eq!(fi(&F::from(g.bool())) < BigUint::from(2u8), true, "{} From<bool>", F::NAME);
    ensure!(F::from(true) == F::one() && F::from(false) == F::zero(), "{} From<bool>", F::NAME);
    // decimal strings
    let d = edge_int(g, &p);
    let s = d.to_string();
    ensure_eq!(F::from_str_vartime(&s).map(|x| fi(&x)), Some(d), "{} from_str_vartime {}", F::NAME, s);
    // sums and products over iterators
    let n = g.usize(6);
    let v: Vec<BigUint> = (0..n).map(|_| operand::<F>(g, &p)).collect();
    let fv: Vec<F> = v.iter().map(|x| fe(x)).collect();
    let want = v.iter().fold(BigUint::zero(), |a, b| addm(&a, b, &p));
    ensure_eq!(fi(&fv.iter().fold(F::zero(), |a, b| a + b)), want, "{} fold sum", F::NAME);
    let want = v.iter().fold(BigUint::one(), |a, b| mulm(&a, b, &p));
    ensure_eq!(fi(&fv.iter().fold(F::one(), |a, b| a * b)), want, "{} fold product", F::NAME);
    // random() yields the reduction of 512 rng bits in order
    let xo = g.xo();
    let mut r2 = xo.clone();
    let el = F::random(RngAdapter(xo));
    let mut wide = BigUint::zero();
    for i in 0..8u32 {
        wide += BigUint::from(r2.next()) << (64 * i);
    }
    let _ = wide; // the sampling order is not promised; only validity and spread are
    ensure!(fi(&el) < p, "{} random out of range", F::NAME);
    Ok(())
}

fn consts<F: TF>(g: &mut G) -> R {
    let p = hex(F::P);
    g.nontrivial();
    g.desc(|| format!("{} constants", F::NAME));
    ensure_eq!(hex(F::MODULUS), p, "{} MODULUS string", F::NAME);
    ensure_eq!(F::NUM_BITS as u64, p.bits(), "{} NUM_BITS", F::NAME);
    ensure_eq!(F::CAPACITY as u64, p.bits() - 1, "{} CAPACITY", F::NAME);
    ensure_eq!(fi(&F::zero()), BigUint::zero(), "zero");
    ensure_eq!(fi(&F::one()), BigUint::one(), "one");
    ensure_eq!(fi(&F::default()), BigUint::zero(), "default");
    ensure_eq!(fi(&(F::TWO_INV + F::TWO_INV)), BigUint::one(), "{} TWO_INV", F::NAME);
    ensure_eq!(fi(&(-F::one())), &p - 1u32, "{} -1", F::NAME);
    ensure_eq!(fi(&(F::zero() - F::one())), &p - 1u32, "{} 0-1", F::NAME);
    if F::HAS_ZETA {
        let z = fi(&F::ZETA);
        ensure!(z.modpow(&BigUint::from(3u8), &p).is_one() && !z.is_one(), "{} ZETA", F::NAME);
    }
    if F::FULL {
        let s = F::S;
        let t = (&p - 1u32) >> s;
        ensure!(((&t) << s) + 1u32 == p && t.bit(0), "{} S", F::NAME);
        let w = fi(&F::root_of_unity());
        ensure!(w.modpow(&(BigUint::one() << s), &p).is_one(), "{} root of unity order", F::NAME);
        ensure!(!w.modpow(&(BigUint::one() << (s - 1)), &p).is_one(), "{} root of unity primitive", F::NAME);
        ensure_eq!(mulm(&w, &fi(&F::ROOT_OF_UNITY_INV), &p), BigUint::one(), "{} ROOT_OF_UNITY_INV", F::NAME);
        let gen = fi(&F::multiplicative_generator());
        ensure!(!is_qr(&gen, &p), "{} generator is a square", F::NAME);
        if F::HAS_ZETA {
            ensure_eq!(fi(&F::DELTA), gen.modpow(&(BigUint::one() << s), &p), "{} DELTA", F::NAME);
        }
        ensure_eq!(gen.modpow(&t, &p), w, "{} root of unity = g^t", F::NAME);
        let tm: BigUint = (&t - 1u32) >> 1;
        ensure_eq!(
            F::T_MINUS1_OVER2.iter().enumerate().fold(BigUint::zero(), |a, (i, l)| a + (BigUint::from(*l) << (64 * i))),
            tm,
            "{} T_MINUS1_OVER2",
            F::NAME
        );
        let a = operand::<F>(g, &p);
        ensure_eq!(fi(&fe::<F>(&a).pow_by_t_minus1_over2()), a.modpow(&tm, &p), "{} pow_by_t_minus1_over2", F::NAME);
        // sqrt_ratio (documented in the FieldExt/SqrtRatio contract)
        let b = operand::<F>(g, &p);
        let (is, v) = F::sqrt_ratio(&fe(&a), &fe(&b));
        let is = bool::from(is);
        if a.is_zero() {
            ensure!(is && bool::from(v.is_zero()), "{} sqrt_ratio(0, b)", F::NAME);
        } else if b.is_zero() {
            ensure!(!is && bool::from(v.is_zero()), "{} sqrt_ratio(a, 0)", F::NAME);
        } else {
            let q = mulm(&a, &invm(&b, &p).unwrap(), &p);
            ensure_eq!(is, is_qr(&q, &p), "{} sqrt_ratio squareness", F::NAME);
            if is {
                ensure_eq!(mulm(&fi(&v), &fi(&v), &p), q, "{} sqrt_ratio value", F::NAME);
            } else {
                ensure_eq!(mulm(&fi(&v), &fi(&v), &p), mulm(&q, &w, &p), "{} sqrt_ratio nonsquare value", F::NAME);
            }
        }
    }
    Ok(())
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn add20<F: TF>(v: &mut Vec<Law>) {
    v.push(Law::new(leak(format!("{}.binops", F::NAME)), 1500, 40_000, binops::<F>));
    v.push(Law::new(leak(format!("{}.unops", F::NAME)), 1500, 40_000, unops::<F>));
    v.push(Law::new(leak(format!("{}.conversions", F::NAME)), 6000, 200_000, conv::<F>));
    v.push(Law::new(leak(format!("{}.constants", F::NAME)), 200, 2000, consts::<F>));
}

pub fn c20() -> Check {
    let mut laws = vec![];
    add20::<bn256::Fq>(&mut laws);
    add20::<bn256::Fr>(&mut laws);
    add20::<secp256k1::Fp>(&mut laws);
    add20::<secp256k1::Fq>(&mut laws);
    Check {
        id: "C20",
        rule: "a case is non-trivial when an operand is within 2^200 of 0 or p, or an integer to convert is not already reduced (carry/reduction paths); constants and identities always count",
        assumptions: vec!["num-bigint computes integer arithmetic correctly"],
        laws,
    }
}

// ------------------------------------------------------------------ C21

/// A 32-byte string biased to the modulus boundary.
pub fn edge_bytes32(g: &mut G, p: &BigUint) -> BigUint {
    let two256 = BigUint::one() << 256u32;
    match g.below(8) {
        0 => p - 1u32 - BigUint::from(g.below(3)),
        1 => (p + BigUint::from(g.below(3))).min(&two256 - 1u32),
        2 => {
            // differ from p in one limb / byte
            let i = g.usize(32);
            let d = BigUint::from(1 + g.below(255)) << (8 * i);
            if g.bool() || p < &d {
                (p + d).min(&two256 - 1u32)
            } else {
                p - d
            }
        }
        3 => &two256 - 1u32 - BigUint::from(g.below(3)),
        4 => edge_int(g, p),
        5 => {
            // equal to p in the high limbs, arbitrary low
            let k = 64 * (1 + g.below(3));
            let mask = (BigUint::one() << k) - 1u32;
            let low = le(&g.bytes(32)) & &mask;
            (p >> k << k) + low
        }
        6 => le(&g.bytes(32)) % p,
        _ => le(&g.bytes(32)),
    }
}

fn enc<F: TF>(g: &mut G) -> R {
    let p = hex(F::P);
    let v = edge_bytes32(g, &p);
    let ok = v < p;
    g.class(if ok { "canonical" } else { "non-canonical" });
    let near = if v < p { (&p - &v).bits() } else { (&v - &p).bits() };
    if near <= 250 {
        g.nontrivial();
    }
    g.desc(|| format!("{} bytes=0x{:x}", F::NAME, v));
    let mut b = [0u8; 32];
    b.copy_from_slice(&to_le(&v, 32));
    for (n, d) in [
        ("from_repr", guarded(|| Option::<F>::from(F::from_repr(b)))),
        ("from_repr_vartime", guarded(|| F::from_repr_vartime(b))),
        ("from_bytes", guarded(|| F::frombytes(&b))),
    ] {
        let d = d.map_err(|e| format!("{} {} panics on 0x{:x}: {}", F::NAME, n, v, e))?;
        ensure_eq!(d.is_some(), ok, "{} {} acceptance of 0x{:x}", F::NAME, n, v);
        if let Some(x) = d {
            ensure!(x == fe::<F>(&v), "{} {} decodes 0x{:x} to another element", F::NAME, n, v);
            ensure_eq!(x.to_repr(), b, "{} {} re-encoding", F::NAME, n);
            ensure_eq!(x.tobytes(), b, "{} {} re-encoding to_bytes", F::NAME, n);
        }
    }
    // raw (Montgomery) encodings
    let rinv = invm(&((BigUint::one() << 256u32) % &p), &p).unwrap();
    let d1 = guarded(|| F::from_raw_bytes(&b)).map_err(|e| format!("{} from_raw_bytes panics: {}", F::NAME, e))?;
    let mut rd = &b[..];
    let d2 = guarded(|| F::read_raw(&mut rd)).map_err(|e| format!("{} read_raw panics: {}", F::NAME, e))?;
    ensure_eq!(d1.is_some(), ok, "{} from_raw_bytes acceptance of 0x{:x}", F::NAME, v);
    ensure_eq!(d2.is_ok(), ok, "{} read_raw acceptance of 0x{:x}", F::NAME, v);
    if ok {
        let want = fe::<F>(&mulm(&v, &rinv, &p));
        for x in [d1.unwrap(), d2.unwrap(), F::from_raw_bytes_unchecked(&b), F::read_raw_unchecked(&mut &b[..])] {
            ensure!(x == want, "{} raw decoding of 0x{:x}", F::NAME, v);
            ensure_eq!(x.to_raw_bytes(), b.to_vec(), "{} raw re-encoding", F::NAME);
            let mut w: Vec<u8> = vec![];
            x.write_raw(&mut w).map_err(|e| e.to_string())?;
            ensure_eq!(w, b.to_vec(), "{} write_raw", F::NAME);
        }
        // injective: a different canonical string is a different element
        let v2 = edge_int(g, &p);
        ensure_eq!(fe::<F>(&v2) == fe::<F>(&v), v2 == v, "{} injectivity", F::NAME);
    }
    // wrong lengths
    let n = g.usize(70);
    if n != 32 {
        let junk = g.bytes(n);
        let d = guarded(|| F::from_raw_bytes(&junk)).map_err(|e| format!("{} from_raw_bytes panics on {} bytes: {}", F::NAME, n, e))?;
        ensure!(d.is_none(), "{} from_raw_bytes accepts {} bytes", F::NAME, n);
    }
    let n = g.usize(32);
    let short = &b[..n];
    let d = guarded(|| F::read_raw(&mut &short[..])).map_err(|e| format!("{} read_raw panics on {} bytes: {}", F::NAME, n, e))?;
    ensure!(d.is_err(), "{} read_raw accepts {} bytes", F::NAME, n);
    // reading consumes exactly 32 bytes
    if ok {
        let mut long = b.to_vec();
        let tail = g.bytes(5);
        long.extend_from_slice(&tail);
        let mut rd = &long[..];
        let _ = F::read_raw(&mut rd);
        ensure_eq!(rd, &tail[..], "{} read_raw consumption", F::NAME);
    }
    Ok(())
}

pub fn c21() -> Check {
    let mut laws = vec![];
    fn add<F: TF>(v: &mut Vec<Law>) {
        v.push(Law::new(leak(format!("{}.encodings", F::NAME)), 20_000, 500_000, enc::<F>));
    }
    add::<bn256::Fq>(&mut laws);
    add::<bn256::Fr>(&mut laws);
    add::<secp256k1::Fp>(&mut laws);
    add::<secp256k1::Fq>(&mut laws);
    laws.push(Law::new("bn256_fq2.encodings", 20_000, 500_000, crate::ext::fq2_enc));
    Check {
        id: "C21",
        rule: "a case is non-trivial when the encoded integer lies within 2^250 of the modulus (either side); both accepted and rejected strings are counted by class",
        assumptions: vec!["num-bigint computes integer arithmetic correctly"],
        laws,
    }
}

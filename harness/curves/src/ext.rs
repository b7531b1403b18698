//! C22: extension towers against schoolbook polynomial arithmetic over big integers.
use crate::fields::*;
use ff::{Field, PrimeField};
use halo2curves::bn256::{Fq, Fq12, Fq2, Fq6, LegendreSymbol};
use halo2curves::serde::SerdeObject;
use halo2curves::FieldExt;
use num_bigint::BigUint;
use num_traits::{One, Zero};
use std::sync::OnceLock;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vh_common::bigref::*;
use vh_common::*;

/// a0 + a1*u, u^2 = -1, over the integers modulo m (m = 3 mod 4)
#[derive(Clone, Debug)]
pub struct R2 {
    pub a: BigUint,
    pub b: BigUint,
    pub m: &'static BigUint,
}
impl PartialEq for R2 {
    fn eq(&self, o: &R2) -> bool {
        self.a == o.a && self.b == o.b
    }
}
pub fn bnq() -> &'static BigUint {
    static M: OnceLock<BigUint> = OnceLock::new();
    M.get_or_init(|| hex(BN_Q))
}
pub fn bnr() -> &'static BigUint {
    static M: OnceLock<BigUint> = OnceLock::new();
    M.get_or_init(|| hex(BN_R))
}
pub fn secpp() -> &'static BigUint {
    static M: OnceLock<BigUint> = OnceLock::new();
    M.get_or_init(|| hex(SECP_P))
}
impl R2 {
    pub fn new(a: BigUint, b: BigUint, m: &'static BigUint) -> R2 {
        R2 { a, b, m }
    }
    pub fn zero(m: &'static BigUint) -> R2 {
        R2::new(BigUint::zero(), BigUint::zero(), m)
    }
    pub fn int(v: u64, m: &'static BigUint) -> R2 {
        R2::new(BigUint::from(v) % m, BigUint::zero(), m)
    }
    pub fn is_zero(&self) -> bool {
        self.a.is_zero() && self.b.is_zero()
    }
    pub fn add(&self, o: &R2) -> R2 {
        R2::new(addm(&self.a, &o.a, self.m), addm(&self.b, &o.b, self.m), self.m)
    }
    pub fn sub(&self, o: &R2) -> R2 {
        R2::new(subm(&self.a, &o.a, self.m), subm(&self.b, &o.b, self.m), self.m)
    }
    pub fn neg(&self) -> R2 {
        R2::zero(self.m).sub(self)
    }
    pub fn mul(&self, o: &R2) -> R2 {
        let m = self.m;
        if self.b.is_zero() && o.b.is_zero() {
            return R2::new(mulm(&self.a, &o.a, m), BigUint::zero(), m);
        }
        let re = subm(&mulm(&self.a, &o.a, m), &mulm(&self.b, &o.b, m), m);
        let im = addm(&mulm(&self.a, &o.b, m), &mulm(&self.b, &o.a, m), m);
        R2::new(re, im, m)
    }
    pub fn conj(&self) -> R2 {
        R2::new(self.a.clone(), subm(&BigUint::zero(), &self.b, self.m), self.m)
    }
    pub fn norm(&self) -> BigUint {
        addm(&mulm(&self.a, &self.a, self.m), &mulm(&self.b, &self.b, self.m), self.m)
    }
    pub fn inv(&self) -> Option<R2> {
        let n = invm(&self.norm(), self.m)?;
        let c = self.conj();
        Some(R2::new(mulm(&c.a, &n, self.m), mulm(&c.b, &n, self.m), self.m))
    }
    pub fn pow(&self, e: &BigUint) -> R2 {
        let mut r = R2::int(1, self.m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r);
            if e.bit(i) {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn sqrt(&self) -> Option<R2> {
        let m = self.m;
        let sq = |x: &BigUint| -> Option<BigUint> {
            let r = x.modpow(&((m + 1u32) >> 2), m);
            if &mulm(&r, &r, m) == x {
                Some(r)
            } else {
                None
            }
        };
        if self.b.is_zero() {
            if let Some(r) = sq(&self.a) {
                return Some(R2::new(r, BigUint::zero(), m));
            }
            let r = sq(&subm(&BigUint::zero(), &self.a, m))?;
            return Some(R2::new(BigUint::zero(), r, m));
        }
        let s = sq(&self.norm())?;
        let half = (m + 1u32) >> 1;
        let d1 = mulm(&addm(&self.a, &s, m), &half, m);
        let d2 = mulm(&subm(&self.a, &s, m), &half, m);
        let x = sq(&d1).filter(|x| !x.is_zero()).or_else(|| sq(&d2))?;
        let y = mulm(&self.b, &invm(&addm(&x, &x, m), m)?, m);
        let r = R2::new(x, y, m);
        if &r.mul(&r) == self {
            Some(r)
        } else {
            None
        }
    }
}
pub fn xi() -> R2 {
    R2::new(BigUint::from(9u8), BigUint::one(), bnq())
}
/// Element of Fq2[w]/(w^6 - xi)
pub type W6 = [R2; 6];
pub fn w_zero() -> W6 {
    core::array::from_fn(|_| R2::zero(bnq()))
}
pub fn w_one() -> W6 {
    let mut r = w_zero();
    r[0] = R2::int(1, bnq());
    r
}
pub fn w_mul(a: &W6, b: &W6) -> W6 {
    let mut t: Vec<R2> = vec![R2::zero(bnq()); 11];
    for i in 0..6 {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..6 {
            if b[j].is_zero() {
                continue;
            }
            t[i + j] = t[i + j].add(&a[i].mul(&b[j]));
        }
    }
    let x = xi();
    for i in (6..11).rev() {
        let c = t[i].mul(&x);
        t[i - 6] = t[i - 6].add(&c);
    }
    core::array::from_fn(|i| t[i].clone())
}
pub fn w_map2(a: &W6, b: &W6, f: impl Fn(&R2, &R2) -> R2) -> W6 {
    core::array::from_fn(|i| f(&a[i], &b[i]))
}
pub fn w_frob(a: &W6) -> W6 {
    static G: OnceLock<R2> = OnceLock::new();
    let gamma = G.get_or_init(|| xi().pow(&((bnq() - 1u32) / 6u32)));
    let mut p = R2::int(1, bnq());
    let mut out = w_zero();
    for i in 0..6 {
        out[i] = a[i].conj().mul(&p);
        p = p.mul(gamma);
    }
    out
}

pub fn l2(x: &R2) -> Fq2 {
    Fq2::new(fe::<Fq>(&x.a), fe::<Fq>(&x.b))
}
pub fn r2(x: &Fq2) -> R2 {
    R2::new(fi(&x.c0), fi(&x.c1), bnq())
}
fn l6(x: &W6) -> Fq6 {
    Fq6 { c0: l2(&x[0]), c1: l2(&x[2]), c2: l2(&x[4]) }
}
fn r6(x: &Fq6) -> W6 {
    let z = R2::zero(bnq());
    [r2(&x.c0), z.clone(), r2(&x.c1), z.clone(), r2(&x.c2), z]
}
fn l12(x: &W6) -> Fq12 {
    Fq12 {
        c0: Fq6 { c0: l2(&x[0]), c1: l2(&x[2]), c2: l2(&x[4]) },
        c1: Fq6 { c0: l2(&x[1]), c1: l2(&x[3]), c2: l2(&x[5]) },
    }
}
fn r12(x: &Fq12) -> W6 {
    [r2(&x.c0.c0), r2(&x.c1.c0), r2(&x.c0.c1), r2(&x.c1.c1), r2(&x.c0.c2), r2(&x.c1.c2)]
}

pub fn gen2(g: &mut G) -> R2 {
    let q = bnq();
    match g.below(8) {
        0 => R2::zero(q),
        1 => R2::int(1, q),
        2 => R2::new(operand::<Fq>(g, q), BigUint::zero(), q),
        3 => R2::new(BigUint::zero(), operand::<Fq>(g, q), q),
        4 => {
            let a = operand::<Fq>(g, q);
            let b = if g.bool() { a.clone() } else { subm(&BigUint::zero(), &a, q) };
            R2::new(a, b, q)
        }
        _ => {
            let a = operand::<Fq>(g, q);
            let b = operand::<Fq>(g, q);
            R2::new(a, b, q)
        }
    }
}
fn genw(g: &mut G, six: bool) -> (W6, bool) {
    let mut w = w_zero();
    let kind = g.below(8);
    let mut special = true;
    let idx: Vec<usize> = if six { vec![0, 2, 4] } else { (0..6).collect() };
    match kind {
        0 => {}
        1 => w = w_one(),
        2 => w[0] = gen2(g),
        3 => {
            let i = *g.pick(&idx);
            w[i] = gen2(g);
        }
        4 => {
            for &i in &idx {
                if g.bool() {
                    w[i] = gen2(g);
                }
            }
        }
        _ => {
            special = false;
            for &i in &idx {
                w[i] = gen2(g);
            }
        }
    }
    (w, special)
}

macro_rules! ck {
    ($g:expr, $name:expr, $got:expr, $want:expr) => {{
        let (a, b) = ($got, $want);
        $g.evals(1);
        ensure!(a == b, "{}: got {:?} want {:?}", $name, a, b);
    }};
}

pub fn fq2(g: &mut G) -> R {
    let a = gen2(g);
    let b = match g.below(6) {
        0 => a.clone(),
        1 => a.neg(),
        2 => a.conj(),
        _ => gen2(g),
    };
    g.desc(|| format!("fq2 a={:x?} b={:x?}", (&a.a.to_string(), &a.b.to_string()), (&b.a.to_string(), &b.b.to_string())));
    if a.a.is_zero() || a.b.is_zero() || b.a.is_zero() || b.b.is_zero() || a == b || a.a == a.b {
        g.nontrivial();
    }
    let (x, y) = (l2(&a), l2(&b));
    ck!(g, "add", r2(&(x + y)), a.add(&b));
    ck!(g, "sub", r2(&(x - y)), a.sub(&b));
    ck!(g, "mul", r2(&(x * y)), a.mul(&b));
    ck!(g, "mul refs", r2(&(&x * &y)), a.mul(&b));
    ck!(g, "neg", r2(&-x), a.neg());
    ck!(g, "square", r2(&x.square()), a.mul(&a));
    ck!(g, "double", r2(&x.double()), a.add(&a));
    let mut t = x;
    t.mul_assign(&y);
    ck!(g, "mul_assign", r2(&t), a.mul(&b));
    let mut t = x;
    t += y;
    ck!(g, "+=", r2(&t), a.add(&b));
    let mut t = x;
    t -= &y;
    ck!(g, "-=", r2(&t), a.sub(&b));
    let mut t = x;
    t *= &y;
    ck!(g, "*=", r2(&t), a.mul(&b));
    let mut t = x;
    t.square_assign();
    ck!(g, "square_assign", r2(&t), a.mul(&a));
    let mut t = x;
    t.double_assign();
    ck!(g, "double_assign", r2(&t), a.add(&a));
    let mut t = x;
    t.conjugate();
    ck!(g, "conjugate", r2(&t), a.conj());
    let n = g.usize(6);
    let mut t = x;
    t.frobenius_map(n);
    ck!(g, "frobenius", r2(&t), if n % 2 == 1 { a.conj() } else { a.clone() });
    let mut t = x;
    t.mul_by_nonresidue();
    ck!(g, "mul_by_nonresidue", r2(&t), a.mul(&xi()));
    let mut t = x;
    t.mul_by_xi();
    ck!(g, "mul_by_xi", r2(&t), a.mul(&xi()));
    ck!(g, "norm", fi(&x.norm()), a.norm());
    let inv: Option<Fq2> = Option::from(x.invert());
    ck!(g, "invert", inv.map(|v| r2(&v)), a.inv());
    let ls = x.legendre();
    let want = if a.is_zero() {
        LegendreSymbol::Zero
    } else if a.sqrt().is_some() {
        LegendreSymbol::QuadraticResidue
    } else {
        LegendreSymbol::QuadraticNonResidue
    };
    ck!(g, "legendre", ls, want);
    let s: Option<Fq2> = Option::from(x.sqrt());
    ck!(g, "sqrt exists", s.is_some(), a.sqrt().is_some());
    if let Some(s) = s {
        let s = r2(&s);
        ck!(g, "sqrt value", s.mul(&s), a.clone());
    }
    let aa = a.mul(&a);
    let s: Option<Fq2> = Option::from(l2(&aa).sqrt());
    match s {
        None => fail!("sqrt(a^2) missing for {:?}", a),
        Some(s) => {
            let s = r2(&s);
            ck!(g, "sqrt(a^2)", s == a || s == a.neg(), true);
        }
    }
    ck!(g, "eq", x == y, a == b);
    ck!(g, "ct_eq", bool::from(x.ct_eq(&y)), a == b);
    ck!(g, "is_zero", bool::from(x.is_zero()), a.is_zero());
    ck!(g, "ord", x.cmp(&y), (&a.b, &a.a).cmp(&(&b.b, &b.a)));
    ck!(g, "select", r2(&Fq2::conditional_select(&x, &y, Choice::from(1))), b.clone());
    ck!(g, "select0", r2(&Fq2::conditional_select(&x, &y, Choice::from(0))), a.clone());
    let u = g.u64();
    ck!(g, "from u64", r2(&Fq2::from(u)), R2::int(u, bnq()));
    let u = ((g.u64() as u128) << 64) | u as u128;
    ck!(g, "from u128", r2(&Fq2::from_u128(u)), R2::new(BigUint::from(u), BigUint::zero(), bnq()));
    ck!(g, "two_inv", r2(&(Fq2::TWO_INV + Fq2::TWO_INV)), R2::int(1, bnq()));
    let e = [g.u64(), g.below(3)];
    let eb = BigUint::from(e[0]) + (BigUint::from(e[1]) << 64u32);
    ck!(g, "pow", r2(&x.pow_vartime(&e)), a.pow(&eb));
    let mut t = x;
    halo2curves::Group::group_scale(&mut t, &y);
    ck!(g, "group_scale", r2(&t), a.mul(&b));
    Ok(())
}

pub fn fq2_enc(g: &mut G) -> R {
    let q = bnq();
    let a = edge_bytes32(g, q);
    let b = edge_bytes32(g, q);
    let ok = &a < q && &b < q;
    g.class(if ok { "canonical" } else if &a < q { "c1 out of range" } else if &b < q { "c0 out of range" } else { "both out of range" });
    g.nontrivial();
    g.desc(|| format!("fq2 bytes c0=0x{:x} c1=0x{:x}", a, b));
    let mut bytes = [0u8; 64];
    bytes[..32].copy_from_slice(&to_le(&a, 32));
    bytes[32..].copy_from_slice(&to_le(&b, 32));
    let mut repr = <Fq2 as PrimeField>::Repr::default();
    repr.as_mut().copy_from_slice(&bytes);
    let want = R2::new(a.clone(), b.clone(), q);
    for (n, d) in [
        ("from_bytes", guarded(|| Option::<Fq2>::from(Fq2::from_bytes(&bytes)))),
        ("from_repr", guarded(|| Option::<Fq2>::from(Fq2::from_repr(repr)))),
    ] {
        let d = d.map_err(|e| format!("fq2 {n} panics on c0=0x{:x} c1=0x{:x}: {e}", a, b))?;
        ensure_eq!(d.is_some(), ok, "fq2 {n} acceptance of c0=0x{:x} c1=0x{:x}", a, b);
        if let Some(x) = d {
            ensure_eq!(r2(&x), want, "fq2 {n} value");
            ensure!(x == l2(&want), "fq2 {n} element");
            ensure_eq!(x.to_bytes().to_vec(), bytes.to_vec(), "fq2 to_bytes");
            ensure_eq!(x.to_repr().as_ref().to_vec(), bytes.to_vec(), "fq2 to_repr");
            let arr: [u8; 64] = x.into();
            ensure_eq!(arr.to_vec(), bytes.to_vec(), "fq2 into bytes");
        }
    }
    let d1 = guarded(|| Fq2::from_raw_bytes(&bytes)).map_err(|e| format!("fq2 from_raw_bytes panics {e}"))?;
    let mut rd = &bytes[..];
    let d2 = guarded(|| Fq2::read_raw(&mut rd)).map_err(|e| format!("fq2 read_raw panics {e}"))?;
    ensure_eq!(d1.is_some(), ok, "fq2 from_raw_bytes acceptance");
    ensure_eq!(d2.is_ok(), ok, "fq2 read_raw acceptance");
    if ok {
        let rinv = invm(&((BigUint::one() << 256u32) % q), q).unwrap();
        let want = R2::new(mulm(&a, &rinv, q), mulm(&b, &rinv, q), q);
        for x in [d1.unwrap(), d2.unwrap(), Fq2::from_raw_bytes_unchecked(&bytes), Fq2::read_raw_unchecked(&mut &bytes[..])] {
            ensure_eq!(r2(&x), want, "fq2 raw value");
            ensure_eq!(x.to_raw_bytes(), bytes.to_vec(), "fq2 raw re-encode");
            let mut w: Vec<u8> = vec![];
            x.write_raw(&mut w).map_err(|e| e.to_string())?;
            ensure_eq!(w, bytes.to_vec(), "fq2 write_raw");
        }
    }
    let n = g.usize(130);
    if n != 64 {
        let junk = g.bytes(n);
        let d = guarded(|| Fq2::from_raw_bytes(&junk)).map_err(|e| format!("fq2 from_raw_bytes panics on {n} bytes: {e}"))?;
        ensure!(d.is_none(), "fq2 from_raw_bytes accepts {n} bytes");
    }
    let n = g.usize(64);
    let d = guarded(|| Fq2::read_raw(&mut &bytes[..n])).map_err(|e| format!("fq2 read_raw panics on {n} bytes: {e}"))?;
    ensure!(d.is_err(), "fq2 read_raw accepts {n} bytes");
    Ok(())
}

fn fq6(g: &mut G) -> R {
    let (a, sp) = genw(g, true);
    let b = match g.below(6) {
        0 => a.clone(),
        _ => genw(g, true).0,
    };
    if sp || a == b {
        g.nontrivial();
    }
    g.desc(|| format!("fq6 a={:?}", l6(&a)));
    let (x, y) = (l6(&a), l6(&b));
    ck!(g, "add", r6(&(x + y)), w_map2(&a, &b, |p, q| p.add(q)));
    ck!(g, "sub", r6(&(x - y)), w_map2(&a, &b, |p, q| p.sub(q)));
    ck!(g, "mul", r6(&(x * y)), w_mul(&a, &b));
    let mut t = x;
    t.mul_assign(&y);
    ck!(g, "mul_assign", r6(&t), w_mul(&a, &b));
    ck!(g, "square", r6(&x.square()), w_mul(&a, &a));
    let mut t = x;
    t.square_assign();
    ck!(g, "square_assign", r6(&t), w_mul(&a, &a));
    ck!(g, "double", r6(&x.double()), w_map2(&a, &a, |p, q| p.add(q)));
    let mut t = x;
    t.double_assign();
    ck!(g, "double_assign", r6(&t), w_map2(&a, &a, |p, q| p.add(q)));
    ck!(g, "neg", r6(&-x), w_map2(&a, &a, |p, _| p.neg()));
    let mut v = w_zero();
    v[2] = R2::int(1, bnq());
    let mut t = x;
    t.mul_by_nonresidue();
    ck!(g, "mul_by_nonresidue", r6(&t), w_mul(&a, &v));
    let mut t = x;
    t.mul_by_v();
    ck!(g, "mul_by_v", r6(&t), w_mul(&a, &v));
    let (c0, c1) = (gen2(g), gen2(g));
    let mut s = w_zero();
    s[2] = c1.clone();
    let mut t = x;
    t.mul_by_1(&l2(&c1));
    ck!(g, "mul_by_1", r6(&t), w_mul(&a, &s));
    s[0] = c0.clone();
    let mut t = x;
    t.mul_by_01(&l2(&c0), &l2(&c1));
    ck!(g, "mul_by_01", r6(&t), w_mul(&a, &s));
    let n = g.usize(14);
    let mut t = x;
    t.frobenius_map(n);
    let mut want = a.clone();
    for _ in 0..n {
        want = w_frob(&want);
    }
    ck!(g, format!("frobenius {n}"), r6(&t), want);
    let inv: Option<Fq6> = Option::from(Field::invert(&x));
    let zero = a.iter().all(|c| c.is_zero());
    ck!(g, "invertible", inv.is_none(), zero);
    if let Some(i) = inv {
        ck!(g, "inverse", w_mul(&r6(&i), &a), w_one());
    }
    ck!(g, "eq", x == y, a == b);
    ck!(g, "is_zero", bool::from(x.is_zero()), zero);
    Ok(())
}

fn fq12(g: &mut G) -> R {
    let (a, sp) = genw(g, false);
    let b = match g.below(6) {
        0 => a.clone(),
        _ => genw(g, false).0,
    };
    if sp || a == b {
        g.nontrivial();
    }
    g.desc(|| format!("fq12 a={:?}", l12(&a)));
    let (x, y) = (l12(&a), l12(&b));
    ck!(g, "add", r12(&(x + y)), w_map2(&a, &b, |p, q| p.add(q)));
    ck!(g, "sub", r12(&(x - y)), w_map2(&a, &b, |p, q| p.sub(q)));
    ck!(g, "mul", r12(&(x * y)), w_mul(&a, &b));
    let mut t = x;
    t.mul_assign(&y);
    ck!(g, "mul_assign", r12(&t), w_mul(&a, &b));
    ck!(g, "square", r12(&x.square()), w_mul(&a, &a));
    let mut t = x;
    t.square_assign();
    ck!(g, "square_assign", r12(&t), w_mul(&a, &a));
    ck!(g, "double", r12(&x.double()), w_map2(&a, &a, |p, q| p.add(q)));
    ck!(g, "neg", r12(&-x), w_map2(&a, &a, |p, _| p.neg()));
    let mut t = x;
    t.conjugate();
    let want: W6 = core::array::from_fn(|i| if i % 2 == 1 { a[i].neg() } else { a[i].clone() });
    ck!(g, "conjugate", r12(&t), want);
    let (c0, c1, c2) = (gen2(g), gen2(g), gen2(g));
    // positions: index i of "mul_by_ijk" counts (c0.c0, c0.c1, c0.c2, c1.c0, c1.c1, c1.c2)
    let mut s = w_zero();
    s[0] = c0.clone();
    s[2] = c1.clone();
    s[3] = c2.clone();
    let mut t = x;
    t.mul_by_014(&l2(&c0), &l2(&c1), &l2(&c2));
    ck!(g, "mul_by_014", r12(&t), w_mul(&a, &s));
    let mut s = w_zero();
    s[0] = c0.clone();
    s[1] = c1.clone();
    s[3] = c2.clone();
    let mut t = x;
    t.mul_by_034(&l2(&c0), &l2(&c1), &l2(&c2));
    ck!(g, "mul_by_034", r12(&t), w_mul(&a, &s));
    let n = g.usize(26);
    let mut t = x;
    t.frobenius_map(n);
    let mut want = a.clone();
    for _ in 0..n {
        want = w_frob(&want);
    }
    ck!(g, format!("frobenius {n}"), r12(&t), want);
    let inv: Option<Fq12> = Option::from(x.invert());
    let zero = a.iter().all(|c| c.is_zero());
    ck!(g, "invertible", inv.is_none(), zero);
    if let Some(i) = inv {
        let i = r12(&i);
        ck!(g, "inverse", w_mul(&i, &a), w_one());
        // project into the cyclotomic subgroup: f = (conj(a)/a)^(q^2+1)
        let c: W6 = core::array::from_fn(|k| if k % 2 == 1 { a[k].neg() } else { a[k].clone() });
        let f = w_mul(&c, &i);
        let f = w_mul(&w_frob(&w_frob(&f)), &f);
        let mut t = l12(&f);
        t.cyclotomic_square();
        ck!(g, "cyclotomic_square", r12(&t), w_mul(&f, &f));
    }
    ck!(g, "eq", x == y, a == b);
    ck!(g, "is_zero", bool::from(x.is_zero()), zero);
    ck!(g, "ct_eq", bool::from(x.ct_eq(&y)), a == b);
    Ok(())
}

pub fn c22() -> Check {
    Check {
        id: "C22",
        rule: "a case is non-trivial when an operand is zero, one, sparse, in a subfield, or equal/opposite/conjugate to the other",
        assumptions: vec!["num-bigint computes integer arithmetic correctly", "the tower is Fq2=Fq[u]/(u^2+1), Fq6=Fq2[v]/(v^3-(9+u)), Fq12=Fq6[w]/(w^2-v) as the sources document"],
        laws: vec![
            Law::new("fq2", 6000, 200_000, fq2),
            Law::new("fq6", 5000, 150_000, fq6),
            Law::new("fq12", 3000, 100_000, fq12),
        ],
    }
}

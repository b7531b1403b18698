//! C23 / C24: curve groups and point encodings against affine chord-and-tangent arithmetic.
use crate::ext::*;
use crate::fields::*;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group, GroupEncoding};
use halo2curves::bn256::{self, G1Affine, G2Affine, G1, G2};
use halo2curves::secp256k1::{self, Secp256k1, Secp256k1Affine};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveAffineExt, CurveExt};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};
use vh_common::bigref::*;
use vh_common::*;

pub type Pt = Option<(R2, R2)>;

pub fn ref_add(p: &Pt, q: &Pt) -> Pt {
    let (p, q) = match (p, q) {
        (None, _) => return q.clone(),
        (_, None) => return p.clone(),
        (Some(p), Some(q)) => (p, q),
    };
    let l = if p.0 == q.0 {
        if p.1 != q.1 || p.1.is_zero() {
            return None;
        }
        let xx = p.0.mul(&p.0);
        let n = xx.add(&xx).add(&xx);
        n.mul(&p.1.add(&p.1).inv().unwrap())
    } else {
        q.1.sub(&p.1).mul(&q.0.sub(&p.0).inv().unwrap())
    };
    let x = l.mul(&l).sub(&p.0).sub(&q.0);
    let y = l.mul(&p.0.sub(&x)).sub(&p.1);
    Some((x, y))
}
pub fn ref_neg(p: &Pt) -> Pt {
    p.as_ref().map(|(x, y)| (x.clone(), y.neg()))
}
pub fn ref_mul(p: &Pt, k: &BigUint) -> Pt {
    let mut acc = None;
    for i in (0..k.bits()).rev() {
        acc = ref_add(&acc, &acc);
        if k.bit(i) {
            acc = ref_add(&acc, p);
        }
    }
    acc
}

pub trait TC: CurveExt<AffineExt = Self::A, ScalarExt = Self::S> + SerdeObject + group::cofactor::CofactorGroup<Subgroup = Self> + for<'a> std::iter::Sum<&'a Self>
where
    Self::A: Mul2<Self>,
{
    type A: CurveAffine<ScalarExt = Self::S, CurveExt = Self> + CurveAffineExt + SerdeObject + Into<Self> + PrimeCurveAffine;
    type S: TF;
    const NAME: &'static str;
    const CSIZE: usize;
    const BSIZE: usize;
    const COFACTOR: bool;
    fn m() -> &'static BigUint;
    fn bcoef() -> R2;
    fn gen_ref() -> Pt;
    fn mk(x: &R2, y: &R2, z: &R2) -> Self;
    fn mka(x: &R2, y: &R2) -> Self::A;
    fn xyz(&self) -> (R2, R2, R2);
    fn xya(a: &Self::A) -> (R2, R2);
    fn ext() -> bool;
    fn inherent_gens() -> (Self, Self::A);
    fn arandom(rng: RngAdapter) -> Self::A;
}
/// extra operator coverage on the affine type
pub trait Mul2<C> {
    fn ops(a: &Self, b: &Self, p: &C) -> Vec<(&'static str, C)>;
    fn smul(a: &Self, s: &[u8; 32]) -> C;
}

fn e1(x: &bn256::Fq) -> R2 {
    R2::new(fi(x), BigUint::zero(), bnq())
}
fn s1(x: &secp256k1::Fp) -> R2 {
    R2::new(fi(x), BigUint::zero(), secpp())
}

macro_rules! tc {
    ($c:ident, $a:ident, $s:ty, $n:literal, $cs:expr, $bs:expr, $cof:expr, $m:ident, $b:expr, $g:expr, $to:expr, $from:path, $ext:expr) => {
        impl Mul2<$c> for $a {
            fn ops(a: &Self, b: &Self, p: &$c) -> Vec<(&'static str, $c)> {
                let mut t = *p;
                t += a;
                let mut u = *p;
                u -= a;
                let mut v = *p;
                v += *b;
                let mut w = *p;
                w -= *b;
                vec![("a+b", a + b), ("a-b", a - b), ("a+p", a + p), ("a-p", a - p), ("p+a", p + a), ("p-a", p - a), ("p+=a", t), ("p-=a", u), ("p+=b", v), ("p-=b", w)]
            }
            fn smul(a: &Self, s: &[u8; 32]) -> $c {
                let s = <$s as PrimeField>::from_repr(*s).unwrap();
                a * s
            }
        }
        impl TC for $c {
            type A = $a;
            type S = $s;
            const NAME: &'static str = $n;
            const CSIZE: usize = $cs;
            const BSIZE: usize = $bs;
            const COFACTOR: bool = $cof;
            fn m() -> &'static BigUint {
                $m()
            }
            fn bcoef() -> R2 {
                $b
            }
            fn gen_ref() -> Pt {
                $g
            }
            fn mk(x: &R2, y: &R2, z: &R2) -> Self {
                let t = $to;
                $c { x: t(x), y: t(y), z: t(z) }
            }
            fn mka(x: &R2, y: &R2) -> $a {
                let t = $to;
                $a { x: t(x), y: t(y) }
            }
            fn xyz(&self) -> (R2, R2, R2) {
                ($from(&self.x), $from(&self.y), $from(&self.z))
            }
            fn xya(a: &$a) -> (R2, R2) {
                ($from(&a.x), $from(&a.y))
            }
            fn ext() -> bool {
                $ext
            }
            fn inherent_gens() -> (Self, $a) {
                ($c::generator(), $a::generator())
            }
            fn arandom(rng: RngAdapter) -> $a {
                $a::random(rng)
            }
        }
    };
}
fn r1(x: &str, m: &'static BigUint) -> R2 {
    R2::new(hex(x), BigUint::zero(), m)
}
tc!(G1, G1Affine, bn256::Fr, "bn256_g1", 32, 32, false, bnq, R2::int(3, bnq()), Some((R2::int(1, bnq()), R2::int(2, bnq()))), |v: &R2| fe::<bn256::Fq>(&v.a), e1, false);
tc!(
    G2,
    G2Affine,
    bn256::Fr,
    "bn256_g2",
    64,
    64,
    true,
    bnq,
    R2::int(3, bnq()).mul(&xi().inv().unwrap()),
    Some((
        R2::new(hex("1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed"), hex("198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2"), bnq()),
        R2::new(hex("12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa"), hex("090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b"), bnq())
    )),
    |v: &R2| l2(v),
    r2,
    true
);
tc!(
    Secp256k1,
    Secp256k1Affine,
    secp256k1::Fq,
    "secp256k1",
    33,
    32,
    false,
    secpp,
    R2::int(7, secpp()),
    Some((r1("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", secpp()), r1("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", secpp()))),
    |v: &R2| fe::<secp256k1::Fp>(&v.a),
    s1,
    false
);

pub fn to_pt<C: TC>(c: &C) -> Pt
where
    C::A: Mul2<C>,
{
    let (x, y, z) = c.xyz();
    if z.is_zero() {
        return None;
    }
    let zi = z.inv().unwrap();
    let z2 = zi.mul(&zi);
    Some((x.mul(&z2), y.mul(&z2).mul(&zi)))
}
pub fn to_pta<C: TC>(a: &C::A) -> Pt
where
    C::A: Mul2<C>,
{
    let (x, y) = C::xya(a);
    if x.is_zero() && y.is_zero() {
        None
    } else {
        Some((x, y))
    }
}
fn ref_on_curve<C: TC>(x: &R2, y: &R2) -> bool
where
    C::A: Mul2<C>,
{
    y.mul(y) == x.mul(x).mul(x).add(&C::bcoef())
}
fn base_el<C: TC>(g: &mut G) -> R2
where
    C::A: Mul2<C>,
{
    let m = C::m();
    let a = edge_int(g, m);
    let b = if C::ext() {
        match g.below(4) {
            0 => BigUint::zero(),
            _ => edge_int(g, m),
        }
    } else {
        BigUint::zero()
    };
    R2::new(a, b, m)
}
/// A point of the curve, not through library arithmetic.
fn point<C: TC>(g: &mut G) -> Pt
where
    C::A: Mul2<C>,
{
    match g.below(10) {
        0 => None,
        1 => C::gen_ref(),
        2 => ref_neg(&C::gen_ref()),
        3 | 4 => ref_mul(&C::gen_ref(), &BigUint::from(1 + g.below(9))),
        _ => loop_point::<C>(g),
    }
}
/// square root inside the curve's own base field
fn curve_sqrt<C: TC>(v: &R2) -> Option<R2>
where
    C::A: Mul2<C>,
{
    v.sqrt().filter(|y| C::ext() || y.b.is_zero())
}
fn loop_point<C: TC>(g: &mut G) -> Pt
where
    C::A: Mul2<C>,
{
    let mut x = base_el::<C>(g);
    let sign = g.bool();
    for _ in 0..200 {
        let rhs = x.mul(&x).mul(&x).add(&C::bcoef());
        if let Some(y) = curve_sqrt::<C>(&rhs) {
            let y = if sign { y.neg() } else { y };
            return Some((x, y));
        }
        x = x.add(&R2::int(1, C::m()));
    }
    C::gen_ref()
}
/// random projective representative
fn repr_<C: TC>(g: &mut G, p: &Pt) -> C
where
    C::A: Mul2<C>,
{
    match p {
        None => match g.below(3) {
            0 => C::identity(),
            // any representative with z = 0 denotes the identity
            1 => C::mk(&R2::zero(C::m()), &R2::int(1, C::m()), &R2::zero(C::m())),
            _ => {
                let x = base_el::<C>(g);
                let y = base_el::<C>(g);
                C::mk(&x, &y, &R2::zero(C::m()))
            }
        },
        Some((x, y)) => {
            let z = match g.below(4) {
                0 => R2::int(1, C::m()),
                1 => R2::zero(C::m()).sub(&R2::int(1, C::m())),
                _ => {
                    let z = base_el::<C>(g);
                    if z.is_zero() {
                        R2::int(2, C::m())
                    } else {
                        z
                    }
                }
            };
            let z2 = z.mul(&z);
            C::mk(&x.mul(&z2), &y.mul(&z2).mul(&z), &z)
        }
    }
}
fn aff<C: TC>(p: &Pt) -> C::A
where
    C::A: Mul2<C>,
{
    match p {
        None => <C::A as PrimeCurveAffine>::identity(),
        Some((x, y)) => C::mka(x, y),
    }
}
fn show(p: &Pt) -> String {
    match p {
        None => "inf".into(),
        Some((x, y)) => format!("({:x}+{:x}u, {:x}+{:x}u)", x.a, x.b, y.a, y.b),
    }
}

fn group_law<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let p = point::<C>(g);
    let q = match g.below(8) {
        0 | 1 => p.clone(),
        2 | 3 => ref_neg(&p),
        4 => ref_add(&p, &p),
        _ => point::<C>(g),
    };
    let special = p.is_none() || q.is_none() || p == q || p == ref_neg(&q);
    if special {
        g.nontrivial();
        g.class("exceptional");
    }
    g.desc(|| format!("{} P={} Q={}", C::NAME, show(&p), show(&q)));
    let (x, y): (C, C) = (repr_(g, &p), repr_(g, &q));
    let (a, b) = (aff::<C>(&p), aff::<C>(&q));
    let sum = ref_add(&p, &q);
    let diff = ref_add(&p, &ref_neg(&q));
    let ck = |n: &str, got: C, want: &Pt| -> R {
        let t = to_pt(&got);
        ensure!(&t == want, "{} {}: P={} Q={} got {} want {}", C::NAME, n, show(&p), show(&q), show(&t), show(want));
        ensure!(bool::from(got.is_identity()) == want.is_none(), "{} {}: is_identity", C::NAME, n);
        ensure!(bool::from(CurveExt::is_on_curve(&got)), "{} {}: result not on curve", C::NAME, n);
        // affine conversion agrees
        let af = got.to_affine();
        ensure!(&to_pta::<C>(&af) == want, "{} {}: to_affine", C::NAME, n);
        Ok(())
    };
    ck("P", x, &p)?;
    ck("P+Q", x + y, &sum)?;
    ck("P-Q", x - y, &diff)?;
    let mut t = x;
    t += y;
    ck("P+=Q", t, &sum)?;
    let mut t = x;
    t -= y;
    ck("P-=Q", t, &diff)?;
    let mut t = x;
    halo2curves::Group::group_add(&mut t, &y);
    ck("group_add", t, &sum)?;
    let mut t = x;
    halo2curves::Group::group_sub(&mut t, &y);
    ck("group_sub", t, &diff)?;
    ck("2P", x.double(), &ref_add(&p, &p))?;
    ck("-P", -x, &ref_neg(&p))?;
    ck("P+Qa", x + b, &sum)?;
    ck("P-Qa", x - b, &diff)?;
    ck("Pa curve", a.to_curve(), &p)?;
    ensure!(to_pta::<C>(&-a) == ref_neg(&p), "{} -Pa", C::NAME);
    let negdiff = ref_neg(&diff);
    let sum_ap = &sum; // a + (y as Q) etc. below use p/q consistently
    for (n, got) in <C::A as Mul2<C>>::ops(&a, &b, &y) {
        let want = match n {
            "a+b" => sum.clone(),
            "a-b" => diff.clone(),
            "a+p" => sum_ap.clone(),
            "a-p" => diff.clone(),
            "p+a" => sum.clone(),
            "p-a" => negdiff.clone(),
            "p+=a" => sum.clone(),
            "p-=a" => negdiff.clone(),
            "p+=b" => ref_add(&q, &q),
            _ => None,
        };
        ck(n, got, &want)?;
    }
    // equality independent of representation
    let x2: C = repr_(g, &p);
    ensure!(x == x2 && bool::from(x.ct_eq(&x2)), "{} equality of representatives of {}", C::NAME, show(&p));
    ensure_eq!(x == y, p == q, "{} equality P={} Q={}", C::NAME, show(&p), show(&q));
    ensure_eq!(a == b, p == q, "{} affine equality", C::NAME);
    ensure_eq!(bool::from(a.ct_eq(&b)), p == q, "{} affine ct_eq", C::NAME);
    ensure!(C::conditional_select(&x, &y, Choice::from(1)) == y && C::conditional_select(&x, &y, Choice::from(0)) == x, "{} select", C::NAME);
    ensure_eq!(bool::from(PrimeCurveAffine::is_identity(&a)), p.is_none(), "{} affine is_identity", C::NAME);
    // conversions
    let c2: C = a.into();
    ck("from affine", c2, &p)?;
    let a2: C::A = x.into();
    ensure!(to_pta::<C>(&a2) == p, "{} into affine", C::NAME);
    // membership
    let (u, v) = (base_el::<C>(g), base_el::<C>(g));
    let on = ref_on_curve::<C>(&u, &v) || (u.is_zero() && v.is_zero());
    let fx: Option<C::A> = Option::from(C::A::from_xy(C::mka(&u, &v).into_coordinates().0, C::mka(&u, &v).into_coordinates().1));
    ensure_eq!(fx.is_some(), on, "{} from_xy membership of ({:?},{:?})", C::NAME, u, v);
    ensure_eq!(bool::from(CurveAffine::is_on_curve(&C::mka(&u, &v))), on, "{} affine is_on_curve", C::NAME);
    if let Some((px, py)) = &p {
        // perturb one coordinate
        let bad = if g.bool() { (px.add(&R2::int(1, C::m())), py.clone()) } else { (px.clone(), py.add(&R2::int(1, C::m()))) };
        let on = ref_on_curve::<C>(&bad.0, &bad.1);
        ensure_eq!(bool::from(CurveAffine::is_on_curve(&C::mka(&bad.0, &bad.1))), on, "{} perturbed is_on_curve", C::NAME);
        let z = base_el::<C>(g);
        let (jx, jy, jz) = (px.clone(), py.clone(), z.clone());
        let on = z.is_zero() || {
            let z2 = z.mul(&z);
            let z6 = z2.mul(&z2).mul(&z2);
            py.mul(py) == px.mul(px).mul(px).add(&C::bcoef().mul(&z6))
        };
        let c = C::mk(&jx, &jy, &jz);
        ensure_eq!(bool::from(CurveExt::is_on_curve(&c)), on, "{} jacobian is_on_curve", C::NAME);
        let (a, b, cc) = c.jacobian_coordinates();
        let nj: Option<C> = Option::from(C::new_jacobian(a, b, cc));
        ensure_eq!(nj.is_some(), on, "{} new_jacobian", C::NAME);
    }
    g.evals(40);
    Ok(())
}

fn scalar_edge<C: TC>(g: &mut G, n: &BigUint) -> BigUint
where
    C::A: Mul2<C>,
{
    match g.below(6) {
        0 => BigUint::from(g.below(20)),
        1 => n - 1u32 - BigUint::from(g.below(4)),
        2 => BigUint::from(g.u64()),
        _ => edge_int(g, n),
    }
}

fn scalar_mul<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let n = hex(<C::S as TF>::P);
    let k = scalar_edge::<C>(g, &n);
    let p = point::<C>(g);
    g.desc(|| format!("{} k=0x{:x} P={}", C::NAME, k, show(&p)));
    g.nontrivial();
    let want = ref_mul(&p, &k);
    let x: C = repr_(g, &p);
    let s: C::S = fe(&k);
    let got = x * s;
    ensure!(to_pt(&got) == want, "{} mul k=0x{:x} P={} got {} want {}", C::NAME, k, show(&p), show(&to_pt(&got)), show(&want));
    let mut t = x;
    t *= s;
    ensure!(to_pt(&t) == want, "{} mul_assign", C::NAME);
    let mut t = x;
    halo2curves::Group::group_scale(&mut t, &s);
    ensure!(to_pt(&t) == want, "{} group_scale", C::NAME);
    let a = aff::<C>(&p);
    let got = <C::A as Mul2<C>>::smul(&a, &s.to_repr());
    ensure!(to_pt(&got) == want, "{} affine mul", C::NAME);
    // the group order annihilates subgroup points
    let gp = C::inherent_gens();
    ensure!(to_pt(&gp.0) == C::gen_ref() && to_pta::<C>(&gp.1) == C::gen_ref(), "{} generator", C::NAME);
    ensure!(to_pt(&<C as Group>::generator()) == C::gen_ref(), "{} Group::generator", C::NAME);
    let lhs = gp.0 * s + gp.0 * (-s);
    ensure!(bool::from(lhs.is_identity()), "{} kG + (-k)G", C::NAME);
    // cofactor handling
    let c: C = repr_(g, &p);
    let tf = bool::from(c.is_torsion_free());
    if C::COFACTOR {
        let want = ref_mul(&p, &n).is_none();
        ensure_eq!(tf, want, "{} is_torsion_free", C::NAME);
        if g.chance(1, 4) {
            // #E'(Fq2) = r * h with h = 2q - r
            let h = (bnq() << 1) - bnr();
            ensure!(to_pt(&c.clear_cofactor()) == ref_mul(&p, &h), "{} clear_cofactor", C::NAME);
        }
    } else {
        ensure!(tf, "{} is_torsion_free", C::NAME);
        ensure!(to_pt(&c.clear_cofactor()) == p, "{} clear_cofactor", C::NAME);
        let sub: Option<C::Subgroup> = Option::from(c.into_subgroup());
        let back: Option<C> = sub.map(|x| x.into());
        ensure!(back.map(|x| to_pt(&x) == p) == Some(true), "{} into_subgroup", C::NAME);
    }
    let rp = C::arandom(RngAdapter(g.xo()));
    let rr = to_pta::<C>(&rp);
    if let Some((x, y)) = &rr {
        ensure!(ref_on_curve::<C>(x, y), "{} random not on curve", C::NAME);
    }
    ensure!(bool::from(rp.to_curve().is_torsion_free()), "{} random not in subgroup", C::NAME);
    Ok(())
}

fn endo(g: &mut G) -> R {
    // phi(P) = lambda*P for one fixed scalar lambda with lambda^2 - lambda + 1 = 0 (or +): additive and of order dividing 6
    let p = point::<G1>(g);
    let q = point::<G1>(g);
    g.nontrivial();
    g.desc(|| format!("endo P={}", show(&p)));
    let x: G1 = repr_(g, &p);
    let y: G1 = repr_(g, &q);
    let gen = G1::generator();
    // documented: endo(G) = (-beta) G
    let beta: bn256::Fr = fe(&hex("b3c4d79d41a917585bfc41088d8daaa78b17ea66b99c90dd"));
    ensure!(gen.endo() == gen * (-beta), "endo(G)");
    ensure!(to_pt(&x.endo()) == ref_mul(&p, &fi(&(-beta))), "endo(P) = -beta P for {}", show(&p));
    ensure!((x + y).endo() == x.endo() + y.endo(), "endo additive");
    Ok(())
}

fn batch<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let n = g.usize(9);
    let mut pts: Vec<Pt> = vec![];
    for _ in 0..n {
        let p = if !pts.is_empty() && g.chance(1, 4) {
            let q = g.pick(&pts).clone();
            if g.bool() {
                q
            } else {
                ref_neg(&q)
            }
        } else {
            point::<C>(g)
        };
        pts.push(p);
    }
    g.desc(|| format!("{} batch {:?}", C::NAME, pts.iter().map(show).collect::<Vec<_>>()));
    if pts.iter().any(|p| p.is_none()) || n == 0 {
        g.nontrivial();
        g.class("has identity");
    }
    let cs: Vec<C> = pts.iter().map(|p| repr_(g, p)).collect();
    let mut out = vec![<C::A as PrimeCurveAffine>::generator(); n];
    C::batch_normalize(&cs, &mut out);
    for i in 0..n {
        ensure!(to_pta::<C>(&out[i]) == pts[i], "{} batch_normalize[{}]: got {} want {}", C::NAME, i, show(&to_pta::<C>(&out[i])), show(&pts[i]));
    }
    let s: C = cs.iter().sum();
    let want = pts.iter().fold(None, |a, b| ref_add(&a, b));
    ensure!(to_pt(&s) == want, "{} sum", C::NAME);
    Ok(())
}

fn batch_add<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let pairs = g.range(1, 6);
    let complete = g.bool();
    let load = g.bool();
    let mut pool: Vec<Pt> = vec![];
    for _ in 0..(2 + g.usize(4)) {
        pool.push(point::<C>(g));
    }
    // operands as (base index, negate)
    let mut ops: Vec<(usize, bool)> = vec![];
    let val = |o: &(usize, bool), pool: &Vec<Pt>| if o.1 { ref_neg(&pool[o.0]) } else { pool[o.0].clone() };
    for _ in 0..pairs {
        let mut a = (g.usize(pool.len()), g.bool());
        let mut b = (g.usize(pool.len()), g.bool());
        if !complete {
            // precondition: distinct x, no identities
            let mut tries = 0;
            loop {
                let (x, y) = (val(&a, &pool), val(&b, &pool));
                if let (Some(x), Some(y)) = (&x, &y) {
                    if x.0 != y.0 {
                        break;
                    }
                }
                tries += 1;
                if tries > 20 {
                    pool.push(C::gen_ref());
                    pool.push(ref_mul(&C::gen_ref(), &BigUint::from(5u8)));
                    a = (pool.len() - 2, false);
                    b = (pool.len() - 1, false);
                } else {
                    a = (g.usize(pool.len()), g.bool());
                    b = (g.usize(pool.len()), g.bool());
                }
            }
        }
        ops.push(a);
        ops.push(b);
    }
    let want: Vec<Pt> = (0..pairs).map(|i| ref_add(&val(&ops[2 * i], &pool), &val(&ops[2 * i + 1], &pool))).collect();
    if complete && ops.chunks(2).any(|c| {
        let (x, y) = (val(&c[0], &pool), val(&c[1], &pool));
        x.is_none() || y.is_none() || x == y || x == ref_neg(&y)
    }) {
        g.nontrivial();
        g.class("exceptional pair");
    }
    if !complete {
        g.nontrivial();
    }
    let np = 2 * pairs;
    // distinct output slots above the operands, in shuffled order, shifted by a random offset
    let offset = g.usize(5);
    let extra = g.usize(3);
    let mut slots: Vec<usize> = (np..np + pairs + extra).collect();
    for i in (1..slots.len()).rev() {
        let j = g.usize(i + 1);
        slots.swap(i, j);
    }
    let out: Vec<u32> = slots[..pairs].iter().map(|s| (s + offset) as u32).collect();
    let bases: Vec<C::A> = pool.iter().map(|p| aff::<C>(p)).collect();
    let pos: Vec<u32> = ops.iter().map(|o| o.0 as u32 | if o.1 { 0x8000_0000 } else { 0 }).collect();
    let mut points = vec![<C::A as PrimeCurveAffine>::identity(); np + pairs + extra];
    if !load {
        for (i, o) in ops.iter().enumerate() {
            points[i] = aff::<C>(&val(o, &pool));
        }
    }
    g.desc(|| format!("{} batch_add complete={} load={} pairs={:?}", C::NAME, complete, load, ops.iter().map(|o| show(&val(o, &pool))).collect::<Vec<_>>()));
    match (complete, load) {
        (true, true) => C::A::batch_add::<true, true>(&mut points, &out, np, offset, &bases, &pos),
        (true, false) => C::A::batch_add::<true, false>(&mut points, &out, np, offset, &bases, &pos),
        (false, true) => C::A::batch_add::<false, true>(&mut points, &out, np, offset, &bases, &pos),
        (false, false) => C::A::batch_add::<false, false>(&mut points, &out, np, offset, &bases, &pos),
    }
    for i in 0..pairs {
        let got = to_pta::<C>(&points[slots[i]]);
        ensure!(got == want[i], "{} batch_add complete={} load={} pair {}: got {} want {}", C::NAME, complete, load, i, show(&got), show(&want[i]));
    }
    Ok(())
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

fn add23<C: TC>(v: &mut Vec<Law>, f: usize)
where
    C::A: Mul2<C>,
{
    v.push(Law::new(leak(format!("{}.group_law", C::NAME)), 3000 / f, 60_000 / f, group_law::<C>));
    v.push(Law::new(leak(format!("{}.scalar_mul", C::NAME)), 160 / f, 4000 / f, scalar_mul::<C>).shrink(60));
    v.push(Law::new(leak(format!("{}.batch", C::NAME)), 1500 / f, 40_000 / f, batch::<C>));
    v.push(Law::new(leak(format!("{}.batch_add", C::NAME)), 2500 / f, 60_000 / f, batch_add::<C>));
}

pub fn c23() -> Check {
    let mut laws = vec![];
    add23::<G1>(&mut laws, 1);
    add23::<G2>(&mut laws, 4);
    add23::<Secp256k1>(&mut laws, 1);
    laws.push(Law::new("bn256_g1.endo", 100, 3000, endo).shrink(60));
    Check {
        id: "C23",
        rule: "a case is non-trivial when it involves the identity, equal or opposite points (exceptional cases of the formulas), or is a scalar multiplication",
        assumptions: vec!["num-bigint is correct", "curve equations and generators are the published ones for bn254 and secp256k1"],
        laws,
    }
}

// ------------------------------------------------------------------ C24

fn subgroup_point<C: TC>(g: &mut G) -> Pt
where
    C::A: Mul2<C>,
{
    if !C::COFACTOR {
        return point::<C>(g);
    }
    match g.below(5) {
        0 => None,
        1 => ref_mul(&C::gen_ref(), &BigUint::from(1 + g.below(9))),
        _ => {
            let k = edge_int(g, bnr());
            let s: C::S = fe(&k);
            to_pt(&(C::inherent_gens().0 * s))
        }
    }
}

fn roundtrip<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let p = subgroup_point::<C>(g);
    g.desc(|| format!("{} P={}", C::NAME, show(&p)));
    if p.is_none() {
        g.class("identity");
    } else {
        g.nontrivial();
    }
    let a = aff::<C>(&p);
    let c: C = repr_(g, &p);
    let ba = a.to_bytes();
    let bc = c.to_bytes();
    ensure_eq!(ba.as_ref().len(), C::CSIZE, "{} size", C::NAME);
    ensure_eq!(ba.as_ref().to_vec(), bc.as_ref().to_vec(), "{} affine and projective compressed bytes of {}", C::NAME, show(&p));
    let da: Option<C::A> = Option::from(C::A::from_bytes(&ba));
    let dc: Option<C> = Option::from(C::from_bytes(&bc));
    let du: Option<C::A> = Option::from(C::A::from_bytes_unchecked(&ba));
    ensure!(da.map(|x| to_pta::<C>(&x)) == Some(p.clone()), "{} compressed affine roundtrip of {}", C::NAME, show(&p));
    ensure!(dc.map(|x| to_pt(&x)) == Some(p.clone()), "{} compressed roundtrip of {}", C::NAME, show(&p));
    ensure!(du.map(|x| to_pta::<C>(&x)) == Some(p.clone()), "{} compressed unchecked roundtrip of {}", C::NAME, show(&p));
    // reference layout: little-endian x, parity of y in the top bit, identity all zero
    let mut want = vec![0u8; C::CSIZE];
    if let Some((x, y)) = &p {
        want[..32].copy_from_slice(&to_le(&x.a, 32));
        if C::ext() {
            want[32..64].copy_from_slice(&to_le(&x.b, 32));
        }
        if y.a.bit(0) {
            want[C::CSIZE - 1] |= 0x80;
        }
    }
    ensure_eq!(ba.as_ref().to_vec(), want, "{} compressed layout of {}", C::NAME, show(&p));
    // raw
    let ra = a.to_raw_bytes();
    ensure_eq!(ra.len(), 2 * C::BSIZE, "{} raw size", C::NAME);
    let d = C::A::from_raw_bytes(&ra);
    ensure!(d.map(|x| to_pta::<C>(&x)) == Some(p.clone()), "{} raw affine roundtrip of {}", C::NAME, show(&p));
    ensure!(to_pta::<C>(&C::A::from_raw_bytes_unchecked(&ra)) == p, "{} raw unchecked", C::NAME);
    let mut w: Vec<u8> = vec![];
    a.write_raw(&mut w).map_err(|e| e.to_string())?;
    ensure_eq!(w, ra, "{} write_raw", C::NAME);
    let d = C::A::read_raw(&mut &w[..]).map_err(|e| format!("{} read_raw of own bytes ({}): {}", C::NAME, show(&p), e))?;
    ensure!(to_pta::<C>(&d) == p, "{} read_raw", C::NAME);
    ensure!(to_pta::<C>(&C::A::read_raw_unchecked(&mut &w[..])) == p, "{} read_raw_unchecked", C::NAME);
    let rc = c.to_raw_bytes();
    ensure_eq!(rc.len(), 3 * C::BSIZE, "{} raw projective size", C::NAME);
    let d = C::from_raw_bytes(&rc);
    ensure!(d.map(|x| to_pt(&x)) == Some(p.clone()), "{} raw projective roundtrip of {}", C::NAME, show(&p));
    ensure!(to_pt(&C::from_raw_bytes_unchecked(&rc)) == p, "{} raw projective unchecked", C::NAME);
    let mut w: Vec<u8> = vec![];
    c.write_raw(&mut w).map_err(|e| e.to_string())?;
    ensure_eq!(w, rc, "{} projective write_raw", C::NAME);
    let d = C::read_raw(&mut &w[..]).map_err(|e| format!("{} projective read_raw: {}", C::NAME, e))?;
    ensure!(to_pt(&d) == p, "{} projective read_raw", C::NAME);
    Ok(())
}

fn decode<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let m = C::m();
    // candidate bytes
    let mut b = vec![0u8; C::CSIZE];
    let kind = g.below(5);
    match kind {
        0 => b = g.bytes(C::CSIZE),
        1 | 2 => {
            let x = edge_bytes32(g, m);
            b[..32].copy_from_slice(&to_le(&x, 32));
            if C::ext() {
                let y = edge_bytes32(g, m);
                b[32..64].copy_from_slice(&to_le(&y, 32));
            }
            if g.bool() {
                b[C::CSIZE - 1] |= 0x80;
            }
        }
        3 => {
            // small x: many are on the curve
            b[0] = g.u8();
            if g.bool() {
                b[C::CSIZE - 1] |= 0x80;
            }
        }
        _ => {
            // corrupt a valid encoding
            let p = subgroup_point::<C>(g);
            b.copy_from_slice(aff::<C>(&p).to_bytes().as_ref());
            let k = g.range(1, 2);
            for _ in 0..k {
                let i = if g.bool() { C::CSIZE - 1 } else { g.usize(C::CSIZE) };
                b[i] ^= 1 << g.below(8);
            }
        }
    }
    // reference decoder
    let sign = b[C::CSIZE - 1] >> 7 == 1;
    let mut t = b.clone();
    t[C::CSIZE - 1] &= 0x7f;
    let xa = le(&t[..32]);
    let xb = if C::ext() { le(&t[32..64]) } else { BigUint::zero() };
    let stray = C::CSIZE == 33 && t[32] != 0;
    let want: Option<Pt> = if stray || &xa >= m || &xb >= m {
        None
    } else {
        let x = R2::new(xa, xb, m);
        if x.is_zero() && !sign {
            Some(None)
        } else {
            let rhs = x.mul(&x).mul(&x).add(&C::bcoef());
            curve_sqrt::<C>(&rhs).map(|y| if y.a.bit(0) == sign { Some((x.clone(), y)) } else { Some((x, y.neg())) })
        }
    };
    // a y whose both signs have the same parity bit cannot be encoded unambiguously; not generated in practice
    if let Some(Some((_, y))) = &want {
        if y.a.is_zero() {
            return Ok(());
        }
    }
    g.class(if want.is_some() { "valid" } else { "invalid" });
    g.nontrivial();
    g.desc(|| format!("{} bytes={:02x?}", C::NAME, b));
    let mut repr = <C::A as GroupEncoding>::Repr::default();
    repr.as_mut().copy_from_slice(&b);
    let d = guarded(|| Option::<C::A>::from(C::A::from_bytes(&repr))).map_err(|e| format!("{} from_bytes panics on {:02x?}: {}", C::NAME, b, e))?;
    let got = d.map(|x| to_pta::<C>(&x));
    ensure!(got == want, "{} decoding {:02x?}: got {:?} want {:?}", C::NAME, b, got.as_ref().map(show), want.as_ref().map(show));
    let mut repr = <C as GroupEncoding>::Repr::default();
    repr.as_mut().copy_from_slice(&b);
    let d = guarded(|| Option::<C>::from(C::from_bytes(&repr))).map_err(|e| format!("{} projective from_bytes panics on {:02x?}: {}", C::NAME, b, e))?;
    let got = d.map(|x| to_pt(&x));
    ensure!(got == want, "{} projective decoding {:02x?}", C::NAME, b);
    if let Some(x) = d {
        ensure_eq!(x.to_bytes().as_ref().to_vec(), b, "{} accepted bytes re-encode differently", C::NAME);
    }
    Ok(())
}

fn decode_raw<C: TC>(g: &mut G) -> R
where
    C::A: Mul2<C>,
{
    let m = C::m();
    let p = subgroup_point::<C>(g);
    let c: C = repr_(g, &p);
    let (mut ba, mut bc) = (aff::<C>(&p).to_raw_bytes(), c.to_raw_bytes());
    let mode = g.below(4);
    for b in [&mut ba, &mut bc] {
        match mode {
            0 => {}
            1 => {
                let i = g.usize(b.len());
                b[i] ^= 1 << g.below(8);
            }
            2 => {
                let w = g.usize(b.len() / 32);
                let v = edge_bytes32(g, m);
                b[32 * w..32 * w + 32].copy_from_slice(&to_le(&v, 32));
            }
            _ => {
                let n = b.len();
                *b = g.bytes(n);
            }
        }
    }
    let rinv = invm(&((BigUint::one() << 256u32) % m), m).unwrap();
    let parse = |b: &[u8]| -> Option<Vec<R2>> {
        let words: Vec<BigUint> = b.chunks(32).map(le).collect();
        if words.iter().any(|w| w >= m) {
            return None;
        }
        let v: Vec<BigUint> = words.iter().map(|w| mulm(w, &rinv, m)).collect();
        Some(if C::ext() { v.chunks(2).map(|c| R2::new(c[0].clone(), c[1].clone(), m)).collect() } else { v.iter().map(|x| R2::new(x.clone(), BigUint::zero(), m)).collect() })
    };
    let wa: Option<Pt> = parse(&ba).and_then(|v| {
        if v[0].is_zero() && v[1].is_zero() {
            Some(None)
        } else if ref_on_curve::<C>(&v[0], &v[1]) {
            Some(Some((v[0].clone(), v[1].clone())))
        } else {
            None
        }
    });
    let wc: Option<Pt> = parse(&bc).and_then(|v| {
        if v[2].is_zero() {
            return Some(None);
        }
        let zi = v[2].inv().unwrap();
        let z2 = zi.mul(&zi);
        let (x, y) = (v[0].mul(&z2), v[1].mul(&z2).mul(&zi));
        if ref_on_curve::<C>(&x, &y) {
            Some(Some((x, y)))
        } else {
            None
        }
    });
    g.class(if wa.is_some() { "affine valid" } else { "affine invalid" });
    g.class(if wc.is_some() { "projective valid" } else { "projective invalid" });
    g.nontrivial();
    g.desc(|| format!("{} raw affine={:02x?} raw projective={:02x?}", C::NAME, ba, bc));
    let d = guarded(|| C::A::from_raw_bytes(&ba)).map_err(|e| format!("{} from_raw_bytes panics: {}", C::NAME, e))?;
    ensure!(d.map(|x| to_pta::<C>(&x)) == wa, "{} from_raw_bytes of {:02x?}", C::NAME, ba);
    let d = guarded(|| C::A::read_raw(&mut &ba[..])).map_err(|e| format!("{} read_raw panics: {}", C::NAME, e))?;
    ensure!(d.ok().map(|x| to_pta::<C>(&x)) == wa, "{} read_raw of {:02x?}: accepted={} valid={}", C::NAME, ba, d.is_ok(), wa.is_some());
    let d = guarded(|| C::from_raw_bytes(&bc)).map_err(|e| format!("{} projective from_raw_bytes panics: {}", C::NAME, e))?;
    ensure!(d.map(|x| to_pt(&x)) == wc, "{} projective from_raw_bytes of {:02x?}", C::NAME, bc);
    let d = guarded(|| C::read_raw(&mut &bc[..])).map_err(|e| format!("{} projective read_raw panics: {}", C::NAME, e))?;
    ensure!(d.ok().map(|x| to_pt(&x)) == wc, "{} projective read_raw of {:02x?}: accepted={} valid={}", C::NAME, bc, d.is_ok(), wc.is_some());
    // lengths
    let n = g.usize(220);
    let junk = g.bytes(n);
    if n != ba.len() {
        let d = guarded(|| C::A::from_raw_bytes(&junk)).map_err(|e| format!("{} from_raw_bytes panics on length {}: {}", C::NAME, n, e))?;
        ensure!(d.is_none(), "{} from_raw_bytes accepts length {}", C::NAME, n);
    }
    if n != bc.len() {
        let d = guarded(|| C::from_raw_bytes(&junk)).map_err(|e| format!("{} projective from_raw_bytes panics on length {}: {}", C::NAME, n, e))?;
        ensure!(d.is_none(), "{} projective from_raw_bytes accepts length {}", C::NAME, n);
    }
    let cut = g.usize(ba.len());
    let d = guarded(|| C::A::read_raw(&mut &ba[..cut])).map_err(|e| format!("{} read_raw panics on {} bytes: {}", C::NAME, cut, e))?;
    ensure!(d.is_err(), "{} read_raw accepts truncated input", C::NAME);
    Ok(())
}

pub fn c24() -> Check {
    let mut laws = vec![];
    fn add<C: TC>(v: &mut Vec<Law>, f: usize)
    where
        C::A: Mul2<C>,
    {
        v.push(Law::new(leak(format!("{}.roundtrip", C::NAME)), 2500 / f, 60_000 / f, roundtrip::<C>));
        v.push(Law::new(leak(format!("{}.decode", C::NAME)), 4000 / f, 100_000 / f, decode::<C>));
        v.push(Law::new(leak(format!("{}.decode_raw", C::NAME)), 4000 / f, 100_000 / f, decode_raw::<C>));
    }
    add::<G1>(&mut laws, 1);
    add::<G2>(&mut laws, 2);
    add::<Secp256k1>(&mut laws, 1);
    Check {
        id: "C24",
        rule: "a case is non-trivial when it round-trips a non-identity point or decodes a byte string that the reference decoder classifies as valid or invalid (both classes are counted)",
        assumptions: vec!["compressed layout: little-endian x, parity of y in the top bit of the last byte, all-zero identity", "no subgroup check is promised for decoded G2 points"],
        laws,
    }
}

//! C29: elliptic curve gadgets.
use crate::frame::*;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{
    compute_lagrange_coeffs, find_zs_and_us, BaseFieldElem, EccChip, EccConfig, FixedPoint as ChipFixedPoint, FullScalar, ShortScalar, H, NUM_WINDOWS, NUM_WINDOWS_SHORT,
};
use halo2_gadgets::ecc::*;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::CurveAffine;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::OnceLock;
use vh_common::*;
use vh_lab::forge::{Budget, Forge};
use vh_lab::{Kind, Lab};

pub type B = pallas::Base;
pub type S = pallas::Scalar;
pub type Aff = pallas::Affine;

// ---------------------------------------------------------------- reference
/// coordinates, the identity as (0, 0)
pub fn xy(p: &Aff) -> (B, B) {
    if bool::from(p.is_identity()) {
        return (B::zero(), B::zero());
    }
    let c = p.coordinates().unwrap();
    (*c.x(), *c.y())
}
pub fn on_curve(x: B, y: B) -> bool {
    y.square() == x.square() * x + B::from(5)
}
pub fn decode(x: B, y: B) -> Result<(B, B), String> {
    if (x == B::zero() && y == B::zero()) || on_curve(x, y) {
        Ok((x, y))
    } else {
        Err(format!("({:?}, {:?}) is not a point", x, y))
    }
}
pub fn aff(p: (B, B)) -> Aff {
    if p == (B::zero(), B::zero()) {
        Aff::identity()
    } else {
        Option::from(Aff::from_xy(p.0, p.1)).unwrap()
    }
}
/// the textbook affine group law
pub fn add(p: (B, B), q: (B, B)) -> (B, B) {
    let z = B::zero();
    if p == (z, z) {
        return q;
    }
    if q == (z, z) {
        return p;
    }
    let l = if p.0 == q.0 {
        if p.1 != q.1 || p.1 == z {
            return (z, z);
        }
        B::from(3) * p.0.square() * (p.1.double()).invert().unwrap()
    } else {
        (q.1 - p.1) * (q.0 - p.0).invert().unwrap()
    };
    let x = l.square() - p.0 - q.0;
    (x, l * (p.0 - x) - p.1)
}
pub fn mul(k: &BigUint, p: (B, B)) -> (B, B) {
    xy(&(aff(p) * fe::<S>(k)).to_affine())
}
pub fn q_order() -> BigUint {
    int(&-S::one()) + 1u32
}
pub fn p_order() -> BigUint {
    int(&-B::one()) + 1u32
}

// ---------------------------------------------------------------- fixed bases
struct Tab {
    g: Aff,
    zu: Vec<(u64, [B; H])>,
    zus: Vec<(u64, [B; H])>,
    l: Vec<[B; H]>,
    ls: Vec<[B; H]>,
}
pub const BASES: usize = 3;
fn tab(i: usize) -> &'static Tab {
    static T: OnceLock<Vec<OnceLock<Tab>>> = OnceLock::new();
    T.get_or_init(|| (0..BASES).map(|_| OnceLock::new()).collect())[i].get_or_init(|| {
        let g = base_point(i);
        Tab {
            g,
            zu: us(g, NUM_WINDOWS, i),
            zus: us(g, NUM_WINDOWS_SHORT, i),
            l: compute_lagrange_coeffs(g, NUM_WINDOWS),
            ls: compute_lagrange_coeffs(g, NUM_WINDOWS_SHORT),
        }
    })
}
/// the points of a window: [(k + 2) 8^w] B, and [k 8^w - sum of 2 8^j] B in the last
fn window(b: (B, B), n: usize, w: usize) -> Vec<(B, B)> {
    let off = (0..n - 1).fold(BigUint::from(0u32), |a, j| a + pow2(3 * j + 1));
    (0..8u32)
        .map(|k| {
            let s = if w + 1 < n { (BigUint::from(k) + 2u32) * pow2(3 * w) } else { (BigUint::from(k) * pow2(3 * w) + q_order() - &off) % q_order() };
            mul(&s, b)
        })
        .collect()
}
fn fits(z: u64, ps: &[(B, B)]) -> Option<[B; H]> {
    let mut u = [B::zero(); H];
    for (k, (_, y)) in ps.iter().enumerate() {
        if bool::from((B::from(z) - y).sqrt().is_some()) {
            return None;
        }
        u[k] = Option::from((B::from(z) + y).sqrt())?;
    }
    Some(u)
}
/// The z of each window takes seconds to find, so they are kept in a file (base, number of windows,
/// z's); a z that does not fit is looked for again.
fn us(g: Aff, n: usize, i: usize) -> Vec<(u64, [B; H])> {
    let known: Vec<u64> = include_str!("ecc_z.txt")
        .lines()
        .filter_map(|l| {
            let mut t = l.split_whitespace().map(|x| x.parse::<u64>().unwrap());
            let head = (t.next()? as usize, t.next()? as usize);
            (head == (i, n)).then(|| t.collect::<Vec<_>>())
        })
        .next()
        .unwrap_or_default();
    (0..n)
        .map(|w| {
            let ps = window(xy(&g), n, w);
            known.get(w).and_then(|z| fits(*z, &ps).map(|u| (*z, u))).unwrap_or_else(|| (0..).find_map(|z| fits(z, &ps).map(|u| (z, u))).unwrap())
        })
        .collect()
}
pub fn print_zs() {
    let mut hs = vec![];
    for i in 0..BASES {
        for n in [NUM_WINDOWS, NUM_WINDOWS_SHORT] {
            hs.push(std::thread::spawn(move || {
                let zs: Vec<String> = us(base_point(i), n, i).iter().map(|z| z.0.to_string()).collect();
                format!("{} {} {}", i, n, zs.join(" "))
            }));
        }
    }
    for h in hs {
        println!("{}", h.join().unwrap());
    }
}
fn base_point(i: usize) -> Aff {
    match i {
        0 => pallas::Point::generator(),
        1 => -pallas::Point::generator() * S::from(0x1234_5678_9abc_def1),
        _ => pallas::Point::generator() * (S::from(7).invert().unwrap()),
    }
    .to_affine()
}
fn reprs(t: &[(u64, [B; H])]) -> Vec<[[u8; 32]; H]> {
    t.iter().map(|(_, u)| core::array::from_fn(|i| u[i].to_repr())).collect()
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct Bases;
macro_rules! base {
    ($n:ident, $k:ident, $zu:ident, $l:ident) => {
        #[derive(Debug, Eq, PartialEq, Clone)]
        pub struct $n(pub usize);
        impl ChipFixedPoint<Aff> for $n {
            type FixedScalarKind = $k;
            fn generator(&self) -> Aff {
                tab(self.0).g
            }
            fn u(&self) -> Vec<[[u8; 32]; H]> {
                reprs(&tab(self.0).$zu)
            }
            fn z(&self) -> Vec<u64> {
                tab(self.0).$zu.iter().map(|z| z.0).collect()
            }
            fn lagrange_coeffs(&self) -> Vec<[B; H]> {
                tab(self.0).$l.clone()
            }
        }
    };
}
base!(Full, FullScalar, zu, l);
base!(Short, ShortScalar, zus, ls);
base!(BaseF, BaseFieldElem, zu, l);
impl FixedPoints<Aff> for Bases {
    type FullScalar = Full;
    type ShortScalar = Short;
    type Base = BaseF;
}
pub fn gen(i: usize) -> (B, B) {
    xy(&tab(i).g)
}

// ---------------------------------------------------------------- circuit
#[derive(Clone, Debug)]
enum Op {
    Witness((B, B)),
    WitnessNonId((B, B)),
    /// the flags say which of the two is witnessed as a non-identity point
    Add((B, B), (B, B), bool, bool),
    AddInc((B, B), (B, B)),
    Mul(B, (B, B)),
    Full(S, usize),
    Short(B, B, usize),
    BaseMul(B, usize),
    /// equality of two points
    Equal((B, B), (B, B), bool, bool),
}
impl Op {
    /// instance rows: inputs, outputs
    fn rows(&self) -> (usize, usize) {
        match self {
            Op::Witness(_) | Op::WitnessNonId(_) => (2, 0),
            Op::Add(..) | Op::AddInc(..) => (4, 2),
            Op::Mul(..) => (3, 2),
            Op::Full(..) => (0, 2),
            Op::Short(..) => (2, 2),
            Op::BaseMul(..) => (1, 2),
            Op::Equal(..) => (4, 0),
        }
    }
    /// what the instance rows of the honest assignment are
    fn want(&self) -> Vec<B> {
        let pt = |p: &(B, B)| vec![p.0, p.1];
        match self {
            Op::Witness(p) | Op::WitnessNonId(p) => pt(p),
            Op::Add(p, q, _, _) | Op::AddInc(p, q) => [pt(p), pt(q), pt(&add(*p, *q))].concat(),
            Op::Mul(a, p) => [vec![*a], pt(p), pt(&mul(&int(a), *p))].concat(),
            Op::Full(s, i) => pt(&mul(&int(s), gen(*i))),
            Op::Short(m, s, i) => {
                let r = mul(&int(m), gen(*i));
                let r = if *s == B::one() { r } else { (r.0, -r.1) };
                [vec![*m, *s], pt(&r)].concat()
            }
            Op::BaseMul(a, i) => [vec![*a], pt(&mul(&int(a), gen(*i)))].concat(),
            Op::Equal(p, q, _, _) => [pt(p), pt(q)].concat(),
        }
    }
    /// the relation of whatever the circuit accepts
    fn rel(&self, v: &[B]) -> Result<(), String> {
        let non_id = |x: B, y: B| if on_curve(x, y) { Ok((x, y)) } else { Err(format!("({:?}, {:?}) is not a non-identity point", x, y)) };
        let out = |r: (B, B), want: (B, B), what: String| if r == want { Ok(()) } else { Err(format!("{} is {:?} and not {:?}", what, r, want)) };
        match self {
            Op::Witness(_) => decode(v[0], v[1]).map(|_| ()),
            Op::WitnessNonId(_) => non_id(v[0], v[1]).map(|_| ()),
            Op::Add(_, _, np, nq) => {
                let p = if *np { non_id(v[0], v[1])? } else { decode(v[0], v[1])? };
                let q = if *nq { non_id(v[2], v[3])? } else { decode(v[2], v[3])? };
                out((v[4], v[5]), add(p, q), format!("{:?} + {:?}", p, q))
            }
            Op::AddInc(..) => {
                let (p, q) = (non_id(v[0], v[1])?, non_id(v[2], v[3])?);
                if p == q {
                    // the caller has to exclude it
                    return Ok(());
                }
                if p.0 == q.0 {
                    return Err(format!("an incomplete addition of opposite points {:?}, {:?}", p, q));
                }
                out((v[4], v[5]), add(p, q), format!("{:?} + {:?} (incomplete)", p, q))
            }
            Op::Mul(..) => {
                let p = non_id(v[1], v[2])?;
                out((v[3], v[4]), mul(&int(&v[0]), p), format!("[{:?}] {:?}", v[0], p))
            }
            Op::Full(..) => decode(v[0], v[1]).map(|_| ()),
            Op::Short(_, _, i) => {
                let m = int(&v[0]);
                if m >= pow2(64) {
                    return Err(format!("a short scalar {}", m));
                }
                if v[1] != B::one() && v[1] != -B::one() {
                    return Err(format!("a sign {:?}", v[1]));
                }
                let r = mul(&m, gen(*i));
                let r = if v[1] == B::one() { r } else { (r.0, -r.1) };
                out((v[2], v[3]), r, format!("[{:?} * {}] G{}", v[1], m, i))
            }
            Op::BaseMul(_, i) => out((v[1], v[2]), mul(&int(&v[0]), gen(*i)), format!("[{:?}] G{}", v[0], i)),
            Op::Equal(_, _, np, nq) => {
                let p = if *np { non_id(v[0], v[1])? } else { decode(v[0], v[1])? };
                let q = if *nq { non_id(v[2], v[3])? } else { decode(v[2], v[3])? };
                if p != q {
                    return Err(format!("{:?} and {:?} pass as equal", p, q));
                }
                Ok(())
            }
        }
    }
}
#[derive(Clone)]
pub struct Cfg {
    io: Column<Instance>,
    table: TableColumn,
    ecc: EccConfig<Bases>,
}
struct Ecc<P> {
    ops: Vec<Op>,
    _p: PhantomData<P>,
}
type Ch = EccChip<Bases>;
fn v<T>(x: T) -> Value<T> {
    Value::known(x)
}
impl<P: FloorPlanner> Circuit<B> for Ecc<P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Ecc { ops: self.ops.clone(), _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<B>) -> Cfg {
        let adv: [Column<Advice>; 10] = core::array::from_fn(|_| m.advice_column());
        let lag: [Column<Fixed>; 8] = core::array::from_fn(|_| m.fixed_column());
        let k = m.fixed_column();
        m.enable_constant(k);
        let io = m.instance_column();
        m.enable_equality(io);
        let table = m.lookup_table_column();
        let rc = LookupRangeCheckConfig::configure(m, adv[9], table);
        Cfg { io, table, ecc: Ch::configure(m, adv, lag, rc) }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<B>) -> Result<(), Error> {
        load_table(&mut l, c.table, 10)?;
        let chip = Ch::construct(c.ecc.clone());
        let mut t = Tie { col: c.io, next: 0 };
        let free = c.ecc.advices[0];
        for o in &self.ops {
            macro_rules! tie_pt {
                ($p:expr) => {{
                    let p = $p.inner().clone();
                    t.tie(&mut l, &p.x())?;
                    t.tie(&mut l, &p.y())?;
                    let x = $p.extract_p().inner().clone();
                    if x.cell() != p.x().cell() {
                        return Err(Error::Synthesis);
                    }
                }};
            }
            macro_rules! point {
                ($p:expr, $non_id:expr) => {{
                    if $non_id {
                        let n = NonIdentityPoint::new(chip.clone(), l.namespace(|| "point"), v(aff($p)))?;
                        tie_pt!(n);
                        Point::from(n)
                    } else {
                        let n = Point::new(chip.clone(), l.namespace(|| "point"), v(aff($p)))?;
                        tie_pt!(n);
                        n
                    }
                }};
            }
            match o {
                Op::Witness(p) => {
                    point!(*p, false);
                }
                Op::WitnessNonId(p) => {
                    point!(*p, true);
                }
                Op::Add(p, q, np, nq) => {
                    let p = point!(*p, *np);
                    let q = point!(*q, *nq);
                    let r = p.add(l.namespace(|| "add"), &q)?;
                    tie_pt!(r);
                }
                Op::AddInc(p, q) => {
                    let p = NonIdentityPoint::new(chip.clone(), l.namespace(|| "p"), v(aff(*p)))?;
                    tie_pt!(p);
                    let q = NonIdentityPoint::new(chip.clone(), l.namespace(|| "q"), v(aff(*q)))?;
                    tie_pt!(q);
                    let r = p.add_incomplete(l.namespace(|| "add"), &q)?;
                    tie_pt!(r);
                }
                Op::Mul(a, p) => {
                    let a = private(&mut l, free, *a)?;
                    t.tie(&mut l, &a)?;
                    let p = NonIdentityPoint::new(chip.clone(), l.namespace(|| "p"), v(aff(*p)))?;
                    tie_pt!(p);
                    let s = ScalarVar::from_base(chip.clone(), l.namespace(|| "s"), &a)?;
                    let (r, _) = p.mul(l.namespace(|| "mul"), s)?;
                    tie_pt!(r);
                }
                Op::Full(s, i) => {
                    let s = ScalarFixed::new(chip.clone(), l.namespace(|| "s"), v(*s))?;
                    let (r, _) = FixedPoint::from_inner(chip.clone(), Full(*i)).mul(l.namespace(|| "mul"), s)?;
                    tie_pt!(r);
                }
                Op::Short(m, s, i) => {
                    let m = private(&mut l, free, *m)?;
                    t.tie(&mut l, &m)?;
                    let s = private(&mut l, free, *s)?;
                    t.tie(&mut l, &s)?;
                    let s = ScalarFixedShort::new(chip.clone(), l.namespace(|| "s"), (m, s))?;
                    let (r, _) = FixedPointShort::from_inner(chip.clone(), Short(*i)).mul(l.namespace(|| "mul"), s)?;
                    tie_pt!(r);
                }
                Op::BaseMul(a, i) => {
                    let a = private(&mut l, free, *a)?;
                    t.tie(&mut l, &a)?;
                    let r = FixedPointBaseField::from_inner(chip.clone(), BaseF(*i)).mul(l.namespace(|| "mul"), a)?;
                    tie_pt!(r);
                }
                Op::Equal(p, q, np, nq) => {
                    let p = point!(*p, *np);
                    let q = point!(*q, *nq);
                    p.constrain_equal(l.namespace(|| "eq"), &q)?;
                }
            }
        }
        Ok(())
    }
}
// ---------------------------------------------------------------- generators
fn point(g: &mut G) -> (B, B) {
    match g.below(8) {
        0 => (B::zero(), B::zero()),
        1 => xy(&(pallas::Point::generator() * S::from(g.below(20) + 1)).to_affine()),
        2 => xy(&(-(pallas::Point::generator() * S::from(g.below(20) + 1))).to_affine()),
        _ => xy(&(pallas::Point::generator() * S::random(rng(g))).to_affine()),
    }
}
pub fn non_id(g: &mut G) -> (B, B) {
    loop {
        let p = point(g);
        if p != (B::zero(), B::zero()) {
            return p;
        }
    }
}
/// something related to p
fn partner(g: &mut G, p: (B, B)) -> (B, B) {
    let z = cube_root();
    match g.below(8) {
        0 => p,
        1 => (p.0, -p.1),
        2 => (p.0 * z, p.1),
        3 => (p.0 * z.square(), -p.1),
        4 => add(p, p),
        5 => {
            let r = add(p, p);
            (r.0, -r.1)
        }
        _ => point(g),
    }
}
pub fn cube_root() -> B {
    // any element to the (p-1)/3
    let e = (p_order() - 1u32) / 3u32;
    let mut i = 2u64;
    loop {
        let mut r = B::one();
        for b in (0..256).rev() {
            r = r.square();
            if e.bit(b) {
                r *= B::from(i);
            }
        }
        if r != B::one() {
            return r;
        }
        i += 1;
    }
}
/// scalars, with emphasis on the edges of the decompositions
pub fn scalar(g: &mut G) -> BigUint {
    let (p, q) = (p_order(), q_order());
    let d = BigUint::from(g.below(20));
    let tq = &q - pow2(254);
    let tp = &p - pow2(254);
    let x = match g.below(14) {
        0 => d,
        1 => &p - 1u32 - d,
        2 => pow2(254) - &tq + d,
        3 => pow2(254) - &tq - d,
        4 => pow2(254) + d,
        5 => pow2(254) - 1u32 - d,
        6 => pow2(130) + d,
        7 => pow2(130) - 1u32 - d,
        8 => tp - 1u32 - d,
        9 => pow2(g.usize(254)),
        10 => pow2(g.usize(254)) - 1u32,
        11 => (&q - 1u32) / (d + 2u32),
        _ => le32(&g.bytes(32)),
    };
    x % p
}
fn le32(b: &[u8]) -> BigUint {
    BigUint::from_bytes_le(b)
}
fn op(g: &mut G) -> Op {
    match g.below(9) {
        0 => Op::Witness(point(g)),
        1 => Op::WitnessNonId(non_id(g)),
        2 => {
            let p = point(g);
            let q = partner(g, p);
            let z = (B::zero(), B::zero());
            let (np, nq) = (p != z && g.bool(), q != z && g.bool());
            if g.bool() {
                Op::Add(p, q, np, nq)
            } else {
                Op::Add(q, p, nq, np)
            }
        }
        3 => loop {
            let p = non_id(g);
            let q = partner(g, p);
            if q.0 != p.0 && q != (B::zero(), B::zero()) {
                break Op::AddInc(p, q);
            }
        },
        4 => Op::Mul(fe(&scalar(g)), non_id(g)),
        5 => {
            let s = if g.chance(1, 4) { q_order() - 1u32 - g.below(20) } else { scalar(g) };
            Op::Full(fe(&s), g.usize(BASES))
        }
        6 => Op::Short(fe(&below_bits(g, 64)), if g.bool() { B::one() } else { -B::one() }, g.usize(BASES)),
        7 => Op::BaseMul(fe(&scalar(g)), g.usize(BASES)),
        _ => {
            let p = point(g);
            let id = p == (B::zero(), B::zero());
            Op::Equal(p, p, !id && g.bool(), !id && g.bool())
        }
    }
}
fn bud() -> Budget {
    Budget { steps: 3000, backtracks: 300 }
}
fn run<P: FloorPlanner>(k: u32, ops: &[Op], what: &str) -> Result<Lab<B>, Fail> {
    let c = Ecc::<P> { ops: ops.to_vec(), _p: PhantomData };
    let lab = honest(k, &c, what)?;
    let want: Vec<B> = ops.iter().flat_map(|o| o.want()).collect();
    let got = io(&lab, want.len());
    if got != want {
        let i = (0..want.len()).find(|i| got[*i] != want[*i]).unwrap();
        fail!("{:?}: instance row {} is {:?} and should be {:?}", ops, i, got[i], want[i]);
    }
    Ok(lab)
}

// ---------------------------------------------------------------- laws
fn programs<P: FloorPlanner>(g: &mut G) -> R {
    let n = g.range(1, 4);
    let ops: Vec<Op> = (0..n).map(|_| op(g)).collect();
    g.desc(|| format!("{:?}", ops));
    run::<P>(11, &ops, "a program of curve operations")?;
    g.nontrivial();
    Ok(())
}
fn forged(g: &mut G, o: Op, tries: usize) -> R {
    g.desc(|| format!("{:?}", o));
    let lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one curve operation")?;
    let (i, r) = o.rows();
    if let Op::Full(s, b) = &o {
        return forged_full(g, lab, *s, *b, tries);
    }
    let rel = |v: &[B]| o.rel(v);
    let seen = attack(g, lab, Attack { n_io: i + r, inputs: i, tries, budget: bud(), rel: &rel })?;
    if seen > 0 {
        g.class("accepted other assignments");
    }
    g.nontrivial();
    Ok(())
}
/// Full-width multiplication does not give out its scalar: where the honest assignment has the 85
/// windows of the scalar in a row, these cells say what was multiplied (when there is no such row
/// of cells, only the result is looked at).
fn forged_full(g: &mut G, lab: Lab<B>, s: S, base: usize, tries: usize) -> R {
    let cells = window_cells(&lab, s);
    let mut f = Forge::new(lab);
    let ts = f.targets();
    let wcl: Vec<usize> = cells.iter().map(|c| f.class(*c)).collect();
    for _ in 0..tries {
        f.reset();
        let v = if !wcl.is_empty() && g.chance(1, 3) { wcl[g.usize(wcl.len())] } else { ts[g.usize(ts.len())] };
        let cur = f.val[v];
        let x = match g.below(5) {
            0 => B::from(g.below(10)),
            1 => -cur,
            2 => cur + B::one(),
            3 => -B::from(g.below(10)),
            _ => any(g),
        };
        if x == cur || f.is_pinned(v) {
            continue;
        }
        let mut r = rng(g);
        g.evals(1);
        if f.search(&[(v, x)], &[], &mut r, bud()) {
            let out = (f.value((Kind::Instance, 0, 0)), f.value((Kind::Instance, 0, 1)));
            if let Err(e) = decode(out.0, out.1) {
                fail!("full-width multiplication gives something: {}", e);
            }
            if !cells.is_empty() {
                let mut k = BigUint::from(0u32);
                for (i, c) in cells.iter().enumerate() {
                    let d = int(&f.value(*c));
                    ensure!(d < BigUint::from(8u32), "full-width multiplication accepts the window {} at place {}", d, i);
                    k += d << (3 * i);
                }
                ensure_eq!(out, mul(&(k % q_order()), gen(base)), "full-width multiplication with other windows");
                g.class("other windows accepted");
            }
        }
    }
    g.nontrivial();
    Ok(())
}
/// the cells of the windows of a full-width scalar, or nothing
pub fn window_cells(lab: &Lab<B>, s: S) -> Vec<(Kind, usize, usize)> {
    let w: Vec<B> = (0..NUM_WINDOWS).map(|i| fe(&((int(&s) >> (3 * i)) % 8u32))).collect();
    if int(&s) > pow2(200) {
        for c in 0..lab.advice.len() {
            for r in 0..lab.usable - NUM_WINDOWS {
                if lab.advice[c][r..r + NUM_WINDOWS] == w[..] {
                    return (0..NUM_WINDOWS).map(|i| (Kind::Advice, c, r + i)).collect();
                }
            }
        }
    }
    vec![]
}
/// The decomposition of the scalar is replaced by that of another number in the same residue class
/// (or of a neighbour): the cells with the values of the honest running sum get those of the other.
fn noncanonical(g: &mut G) -> R {
    let p = p_order();
    let tq = q_order() - pow2(254);
    let a = scalar(g);
    let (o, shift, off, len) = match g.below(3) {
        0 => (Op::Mul(fe(&a), non_id(g)), 1, tq, 255),
        1 => (Op::BaseMul(fe(&a), g.usize(BASES)), 3, BigUint::from(0u32), 85),
        _ => {
            let m = &a % pow2(64);
            (Op::Short(fe(&m), B::one(), g.usize(BASES)), 3, BigUint::from(0u32), 22)
        }
    };
    let a = match &o {
        Op::Mul(a, _) | Op::BaseMul(a, _) | Op::Short(a, _, _) => int(a),
        _ => unreachable!(),
    };
    let k = &a + off;
    let alt = match g.below(4) {
        0 if shift == 1 => {
            // the same number less the modulus, when that is possible
            if k < p {
                &k + &p
            } else {
                &k - &p
            }
        }
        _ => &k + &p,
    };
    if alt >= pow2(256) {
        return Ok(());
    }
    g.desc(|| format!("{:?} with the running sum of {} for that of {}", o, alt, k));
    let lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one curve operation")?;
    let (i, r) = o.rows();
    let mut f = Forge::new(lab);
    let ins: Vec<usize> = (0..i).map(|i| f.class((Kind::Instance, 0, i))).collect();
    let mut ch: Vec<(usize, B)> = vec![];
    for j in 0..len {
        let old = &k >> (shift * j);
        if old < pow2(24) {
            break;
        }
        let (ov, nv): (B, B) = (fe(&old), fe(&(&alt >> (shift * j))));
        if ov == nv {
            continue;
        }
        for c in f.targets() {
            if f.val[c] == ov && !ins.contains(&c) && !ch.iter().any(|x| x.0 == c) {
                ch.push((c, nv));
            }
        }
    }
    if ch.is_empty() {
        return Ok(());
    }
    g.class(match o {
        Op::Mul(..) => "variable base",
        Op::BaseMul(..) => "base field",
        _ => "short",
    });
    g.nontrivial();
    g.evals(1);
    let mut r_ = rng(g);
    if f.search(&ch, &ins, &mut r_, Budget { steps: 8000, backtracks: 600 }) {
        let now: Vec<B> = (0..i + r).map(|i| f.value((Kind::Instance, 0, i))).collect();
        if let Err(e) = o.rel(&now) {
            fail!("the circuit accepts a false statement with another decomposition: {}; instance {:?}", e, now);
        }
    }
    Ok(())
}
/// One step of double-and-add as the circuit states it: the bit (or whatever is in its place), the
/// point added, both slopes and the accumulator before.
#[derive(Clone, Copy)]
struct Step {
    z: B,
    base: (B, B),
    l1: B,
    l2: B,
    acc: (B, B),
}
/// `jump`: a place where the accumulator is replaced
/// `sum`: a place before which the running sum is replaced
fn ladder(ks: &[B], bases: &[(B, B)], half: usize, start: (B, B), jump: Option<(usize, (B, B))>, sum: Option<(usize, B)>) -> Option<(Vec<Step>, (B, B))> {
    let inv = |x: B| Option::<B>::from(x.invert());
    let mut acc = start;
    let mut z = B::zero();
    let mut out = vec![];
    for (i, k) in ks.iter().enumerate() {
        if let Some((j, a)) = jump {
            if i == j {
                acc = a;
            }
        }
        if let Some((j, s)) = sum {
            if i == j {
                z = s;
            }
        }
        // both halves of the ladder stand side by side in the same rows
        let base = bases[if i < half { i } else { i - half }];
        z = z.double() + k;
        let y = base.1 * (k.double() - B::one());
        let l1 = (acc.1 - y) * inv(acc.0 - base.0)?;
        let xr = l1.square() - acc.0 - base.0;
        let l2 = acc.1.double() * inv(acc.0 - xr)? - l1;
        let x = l2.square() - acc.0 - xr;
        let y = l2 * (acc.0 - x) - acc.1;
        out.push(Step { z, base, l1, l2, acc });
        acc = (x, y);
    }
    Some((out, acc))
}
/// The prover of a variable-base multiplication runs the double-and-add with something else than
/// the bits, the base and the accumulator of the honest one: where the honest assignment has the
/// values of the honest ladder, those of the other are put, and the rest is repaired.
fn other_ladder(g: &mut G) -> R {
    const N: usize = 251;
    const HALF: usize = 125;
    let a: B = fe(&scalar(g));
    let p = non_id(g);
    let o = Op::Mul(a, p);
    let k = int(&a) + (q_order() - pow2(254));
    let bits: Vec<B> = (0..255).rev().map(|i| if k.bit(i) { B::one() } else { B::zero() }).collect();
    let mut ks = bits[..N].to_vec();
    let mut bases = vec![p; N - HALF];
    let start = add(p, p);
    let other = match g.below(4) {
        0 => (p.0, -p.1),
        1 => (p.0 * cube_root(), p.1),
        2 => add(p, p),
        _ => non_id(g),
    };
    let at = match g.below(4) {
        0 => 0,
        1 => HALF,
        _ => g.usize(N),
    };
    let row = if g.chance(1, 3) { 0 } else { g.usize(N - HALF) };
    let mut jump = None;
    // cells in the ladder's own rows only
    let mut own = false;
    let mut sum = None;
    let what = match g.below(20) {
        17..=19 => "another point in an addition",
        16 => "another running sum at the beginning",
        10 => "another x at the beginning",
        11 => "another x between the halves",
        12 | 13 => "another running sum between the halves",
        14 | 15 => "another running sum at the end",
        // the y of the accumulator, where it is written down
        7 => "another y at the beginning",
        8 => "another y between the halves",
        9 => "another y at the end",
        0 | 1 => {
            bases[row..].iter_mut().for_each(|b| *b = other);
            "another base"
        }
        2 => {
            let x = any(g);
            bases[row..].iter_mut().for_each(|b| b.0 = x);
            "another x of the base"
        }
        3 => {
            let y = any(g);
            bases[row..].iter_mut().for_each(|b| b.1 = y);
            "another y of the base"
        }
        4 | 5 => {
            // the running sum meets the honest one again after one step
            let i = at.min(N - 2);
            let d = if g.bool() { B::one() } else { -B::from(g.below(5) + 1) };
            ks[i] += d;
            ks[i + 1] -= d.double();
            "digits for bits"
        }
        _ => {
            jump = Some((at, other));
            "another accumulator"
        }
    };
    g.desc(|| format!("{:?} with {} (place {}, row {}, {:?})", o, what, at, row, other));
    let good = match ladder(&bits[..N], &vec![p; N - HALF], HALF, start, None, None) {
        Some(a) => a,
        _ => return Ok(()),
    };
    let y = match g.below(3) {
        0 => None,
        _ => Some(any(g)),
    };
    match what {
        "another y at the beginning" => jump = Some((0, (start.0, y.unwrap_or(-start.1)))),
        "another y between the halves" => jump = Some((HALF, (good.0[HALF].acc.0, y.unwrap_or(-good.0[HALF].acc.1)))),
        "another x at the beginning" => jump = Some((0, (y.unwrap_or(other.0), start.1))),
        "another x between the halves" => jump = Some((HALF, (y.unwrap_or(other.0), good.0[HALF].acc.1))),
        "another running sum at the beginning" => {
            // makes up for the first bit
            ks[0] = B::one() - ks[0];
            sum = Some((0, (bits[0] - ks[0]) * B::from(2).invert().unwrap()));
        }
        "another running sum between the halves" | "another running sum at the end" => {
            let end = if what.ends_with("end") { N } else { HALF };
            for _ in 0..g.range(1, 4) {
                // not the first bit, the reduction depends on it
                let i = 1 + g.usize(end - 1);
                ks[i] = B::one() - ks[i];
            }
            if end < N {
                sum = Some((HALF, good.0[HALF - 1].z));
            }
        }
        _ => {}
    }
    if what.starts_with("another x") && what != "another x of the base" || sum.is_some() || what == "another running sum at the end" {
        own = true;
    }
    let mut cheat = match ladder(&ks, &bases, HALF, start, jump, sum) {
        Some(a) => a,
        _ => return Ok(()),
    };
    if what == "another y at the end" {
        cheat.1 .1 = y.unwrap_or(-cheat.1 .1);
    }
    if cheat.0[0].acc != start && !own {
        // the first accumulator is an output of an addition before
        cheat.0[0].acc = start;
    }
    let lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one curve operation")?;
    let mut at_value: HashMap<Vec<u8>, Vec<(usize, usize)>> = HashMap::new();
    for (c, col) in lab.advice.iter().enumerate() {
        for (r, v) in col[..lab.usable].iter().enumerate() {
            at_value.entry(v.to_repr().to_vec()).or_default().push((c, r));
        }
    }
    let mut f = Forge::new(lab);
    let (i, r) = o.rows();
    let ins: Vec<usize> = (0..i).map(|i| f.class((Kind::Instance, 0, i))).collect();
    let mut ch: Vec<(usize, B)> = vec![];
    let mut set = |f: &mut Forge<B>, cells: &[(usize, usize)], v: B| {
        for (c, r) in cells {
            let id = f.class((Kind::Advice, *c, *r));
            if f.val[id] != v && !ins.contains(&id) && !f.is_pinned(id) && !ch.iter().any(|x| x.0 == id) {
                ch.push((id, v));
            }
        }
    };
    let find = |v: &B| at_value.get(&v.to_repr().to_vec()).cloned().unwrap_or_default();
    let mut rows = vec![];
    for (h, c) in good.0.iter().zip(&cheat.0) {
        let l1 = find(&h.l1);
        if l1.len() != 1 {
            // not laid out this way
            return Ok(());
        }
        let (_, row) = l1[0];
        rows.push(row);
        set(&mut f, &l1, c.l1);
        set(&mut f, &find(&h.l2), c.l2);
        set(&mut f, &find(&h.acc.0).into_iter().filter(|x| !own || x.1 == row).collect::<Vec<_>>(), c.acc.0);
        // small numbers stand elsewhere as well
        if int(&h.z) > pow2(24) && !own {
            set(&mut f, &find(&h.z), c.z);
        } else if h.z != c.z {
            set(&mut f, &find(&h.z).into_iter().filter(|x| x.1 == row).collect::<Vec<_>>(), c.z);
        }
        for (hv, cv) in [(h.base.0, c.base.0), (h.base.1, c.base.1)] {
            if hv != cv {
                set(&mut f, &find(&hv).into_iter().filter(|x| x.1 == row).collect::<Vec<_>>(), cv);
            }
        }
    }
    if what == "another running sum at the beginning" {
        let places = find(&good.0[60].z);
        if let (1, Some((0, v))) = (places.len(), sum) {
            set(&mut f, &[(places[0].0, rows[0] - 1)], v);
        }
    }
    if what == "another point in an addition" {
        let v = [-p.1, -p.1, p.1, p.0][g.usize(4)];
        // the rows after those of the ladder
        let last = rows.iter().copied().max().unwrap_or(0);
        let mut cells = find(&v);
        cells.sort_by_key(|c| c.1);
        let k = cells.iter().filter(|c| c.1 > last).count();
        let n = cells.len();
        let cells = if k > 0 { &cells[n - k..] } else { &cells[..] };
        if !cells.is_empty() {
            // towards the end, where the last bit is dealt with
            let j = cells.len() - 1 - g.usize(cells.len().min(4));
            let v = y.unwrap_or(-v);
            set(&mut f, &[cells[j]], v);
        }
    }
    // the accumulator's y stands only at the ends of the halves
    if what != "another y between the halves" || g.bool() {
        set(&mut f, &find(&good.0[HALF].acc.1), cheat.0[HALF].acc.1);
    }
    set(&mut f, &find(&good.1 .0), cheat.1 .0);
    set(&mut f, &find(&good.1 .1), cheat.1 .1);
    if ch.is_empty() {
        return Ok(());
    }
    g.class(what);
    g.nontrivial();
    g.evals(1);
    let mut r_ = rng(g);
    if f.search(&ch, &ins, &mut r_, Budget { steps: 8000, backtracks: 600 }) {
        let now: Vec<B> = (0..i + r).map(|i| f.value((Kind::Instance, 0, i))).collect();
        if let Err(e) = o.rel(&now) {
            fail!("the circuit accepts a false statement with {}: {}; instance {:?}", what, e, now);
        }
        g.class("accepted");
    }
    Ok(())
}
/// inputs outside of the domain
fn strangers(g: &mut G) -> R {
    let o = match g.below(6) {
        0 | 1 => {
            let m = match g.below(5) {
                0 => pow2(64) + g.below(20),
                1 => pow2(65) - 1u32 - g.below(20),
                2 => pow2(66) - 1u32 - g.below(20),
                3 => pow2(g.range(64, 253)),
                _ => p_order() - 1u32 - g.below(20),
            };
            Op::Short(fe(&m), if g.bool() { B::one() } else { -B::one() }, g.usize(BASES))
        }
        2 => {
            let s = loop {
                let s: B = any(g);
                if s != B::one() && s != -B::one() {
                    break s;
                }
            };
            Op::Short(fe(&below_bits(g, 64)), s, g.usize(BASES))
        }
        3 => {
            let p = non_id(g);
            Op::AddInc(p, (p.0, if g.bool() { p.1 } else { -p.1 }))
        }
        4 => Op::WitnessNonId((B::zero(), B::zero())),
        _ => {
            let p = point(g);
            let q = partner(g, p);
            if p == q {
                return Ok(());
            }
            Op::Equal(p, q, false, false)
        }
    };
    g.desc(|| format!("{:?}", o));
    g.nontrivial();
    let c = Ecc::<SimpleFloorPlanner> { ops: vec![o.clone()], _p: PhantomData };
    let lab = match guarded(|| synth(11, &c)) {
        Ok(Ok(l)) => l,
        // refused
        _ => {
            g.class("refused");
            return Ok(());
        }
    };
    if let Op::AddInc(..) | Op::WitnessNonId(..) = o {
        fail!("{:?} is not refused", o);
    }
    g.class("assigned");
    let (i, r) = o.rows();
    let rel = |v: &[B]| o.rel(v);
    outside(g, lab, Attack { n_io: i + r, inputs: i, tries: 3, budget: bud(), rel: &rel })
}
/// the window tables of any base
fn tables(g: &mut G) -> R {
    let b = non_id(g);
    let search = g.index % 16 == 0;
    let w = if search { 2 } else { g.range(2, 10) };
    g.desc(|| format!("base {:?}, {} windows", b, w));
    let l = compute_lagrange_coeffs(aff(b), w);
    ensure_eq!(l.len(), w, "number of windows");
    for i in 0..w {
        for (k, (x, _)) in window(b, w, i).iter().enumerate() {
            let xi = l[i].iter().rev().fold(B::zero(), |a, c| a * B::from(k as u64) + c);
            ensure_eq!(xi, *x, "x of window {} entry {} of {:?}", i, k, b);
        }
    }
    g.evals(8 * w);
    if search {
        let zu = match find_zs_and_us(aff(b), w) {
            Some(x) => x,
            None => fail!("no tables for {:?} with {} windows", b, w),
        };
        ensure_eq!(zu.len(), w, "number of windows");
        for i in 0..w {
            let z = B::from(zu[i].0);
            for (k, (_, y)) in window(b, w, i).iter().enumerate() {
                ensure_eq!(zu[i].1[k].square(), z + y, "u of window {} entry {} of {:?}", i, k, b);
                ensure!(bool::from((z - y).sqrt().is_none()), "z of window {} entry {} of {:?} does not tell y from -y", i, k, b);
            }
        }
        g.class("z and u searched");
    }
    g.nontrivial();
    Ok(())
}

/// The assignment of another operation of the same kind (another base, other operands), all of it
/// or from some row on, in the place of the honest one.
fn transplanted(g: &mut G) -> R {
    let o = loop {
        match op(g) {
            Op::Full(s, _) if int(&s) <= pow2(200) => {}
            o @ (Op::Mul(..) | Op::Full(..) | Op::Short(..) | Op::BaseMul(..)) => break o,
            _ => {}
        }
    };
    let sc = |g: &mut G| fe::<B>(&scalar(g));
    let keep = g.chance(1, 3);
    let d = |i: &usize| (i + 1) % BASES;
    let b = match &o {
        Op::Mul(a, p) => match g.below(4) {
            0 => Op::Mul(*a, (p.0, -p.1)),
            1 => Op::Mul(*a, (p.0 * cube_root(), p.1)),
            2 => Op::Mul(*a, non_id(g)),
            _ => Op::Mul(sc(g), *p),
        },
        Op::Full(s, i) => Op::Full(*s, d(i)),
        Op::Short(m, s, i) => match g.below(3) {
            0 => Op::Short(*m, -*s, *i),
            1 => Op::Short(fe(&below_bits(g, 64)), *s, *i),
            _ => Op::Short(*m, *s, d(i)),
        },
        Op::BaseMul(a, i) => {
            if g.chance(1, 3) {
                Op::BaseMul(sc(g), *i)
            } else {
                Op::BaseMul(*a, d(i))
            }
        }
        _ => unreachable!(),
    };
    g.desc(|| format!("the assignment of {:?} for {:?}", b, o));
    let mut lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one curve operation")?;
    let from = run::<SimpleFloorPlanner>(11, &[b], "one curve operation")?;
    let cells = if let Op::Full(s, _) = &o { window_cells(&lab, *s) } else { vec![] };
    g.nontrivial();
    let cut = if keep { g.usize(400) } else { 0 };
    for c in 0..lab.advice.len() {
        let n = lab.advice[c].len();
        if cut < n {
            lab.advice[c][cut..].clone_from_slice(&from.advice[c][cut..]);
        }
    }
    lab.instance = from.instance;
    g.evals(1);
    if !lab.accepts() {
        return Ok(());
    }
    g.class("accepted");
    let (i, r) = o.rows();
    let v = io(&lab, i + r);
    if let Op::Full(_, base) = &o {
        if !cells.is_empty() {
            let mut k = BigUint::from(0u32);
            for (i, c) in cells.iter().enumerate() {
                k += int(&lab.get(*c)) << (3 * i);
            }
            ensure_eq!((v[0], v[1]), mul(&(k % q_order()), gen(*base)), "the assignment of another multiplication is accepted");
        }
    }
    if let Err(e) = o.rel(&v) {
        fail!("the assignment of another operation is accepted: {}", e);
    }
    Ok(())
}

pub fn c29() -> Check {
    let laws = vec![
        Law::new("programs of curve operations", 24, 300, |g| if g.chance(1, 3) { programs::<floor_planner::V1>(g) } else { programs::<SimpleFloorPlanner>(g) }),
        Law::new("forged additions and points", 24, 300, |g| {
            let o = loop {
                match op(g) {
                    Op::Mul(..) | Op::Full(..) | Op::Short(..) | Op::BaseMul(..) => {}
                    o => break o,
                }
            };
            forged(g, o, 60)
        }),
        Law::new("forged multiplications", 16, 200, |g| {
            let o = loop {
                match op(g) {
                    o @ (Op::Mul(..) | Op::Full(..) | Op::Short(..) | Op::BaseMul(..)) => break o,
                    _ => {}
                }
            };
            forged(g, o, 20)
        }),
        Law::new("other decompositions", 16, 200, noncanonical),
        Law::new("another ladder", 48, 600, other_ladder),
        Law::new("transplanted assignments", 64, 800, transplanted),
        Law::new("inputs outside the domain", 24, 300, strangers),
        Law::new("window tables", 32, 640, tables),
    ];
    Check { id: "C29", rule: "a curve operation was computed in circuit and its accepted assignment attacked, or an input outside its domain was offered", assumptions: vec![], laws }
}

//! C28: Sinsemilla hash, commitment and Merkle paths.
use crate::ecc::{aff, gen, mul, p_order, q_order, scalar, window_cells, xy, Aff, Bases, Full, B, BASES, S};
use crate::frame::*;
use ff::Field;
use group::{Curve, Group};
use halo2_gadgets::ecc::chip::{EccChip, EccConfig};
use halo2_gadgets::ecc::ScalarFixed;
use halo2_gadgets::sinsemilla::chip::{SinsemillaChip, SinsemillaConfig};
use halo2_gadgets::sinsemilla::merkle::chip::{MerkleChip, MerkleConfig};
use halo2_gadgets::sinsemilla::merkle::{MerkleInstructions, MerklePath};
use halo2_gadgets::sinsemilla::primitives as prim;
use halo2_gadgets::sinsemilla::*;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::RangeConstrained;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use halo2curves::{CurveAffine, CurveExt};
use std::marker::PhantomData;
use std::sync::OnceLock;
use vh_common::*;
use vh_lab::forge::Budget;
use vh_lab::{Kind, Lab};

type Pt = pallas::Point;

// ---------------------------------------------------------------- reference
/// the generators, from their definition
fn s(j: usize) -> Pt {
    static T: OnceLock<Vec<Pt>> = OnceLock::new();
    T.get_or_init(|| {
        let h = Pt::hash_to_curve("z.cash:SinsemillaS");
        (0..1024u32).map(|j| h(&j.to_le_bytes())).collect()
    })[j]
}
fn fold(q: Pt, words: &[usize]) -> Pt {
    words.iter().fold(q, |a, w| (a + s(*w)) + a)
}
fn words(v: &BigUint, n: usize) -> Vec<usize> {
    (0..n).map(|i| ((v >> (10 * i)) % 1024u32).to_u32_digits().first().copied().unwrap_or(0) as usize).collect()
}
fn words_of_bits(bits: &[bool]) -> Vec<usize> {
    bits.chunks(10).map(|c| c.iter().enumerate().map(|(i, b)| (*b as usize) << i).sum()).collect()
}
fn pt(p: Pt) -> (B, B) {
    xy(&p.to_affine())
}
/// MerkleCRH of layer l for 255-bit encodings of the children
fn crh(q: Aff, l: usize, left: &BigUint, right: &BigUint) -> B {
    let v = BigUint::from(l) + (left << 10) + (right << 265);
    pt(fold(q.into(), &words(&v, 52))).0
}
/// the 255-bit encodings of a field element (the specification allows all of them)
fn encodings(x: &B) -> Vec<BigUint> {
    let (x, p) = (int(x), p_order());
    let y = &x + p;
    if y < pow2(255) {
        vec![x, y]
    } else {
        vec![x]
    }
}

// ---------------------------------------------------------------- circuit
#[derive(Clone, Debug, PartialEq, Eq)]
struct HD(Aff);
impl HashDomains<Aff> for HD {
    fn Q(&self) -> Aff {
        self.0
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct CD(Aff, usize);
impl CommitDomains<Aff, Bases, HD> for CD {
    fn r(&self) -> Full {
        Full(self.1)
    }
    fn hash_domain(&self) -> HD {
        HD(self.0)
    }
}
#[derive(Clone, Debug)]
struct Piece {
    v: B,
    words: usize,
    /// cut into subpieces at these bits (0 .. words * 10 excluded); empty: given as a field element
    cuts: Option<Vec<usize>>,
}
#[derive(Clone, Debug)]
enum Op {
    Hash(Aff, Vec<Piece>),
    HashX(Aff, Vec<Piece>),
    Commit(Aff, usize, Vec<Piece>, S),
    ShortCommit(Aff, usize, Vec<Piece>, S),
    Layer(Aff, usize, B, B),
    /// leaf, position, siblings, number of chips
    Path(Aff, B, u32, Vec<B>, usize),
}
impl Op {
    fn pieces(&self) -> &[Piece] {
        match self {
            Op::Hash(_, p) | Op::HashX(_, p) | Op::Commit(_, _, p, _) | Op::ShortCommit(_, _, p, _) => p,
            _ => &[],
        }
    }
    /// number of inputs and of all instance rows
    fn rows(&self) -> (usize, usize) {
        let n = self.pieces().len();
        let z: usize = self.pieces().iter().map(|p| p.words).sum();
        match self {
            Op::Hash(..) | Op::Commit(..) => (n, n + 2 + z),
            Op::HashX(..) | Op::ShortCommit(..) => (n, n + 1 + z),
            Op::Layer(..) => (2, 3),
            Op::Path(..) => (1, 2),
        }
    }
    /// the rows of the honest assignment
    fn want(&self) -> Vec<B> {
        let ps = self.pieces();
        let ins: Vec<B> = ps.iter().map(|p| p.v).collect();
        let ws: Vec<usize> = ps.iter().flat_map(|p| words(&int(&p.v), p.words)).collect();
        let zs: Vec<B> = ps.iter().flat_map(|p| (0..p.words).map(|i| fe(&(int(&p.v) >> (10 * i)))).collect::<Vec<B>>()).collect();
        match self {
            Op::Hash(q, _) => {
                let r = pt(fold((*q).into(), &ws));
                [ins, vec![r.0, r.1], zs].concat()
            }
            Op::HashX(q, _) => [ins, vec![pt(fold((*q).into(), &ws)).0], zs].concat(),
            Op::Commit(q, i, _, r) | Op::ShortCommit(q, i, _, r) => {
                let c = pt(fold((*q).into(), &ws) + aff(mul(&int(r), gen(*i))));
                let c = if let Op::Commit(..) = self { vec![c.0, c.1] } else { vec![c.0] };
                [ins, c, zs].concat()
            }
            Op::Layer(q, l, a, b) => vec![*a, *b, crh(*q, *l, &int(a), &int(b))],
            Op::Path(q, leaf, pos, sib, _) => {
                let mut n = *leaf;
                for (l, o) in sib.iter().enumerate() {
                    let (a, b) = if pos >> l & 1 == 1 { (*o, n) } else { (n, *o) };
                    n = crh(*q, l, &int(&a), &int(&b));
                }
                vec![*leaf, n]
            }
        }
    }
    /// private cells the relation needs, found by their values
    fn more(&self, lab: &Lab<B>) -> Vec<(Kind, usize, usize)> {
        match self {
            Op::Commit(_, _, _, r) | Op::ShortCommit(_, _, _, r) => window_cells(lab, *r),
            _ => vec![],
        }
    }
    fn rel(&self, v: &[B]) -> Result<(), String> {
        let ps = self.pieces();
        let (_, n) = self.rows();
        let (v, more) = v.split_at(n);
        let mut ws = vec![];
        for (i, p) in ps.iter().enumerate() {
            let x = int(&v[i]);
            if x >= pow2(10 * p.words) {
                return Err(format!("piece {} has the value {}, of more than {} words", i, x, p.words));
            }
            ws.extend(words(&x, p.words));
        }
        let zs = |from: usize| -> Result<(), String> {
            let mut at = from;
            for (i, p) in ps.iter().enumerate() {
                for j in 0..p.words {
                    if v[at] != fe::<B>(&(int(&v[i]) >> (10 * j))) {
                        return Err(format!("running sum {} of piece {} is {:?}", j, i, v[at]));
                    }
                    at += 1;
                }
            }
            Ok(())
        };
        let at = ps.len();
        match self {
            Op::Hash(q, _) => {
                let w = pt(fold((*q).into(), &ws));
                if (v[at], v[at + 1]) != w {
                    return Err(format!("the hash is ({:?}, {:?}) and not {:?}", v[at], v[at + 1], w));
                }
                zs(at + 2)
            }
            Op::HashX(q, _) => {
                let w = pt(fold((*q).into(), &ws));
                if v[at] != w.0 {
                    return Err(format!("the hash is {:?} and not {:?}", v[at], w.0));
                }
                zs(at + 1)
            }
            Op::Commit(q, i, _, _) | Op::ShortCommit(q, i, _, _) => {
                let both = matches!(self, Op::Commit(..));
                if !more.is_empty() {
                    let mut k = BigUint::from(0u32);
                    for (j, c) in more.iter().enumerate() {
                        k += int(c) << (3 * j);
                    }
                    let c = pt(fold((*q).into(), &ws) + aff(mul(&(k % q_order()), gen(*i))));
                    if v[at] != c.0 || (both && v[at + 1] != c.1) {
                        return Err(format!("the commitment is {:?} and not {:?}", &v[at..at + 1 + both as usize], c));
                    }
                }
                zs(at + 1 + both as usize)
            }
            Op::Layer(q, l, _, _) => {
                for a in encodings(&v[0]) {
                    for b in encodings(&v[1]) {
                        if v[2] == crh(*q, *l, &a, &b) {
                            return Ok(());
                        }
                    }
                }
                Err(format!("the hash of layer {} of {:?}, {:?} is {:?}", l, v[0], v[1], v[2]))
            }
            Op::Path(..) => unreachable!(),
        }
    }
    /// Merkle path: some choice of the sibling at every layer, of those that private cells hold
    fn rel_path(&self, v: &[B], per: &[usize]) -> Result<(), String> {
        let q = if let Op::Path(q, ..) = self { q } else { unreachable!() };
        let mut nodes = vec![v[0]];
        let mut at = 2;
        for (l, n) in per.iter().enumerate() {
            let mut sib = v[at..at + n].to_vec();
            at += n;
            sib.sort();
            sib.dedup();
            let mut next = vec![];
            for x in &nodes {
                for y in &sib {
                    for (a, b) in [(x, y), (y, x)] {
                        for a in encodings(a) {
                            for b in encodings(b) {
                                next.push(crh(*q, l, &a, &b));
                            }
                        }
                    }
                }
            }
            next.sort();
            next.dedup();
            nodes = next;
        }
        if nodes.contains(&v[1]) {
            Ok(())
        } else {
            Err(format!("no path with the witnessed siblings leads from {:?} to {:?}", v[0], v[1]))
        }
    }
}

#[derive(Clone)]
struct Cfg {
    io: Column<Instance>,
    free: Column<Advice>,
    ecc: EccConfig<Bases>,
    m: [MerkleConfig<HD, CD, Bases>; 2],
    s: [SinsemillaConfig<HD, CD, Bases>; 2],
}
struct Sin<P> {
    ops: Vec<Op>,
    _p: PhantomData<P>,
}
type SC = SinsemillaChip<HD, CD, Bases>;
type MC = MerkleChip<HD, CD, Bases>;
impl<P: FloorPlanner> Circuit<B> for Sin<P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Sin { ops: self.ops.clone(), _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<B>) -> Cfg {
        let adv: [Column<Advice>; 10] = core::array::from_fn(|_| m.advice_column());
        let lag: [Column<Fixed>; 8] = core::array::from_fn(|_| m.fixed_column());
        let k = m.fixed_column();
        m.enable_constant(k);
        let io = m.instance_column();
        m.enable_equality(io);
        let t = (m.lookup_table_column(), m.lookup_table_column(), m.lookup_table_column());
        let rc = LookupRangeCheckConfig::configure(m, adv[9], t.0);
        let ecc = EccChip::<Bases>::configure(m, adv, lag, rc);
        let s1 = SC::configure(m, adv[..5].try_into().unwrap(), adv[2], lag[0], t, rc);
        let m1 = MC::configure(m, s1.clone());
        let s2 = SC::configure(m, adv[5..].try_into().unwrap(), adv[7], lag[1], t, rc);
        let m2 = MC::configure(m, s2.clone());
        Cfg { io, free: adv[0], ecc, m: [m1, m2], s: [s1, s2] }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<B>) -> Result<(), Error> {
        SC::load(c.s[0].clone(), &mut l)?;
        let ecc = EccChip::<Bases>::construct(c.ecc.clone());
        let mut t = Tie { col: c.io, next: 0 };
        for (n, o) in self.ops.iter().enumerate() {
            let sc = SC::construct(c.s[n % 2].clone());
            let mut ps = vec![];
            for p in o.pieces() {
                let p = match &p.cuts {
                    None => MessagePiece::from_field_elem(sc.clone(), l.namespace(|| "piece"), Value::known(p.v), p.words)?,
                    Some(cuts) => {
                        let ends: Vec<usize> = std::iter::once(0).chain(cuts.iter().cloned()).chain([p.words * 10]).collect();
                        let sub: Vec<_> = ends.windows(2).map(|w| RangeConstrained::bitrange_of(Value::known(&p.v), w[0]..w[1])).collect();
                        MessagePiece::from_subpieces(sc.clone(), l.namespace(|| "piece"), sub)?
                    }
                };
                t.tie(&mut l, &p.inner().cell_value())?;
                ps.push(p);
            }
            let msg = Message::from_pieces(sc.clone(), ps);
            let mut zs = vec![];
            match o {
                Op::Hash(q, _) => {
                    let d = HashDomain::new(sc.clone(), ecc.clone(), &HD(*q));
                    let (p, z) = d.hash_to_point(l.namespace(|| "hash"), msg)?;
                    t.tie(&mut l, &p.inner().x())?;
                    t.tie(&mut l, &p.inner().y())?;
                    zs = z;
                }
                Op::HashX(q, _) => {
                    let d = HashDomain::new(sc.clone(), ecc.clone(), &HD(*q));
                    let (x, z) = d.hash(l.namespace(|| "hash"), msg)?;
                    t.tie(&mut l, x.inner())?;
                    zs = z;
                }
                Op::Commit(q, i, _, r) => {
                    let r = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), Value::known(*r))?;
                    let d = CommitDomain::new(sc.clone(), ecc.clone(), &CD(*q, *i));
                    let (p, z) = d.commit(l.namespace(|| "commit"), msg, r)?;
                    t.tie(&mut l, &p.inner().x())?;
                    t.tie(&mut l, &p.inner().y())?;
                    zs = z;
                }
                Op::ShortCommit(q, i, _, r) => {
                    let r = ScalarFixed::new(ecc.clone(), l.namespace(|| "r"), Value::known(*r))?;
                    let d = CommitDomain::new(sc.clone(), ecc.clone(), &CD(*q, *i));
                    let (x, z) = d.short_commit(l.namespace(|| "commit"), msg, r)?;
                    t.tie(&mut l, x.inner())?;
                    zs = z;
                }
                Op::Layer(q, layer, a, b) => {
                    let mc = MC::construct(c.m[n % 2].clone());
                    let a = private(&mut l, c.free, *a)?;
                    t.tie(&mut l, &a)?;
                    let b = private(&mut l, c.free, *b)?;
                    t.tie(&mut l, &b)?;
                    let r = <MC as MerkleInstructions<Aff, 32, 10, 253>>::hash_layer(&mc, l.namespace(|| "layer"), *q, *layer, a, b)?;
                    t.tie(&mut l, &r)?;
                }
                Op::Path(q, leaf, pos, sib, par) => {
                    let chip = |i: usize| MC::construct(c.m[(n + i) % 2].clone());
                    let leaf = private(&mut l, c.free, *leaf)?;
                    t.tie(&mut l, &leaf)?;
                    let root;
                    macro_rules! path {
                        ($(($n:literal, $p:literal)),*) => {
                            match (sib.len(), *par) {
                                $(($n, $p) => {
                                    let chips: [MC; $p] = core::array::from_fn(|i| chip(i));
                                    let s: [B; $n] = sib[..].try_into().unwrap();
                                    let m = MerklePath::<Aff, MC, $n, 10, 253, $p>::construct(chips, HD(*q), Value::known(*pos), Value::known(s));
                                    root = m.calculate_root(l.namespace(|| "path"), leaf)?;
                                })*
                                x => panic!("no path {:?}", x),
                            }
                        };
                    }
                    path!((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 3), (5, 2), (5, 3), (6, 4), (7, 3), (8, 2), (31, 2), (32, 1), (32, 2), (32, 3), (32, 5));
                    t.tie(&mut l, &root)?;
                }
            }
            for z in zs.iter().flatten() {
                t.tie(&mut l, z)?;
            }
        }
        Ok(())
    }
}
const SHORT_PATHS: [(usize, usize); 13] = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1), (4, 3), (5, 2), (5, 3), (6, 4), (7, 3), (8, 2)];
const LONG_PATHS: [(usize, usize); 5] = [(31, 2), (32, 1), (32, 2), (32, 3), (32, 5)];

// ---------------------------------------------------------------- generators
fn q(g: &mut G) -> Aff {
    match g.below(3) {
        0 => Pt::hash_to_curve(prim::Q_PERSONALIZATION)(&g.bytes(8)).to_affine(),
        1 => (Pt::generator() * S::from(g.below(50) + 1)).to_affine(),
        _ => (Pt::generator() * S::random(rng(g))).to_affine(),
    }
}
fn piece(g: &mut G, max: usize) -> Piece {
    let words = if g.chance(1, 4) { g.range(1, 2.min(max)) } else { g.range(1, max) };
    let v = fe(&below_bits(g, 10 * words));
    // all subpieces but the last one start below bit 64
    let cuts = g.chance(1, 3).then(|| {
        let mut c: Vec<usize> = (0..g.usize(5)).map(|_| g.range(1, 63)).filter(|c| *c < 10 * words).collect();
        c.sort();
        c.dedup();
        c
    });
    Piece { v, words, cuts }
}
fn pieces(g: &mut G, total: usize) -> Vec<Piece> {
    let mut left = total;
    let mut r = vec![];
    while left > 0 && r.len() < 12 {
        let p = piece(g, left.min(25));
        left -= p.words;
        r.push(p);
        if g.chance(1, 4) {
            break;
        }
    }
    r
}
fn node(g: &mut G) -> B {
    match g.below(4) {
        0 => fe(&scalar(g)),
        1 => any(g),
        _ => B::random(rng(g)),
    }
}
fn blind(g: &mut G) -> S {
    if g.chance(1, 5) {
        return S::from(g.below(20));
    }
    fe(&(scalar(g) % q_order()))
}
fn path(g: &mut G, shapes: &[(usize, usize)]) -> Op {
    let (n, par) = shapes[g.usize(shapes.len())];
    let pos = match g.below(4) {
        0 => 0,
        1 => u32::MAX,
        _ => g.below(1 << 32) as u32,
    };
    Op::Path(q(g), node(g), pos, (0..n).map(|_| node(g)).collect(), par)
}
fn op(g: &mut G, total: usize) -> Op {
    let q = q(g);
    match g.below(6) {
        0 => Op::Hash(q, pieces(g, total)),
        1 => Op::HashX(q, pieces(g, total)),
        2 => Op::Commit(q, g.usize(BASES), pieces(g, total), blind(g)),
        3 => Op::ShortCommit(q, g.usize(BASES), pieces(g, total), blind(g)),
        4 => Op::Layer(q, if g.bool() { g.usize(32) } else { g.usize(1024) }, node(g), node(g)),
        _ => path(g, &SHORT_PATHS),
    }
}
fn bud() -> Budget {
    Budget { steps: 3000, backtracks: 300 }
}
fn run<P: FloorPlanner>(k: u32, ops: &[Op], what: &str) -> Result<Lab<B>, Fail> {
    let c = Sin::<P> { ops: ops.to_vec(), _p: PhantomData };
    let lab = honest(k, &c, what)?;
    let want: Vec<B> = ops.iter().flat_map(|o| o.want()).collect();
    let got = io(&lab, want.len());
    if got != want {
        let i = (0..want.len()).find(|i| got[*i] != want[*i]).unwrap();
        fail!("{:?}: instance row {} is {:?} and should be {:?}", ops, i, got[i], want[i]);
    }
    Ok(lab)
}

// ---------------------------------------------------------------- laws
fn programs<P: FloorPlanner>(g: &mut G) -> R {
    let (k, ops) = match g.below(8) {
        0 => (12, vec![path(g, &LONG_PATHS)]),
        1 => {
            // as long as a message can be
            let mut ps: Vec<Piece> = vec![];
            let mut left = 253;
            while left > 0 {
                let w = if left < 25 { left } else { g.range(1, 25) };
                let v = fe(&below_bits(g, 10 * w));
                ps.push(Piece { v, words: w, cuts: None });
                left -= w;
            }
            (11, vec![Op::Hash(q(g), ps)])
        }
        _ => {
            let n = g.range(1, 3);
            (11, (0..n).map(|_| op(g, 60)).collect())
        }
    };
    g.desc(|| format!("{:?}", ops));
    run::<P>(k, &ops, "a program of Sinsemilla operations")?;
    g.nontrivial();
    Ok(())
}
fn forged(g: &mut G, o: Op, tries: usize) -> R {
    g.desc(|| format!("{:?}", o));
    let lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one Sinsemilla operation")?;
    let (inputs, n_io) = o.rows();
    let seen = if let Op::Path(_, _, _, sib, _) = &o {
        let mut more = vec![];
        let mut per = vec![];
        for s in sib {
            let mut n = 0;
            for c in 0..lab.advice.len() {
                for r in 0..lab.usable {
                    if lab.advice[c][r] == *s && !lab.copies.is_empty() {
                        more.push((Kind::Advice, c, r));
                        n += 1;
                    }
                }
            }
            per.push(n);
        }
        let rel = |v: &[B]| o.rel_path(v, &per);
        attack_more(g, lab, Attack { n_io, inputs, tries, budget: bud(), rel: &rel }, &more)?
    } else {
        let more = o.more(&lab);
        let rel = |v: &[B]| o.rel(v);
        attack_more(g, lab, Attack { n_io, inputs, tries, budget: bud(), rel: &rel }, &more)?
    };
    if seen > 0 {
        g.class("accepted other assignments");
    }
    g.nontrivial();
    Ok(())
}
/// The whole private assignment of another operation of the same shape (another domain, layer,
/// base), put in the place of the honest one.
fn transplanted(g: &mut G) -> R {
    let o = match g.below(4) {
        0 => Op::Hash(q(g), pieces(g, 12)),
        1 => Op::HashX(q(g), pieces(g, 12)),
        2 => Op::Layer(q(g), g.usize(1023), node(g), node(g)),
        _ => Op::Commit(q(g), g.usize(BASES), pieces(g, 4), blind(g)),
    };
    let other_q = |g: &mut G, p: &Aff| -> Aff {
        let (x, y) = xy(p);
        let z = crate::ecc::cube_root();
        match g.below(4) {
            0 => aff((x, -y)),
            1 => aff((x * z, y)),
            2 => aff((x * z.square(), y)),
            _ => q(g),
        }
    };
    let b = match &o {
        Op::Hash(q, p) => Op::Hash(other_q(g, q), p.clone()),
        Op::HashX(q, p) => Op::HashX(other_q(g, q), p.clone()),
        Op::Layer(q, l, x, y) => {
            if g.bool() {
                let d = if g.bool() { l + 1 } else { g.usize(1024) };
                Op::Layer(*q, d, *x, *y)
            } else {
                Op::Layer(other_q(g, q), *l, *x, *y)
            }
        }
        Op::Commit(q, i, p, r) => {
            if g.bool() {
                Op::Commit(other_q(g, q), *i, p.clone(), *r)
            } else {
                Op::Commit(*q, (i + 1) % BASES, p.clone(), *r)
            }
        }
        _ => unreachable!(),
    };
    g.desc(|| format!("the assignment of {:?} for {:?}", b, o));
    let mut lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one Sinsemilla operation")?;
    let from = run::<SimpleFloorPlanner>(11, &[b], "one Sinsemilla operation")?;
    let more = o.more(&lab);
    lab.advice = from.advice;
    lab.instance = from.instance;
    g.nontrivial();
    let (inputs, n_io) = o.rows();
    let rel = |v: &[B]| o.rel(v);
    if let Op::Commit(..) = o {
        g.evals(1);
        if lab.accepts() {
            let v: Vec<B> = io(&lab, n_io).into_iter().chain(more.iter().map(|c| lab.get(*c))).collect();
            if let Err(e) = rel(&v) {
                fail!("the assignment of another operation is accepted: {}", e);
            }
        }
        return Ok(());
    }
    outside(g, lab, Attack { n_io, inputs, tries: 2, budget: bud(), rel: &rel })
}
/// The steps of a hash: for each word (x_a, x_p, lambda_1, lambda_2), then the result.
fn steps(q: (B, B), gens: &[(B, B)]) -> Option<Vec<B>> {
    let (mut x, mut y) = q;
    let mut out = vec![];
    for (xp, yp) in gens {
        let l1 = (y - yp) * Option::<B>::from((x - xp).invert())?;
        let xr = l1.square() - x - xp;
        let l2 = (y + y) * Option::<B>::from((x - xr).invert())? - l1;
        let nx = l2.square() - x - xr;
        out.extend([x, *xp, l1, l2]);
        y = l2 * (x - nx) - y;
        x = nx;
    }
    out.extend([x, y]);
    Some(out)
}
/// A prover who computes the whole hash with a false generator for one of the words (another
/// point, or no point at all), or continues from a false accumulator.
fn false_generators(g: &mut G) -> R {
    let qq = q(g);
    let ps = pieces(g, 12);
    let ws: Vec<usize> = ps.iter().flat_map(|p| words(&int(&p.v), p.words)).collect();
    let o = if g.bool() { Op::Hash(qq, ps) } else { Op::HashX(qq, ps) };
    let t = g.usize(ws.len());
    let mut gens: Vec<(B, B)> = ws.iter().map(|w| pt(s(*w))).collect();
    let honest = match steps(xy(&qq), &gens) {
        Some(v) => v,
        None => return Ok(()),
    };
    let z = crate::ecc::cube_root();
    let (x, y) = gens[t];
    let mut start = xy(&qq);
    let how = g.below(8);
    match how {
        0 => gens[t] = (x * z, y),
        1 => gens[t] = (x * z.square(), y),
        2 => gens[t] = (x, -y),
        3 => gens[t] = (any(g), y),
        4 => gens[t] = (x, any(g)),
        5 => gens[t] = pt(s(g.usize(1024))),
        6 => start = (start.0 * z, start.1),
        _ => start = (start.0, -start.1),
    }
    let forged = match steps(start, &gens) {
        Some(v) => v,
        None => return Ok(()),
    };
    g.desc(|| format!("{:?}, word {} of {} changed ({})", o, t, ws.len(), how));
    let mut lab = run::<SimpleFloorPlanner>(11, &[o.clone()], "one Sinsemilla operation")?;
    let map: std::collections::HashMap<Vec<u8>, B> = honest.iter().zip(&forged).filter(|(a, b)| a != b).map(|(a, b)| (ff::PrimeField::to_repr(a).as_ref().to_vec(), *b)).collect();
    if map.is_empty() {
        return Ok(());
    }
    let mut hits = 0;
    for col in lab.advice.iter_mut().chain(lab.instance.iter_mut()) {
        for v in col.iter_mut() {
            if let Some(w) = map.get(ff::PrimeField::to_repr(v).as_ref()) {
                *v = *w;
                hits += 1;
            }
        }
    }
    if hits < map.len() {
        g.class("steps not found");
    }
    g.nontrivial();
    g.evals(1);
    if lab.accepts() {
        let n = o.rows().1;
        if let Err(e) = o.rel(&io(&lab, n)) {
            fail!("the circuit accepts a hash with a false generator: {}", e);
        }
    }
    Ok(())
}
/// pieces of more words than they have
fn strangers(g: &mut G) -> R {
    let mut ps = pieces(g, 40);
    let i = g.usize(ps.len());
    let w = ps[i].words;
    let v = match g.below(5) {
        0 => pow2(10 * w),
        1 => pow2(10 * w) + below_bits(g, 10 * w),
        2 => pow2(10 * (w + 1).min(25)) - 1u32,
        3 => p_order() - 1u32 - g.below(20),
        _ => int(&B::random(rng(g))),
    };
    if v < pow2(10 * w) {
        return Ok(());
    }
    ps[i].v = fe(&v);
    ps[i].cuts = None;
    let o = if g.bool() { Op::Hash(q(g), ps) } else { Op::HashX(q(g), ps) };
    g.desc(|| format!("{:?}", o));
    g.nontrivial();
    let c = Sin::<SimpleFloorPlanner> { ops: vec![o.clone()], _p: PhantomData };
    let lab = match guarded(|| synth(11, &c)) {
        Ok(Ok(l)) => l,
        _ => {
            g.class("refused");
            return Ok(());
        }
    };
    g.class("assigned");
    let (inputs, n_io) = o.rows();
    let rel = |v: &[B]| o.rel(v);
    outside(g, lab, Attack { n_io, inputs, tries: 2, budget: bud(), rel: &rel })
}
/// a domain and message where the hash is undefined
fn bottom(g: &mut G) -> R {
    let ps = pieces(g, 20);
    let ws: Vec<usize> = ps.iter().flat_map(|p| words(&int(&p.v), p.words)).collect();
    let at = g.usize(ws.len());
    let sw = s(ws[at]);
    let (kind, target) = match g.below(3) {
        0 => ("the accumulator is the generator", sw),
        1 => ("the accumulator is the opposite of the generator", -sw),
        _ => ("the sum is the opposite of the accumulator", -(sw * S::from(2).invert().unwrap())),
    };
    // acc after `at` words = 2^at q + c
    let c = fold(Pt::identity(), &ws[..at]);
    let q = (target - c) * fe::<S>(&pow2(at)).invert().unwrap();
    if bool::from(q.is_identity()) {
        return Ok(());
    }
    ensure_eq!(fold(q, &ws[..at]), target, "the reference of the undefined hash");
    let q = q.to_affine();
    let o = if g.bool() { Op::Hash(q, ps) } else { Op::HashX(q, ps) };
    g.desc(|| format!("{:?} at word {}: {}", o, at, kind));
    g.class(kind);
    g.nontrivial();
    let c = Sin::<SimpleFloorPlanner> { ops: vec![o.clone()], _p: PhantomData };
    if let Ok(Ok(_)) = guarded(|| synth(11, &c)) {
        fail!("the undefined hash ({}) is computed: {:?}", kind, o);
    }
    Ok(())
}
/// the functions outside of circuits
fn primitives(g: &mut G) -> R {
    let dom: String = (0..g.usize(20)).map(|_| g.range(32, 127) as u8 as char).collect();
    let n = match g.below(6) {
        0 => 0,
        1 => g.range(1, 10),
        2 => 2530 - g.usize(11),
        3 => 10 * g.usize(253),
        _ => g.usize(2531),
    };
    let style = g.below(4);
    let bits: Vec<bool> = (0..n)
        .map(|_| match style {
            0 => false,
            1 => true,
            _ => g.bool(),
        })
        .collect();
    let r = blind(g);
    g.desc(|| format!("domain {:?}, {} bits, r = {:?}", dom, n, r));
    let ws = words_of_bits(&bits);
    let h = fold(Pt::hash_to_curve("z.cash:SinsemillaQ")(dom.as_bytes()), &ws);
    let d = prim::HashDomain::new(&dom);
    ensure_eq!(Option::<Pt>::from(d.hash_to_point(bits.iter().cloned())).map(pt), Some(pt(h)), "hash to point of {} bits", n);
    ensure_eq!(Option::<B>::from(d.hash(bits.iter().cloned())), Some(pt(h).0), "hash of {} bits", n);
    let m = fold(Pt::hash_to_curve("z.cash:SinsemillaQ")(format!("{}-M", dom).as_bytes()), &ws);
    let c = pt(m + Pt::hash_to_curve(&format!("{}-r", dom))(&[]) * r);
    let d = prim::CommitDomain::new(&dom);
    ensure_eq!(Option::<Pt>::from(d.commit(bits.iter().cloned(), &r)).map(pt), Some(c), "commitment of {} bits", n);
    ensure_eq!(Option::<B>::from(d.short_commit(bits.iter().cloned(), &r)), Some(c.0), "short commitment of {} bits", n);
    if g.chance(1, 8) {
        // too long
        let n = 2531 + g.usize(30);
        let d = prim::HashDomain::new(&dom);
        ensure!(guarded(|| bool::from(d.hash_to_point((0..n).map(|i| i % 3 == 0)).is_some())).is_err(), "a message of {} bits is hashed", n);
        g.class("too long");
    }
    g.nontrivial();
    Ok(())
}
fn generators(g: &mut G) -> R {
    let j = g.index % 1024;
    g.desc(|| format!("generator {}", j));
    let (x, y) = prim::SINSEMILLA_S[j];
    ensure_eq!((x, y), pt(s(j)), "generator {}", j);
    ensure!(bool::from(Aff::from_xy(x, y).is_some()), "generator {} is not on the curve", j);
    g.nontrivial();
    Ok(())
}

pub fn c28() -> Check {
    let laws = vec![
        Law::new("programs of Sinsemilla operations", 80, 1500, |g| if g.chance(1, 3) { programs::<floor_planner::V1>(g) } else { programs::<SimpleFloorPlanner>(g) }),
        Law::new("forged hashes", 64, 800, |g| {
            let q = q(g);
            let ps = pieces(g, 12);
            let o = if g.bool() { Op::Hash(q, ps) } else { Op::HashX(q, ps) };
            forged(g, o, 60)
        }),
        Law::new("forged commitments", 8, 100, |g| {
            let (q, b, ps, r) = (q(g), g.usize(BASES), pieces(g, 6), blind(g));
            let o = if g.bool() { Op::Commit(q, b, ps, r) } else { Op::ShortCommit(q, b, ps, r) };
            forged(g, o, 30)
        }),
        Law::new("forged layers of a Merkle tree", 64, 800, |g| {
            let o = Op::Layer(q(g), g.usize(1024), node(g), node(g));
            forged(g, o, 60)
        }),
        Law::new("forged Merkle paths", 40, 500, |g| {
            let o = path(g, &[(1, 1), (2, 1), (2, 2)]);
            forged(g, o, 40)
        }),
        Law::new("transplanted assignments", 64, 800, transplanted),
        Law::new("false generators", 200, 4000, false_generators),
        Law::new("pieces of too many bits", 64, 800, strangers),
        Law::new("undefined hashes", 64, 1000, bottom),
        Law::new("functions outside of circuits", 200, 6000, primitives),
        Law::new("generators", 1024, 1024, generators),
    ];
    Check { id: "C28", rule: "a Sinsemilla operation was computed (in circuit: and its accepted assignment attacked), or an input outside its domain was offered", assumptions: vec![], laws }
}

//! C10, continued: provers that cheat inside the arguments, and what the challenges depend on.
//!
//! The cheating prover is the library's own prover with other vectors put in the place of those it
//! would choose (permuted lookup columns, running products; see verif_hooks). Each cheat keeps all
//! constraints of an argument but one, for a false statement, so that every single one is needed.
use crate::plonk::*;
use crate::rcirc::{build, set_spec, Spec, RC};
use crate::rgen::*;
use crate::transcripts::*;
use crate::util::*;
use ff::Field;
use halo2_proofs::arithmetic::{CurveAffine, FieldExt};
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2_proofs::transcript::*;
use halo2_proofs::verif_hooks::{set_cheat, Permuted};
use std::any::Any as Dyn;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;
use vh_common::*;

// ------------------------------------------------------------------ a circuit with exactly known truth
#[derive(Clone, Debug, Default)]
struct Shape {
    /// advice columns, all in the permutation
    adv: usize,
    inst: bool,
    fixed: bool,
    degree: usize,
    /// numbers of columns of the lookups and whether their tables are of advice
    lookups: Vec<(usize, bool)>,
    /// gates that are opposites of each other: in one gate, in two
    pairs: Option<bool>,
}
thread_local! {
    static SHAPE: RefCell<Shape> = RefCell::new(Shape::default());
}
#[derive(Clone)]
struct Cfg {
    adv: Vec<Column<Advice>>,
    inst: Option<Column<Instance>>,
    fixed: Option<Column<Fixed>>,
    lookups: Vec<(Selector, Vec<Column<Advice>>, Vec<TableColumn>, Vec<Column<Advice>>)>,
    pair: Option<(Selector, Column<Advice>, Column<Advice>)>,
}
#[derive(Clone, Debug)]
struct Circ<F: FieldExt> {
    /// values of the columns of the permutation, rows of each: advice, then fixed
    adv: Vec<Vec<F>>,
    fixed: Vec<F>,
    inst: Vec<F>,
    /// pairs of (column, row); columns count advice, then fixed, then instance
    copies: Vec<((usize, usize), (usize, usize))>,
    /// per lookup: the table, and the input of each row
    lookups: Vec<(Vec<Vec<F>>, Vec<Option<Vec<F>>>)>,
    pair: Vec<Option<(F, F)>>,
    _p: PhantomData<F>,
}
impl<F: FieldExt> Circuit<F> for Circ<F> {
    type Config = Cfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Cfg {
        let s = SHAPE.with(|s| s.borrow().clone());
        let adv: Vec<_> = (0..s.adv)
            .map(|_| {
                let c = m.advice_column();
                m.enable_equality(c);
                c
            })
            .collect();
        let fixed = s.fixed.then(|| {
            let c = m.fixed_column();
            m.enable_equality(c);
            c
        });
        let inst = s.inst.then(|| {
            let c = m.instance_column();
            m.enable_equality(c);
            c
        });
        if s.degree > 3 {
            let z = m.fixed_column();
            let a = adv[0];
            m.create_gate("degree", |v| {
                let z = v.query_fixed(z, Rotation::cur());
                let a = v.query_advice(a, Rotation::cur());
                vec![(1..s.degree).fold(z, |e, _| e * a.clone())]
            });
        }
        let lookups = s
            .lookups
            .iter()
            .map(|(n, adv_table)| {
                let sel = m.complex_selector();
                let inp: Vec<_> = (0..*n).map(|_| m.advice_column()).collect();
                let mut tab = vec![];
                let mut atab = vec![];
                if *adv_table {
                    atab = (0..*n).map(|_| m.advice_column()).collect();
                    m.lookup_any("lookup", |v| {
                        let s = v.query_selector(sel);
                        inp.iter().zip(&atab).map(|(i, t)| (s.clone() * v.query_advice(*i, Rotation::cur()), v.query_advice(*t, Rotation::cur()))).collect()
                    });
                } else {
                    tab = (0..*n).map(|_| m.lookup_table_column()).collect();
                    m.lookup("lookup", |v| {
                        let s = v.query_selector(sel);
                        inp.iter().zip(&tab).map(|(i, t)| (s.clone() * v.query_advice(*i, Rotation::cur()), *t)).collect()
                    });
                }
                (sel, inp, tab, atab)
            })
            .collect();
        let pair = s.pairs.map(|two| {
            let sel = m.selector();
            let (p, q) = (m.advice_column(), m.advice_column());
            let e = |v: &mut VirtualCells<F>| (v.query_selector(sel), v.query_advice(p, Rotation::cur()) - v.query_advice(q, Rotation::cur()));
            if two {
                m.create_gate("difference", |v| {
                    let (s, d) = e(v);
                    vec![s * d]
                });
                m.create_gate("opposite", |v| {
                    let (s, d) = e(v);
                    vec![s * (-d)]
                });
            } else {
                m.create_gate("both", |v| {
                    let (s, d) = e(v);
                    vec![s.clone() * d.clone(), s * (-d)]
                });
            }
            (sel, p, q)
        });
        Cfg { adv, inst, fixed, lookups, pair }
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<F>) -> Result<(), Error> {
        for ((_, _, tab, _), (t, _)) in c.lookups.iter().zip(&self.lookups) {
            if tab.is_empty() {
                continue;
            }
            l.assign_table(
                || "table",
                |mut r| {
                    for (j, col) in tab.iter().enumerate() {
                        for (i, row) in t.iter().enumerate() {
                            r.assign_cell(|| "", *col, i, || Value::known(row[j]))?;
                        }
                    }
                    Ok(())
                },
            )?;
        }
        let cells = l.assign_region(
            || "all",
            |mut r| {
                let mut cells = BTreeMap::new();
                for (j, col) in self.adv.iter().enumerate() {
                    for (i, v) in col.iter().enumerate() {
                        cells.insert((j, i), r.assign_advice(|| "", c.adv[j], i, || Value::known(*v))?.cell());
                    }
                }
                if let Some(f) = c.fixed {
                    for (i, v) in self.fixed.iter().enumerate() {
                        cells.insert((self.adv.len(), i), r.assign_fixed(|| "", f, i, || Value::known(*v))?.cell());
                    }
                }
                for ((sel, inp, _, atab), (t, rows)) in c.lookups.iter().zip(&self.lookups) {
                    for (i, row) in rows.iter().enumerate() {
                        if let Some(row) = row {
                            sel.enable(&mut r, i)?;
                            for (col, v) in inp.iter().zip(row) {
                                r.assign_advice(|| "", *col, i, || Value::known(*v))?;
                            }
                        }
                    }
                    for (j, col) in atab.iter().enumerate() {
                        for (i, row) in t.iter().enumerate() {
                            r.assign_advice(|| "", *col, i, || Value::known(row[j]))?;
                        }
                    }
                }
                if let Some((sel, p, q)) = c.pair {
                    for (i, x) in self.pair.iter().enumerate() {
                        if let Some((a, b)) = x {
                            sel.enable(&mut r, i)?;
                            r.assign_advice(|| "", p, i, || Value::known(*a))?;
                            r.assign_advice(|| "", q, i, || Value::known(*b))?;
                        }
                    }
                }
                for (a, b) in &self.copies {
                    if let (Some(a), Some(b)) = (cells.get(a), cells.get(b)) {
                        r.constrain_equal(*a, *b)?;
                    }
                }
                Ok(cells)
            },
        )?;
        if let Some(col) = c.inst {
            for (a, b) in &self.copies {
                match (cells.get(a), cells.get(b)) {
                    (Some(x), None) => l.constrain_instance(*x, col, b.1)?,
                    (None, Some(x)) => l.constrain_instance(*x, col, a.1)?,
                    _ => {}
                }
            }
        }
        Ok(())
    }
}
impl<F: FieldExt> Circ<F> {
    fn value(&self, (c, r): (usize, usize)) -> F {
        if c < self.adv.len() {
            self.adv[c][r]
        } else if c == self.adv.len() && !self.fixed.is_empty() {
            self.fixed[r]
        } else {
            self.inst[r]
        }
    }
    /// what is false about it
    fn wrong(&self) -> Vec<String> {
        let mut w = vec![];
        for (a, b) in &self.copies {
            if self.value(*a) != self.value(*b) {
                w.push(format!("copy {:?} {:?}", a, b));
            }
        }
        for (i, (t, rows)) in self.lookups.iter().enumerate() {
            for (r, x) in rows.iter().enumerate() {
                if let Some(x) = x {
                    if !t.contains(x) {
                        w.push(format!("lookup {} row {}", i, r));
                    }
                }
            }
        }
        for (i, p) in self.pair.iter().enumerate() {
            if let Some((a, b)) = p {
                if a != b {
                    w.push(format!("pair row {}", i));
                }
            }
        }
        w
    }
    fn instances(&self, s: &Shape) -> Vec<Vec<F>> {
        if s.inst {
            vec![self.inst.clone()]
        } else {
            vec![]
        }
    }
}
const K: u32 = 4;
/// rows usable with no more than three queries of a column
const U: usize = 10;

fn shape(g: &mut G) -> Shape {
    Shape {
        adv: g.range(1, 5),
        inst: g.bool(),
        fixed: g.chance(1, 3),
        degree: g.range(3, 6),
        lookups: (0..g.below(3)).map(|_| (g.range(1, 3), g.chance(1, 3))).collect(),
        pairs: if g.bool() { Some(g.bool()) } else { None },
    }
}
/// a circuit of true statements; `like` fixes the parts that are not witness
fn truth<F: FieldExt>(g: &mut G, s: &Shape, like: Option<&Circ<F>>) -> Circ<F> {
    let cols = s.adv + s.fixed as usize + s.inst as usize;
    let copies = match like {
        Some(c) => c.copies.clone(),
        None => {
            let n = g.range(1, 12);
            let mut v = vec![];
            for _ in 0..n {
                let a = (g.usize(s.adv), g.usize(U));
                let b = (g.usize(cols), g.usize(U));
                if a != b {
                    v.push((a, b));
                }
            }
            v
        }
    };
    let mut val: BTreeMap<(usize, usize), F> = BTreeMap::new();
    for c in 0..cols {
        for r in 0..U {
            val.insert((c, r), F::random(Rng(g.xo())));
        }
    }
    if let (Some(c), true) = (like, s.fixed) {
        for r in 0..U {
            val.insert((s.adv, r), c.fixed[r]);
        }
    }
    // classes
    let mut root: BTreeMap<(usize, usize), (usize, usize)> = val.keys().map(|k| (*k, *k)).collect();
    fn find(root: &BTreeMap<(usize, usize), (usize, usize)>, mut a: (usize, usize)) -> (usize, usize) {
        while root[&a] != a {
            a = root[&a];
        }
        a
    }
    for (a, b) in &copies {
        let (x, y) = (find(&root, *a), find(&root, *b));
        // a fixed cell stays the root of its class
        if s.fixed && x.0 == s.adv {
            root.insert(y, x);
        } else {
            root.insert(x, y);
        }
    }
    // two fixed cells in one class need one value
    let mut fix = BTreeMap::new();
    if s.fixed && like.is_none() {
        for r in 0..U {
            fix.insert((s.adv, r), val[&find(&root, (s.adv, r))]);
        }
        for (k, v) in fix {
            val.insert(k, v);
        }
    }
    let get = |c: usize, r: usize| val[&find(&root, (c, r))];
    let lookups = s
        .lookups
        .iter()
        .enumerate()
        .map(|(i, (n, adv_table))| {
            let table = match like {
                Some(c) if !adv_table => c.lookups[i].0.clone(),
                _ => {
                    // the first row is zero: the inactive rows look it up. Values small and few, so that
                    // confusions of columns hit
                    let rows = if *adv_table { U } else { g.range(2, U - 1) };
                    let mut t: Vec<Vec<F>> = vec![vec![F::zero(); *n]];
                    for _ in 1..rows {
                        t.push((0..*n).map(|_| F::from(1 + g.below(40))).collect());
                    }
                    t
                }
            };
            let rows = (0..U)
                .map(|r| {
                    let on = match like {
                        Some(c) => c.lookups[i].1[r].is_some(),
                        None => g.chance(2, 3),
                    };
                    on.then(|| table[g.usize(table.len())].clone())
                })
                .collect();
            (table, rows)
        })
        .collect();
    let pair = (0..U)
        .map(|r| {
            let on = match like {
                Some(c) => c.pair.get(r).map(|x| x.is_some()).unwrap_or(false),
                None => s.pairs.is_some() && g.bool(),
            };
            on.then(|| {
                let v = F::random(Rng(g.xo()));
                (v, v)
            })
        })
        .collect();
    Circ {
        adv: (0..s.adv).map(|c| (0..U).map(|r| get(c, r)).collect()).collect(),
        fixed: if s.fixed { (0..U).map(|r| get(s.adv, r)).collect() } else { vec![] },
        inst: if s.inst { (0..U).map(|r| get(cols - 1, r)).collect() } else { vec![] },
        copies,
        lookups,
        pair,
        _p: PhantomData,
    }
}

// ------------------------------------------------------------------ cheats
#[derive(Clone, Debug, PartialEq)]
enum ZCheat {
    None,
    /// all of the product times a factor that makes the end right
    Scale,
    Zero,
    /// the same from the row after this one on
    ScaleFrom(usize),
    ZeroFrom(usize),
    Ones,
}
fn zcheat(g: &mut G) -> ZCheat {
    let row = |g: &mut G| match g.below(3) {
        0 => U - 1,
        1 => 0,
        _ => g.usize(U),
    };
    match g.below(8) {
        0 => ZCheat::None,
        1 | 2 => ZCheat::Scale,
        3 => ZCheat::Zero,
        4 | 5 => ZCheat::ScaleFrom(row(g)),
        6 => ZCheat::ZeroFrom(row(g)),
        _ => ZCheat::Ones,
    }
}
/// `end` is what the product would be at its end
fn bend<F: FieldExt>(z: &mut [F], end: F, u: usize, c: &ZCheat) {
    let inv = Option::<F>::from(end.invert()).unwrap_or(F::zero());
    let n = z.len();
    let (from, f) = match c {
        ZCheat::None => return,
        ZCheat::Scale => (0, inv),
        ZCheat::Zero => (0, F::zero()),
        ZCheat::ScaleFrom(r) => ((r + 1).min(u), inv),
        ZCheat::ZeroFrom(r) => ((r + 1).min(u), F::zero()),
        ZCheat::Ones => {
            for x in z.iter_mut() {
                *x = F::one();
            }
            return;
        }
    };
    for x in z[from..n].iter_mut() {
        *x *= f;
    }
}
#[derive(Clone, Debug, PartialEq)]
enum LCheat {
    /// honest but for the false rows, which have no partner in the table
    Orphan,
    /// the same, with the orphans first and the last row of the column made equal to the first
    OrphanFirst,
    /// the false inputs exchanged for true ones
    Exchanged,
    /// the false inputs added to the table
    Added,
}
/// permuted columns for a lookup with false inputs
fn permuted<F: FieldExt>(g: &mut G, p: &mut Permuted<F>, u: usize, how: &LCheat) {
    let n = p.input.len();
    let table = p.table[..u].to_vec();
    let mut input = p.input[..u].to_vec();
    if *how == LCheat::Exchanged {
        for x in input.iter_mut() {
            if !table.contains(x) {
                *x = table[g.usize(u)];
            }
        }
    }
    // groups of equal inputs in random order
    let mut groups: Vec<(F, usize)> = vec![];
    for x in &input {
        match groups.iter_mut().find(|y| y.0 == *x) {
            Some(y) => y.1 += 1,
            None => groups.push((*x, 1)),
        }
    }
    for i in (1..groups.len()).rev() {
        let j = g.usize(i + 1);
        groups.swap(i, j);
    }
    match how {
        LCheat::Orphan => {
            // some true group first
            if let Some(i) = groups.iter().position(|x| table.contains(&x.0)) {
                groups.swap(0, i);
            }
        }
        LCheat::OrphanFirst => {
            if let Some(i) = groups.iter().position(|x| !table.contains(&x.0)) {
                groups.swap(0, i);
            }
        }
        _ => {}
    }
    let mut left = table.clone();
    let mut a = vec![];
    let mut s: Vec<Option<F>> = vec![];
    for (x, k) in &groups {
        for i in 0..*k {
            a.push(*x);
            if i > 0 {
                s.push(None);
            } else if let Some(at) = left.iter().position(|y| y == x) {
                left.remove(at);
                s.push(Some(*x));
            } else if *how == LCheat::Added {
                s.push(Some(*x));
            } else {
                s.push(None);
            }
        }
    }
    let mut s: Vec<F> = s.into_iter().map(|x| x.unwrap_or_else(|| left.pop().unwrap_or(F::zero()))).collect();
    let mut r = Rng(g.xo());
    while a.len() < n {
        a.push(F::random(&mut r));
        s.push(F::random(&mut r));
    }
    if *how == LCheat::OrphanFirst {
        a[n - 1] = a[0];
    }
    p.permuted = Some((a, s));
}
struct Off;
impl Drop for Off {
    fn drop(&mut self) {
        set_cheat(None);
    }
}

fn cheats<S: Sys, KD: Kind<S::C>>(g: &mut G) -> R {
    let s = shape(g);
    SHAPE.with(|x| *x.borrow_mut() = s.clone());
    let first: Circ<S::F> = truth(g, &s, None);
    let n_circ = g.range(1, 2);
    let mut cs = vec![first.clone()];
    for _ in 1..n_circ {
        cs.push(truth(g, &s, Some(&first)));
    }
    for c in &cs {
        ensure!(c.wrong().is_empty(), "the generator makes a false circuit: {:?}", c.wrong());
    }
    let p = S::params(K);
    let pk = match guarded(|| S::pk2(&p, &first)) {
        Ok(Ok(pk)) => pk,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    let meta = pk.get_vk().cs();
    let u = (1usize << K) - (meta.blinding_factors() + 1);
    ensure_eq!(u, U, "usable rows");
    let per_set = meta.degree() - 2;
    let cols = meta.permutation().get_columns().len();
    let sets = (cols + per_set - 1) / per_set;
    let seed = g.u64();
    let prove = |cs: &[Circ<S::F>]| {
        let inst: Vec<_> = cs.iter().map(|c| c.instances(&s)).collect();
        guarded(|| S::prove::<KD, _>(&p, &pk, cs, &inst, Rng::new(seed)))
    };
    let verify = |cs: &[Circ<S::F>], proof: &[u8]| {
        let inst: Vec<_> = cs.iter().map(|c| c.instances(&s)).collect();
        verdict::<S, KD>(&p, Strat::Single, &[(pk.get_vk(), &inst, proof)])
    };
    let _off = Off;
    set_cheat(None);
    if g.chance(1, 4) {
        match prove(&cs) {
            Ok(Ok(proof)) => {
                let v = verify(&cs, &proof)?;
                ensure!(v.is_ok(), "honest proof refused: {:?}", v);
            }
            e => fail!("proving a true statement failed: {:?}", e),
        }
    }
    // something false
    let which = g.usize(n_circ);
    let mut kinds = vec![];
    if !first.copies.is_empty() {
        kinds.extend([0, 0, 1]);
    }
    if first.lookups.iter().any(|l| l.1.iter().any(|x| x.is_some())) {
        kinds.extend([2, 2, 2]);
    }
    if first.pair.iter().any(|x| x.is_some()) {
        kinds.extend([3]);
    }
    if kinds.is_empty() {
        return Ok(());
    }
    let mut bad_lookup = None;
    let kind = *g.pick(&kinds);
    match kind {
        0 => {
            let (a, _) = *g.pick(&first.copies);
            let v = cs[which].adv[a.0][a.1];
            cs[which].adv[a.0][a.1] = false_value(g, Some(v));
        }
        1 => {
            // two cells change places, most often in one row
            let (a, _) = *g.pick(&first.copies);
            let b = if g.bool() { (g.usize(s.adv), a.1) } else { (g.usize(s.adv), g.usize(U)) };
            let c = &mut cs[which];
            let (x, y) = (c.adv[a.0][a.1], c.adv[b.0][b.1]);
            c.adv[a.0][a.1] = y;
            c.adv[b.0][b.1] = x;
        }
        2 => {
            let at: Vec<(usize, usize)> = first.lookups.iter().enumerate().flat_map(|(i, l)| l.1.iter().enumerate().filter(|x| x.1.is_some()).map(move |x| (i, x.0))).collect();
            let (i, r) = *g.pick(&at);
            let t = cs[which].lookups[i].0.clone();
            let row = cs[which].lookups[i].1[r].as_mut().unwrap();
            let m = row.len();
            match g.below(5) {
                0 => row[g.usize(m)] = F_(g),
                1 if m > 1 => {
                    let (a, b) = (g.usize(m), g.usize(m));
                    let d = S::F::from(1 + g.below(3));
                    row[a] += d;
                    row[b] -= d;
                }
                2 if m > 1 => row.reverse(),
                3 => {
                    // each column of another row of the table
                    for (j, x) in row.iter_mut().enumerate() {
                        *x = t[g.usize(t.len())][j];
                    }
                }
                _ => *row = (0..m).map(|_| F_(g)).collect(),
            }
            bad_lookup = Some(i);
        }
        _ => {
            let at: Vec<usize> = (0..U).filter(|r| first.pair[*r].is_some()).collect();
            let r = *g.pick(&at);
            cs[which].pair[r].as_mut().unwrap().1 = F_(g);
        }
    }
    let wrong = cs[which].wrong();
    if wrong.is_empty() {
        return Ok(());
    }
    g.class(["false copy", "exchanged values", "false lookup", "opposite gates"][kind]);
    g.nontrivial();
    // the end of the permutation product, for the same challenges
    let ends: Rc<RefCell<Vec<S::F>>> = Rc::new(RefCell::new(vec![]));
    let n_look = s.lookups.len();
    for _ in 0..4 {
        let set = g.usize(sets.max(1));
        let zc = zcheat(g);
        let lc = g.pick(&[LCheat::Orphan, LCheat::OrphanFirst, LCheat::Exchanged, LCheat::Added]).clone();
        let lz = match lc {
            LCheat::Orphan | LCheat::OrphanFirst => ZCheat::None,
            _ => zcheat(g),
        };
        let tape = g.u64();
        g.desc(|| format!("{:?}, {} copies, cheating on {:?} in copy {}: set {} of {} {:?}; {:?} {:?}", s, n_circ, wrong, which, set, sets, zc, lc, lz));
        let run = |first_pass: bool| {
            let (mut np, mut nl, mut nz) = (0, 0, 0);
            let ends = ends.clone();
            let (zc, lc, lz) = (zc.clone(), lc.clone(), lz.clone());
            let mut t = G::sub(tape);
            let mut total = S::F::one();
            set_cheat(Some(Box::new(move |what: &'static str, x: &mut dyn Dyn| match what {
                "permutation product" => {
                    let z = x.downcast_mut::<Vec<S::F>>().unwrap();
                    if np == which * sets + sets - 1 && first_pass {
                        ends.borrow_mut().push(z[u]);
                    }
                    if np == which * sets + set && !first_pass && kind < 2 {
                        bend(z, ends.borrow().last().copied().unwrap_or(S::F::one()), u, &zc);
                    }
                    np += 1;
                }
                "lookup permutation" => {
                    let q = x.downcast_mut::<Permuted<S::F>>().unwrap();
                    if bad_lookup.map(|i| nl == which * n_look + i).unwrap_or(false) {
                        permuted(&mut t, q, u, &lc);
                    }
                    nl += 1;
                }
                "lookup product" => {
                    let z = x.downcast_mut::<Vec<S::F>>().unwrap();
                    if bad_lookup.map(|i| nz == which * n_look + i).unwrap_or(false) {
                        total = z[u];
                        bend(z, total, u, &lz);
                    }
                    nz += 1;
                }
                _ => {}
            })));
            let r = prove(&cs);
            set_cheat(None);
            r
        };
        if kind < 2 {
            ends.borrow_mut().clear();
            let _ = run(true);
        }
        g.evals(1);
        match run(false) {
            Ok(Ok(proof)) => {
                let v = verify(&cs, &proof)?;
                ensure!(v.is_err(), "a proof of a false statement verified: {:?}", wrong);
                g.class("cheating proof refused");
            }
            Ok(Err(e)) => g.class(&format!("no proof: {:?}", e).chars().take(40).collect::<String>()),
            Err(_) => g.class("the prover panics"),
        }
    }
    Ok(())
}
#[allow(non_snake_case)]
fn F_<F: FieldExt>(g: &mut G) -> F {
    match g.below(3) {
        0 => F::from(1 + g.below(40)),
        1 => F::zero(),
        _ => F::random(Rng(g.xo())),
    }
}

// ------------------------------------------------------------------ what challenges depend on
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Point(Vec<u8>),
    Scalar(Vec<u8>),
    Squeeze,
}
thread_local! {
    static LOG: RefCell<Vec<Ev>> = RefCell::new(vec![]);
}
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}
fn pb<C: CurveAffine>(p: &C) -> Vec<u8> {
    p.to_bytes().as_ref().to_vec()
}
fn sb<F: ff::PrimeField>(x: &F) -> Vec<u8> {
    x.to_repr().as_ref().to_vec()
}
#[derive(Clone)]
pub struct RecT<T>(T);
impl<C: CurveAffine, E: EncodedChallenge<C>, T: Transcript<C, E>> Transcript<C, E> for RecT<T> {
    fn squeeze_challenge(&mut self) -> E {
        log(Ev::Squeeze);
        self.0.squeeze_challenge()
    }
    fn common_point(&mut self, p: C) -> halo2_proofs::halo2curves::io::Result<()> {
        log(Ev::Point(pb(&p)));
        self.0.common_point(p)
    }
    fn common_scalar(&mut self, x: C::Scalar) -> halo2_proofs::halo2curves::io::Result<()> {
        log(Ev::Scalar(sb(&x)));
        self.0.common_scalar(x)
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptWrite<C, E>> TranscriptWrite<C, E> for RecT<T> {
    fn write_point(&mut self, p: C) -> halo2_proofs::halo2curves::io::Result<()> {
        log(Ev::Point(pb(&p)));
        self.0.write_point(p)
    }
    fn write_scalar(&mut self, x: C::Scalar) -> halo2_proofs::halo2curves::io::Result<()> {
        log(Ev::Scalar(sb(&x)));
        self.0.write_scalar(x)
    }
}
impl<C: CurveAffine, E: EncodedChallenge<C>, T: TranscriptRead<C, E>> TranscriptRead<C, E> for RecT<T> {
    fn read_point(&mut self) -> halo2_proofs::halo2curves::io::Result<C> {
        let p = self.0.read_point()?;
        log(Ev::Point(pb(&p)));
        Ok(p)
    }
    fn read_scalar(&mut self) -> halo2_proofs::halo2curves::io::Result<C::Scalar> {
        let x = self.0.read_scalar()?;
        log(Ev::Scalar(sb(&x)));
        Ok(x)
    }
}
pub struct Rec<K>(PhantomData<K>);
impl<C: CurveAffine, K: Kind<C>> Kind<C> for Rec<K> {
    const H: Hash = K::H;
    type W = RecT<K::W>;
    type Rd<'a> = RecT<K::Rd<'a>>;
    fn w() -> Self::W {
        RecT(K::w())
    }
    fn fin(w: Self::W) -> Vec<u8> {
        K::fin(w.0)
    }
    fn r<'a>(b: &'a [u8]) -> Self::Rd<'a> {
        RecT(K::r(b))
    }
}
pub fn taken() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

fn dependence<S: Sys, KD: Kind<S::C>, P: FloorPlanner>(g: &mut G) -> R {
    let spec: Arc<Spec<S::F>> = Arc::new(gen(g, Opt::default()));
    let (c, k) = build::<S::F, P>(spec.clone(), g.u64(), 0);
    set_spec(&spec);
    classes(g, &spec);
    let copies = g.range(1, 3);
    let cs: Vec<RC<S::F, P>> = (0..copies).map(|i| if i == 0 { c.clone() } else { c.with_seed(g.u64()) }).collect();
    let inst: Vec<Vec<Vec<S::F>>> = cs.iter().map(|c| c.inst.clone()).collect();
    g.desc(|| format!("k={} copies={} {:?}", k, copies, spec));
    g.nontrivial();
    let p = S::params(k);
    let pk = match guarded(|| S::pk2(&p, &cs[0])) {
        Ok(Ok(pk)) => pk,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    taken();
    let proof = match guarded(|| S::prove::<Rec<KD>, _>(&p, &pk, &cs, &inst, Rng(g.xo()))) {
        Ok(Ok(p)) => p,
        e => fail!("proving failed: {:?}", e),
    };
    let by_prover = taken();
    let v = verdict::<S, Rec<KD>>(&p, Strat::Single, &[(pk.get_vk(), &inst, &proof)])?;
    let by_verifier = taken();
    ensure!(v.is_ok(), "honest proof refused: {:?}", v);
    let meta = pk.get_vk().cs();
    let lookups = meta.lookups().len();
    let cols = meta.permutation().get_columns().len();
    let per = meta.degree() - 2;
    let sets = (cols + per - 1) / per;
    let pieces = meta.degree() - 1;
    // points per phase, as the circuit was configured
    let adv_phase: Vec<usize> = spec.adv.iter().map(|a| a.phase as usize).collect();
    let chal_phase: Vec<usize> = spec.chals.iter().map(|c| *c as usize).collect();
    let mut need: Vec<(String, usize)> = vec![];
    let top = adv_phase.iter().chain(chal_phase.iter()).copied().max().unwrap_or(0);
    for ph in 0..=top {
        for i in chal_phase.iter().enumerate().filter(|c| *c.1 == ph) {
            need.push((format!("challenge {} of phase {}", i.0, ph), copies * adv_phase.iter().filter(|a| **a <= ph).count()));
        }
    }
    let all = copies * adv_phase.len();
    need.push(("theta".into(), all));
    need.push(("beta".into(), all + 2 * copies * lookups));
    need.push(("gamma".into(), all + 2 * copies * lookups));
    let prod = all + copies * (3 * lookups + sets);
    need.push(("y".into(), prod));
    need.push(("x".into(), prod + pieces));
    for (who, l) in [("prover", &by_prover), ("verifier", &by_verifier)] {
        let (mut points, mut scalars, mut sq) = (0, 0, 0);
        let mut start: Vec<&Ev> = vec![];
        let mut at_x = 0;
        let inst_points = if S::COMMITS_INSTANCE { inst.iter().map(|c| c.len()).sum::<usize>() } else { 0 };
        for e in l {
            match e {
                Ev::Point(_) => points += 1,
                Ev::Scalar(_) => scalars += 1,
                Ev::Squeeze => {
                    if let Some((what, n)) = need.get(sq) {
                        ensure!(points >= n + inst_points, "the {} draws {} after {} points and not {} (with those of the instance)", who, what, points, n + inst_points);
                        at_x = scalars;
                    } else if sq == need.len() {
                        let evals = copies * meta.advice_queries().len() + meta.fixed_queries().len() + copies * (3 * sets).saturating_sub(copies) + cols + 5 * copies * lookups;
                        ensure!(scalars - at_x >= evals, "the {} draws the first challenge of the opening after {} of {} evaluations", who, scalars - at_x, evals);
                    }
                    sq += 1;
                }
            }
            if sq == 0 {
                start.push(e);
            }
        }
        ensure!(sq >= need.len(), "the {} draws only {} challenges", who, sq);
        // the public inputs, in order
        let want: Vec<Ev> = inst
            .iter()
            .flat_map(|c| {
                c.iter().flat_map(|col| {
                    if S::COMMITS_INSTANCE {
                        let mut v = col.clone();
                        v.resize(1 << k, S::F::zero());
                        vec![Ev::Point(pb(&S::commit(&p, &v)))]
                    } else {
                        col.iter().map(|x| Ev::Scalar(sb(x))).collect()
                    }
                })
            })
            .collect();
        let mut it = start.iter();
        for w in &want {
            ensure!(it.any(|e| *e == w), "the {} draws its first challenge before it absorbed all public inputs", who);
        }
        ensure!(start.iter().filter(|e| matches!(e, Ev::Scalar(_))).count() > want.iter().filter(|e| matches!(e, Ev::Scalar(_))).count(), "the {} draws its first challenge before it absorbed the verifying key", who);
    }
    // both sides see the same up to the last thing the prover does
    ensure!(by_verifier.len() >= by_prover.len() && by_verifier[..by_prover.len()] == by_prover[..], "prover and verifier do not absorb the same");
    // another key, another start
    if let Some((t, what)) = vary(g, &spec) {
        let t = Arc::new(t);
        let (d, k2) = build::<S::F, P>(t.clone(), g.u64(), 0);
        set_spec(&t);
        if k2 == k {
            if let Ok(Ok(pk2)) = guarded(|| S::pk2(&p, &d)) {
                if pk2.get_vk().fixed_commitments() != pk.get_vk().fixed_commitments() || pk2.get_vk().permutation().commitments() != pk.get_vk().permutation().commitments() {
                    taken();
                    let _ = guarded(|| S::verify::<Rec<KD>>(&p, Strat::Single, &[(pk2.get_vk(), &inst, &proof)]));
                    let l = taken();
                    let n = by_verifier.iter().position(|e| *e == Ev::Squeeze).unwrap();
                    ensure!(l.len() < n || l[..n] != by_verifier[..n], "nothing that is absorbed before the first challenge depends on the key ({})", what);
                    g.class("two keys");
                }
            }
        }
        set_spec(&spec);
    }
    Ok(())
}

pub fn laws() -> Vec<Law> {
    vec![
        Law::new("cheating prover gwc", 160, 4000, |g| match g.below(3) {
            0 => cheats::<Gwc, KB>(g),
            1 => cheats::<Gwc, KK>(g),
            _ => cheats::<Gwc, KP>(g),
        })
        .shrink(60),
        Law::new("cheating prover shplonk", 120, 3000, |g| if g.bool() { cheats::<Shp, KB>(g) } else { cheats::<Shp, KK>(g) }).shrink(60),
        Law::new("cheating prover ipa", 80, 2000, |g| if g.bool() { cheats::<IpaEq, KB>(g) } else { cheats::<IpaEp, KB>(g) }).shrink(60),
        Law::new("what challenges depend on", 60, 1200, |g| {
            use halo2_proofs::circuit::floor_planner::V1;
            match g.below(4) {
                0 => dependence::<Gwc, KB, V1>(g),
                1 => dependence::<Shp, KK, SimpleFloorPlanner>(g),
                2 => dependence::<IpaEq, KB, V1>(g),
                _ => dependence::<IpaEp, KP, SimpleFloorPlanner>(g),
            }
        })
        .shrink(60),
    ]
}

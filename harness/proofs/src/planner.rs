//! C14: floor planners.  A script of regions, tables and constant requests is run through every
//! planner against a recording back end; the oracle is the script itself.
use crate::plonk::*;
use crate::rcirc::{ck, sel_name, Ev, Rec};
use crate::transcripts::KB;
use crate::util::*;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::*;
use halo2_proofs::dev::MockProver;
use halo2_proofs::plonk::*;
use halo2curves::bn256::Fr;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::sync::Arc;
use vh_common::*;

/// an earlier op of the script that produced a cell: (region, op)
type Ref = (usize, usize);
#[derive(Clone, Debug)]
enum Op {
    Sel(usize, usize),
    Adv(usize, usize, Fr),
    AdvConst(usize, usize, Fr),
    AdvInst(usize, usize, usize, usize),
    Fix(usize, usize, Fr),
    CopyAdv(Ref, usize, usize),
    Eq(Ref, Ref),
    Konst(Ref, Fr),
    Name(usize),
}
#[derive(Clone, Debug)]
enum It {
    Reg(Vec<Op>),
    Tab(Vec<(usize, usize, Fr)>),
    /// tie a cell to an instance row, from outside a region
    Inst(Ref, usize, usize),
    Push,
    Pop,
}
#[derive(Clone, Debug)]
struct Script {
    adv: usize,
    fix: usize,
    inst: Vec<Vec<Fr>>,
    sels: Vec<bool>,
    tabs: usize,
    consts: Vec<usize>,
    items: Vec<It>,
}
thread_local! { static S: RefCell<Option<Arc<Script>>> = RefCell::new(None); }

#[derive(Clone)]
struct Cfg {
    adv: Vec<Column<Advice>>,
    fix: Vec<Column<Fixed>>,
    inst: Vec<Column<Instance>>,
    sels: Vec<Selector>,
    tabs: Vec<TableColumn>,
}
#[derive(Clone)]
struct Circ<P> {
    s: Arc<Script>,
    known: bool,
    _p: PhantomData<P>,
}
impl<P: FloorPlanner> Circuit<Fr> for Circ<P> {
    type Config = Cfg;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Circ { s: self.s.clone(), known: false, _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Cfg {
        let s = S.with(|x| x.borrow().clone().unwrap());
        let c = Cfg {
            adv: (0..s.adv).map(|_| m.advice_column()).collect(),
            fix: (0..s.fix).map(|_| m.fixed_column()).collect(),
            inst: (0..s.inst.len()).map(|_| m.instance_column()).collect(),
            sels: s.sels.iter().map(|c| if *c { m.complex_selector() } else { m.selector() }).collect(),
            tabs: (0..s.tabs).map(|_| m.lookup_table_column()).collect(),
        };
        for a in &c.adv {
            m.enable_equality(*a);
        }
        for (i, a) in c.fix.iter().enumerate() {
            if !s.consts.contains(&i) {
                m.enable_equality(*a);
            }
        }
        for a in &c.inst {
            m.enable_equality(*a);
        }
        for i in &s.consts {
            m.enable_constant(c.fix[*i]);
        }
        c
    }
    fn synthesize(&self, c: Cfg, mut l: impl Layouter<Fr>) -> Result<(), Error> {
        let s = &self.s;
        let v = |x: Fr| if self.known { Value::known(x) } else { Value::unknown() };
        let mut cells: HashMap<Ref, AssignedCell<Fr, Fr>> = HashMap::new();
        let mut ri = 0;
        for (ii, it) in s.items.iter().enumerate() {
            match it {
                It::Reg(ops) => {
                    let base = cells.clone();
                    let new = l.assign_region(
                        || format!("r{}", ri),
                        |mut r| {
                            let mut cells = base.clone();
                            for (i, o) in ops.iter().enumerate() {
                                match o {
                                    Op::Sel(x, off) => c.sels[*x].enable(&mut r, *off)?,
                                    Op::Adv(a, off, x) => {
                                        let z = r.assign_advice(|| "a", c.adv[*a], *off, || v(*x))?;
                                        cells.insert((ri, i), z);
                                    }
                                    Op::AdvConst(a, off, x) => {
                                        let z = r.assign_advice_from_constant(|| "k", c.adv[*a], *off, *x)?;
                                        cells.insert((ri, i), z);
                                    }
                                    Op::AdvInst(n, row, a, off) => {
                                        let z = r.assign_advice_from_instance(|| "i", c.inst[*n], *row, c.adv[*a], *off)?;
                                        cells.insert((ri, i), z);
                                    }
                                    Op::Fix(a, off, x) => {
                                        let z = r.assign_fixed(|| "f", c.fix[*a], *off, || Value::known(*x))?;
                                        cells.insert((ri, i), z);
                                    }
                                    Op::CopyAdv(f, a, off) => {
                                        let z = cells[f].clone().copy_advice(|| "c", &mut r, c.adv[*a], *off)?;
                                        cells.insert((ri, i), z);
                                    }
                                    Op::Eq(a, b) => r.constrain_equal(cells[a].cell(), cells[b].cell())?,
                                    Op::Konst(a, x) => r.constrain_constant(cells[a].cell(), *x)?,
                                    Op::Name(a) => r.name_column(|| "n", c.adv[*a]),
                                }
                            }
                            Ok(cells)
                        },
                    )?;
                    cells = new;
                    ri += 1;
                }
                It::Tab(rows) => l.assign_table(
                    || format!("t{}", ii),
                    |mut t| {
                        for (a, off, x) in rows {
                            t.assign_cell(|| "t", c.tabs[*a], *off, || Value::known(*x))?;
                        }
                        Ok(())
                    },
                )?,
                It::Inst(a, n, row) => {
                    // (through a namespace, which must make no difference)
                    l.namespace(|| "ns").constrain_instance(cells[a].cell(), c.inst[*n], *row)?
                }
                It::Push => l.push_namespace(|| "x"),
                It::Pop => l.pop_namespace(None),
            }
        }
        Ok(())
    }
}

fn ops(s: &Script) -> Vec<&Vec<Op>> {
    s.items.iter().filter_map(|i| if let It::Reg(o) = i { Some(o) } else { None }).collect()
}
/// what the op at `r` put where: column and offset
fn place(s: &Script, r: Ref) -> ((u8, usize), usize) {
    match &ops(s)[r.0][r.1] {
        Op::Adv(a, o, _) | Op::AdvConst(a, o, _) | Op::AdvInst(_, _, a, o) | Op::CopyAdv(_, a, o) => ((0, *a), *o),
        Op::Fix(a, o, _) => ((1, *a), *o),
        _ => unreachable!(),
    }
}
fn value(s: &Script, r: Ref) -> Fr {
    match &ops(s)[r.0][r.1] {
        Op::Adv(_, _, x) | Op::AdvConst(_, _, x) | Op::Fix(_, _, x) => *x,
        Op::AdvInst(n, row, _, _) => s.inst[*n].get(*row).cloned().unwrap_or_else(Fr::zero),
        Op::CopyAdv(f, _, _) => value(s, *f),
        _ => unreachable!(),
    }
}
fn rows(o: &[Op]) -> usize {
    o.iter()
        .map(|o| match o {
            Op::Sel(_, f) | Op::Adv(_, f, _) | Op::AdvConst(_, f, _) | Op::AdvInst(_, _, _, f) | Op::Fix(_, f, _) | Op::CopyAdv(_, _, f) => *f + 1,
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Col {
    A(usize),
    F(usize),
    S(usize),
}
fn columns(o: &[Op]) -> BTreeSet<Col> {
    o.iter()
        .filter_map(|o| match o {
            Op::Sel(s, _) => Some(Col::S(*s)),
            Op::Adv(a, ..) | Op::AdvConst(a, ..) | Op::CopyAdv(_, a, _) => Some(Col::A(*a)),
            Op::AdvInst(_, _, a, _) => Some(Col::A(*a)),
            Op::Fix(a, ..) => Some(Col::F(*a)),
            _ => None,
        })
        .collect()
}

struct GenOpt {
    bad_tables: bool,
    consts: bool,
    honest: bool,
}
fn script(g: &mut G, o: GenOpt) -> Script {
    let adv = g.range(1, 4);
    let nfix = g.range(1, 4);
    let mut consts = vec![];
    if o.consts {
        for i in 0..nfix {
            if g.chance(1, 2) {
                consts.push(i)
            }
        }
        if consts.is_empty() {
            consts.push(g.usize(nfix))
        }
        if g.bool() {
            consts.reverse()
        }
    }
    let ninst = g.range(0, 2);
    let sels: Vec<bool> = (0..g.range(0, 3)).map(|_| g.bool()).collect();
    let tabs = g.range(0, 4);
    let mut s = Script { adv, fix: nfix, inst: (0..ninst).map(|_| (0..g.range(1, 5)).map(|_| rnd(g)).collect()).collect(), sels, tabs, consts, items: vec![] };
    let nreg = if g.chance(1, 3) { g.range(5, 16) } else { g.range(0, 6) };
    let blocks = g.bool();
    let mut ri = 0;
    let mut cells: Vec<Ref> = vec![];
    let mut used: BTreeMap<Ref, ()> = BTreeMap::new();
    let _ = &mut used;
    let big = g.chance(1, 6);
    for _ in 0..nreg {
        // occasionally the same shape again and again (ties between regions)
        let nop = g.range(0, 9);
        let maxo = match g.below(4) {
            0 => 1,
            1 => 2,
            2 => 6,
            _ => {
                if big {
                    40
                } else {
                    10
                }
            }
        };
        let mut ops: Vec<Op> = vec![];
        let mut taken: BTreeSet<(Col, usize)> = BTreeSet::new();
        if blocks {
            // a rectangle: some columns, one of them down to the last row
            let len = g.range(1, maxo);
            for c in 0..s.adv + s.fix + s.sels.len() {
                if !g.chance(2, 5) {
                    continue;
                }
                let off = if g.bool() { len - 1 } else { g.usize(len) };
                let i = ops.len();
                if c < s.adv {
                    taken.insert((Col::A(c), off));
                    let v = fe(g);
                    ops.push(if o.consts && g.chance(1, 3) { Op::AdvConst(c, off, v) } else { Op::Adv(c, off, v) });
                    cells.push((ri, i));
                } else if c < s.adv + s.fix {
                    taken.insert((Col::F(c - s.adv), off));
                    let v = fe(g);
                    ops.push(Op::Fix(c - s.adv, off, v));
                    cells.push((ri, i));
                } else {
                    ops.push(Op::Sel(c - s.adv - s.fix, off));
                }
            }
        }
        let nop = if blocks { g.range(0, 2) } else { nop };
        for _ in 0..nop {
            let off = g.usize(maxo);
            let a = g.usize(s.adv);
            let i = ops.len();
            let free_a = !taken.contains(&(Col::A(a), off));
            let mut made = |ops: &mut Vec<Op>, cells: &mut Vec<Ref>, o: Op| {
                ops.push(o);
                cells.push((ri, i));
            };
            match g.below(12) {
                0 | 1 if !s.sels.is_empty() => ops.push(Op::Sel(g.usize(s.sels.len()), off)),
                2 | 3 if free_a => {
                    taken.insert((Col::A(a), off));
                    let v = fe(g);
                    made(&mut ops, &mut cells, Op::Adv(a, off, v))
                }
                4 | 5 if free_a && (o.consts || g.chance(1, 60)) => {
                    taken.insert((Col::A(a), off));
                    let v = fe(g);
                    made(&mut ops, &mut cells, Op::AdvConst(a, off, v))
                }
                6 if free_a && !s.inst.is_empty() => {
                    taken.insert((Col::A(a), off));
                    let n = g.usize(s.inst.len());
                    let row = g.usize(s.inst[n].len());
                    made(&mut ops, &mut cells, Op::AdvInst(n, row, a, off))
                }
                7 | 8 => {
                    let f = g.usize(s.fix);
                    if taken.insert((Col::F(f), off)) {
                        let v = fe(g);
                        made(&mut ops, &mut cells, Op::Fix(f, off, v))
                    }
                }
                9 if free_a && !cells.is_empty() => {
                    let f = *g.pick(&cells);
                    taken.insert((Col::A(a), off));
                    made(&mut ops, &mut cells, Op::CopyAdv(f, a, off))
                }
                10 if cells.len() > 1 => {
                    let (x, y) = (*g.pick(&cells), *g.pick(&cells));
                    ops.push(Op::Eq(x, y));
                }
                11 if !cells.is_empty() && (o.consts || g.chance(1, 60)) => {
                    let x = *g.pick(&cells);
                    let v = if g.bool() { fe(g) } else { Fr::zero() };
                    ops.push(Op::Konst(x, v));
                }
                _ => ops.push(Op::Name(a)),
            }
        }
        s.items.push(It::Reg(ops));
        if o.honest {
            // values of equality requests have to agree
            fix_values(&mut s, ri);
        }
        ri += 1;
        if !cells.is_empty() && !s.inst.is_empty() && g.chance(1, 4) {
            let c = *g.pick(&cells);
            let n = g.usize(s.inst.len());
            let row = g.usize(s.inst[n].len() + 1);
            if !o.honest || s.inst[n].get(row).cloned().unwrap_or_else(Fr::zero) == value(&s, c) {
                s.items.push(It::Inst(c, n, row));
            }
        }
        if g.chance(1, 8) {
            s.items.push(It::Push);
            s.items.push(It::Pop);
        }
    }
    // tables
    let mut left: Vec<usize> = (0..s.tabs).collect();
    while !left.is_empty() {
        let n = g.range(1, left.len());
        let cols: Vec<usize> = left.drain(..n).collect();
        if g.chance(1, 5) {
            continue;
        }
        let len = g.range(1, 6);
        let mut cells: Vec<(usize, usize, Fr)> = vec![];
        for r in 0..len {
            for c in &cols {
                cells.push((*c, r, fe(g)));
            }
        }
        // any order of assignment
        for i in (1..cells.len()).rev() {
            let j = g.usize(i + 1);
            cells.swap(i, j);
        }
        let at = g.usize(s.items.len() + 1);
        s.items.insert(at, It::Tab(cells));
    }
    if o.bad_tables {
        let ts: Vec<usize> = (0..s.items.len()).filter(|i| matches!(s.items[*i], It::Tab(_))).collect();
        if !ts.is_empty() {
            let t = *g.pick(&ts);
            if let It::Tab(c) = s.items[t].clone() {
                let mut c = c;
                match g.below(4) {
                    // a hole, unless it only shortens the single column
                    0 => {
                        let i = g.usize(c.len());
                        c.remove(i);
                    }
                    // a cell twice
                    1 => {
                        let i = g.usize(c.len());
                        let mut x = c[i];
                        if g.bool() {
                            x.2 = fe(g);
                        }
                        let at = g.usize(c.len() + 1);
                        c.insert(at, x);
                    }
                    // far away
                    2 => {
                        let i = g.usize(c.len());
                        let mut x = c[i];
                        x.1 += g.range(1, 9);
                        let at = g.usize(c.len() + 1);
                        c.insert(at, x);
                    }
                    // the column again, in another table
                    _ => {
                        let x = c[g.usize(c.len())].0;
                        let n = g.range(1, 3);
                        let extra = (0..n).map(|r| (x, r, fe(g))).collect();
                        let at = g.range(t + 1, s.items.len());
                        s.items.insert(at, It::Tab(extra));
                    }
                }
                s.items[t] = It::Tab(c);
            }
        }
    }
    s
}
/// drop equality requests that the values do not meet
fn fix_values(s: &mut Script, ri: usize) {
    let snap = s.clone();
    let mut k = 0;
    for it in s.items.iter_mut() {
        if let It::Reg(o) = it {
            if k == ri {
                for x in o.iter_mut() {
                    let bad = match x {
                        Op::Eq(a, b) => value(&snap, *a) != value(&snap, *b),
                        Op::Konst(a, v) => value(&snap, *a) != *v,
                        _ => false,
                    };
                    if bad {
                        *x = match x {
                            // keep the request but make it true
                            Op::Konst(a, _) => Op::Konst(*a, value(&snap, *a)),
                            _ => Op::Name(0),
                        }
                    }
                }
            }
            k += 1;
        }
    }
}

fn run<P: FloorPlanner>(s: &Arc<Script>, usable: usize, known: bool) -> Result<(Result<(), Error>, Vec<Ev<Fr>>, Cfg), String> {
    S.with(|x| *x.borrow_mut() = Some(s.clone()));
    guarded(|| {
        let mut cs = ConstraintSystem::default();
        let cfg = Circ::<P>::configure(&mut cs);
        let mut rec = Rec { ev: vec![], usable, inst: if known { s.inst.clone() } else { vec![] }, chals: vec![] };
        let c = Circ::<P> { s: s.clone(), known, _p: PhantomData };
        let r = P::synthesize(&mut rec, &c, cfg.clone(), cs.constants().clone());
        (r, rec.ev, cfg)
    })
}

/// are the script's tables well formed
fn tables_ok(s: &Script) -> bool {
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    for it in &s.items {
        if let It::Tab(c) = it {
            let cols: BTreeSet<usize> = c.iter().map(|x| x.0).collect();
            let all: BTreeSet<(usize, usize)> = c.iter().map(|x| (x.0, x.1)).collect();
            if all.len() != c.len() || cols.iter().any(|c| seen.contains(c)) {
                return false;
            }
            let len = c.iter().map(|x| x.1 + 1).max().unwrap_or(0);
            if all.len() != len * cols.len() || len == 0 {
                return false;
            }
            seen.extend(cols);
        }
    }
    true
}

struct Uf(BTreeMap<((u8, usize), usize), ((u8, usize), usize)>);
impl Uf {
    fn find(&mut self, c: ((u8, usize), usize)) -> ((u8, usize), usize) {
        let mut c = c;
        while let Some(p) = self.0.get(&c) {
            if *p == c {
                break;
            }
            c = *p;
        }
        c
    }
    fn join(&mut self, a: ((u8, usize), usize), b: ((u8, usize), usize)) {
        self.0.entry(a).or_insert(a);
        self.0.entry(b).or_insert(b);
        let (x, y) = (self.find(a), self.find(b));
        self.0.insert(x, y);
    }
}

/// all (cell, constant) requests
fn konsts(s: &Script) -> Vec<(Ref, Fr)> {
    let mut v = vec![];
    for (r, o) in ops(s).iter().enumerate() {
        for (i, x) in o.iter().enumerate() {
            match x {
                Op::AdvConst(_, _, v0) => v.push(((r, i), *v0)),
                Op::Konst(a, v0) => v.push((*a, *v0)),
                _ => {}
            }
        }
    }
    v
}

/// Check a recorded layout against the script; gives the region starts and the rows used.
fn judge(s: &Script, cfg: &Cfg, ev: &[Ev<Fr>], known: bool) -> Result<(Vec<Option<usize>>, usize), Fail> {
    let regs = ops(s);
    let selidx: BTreeMap<String, usize> = cfg.sels.iter().enumerate().map(|(i, x)| (sel_name(x), i)).collect();
    let fixidx: BTreeMap<usize, usize> = cfg.fix.iter().enumerate().map(|(i, x)| (x.index(), i)).collect();
    let advidx: BTreeMap<usize, usize> = cfg.adv.iter().enumerate().map(|(i, x)| (x.index(), i)).collect();
    // group by region
    let mut inside: Option<String> = None;
    let mut cells: BTreeMap<String, Vec<(Col, usize, Option<Fr>)>> = BTreeMap::new();
    let mut outside: Vec<(usize, usize, Fr)> = vec![];
    let mut table: BTreeMap<(usize, usize), Option<Fr>> = BTreeMap::new();
    let mut fills: BTreeMap<usize, (usize, Option<Fr>)> = BTreeMap::new();
    let mut got = Uf(BTreeMap::new());
    for e in ev {
        match e {
            Ev::Enter(n) => {
                ensure!(inside.is_none(), "region {} opened inside another", n);
                inside = Some(n.clone());
                if n.starts_with('r') {
                    ensure!(cells.insert(n.clone(), vec![]).is_none(), "region {} laid out twice", n);
                }
            }
            Ev::Exit => {
                ensure!(inside.take().is_some(), "region closed that was not open");
            }
            Ev::Sel(n, r) => match &inside {
                Some(x) => cells.get_mut(x).ok_or_else(|| Fail::from("selector in a table".to_string()))?.push((Col::S(selidx[n]), *r, None)),
                None => fail!("selector enabled outside a region"),
            },
            Ev::Adv(c, r, v) => match &inside {
                Some(x) => cells.get_mut(x).ok_or_else(|| Fail::from("advice in a table".to_string()))?.push((Col::A(advidx[c]), *r, *v)),
                None => fail!("advice assigned outside a region"),
            },
            Ev::Fix(c, r, v) => match (&inside, fixidx.get(c)) {
                (Some(x), Some(i)) if x.starts_with('r') => cells.get_mut(x).unwrap().push((Col::F(*i), *r, *v)),
                (None, Some(i)) => outside.push((*i, *r, v.ok_or_else(|| Fail::from("constant without a value".to_string()))?)),
                (_, None) => {
                    ensure!(table.insert((*c, *r), *v).is_none(), "table cell {:?} assigned twice", (c, r));
                }
                x => fail!("fixed cell assigned in the wrong place: {:?}", x),
            },
            Ev::Copy(a, ar, b, br) => got.join((*a, *ar), (*b, *br)),
            Ev::Fill(c, r, v) => {
                ensure!(fills.insert(*c, (*r, *v)).is_none(), "column filled twice");
            }
        }
    }
    // regions
    let mut start = vec![None; regs.len()];
    for (i, o) in regs.iter().enumerate() {
        let mine = cells.remove(&format!("r{}", i)).ok_or_else(|| Fail::from(format!("region {} not laid out", i)))?;
        let mut want: Vec<(Col, usize, Option<Fr>)> = vec![];
        for (j, x) in o.iter().enumerate() {
            match x {
                Op::Sel(a, off) => want.push((Col::S(*a), *off, None)),
                Op::Fix(a, off, v) => want.push((Col::F(*a), *off, Some(*v))),
                Op::Adv(a, off, _) | Op::AdvConst(a, off, _) | Op::AdvInst(_, _, a, off) | Op::CopyAdv(_, a, off) => {
                    let v = value(s, (i, j));
                    want.push((Col::A(*a), *off, if known { Some(v) } else { None }))
                }
                _ => {}
            }
        }
        want.sort();
        want.dedup();
        let mut mine = mine;
        mine.sort();
        mine.dedup();
        if want.is_empty() {
            ensure!(mine.is_empty(), "an empty region assigned {:?}", mine);
            continue;
        }
        ensure_eq!(mine.len(), want.len(), "cells of region {}", i);
        let lo = want.iter().map(|x| x.1).min().unwrap();
        let at = mine.iter().map(|x| x.1).min().unwrap();
        ensure!(at >= lo, "region {} starts before row 0", i);
        let st = at - lo;
        for (m, w) in mine.iter().zip(&want) {
            // (a planner without the witness may still know constants)
            let same = m.2 == w.2 || (!known && matches!(m.0, Col::A(_)));
            if m.0 != w.0 || m.1 != w.1 + st || !same {
                fail!("region {} at row {}: assigned {:?}, asked for {:?}", i, st, m, w);
            }
        }
        start[i] = Some(st);
    }
    ensure!(cells.is_empty(), "regions nobody asked for: {:?}", cells.keys());
    // rectangles
    let mut taken: BTreeMap<Col, Vec<(usize, usize, usize)>> = BTreeMap::new();
    let mut top = 0;
    for (i, o) in regs.iter().enumerate() {
        if let Some(st) = start[i] {
            let end = st + rows(o);
            top = top.max(end);
            for c in columns(o) {
                let t = taken.entry(c).or_default();
                for (a, b, j) in t.iter() {
                    ensure!(end <= *a || *b <= st, "regions {} (rows {}..{}) and {} (rows {}..{}) share column {:?}", j, a, b, i, st, end, c);
                }
                t.push((st, end, i));
            }
        }
    }
    // constants
    let mut kc: BTreeMap<((u8, usize), usize), Fr> = BTreeMap::new();
    for (c, r, v) in &outside {
        ensure!(s.consts.contains(c), "constant put into fixed column {}, which was not offered", c);
        for (a, b, i) in taken.get(&Col::F(*c)).into_iter().flatten() {
            ensure!(!(a <= r && r < b), "constant at row {} of fixed column {} inside region {}", r, c, i);
        }
        let key = (ck(cfg.fix[*c].into()), *r);
        if let Some(o) = kc.insert(key, *v) {
            ensure!(o == *v, "two constants at row {} of fixed column {}", r, c);
        }
        top = top.max(r + 1);
    }
    // copies: exactly the requested ones, plus ties to constants
    let abs = |r: Ref| -> ((u8, usize), usize) {
        let ((k, c), o) = place(s, r);
        let col: Column<Any> = if k == 0 { cfg.adv[c].into() } else { cfg.fix[c].into() };
        (ck(col), start[r.0].unwrap() + o)
    };
    let mut want = Uf(BTreeMap::new());
    for (i, o) in regs.iter().enumerate() {
        for (j, x) in o.iter().enumerate() {
            match x {
                Op::CopyAdv(f, _, _) => want.join(abs(*f), abs((i, j))),
                Op::Eq(a, b) => want.join(abs(*a), abs(*b)),
                Op::AdvInst(n, row, _, _) => want.join((ck(cfg.inst[*n].into()), *row), abs((i, j))),
                _ => {}
            }
        }
    }
    for it in &s.items {
        if let It::Inst(a, n, row) = it {
            want.join(abs(*a), (ck(cfg.inst[*n].into()), *row));
            top = top.max(row + 1);
        }
    }
    for (a, b) in want.0.clone() {
        let (x, y) = (got.find(a), got.find(b));
        ensure!(x == y, "requested copy between {:?} and {:?} not made", a, b);
    }
    // the other way: merge classes only through equal constants
    let mut allowed = want;
    let mut rep: BTreeMap<Vec<u8>, ((u8, usize), usize)> = BTreeMap::new();
    let key = |v: &Fr| {
        use ff::PrimeField;
        v.to_repr().as_ref().to_vec()
    };
    for (c, v) in &kc {
        let r = *rep.entry(key(v)).or_insert(*c);
        allowed.join(*c, r);
    }
    for (r, v) in konsts(s) {
        let c = abs(r);
        let root = got.find(c);
        let cells: Vec<_> = kc.iter().filter(|(k, _)| got.0.contains_key(*k)).map(|(k, v)| (*k, *v)).collect();
        let mut found = false;
        for (k, kv) in cells {
            if got.find(k) == root && kv == v {
                found = true;
            }
        }
        ensure!(found, "cell {:?} is not tied to its constant {:?}", c, v);
        allowed.join(c, rep[&key(&v)]);
    }
    for (a, b) in got.0.clone() {
        if allowed.find(a) != allowed.find(b) {
            fail!("copy between {:?} and {:?}, which nobody asked for", a, b);
        }
    }
    ensure!(kc.len() <= konsts(s).len(), "more constants than requests");
    // tables
    for it in &s.items {
        if let It::Tab(c) = it {
            let len = c.iter().map(|x| x.1 + 1).max().unwrap();
            top = top.max(len);
            for (col, r, v) in c {
                let k = s.fix + *col;
                match table.remove(&(k, *r)) {
                    Some(Some(x)) => ensure_eq!(x, *v, "table column {} row {}", col, r),
                    x => fail!("table column {} row {}: {:?}", col, r, x),
                }
                if *r == 0 {
                    match fills.remove(&k) {
                        Some((row, Some(x))) => {
                            ensure_eq!(row, len, "table column {} filled from", col);
                            ensure_eq!(x, *v, "filling of table column {}", col);
                        }
                        x => fail!("table column {} filled with {:?}", col, x),
                    }
                }
            }
        }
    }
    ensure!(table.is_empty(), "table cells nobody asked for");
    ensure!(fills.is_empty(), "columns filled that nobody asked for");
    Ok((start, top))
}

/// room for constants in the rows that regions use
fn room(s: &Script, start: &[Option<usize>]) -> usize {
    let regs = ops(s);
    let top = regs.iter().enumerate().filter_map(|(i, o)| start[i].map(|s| s + rows(o))).max().unwrap_or(0);
    s.consts
        .iter()
        .map(|c| {
            let used: usize = regs.iter().filter(|o| columns(o).contains(&Col::F(*c))).map(|o| rows(o)).sum();
            top - used
        })
        .sum()
}

fn without_constants(s: &Script) -> Script {
    let mut t = s.clone();
    for it in t.items.iter_mut() {
        if let It::Reg(o) = it {
            for x in o.iter_mut() {
                *x = match &*x {
                    Op::AdvConst(a, f, v) => Op::Adv(*a, *f, *v),
                    Op::Konst(..) => Op::Name(0),
                    x => x.clone(),
                }
            }
        }
    }
    t
}

fn note(g: &mut G, s: &Script) {
    let regs = ops(s);
    if regs.len() >= 2 {
        g.nontrivial();
    }
    if !konsts(s).is_empty() {
        g.class("constants");
        if s.consts.len() > 1 {
            g.class("several constant columns");
        }
        if regs.iter().any(|o| columns(o).iter().any(|c| matches!(c, Col::F(f) if s.consts.contains(f)))) {
            g.class("constant column used by a region");
        }
    }
    if s.items.iter().any(|i| matches!(i, It::Tab(_))) {
        g.class("table");
    }
    if regs.iter().any(|o| rows(o) == 0) {
        g.class("empty region");
    }
    if regs.iter().any(|o| o.iter().any(|x| matches!(x, Op::Sel(..)))) {
        g.class("selector");
    }
    let t = s.clone();
    g.desc(move || format!("{:?}", t));
}

const MANY: usize = 1 << 20;

fn placement<P: FloorPlanner>(g: &mut G, name: &'static str) -> R {
    let consts = g.chance(2, 3);
    let s = Arc::new(script(g, GenOpt { bad_tables: false, consts, honest: false }));
    g.class(name);
    note(g, &s);
    let asked = konsts(&s);
    let (r, ev, cfg) = run::<P>(&s, MANY, true).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
    if let Err(e) = r {
        // only a shortage of room for constants may stop it
        if asked.is_empty() {
            fail!("{} planner refused: {:?}", name, e);
        }
        if s.consts.is_empty() {
            g.class("refused: no constant column");
            return Ok(());
        }
        let t = Arc::new(without_constants(&s));
        let (r, ev, cfg) = run::<P>(&t, MANY, true).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
        ensure!(r.is_ok(), "{} planner refused without constants: {:?}", name, r);
        let (start, _) = judge(&t, &cfg, &ev, true)?;
        let room = room(&t, &start);
        ensure!(asked.len() > room, "{} planner refused {} constants with room for {}: {:?}", name, asked.len(), room, e);
        g.class("refused: constants do not fit");
        return Ok(());
    }
    ensure!(asked.is_empty() || !s.consts.is_empty(), "{} planner accepted constants without a constant column", name);
    let (start, _) = judge(&s, &cfg, &ev, true)?;
    // the same plan without the witness
    let (r2, ev2, cfg2) = run::<P>(&s, MANY, false).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
    ensure!(r2.is_ok(), "{} planner refused only without the witness: {:?}", name, r2);
    let (start2, _) = judge(&s, &cfg2, &ev2, false)?;
    ensure_eq!(start, start2, "region starts with and without the witness");
    let kc = |ev: &[Ev<Fr>]| -> Vec<String> { ev.iter().filter(|e| matches!(e, Ev::Fix(..) | Ev::Fill(..) | Ev::Sel(..) | Ev::Copy(..))).map(|e| format!("{:?}", e)).collect::<BTreeSet<_>>().into_iter().collect() };
    ensure_eq!(kc(&ev), kc(&ev2), "fixed part of the layout with and without the witness");
    Ok(())
}

/// gapped, uneven, doubly assigned tables
fn tables<P: FloorPlanner>(g: &mut G, name: &'static str) -> R {
    let s = Arc::new(script(g, GenOpt { bad_tables: true, consts: false, honest: false }));
    if !konsts(&s).is_empty() {
        return Ok(());
    }
    let ok = tables_ok(&s);
    g.class(name);
    g.class(if ok { "good" } else { "bad" });
    if !ok {
        g.nontrivial();
    }
    let t = s.clone();
    g.desc(move || format!("{:?}", t));
    let (r, ev, cfg) = run::<P>(&s, MANY, true).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
    if ok {
        ensure!(r.is_ok(), "{} planner refused well-formed tables: {:?}", name, r);
        judge(&s, &cfg, &ev, true)?;
    } else {
        ensure!(r.is_err(), "{} planner accepted a malformed table", name);
    }
    Ok(())
}

/// circuits that need more rows than there are
fn rows_law<P: FloorPlanner>(g: &mut G, name: &'static str) -> R {
    let s = Arc::new(script(g, GenOpt { bad_tables: false, consts: true, honest: true }));
    g.class(name);
    note(g, &s);
    let (r, ev, cfg) = run::<P>(&s, MANY, true).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
    if r.is_err() {
        return Ok(());
    }
    let (_, top) = judge(&s, &cfg, &ev, true)?;
    let mut cs = ConstraintSystem::<Fr>::default();
    Circ::<P>::configure(&mut cs);
    let k = g.range(3, 6) as u32;
    let n = 1usize << k;
    if n < cs.minimum_rows() {
        return Ok(());
    }
    let usable = n - (cs.blinding_factors() + 1);
    let longest = s.inst.iter().map(|i| i.len()).max().unwrap_or(0);
    let tab = s.items.iter().filter_map(|i| if let It::Tab(c) = i { c.iter().map(|x| x.1 + 1).max() } else { None }).max().unwrap_or(0);
    if tab == usable {
        // whether a table may take the very last row is left open
        return Ok(());
    }
    // instance ties beyond what the planner needs are limited by the public input
    let c = Circ::<P> { s: s.clone(), known: true, _p: PhantomData };
    let fits = top <= usable;
    g.class(if fits { "fits" } else { "too big" });
    let p = Gwc::params(k);
    match guarded(|| Gwc::vk(&p, &c).is_ok()) {
        Ok(x) => {
            // keys hold no advice: only the fixed part has to be refused here
            let hard = ev.iter().any(|e| match e {
                Ev::Fix(_, r, _) | Ev::Sel(_, r) => *r >= usable,
                Ev::Copy(_, a, _, b) => *a >= usable || *b >= usable,
                _ => false,
            });
            ensure!(x || !fits, "{} planner: no key with {} usable rows, {} needed", name, usable, top);
            ensure!(!x || !hard, "{} planner: key made with {} usable rows, {} needed", name, usable, top);
        }
        Err(e) => fail!("{} planner: key generation panicked: {}", name, e),
    }
    if longest <= usable && g.chance(1, 3) {
        let r = guarded(|| {
            let pk = Gwc::pk2(&p, &c)?;
            let pr = Gwc::prove::<KB, _>(&p, &pk, &[c.dup()], &[s.inst.clone()], Rng(g.xo()))?;
            Ok::<_, Error>((pk, pr))
        });
        match r {
            Err(e) => fail!("{} planner: proving panicked: {}", name, e),
            Ok(Ok((pk, pr))) => {
                ensure!(fits, "{} planner: proof with {} usable rows, {} needed", name, usable, top);
                let i = [s.inst.clone()];
                let r = Gwc::verify::<KB>(&p, Strat::Single, &[(pk.get_vk(), &i, &pr)]);
                ensure!(r.is_ok(), "{} planner: honest proof refused: {:?}", name, r);
                g.class("proved");
            }
            Ok(Err(e)) => ensure!(!fits, "{} planner: proving refused: {:?}", name, e),
        }
    }
    if longest <= usable {
        match guarded(|| MockProver::run(k, &c, s.inst.clone())) {
            Ok(Ok(m)) => {
                ensure!(fits, "{} planner: mock prover took {} rows into {}", name, top, usable);
                if let Err(e) = m.verify() {
                    fail!("{} planner: honest values rejected: {:?}", name, e);
                }
                g.class("verified");
            }
            Ok(Err(e)) => ensure!(!fits, "{} planner: mock prover refused: {:?}", name, e),
            Err(e) => fail!("{} planner: mock prover panicked: {}", name, e),
        }
    }
    Ok(())
}

/// values that do not meet the requests are caught whatever the planner
fn verdicts(g: &mut G) -> R {
    let honest = g.bool();
    let s = Arc::new(script(g, GenOpt { bad_tables: false, consts: true, honest }));
    let mut want: Option<bool> = None;
    // expected: union of everything tied together has one value
    let mut uf = Uf(BTreeMap::new());
    let id = |r: Ref| ((9u8, r.0), r.1);
    let mut vals: BTreeMap<((u8, usize), usize), Fr> = BTreeMap::new();
    let regs = ops(&s);
    let mut nk = 0;
    for (i, o) in regs.iter().enumerate() {
        for (j, x) in o.iter().enumerate() {
            match x {
                Op::CopyAdv(f, _, _) => {
                    vals.insert(id((i, j)), value(&s, (i, j)));
                    uf.join(id(*f), id((i, j)))
                }
                Op::Adv(..) | Op::Fix(..) => {
                    vals.insert(id((i, j)), value(&s, (i, j)));
                }
                Op::Eq(a, b) => uf.join(id(*a), id(*b)),
                Op::AdvInst(n, row, _, _) => {
                    vals.insert(id((i, j)), value(&s, (i, j)));
                    vals.insert(((2, *n), *row), value(&s, (i, j)));
                    uf.join(((2, *n), *row), id((i, j)))
                }
                Op::AdvConst(_, _, v) => {
                    vals.insert(id((i, j)), *v);
                    vals.insert(((8, 0), nk), *v);
                    uf.join(((8, 0), nk), id((i, j)));
                    nk += 1;
                }
                Op::Konst(a, v) => {
                    vals.insert(((8, 0), nk), *v);
                    uf.join(((8, 0), nk), id(*a));
                    nk += 1;
                }
                _ => {}
            }
        }
    }
    for it in &s.items {
        if let It::Inst(a, n, row) = it {
            vals.insert(((2, *n), *row), s.inst[*n].get(*row).cloned().unwrap_or_else(Fr::zero));
            uf.join(id(*a), ((2, *n), *row));
        }
    }
    let mut good = true;
    for (a, b) in uf.0.clone() {
        if vals[&a] != vals[&b] {
            good = false;
        }
    }
    if uf.0.len() > 1 {
        g.nontrivial();
    }
    g.class(if good { "consistent" } else { "contradictory" });
    let t = s.clone();
    g.desc(move || format!("{:?}", t));
    S.with(|x| *x.borrow_mut() = Some(s.clone()));
    let k = 9;
    let a = guarded(|| MockProver::run(k, &Circ::<SimpleFloorPlanner> { s: s.clone(), known: true, _p: PhantomData }, s.inst.clone()));
    let b = guarded(|| MockProver::run(k, &Circ::<V1> { s: s.clone(), known: true, _p: PhantomData }, s.inst.clone()));
    for (n, m) in [("simple", a), ("V1", b)] {
        match m {
            Err(e) => fail!("{} planner: mock prover panicked: {}", n, e),
            // room for constants is judged elsewhere
            Ok(Err(_)) if n == "V1" && nk > 0 => {}
            Ok(Err(e)) => fail!("{} planner: mock prover refused: {:?}", n, e),
            Ok(Ok(m)) => {
                let v = m.verify().is_ok();
                ensure_eq!(v, good, "{} planner: requests met", n);
                if let Some(w) = want {
                    ensure_eq!(v, w, "planners disagree");
                }
                want = Some(v);
            }
        }
    }
    Ok(())
}

/// an error inside a region or table stops every planner
fn errors<P: FloorPlanner>(g: &mut G, name: &'static str) -> R {
    let s = Arc::new(script(g, GenOpt { bad_tables: false, consts: false, honest: false }));
    if !konsts(&s).is_empty() {
        return Ok(());
    }
    g.class(name);
    let (r, ev, cfg) = run::<P>(&s, MANY, true).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
    ensure!(r.is_ok(), "{} planner refused: {:?}", name, r);
    let (_, top) = judge(&s, &cfg, &ev, true)?;
    if top == 0 {
        return Ok(());
    }
    let cut = g.usize(top);
    // what is assigned at or below the cut
    g.nontrivial();
    let t = s.clone();
    g.desc(move || format!("{} rows of {} for {:?}", cut, top, t));
    let hit = ev.iter().any(|e| match e {
        Ev::Adv(_, r, _) | Ev::Fix(_, r, _) | Ev::Sel(_, r) | Ev::Fill(_, r, _) => *r >= cut,
        Ev::Copy(_, a, _, b) => *a >= cut || *b >= cut,
        _ => false,
    });
    let (r, _, _) = run::<P>(&s, cut, true).map_err(|e| Fail::from(format!("{} planner panicked: {}", name, e)))?;
    ensure_eq!(r.is_err(), hit, "{} planner: back end refused an assignment, planner reports it", name);
    Ok(())
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        rule: "at least two regions, a malformed table, a copy request or an assignment the back end refuses",
        assumptions: vec![],
        laws: vec![
            Law::new("placement", 600, 20000, |g| if g.bool() { placement::<SimpleFloorPlanner>(g, "simple") } else { placement::<V1>(g, "V1") }),
            Law::new("tables", 300, 10000, |g| if g.bool() { tables::<SimpleFloorPlanner>(g, "simple") } else { tables::<V1>(g, "V1") }),
            Law::new("too few rows", 150, 4000, |g| if g.bool() { rows_law::<SimpleFloorPlanner>(g, "simple") } else { rows_law::<V1>(g, "V1") }),
            Law::new("verdicts", 150, 4000, verdicts),
            Law::new("errors", 300, 10000, |g| if g.bool() { errors::<SimpleFloorPlanner>(g, "simple") } else { errors::<V1>(g, "V1") }),
        ],
    }
}
impl<P> Circ<P> {
    fn dup(&self) -> Self {
        Circ { s: self.s.clone(), known: self.known, _p: PhantomData }
    }
}

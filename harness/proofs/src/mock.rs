//! C11: the mock prover's report against direct evaluation of the assignment.
use crate::plonk::*;
use crate::rcirc::*;
use crate::rgen::*;
use crate::transcripts::KB;
use crate::util::*;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::SimpleFloorPlanner;
use halo2_proofs::dev::{metadata, FailureLocation, MockProver, VerifyFailure};
use halo2_proofs::plonk::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use vh_common::*;
use vh_lab::{Cell, Ex, Kind as CK, Lab};

#[derive(Clone, Copy, PartialEq, Debug)]
enum V<F> {
    R(F),
    P,
}
/// value of an expression, cells outside the usable rows of advice columns being unknowable
fn ev<F: FieldExt>(l: &Lab<F>, e: &Ex<F>, row: usize) -> V<F> {
    let at = |r: i32| ((row as i64 + r as i64).rem_euclid(l.n as i64)) as usize;
    match e {
        Ex::Const(c) => V::R(*c),
        Ex::Sel(s) => V::R(if l.selectors[*s][row] { F::one() } else { F::zero() }),
        Ex::Cell(CK::Advice, c, r) => {
            let x = at(*r);
            if x >= l.usable {
                V::P
            } else {
                V::R(l.advice[*c][x])
            }
        }
        Ex::Cell(k, c, r) => V::R(l.get((*k, *c, at(*r)))),
        Ex::Chal(i) => V::R(l.challenges[*i]),
        Ex::Neg(a) => match ev(l, a, row) {
            V::R(x) => V::R(-x),
            _ => V::P,
        },
        Ex::Sum(a, b) => match (ev(l, a, row), ev(l, b, row)) {
            (V::R(x), V::R(y)) => V::R(x + y),
            _ => V::P,
        },
        Ex::Mul(a, b) => match (ev(l, a, row), ev(l, b, row)) {
            (V::R(x), V::R(y)) => V::R(x * y),
            (V::R(x), _) | (_, V::R(x)) if x == F::zero() => V::R(F::zero()),
            _ => V::P,
        },
    }
}
fn cells_of<F>(e: &Ex<F>, out: &mut BTreeSet<(CK, usize, i32)>, sels: &mut BTreeSet<usize>) {
    match e {
        Ex::Cell(k, c, r) => {
            out.insert((*k, *c, *r));
        }
        Ex::Sel(s) => {
            sels.insert(*s);
        }
        Ex::Neg(a) => cells_of(a, out, sels),
        Ex::Sum(a, b) | Ex::Mul(a, b) => {
            cells_of(a, out, sels);
            cells_of(b, out, sels);
        }
        _ => {}
    }
}
fn show<F: FieldExt>(v: F) -> String {
    if v == F::zero() {
        "0".into()
    } else if v == F::one() {
        "1".into()
    } else if v == -F::one() {
        "-1".into()
    } else {
        let s = big(&v);
        format!("0x{:x}", s)
    }
}

struct RegInfo {
    name: String,
    rows: Option<(usize, usize)>,
    cells: HashSet<((u8, usize), usize)>,
    sels: Vec<(usize, usize)>,
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
enum Exp {
    Gate(usize, usize, usize, BTreeSet<(CK, usize, i32, String)>),
    Poison(usize, usize),
    Look(usize, usize),
    Cell { gate: usize, region: usize, at: usize, col: (CK, usize), row: usize },
}

struct Model<F: FieldExt> {
    lab: Lab<F>,
    regs: Vec<RegInfo>,
    exp: BTreeSet<Exp>,
    bad_cells: HashSet<Cell>,
    bad_classes: Vec<HashSet<Cell>>,
}

fn model<F: FieldExt, P: FloorPlanner>(c: &RC<F, P>, k: u32, chals: &[F], gate_rows: Option<&[usize]>, lookup_rows: Option<&[usize]>) -> Result<Model<F>, Fail> {
    let lab = Lab::synth_with(k, c, &c.inst, 0, Some(chals.to_vec())).map_err(|e| Fail::from(format!("lab: {:?}", e)))?;
    let (r, evs, _, _) = record(c, lab.usable, lab.challenges.clone());
    r.map_err(|e| Fail::from(format!("recording: {:?}", e)))?;
    let mut regs: Vec<RegInfo> = vec![];
    let mut inside = false;
    for e in &evs {
        match e {
            Ev::Enter(n) => {
                inside = true;
                regs.push(RegInfo { name: n.clone(), rows: None, cells: HashSet::new(), sels: vec![] });
            }
            Ev::Exit => inside = false,
            _ if !inside => {}
            Ev::Sel(s, row) => {
                let i: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
                regs.last_mut().unwrap().sels.push((i.parse().unwrap(), *row));
            }
            Ev::Adv(col, row, _) | Ev::Fix(col, row, _) => {
                let kind = if matches!(e, Ev::Adv(..)) { 0 } else { 1 };
                let r = regs.last_mut().unwrap();
                r.cells.insert(((kind, *col), *row));
                let (a, b) = r.rows.unwrap_or((*row, *row));
                r.rows = Some((a.min(*row), b.max(*row)));
            }
            _ => {}
        }
    }
    let mut exp = BTreeSet::new();
    for (gi, g) in lab.gates.iter().enumerate() {
        for (pi, p) in g.iter().enumerate() {
            let mut cs = BTreeSet::new();
            cells_of(p, &mut cs, &mut BTreeSet::new());
            for row in 0..lab.n {
                if row < lab.usable && gate_rows.map_or(false, |r| !r.contains(&row)) {
                    continue;
                }
                match ev(&lab, p, row) {
                    V::R(x) if x == F::zero() => {}
                    V::R(_) => {
                        let vals = cs
                            .iter()
                            .map(|(k, c, r)| {
                                let x = ((row as i64 + *r as i64).rem_euclid(lab.n as i64)) as usize;
                                (*k, *c, *r, if *k == CK::Advice && x >= lab.usable { "?".to_string() } else { show(lab.get((*k, *c, x))) })
                            })
                            .collect();
                        exp.insert(Exp::Gate(gi, pi, row, vals));
                    }
                    V::P => {
                        exp.insert(Exp::Poison(gi, pi));
                    }
                }
            }
        }
    }
    for (li, (ins, tab)) in lab.lookups.iter().enumerate() {
        let tup = |es: &Vec<Ex<F>>, row: usize| -> Vec<Option<String>> {
            es.iter()
                .map(|e| match ev(&lab, e, row) {
                    V::R(x) => Some(show(x)),
                    V::P => None,
                })
                .collect()
        };
        let table: HashSet<_> = (0..lab.usable).map(|r| tup(tab, r)).collect();
        for row in 0..lab.usable {
            if lookup_rows.map_or(false, |r| !r.contains(&row)) {
                continue;
            }
            if !table.contains(&tup(ins, row)) {
                exp.insert(Exp::Look(li, row));
            }
        }
    }
    // cells a gate reads where one of its selectors is on
    for (ri, r) in regs.iter().enumerate() {
        for (sel, row) in &r.sels {
            for (gi, g) in lab.gates.iter().enumerate() {
                let mut cs = BTreeSet::new();
                let mut ss = BTreeSet::new();
                for p in g {
                    cells_of(p, &mut cs, &mut ss);
                }
                if !ss.contains(sel) {
                    continue;
                }
                for (k, c, rot) in cs {
                    let kind = match k {
                        CK::Advice => 0,
                        CK::Fixed => 1,
                        // public inputs are not assigned by regions
                        CK::Instance => continue,
                    };
                    let x = ((*row as i64 + rot as i64).rem_euclid(lab.n as i64)) as usize;
                    if !r.cells.contains(&((kind, c), x)) {
                        exp.insert(Exp::Cell { gate: gi, region: ri, at: *row, col: (k, c), row: x });
                    }
                }
            }
        }
    }
    // equality classes
    let mut id: HashMap<Cell, usize> = HashMap::new();
    let mut parent: Vec<usize> = vec![];
    fn find(p: &mut Vec<usize>, mut x: usize) -> usize {
        while p[x] != x {
            p[x] = p[p[x]];
            x = p[x];
        }
        x
    }
    for (a, b) in &lab.copies {
        for c in [a, b] {
            if !id.contains_key(c) {
                id.insert(*c, parent.len());
                parent.push(parent.len());
            }
        }
        let (x, y) = (find(&mut parent, id[a]), find(&mut parent, id[b]));
        parent[x] = y;
    }
    let mut classes: BTreeMap<usize, HashSet<Cell>> = BTreeMap::new();
    for (c, i) in &id {
        classes.entry(find(&mut parent, *i)).or_default().insert(*c);
    }
    let bad_classes: Vec<HashSet<Cell>> = classes
        .into_values()
        .filter(|v| {
            let f = lab.get(*v.iter().next().unwrap());
            v.iter().any(|c| lab.get(*c) != f)
        })
        .collect();
    let bad_cells = bad_classes.iter().flatten().copied().collect();
    Ok(Model { lab, regs, exp, bad_cells, bad_classes })
}

fn compare<F: FieldExt>(m: &Model<F>, cs: &ConstraintSystem<F>, got: &Result<(), Vec<VerifyFailure>>, names: &dyn Fn(usize, usize) -> (&'static str, &'static str)) -> R {
    let ok = m.exp.is_empty() && m.bad_classes.is_empty();
    let errs: &[VerifyFailure] = match got {
        Ok(()) => {
            ensure!(ok, "accepted, although {:?} {:?} are violated", m.exp.iter().take(3).collect::<Vec<_>>(), m.bad_classes.iter().take(2).collect::<Vec<_>>());
            return Ok(());
        }
        Err(e) => e,
    };
    ensure!(!errs.is_empty(), "failure without a report");
    let col = |k: CK, i: usize| -> metadata::Column {
        match k {
            CK::Advice => {
                let ph = cs.advice_column_phase()[i];
                let any = match ph {
                    0 => Any::advice(),
                    1 => Any::advice_in(SecondPhase),
                    _ => Any::advice_in(ThirdPhase),
                };
                (any, i).into()
            }
            CK::Fixed => (Any::Fixed, i).into(),
            CK::Instance => (Any::Instance, i).into(),
        }
    };
    let row_of = |l: &FailureLocation| -> Result<usize, Fail> {
        match l {
            FailureLocation::OutsideRegion { row } => Ok(*row),
            FailureLocation::InRegion { region, offset } => {
                for (i, r) in m.regs.iter().enumerate() {
                    let x: metadata::Region = (i, r.name.clone()).into();
                    if &x == region {
                        let (a, b) = match r.rows {
                            Some(x) => x,
                            None => fail!("failure located in an empty region"),
                        };
                        ensure!(a + offset <= b, "failure located outside its region {:?}", l);
                        return Ok(a + offset);
                    }
                }
                fail!("failure in unknown region {:?}", l)
            }
        }
    };
    let mut seen: BTreeSet<Exp> = BTreeSet::new();
    let mut hit: Vec<bool> = vec![false; m.bad_classes.len()];
    let cons = |gi: usize, pi: usize| -> metadata::Constraint {
        let (gn, pn) = names(gi, pi);
        ((gi, gn).into(), pi, pn).into()
    };
    for e in errs {
        let _ = format!("{} {:?}", e, e);
        let found = match e {
            VerifyFailure::ConstraintNotSatisfied { constraint, location, cell_values } => {
                let row = row_of(location)?;
                m.exp
                    .iter()
                    .find(|x| match x {
                        Exp::Gate(g, p, r, vals) => {
                            *r == row && cons(*g, *p) == *constraint && vals.len() == cell_values.len() && {
                                vals.iter().all(|(k, c, rot, v)| {
                                    let vc: metadata::VirtualCell = (col(*k, *c), *rot).into();
                                    cell_values.iter().any(|(a, b)| *a == vc && (b == v || v == "?"))
                                })
                            }
                        }
                        _ => false,
                    })
                    .cloned()
            }
            VerifyFailure::ConstraintPoisoned { constraint } => m.exp.iter().find(|x| matches!(x, Exp::Poison(g, p) if cons(*g, *p) == *constraint)).cloned(),
            VerifyFailure::Lookup { name, lookup_index, location } => {
                let row = row_of(location)?;
                ensure_eq!(*name, NAMES[(lookup_index + 3) % 6], "name of the failed lookup");
                let x = Exp::Look(*lookup_index, row);
                if m.exp.contains(&x) {
                    Some(x)
                } else {
                    None
                }
            }
            VerifyFailure::CellNotAssigned { gate, region, gate_offset, column, offset } => m
                .exp
                .iter()
                .find(|x| match x {
                    Exp::Cell { gate: g, region: ri, at, col: (k, c), row } => {
                        let rr: metadata::Region = (*ri, m.regs[*ri].name.clone()).into();
                        let gg: metadata::Gate = (*g, names(*g, 0).0).into();
                        let base = m.regs[*ri].rows.map_or(*at, |r| r.0);
                        let (ck, ci) = ck(*column);
                        let kk = if ck == 0 { CK::Advice } else { CK::Fixed };
                        gg == *gate && rr == *region && *gate_offset == *at && kk == *k && ci == *c && (*row as isize - base as isize) == *offset
                    }
                    _ => false,
                })
                .cloned(),
            VerifyFailure::Permutation { column, location } => {
                let row = row_of(location)?;
                let mut any = false;
                for (i, cl) in m.bad_classes.iter().enumerate() {
                    for (k, c, r) in cl {
                        if *r == row && col(*k, *c) == *column {
                            hit[i] = true;
                            any = true;
                        }
                    }
                }
                ensure!(any, "reported copy violation which does not exist: {:?}; violated cells {:?}", e, m.bad_cells);
                continue;
            }
        };
        match found {
            Some(x) => {
                seen.insert(x);
            }
            None => fail!("reported a violation which does not exist: {}\nviolated: {:?}", e, m.exp.iter().take(6).collect::<Vec<_>>()),
        }
    }
    for x in &m.exp {
        ensure!(seen.contains(x), "violation not reported: {:?}; reported {:?}", x, errs.iter().take(3).collect::<Vec<_>>());
    }
    for (i, h) in hit.iter().enumerate() {
        ensure!(*h, "copy violation not reported: {:?}", m.bad_classes[i]);
    }
    Ok(())
}

fn names<F: FieldExt>(s: &Spec<F>) -> impl Fn(usize, usize) -> (&'static str, &'static str) + '_ {
    move |g, p| (NAMES[g % 6], if s.gates[g].style % 5 == 1 { NAMES[(p + 1) % 6] } else { "" })
}

/// a gate that reads cells wherever they are, active anywhere
fn wild<F: FieldExt>(g: &mut G, s: &mut Spec<F>) {
    let n = g.range(1, 2);
    for _ in 0..n {
        let complex = g.bool();
        s.sels.push(complex);
        s.units.push(Unit::Sel(s.sels.len() - 1));
        let col = g.usize(s.adv.len());
        let mut rot = || g.range(0, 14) as i32 - 7;
        let (r0, r1, r2) = (rot(), rot(), rot());
        let a = X::A(g.usize(s.adv.len()), r1);
        let b = match g.below(4) {
            0 if !s.fix.is_empty() => X::F(g.usize(s.fix.len()), r2),
            1 if !s.inst.is_empty() => X::I(g.usize(s.inst.len()), r2),
            2 => X::C(fe(g)),
            _ => X::A(g.usize(s.adv.len()), r2),
        };
        let e = match g.below(3) {
            0 => X::Mul(Box::new(a), Box::new(b)),
            1 => X::Add(Box::new(a), Box::new(b)),
            _ => X::Scale(Box::new(a), fe(g)),
        };
        s.gates.push(crate::rcirc::Gate { unit: s.units.len() - 1, style: g.below(5), fac: None, polys: vec![Poly::Out { col, rot: r0, e }] });
        let regs = s.regs.len();
        for _ in 0..g.range(1, 3) {
            let r = g.usize(regs);
            let o = g.usize(8);
            s.regs[r].sels.insert((s.sels.len() - 1, o));
        }
        if g.chance(1, 4) {
            // a region that only turns the selector on
            let mut sels = BTreeSet::new();
            sels.insert((s.sels.len() - 1, g.usize(3)));
            s.regs.push(Reg { adv: BTreeMap::new(), fix: BTreeMap::new(), sels, eqs: vec![], back: false });
            s.items.push(Item::Reg(regs));
        }
    }
}

fn report<F: FieldExt, P: FloorPlanner>(g: &mut G, wildly: bool) -> R {
    let mut s: Spec<F> = gen(g, Opt::default());
    if wildly {
        wild(g, &mut s);
    }
    let spec = Arc::new(s);
    let slack = if g.chance(1, 5) { 1 } else { 0 };
    let (mut c, k) = build::<F, P>(spec.clone(), g.u64(), slack);
    set_spec(&spec);
    classes(g, &spec);
    let ids: Vec<Id> = spec.regs.iter().enumerate().flat_map(|(r, x)| x.adv.keys().map(move |(c, o)| (r, Co::A(*c), *o))).collect();
    let fids: Vec<Id> = spec.regs.iter().enumerate().flat_map(|(r, x)| x.fix.keys().map(move |(c, o)| (r, Co::F(*c), *o))).collect();
    for _ in 0..[0, 1, 1, 2, 4][g.usize(5)] {
        let id = if !fids.is_empty() && g.chance(1, 6) { *g.pick(&fids) } else { *g.pick(&ids) };
        let v = false_value(g, None);
        c.over.insert(id, v);
    }
    if g.chance(1, 5) {
        c.omit = Some(*g.pick(&ids));
    }
    if g.chance(1, 6) {
        // other public inputs than the witness was made for
        let cols: Vec<usize> = (0..c.inst.len()).filter(|i| !c.inst[*i].is_empty()).collect();
        if !cols.is_empty() {
            let i = *g.pick(&cols);
            let r = g.usize(c.inst[i].len());
            let old = c.inst[i][r];
            let mut inst = c.inst.clone();
            inst[i][r] = false_value(g, Some(old));
            c.inst = inst;
        }
    }
    g.desc(|| format!("k={} over={:?} omit={:?} {:?}", k, c.over, c.omit, spec));
    let mut cs = ConstraintSystem::default();
    configure(&spec, &mut cs);
    let p = match guarded(|| MockProver::run(k, &c, c.inst.clone())) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => fail!("run: {:?}", e),
        Err(e) => fail!("run panicked: {}", e),
    };
    let chals = last_challenges::<F>();
    ensure_eq!(chals.len(), spec.chals.len(), "challenges available to the last synthesis");
    let distinct: HashSet<String> = chals.iter().map(|c| show(*c)).collect();
    ensure_eq!(distinct.len(), chals.len(), "different challenges");
    let m = model(&c, k, &chals, None, None)?;
    let nm = names(&spec);
    let v = match guarded(|| p.verify()) {
        Ok(v) => v,
        Err(e) => fail!("verify panicked: {}", e),
    };
    g.class(if v.is_ok() { "satisfied" } else { "violated" });
    for x in &m.exp {
        g.class(match x {
            Exp::Gate(..) => "gate violation",
            Exp::Poison(..) => "unusable row read",
            Exp::Look(..) => "lookup violation",
            Exp::Cell { .. } => "cell not assigned",
        });
        g.nontrivial();
    }
    if !m.bad_classes.is_empty() {
        g.class("copy violation");
        g.nontrivial();
    }
    compare(&m, &cs, &v, &nm)?;
    let v2 = match guarded(|| p.verify_par()) {
        Ok(v) => v,
        Err(e) => fail!("verify_par panicked: {}", e),
    };
    compare(&m, &cs, &v2, &nm)?;
    // chosen rows
    let mut pick = |u: usize| -> Vec<usize> { (0..u).filter(|_| g.chance(1, 2)).collect() };
    let (gr, lr) = (pick(m.lab.usable), pick(m.lab.usable));
    let m2 = model(&c, k, &chals, Some(&gr), Some(&lr))?;
    let v3 = match guarded(|| p.verify_at_rows(gr.iter().copied(), lr.iter().copied())) {
        Ok(v) => v,
        Err(e) => fail!("verify_at_rows panicked: {}", e),
    };
    compare(&m2, &cs, &v3, &nm)?;
    let v4 = match guarded(|| p.verify_at_rows_par(gr.iter().copied(), lr.iter().copied())) {
        Ok(v) => v,
        Err(e) => fail!("verify_at_rows_par panicked: {}", e),
    };
    compare(&m2, &cs, &v4, &nm)?;
    // the asserting form
    match guarded(|| p.assert_satisfied()) {
        Ok(()) => ensure!(v.is_ok(), "assert_satisfied passed a violated circuit"),
        Err(e) => {
            ensure!(v.is_err(), "assert_satisfied panicked on a satisfied circuit: {}", e);
            ensure!(e.contains("not satisfied"), "assert_satisfied failed while reporting: {}", e);
        }
    }
    Ok(())
}

/// what the mock prover accepts can be proved, what breaks a constraint cannot
fn agree<S: Sys, P: FloorPlanner>(g: &mut G) -> R {
    let spec: Arc<Spec<S::F>> = Arc::new(gen(g, Opt { max_gates: 3, max_regs: 3, ..Opt::default() }));
    let (mut c, k) = build::<S::F, P>(spec.clone(), g.u64(), 0);
    set_spec(&spec);
    let ids: Vec<Id> = spec.regs.iter().enumerate().flat_map(|(r, x)| x.adv.keys().map(move |(c, o)| (r, Co::A(*c), *o))).collect();
    if g.bool() {
        let id = *g.pick(&ids);
        c.over.insert(id, false_value(g, None));
    }
    g.desc(|| format!("k={} over={:?} {:?}", k, c.over, spec));
    let p = MockProver::run(k, &c, c.inst.clone()).map_err(|e| Fail::from(format!("run: {:?}", e)))?;
    let mock = p.verify().is_ok();
    g.class(if mock { "accepted" } else { "rejected" });
    classes(g, &spec);
    let params = S::params(k);
    let pk = match guarded(|| S::pk2(&params, &c)) {
        Ok(Ok(pk)) => pk,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    let inst = vec![c.inst.clone()];
    let proof = guarded(|| S::prove::<KB, _>(&params, &pk, &[c.clone()], &inst, Rng(g.xo())));
    let real = match proof {
        Ok(Ok(b)) => verdict::<S, KB>(&params, Strat::Single, &[(pk.get_vk(), &inst, &b)])?.is_ok(),
        _ => false,
    };
    ensure_eq!(mock, real, "mock prover and real proof disagree");
    Ok(())
}

fn refusals<F: FieldExt, P: FloorPlanner>(g: &mut G) -> R {
    let spec: Arc<Spec<F>> = Arc::new(gen(g, Opt::default()));
    let (c, k) = build::<F, P>(spec.clone(), g.u64(), 0);
    set_spec(&spec);
    classes(g, &spec);
    let mut cs = ConstraintSystem::<F>::default();
    configure(&spec, &mut cs);
    let run = |k: u32, inst: Vec<Vec<F>>| -> Result<bool, Fail> {
        match guarded(|| MockProver::run(k, &c, inst)) {
            Ok(r) => Ok(r.is_ok()),
            Err(e) => fail!("run panicked: {}", e),
        }
    };
    // too few rows
    for kk in 0..k {
        // the layout of at least one cell, table or input does not fit into half the rows
        ensure!(!run(kk, c.inst.clone())? || fits(&c, &cs, kk)?, "circuit of size {} accepted with size {}", k, kk);
    }
    let mut inst = c.inst.clone();
    inst.push(vec![]);
    ensure!(!run(k, inst)?, "extra instance column accepted");
    if !c.inst.is_empty() {
        let mut inst = c.inst.clone();
        inst.pop();
        ensure!(!run(k, inst)?, "missing instance column accepted");
        let usable = (1usize << k) - cs.blinding_factors() - 1;
        let mut inst = c.inst.clone();
        let i = g.usize(inst.len());
        inst[i].resize(usable + 1, F::zero());
        ensure!(!run(k, inst)?, "instance longer than the usable rows accepted");
        let mut inst = c.inst.clone();
        inst[i].resize(usable, F::zero());
        ensure!(run(k, inst)?, "instance filling the usable rows refused");
    }
    Ok(())
}
/// does everything the circuit assigns fit?
fn fits<F: FieldExt, P: FloorPlanner>(c: &RC<F, P>, cs: &ConstraintSystem<F>, k: u32) -> Result<bool, Fail> {
    let n = 1usize << k;
    if n < cs.minimum_rows() {
        return Ok(false);
    }
    let usable = n - cs.blinding_factors() - 1;
    let (r, _, _, _) = record(c, usable, vec![]);
    Ok(r.is_ok() && c.inst.iter().all(|i| i.len() <= usable))
}

pub fn c11() -> Check {
    use halo2curves::{bn256::Fr, pasta::Fp};
    Check {
        id: "C11",
        rule: "some constraint or assignment requirement is violated, or the circuit has an active constraint",
        assumptions: vec![],
        laws: vec![
            Law::new("report simple", 400, 6000, |g| report::<Fr, SimpleFloorPlanner>(g, false)).shrink(300),
            Law::new("report v1", 400, 6000, |g| report::<Fp, V1>(g, false)).shrink(300),
            Law::new("report anywhere", 800, 10000, |g| if g.bool() { report::<Fr, SimpleFloorPlanner>(g, true) } else { report::<Fp, V1>(g, true) }).shrink(300),
            Law::new("agreement", 40, 600, |g| match g.below(3) {
                0 => agree::<Shp, V1>(g),
                1 => agree::<IpaEq, SimpleFloorPlanner>(g),
                _ => agree::<Gwc, SimpleFloorPlanner>(g),
            })
            .shrink(100),
            Law::new("refusals", 150, 2000, |g| if g.bool() { refusals::<Fr, SimpleFloorPlanner>(g) } else { refusals::<Fp, V1>(g) }).shrink(200),
        ],
    }
}

//! C32: expressions and the constraint system.  C33: the developer's view of a circuit.
//! A history of configuration calls is generated as data, replayed on a `ConstraintSystem`, and
//! compared after every call with a model that only keeps what was asked for.
use crate::plonk::*;
use crate::rcirc::{build, set_spec, Spec, RC, X};
use crate::rgen::{classes, Opt};
use crate::transcripts::KB;
use crate::util::*;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner};
use halo2_proofs::dev::{CircuitCost, CircuitGates};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::bn256::Fr;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::AssertUnwindSafe;
use std::sync::Arc;
use vh_common::*;

const NAMES: [&str; 7] = ["", "one", "two", "a gate", "x*y", "three four", "last"];

#[derive(Clone, Debug)]
struct Poly<F> {
    name: &'static str,
    x: X<F>,
}
#[derive(Clone, Debug)]
enum Op<F> {
    Adv(u8),
    Fix,
    Inst,
    Sel(bool),
    Chal(u8),
    Tab,
    EqA(usize),
    EqF(usize),
    EqI(usize),
    Const(usize),
    /// name, how the constraints are handed over, the selector applied to all of them, constraints
    Gate(&'static str, u64, Option<X<F>>, Vec<Poly<F>>),
    /// inputs with table columns
    Lookup(&'static str, Vec<(X<F>, usize)>),
    LookupAny(&'static str, Vec<(X<F>, X<F>)>),
    MinDegree(usize),
    EmptyGate(&'static str),
}

/// what was asked for
#[derive(Clone, Debug)]
struct Model<F> {
    adv: Vec<u8>,
    nfix: usize,
    ninst: usize,
    /// simple?
    sels: Vec<bool>,
    chals: Vec<u8>,
    /// fixed columns of the table columns
    tabs: Vec<usize>,
    qa: BTreeSet<(usize, i32)>,
    qf: BTreeSet<(usize, i32)>,
    qi: BTreeSet<(usize, i32)>,
    perm: BTreeSet<(u8, usize)>,
    consts: BTreeSet<usize>,
    gates: Vec<(&'static str, Vec<Poly<F>>)>,
    lks: Vec<(&'static str, Vec<(X<F>, X<F>)>)>,
    min: Option<usize>,
}
impl<F: FieldExt> Model<F> {
    fn new() -> Self {
        Model { adv: vec![], nfix: 0, ninst: 0, sels: vec![], chals: vec![], tabs: vec![], qa: BTreeSet::new(), qf: BTreeSet::new(), qi: BTreeSet::new(), perm: BTreeSet::new(), consts: BTreeSet::new(), gates: vec![], lks: vec![], min: None }
    }
    fn query(&mut self, x: &X<F>) {
        let mut l = vec![];
        x.leaves(&mut l);
        for x in l {
            match x {
                X::A(i, r) => {
                    self.qa.insert((*i, *r));
                }
                X::F(i, r) => {
                    self.qf.insert((*i, *r));
                }
                X::I(i, r) => {
                    self.qi.insert((*i, *r));
                }
                _ => {}
            }
        }
    }
    fn apply(&mut self, op: &Op<F>) {
        match op {
            Op::Adv(p) => self.adv.push(*p),
            Op::Fix => self.nfix += 1,
            Op::Inst => self.ninst += 1,
            Op::Sel(s) => self.sels.push(*s),
            Op::Chal(p) => self.chals.push(*p),
            Op::Tab => {
                self.tabs.push(self.nfix);
                self.nfix += 1
            }
            Op::EqA(i) => {
                self.qa.insert((*i, 0));
                self.perm.insert((0, *i));
            }
            Op::EqF(i) => {
                self.qf.insert((*i, 0));
                self.perm.insert((1, *i));
            }
            Op::EqI(i) => {
                self.qi.insert((*i, 0));
                self.perm.insert((2, *i));
            }
            Op::Const(i) => {
                self.qf.insert((*i, 0));
                self.perm.insert((1, *i));
                self.consts.insert(*i);
            }
            Op::Gate(n, _, sel, ps) => {
                let mut v = vec![];
                if let Some(s) = sel {
                    self.query(s);
                }
                for p in ps {
                    self.query(&p.x);
                    let x = match sel {
                        Some(s) => X::Mul(Box::new(s.clone()), Box::new(p.x.clone())),
                        None => p.x.clone(),
                    };
                    v.push(Poly { name: p.name, x });
                }
                self.gates.push((n, v));
            }
            Op::Lookup(n, m) => {
                let mut v = vec![];
                for (x, t) in m {
                    self.query(x);
                    let tx = X::F(self.tabs[*t], 0);
                    self.query(&tx);
                    v.push((x.clone(), tx));
                }
                self.lks.push((n, v));
            }
            Op::LookupAny(n, m) => {
                for (x, t) in m {
                    self.query(x);
                    self.query(t);
                }
                self.lks.push((n, m.clone()));
            }
            Op::MinDegree(d) => self.min = Some(*d),
            Op::EmptyGate(_) => {}
        }
    }
    fn phase_ok(&self, p: u8) -> bool {
        p == 0 || self.adv.contains(&(p - 1))
    }
    /// whether the call is one the documentation allows
    fn allowed(&self, op: &Op<F>) -> bool {
        match op {
            Op::Adv(p) => self.phase_ok(*p),
            Op::Chal(p) => self.adv.contains(p),
            Op::Gate(_, _, s, ps) => {
                let s = s.as_ref().map(|s| self.simple(s)).unwrap_or(Some(0));
                ps.iter().all(|p| match (s, self.simple(&p.x)) {
                    (Some(a), Some(b)) => a + b <= 1,
                    _ => false,
                })
            }
            Op::Lookup(_, m) => m.iter().all(|x| self.simple(&x.0) == Some(0)),
            Op::EmptyGate(_) => false,
            _ => true,
        }
    }
    /// simple selectors in a well-formed expression
    fn simple(&self, x: &X<F>) -> Option<usize> {
        match x {
            X::S(i) => Some(self.sels[*i] as usize),
            X::Neg(a) | X::Scale(a, _) => self.simple(a),
            X::Add(a, b) | X::Sub(a, b) => {
                if self.simple(a)? + self.simple(b)? == 0 {
                    Some(0)
                } else {
                    None
                }
            }
            X::Mul(a, b) => {
                let n = self.simple(a)? + self.simple(b)?;
                if n <= 1 {
                    Some(n)
                } else {
                    None
                }
            }
            _ => Some(0),
        }
    }
    fn degree(&self) -> usize {
        let mut d = 3;
        for (_, m) in &self.lks {
            let i = m.iter().map(|x| deg(&x.0)).max().unwrap_or(0).max(1);
            let t = m.iter().map(|x| deg(&x.1)).max().unwrap_or(0).max(1);
            d = d.max(2 + i + t).max(4);
        }
        for (_, g) in &self.gates {
            for p in g {
                d = d.max(deg(&p.x));
            }
        }
        d.max(self.min.unwrap_or(1))
    }
    fn blinding(&self) -> usize {
        let mut c: BTreeMap<usize, usize> = BTreeMap::new();
        for (i, _) in &self.qa {
            *c.entry(*i).or_default() += 1;
        }
        c.values().copied().max().unwrap_or(0).max(3) + 2
    }
}

fn deg<F: FieldExt>(x: &X<F>) -> usize {
    match x {
        X::C(_) | X::Ch(_) => 0,
        X::Neg(a) | X::Scale(a, _) => deg(a),
        X::Add(a, b) | X::Sub(a, b) => deg(a).max(deg(b)),
        X::Mul(a, b) => deg(a) + deg(b),
        _ => 1,
    }
}
fn depth<F>(x: &X<F>) -> usize {
    match x {
        X::Neg(a) | X::Scale(a, _) => 1 + depth(a),
        X::Add(a, b) | X::Sub(a, b) | X::Mul(a, b) => 1 + depth(a).max(depth(b)),
        _ => 0,
    }
}
/// negations, additions, multiplications
fn count<F>(x: &X<F>) -> [usize; 3] {
    let j = |a: [usize; 3], b: [usize; 3]| [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
    match x {
        X::Neg(a) => j(count(a), [1, 0, 0]),
        X::Scale(a, _) => j(count(a), [0, 0, 1]),
        X::Add(a, b) => j(j(count(a), count(b)), [0, 1, 0]),
        X::Sub(a, b) => j(j(count(a), count(b)), [1, 1, 0]),
        X::Mul(a, b) => j(j(count(a), count(b)), [0, 0, 1]),
        _ => [0; 3],
    }
}
/// value of a leaf: a quarter are zero
fn leaf<F: FieldExt>(seed: u64, kind: u64, i: usize, r: i32) -> F {
    let mut s = seed ^ (kind << 56) ^ ((i as u64) << 32) ^ (r as u32 as u64);
    splitmix(&mut s);
    let a = splitmix(&mut s);
    match a % 8 {
        0 | 1 => F::zero(),
        2 => F::one(),
        _ => F::from(splitmix(&mut s)) * F::from(splitmix(&mut s)) + F::from(splitmix(&mut s)),
    }
}
fn value<F: FieldExt>(x: &X<F>, s: u64) -> F {
    match x {
        X::A(i, r) => leaf(s, 0, *i, *r),
        X::F(i, r) => leaf(s, 1, *i, *r),
        X::I(i, r) => leaf(s, 2, *i, *r),
        X::Ch(i) => leaf(s, 3, *i, 0),
        X::S(i) => leaf(s, 4, *i, 0),
        X::C(f) => *f,
        X::Neg(a) => -value(a, s),
        X::Add(a, b) => value(a, s) + value(b, s),
        X::Sub(a, b) => value(a, s) - value(b, s),
        X::Mul(a, b) => value(a, s) * value(b, s),
        X::Scale(a, f) => value(a, s) * *f,
    }
}

// ------------------------------------------------------------------ the real side

#[derive(Clone, Default)]
struct World {
    adv: Vec<Column<Advice>>,
    fix: Vec<Column<Fixed>>,
    /// all fixed columns as the system numbers them: index into `fix` or none for table columns
    inst: Vec<Column<Instance>>,
    sels: Vec<Selector>,
    chals: Vec<Challenge>,
    tabs: Vec<TableColumn>,
    /// position in the model's numbering of fixed columns -> entry of `fix`
    fixpos: Vec<Option<usize>>,
}
fn expr<F: FieldExt>(e: &X<F>, w: &World, m: &mut VirtualCells<F>) -> Expression<F> {
    let any = matches!(e, X::A(_, r) | X::F(_, r) | X::I(_, r) if r % 2 == 0);
    match e {
        X::A(i, r) if any => m.query_any(w.adv[*i], Rotation(*r)),
        X::F(i, r) if any => m.query_any(w.fix[w.fixpos[*i].unwrap()], Rotation(*r)),
        X::I(i, r) if any => m.query_any(w.inst[*i], Rotation(*r)),
        X::A(i, r) => m.query_advice(w.adv[*i], Rotation(*r)),
        X::F(i, r) => m.query_fixed(w.fix[w.fixpos[*i].unwrap()], Rotation(*r)),
        X::I(i, r) => m.query_instance(w.inst[*i], Rotation(*r)),
        X::Ch(i) => m.query_challenge(w.chals[*i]),
        X::S(i) => m.query_selector(w.sels[*i]),
        X::C(f) => Expression::Constant(*f),
        X::Neg(a) => -expr(a, w, m),
        X::Add(a, b) => {
            let a = expr(a, w, m);
            a + expr(b, w, m)
        }
        X::Sub(a, b) => {
            let a = expr(a, w, m);
            a - expr(b, w, m)
        }
        X::Mul(a, b) if a == b && matches!(**a, X::Add(..) | X::Scale(..)) => expr(a, w, m).square(),
        X::Mul(a, b) => {
            let a = expr(a, w, m);
            a * expr(b, w, m)
        }
        X::Scale(a, f) => expr(a, w, m) * *f,
    }
}
fn apply<F: FieldExt>(op: &Op<F>, w: &mut World, cs: &mut ConstraintSystem<F>) -> Option<usize> {
    match op {
        Op::Adv(0) => {
            let c = if w.adv.len() % 2 == 0 { cs.advice_column() } else { cs.advice_column_in(FirstPhase) };
            w.adv.push(c)
        }
        Op::Adv(1) => {
            let c = cs.advice_column_in(SecondPhase);
            w.adv.push(c)
        }
        Op::Adv(_) => {
            let c = cs.advice_column_in(ThirdPhase);
            w.adv.push(c)
        }
        Op::Fix => {
            w.fixpos.push(Some(w.fix.len()));
            w.fix.push(cs.fixed_column())
        }
        Op::Inst => w.inst.push(cs.instance_column()),
        Op::Sel(true) => w.sels.push(cs.selector()),
        Op::Sel(false) => w.sels.push(cs.complex_selector()),
        Op::Chal(0) => {
            let c = cs.challenge_usable_after(FirstPhase);
            w.chals.push(c)
        }
        Op::Chal(1) => {
            let c = cs.challenge_usable_after(SecondPhase);
            w.chals.push(c)
        }
        Op::Chal(_) => {
            let c = cs.challenge_usable_after(ThirdPhase);
            w.chals.push(c)
        }
        Op::Tab => {
            w.fixpos.push(None);
            w.tabs.push(cs.lookup_table_column())
        }
        Op::EqA(i) => cs.enable_equality(w.adv[*i]),
        Op::EqF(i) => cs.enable_equality(w.fix[w.fixpos[*i].unwrap()]),
        Op::EqI(i) => cs.enable_equality(w.inst[*i]),
        Op::Const(i) => cs.enable_constant(w.fix[w.fixpos[*i].unwrap()]),
        Op::Gate(n, style, sel, ps) => {
            let named = ps.iter().any(|p| !p.name.is_empty());
            match (sel, named, style % 2) {
                (None, false, 0) if ps.len() == 1 => cs.create_gate(n, |m| Some(expr(&ps[0].x, w, m))),
                (None, false, 1) if ps.len() == 1 => cs.create_gate(n, |m| -> Vec<Constraint<F>> { expr(&ps[0].x, w, m).into() }),
                (None, false, _) => cs.create_gate(n, |m| ps.iter().map(|p| expr(&p.x, w, m)).collect::<Vec<_>>()),
                (None, true, _) => cs.create_gate(n, |m| ps.iter().map(|p| (p.name, expr(&p.x, w, m))).collect::<Vec<_>>()),
                (Some(s), false, _) => cs.create_gate(n, |m| {
                    let s = expr(s, w, m);
                    Constraints::with_selector(s, ps.iter().map(|p| expr(&p.x, w, m)).collect::<Vec<_>>())
                }),
                (Some(s), true, _) => cs.create_gate(n, |m| {
                    let s = expr(s, w, m);
                    Constraints::with_selector(s, ps.iter().map(|p| (p.name, expr(&p.x, w, m))).collect::<Vec<_>>())
                }),
            }
        }
        Op::Lookup(n, m) => return Some(cs.lookup(n, |c| m.iter().map(|(x, t)| (expr(x, w, c), w.tabs[*t])).collect())),
        Op::LookupAny(n, m) => {
            return Some(cs.lookup_any(n, |c| {
                m.iter()
                    .map(|(x, t)| {
                        let x = expr(x, w, c);
                        (x, expr(t, w, c))
                    })
                    .collect()
            }))
        }
        Op::MinDegree(d) => cs.set_minimum_degree(*d),
        Op::EmptyGate(n) => cs.create_gate(n, |_| Vec::<Expression<F>>::new()),
    }
    None
}

/// an expression through the library's own evaluators, over the leaf values
fn evaluate<F: FieldExt>(e: &Expression<F>, w: &World, s: u64, lazy: bool) -> F {
    let sel = |q: Selector| leaf(s, 4, w.sels.iter().position(|x| *x == q).expect("known selector"), 0);
    let f = |q: FixedQuery| leaf(s, 1, q.column_index(), q.rotation().0);
    let a = |q: AdviceQuery| leaf(s, 0, q.column_index(), q.rotation().0);
    let i = |q: InstanceQuery| leaf(s, 2, q.column_index(), q.rotation().0);
    let c = |q: Challenge| leaf(s, 3, q.index(), 0);
    let neg = |a: F| -a;
    let add = |a: F, b: F| a + b;
    let mul = |a: F, b: F| a * b;
    if lazy {
        e.evaluate_lazy(&|x| x, &sel, &f, &a, &i, &c, &neg, &add, &mul, &mul, &F::zero())
    } else {
        e.evaluate(&|x| x, &sel, &f, &a, &i, &c, &neg, &add, &mul, &mul)
    }
}

fn check_expr<F: FieldExt>(what: &str, e: &Expression<F>, x: &X<F>, w: &World, cs: &ConstraintSystem<F>, s: u64) -> R {
    for s in [s, s ^ 0x1234567, s.rotate_left(17)] {
        let v = value(x, s);
        ensure_eq!(evaluate(e, w, s, false), v, "{}: value of the expression", what);
        ensure_eq!(evaluate(e, w, s, true), v, "{}: value of the expression, lazily", what);
    }
    ensure_eq!(e.degree(), deg(x), "{}: degree", what);
    // every query names an entry of the list it refers to
    let bad = RefCell::new(None);
    let note = |ok: bool, m: String| {
        if !ok && bad.borrow().is_none() {
            *bad.borrow_mut() = Some(m)
        }
    };
    e.evaluate(
        &|_| (),
        &|_| (),
        &|q| note(cs.fixed_queries().get(q.index()).map(|x| (x.0.index(), x.1)) == Some((q.column_index(), q.rotation())), format!("{:?}", q)),
        &|q| {
            note(cs.advice_queries().get(q.index()).map(|x| (x.0.index(), x.1)) == Some((q.column_index(), q.rotation())), format!("{:?}", q));
            note(w.adv.get(q.column_index()).map(|c| c.column_type().phase()) == Some(q.phase()), format!("phase {:?}", q))
        },
        &|q| note(cs.instance_queries().get(q.index()).map(|x| (x.0.index(), x.1)) == Some((q.column_index(), q.rotation())), format!("{:?}", q)),
        &|_| (),
        &|_| (),
        &|_, _| (),
        &|_, _| (),
        &|_, _| (),
    );
    if let Some(b) = bad.into_inner() {
        fail!("{}: a query does not match the list it points into: {}", what, b);
    }
    Ok(())
}

struct Seen {
    qa: Vec<(usize, i32)>,
    qf: Vec<(usize, i32)>,
    qi: Vec<(usize, i32)>,
    perm: Vec<(u8, usize)>,
    consts: Vec<usize>,
}
fn look<F: FieldExt>(cs: &ConstraintSystem<F>) -> Seen {
    Seen {
        qa: cs.advice_queries().iter().map(|q| (q.0.index(), q.1 .0)).collect(),
        qf: cs.fixed_queries().iter().map(|q| (q.0.index(), q.1 .0)).collect(),
        qi: cs.instance_queries().iter().map(|q| (q.0.index(), q.1 .0)).collect(),
        perm: cs
            .permutation()
            .get_columns()
            .iter()
            .map(|c| {
                (
                    match c.column_type() {
                        Any::Advice(_) => 0,
                        Any::Fixed => 1,
                        Any::Instance => 2,
                    },
                    c.index(),
                )
            })
            .collect(),
        consts: cs.constants().iter().map(|c| c.index()).collect(),
    }
}
/// `now` holds exactly `want`, without repetition, and `before` is its beginning
fn list<T: Ord + Clone + std::fmt::Debug>(what: &str, before: &[T], now: &[T], want: &BTreeSet<T>) -> R {
    let set: BTreeSet<T> = now.iter().cloned().collect();
    ensure!(set == *want, "{}: {:?}, asked for {:?}", what, now, want);
    ensure!(set.len() == now.len(), "{}: repeated entries in {:?}", what, now);
    ensure!(now.starts_with(before), "{}: earlier entries moved: {:?} -> {:?}", what, before, now);
    Ok(())
}

fn compare<F: FieldExt>(m: &Model<F>, w: &World, cs: &ConstraintSystem<F>, before: &Seen, s: u64) -> Result<Seen, Fail> {
    ensure_eq!(cs.num_advice_columns(), m.adv.len(), "advice columns");
    ensure_eq!(cs.num_fixed_columns(), m.nfix, "fixed columns");
    ensure_eq!(cs.num_instance_columns(), m.ninst, "instance columns");
    ensure_eq!(cs.num_challenges(), m.chals.len(), "challenges");
    ensure_eq!(cs.advice_column_phase(), m.adv, "phases of the advice columns");
    ensure_eq!(cs.challenge_phase(), m.chals, "phases of the challenges");
    for (i, c) in w.adv.iter().enumerate() {
        ensure_eq!((c.index(), c.column_type().phase()), (i, m.adv[i]), "advice column");
    }
    let mut table = 0;
    for (i, p) in w.fixpos.iter().enumerate() {
        match p {
            Some(j) => ensure_eq!(w.fix[*j].index(), i, "fixed column"),
            None => table += 1,
        }
    }
    ensure_eq!(table, m.tabs.len(), "table columns");
    for (i, c) in w.inst.iter().enumerate() {
        ensure_eq!(c.index(), i, "instance column");
    }
    for (i, c) in w.chals.iter().enumerate() {
        ensure_eq!((c.index(), c.phase()), (i, m.chals[i]), "challenge");
    }
    for (i, c) in w.sels.iter().enumerate() {
        ensure_eq!(c.is_simple(), m.sels[i], "kind of selector {}", i);
        ensure!(w.sels[..i].iter().all(|d| d != c), "two selectors are the same");
    }
    let top = m.adv.iter().copied().max().unwrap_or(0);
    ensure_eq!(cs.max_phase(), top, "last phase");
    ensure_eq!(cs.phases().count(), top as usize + 1, "number of phases");
    let now = look(cs);
    list("advice queries", &before.qa, &now.qa, &m.qa)?;
    list("fixed queries", &before.qf, &now.qf, &m.qf)?;
    list("instance queries", &before.qi, &now.qi, &m.qi)?;
    list("columns with equality", &before.perm, &now.perm, &m.perm)?;
    list("columns of constants", &before.consts, &now.consts, &m.consts)?;
    for (n, (i, r)) in now.qa.iter().enumerate() {
        ensure_eq!(cs.get_any_query_index(w.adv[*i].into(), Rotation(*r)), n, "index of an advice query");
    }
    for (n, (i, r)) in now.qi.iter().enumerate() {
        ensure_eq!(cs.get_any_query_index(w.inst[*i].into(), Rotation(*r)), n, "index of an instance query");
    }
    for (n, (i, r)) in now.qf.iter().enumerate() {
        if let Some(j) = w.fixpos[*i] {
            ensure_eq!(cs.get_any_query_index(w.fix[j].into(), Rotation(*r)), n, "index of a fixed query");
        }
    }
    ensure_eq!(cs.degree(), m.degree(), "degree of the system");
    ensure_eq!(cs.blinding_factors(), m.blinding(), "blinding factors");
    ensure_eq!(cs.minimum_rows(), m.blinding() + 3, "minimum rows");
    ensure_eq!(cs.gates().len(), m.gates.len(), "gates");
    ensure_eq!(cs.lookups().len(), m.lks.len(), "lookups");
    for (gi, (g, (_, ps))) in cs.gates().iter().zip(&m.gates).enumerate() {
        ensure_eq!(g.polynomials().len(), ps.len(), "constraints of gate {}", gi);
        for (pi, (e, p)) in g.polynomials().iter().zip(ps).enumerate() {
            check_expr(&format!("gate {} constraint {}", gi, pi), e, &p.x, w, cs, s)?;
        }
    }
    for (li, (l, (n, ps))) in cs.lookups().iter().zip(&m.lks).enumerate() {
        ensure_eq!(l.name, *n, "name of lookup {}", li);
        ensure_eq!(l.input_expressions().len(), ps.len(), "inputs of lookup {}", li);
        ensure_eq!(l.table_expressions().len(), ps.len(), "table of lookup {}", li);
        for (i, (x, t)) in ps.iter().enumerate() {
            check_expr(&format!("lookup {} input {}", li, i), &l.input_expressions()[i], x, w, cs, s)?;
            check_expr(&format!("lookup {} table {}", li, i), &l.table_expressions()[i], t, w, cs, s)?;
        }
    }
    Ok(now)
}

// ------------------------------------------------------------------ generators

fn rot(g: &mut G) -> i32 {
    match g.below(8) {
        0..=3 => 0,
        4 => 1,
        5 => -1,
        _ => g.below(14) as i32 - 7,
    }
}
fn gen_x<F: FieldExt>(g: &mut G, m: &Model<F>, d: usize, simple: bool) -> X<F> {
    if d == 0 || g.chance(1, 6) {
        loop {
            match g.below(12) {
                0..=4 if !m.adv.is_empty() => return X::A(g.usize(m.adv.len()), rot(g)),
                5 | 6 => {
                    let c: Vec<usize> = (0..m.nfix).filter(|i| !m.tabs.contains(i)).collect();
                    if !c.is_empty() {
                        return X::F(*g.pick(&c), rot(g));
                    }
                }
                7 if m.ninst > 0 => return X::I(g.usize(m.ninst), rot(g)),
                8 if !m.chals.is_empty() => return X::Ch(g.usize(m.chals.len())),
                9 => {
                    let c: Vec<usize> = (0..m.sels.len()).filter(|i| simple || !m.sels[*i]).collect();
                    if !c.is_empty() {
                        return X::S(*g.pick(&c));
                    }
                }
                10 | 11 => return X::C(fe(g)),
                _ => {}
            }
        }
    }
    let b = |x| Box::new(x);
    match g.below(10) {
        0 => X::Neg(b(gen_x(g, m, d - 1, simple))),
        1 | 2 => {
            let l = gen_x(g, m, d - 1, false);
            X::Add(b(l), b(gen_x(g, m, d - 1, false)))
        }
        3 | 4 => {
            let l = gen_x(g, m, d - 1, false);
            X::Sub(b(l), b(gen_x(g, m, d - 1, false)))
        }
        5..=7 => {
            let l = gen_x(g, m, d - 1, simple);
            let s = simple && m.simple(&l) == Some(0);
            X::Mul(b(l), b(gen_x(g, m, d - 1, s)))
        }
        8 => {
            let l = gen_x(g, m, d - 1, false);
            X::Mul(b(l.clone()), b(l))
        }
        _ => X::Scale(b(gen_x(g, m, d - 1, simple)), fe(g)),
    }
}
fn gen_op<F: FieldExt>(g: &mut G, m: &Model<F>) -> Op<F> {
    let dep = |g: &mut G| [1, 2, 2, 3, 3, 4, 5][g.usize(7)];
    let plain: Vec<usize> = (0..m.nfix).filter(|i| !m.tabs.contains(i)).collect();
    loop {
        match g.below(30) {
            0..=2 => return Op::Adv([0, 0, 0, 1, 1, 2][g.usize(6)]),
            3 => return Op::Fix,
            4 => return Op::Inst,
            5 | 6 => return Op::Sel(g.bool()),
            7 => return Op::Chal(g.below(3) as u8),
            8 => return Op::Tab,
            9 | 10 if !m.adv.is_empty() => return Op::EqA(g.usize(m.adv.len())),
            11 if !plain.is_empty() => return Op::EqF(*g.pick(&plain)),
            12 if m.ninst > 0 => return Op::EqI(g.usize(m.ninst)),
            13 if !plain.is_empty() => return Op::Const(*g.pick(&plain)),
            14..=21 => {
                let n = [1, 1, 2, 3][g.usize(4)];
                let simple: Vec<usize> = (0..m.sels.len()).collect();
                let sel = if g.chance(1, 3) && !simple.is_empty() {
                    Some(if g.bool() { X::S(*g.pick(&simple)) } else { gen_x(g, m, 1, true) })
                } else {
                    None
                };
                let inner = match &sel {
                    Some(s) => m.simple(s) == Some(0) || g.chance(1, 12),
                    None => true,
                };
                let named = g.bool();
                let d = dep(g);
                let ps = (0..n).map(|_| Poly { name: if named { NAMES[g.usize(7)] } else { "" }, x: gen_x(g, m, d, inner) }).collect();
                return Op::Gate(NAMES[g.range(1, 6)], g.below(2), sel, ps);
            }
            22..=24 if !m.tabs.is_empty() => {
                let n = g.range(1, 3);
                let s = g.chance(1, 8);
                let d = dep(g).min(3);
                return Op::Lookup(NAMES[g.range(1, 6)], (0..n).map(|_| (gen_x(g, m, d, s), g.usize(m.tabs.len()))).collect());
            }
            25 | 26 => {
                let n = g.range(1, 3);
                let d = dep(g).min(3);
                return Op::LookupAny(NAMES[g.range(1, 6)], (0..n).map(|_| (gen_x(g, m, d, false), gen_x(g, m, d, false))).collect());
            }
            27 => return Op::MinDegree(g.range(1, 9)),
            28 if g.chance(1, 3) => return Op::EmptyGate("none"),
            _ => {}
        }
    }
}

fn history<F: FieldExt>(g: &mut G) -> R {
    let mut m = Model::<F>::new();
    let mut w = World::default();
    let mut cs = ConstraintSystem::<F>::default();
    let seed = g.u64();
    let mut before = look(&cs);
    let n = g.range(3, 24);
    let mut ops = vec![];
    let mut out = Ok(());
    for i in 0..n {
        let op = gen_op(g, &m);
        let ok = m.allowed(&op);
        ops.push(op.clone());
        let r = if ok {
            guarded(AssertUnwindSafe(|| apply(&op, &mut w, &mut cs)))
        } else {
            // on a copy: what a refused call leaves behind is nobody's business
            let (mut w2, mut cs2) = (w.clone(), cs.clone());
            let r = guarded(AssertUnwindSafe(|| apply(&op, &mut w2, &mut cs2)));
            g.class("misuse");
            if r.is_ok() {
                out = Err(Fail::from(format!("call {} was not refused", i)));
                break;
            }
            continue;
        };
        match r {
            Ok(at) => {
                if let Some(at) = at {
                    if at != m.lks.len() {
                        out = Err(Fail::from(format!("call {}: lookup {} got the index {}", i, m.lks.len(), at)));
                        break;
                    }
                }
            }
            Err(e) => {
                out = Err(Fail::from(format!("call {} panicked: {}", i, e)));
                break;
            }
        }
        m.apply(&op);
        if let Op::Gate(_, _, _, ps) = &op {
            g.class("gate");
            if ps.iter().any(|p| depth(&p.x) >= 3) {
                g.nontrivial();
            }
        }
        match compare(&m, &w, &cs, &before, seed.wrapping_add(i as u64)) {
            Ok(s) => before = s,
            Err(e) => {
                out = Err(Fail { msg: format!("after call {}: {}", i, e.msg), ..e });
                break;
            }
        }
    }
    g.evals(ops.len());
    g.desc(|| format!("{:?}", ops));
    out
}

/// expressions doing different calculations never share an identifier
fn identifiers<F: FieldExt>(g: &mut G) -> R {
    let mut m = Model::<F>::new();
    let mut w = World::default();
    let mut cs = ConstraintSystem::<F>::default();
    let base = [Op::Adv(0), Op::Adv(0), Op::Fix, Op::Fix, Op::Inst, Op::Sel(false), Op::Sel(false), Op::Chal(0), Op::Chal(0)];
    let more = g.below(12);
    for op in base.iter().cloned().chain((0..more).map(|_| Op::Adv(0))) {
        apply(&op, &mut w, &mut cs);
        m.apply(&op);
    }
    let n = g.range(2, 5);
    let mut xs: Vec<X<F>> = vec![];
    for _ in 0..n {
        let d = g.range(0, 3);
        xs.push(gen_x(g, &m, d, false));
    }
    // regroupings of the same pieces
    let (a, b, c) = (xs[0].clone(), xs[1].clone(), gen_x(g, &m, 0, false));
    let f: F = fe(g);
    let bx = |x: &X<F>| Box::new(x.clone());
    let all = vec![
        X::Add(bx(&a), bx(&b)),
        X::Sub(bx(&a), bx(&b)),
        X::Sub(bx(&b), bx(&a)),
        X::Mul(bx(&a), bx(&b)),
        X::Neg(bx(&a)),
        X::Scale(bx(&a), f),
        X::Scale(bx(&a), -f),
        X::Scale(Box::new(X::Add(bx(&a), bx(&b))), f),
        X::Add(Box::new(X::Scale(bx(&a), f)), bx(&b)),
        X::Add(bx(&a), Box::new(X::Scale(bx(&b), f))),
        X::Mul(Box::new(X::Add(bx(&a), bx(&b))), bx(&c)),
        X::Add(bx(&a), Box::new(X::Mul(bx(&b), bx(&c)))),
        X::Neg(Box::new(X::Add(bx(&a), bx(&b)))),
        X::Add(Box::new(X::Neg(bx(&a))), bx(&b)),
        X::Neg(Box::new(X::Mul(bx(&a), bx(&b)))),
        X::Scale(Box::new(X::Neg(bx(&a))), f),
        X::Add(bx(&a), Box::new(X::C(f))),
        X::Mul(bx(&a), Box::new(X::C(f))),
        X::Add(Box::new(X::Add(bx(&a), bx(&b))), bx(&c)),
        X::Sub(Box::new(X::Sub(bx(&a), bx(&b))), bx(&c)),
        X::Sub(bx(&a), Box::new(X::Sub(bx(&b), bx(&c)))),
    ];
    xs.extend(all);
    g.desc(|| format!("{:?}", xs));
    let ids = RefCell::new(vec![]);
    cs.create_gate("g", |v| {
        for x in &xs {
            let e = expr(x, &w, v);
            let again = expr(x, &w, v);
            ids.borrow_mut().push((e.identifier(), again.identifier(), e));
        }
        vec![Expression::Constant(F::one())]
    });
    let ids = ids.into_inner();
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for (i, (id, again, e)) in ids.iter().enumerate() {
        ensure_eq!(id, again, "identifier of the same expression");
        check_expr("expression", e, &xs[i], &w, &cs, g.u64())?;
        if let Some(j) = seen.insert(id.clone(), i) {
            for s in 0..4u64 {
                ensure_eq!(value(&xs[i], s), value(&xs[j], s), "{:?} and {:?} share the identifier {} but differ", xs[j], xs[i], id);
            }
        }
    }
    g.nontrivial();
    Ok(())
}

/// the order of columns and their conversions
fn columns(g: &mut G) -> R {
    let mut cs = ConstraintSystem::<Fr>::default();
    let mut all: Vec<(Column<Any>, (u8, u8, usize))> = vec![];
    let n = g.range(3, 14);
    let (mut na, mut nf, mut ni) = (0, 0, 0);
    let mut desc = String::new();
    let mut top = 0u8;
    for _ in 0..n {
        match g.below(5) {
            0 => {
                let c = cs.fixed_column();
                let any: Column<Any> = c.into();
                ensure!(Column::<Fixed>::try_from(any) == Ok(c), "fixed column");
                ensure!(Column::<Advice>::try_from(any).is_err() && Column::<Instance>::try_from(any).is_err(), "a fixed column converts");
                all.push((any, (2, 0, nf)));
                nf += 1;
                desc.push('f');
            }
            1 => {
                let c = cs.instance_column();
                let any: Column<Any> = c.into();
                ensure!(Column::<Instance>::try_from(any) == Ok(c), "instance column");
                ensure!(Column::<Advice>::try_from(any).is_err() && Column::<Fixed>::try_from(any).is_err(), "an instance column converts");
                all.push((any, (0, 0, ni)));
                ni += 1;
                desc.push('i');
            }
            _ => {
                let p = g.below(top as u64 + 1) as u8;
                let c = match p {
                    0 => cs.advice_column(),
                    1 => cs.advice_column_in(SecondPhase),
                    _ => cs.advice_column_in(ThirdPhase),
                };
                top = top.max((p + 1).min(2));
                let any: Column<Any> = c.into();
                ensure!(Column::<Advice>::try_from(any) == Ok(c), "advice column");
                ensure!(Column::<Fixed>::try_from(any).is_err() && Column::<Instance>::try_from(any).is_err(), "an advice column converts");
                all.push((any, (1, p, na)));
                na += 1;
                desc.push((b'0' + p) as char);
            }
        }
    }
    g.desc(|| desc.clone());
    if na > 0 && nf > 0 && ni > 0 {
        g.nontrivial();
    }
    for (a, ka) in &all {
        for (b, kb) in &all {
            ensure_eq!(a.cmp(b), ka.cmp(kb), "order of {:?} and {:?}", a, b);
            ensure_eq!(a.partial_cmp(b), Some(ka.cmp(kb)), "partial order of {:?} and {:?}", a, b);
            ensure_eq!(a == b, ka == kb, "equality of {:?} and {:?}", a, b);
        }
    }
    Ok(())
}

pub fn c32() -> Check {
    Check {
        id: "C32",
        rule: "a history with a gate whose expression is at least three operators deep; several regrouped expressions; columns of all kinds",
        assumptions: vec![],
        laws: vec![
            Law::new("configuration history", 700, 20000, history::<Fr>),
            Law::new("configuration history, other field", 300, 8000, history::<halo2curves::pasta::Fp>),
            Law::new("identifiers", 400, 8000, identifiers::<Fr>),
            Law::new("columns", 300, 3000, columns),
        ],
    }
}

// ------------------------------------------------------------------ C33

thread_local! {
    static OPS: RefCell<Vec<Op<Fr>>> = RefCell::new(vec![]);
}
struct EC;
impl Circuit<Fr> for EC {
    type Config = ();
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        EC
    }
    fn configure(cs: &mut ConstraintSystem<Fr>) {
        let ops = OPS.with(|o| o.borrow().clone());
        let mut w = World::default();
        for o in &ops {
            apply(o, &mut w, cs);
        }
    }
    fn synthesize(&self, _: (), _: impl Layouter<Fr>) -> Result<(), Error> {
        Ok(())
    }
}

/// values of printed expressions
struct Text<'a> {
    b: &'a [u8],
    i: usize,
    seed: u64,
    adv: &'a [u8],
    seen: BTreeSet<String>,
}
impl<'a> Text<'a> {
    fn ws(&mut self) {
        while self.b.get(self.i) == Some(&b' ') {
            self.i += 1
        }
    }
    fn sum(&mut self) -> Result<Fr, String> {
        let mut a = self.product()?;
        loop {
            self.ws();
            match self.b.get(self.i) {
                Some(b'+') => {
                    self.i += 1;
                    a += self.product()?
                }
                Some(b'-') => {
                    self.i += 1;
                    a -= self.product()?
                }
                _ => return Ok(a),
            }
        }
    }
    fn product(&mut self) -> Result<Fr, String> {
        let mut a = self.factor()?;
        loop {
            self.ws();
            if self.b.get(self.i) == Some(&b'*') {
                self.i += 1;
                a *= self.factor()?
            } else {
                return Ok(a);
            }
        }
    }
    fn int(&mut self) -> Result<i64, String> {
        let s = self.i;
        if self.b.get(self.i) == Some(&b'-') {
            self.i += 1
        }
        while self.b.get(self.i).map_or(false, |c| c.is_ascii_digit()) {
            self.i += 1
        }
        std::str::from_utf8(&self.b[s..self.i]).unwrap().parse().map_err(|_| format!("number at {}", s))
    }
    fn factor(&mut self) -> Result<Fr, String> {
        self.ws();
        let s = self.i;
        let c = *self.b.get(self.i).ok_or("ends early")?;
        match c {
            b'-' => {
                self.i += 1;
                Ok(-self.factor()?)
            }
            b'(' => {
                self.i += 1;
                let v = self.sum()?;
                self.ws();
                if self.b.get(self.i) != Some(&b')') {
                    return Err(format!("no closing parenthesis at {}", self.i));
                }
                self.i += 1;
                Ok(v)
            }
            b'0'..=b'9' => {
                if self.b[self.i..].starts_with(b"0x") {
                    self.i += 2;
                    let mut v = Fr::zero();
                    while let Some(d) = self.b.get(self.i).and_then(|c| (*c as char).to_digit(16)) {
                        v = v * Fr::from(16) + Fr::from(d as u64);
                        self.i += 1
                    }
                    Ok(v)
                } else {
                    Ok(Fr::from(self.int()? as u64))
                }
            }
            b'S' | b'C' | b'A' | b'F' | b'I' => {
                self.i += 1;
                let n = self.int()? as usize;
                let mut phase = None;
                if self.b.get(self.i) == Some(&b'(') {
                    self.i += 1;
                    phase = Some(self.int()?);
                    if self.b.get(self.i) != Some(&b')') {
                        return Err(format!("phase at {}", s));
                    }
                    self.i += 1;
                }
                let mut r = 0;
                if matches!(c, b'A' | b'F' | b'I') {
                    if self.b.get(self.i) != Some(&b'@') {
                        return Err(format!("rotation at {}", s));
                    }
                    self.i += 1;
                    r = self.int()? as i32;
                }
                if c == b'A' && phase.unwrap_or(0) != *self.adv.get(n).ok_or("no such column")? as i64 {
                    return Err(format!("phase of A{}", n));
                }
                self.seen.insert(String::from_utf8(self.b[s..self.i].to_vec()).unwrap());
                let k = b"AFICS".iter().position(|x| *x == c).unwrap() as u64;
                Ok(leaf(self.seed, k, n, r))
            }
            _ => Err(format!("unexpected {:?} at {}", c as char, self.i)),
        }
    }
}

fn gates(g: &mut G) -> R {
    let mut m = Model::<Fr>::new();
    let n = g.range(4, 16);
    let mut ops = vec![];
    for _ in 0..n {
        let op = gen_op(g, &m);
        if m.allowed(&op) {
            m.apply(&op);
            ops.push(op);
        }
    }
    g.desc(|| format!("{:?}", ops));
    OPS.with(|o| *o.borrow_mut() = ops);
    let cg = match guarded(|| CircuitGates::collect::<Fr, EC>()) {
        Ok(c) => c,
        Err(e) => fail!("collecting the gates panicked: {}", e),
    };
    let text = format!("{}", cg);
    let mut lines = text.lines();
    let mut next = |what: &str| lines.next().ok_or(Fail::from(format!("the text ends before {}: {}", what, text)));
    let seed = g.u64();
    let mut tot = [0usize; 3];
    let mut queries: Vec<(String, BTreeSet<String>)> = vec![];
    for (name, ps) in &m.gates {
        ensure_eq!(next("a gate")?, format!("{}:", name), "name of a gate");
        for p in ps {
            let line = if p.name.is_empty() {
                match next("a constraint")?.strip_prefix("- ") {
                    Some(l) => l,
                    None => fail!("constraint line in {}", text),
                }
            } else {
                ensure_eq!(next("a constraint")?, format!("- {}:", p.name), "name of a constraint");
                next("an expression")?
            };
            let mut seen = BTreeSet::new();
            for s in [seed, seed ^ 99, seed.rotate_left(9)] {
                let mut t = Text { b: line.as_bytes(), i: 0, seed: s, adv: &m.adv, seen: BTreeSet::new() };
                let v = match t.sum() {
                    Ok(v) if t.i == line.len() => v,
                    Ok(_) => fail!("unreadable after {}: {}", t.i, line),
                    Err(e) => fail!("unreadable ({}): {}", e, line),
                };
                ensure_eq!(v, value(&p.x, s), "the printed constraint {} of {:?} has another value", line, p.x);
                seen = t.seen;
            }
            let mut l = vec![];
            p.x.leaves(&mut l);
            let want: BTreeSet<String> = l
                .iter()
                .filter_map(|x| match x {
                    X::A(i, r) => Some(if m.adv[*i] == 0 { format!("A{}@{}", i, r) } else { format!("A{}({})@{}", i, m.adv[*i], r) }),
                    X::F(i, r) => Some(format!("F{}@{}", i, r)),
                    X::I(i, r) => Some(format!("I{}@{}", i, r)),
                    X::Ch(i) => Some(format!("C{}({})", i, m.chals[*i])),
                    X::S(i) => Some(format!("S{}", i)),
                    _ => None,
                })
                .collect();
            ensure_eq!(seen, want, "cells in {}", line);
            queries.push((format!("{}/{}", name, p.name), want));
            for (t, c) in tot.iter_mut().zip(count(&p.x)) {
                *t += c;
            }
            if depth(&p.x) >= 2 {
                g.nontrivial();
            }
        }
    }
    let np: usize = m.gates.iter().map(|x| x.1.len()).sum();
    for (what, v) in [("gates", m.gates.len()), ("custom constraint polynomials", np), ("negations", tot[0]), ("additions", tot[1]), ("multiplications", tot[2])] {
        ensure_eq!(next("the totals")?, format!("Total {}: {}", what, v), "totals");
    }
    ensure!(lines.next().is_none(), "more text than gates: {}", text);
    // the grid of queries
    let csv = cg.queries_to_csv();
    let mut rows = csv.lines();
    let mut head: Vec<&str> = rows.next().unwrap_or("").split(',').collect();
    ensure_eq!(head.pop(), Some("Name"), "last column of the grid");
    let all: BTreeSet<&str> = queries.iter().flat_map(|x| x.1.iter().map(|s| &s[..])).collect();
    ensure_eq!(head.iter().copied().collect::<BTreeSet<_>>(), all, "columns of the grid");
    ensure_eq!(head.len(), all.len(), "columns of the grid");
    for (name, q) in &queries {
        let row = match rows.next() {
            Some(r) => r,
            None => fail!("the grid ends before {}", name),
        };
        let mut f: Vec<&str> = row.split(',').collect();
        ensure_eq!(f.pop(), Some(&name[..]), "name of a row of the grid");
        let want: Vec<&str> = head.iter().map(|h| if q.contains(*h) { "1" } else { "0" }).collect();
        ensure_eq!(f, want, "row {} of the grid", name);
    }
    ensure!(rows.next().is_none(), "more rows than constraints");
    Ok(())
}

fn cost<S: Sys, GR, P: FloorPlanner>(g: &mut G) -> R
where
    KB: crate::transcripts::Kind<S::C>,
    GR: group::prime::PrimeGroup<Scalar = S::F>,
{
    let lookups = g.chance(2, 3);
    let spec: Arc<Spec<S::F>> = Arc::new(crate::rgen::gen(g, Opt { lookups, ..Opt::default() }));
    let mut sp = (*spec).clone();
    if g.chance(1, 4) {
        // without any copy constraint
        for r in &mut sp.regs {
            r.adv.values_mut().for_each(|x| {
                if matches!(x, crate::rcirc::Rule::Copy(..) | crate::rcirc::Rule::Inst(..) | crate::rcirc::Rule::Const(..) | crate::rcirc::Rule::FixCopy(..)) {
                    *x = crate::rcirc::Rule::Free
                }
            });
            r.eqs.clear();
        }
        sp.inst_outs.clear();
        sp.adv.iter_mut().for_each(|a| a.eq = false);
        sp.fix.iter_mut().for_each(|f| {
            f.eq = false;
            if f.kind == crate::rcirc::FixKind::Consts {
                f.kind = crate::rcirc::FixKind::Data
            }
        });
        sp.inst_eq.iter_mut().for_each(|e| *e = false);
        g.class("no equality");
    } else if g.bool() {
        // chunks of the permutation argument that are just full, or just not
        let n = sp.adv.iter().filter(|a| a.eq).count()
            + sp.fix.iter().filter(|f| f.eq || f.kind == crate::rcirc::FixKind::Consts).count()
            + sp.inst_eq.iter().filter(|e| **e).count();
        let chunk = n.max(1) / g.range(1, 2).min(n.max(1)) + g.usize(3);
        sp.min_degree = Some((chunk + 1).min(9));
        g.class("chunks");
    }
    let spec = Arc::new(sp);
    let (c, k) = build::<S::F, P>(spec.clone(), g.u64(), if g.chance(1, 4) { 1 } else { 0 });
    set_spec(&spec);
    classes(g, &spec);
    let copies = g.range(1, 3);
    let cs: Vec<RC<S::F, P>> = (0..copies).map(|i| if i == 0 { c.clone() } else { c.with_seed(g.u64()) }).collect();
    let inst: Vec<Vec<Vec<S::F>>> = cs.iter().map(|c| c.inst.clone()).collect();
    g.desc(|| format!("k={} copies={} {:?}", k, copies, spec));
    let p = S::params(k);
    let proof = match guarded(|| {
        let pk = S::pk2(&p, &cs[0])?;
        S::prove::<KB, _>(&p, &pk, &cs, &inst, Rng(g.xo()))
    }) {
        Ok(Ok(p)) => p,
        e => fail!("proving failed: {:?}", e.map(|r| r.err())),
    };
    let said = guarded(|| {
        let m = CircuitCost::<GR, RC<S::F, P>>::measure(k as usize, &cs[0]);
        let one: usize = m.marginal_proof_size().into();
        let all: Vec<usize> = (0..=copies + 1).map(|i| m.proof_size(i).into()).collect();
        (one, all)
    });
    let (one, all) = match said {
        Ok(x) => x,
        Err(e) => fail!("measuring the cost panicked: {}", e),
    };
    ensure_eq!(all[copies], proof.len(), "size of a proof of {} instances", copies);
    for i in 0..=copies {
        ensure_eq!(all[i + 1] - all[i], one, "size per instance");
    }
    Ok(())
}

pub fn c33() -> Check {
    use halo2curves::pasta::{Ep, Eq};
    Check {
        id: "C33",
        rule: "a printed constraint with nested operators; a circuit with an active gate or lookup",
        assumptions: vec![],
        laws: vec![
            Law::new("printed gates", 800, 20000, gates),
            Law::new("proof size eq", 30, 600, |g| if g.bool() { cost::<IpaEq, Eq, V1>(g) } else { cost::<IpaEq, Eq, SimpleFloorPlanner>(g) }).shrink(100),
            Law::new("proof size ep", 15, 300, |g| if g.bool() { cost::<IpaEp, Ep, V1>(g) } else { cost::<IpaEp, Ep, SimpleFloorPlanner>(g) }).shrink(100),
        ],
    }
}

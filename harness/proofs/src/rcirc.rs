//! Generated circuits.  A `Spec` describes columns, gates, lookups, regions and how every cell
//! gets its value; `RC` is a circuit that configures and synthesizes any spec (the spec in force
//! is a thread-local because `Circuit::configure` has no receiver).
use crate::util::*;
use ff::Field;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use std::any::Any as StdAny;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::sync::Arc;
use vh_common::*;

#[derive(Clone, Debug, PartialEq)]
pub enum X<F> {
    A(usize, i32),
    F(usize, i32),
    I(usize, i32),
    Ch(usize),
    S(usize),
    C(F),
    Neg(Box<X<F>>),
    Add(Box<X<F>>, Box<X<F>>),
    Sub(Box<X<F>>, Box<X<F>>),
    Mul(Box<X<F>>, Box<X<F>>),
    Scale(Box<X<F>>, F),
}
impl<F: Clone> X<F> {
    pub fn leaves<'a>(&'a self, out: &mut Vec<&'a X<F>>) {
        match self {
            X::Neg(a) | X::Scale(a, _) => a.leaves(out),
            X::Add(a, b) | X::Sub(a, b) | X::Mul(a, b) => {
                a.leaves(out);
                b.leaves(out)
            }
            l => out.push(l),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Co {
    A(usize),
    F(usize),
}
/// region, column, offset
pub type Id = (usize, Co, usize);

#[derive(Clone, Debug)]
pub struct Adv {
    pub phase: u8,
    pub eq: bool,
    /// 0: any value, m: values below m
    pub small: u64,
    pub rank: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum FixKind {
    Data,
    Gating,
    Consts,
}
#[derive(Clone, Debug)]
pub struct Fix {
    pub eq: bool,
    pub kind: FixKind,
}
#[derive(Clone, Debug)]
pub enum Unit {
    /// index into the selectors
    Sel(usize),
    /// fixed column
    Fix(usize),
}
#[derive(Clone, Debug)]
pub enum Poly<F> {
    /// unit * (out - e), the out cell is computed
    Out { col: usize, rot: i32, e: X<F> },
    /// unit * a (1-a) .. (m-1-a)
    Small { col: usize, rot: i32, m: u64 },
}
#[derive(Clone, Debug)]
pub struct Gate<F> {
    pub unit: usize,
    pub style: u64,
    pub fac: Option<X<F>>,
    pub polys: Vec<Poly<F>>,
}
#[derive(Clone, Debug)]
pub enum Tab<F> {
    /// table, columns of it
    Static(usize, Vec<usize>),
    Any { unit: usize, exprs: Vec<X<F>> },
}
#[derive(Clone, Debug)]
pub struct Lk<F> {
    pub unit: usize,
    pub ins: Vec<(usize, i32, X<F>)>,
    pub tab: Tab<F>,
}
#[derive(Clone, Debug)]
pub struct Table<F> {
    /// indices of table columns
    pub cols: Vec<usize>,
    pub rows: Vec<Vec<F>>,
}
#[derive(Clone, Debug)]
pub enum Src {
    Row(usize),
    At(usize, usize),
}
#[derive(Clone, Debug)]
pub enum Rule<F> {
    Free,
    Copy(Id, bool),
    Inst(usize, usize, bool),
    Const(F, bool),
    FixCopy(Id),
    /// gate, poly, activation offset
    Gate(usize, usize, usize),
    /// lookup, component, where in the table, activation offset
    Look(usize, usize, Src, usize),
}
#[derive(Clone, Debug)]
pub struct Reg<F> {
    pub adv: BTreeMap<(usize, usize), Rule<F>>,
    pub fix: BTreeMap<(usize, usize), F>,
    pub sels: BTreeSet<(usize, usize)>,
    pub eqs: Vec<(Id, Id)>,
    pub back: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Item {
    Reg(usize),
    Tab(usize),
}
#[derive(Clone, Debug)]
pub struct Spec<F> {
    pub adv: Vec<Adv>,
    pub fix: Vec<Fix>,
    pub inst: Vec<usize>,
    pub inst_eq: Vec<bool>,
    pub out_inst: Option<usize>,
    pub chals: Vec<u8>,
    pub sels: Vec<bool>,
    pub ntab: usize,
    pub tab_first: bool,
    pub units: Vec<Unit>,
    pub gates: Vec<Gate<F>>,
    pub lks: Vec<Lk<F>>,
    pub tables: Vec<Table<F>>,
    pub regs: Vec<Reg<F>>,
    pub items: Vec<Item>,
    pub inst_outs: Vec<(Id, usize)>,
    pub min_degree: Option<usize>,
    pub namespaces: bool,
}

thread_local! {
    static SPEC: RefCell<Option<Box<dyn StdAny>>> = RefCell::new(None);
    static CHALS: RefCell<Option<Box<dyn StdAny>>> = RefCell::new(None);
}
/// the challenges the last synthesis of this thread was given
pub fn last_challenges<F: FieldExt>() -> Vec<F> {
    CHALS.with(|x| {
        let mut v = x.borrow().as_ref().unwrap().downcast_ref::<Vec<(usize, F)>>().unwrap().clone();
        v.sort_by_key(|x| x.0);
        v.into_iter().map(|x| x.1).collect()
    })
}
pub fn set_spec<F: FieldExt>(s: &Arc<Spec<F>>) {
    SPEC.with(|x| *x.borrow_mut() = Some(Box::new(s.clone())));
}
fn spec<F: FieldExt>() -> Arc<Spec<F>> {
    SPEC.with(|x| x.borrow().as_ref().unwrap().downcast_ref::<Arc<Spec<F>>>().unwrap().clone())
}

// ------------------------------------------------------------------ circuit

#[derive(Clone)]
pub struct Config {
    pub adv: Vec<Column<Advice>>,
    pub fix: Vec<Column<Fixed>>,
    pub inst: Vec<Column<Instance>>,
    pub sels: Vec<Selector>,
    pub chals: Vec<Challenge>,
    pub tabs: Vec<TableColumn>,
}

pub struct RC<F: FieldExt, P> {
    pub spec: Arc<Spec<F>>,
    pub seed: u64,
    pub known: bool,
    pub inst: Vec<Vec<F>>,
    pub starts: Vec<usize>,
    pub n: usize,
    pub over: BTreeMap<Id, F>,
    pub omit: Option<Id>,
    pub _p: PhantomData<P>,
}
impl<F: FieldExt, P> Clone for RC<F, P> {
    fn clone(&self) -> Self {
        RC { spec: self.spec.clone(), seed: self.seed, known: self.known, inst: self.inst.clone(), starts: self.starts.clone(), n: self.n, over: self.over.clone(), omit: self.omit, _p: PhantomData }
    }
}

fn expr<F: FieldExt>(e: &X<F>, c: &Config, m: &mut VirtualCells<F>) -> Expression<F> {
    match e {
        X::A(i, r) => m.query_advice(c.adv[*i], Rotation(*r)),
        X::F(i, r) => m.query_fixed(c.fix[*i], Rotation(*r)),
        X::I(i, r) => m.query_instance(c.inst[*i], Rotation(*r)),
        X::Ch(i) => m.query_challenge(c.chals[*i]),
        X::S(i) => m.query_selector(c.sels[*i]),
        X::C(f) => Expression::Constant(*f),
        X::Neg(a) => -expr(a, c, m),
        X::Add(a, b) => {
            let a = expr(a, c, m);
            a + expr(b, c, m)
        }
        X::Sub(a, b) => {
            let a = expr(a, c, m);
            a - expr(b, c, m)
        }
        X::Mul(a, b) => {
            let a = expr(a, c, m);
            a * expr(b, c, m)
        }
        X::Scale(a, f) => expr(a, c, m) * *f,
    }
}
fn unit_expr<F: FieldExt>(s: &Spec<F>, u: usize, c: &Config, m: &mut VirtualCells<F>) -> Expression<F> {
    match &s.units[u] {
        Unit::Sel(i) => m.query_selector(c.sels[*i]),
        Unit::Fix(i) => m.query_fixed(c.fix[*i], Rotation::cur()),
    }
}
pub const NAMES: [&str; 6] = ["alpha", "beta", "gamma", "delta", "eps", "zeta"];

pub fn configure<F: FieldExt>(s: &Spec<F>, cs: &mut ConstraintSystem<F>) -> Config {
    let mut adv: Vec<Option<Column<Advice>>> = vec![None; s.adv.len()];
    let mut tabs = vec![];
    let mut chals: Vec<Option<Challenge>> = vec![None; s.chals.len()];
    if s.tab_first {
        tabs = (0..s.ntab).map(|_| cs.lookup_table_column()).collect();
    }
    let inst: Vec<_> = s.inst.iter().map(|_| cs.instance_column()).collect();
    for p in 0..3u8 {
        for (i, a) in s.adv.iter().enumerate() {
            if a.phase == p {
                adv[i] = Some(match p {
                    0 => cs.advice_column(),
                    1 => cs.advice_column_in(SecondPhase),
                    _ => cs.advice_column_in(ThirdPhase),
                });
            }
        }
        for (i, &q) in s.chals.iter().enumerate() {
            if q == p {
                chals[i] = Some(match p {
                    0 => cs.challenge_usable_after(FirstPhase),
                    1 => cs.challenge_usable_after(SecondPhase),
                    _ => cs.challenge_usable_after(ThirdPhase),
                });
            }
        }
    }
    let fix: Vec<_> = s.fix.iter().map(|_| cs.fixed_column()).collect();
    if !s.tab_first {
        tabs = (0..s.ntab).map(|_| cs.lookup_table_column()).collect();
    }
    let sels: Vec<_> = s.sels.iter().map(|&c| if c { cs.complex_selector() } else { cs.selector() }).collect();
    let c = Config { adv: adv.into_iter().map(|x| x.unwrap()).collect(), fix, inst, sels, chals: chals.into_iter().map(|x| x.unwrap()).collect(), tabs };
    for (i, f) in s.fix.iter().enumerate() {
        if f.kind == FixKind::Consts {
            cs.enable_constant(c.fix[i]);
        }
        if f.eq {
            cs.enable_equality(c.fix[i]);
        }
    }
    for (i, a) in s.adv.iter().enumerate() {
        if a.eq {
            cs.enable_equality(c.adv[i]);
        }
    }
    for (i, e) in s.inst_eq.iter().enumerate() {
        if *e {
            cs.enable_equality(c.inst[i]);
        }
    }
    for (gi, g) in s.gates.iter().enumerate() {
        let name = NAMES[gi % NAMES.len()];
        let body = |m: &mut VirtualCells<F>| -> Vec<Expression<F>> {
            g.polys
                .iter()
                .map(|p| match p {
                    Poly::Out { col, rot, e } => {
                        let o = m.query_advice(c.adv[*col], Rotation(*rot));
                        let e = expr(e, &c, m);
                        let d = o - e;
                        match &g.fac {
                            Some(f) => expr(f, &c, m) * d,
                            None => d,
                        }
                    }
                    Poly::Small { col, rot, m: k } => {
                        let a = m.query_advice(c.adv[*col], Rotation(*rot));
                        let mut r = a.clone();
                        for v in 1..*k {
                            r = r * (Expression::Constant(F::from(v)) - a.clone());
                        }
                        r
                    }
                })
                .collect()
        };
        let simple = matches!(s.units[g.unit], Unit::Sel(i) if !s.sels[i]);
        match g.style % 5 {
            0 => cs.create_gate(name, |m| {
                let u = unit_expr(s, g.unit, &c, m);
                body(m).into_iter().map(|d| u.clone() * d).collect::<Vec<_>>()
            }),
            1 => cs.create_gate(name, |m| {
                let b = body(m);
                let u = unit_expr(s, g.unit, &c, m);
                b.into_iter().enumerate().map(|(i, d)| (NAMES[(i + 1) % 6], d * u.clone())).collect::<Vec<_>>()
            }),
            2 => cs.create_gate(name, |m| {
                let u = unit_expr(s, g.unit, &c, m);
                let b = body(m);
                Constraints::with_selector(u, b)
            }),
            3 if !simple => cs.create_gate(name, |m| {
                // the same constraint written as a sum
                let u = unit_expr(s, g.unit, &c, m);
                let b = body(m);
                b.into_iter().map(|d| u.clone() * d.clone() * F::from(3) - (d * F::from(2)) * u.clone()).collect::<Vec<_>>()
            }),
            _ => cs.create_gate(name, |m| {
                let u = unit_expr(s, g.unit, &c, m);
                let b = body(m);
                b.into_iter().map(|d| -(u.clone() * d) * F::from(5)).collect::<Vec<_>>()
            }),
        }
    }
    for (li, l) in s.lks.iter().enumerate() {
        let name = NAMES[(li + 3) % 6];
        match &l.tab {
            Tab::Static(t, cols) => {
                let t = &s.tables[*t];
                cs.lookup(name, |m| {
                    let q = unit_expr(s, l.unit, &c, m);
                    l.ins
                        .iter()
                        .zip(cols)
                        .map(|((col, rot, e), &tc)| {
                            let o = m.query_advice(c.adv[*col], Rotation(*rot));
                            let v = expr(e, &c, m) + o;
                            let d = t.rows[0][tc];
                            let e = q.clone() * v + (Expression::Constant(F::one()) - q.clone()) * d;
                            (e, c.tabs[t.cols[tc]])
                        })
                        .collect()
                });
            }
            Tab::Any { unit, exprs } => {
                cs.lookup_any(name, |m| {
                    let q = unit_expr(s, l.unit, &c, m);
                    let p = unit_expr(s, *unit, &c, m);
                    l.ins
                        .iter()
                        .zip(exprs)
                        .map(|((col, rot, e), te)| {
                            let o = m.query_advice(c.adv[*col], Rotation(*rot));
                            let v = expr(e, &c, m) + o;
                            (q.clone() * v, p.clone() * expr(te, &c, m))
                        })
                        .collect()
                });
            }
        }
    }
    if let Some(d) = s.min_degree {
        cs.set_minimum_degree(d);
    }
    c
}

fn mix(seed: u64, a: u64, b: u64, c: u64) -> Xo {
    let mut s = seed ^ a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.rotate_left(21).wrapping_mul(0xBF58476D1CE4E5B9) ^ c.rotate_left(43).wrapping_mul(0x94D049BB133111EB);
    Xo::new(splitmix(&mut s))
}
fn some_value<F: FieldExt>(mut x: Xo) -> F {
    match x.next() % 8 {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(x.next() % 20),
        _ => F::random(Rng(x)),
    }
}

enum H<F: FieldExt> {
    V(AssignedCell<F, F>),
    R(AssignedCell<Assigned<F>, F>),
}
impl<F: FieldExt> H<F> {
    fn cell(&self) -> Cell {
        match self {
            H::V(a) => a.cell(),
            H::R(a) => a.cell(),
        }
    }
}

impl<F: FieldExt, P> RC<F, P> {
    fn leaf(&self, e: &X<F>, r: usize, o: usize, ch: &[Value<F>], v: &BTreeMap<Id, Value<F>>) -> Value<F> {
        let s = &self.spec;
        let at = |rot: i32| (o as i64 + rot as i64) as usize;
        match e {
            X::A(c, rot) => v[&(r, Co::A(*c), at(*rot))],
            X::F(c, rot) => Value::known(s.regs[r].fix[&(*c, at(*rot))]),
            X::I(c, rot) => {
                if !self.known || self.starts.is_empty() {
                    return Value::unknown();
                }
                let row = (self.starts[r] as i64 + o as i64 + *rot as i64).rem_euclid(self.n as i64) as usize;
                Value::known(self.inst[*c].get(row).copied().unwrap_or(F::zero()))
            }
            X::Ch(i) => ch[*i],
            X::S(i) => Value::known(if s.regs[r].sels.contains(&(*i, o)) { F::one() } else { F::zero() }),
            X::C(f) => Value::known(*f),
            X::Neg(a) => self.leaf(a, r, o, ch, v).map(|x| -x),
            X::Add(a, b) => self.leaf(a, r, o, ch, v).zip(self.leaf(b, r, o, ch, v)).map(|(a, b)| a + b),
            X::Sub(a, b) => self.leaf(a, r, o, ch, v).zip(self.leaf(b, r, o, ch, v)).map(|(a, b)| a - b),
            X::Mul(a, b) => self.leaf(a, r, o, ch, v).zip(self.leaf(b, r, o, ch, v)).map(|(a, b)| a * b),
            X::Scale(a, f) => self.leaf(a, r, o, ch, v).map(|x| x * f),
        }
    }
    pub fn eval(&self, ch: &[Value<F>]) -> BTreeMap<Id, Value<F>> {
        let s = &self.spec;
        let mut v: BTreeMap<Id, Value<F>> = BTreeMap::new();
        for (r, reg) in s.regs.iter().enumerate() {
            let mut cells: Vec<_> = reg.adv.iter().collect();
            cells.sort_by_key(|((c, o), _)| (s.adv[*c].rank, *c, *o));
            for (&(c, o), rule) in cells {
                let x = match rule {
                    Rule::Free => {
                        if !self.known {
                            Value::unknown()
                        } else {
                            let mut x = mix(self.seed, r as u64 + 1, c as u64 + 1, o as u64 + 1);
                            if s.adv[c].small > 0 {
                                Value::known(F::from(x.next() % s.adv[c].small))
                            } else {
                                Value::known(some_value(x))
                            }
                        }
                    }
                    Rule::Copy(id, _) => v[id],
                    Rule::Inst(i, row, _) => {
                        if self.known {
                            Value::known(self.inst[*i][*row])
                        } else {
                            Value::unknown()
                        }
                    }
                    Rule::Const(f, _) => Value::known(*f),
                    Rule::FixCopy((r, Co::F(c), o)) => Value::known(s.regs[*r].fix[&(*c, *o)]),
                    Rule::FixCopy(_) => unreachable!(),
                    Rule::Gate(g, p, at) => match &s.gates[*g].polys[*p] {
                        Poly::Out { e, .. } => self.leaf(e, r, *at, ch, &v),
                        _ => unreachable!(),
                    },
                    Rule::Look(l, j, src, at) => {
                        let l = &s.lks[*l];
                        let t = match (&l.tab, src) {
                            (Tab::Static(t, cols), Src::Row(k)) => Value::known(s.tables[*t].rows[*k][cols[*j]]),
                            (Tab::Any { exprs, .. }, Src::At(tr, to)) => self.leaf(&exprs[*j], *tr, *to, ch, &v),
                            _ => unreachable!(),
                        };
                        t.zip(self.leaf(&l.ins[*j].2, r, *at, ch, &v)).map(|(a, b)| a - b)
                    }
                };
                v.insert((r, Co::A(c), o), x);
            }
        }
        v
    }
    fn rational(&self, id: Id, v: Value<F>) -> Value<Assigned<F>> {
        let (c, o) = match id.1 {
            Co::A(c) => (c as u64, id.2 as u64),
            Co::F(c) => (c as u64 + 100, id.2 as u64),
        };
        let mut x = mix(0x5eed, id.0 as u64, c, o);
        let k = x.next() % 6;
        let d = F::from(2 + x.next() % 1000);
        v.map(|v| match k {
            0 => Assigned::Rational(v * d, d),
            1 if v == F::zero() => Assigned::Rational(d, F::zero()),
            2 if v == F::zero() => Assigned::Zero,
            _ => Assigned::Trivial(v),
        })
    }
}

impl<F: FieldExt, P: FloorPlanner> Circuit<F> for RC<F, P> {
    type Config = Config;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        let mut c = self.clone();
        c.known = false;
        c
    }
    fn configure(cs: &mut ConstraintSystem<F>) -> Config {
        configure(&spec::<F>(), cs)
    }
    fn synthesize(&self, c: Config, mut layouter: impl Layouter<F>) -> Result<(), Error> {
        let s = &self.spec;
        let ch: Vec<Value<F>> = c.chals.iter().map(|&x| layouter.get_challenge(x)).collect();
        let mut known: Vec<(usize, F)> = vec![];
        for (c, v) in c.chals.iter().zip(&ch) {
            v.map(|v| known.push((c.index(), v)));
        }
        CHALS.with(|x| *x.borrow_mut() = Some(Box::new(known)));
        let vals = self.eval(&ch);
        let mut cells: HashMap<Id, H<F>> = HashMap::new();
        for it in &s.items {
            match it {
                Item::Tab(t) => {
                    let t = &s.tables[*t];
                    layouter.assign_table(
                        || "table",
                        |mut tab| {
                            for (j, &tc) in t.cols.iter().enumerate() {
                                for (k, row) in t.rows.iter().enumerate() {
                                    tab.assign_cell(|| "t", c.tabs[tc], k, || Value::known(row[j]))?;
                                }
                            }
                            Ok(())
                        },
                    )?;
                }
                Item::Reg(r) => {
                    let r = *r;
                    let reg = &s.regs[r];
                    let cells_ref = &cells;
                    let assign = |mut region: Region<'_, F>| -> Result<Vec<(Id, H<F>)>, Error> {
                        let mut local: HashMap<Id, H<F>> = HashMap::new();
                        for &(sel, o) in &reg.sels {
                            c.sels[sel].enable(&mut region, o)?;
                        }
                        let mut order: Vec<(Co, usize)> = reg.fix.keys().map(|&(c, o)| (Co::F(c), o)).collect();
                        let mut a: Vec<_> = reg.adv.keys().copied().collect();
                        a.sort_by_key(|(c, o)| (s.adv[*c].rank, *c, *o));
                        order.extend(a.into_iter().map(|(c, o)| (Co::A(c), o)));
                        for (co, o) in order {
                            let id = (r, co, o);
                            if self.omit == Some(id) {
                                continue;
                            }
                            match co {
                                Co::F(k) => {
                                    let v = Value::known(self.over.get(&id).copied().unwrap_or(reg.fix[&(k, o)]));
                                    let h = region.assign_fixed(|| "f", c.fix[k], o, || self.rational(id, v))?;
                                    local.insert(id, H::R(h));
                                }
                                Co::A(k) => {
                                    let rule = &reg.adv[&(k, o)];
                                    let ov = self.over.get(&id).copied();
                                    let v = match ov {
                                        Some(f) if self.known => Value::known(f),
                                        _ => vals[&id],
                                    };
                                    let col = c.adv[k];
                                    let plain = |region: &mut Region<'_, F>| region.assign_advice(|| "a", col, o, || self.rational(id, v));
                                    let get = |local: &HashMap<Id, H<F>>, id: &Id| -> Option<Cell> { local.get(id).or_else(|| cells_ref.get(id)).map(|h| h.cell()) };
                                    match rule {
                                        Rule::Copy(src, true) if ov.is_none() => {
                                            let src = match local.get(src).or_else(|| cells_ref.get(src)) {
                                                Some(s) => s,
                                                None => {
                                                    // the source was left out
                                                    let h = plain(&mut region)?;
                                                    local.insert(id, H::R(h));
                                                    continue;
                                                }
                                            };
                                            let h = match src {
                                                H::V(a) => H::V(a.copy_advice(|| "c", &mut region, col, o)?),
                                                H::R(a) => H::R(a.copy_advice(|| "c", &mut region, col, o)?),
                                            };
                                            local.insert(id, h);
                                        }
                                        Rule::Copy(src, _) | Rule::FixCopy(src) => {
                                            let h = plain(&mut region)?;
                                            if let Some(x) = get(&local, src) {
                                                if reg.back {
                                                    region.constrain_equal(x, h.cell())?;
                                                } else {
                                                    region.constrain_equal(h.cell(), x)?;
                                                }
                                            }
                                            local.insert(id, H::R(h));
                                        }
                                        Rule::Inst(i, row, true) if ov.is_none() => {
                                            let h = region.assign_advice_from_instance(|| "i", c.inst[*i], *row, col, o)?;
                                            local.insert(id, H::V(h));
                                        }
                                        Rule::Const(f, true) if ov.is_none() => {
                                            let h = region.assign_advice_from_constant(|| "k", col, o, *f)?;
                                            local.insert(id, H::V(h));
                                        }
                                        Rule::Const(f, _) => {
                                            let h = plain(&mut region)?;
                                            region.constrain_constant(h.cell(), *f)?;
                                            local.insert(id, H::R(h));
                                        }
                                        _ => {
                                            let h = plain(&mut region)?;
                                            local.insert(id, H::R(h));
                                        }
                                    }
                                }
                            }
                        }
                        for (a, b) in &reg.eqs {
                            let f = |id: &Id| local.get(id).or_else(|| cells_ref.get(id)).map(|h| h.cell());
                            if let (Some(a), Some(b)) = (f(a), f(b)) {
                                region.constrain_equal(a, b)?;
                            }
                        }
                        Ok(local.into_iter().collect())
                    };
                    let name = || NAMES[r % 6];
                    let got = if s.namespaces && r % 2 == 1 { layouter.namespace(|| "ns").assign_region(name, assign)? } else { layouter.assign_region(name, assign)? };
                    cells.extend(got);
                    for (&(k, o), rule) in &reg.adv {
                        let id = (r, Co::A(k), o);
                        if let Rule::Inst(i, row, style) = rule {
                            if !*style || self.over.contains_key(&id) {
                                if let Some(h) = cells.get(&id) {
                                    layouter.constrain_instance(h.cell(), c.inst[*i], *row)?;
                                }
                            }
                        }
                    }
                }
            }
        }
        for (id, row) in &s.inst_outs {
            if let Some(h) = cells.get(id) {
                layouter.constrain_instance(h.cell(), c.inst[s.out_inst.unwrap()], *row)?;
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ recorder

/// Records everything a floor planner asks for.
#[derive(Clone, Debug, PartialEq)]
pub enum Ev<F> {
    Enter(String),
    Exit,
    Sel(String, usize),
    Adv(usize, usize, Option<F>),
    Fix(usize, usize, Option<F>),
    Copy((u8, usize), usize, (u8, usize), usize),
    Fill(usize, usize, Option<F>),
}
pub struct Rec<F: FieldExt> {
    pub ev: Vec<Ev<F>>,
    pub usable: usize,
    pub inst: Vec<Vec<F>>,
    pub chals: Vec<F>,
}
pub fn ck(c: Column<Any>) -> (u8, usize) {
    (
        match c.column_type() {
            Any::Advice(_) => 0,
            Any::Fixed => 1,
            Any::Instance => 2,
        },
        c.index(),
    )
}
fn opt<F: Field, VR: Into<Assigned<F>>>(v: Value<VR>) -> Option<F> {
    let mut r = None;
    v.map(|x| r = Some(x.into().evaluate()));
    r
}
impl<F: FieldExt> Assignment<F> for Rec<F> {
    fn enter_region<NR, N>(&mut self, name: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.ev.push(Ev::Enter(name().into()))
    }
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn exit_region(&mut self) {
        self.ev.push(Ev::Exit)
    }
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.ev.push(Ev::Sel(format!("{:?}", s), row));
        Ok(())
    }
    fn query_instance(&self, c: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        Ok(match self.inst.get(c.index()).and_then(|c| c.get(row)) {
            Some(v) => Value::known(*v),
            None => Value::unknown(),
        })
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, c: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.ev.push(Ev::Adv(c.index(), row, opt(to())));
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, c: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.ev.push(Ev::Fix(c.index(), row, opt(to())));
        Ok(())
    }
    fn copy(&mut self, a: Column<Any>, ar: usize, b: Column<Any>, br: usize) -> Result<(), Error> {
        if ar >= self.usable || br >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.ev.push(Ev::Copy(ck(a), ar, ck(b), br));
        Ok(())
    }
    fn fill_from_row(&mut self, c: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.ev.push(Ev::Fill(c.index(), row, opt(to)));
        Ok(())
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        match self.chals.get(c.index()) {
            Some(v) => Value::known(*v),
            None => Value::unknown(),
        }
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

/// run the floor planner of `c` with room for everything
pub fn record<F: FieldExt, P: FloorPlanner>(c: &RC<F, P>, usable: usize, chals: Vec<F>) -> (Result<(), Error>, Vec<Ev<F>>, ConstraintSystem<F>, Config) {
    set_spec(&c.spec);
    let mut cs = ConstraintSystem::default();
    let cfg = RC::<F, P>::configure(&mut cs);
    let mut rec = Rec { ev: vec![], usable, inst: if c.known { c.inst.clone() } else { vec![] }, chals };
    let r = P::synthesize(&mut rec, c, cfg.clone(), cs.constants().clone());
    (r, rec.ev, cs, cfg)
}

/// index of a selector as the constraint system numbers it
pub fn sel_name(s: &Selector) -> String {
    format!("{:?}", s)
}

impl<F: FieldExt, P: FloorPlanner> RC<F, P> {
    /// zero public inputs for another spec
    pub fn inst_for(&self, s: &Spec<F>) -> Vec<Vec<F>> {
        s.inst.iter().map(|l| vec![F::zero(); *l]).collect()
    }
    /// same circuit, other witness
    pub fn with_seed(&self, seed: u64) -> Self {
        let mut c = self.clone();
        c.seed = seed;
        c.known = true;
        let s = self.spec.clone();
        c.inst = s.inst.iter().enumerate().map(|(i, &l)| (0..l).map(|j| some_value(mix(seed ^ 0x1257, i as u64, j as u64, 7))).collect()).collect();
        if let Some(o) = s.out_inst {
            let ch = vec![Value::unknown(); s.chals.len()];
            let v = c.eval(&ch);
            for (id, row) in &s.inst_outs {
                let mut r = None;
                v[id].map(|x| r = Some(x));
                c.inst[o][*row] = r.expect("instance output depends on phase 0 only");
            }
        }
        c
    }
}

/// Lay the spec out (planner P), pick the size, make the circuit with witness `seed`.
pub fn build<F: FieldExt, P: FloorPlanner>(spec: Arc<Spec<F>>, seed: u64, slack: u32) -> (RC<F, P>, u32) {
    let mut c: RC<F, P> = RC { spec: spec.clone(), seed, known: false, inst: vec![], starts: vec![], n: 0, over: BTreeMap::new(), omit: None, _p: PhantomData };
    let (r, ev, cs, cfg) = record(&c, 1 << 12, vec![]);
    r.expect("layout");
    let (starts, rows) = layout(&spec, &cfg, &ev);
    c.starts = starts;
    let mut rows = rows.max(1);
    for t in &spec.tables {
        rows = rows.max(t.rows.len());
    }
    for &l in &spec.inst {
        rows = rows.max(l);
    }
    // lookup_any needs one row where its table side is not active
    let need = (rows + 1 + cs.blinding_factors() + 1).max(cs.minimum_rows());
    let mut k = 1;
    while (1usize << k) < need {
        k += 1;
    }
    let k = k + slack;
    c.n = 1 << k;
    (c.with_seed(seed), k)
}

/// start row of every region, rows used
pub fn layout<F: FieldExt>(spec: &Spec<F>, cfg: &Config, ev: &[Ev<F>]) -> (Vec<usize>, usize) {
    let mut starts = vec![0usize; spec.regs.len()];
    let regs: Vec<usize> = spec.items.iter().filter_map(|i| if let Item::Reg(r) = i { Some(*r) } else { None }).collect();
    let mut which = 0;
    let mut inside = false;
    let mut best: Option<usize> = None;
    let mut rows = 0;
    // the planners open a region per table too or not at all; a region is recognised by its events
    let mut cur: Vec<&Ev<F>> = vec![];
    for e in ev {
        match e {
            Ev::Enter(_) => {
                inside = true;
                best = None;
                cur.clear();
            }
            Ev::Exit => {
                inside = false;
                let table = cur.iter().any(|e| matches!(e, Ev::Fix(c, _, _) if !cfg.fix.iter().any(|f| f.index() == *c)));
                if !table && which < regs.len() && !cur.is_empty() {
                    let r = regs[which];
                    let reg = &spec.regs[r];
                    let min = reg.adv.keys().map(|k| k.1).chain(reg.fix.keys().map(|k| k.1)).chain(reg.sels.iter().map(|k| k.1)).min().unwrap_or(0);
                    starts[r] = best.unwrap_or(0) - min.min(best.unwrap_or(0));
                    which += 1;
                }
            }
            _ => {
                let row = match e {
                    Ev::Sel(_, r) | Ev::Adv(_, r, _) | Ev::Fix(_, r, _) => Some(*r),
                    _ => None,
                };
                if let Some(r) = row {
                    rows = rows.max(r + 1);
                    if inside {
                        best = Some(best.map_or(r, |b| b.min(r)));
                        cur.push(e);
                    }
                }
            }
        }
    }
    (starts, rows)
}

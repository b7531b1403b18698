//! Witness laboratory: synthesizes any circuit into an explicit assignment (through the public
//! `Assignment` interface), evaluates every constraint on it directly from the public constraint
//! system description, lets an adversary rewrite cells, and solves for chosen cells when the
//! constraints are affine in them.  Nothing here looks at names of gates, columns or regions.

pub mod forge;

use ff::Field;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::Value;
use halo2_proofs::plonk::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;
use vh_common::Xo;

pub struct Rng(pub Xo);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(Xo::new(seed))
    }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.0.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.0.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for Rng {}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Kind {
    Advice,
    Fixed,
    Instance,
}
pub type Cell = (Kind, usize, usize);

fn cell(c: Column<Any>, row: usize) -> Cell {
    let k = match c.column_type() {
        Any::Advice(_) => Kind::Advice,
        Any::Fixed => Kind::Fixed,
        Any::Instance => Kind::Instance,
    };
    (k, c.index(), row)
}

#[derive(Clone)]
pub struct Lab<F: FieldExt> {
    pub cs: ConstraintSystem<F>,
    pub gates: Arc<Vec<Vec<Ex<F>>>>,
    pub lookups: Arc<Vec<(Vec<Ex<F>>, Vec<Ex<F>>)>>,
    pub n: usize,
    pub usable: usize,
    pub advice: Vec<Vec<F>>,
    pub adv_set: Vec<Vec<bool>>,
    pub fixed: Vec<Vec<F>>,
    pub fixed_set: Vec<Vec<bool>>,
    pub selectors: Vec<Vec<bool>>,
    pub instance: Vec<Vec<F>>,
    pub copies: Vec<(Cell, Cell)>,
    pub challenges: Vec<F>,
    /// advice cells in order of assignment, with the ordinal of the region they belong to
    pub order: Vec<(usize, usize, usize)>,
    region: usize,
}

fn val<F: Field, VR: Into<Assigned<F>>>(v: Value<VR>) -> Option<F> {
    let mut r = None;
    v.map(|x| r = Some(x.into().evaluate()));
    r
}

impl<F: FieldExt> Assignment<F> for Lab<F> {
    fn enter_region<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.region += 1;
    }
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn exit_region(&mut self) {}
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.selectors[sel_index(s)][row] = true;
        Ok(())
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        Ok(Value::known(self.instance[column.index()][row]))
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        let v = val(to()).ok_or(Error::Synthesis)?;
        self.advice[column.index()][row] = v;
        if !self.adv_set[column.index()][row] {
            self.adv_set[column.index()][row] = true;
            self.order.push((column.index(), row, self.region));
        }
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if row >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.fixed[column.index()][row] = val(to()).ok_or(Error::Synthesis)?;
        self.fixed_set[column.index()][row] = true;
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        if lr >= self.usable || rr >= self.usable {
            return Err(Error::BoundsFailure);
        }
        self.copies.push((cell(lc, lr), cell(rc, rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        let v = val(to).ok_or(Error::Synthesis)?;
        for r in row..self.usable {
            self.fixed[column.index()][r] = v;
            self.fixed_set[column.index()][r] = true;
        }
        Ok(())
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        Value::known(self.challenges[c.index()])
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}

/// Expression with plain indices.
#[derive(Clone, Debug)]
pub enum Ex<F> {
    Const(F),
    Sel(usize),
    Cell(Kind, usize, i32),
    Chal(usize),
    Neg(Box<Ex<F>>),
    Sum(Box<Ex<F>>, Box<Ex<F>>),
    Mul(Box<Ex<F>>, Box<Ex<F>>),
}
fn sel_index(s: &Selector) -> usize {
    // the index is not public; its Debug form is `Selector(index, simple)`
    let d = format!("{:?}", s);
    let d: String = d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().expect("selector index")
}
pub fn conv<F: FieldExt>(e: &Expression<F>) -> Ex<F> {
    match e {
        Expression::Constant(c) => Ex::Const(*c),
        Expression::Selector(s) => Ex::Sel(sel_index(s)),
        Expression::Fixed(q) => Ex::Cell(Kind::Fixed, q.column_index(), q.rotation().0),
        Expression::Advice(q) => Ex::Cell(Kind::Advice, q.column_index(), q.rotation().0),
        Expression::Instance(q) => Ex::Cell(Kind::Instance, q.column_index(), q.rotation().0),
        Expression::Challenge(c) => Ex::Chal(c.index()),
        Expression::Negated(a) => Ex::Neg(Box::new(conv(a))),
        Expression::Sum(a, b) => Ex::Sum(Box::new(conv(a)), Box::new(conv(b))),
        Expression::Product(a, b) => Ex::Mul(Box::new(conv(a)), Box::new(conv(b))),
        Expression::Scaled(a, f) => Ex::Mul(Box::new(Ex::Const(*f)), Box::new(conv(a))),
    }
}

/// affine form over unknown cells
#[derive(Clone, Debug)]
struct Aff<F> {
    c: F,
    t: BTreeMap<usize, F>,
    nl: bool,
}

#[derive(Debug, Clone)]
pub enum Bad {
    Gate { gate: usize, poly: usize, row: usize },
    Lookup { lookup: usize, row: usize },
    Copy(Cell, Cell),
}

trait Alg<F>: Sized {
    fn k(f: F) -> Self;
    fn is_zero(&self) -> bool;
    fn add(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
}
#[derive(Clone)]
struct Num<F>(F);
impl<F: FieldExt> Alg<F> for Num<F> {
    fn k(f: F) -> Self {
        Num(f)
    }
    fn is_zero(&self) -> bool {
        self.0 == F::zero()
    }
    fn add(self, o: Self) -> Self {
        Num(self.0 + o.0)
    }
    fn mul(self, o: Self) -> Self {
        Num(self.0 * o.0)
    }
}
impl<F: FieldExt> Alg<F> for Aff<F> {
    fn k(f: F) -> Self {
        Aff { c: f, t: BTreeMap::new(), nl: false }
    }
    fn is_zero(&self) -> bool {
        !self.nl && self.t.is_empty() && self.c == F::zero()
    }
    fn add(mut self, o: Self) -> Self {
        self.c += o.c;
        for (k, v) in o.t {
            let e = self.t.entry(k).or_insert(F::zero());
            *e += v;
            if *e == F::zero() {
                self.t.remove(&k);
            }
        }
        self.nl |= o.nl;
        self
    }
    fn mul(self, o: Self) -> Self {
        let (mut a, b) = if o.t.is_empty() && !o.nl { (self, o) } else { (o, self) };
        if b.nl || !b.t.is_empty() {
            return Aff { c: F::zero(), t: BTreeMap::new(), nl: true };
        }
        if b.c == F::zero() {
            return Aff::k(F::zero());
        }
        a.c *= b.c;
        for v in a.t.values_mut() {
            *v *= b.c;
        }
        a
    }
}

impl<F: FieldExt> Lab<F> {
    /// Synthesize `circuit` with 2^k rows. Challenges are drawn from `seed`.
    pub fn synth<C: Circuit<F>>(k: u32, circuit: &C, instance: &[Vec<F>], seed: u64) -> Result<Self, Error> {
        Self::synth_with(k, circuit, instance, seed, None)
    }
    /// with given challenges (random ones from `seed` otherwise)
    pub fn synth_with<C: Circuit<F>>(k: u32, circuit: &C, instance: &[Vec<F>], seed: u64, given: Option<Vec<F>>) -> Result<Self, Error> {
        let mut cs = ConstraintSystem::default();
        let config = C::configure(&mut cs);
        let n = 1usize << k;
        if n < cs.minimum_rows() {
            return Err(Error::NotEnoughRowsAvailable { current_k: k });
        }
        let usable = n - (cs.blinding_factors() + 1);
        let mut rng = Rng::new(seed);
        let challenges: Vec<F> = given.unwrap_or_else(|| (0..cs.num_challenges()).map(|_| F::random(&mut rng)).collect());
        assert_eq!(challenges.len(), cs.num_challenges());
        assert_eq!(instance.len(), cs.num_instance_columns());
        let mut inst = vec![];
        for c in instance {
            if c.len() > usable {
                return Err(Error::InstanceTooLarge);
            }
            let mut v = c.clone();
            v.resize(n, F::zero());
            inst.push(v);
        }
        let mut lab = Lab {
            n,
            usable,
            advice: vec![vec![F::zero(); n]; cs.num_advice_columns()],
            adv_set: vec![vec![false; n]; cs.num_advice_columns()],
            fixed: vec![vec![F::zero(); n]; cs.num_fixed_columns()],
            fixed_set: vec![vec![false; n]; cs.num_fixed_columns()],
            selectors: vec![vec![false; n]; cs.num_selectors],
            instance: inst,
            copies: vec![],
            challenges,
            order: vec![],
            region: 0,
            gates: Arc::new(cs.gates().iter().map(|g| g.polynomials().iter().map(conv).collect()).collect()),
            lookups: Arc::new(cs.lookups().iter().map(|l| (l.input_expressions.iter().map(conv).collect(), l.table_expressions.iter().map(conv).collect())).collect()),
            cs: cs.clone(),
        };
        C::FloorPlanner::synthesize(&mut lab, circuit, config, cs.constants().clone())?;
        Ok(lab)
    }

    pub fn get(&self, c: Cell) -> F {
        match c.0 {
            Kind::Advice => self.advice[c.1][c.2],
            Kind::Fixed => self.fixed[c.1][c.2],
            Kind::Instance => self.instance[c.1][c.2],
        }
    }

    fn ev<T: Alg<F>>(&self, e: &Ex<F>, row: usize, adv: &dyn Fn(usize, usize) -> T) -> T {
        let rot = |r: i32| -> usize { ((row as i64 + r as i64).rem_euclid(self.n as i64)) as usize };
        match e {
            Ex::Const(c) => T::k(*c),
            Ex::Sel(s) => T::k(if self.selectors[*s][row] { F::one() } else { F::zero() }),
            Ex::Cell(Kind::Fixed, c, r) => T::k(self.fixed[*c][rot(*r)]),
            Ex::Cell(Kind::Advice, c, r) => adv(*c, rot(*r)),
            Ex::Cell(Kind::Instance, c, r) => T::k(self.instance[*c][rot(*r)]),
            Ex::Chal(c) => T::k(self.challenges[*c]),
            Ex::Neg(a) => self.ev(a, row, adv).mul(T::k(-F::one())),
            Ex::Sum(a, b) => self.ev(a, row, adv).add(self.ev(b, row, adv)),
            Ex::Mul(a, b) => {
                let x: T = self.ev(a, row, adv);
                if x.is_zero() {
                    return x;
                }
                x.mul(self.ev(b, row, adv))
            }
        }
    }

    /// Rows that can differ from the all-zero background, plus one background row.
    fn rows(&self) -> Vec<usize> {
        let mut on = vec![false; self.n];
        for v in [&self.adv_set, &self.fixed_set, &self.selectors] {
            for c in v {
                for (r, s) in c.iter().enumerate() {
                    if *s {
                        on[r] = true;
                    }
                }
            }
        }
        for c in &self.advice {
            for (r, s) in c.iter().enumerate() {
                if *s != F::zero() {
                    on[r] = true;
                }
            }
        }
        for c in &self.instance {
            for (r, s) in c.iter().enumerate() {
                if *s != F::zero() {
                    on[r] = true;
                }
            }
        }
        let mut m = 2i64;
        for (_, r) in self.cs.advice_queries() {
            m = m.max(r.0.unsigned_abs() as i64);
        }
        for (_, r) in self.cs.fixed_queries() {
            m = m.max(r.0.unsigned_abs() as i64);
        }
        let mut out = BTreeSet::new();
        let mut bg = None;
        for r in 0..self.n {
            if on[r] {
                for d in -m..=m {
                    let x = (r as i64 + d).rem_euclid(self.n as i64) as usize;
                    if x < self.usable {
                        out.insert(x);
                    }
                }
            }
        }
        for r in 0..self.usable {
            if !out.contains(&r) {
                bg = Some(r);
                break;
            }
        }
        out.extend(bg);
        out.into_iter().collect()
    }

    /// All violated constraints, up to `limit`.
    pub fn check(&self, limit: usize) -> Vec<Bad> {
        let mut bad = vec![];
        for (a, b) in &self.copies {
            if self.get(*a) != self.get(*b) {
                bad.push(Bad::Copy(*a, *b));
                if bad.len() >= limit {
                    return bad;
                }
            }
        }
        let rows = self.rows();
        let adv = |c: usize, r: usize| Num(self.advice[c][r]);
        for (gi, g) in self.gates.iter().enumerate() {
            for (pi, p) in g.iter().enumerate() {
                for &row in &rows {
                    if self.ev(p, row, &adv).0 != F::zero() {
                        bad.push(Bad::Gate { gate: gi, poly: pi, row });
                        if bad.len() >= limit {
                            return bad;
                        }
                    }
                }
            }
        }
        for (li, l) in self.lookups.iter().enumerate() {
            let tup = |es: &Vec<Ex<F>>, row: usize| -> Vec<Vec<u8>> { es.iter().map(|e| self.ev(e, row, &adv).0.to_repr().as_ref().to_vec()).collect() };
            let mut table = HashSet::new();
            for row in 0..self.usable {
                table.insert(tup(&l.1, row));
            }
            for &row in &rows {
                if !table.contains(&tup(&l.0, row)) {
                    bad.push(Bad::Lookup { lookup: li, row });
                    if bad.len() >= limit {
                        return bad;
                    }
                }
            }
        }
        bad
    }
    pub fn accepts(&self) -> bool {
        self.check(1).is_empty()
    }

    /// Advice cells of columns committed in a phase later than the first.
    pub fn later_phase_cells(&self) -> Vec<(usize, usize)> {
        let ph = self.cs.advice_column_phase();
        self.order.iter().filter(|(c, _, _)| ph[*c] > 0).map(|(c, r, _)| (*c, *r)).collect()
    }
    pub fn first_phase_cells(&self) -> Vec<(usize, usize)> {
        let ph = self.cs.advice_column_phase();
        self.order.iter().filter(|(c, _, _)| ph[*c] == 0).map(|(c, r, _)| (*c, *r)).collect()
    }

    /// Try to choose the given cells so that everything holds: solves the constraints that are
    /// affine in them. Some(true): a satisfying assignment was constructed (and fully checked,
    /// it is left in self). false: refuted or not found.
    pub fn solve(&mut self, unknown: &[(usize, usize)], rng: &mut Rng) -> bool {
        // variables: copy classes of unknown cells
        let uset: HashSet<(usize, usize)> = unknown.iter().cloned().collect();
        let mut parent: HashMap<Cell, Cell> = HashMap::new();
        fn find(p: &mut HashMap<Cell, Cell>, c: Cell) -> Cell {
            let mut r = c;
            while let Some(&q) = p.get(&r) {
                if q == r {
                    break;
                }
                r = q;
            }
            p.insert(c, r);
            r
        }
        for (a, b) in &self.copies {
            let ra = find(&mut parent, *a);
            let rb = find(&mut parent, *b);
            if ra != rb {
                parent.insert(ra, rb);
                parent.insert(rb, rb);
            }
        }
        let is_unknown = |c: &Cell| c.0 == Kind::Advice && uset.contains(&(c.1, c.2));
        let mut known: HashMap<Cell, F> = HashMap::new();
        let touched: Vec<Cell> = self.copies.iter().flat_map(|(a, b)| [*a, *b]).collect();
        for c in touched {
            if !is_unknown(&c) {
                let r = find(&mut parent, c);
                let v = self.get(c);
                if let Some(o) = known.insert(r, v) {
                    if o != v {
                        return false;
                    }
                }
            }
        }
        let mut var_of: HashMap<Cell, usize> = HashMap::new();
        let mut cell_var: HashMap<(usize, usize), Result<usize, F>> = HashMap::new();
        let mut nv = 0;
        for &(c, r) in unknown {
            let root = find(&mut parent, (Kind::Advice, c, r));
            if let Some(v) = known.get(&root) {
                cell_var.insert((c, r), Err(*v));
            } else {
                let id = *var_of.entry(root).or_insert_with(|| {
                    nv += 1;
                    nv - 1
                });
                cell_var.insert((c, r), Ok(id));
            }
        }
        let adv = |c: usize, r: usize| -> Aff<F> {
            match cell_var.get(&(c, r)) {
                None => Aff::k(self.advice[c][r]),
                Some(Err(v)) => Aff::k(*v),
                Some(Ok(id)) => Aff { c: F::zero(), t: [(*id, F::one())].into_iter().collect(), nl: false },
            }
        };
        let mut piv: HashMap<usize, Aff<F>> = HashMap::new();
        fn resolve<F: FieldExt>(piv: &mut HashMap<usize, Aff<F>>, mut a: Aff<F>) -> Aff<F> {
            loop {
                let v = match a.t.iter().find(|(v, _)| piv.contains_key(v)) {
                    None => return a,
                    Some((v, _)) => *v,
                };
                let co = a.t.remove(&v).unwrap();
                // keep pivots resolved
                let e = piv[&v].clone();
                let e = if e.t.keys().any(|x| piv.contains_key(x)) {
                    let e = resolve(piv, e);
                    piv.insert(v, e.clone());
                    e
                } else {
                    e
                };
                a = a.add(e.mul(Aff::k(co)));
            }
        }
        for &row in &self.rows() {
            for g in self.gates.iter() {
                for p in g {
                    let a: Aff<F> = self.ev(p, row, &adv);
                    if a.nl {
                        continue;
                    }
                    let a = resolve(&mut piv, a);
                    match a.t.iter().next_back().map(|(v, c)| (*v, *c)) {
                        None => {
                            if a.c != F::zero() {
                                return false;
                            }
                        }
                        Some((v, c)) => {
                            let mut e = a;
                            e.t.remove(&v);
                            let k = -c.invert().unwrap();
                            piv.insert(v, e.mul(Aff::k(k)));
                        }
                    }
                }
            }
        }
        // free variables random, then back-substitute
        let mut values: Vec<Option<F>> = vec![None; nv];
        for v in 0..nv {
            if !piv.contains_key(&v) {
                values[v] = Some(F::random(&mut *rng));
            }
        }
        for v in 0..nv {
            if values[v].is_none() {
                let e = piv[&v].clone();
                let a = resolve(&mut piv, e);
                let mut x = a.c;
                for (u, c) in &a.t {
                    x += *c * values[*u].unwrap();
                }
                values[v] = Some(x);
            }
        }
        let mut new = vec![];
        for &(c, r) in unknown {
            let v = match cell_var[&(c, r)] {
                Ok(id) => values[id].unwrap(),
                Err(v) => v,
            };
            new.push((c, r, v));
        }
        for (c, r, v) in new {
            self.advice[c][r] = v;
        }
        self.accepts()
    }
}


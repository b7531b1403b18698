//! Adversarial witness search.  Starting from an assignment (usually an honest one), some cells are
//! changed and the violated constraints are repaired one after the other by solving them for cells
//! that were assigned later (with backtracking over the roots), until every constraint holds again
//! or no way is left.  Whatever it returns is a complete assignment the circuit accepts.
//! Names of gates, columns and regions play no part.

use super::*;

#[derive(Clone)]
enum N<F> {
    K(F),
    V(usize),
    Add(Box<N<F>>, Box<N<F>>),
    Mul(Box<N<F>>, Box<N<F>>),
}

#[derive(Clone)]
enum Con<F> {
    /// the product of these is zero
    Zero(Vec<N<F>>),
    In(usize, Vec<N<F>>),
}

pub struct Forge<F: FieldExt> {
    pub lab: Lab<F>,
    class_of: HashMap<Cell, usize>,
    members: Vec<Vec<Cell>>,
    pub val: Vec<F>,
    pinned: Vec<bool>,
    ord: Vec<usize>,
    cons: Vec<Con<F>>,
    con_vars: Vec<Vec<usize>>,
    by_var: Vec<Vec<usize>>,
    sets: Vec<HashSet<Vec<Vec<u8>>>>,
    rows: Vec<Vec<Vec<F>>>,
    honest: Vec<F>,
}

type Poly<F> = Vec<F>;
fn padd<F: FieldExt>(mut a: Poly<F>, b: Poly<F>) -> Poly<F> {
    if a.len() < b.len() {
        return padd(b, a);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x += y;
    }
    a
}
fn pmul<F: FieldExt>(a: &Poly<F>, b: &Poly<F>) -> Poly<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += *x * y;
        }
    }
    r
}
fn trim<F: FieldExt>(a: &mut Poly<F>) {
    while a.last() == Some(&F::zero()) {
        a.pop();
    }
}
fn pdivrem<F: FieldExt>(mut a: Poly<F>, b: &Poly<F>) -> (Poly<F>, Poly<F>) {
    trim(&mut a);
    let mut q = vec![F::zero(); a.len().saturating_sub(b.len()) + 1];
    let inv = b.last().unwrap().invert().unwrap();
    while a.len() >= b.len() {
        let c = *a.last().unwrap() * inv;
        let s = a.len() - b.len();
        q[s] = c;
        for (i, x) in b.iter().enumerate() {
            a[s + i] -= c * x;
        }
        trim(&mut a);
    }
    (q, a)
}
fn pgcd<F: FieldExt>(mut a: Poly<F>, mut b: Poly<F>) -> Poly<F> {
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let (_, r) = pdivrem(a, &b);
        a = b;
        b = r;
    }
    a
}
fn ppow<F: FieldExt>(base: &Poly<F>, e: &[u8], m: &Poly<F>) -> Poly<F> {
    let mut r = vec![F::one()];
    for byte in e.iter().rev() {
        for i in (0..8).rev() {
            r = pdivrem(pmul(&r, &r), m).1;
            if byte >> i & 1 == 1 {
                r = pdivrem(pmul(&r, base), m).1;
            }
        }
    }
    r
}
/// little-endian (p-1)/2
fn half<F: FieldExt>() -> Vec<u8> {
    let mut b = (-F::one()).to_repr().as_ref().to_vec();
    let mut c = 0u8;
    for x in b.iter_mut().rev() {
        let n = *x & 1;
        *x = *x >> 1 | c << 7;
        c = n;
    }
    b
}
/// all roots in the field of a non-zero polynomial
pub fn roots<F: FieldExt>(mut f: Poly<F>, rng: &mut Rng) -> Vec<F> {
    trim(&mut f);
    let mut out = vec![];
    if f.len() < 2 {
        return out;
    }
    if f.len() > 20 {
        return out;
    }
    while f[0] == F::zero() {
        if !out.contains(&F::zero()) {
            out.push(F::zero());
        }
        f.remove(0);
        if f.len() < 2 {
            return out;
        }
    }
    if f.len() == 2 {
        out.push(-f[0] * f[1].invert().unwrap());
        return out;
    }
    // small integers first: cheap and common
    for i in 0..9u64 {
        loop {
            if f.len() < 3 {
                break;
            }
            let x = F::from(i);
            let v = f.iter().rev().fold(F::zero(), |a, c| a * x + c);
            if v != F::zero() {
                break;
            }
            if !out.contains(&x) {
                out.push(x);
            }
            f = pdivrem(f, &vec![-x, F::one()]).0;
        }
    }
    let h = half::<F>();
    if f.len() > 2 {
        // keep the product of the linear factors: gcd(x^p - x, f)
        let xp = ppow(&vec![F::zero(), F::one()], &h, &f);
        let xp = pdivrem(pmul(&xp, &xp), &f).1;
        let xp = pdivrem(pmul(&xp, &vec![F::zero(), F::one()]), &f).1;
        f = pgcd(f, padd(xp, vec![F::zero(), -F::one()]));
    }
    let mut todo = vec![f];
    while let Some(mut f) = todo.pop() {
        trim(&mut f);
        if f.len() < 2 {
            continue;
        }
        if f.len() == 2 {
            let x = -f[0] * f[1].invert().unwrap();
            if !out.contains(&x) {
                out.push(x);
            }
            continue;
        }
        let s = vec![F::random(&mut *rng), F::one()];
        let t = padd(ppow(&s, &h, &f), vec![-F::one()]);
        let d = pgcd(f.clone(), t);
        if d.len() < 2 || d.len() == f.len() {
            todo.push(f);
            continue;
        }
        let (q, _) = pdivrem(f, &d);
        todo.push(d);
        todo.push(q);
    }
    out
}

fn key<F: FieldExt>(t: &[F]) -> Vec<Vec<u8>> {
    t.iter().map(|x| x.to_repr().as_ref().to_vec()).collect()
}
/// order by integer value
fn int_key<F: FieldExt>(a: &F) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(a.to_repr().as_ref());
    k.reverse();
    k
}

struct State {
    locked: Vec<bool>,
    trail: Vec<(usize, usize)>,
}

/// limits of one search
#[derive(Clone, Copy)]
pub struct Budget {
    pub steps: usize,
    pub backtracks: usize,
}

impl<F: FieldExt> Forge<F> {
    pub fn new(lab: Lab<F>) -> Self {
        let mut f = Forge {
            class_of: HashMap::new(),
            members: vec![],
            val: vec![],
            pinned: vec![],
            ord: vec![],
            cons: vec![],
            con_vars: vec![],
            by_var: vec![],
            sets: vec![],
            rows: vec![],
            honest: vec![],
            lab,
        };
        f.classes();
        f.compile();
        f.honest = f.val.clone();
        f
    }

    fn classes(&mut self) {
        let mut parent: HashMap<Cell, Cell> = HashMap::new();
        fn find(p: &mut HashMap<Cell, Cell>, c: Cell) -> Cell {
            let mut r = c;
            while let Some(&q) = p.get(&r) {
                if q == r {
                    break;
                }
                r = q;
            }
            p.insert(c, r);
            r
        }
        for (a, b) in self.lab.copies.clone() {
            let ra = find(&mut parent, a);
            let rb = find(&mut parent, b);
            parent.insert(ra, rb);
            parent.entry(rb).or_insert(rb);
        }
        let cells: BTreeSet<Cell> = self.lab.copies.iter().flat_map(|(a, b)| [*a, *b]).collect();
        for c in cells {
            let r = find(&mut parent, c);
            let id = match self.class_of.get(&r) {
                Some(i) => *i,
                None => self.new_class(r),
            };
            if c != r {
                self.class_of.insert(c, id);
                self.members[id].push(c);
            }
            if c.0 == Kind::Fixed {
                self.pinned[id] = true;
                self.val[id] = self.lab.get(c);
            }
        }
        for (i, (c, r, _)) in self.lab.order.clone().into_iter().enumerate() {
            let id = self.class((Kind::Advice, c, r));
            self.ord[id] = self.ord[id].min(i);
        }
    }
    fn new_class(&mut self, c: Cell) -> usize {
        let id = self.members.len();
        self.class_of.insert(c, id);
        self.members.push(vec![c]);
        self.val.push(self.lab.get(c));
        self.pinned.push(c.0 == Kind::Fixed);
        self.ord.push(usize::MAX);
        if !self.honest.is_empty() {
            self.honest.push(self.val[id]);
            self.by_var.push(vec![]);
        }
        id
    }
    /// class of a cell
    pub fn class(&mut self, c: Cell) -> usize {
        match self.class_of.get(&c) {
            Some(i) => *i,
            None => self.new_class(c),
        }
    }

    fn build(&mut self, e: &Ex<F>, row: usize) -> N<F> {
        let n = self.lab.n as i64;
        let rot = |r: i32| -> usize { ((row as i64 + r as i64).rem_euclid(n)) as usize };
        match e {
            Ex::Const(c) => N::K(*c),
            Ex::Sel(s) => N::K(if self.lab.selectors[*s][row] { F::one() } else { F::zero() }),
            Ex::Cell(Kind::Fixed, c, r) => N::K(self.lab.fixed[*c][rot(*r)]),
            Ex::Cell(k, c, r) => {
                let id = self.class((*k, *c, rot(*r)));
                if self.pinned[id] {
                    N::K(self.val[id])
                } else {
                    N::V(id)
                }
            }
            Ex::Chal(c) => N::K(self.lab.challenges[*c]),
            Ex::Neg(a) => Self::mul(N::K(-F::one()), self.build(a, row)),
            Ex::Sum(a, b) => {
                let (x, y) = (self.build(a, row), self.build(b, row));
                match (x, y) {
                    (N::K(x), N::K(y)) => N::K(x + y),
                    (N::K(x), y) | (y, N::K(x)) if x == F::zero() => y,
                    (x, y) => N::Add(Box::new(x), Box::new(y)),
                }
            }
            Ex::Mul(a, b) => {
                // look at the factor that is a known zero first, so that no classes are made
                if self.known_zero(a, row) || self.known_zero(b, row) {
                    return N::K(F::zero());
                }
                let x = self.build(a, row);
                let y = self.build(b, row);
                Self::mul(x, y)
            }
        }
    }
    fn known(&self, e: &Ex<F>, row: usize) -> Option<F> {
        let n = self.lab.n as i64;
        let rot = |r: i32| -> usize { ((row as i64 + r as i64).rem_euclid(n)) as usize };
        Some(match e {
            Ex::Const(c) => *c,
            Ex::Sel(s) => {
                if self.lab.selectors[*s][row] {
                    F::one()
                } else {
                    F::zero()
                }
            }
            Ex::Cell(Kind::Fixed, c, r) => self.lab.fixed[*c][rot(*r)],
            Ex::Cell(..) => return None,
            Ex::Chal(c) => self.lab.challenges[*c],
            Ex::Neg(a) => -self.known(a, row)?,
            Ex::Sum(a, b) => self.known(a, row)? + self.known(b, row)?,
            Ex::Mul(a, b) => match (self.known(a, row), self.known(b, row)) {
                (Some(x), Some(y)) => x * y,
                (Some(x), _) | (_, Some(x)) if x == F::zero() => x,
                _ => return None,
            },
        })
    }
    fn known_zero(&self, e: &Ex<F>, row: usize) -> bool {
        self.known(e, row) == Some(F::zero())
    }
    fn mul(x: N<F>, y: N<F>) -> N<F> {
        match (x, y) {
            (N::K(x), N::K(y)) => N::K(x * y),
            (N::K(x), y) | (y, N::K(x)) => {
                if x == F::zero() {
                    N::K(x)
                } else if x == F::one() {
                    y
                } else {
                    N::Mul(Box::new(N::K(x)), Box::new(y))
                }
            }
            (x, y) => N::Mul(Box::new(x), Box::new(y)),
        }
    }
    fn vars(e: &N<F>, out: &mut BTreeSet<usize>) {
        match e {
            N::K(_) => {}
            N::V(v) => {
                out.insert(*v);
            }
            N::Add(a, b) | N::Mul(a, b) => {
                Self::vars(a, out);
                Self::vars(b, out);
            }
        }
    }
    fn factors(e: N<F>, out: &mut Vec<N<F>>) {
        match e {
            N::Mul(a, b) => {
                Self::factors(*a, out);
                Self::factors(*b, out);
            }
            N::K(c) if c != F::zero() => {}
            e => out.push(e),
        }
    }
    fn compile(&mut self) {
        let gates = self.lab.gates.clone();
        let lookups = self.lab.lookups.clone();
        // in every usable row: an adversary may use the rows the honest prover leaves empty
        for row in 0..self.lab.usable {
            for g in gates.iter() {
                for p in g {
                    if self.known(p, row).is_some() {
                        continue;
                    }
                    let e = self.build(p, row);
                    if !matches!(e, N::K(_)) {
                        let mut fs = vec![];
                        Self::factors(e, &mut fs);
                        self.cons.push(Con::Zero(fs));
                    }
                }
            }
        }
        for (li, l) in lookups.iter().enumerate() {
            let mut set = HashSet::new();
            let mut rows = vec![];
            for row in 0..self.lab.usable {
                let t: Vec<F> = l.1.iter().map(|e| self.known(e, row).expect("tables are fixed")).collect();
                if set.insert(key(&t)) {
                    rows.push(t);
                }
            }
            self.sets.push(set);
            self.rows.push(rows);
            for row in 0..self.lab.usable {
                if l.0.iter().all(|e| self.known(e, row).is_some()) {
                    continue;
                }
                let es: Vec<N<F>> = l.0.iter().map(|e| self.build(e, row)).collect();
                self.cons.push(Con::In(li, es));
            }
        }
        self.by_var = vec![vec![]; self.members.len()];
        for (i, c) in self.cons.iter().enumerate() {
            let mut s = BTreeSet::new();
            match c {
                Con::Zero(es) => es.iter().for_each(|e| Self::vars(e, &mut s)),
                Con::In(_, es) => es.iter().for_each(|e| Self::vars(e, &mut s)),
            }
            for v in &s {
                self.by_var[*v].push(i);
            }
            self.con_vars.push(s.into_iter().collect());
        }
    }

    fn num(&self, e: &N<F>) -> F {
        match e {
            N::K(c) => *c,
            N::V(v) => self.val[*v],
            N::Add(a, b) => self.num(a) + self.num(b),
            N::Mul(a, b) => self.num(a) * self.num(b),
        }
    }
    fn poly(&self, e: &N<F>, x: usize) -> Poly<F> {
        match e {
            N::K(c) => vec![*c],
            N::V(v) => {
                if *v == x {
                    vec![F::zero(), F::one()]
                } else {
                    vec![self.val[*v]]
                }
            }
            N::Add(a, b) => padd(self.poly(a, x), self.poly(b, x)),
            N::Mul(a, b) => pmul(&self.poly(a, x), &self.poly(b, x)),
        }
    }
    fn aff(&self, e: &N<F>, u: &HashMap<usize, usize>) -> Aff<F> {
        match e {
            N::K(c) => Aff::k(*c),
            N::V(v) => match u.get(v) {
                Some(i) => Aff { c: F::zero(), t: [(*i, F::one())].into_iter().collect(), nl: false },
                None => Aff::k(self.val[*v]),
            },
            N::Add(a, b) => self.aff(a, u).add(self.aff(b, u)),
            N::Mul(a, b) => {
                let x: Aff<F> = self.aff(a, u);
                if x.is_zero() {
                    return x;
                }
                x.mul(self.aff(b, u))
            }
        }
    }
    fn holds(&self, i: usize) -> bool {
        match &self.cons[i] {
            Con::Zero(es) => es.iter().any(|e| self.num(e) == F::zero()),
            Con::In(l, es) => {
                let t: Vec<F> = es.iter().map(|e| self.num(e)).collect();
                self.sets[*l].contains(&key(&t))
            }
        }
    }
    pub fn reset(&mut self) {
        self.val = self.honest.clone();
    }
    /// make the current values the starting point
    pub fn rebase(&mut self) {
        self.honest = self.val.clone();
    }
    pub fn value(&self, c: Cell) -> F {
        match self.class_of.get(&c) {
            Some(i) => self.val[*i],
            None => self.lab.get(c),
        }
    }
    pub fn is_pinned(&self, v: usize) -> bool {
        self.pinned[v]
    }
    pub fn num_classes(&self) -> usize {
        self.members.len()
    }
    /// classes some constraint speaks about and an adversary may choose
    pub fn targets(&self) -> Vec<usize> {
        (0..self.by_var.len()).filter(|v| !self.pinned[*v] && !self.by_var[*v].is_empty()).collect()
    }
    pub fn num_constraints(&self) -> usize {
        self.cons.len()
    }
    pub fn constraint_vars(&self, i: usize) -> &[usize] {
        &self.con_vars[i]
    }
    /// the values of `v` that satisfy constraint `i` with everything else as it is (lookups: a
    /// few of them)
    pub fn alternatives(&self, i: usize, v: usize, rng: &mut Rng) -> Vec<F> {
        match &self.cons[i] {
            Con::Zero(es) => {
                let mut out = vec![];
                for e in es {
                    let mut p = self.poly(e, v);
                    trim(&mut p);
                    for x in roots(p, rng) {
                        if !out.contains(&x) {
                            out.push(x);
                        }
                    }
                }
                out
            }
            Con::In(l, es) => self.in_table(*l, es, v, rng),
        }
    }
    fn in_table(&self, l: usize, es: &[N<F>], v: usize, _rng: &mut Rng) -> Vec<F> {
        // the first component that is affine in v decides; the others must follow
        let ps: Vec<Poly<F>> = es
            .iter()
            .map(|e| {
                let mut p = self.poly(e, v);
                trim(&mut p);
                p
            })
            .collect();
        let j = match ps.iter().position(|p| p.len() == 2) {
            Some(j) => j,
            None => return vec![],
        };
        let inv = ps[j][1].invert().unwrap();
        let mut out = vec![];
        for t in &self.rows[l] {
            let x = (t[j] - ps[j][0]) * inv;
            let ok = ps.iter().enumerate().all(|(m, p)| m == j || p.iter().rev().fold(F::zero(), |a, c| a * x + c) == t[m]);
            if ok {
                out.push(x);
            }
        }
        out
    }

    /// Change the given classes and look for a completion. The values in `fixed` stay as they are.
    /// On success the new assignment is in `val` (and in `lab`), and it satisfies everything.
    pub fn search(&mut self, changes: &[(usize, F)], fixed: &[usize], rng: &mut Rng, b: Budget) -> bool {
        let mut locked = self.pinned.clone();
        locked.resize(self.members.len(), false);
        for v in fixed {
            locked[*v] = true;
        }
        let mut bad: BTreeSet<usize> = BTreeSet::new();
        let mut start = usize::MAX;
        for (v, x) in changes {
            if locked[*v] {
                return false;
            }
            let _ = x;
            start = start.min(self.ord[*v]);
        }
        for (v, x) in changes {
            self.val[*v] = *x;
            locked[*v] = true;
        }
        for (v, _) in changes {
            if let Some(cs) = self.by_var.get(*v) {
                for c in cs.clone() {
                    if !self.holds(c) {
                        bad.insert(c);
                    }
                }
            }
        }
        let mut steps = b.steps;
        let mut back = b.backtracks;
        let mut st = State { locked, trail: vec![] };
        let ok = self.dfs(&mut st, bad, start, rng, &mut steps, &mut back);
        ok && self.commit()
    }
    /// Repair every violated constraint of the current assignment, keeping `fixed`.
    pub fn search_all(&mut self, fixed: &[usize], rng: &mut Rng, b: Budget) -> bool {
        let mut locked = self.pinned.clone();
        locked.resize(self.members.len(), false);
        for v in fixed {
            locked[*v] = true;
        }
        let bad: BTreeSet<usize> = (0..self.cons.len()).filter(|c| !self.holds(*c)).collect();
        let (mut steps, mut back) = (b.steps, b.backtracks);
        let mut st = State { locked, trail: vec![] };
        let ok = self.dfs(&mut st, bad, 0, rng, &mut steps, &mut back);
        ok && self.commit()
    }
    /// number of classes whose value is not the starting one
    pub fn differ(&self) -> usize {
        self.val.iter().zip(&self.honest).filter(|(a, b)| a != b).count()
    }
    fn commit(&mut self) -> bool {
        for (id, m) in self.members.iter().enumerate() {
            for c in m {
                match c.0 {
                    Kind::Advice => self.lab.advice[c.1][c.2] = self.val[id],
                    Kind::Instance => self.lab.instance[c.1][c.2] = self.val[id],
                    Kind::Fixed => {}
                }
            }
        }
        self.lab.accepts()
    }

    fn dfs(&mut self, st: &mut State, bad: BTreeSet<usize>, start: usize, rng: &mut Rng, steps: &mut usize, back: &mut usize) -> bool {
        // choice points: (state before, alternatives left)
        struct Choice<F> {
            locked: Vec<bool>,
            val: Vec<F>,
            bad: BTreeSet<usize>,
            opts: Vec<Vec<(usize, F)>>,
        }
        let mut stack: Vec<Choice<F>> = vec![];
        let mut bad = bad;
        st.trail.clear();
        loop {
            if bad.is_empty() {
                return true;
            }
            if *steps == 0 {
                return false;
            }
            *steps -= 1;
            let mut opts = self.options(&bad, &st.locked, start, rng);
            if opts.is_empty() {
                // backtrack
                loop {
                    let ch = match stack.last_mut() {
                        None => return false,
                        Some(c) => c,
                    };
                    if *back == 0 {
                        return false;
                    }
                    *back -= 1;
                    self.val = ch.val.clone();
                    st.locked = ch.locked.clone();
                    bad = ch.bad.clone();
                    opts = std::mem::take(&mut ch.opts);
                    stack.pop();
                    if !opts.is_empty() {
                        break;
                    }
                }
            }
            let take = opts.remove(0);
            if !opts.is_empty() {
                stack.push(Choice { locked: st.locked.clone(), val: self.val.clone(), bad: bad.clone(), opts });
                if stack.len() > 400 {
                    stack.remove(0);
                }
            }
            let mut touched = BTreeSet::new();
            for (v, x) in take {
                self.val[v] = x;
                st.locked[v] = true;
                touched.extend(self.by_var[v].iter().cloned());
            }
            for c in touched {
                if self.holds(c) {
                    bad.remove(&c);
                } else {
                    bad.insert(c);
                }
            }
        }
    }

    /// possible next steps (each a set of new values), best first
    fn options(&self, bad: &BTreeSet<usize>, locked: &[bool], start: usize, rng: &mut Rng) -> Vec<Vec<(usize, F)>> {
        // the violated constraint with the fewest open later cells
        let mut best: Option<(usize, usize, usize, Vec<usize>)> = None;
        for &c in bad {
            let open: Vec<usize> = self.con_vars[c].iter().cloned().filter(|v| !locked[*v]).collect();
            if open.is_empty() {
                return vec![];
            }
            let later: Vec<usize> = open.iter().cloned().filter(|v| self.ord[*v] > start).collect();
            let set = if later.is_empty() { open } else { later };
            let o = self.con_vars[c].iter().map(|v| self.ord[*v]).filter(|o| *o != usize::MAX).max().unwrap_or(0);
            let k = (set.len(), o);
            if best.as_ref().map_or(true, |b| k < (b.0, b.1)) {
                best = Some((k.0, k.1, c, set));
            }
        }
        let (_, _, c, mut set) = best.unwrap();
        set.sort_by_key(|v| std::cmp::Reverse(self.ord[*v]));
        let mut opts: Vec<Vec<(usize, F)>> = vec![];
        if set.len() > 1 {
            if let Some(o) = self.joint(c, &set, locked, rng) {
                opts.push(o);
            }
        }
        let mut singles = vec![];
        for (n, v) in set.iter().enumerate() {
            if n >= 4 {
                break;
            }
            let mut alts = self.alternatives(c, *v, rng);
            alts.retain(|x| *x != self.val[*v]);
            alts.sort_by_cached_key(int_key);
            if alts.len() > 3 {
                let k = rng.0.next() as usize % alts.len();
                let extra = alts[k];
                alts.truncate(2);
                if !alts.contains(&extra) {
                    alts.push(extra);
                }
            }
            for a in alts {
                singles.push(vec![(*v, a)]);
            }
        }
        opts.extend(singles);
        if opts.len() > 1 && rng.0.next() % 16 == 0 {
            let k = rng.0.next() as usize % opts.len();
            opts.swap(0, k);
        }
        opts
    }

    /// solve the constraints about the open classes of `c` together, when they are affine in them
    fn joint(&self, c: usize, set: &[usize], locked: &[bool], rng: &mut Rng) -> Option<Vec<(usize, F)>> {
        let idx: HashMap<usize, usize> = set.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let mut cs: BTreeSet<usize> = BTreeSet::new();
        cs.insert(c);
        for v in set {
            for d in &self.by_var[*v] {
                // all its open variables are among ours, and it is not about the future
                if self.con_vars[*d].iter().all(|x| locked[*x] || idx.contains_key(x) || self.ord[*x] <= self.ord[*v]) {
                    cs.insert(*d);
                }
            }
        }
        let mut piv: Vec<(usize, Aff<F>)> = vec![];
        let sub = |mut a: Aff<F>, piv: &Vec<(usize, Aff<F>)>| -> Aff<F> {
            for (v, e) in piv {
                if let Some(k) = a.t.remove(v) {
                    a = a.add(e.clone().mul(Aff::k(k)));
                }
            }
            a
        };
        for d in cs {
            let e = match &self.cons[d] {
                Con::Zero(es) if es.len() == 1 => &es[0],
                _ => continue,
            };
            let a = self.aff(e, &idx);
            if a.nl {
                continue;
            }
            let a = sub(a, &piv);
            match a.t.iter().next().map(|(v, k)| (*v, *k)) {
                None => {
                    if a.c != F::zero() {
                        return None;
                    }
                }
                Some((v, k)) => {
                    let mut e = a;
                    e.t.remove(&v);
                    let e = e.mul(Aff::k(-k.invert().unwrap()));
                    for (_, p) in piv.iter_mut() {
                        if let Some(k) = p.t.remove(&v) {
                            *p = p.clone().add(e.clone().mul(Aff::k(k)));
                        }
                    }
                    piv.push((v, e));
                }
            }
        }
        if piv.is_empty() {
            return None;
        }
        let keep = rng.0.next() % 4 != 0;
        let mut x: Vec<Option<F>> = vec![None; set.len()];
        let piv_set: HashSet<usize> = piv.iter().map(|(v, _)| *v).collect();
        for i in 0..set.len() {
            if !piv_set.contains(&i) {
                x[i] = Some(if keep { self.val[set[i]] } else { F::random(&mut *rng) });
            }
        }
        for (v, e) in &piv {
            let mut s = e.c;
            for (u, k) in &e.t {
                s += *k * x[*u].unwrap();
            }
            x[*v] = Some(s);
        }
        // free classes that keep their value stay open
        let mut out = vec![];
        for i in 0..set.len() {
            if piv_set.contains(&i) || !keep {
                out.push((set[i], x[i].unwrap()));
            }
        }
        if out.iter().all(|(v, x)| self.val[*v] == *x) {
            return None;
        }
        Some(out)
    }
}

//! C13: what key generation makes of a circuit.
use crate::plonk::*;
use crate::rcirc::*;
use crate::rgen::*;
use crate::transcripts::{Kind, KB};
use crate::util::*;
use ff::{Field, PrimeField};
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::floor_planner::V1;
use halo2_proofs::circuit::{SimpleFloorPlanner, Value};
use halo2_proofs::helpers::SerdeFormat;
use halo2_proofs::plonk::*;
use halo2curves::bn256::{Fr, G1Affine};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;
use vh_common::*;
use vh_lab::{conv, Cell, Ex, Kind as CK, Lab};

fn opt(g: &mut G) -> Opt {
    match g.below(3) {
        0 => Opt { max_gates: 10, max_regs: 6, lookups: false, ..Opt::default() },
        _ => Opt::default(),
    }
}

/// everything a verifying key shows
fn face<S: Sys>(vk: &VerifyingKey<S::C>) -> String {
    format!("{:?}", vk)
}
fn repr<S: Sys>(vk: &VerifyingKey<S::C>) -> Result<Vec<u8>, Fail>
where
    KB: Kind<S::C>,
{
    // what the key contributes to a transcript
    use halo2_proofs::transcript::{Blake2bWrite, Challenge255, EncodedChallenge, Transcript, TranscriptWriterBuffer};
    let mut t = Blake2bWrite::<Vec<u8>, S::C, Challenge255<S::C>>::init(vec![]);
    vk.hash_into(&mut t).map_err(|e| Fail::from(format!("{:?}", e)))?;
    let c: Challenge255<S::C> = t.squeeze_challenge();
    Ok(EncodedChallenge::<S::C>::get_scalar(&c).to_repr().as_ref().to_vec())
}

fn determinism<S: Sys, P: FloorPlanner>(g: &mut G) -> R
where
    KB: Kind<S::C>,
{
    let o = opt(g);
    let spec: Arc<Spec<S::F>> = Arc::new(gen(g, o));
    let (c, k) = build::<S::F, P>(spec.clone(), g.u64(), 0);
    set_spec(&spec);
    classes(g, &spec);
    g.desc(|| format!("k={} {:?}", k, spec));
    let p = S::params(k);
    let key = |what: &str, c: &RC<S::F, P>| -> Result<VerifyingKey<S::C>, Fail> {
        match guarded(|| S::vk(&p, c)) {
            Ok(Ok(k)) => Ok(k),
            e => fail!("key generation ({}) failed: {:?}", what, e.map(|r| r.err())),
        }
    };
    let pkey = |what: &str, vk: Option<VerifyingKey<S::C>>, c: &RC<S::F, P>| -> Result<ProvingKey<S::C>, Fail> {
        match guarded(|| match vk {
            Some(v) => S::pk(&p, v, c),
            None => S::pk2(&p, c),
        }) {
            Ok(Ok(k)) => Ok(k),
            e => fail!("key generation ({}) failed: {:?}", what, e.map(|r| r.err())),
        }
    };
    let empty = c.without_witnesses();
    let other = c.with_seed(g.u64());
    let mut broken = c.with_seed(g.u64());
    for _ in 0..2 {
        let r = g.usize(spec.regs.len());
        // (the others would be tied by other calls in another order)
        let ks: Vec<_> = spec.regs[r].adv.iter().filter(|x| matches!(x.1, Rule::Free | Rule::Gate(..) | Rule::Look(..))).map(|x| *x.0).collect();
        if !ks.is_empty() {
            let (col, o) = *g.pick(&ks);
            broken.over.insert((r, Co::A(col), o), rnd(g));
        }
    }
    let base = key("witness", &c)?;
    let (f0, r0) = (face::<S>(&base), repr::<S>(&base)?);
    for (what, x) in [("again", &c), ("no witness", &empty), ("other witness", &other), ("unsatisfied witness", &broken)] {
        let v = key(what, x)?;
        ensure_eq!(face::<S>(&v), f0, "verifying key: {}", what);
        ensure_eq!(repr::<S>(&v)?, r0, "key in the transcript: {}", what);
    }
    let p1 = pkey("from the verifying key", Some(base.clone()), &empty)?;
    let p2 = pkey("directly", None, &c)?;
    let p3 = pkey("directly, no witness", None, &empty)?;
    let d = format!("{:?}", p1);
    ensure!(format!("{:?}", p2) == d, "proving key made directly differs from the one made from the verifying key");
    ensure!(format!("{:?}", p3) == d, "proving key made without witness differs");
    ensure_eq!(face::<S>(p2.get_vk()), f0, "verifying key inside the proving key");
    Ok(())
}

fn sensitivity<S: Sys, P: FloorPlanner>(g: &mut G) -> R
where
    KB: Kind<S::C>,
{
    let o = opt(g);
    let spec: Arc<Spec<S::F>> = Arc::new(gen(g, o));
    let (c, k) = build::<S::F, P>(spec.clone(), g.u64(), 1);
    set_spec(&spec);
    classes(g, &spec);
    g.desc(|| format!("k={} {:?}", k, spec));
    let p = S::params(k);
    let base = match guarded(|| S::vk(&p, &c)) {
        Ok(Ok(k)) => k,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    let lab = Lab::synth(k, &c, &c.inst, 1).map_err(|e| Fail::from(format!("lab: {:?}", e)))?;
    let (f0, r0) = (format!("{:?}", base.pinned()), repr::<S>(&base)?);
    for _ in 0..6 {
        let (t, what) = match if g.bool() { vary(g, &spec) } else { vary2(g, &spec) } {
            Some(x) => x,
            None => continue,
        };
        let t = Arc::new(t);
        let mut c2 = c.clone();
        c2.spec = t.clone();
        set_spec(&t);
        let vk = guarded(|| S::vk(&p, &c2.without_witnesses()));
        let classes2 = guarded(|| requested(&c2.without_witnesses(), lab.usable));
        set_spec(&spec);
        let vk = match vk {
            Ok(Ok(v)) => v,
            Ok(Err(_)) => {
                g.class("changed circuit does not fit");
                continue;
            }
            Err(e) => fail!("key generation for a changed circuit ({}) panicked: {}", what, e),
        };
        // copies are compared as classes: another way to say the same thing is the same circuit
        if what == "copy" || what == "more copies" {
            let classes2 = match classes2 {
                Ok(Some(x)) => x,
                _ => fail!("a circuit with a key cannot be laid out"),
            };
            if Some(classes2) == requested(&c.without_witnesses(), lab.usable) {
                continue;
            }
        }
        g.class(what);
        ensure!(format!("{:?}", vk.pinned()) != f0, "circuits that differ in a {} have the same verifying key", what);
        ensure!(repr::<S>(&vk)? != r0, "circuits that differ in a {} look the same in a transcript", what);
    }
    Ok(())
}

/// the equality classes a synthesis asks for
fn requested<F: FieldExt, P: FloorPlanner>(c: &RC<F, P>, usable: usize) -> Option<BTreeSet<BTreeSet<Cell>>> {
    let (r, ev, _, _) = record(c, usable, vec![]);
    r.ok()?;
    let kind = |k: u8| [CK::Advice, CK::Fixed, CK::Instance][k as usize];
    let copies: Vec<(Cell, Cell)> = ev
        .iter()
        .filter_map(|e| match e {
            Ev::Copy((a, i), r, (b, j), q) => Some(((kind(*a), *i, *r), (kind(*b), *j, *q))),
            _ => None,
        })
        .collect();
    Some(classes_of(&copies))
}
fn partition<F: FieldExt>(l: &Lab<F>) -> BTreeSet<BTreeSet<Cell>> {
    classes_of(&l.copies)
}
fn classes_of(copies: &[(Cell, Cell)]) -> BTreeSet<BTreeSet<Cell>> {
    let mut of: HashMap<Cell, usize> = HashMap::new();
    let mut sets: Vec<BTreeSet<Cell>> = vec![];
    for (a, b) in copies {
        for c in [a, b] {
            if !of.contains_key(c) {
                of.insert(*c, sets.len());
                sets.push([*c].into_iter().collect());
            }
        }
        let (x, y) = (of[a], of[b]);
        if x != y {
            let s = std::mem::take(&mut sets[x]);
            for c in &s {
                of.insert(*c, y);
            }
            sets[y].extend(s);
        }
    }
    sets.into_iter().filter(|s| s.len() > 1).collect()
}

/// more ways to change a circuit
fn vary2<F: FieldExt>(g: &mut G, s: &Spec<F>) -> Option<(Spec<F>, &'static str)> {
    let mut t = s.clone();
    // (no witness is computed for the changed circuit)
    for r in &mut t.regs {
        for v in r.adv.values_mut() {
            if matches!(v, Rule::Gate(..) | Rule::Look(..)) {
                *v = Rule::Free;
            }
        }
    }
    match g.below(12) {
        0 => {
            t.adv.push(Adv { phase: 0, eq: false, small: 0, rank: 0 });
            Some((t, "advice column count"))
        }
        1 => {
            t.inst.push(0);
            t.inst_eq.push(false);
            Some((t, "instance column count"))
        }
        2 => {
            t.chals.push(2);
            if !t.adv.iter().any(|a| a.phase == 2) {
                return None;
            }
            Some((t, "challenge"))
        }
        3 if !s.gates.is_empty() => {
            let i = g.usize(s.gates.len());
            let p = g.usize(s.gates[i].polys.len());
            match &mut t.gates[i].polys[p] {
                Poly::Out { rot, .. } | Poly::Small { rot, .. } => *rot += 1,
            }
            Some((t, "rotation"))
        }
        4 if s.gates.len() > 1 => {
            let i = g.usize(s.gates.len());
            t.gates.remove(i);
            Some((t, "missing gate"))
        }
        5 if !s.gates.is_empty() => {
            let i = g.usize(s.gates.len());
            if s.gates[i].polys.len() < 2 {
                return None;
            }
            t.gates[i].polys.pop();
            Some((t, "missing constraint of a gate"))
        }
        6 if !s.lks.is_empty() => {
            t.lks.pop();
            Some((t, "missing lookup"))
        }
        7 if !s.lks.is_empty() => {
            let i = g.usize(s.lks.len());
            match &mut t.lks[i].tab {
                Tab::Any { exprs, .. } => {
                    let e = &mut exprs[0];
                    *e = X::Add(Box::new(e.clone()), Box::new(X::C(nz(g))));
                    Some((t, "lookup table expression"))
                }
                Tab::Static(ti, cols) => {
                    let w = s.tables[*ti].cols.len();
                    if w < 2 {
                        return None;
                    }
                    cols[0] = (cols[0] + 1) % w;
                    Some((t, "lookup table column"))
                }
            }
        }
        8 => {
            // two cells that were free of each other become equal
            let cells: Vec<Id> = s.regs.iter().enumerate().flat_map(|(r, x)| x.adv.keys().filter(|k| s.adv[k.0].eq).map(move |k| (r, Co::A(k.0), k.1))).collect();
            if cells.len() < 2 {
                return None;
            }
            let a = *g.pick(&cells);
            let b = *g.pick(&cells);
            if a == b {
                return None;
            }
            // regions later in the synthesis can refer to earlier ones
            let pos = |r: usize| s.items.iter().position(|i| *i == Item::Reg(r)).unwrap();
            let at = if pos(a.0) > pos(b.0) { a.0 } else { b.0 };
            t.regs[at].eqs.push((a, b));
            Some((t, "more copies"))
        }
        9 => {
            let r = g.usize(s.regs.len());
            if s.sels.is_empty() {
                return None;
            }
            let sel = g.usize(s.sels.len());
            let offs: Vec<usize> = s.regs[r].adv.keys().map(|k| k.1).chain(s.regs[r].sels.iter().map(|k| k.1)).collect();
            if offs.is_empty() {
                return None;
            }
            let o = *g.pick(&offs);
            if !t.regs[r].sels.insert((sel, o)) {
                return None;
            }
            Some((t, "more selector activations"))
        }
        10 if !s.sels.is_empty() => {
            t.sels.push(true);
            Some((t, "selector count"))
        }
        _ => {
            let d = {
                let mut cs = ConstraintSystem::<F>::default();
                configure(s, &mut cs);
                cs.degree()
            };
            t.min_degree = Some(d + 1 + g.usize(2));
            Some((t, "degree"))
        }
    }
}

// ------------------------------------------------------------------ contents

struct Parsed {
    l: [Vec<Fr>; 3],
    fixed: Vec<Vec<Fr>>,
    fixed_polys: Vec<Vec<Fr>>,
    perm: Vec<Vec<Fr>>,
    perm_polys: Vec<Vec<Fr>>,
}
fn parse(pk: &ProvingKey<G1Affine>) -> Result<Parsed, Fail> {
    let mut b = vec![];
    let mut v = vec![];
    pk.write(&mut b, SerdeFormat::Processed).map_err(|e| Fail::from(format!("{:?}", e)))?;
    pk.get_vk().write(&mut v, SerdeFormat::Processed).map_err(|e| Fail::from(format!("{:?}", e)))?;
    let mut at = v.len();
    let num = |at: &mut usize| -> usize {
        let n = u32::from_be_bytes(b[*at..*at + 4].try_into().unwrap()) as usize;
        *at += 4;
        n
    };
    fn poly(b: &[u8], at: &mut usize) -> Vec<Fr> {
        let n = u32::from_be_bytes(b[*at..*at + 4].try_into().unwrap()) as usize;
        *at += 4;
        (0..n)
            .map(|_| {
                let mut r = <Fr as PrimeField>::Repr::default();
                r.as_mut().copy_from_slice(&b[*at..*at + 32]);
                *at += 32;
                Option::from(Fr::from_repr(r)).unwrap()
            })
            .collect()
    }
    let l = [poly(&b, &mut at), poly(&b, &mut at), poly(&b, &mut at)];
    let mut many = |at: &mut usize| -> Vec<Vec<Fr>> {
        let n = num(at);
        (0..n).map(|_| poly(&b, at)).collect()
    };
    let (fixed, fixed_polys, perm, perm_polys) = (many(&mut at), many(&mut at), many(&mut at), many(&mut at));
    ensure_eq!(at, b.len(), "length of a proving key");
    Ok(Parsed { l, fixed, fixed_polys, perm, perm_polys })
}

fn eval<F: FieldExt>(l: &Lab<F>, fixed: &[Vec<F>], e: &Ex<F>, row: usize) -> F {
    let at = |r: i32| ((row as i64 + r as i64).rem_euclid(l.n as i64)) as usize;
    match e {
        Ex::Const(c) => *c,
        Ex::Sel(s) => {
            if l.selectors[*s][row] {
                F::one()
            } else {
                F::zero()
            }
        }
        Ex::Cell(CK::Fixed, c, r) => fixed[*c][at(*r)],
        Ex::Cell(k, c, r) => l.get((*k, *c, at(*r))),
        Ex::Chal(i) => l.challenges[*i],
        Ex::Neg(a) => -eval(l, fixed, a, row),
        Ex::Sum(a, b) => eval(l, fixed, a, row) + eval(l, fixed, b, row),
        Ex::Mul(a, b) => eval(l, fixed, a, row) * eval(l, fixed, b, row),
    }
}

/// the key holds the circuit's fixed values, selectors and copies
fn contents<P: FloorPlanner>(g: &mut G) -> R {
    let o = opt(g);
    let spec: Arc<Spec<Fr>> = Arc::new(gen(g, o));
    let slack = if g.chance(1, 5) { 1 } else { 0 };
    let (c, k) = build::<Fr, P>(spec.clone(), g.u64(), slack);
    set_spec(&spec);
    classes(g, &spec);
    g.desc(|| format!("k={} {:?}", k, spec));
    let p = Gwc::params(k);
    let pk = match guarded(|| Gwc::pk2(&p, &c)) {
        Ok(Ok(k)) => k,
        e => fail!("key generation failed: {:?}", e.map(|r| r.err())),
    };
    let vk = pk.get_vk();
    let mut lab = Lab::synth(k, &c, &c.inst, 1).map_err(|e| Fail::from(format!("lab: {:?}", e)))?;
    let x = parse(&pk)?;
    let n = lab.n;
    let w = vk.get_domain().get_omega();
    let pts: Vec<Fr> = (0..n).map(|i| pow(w, i as u64)).collect();
    // the three helper polynomials
    let inact = lab.usable;
    for i in 0..n {
        let e = [i == 0, i == inact, i < inact];
        for (j, poly) in x.l.iter().enumerate() {
            ensure_eq!(ev(poly, pts[i]), if e[j] { Fr::one() } else { Fr::zero() }, "helper polynomial {} at row {} of {} ({} usable)", j, i, n, lab.usable);
        }
    }
    // fixed columns
    let nf = lab.cs.num_fixed_columns();
    ensure!(x.fixed.len() >= nf, "missing fixed columns");
    ensure_eq!(x.fixed.len(), vk.cs().num_fixed_columns(), "fixed columns");
    ensure_eq!(x.fixed.len(), vk.fixed_commitments().len(), "fixed commitments");
    for i in 0..nf {
        ensure_eq!(x.fixed[i], lab.fixed[i], "values of fixed column {}", i);
    }
    for (i, v) in x.fixed.iter().enumerate() {
        ensure_eq!(Gwc::commit(&p, v), vk.fixed_commitments()[i], "commitment of fixed column {}", i);
        for j in 0..n {
            ensure_eq!(ev(&x.fixed_polys[i], pts[j]), v[j], "polynomial of fixed column {} at {}", i, j);
        }
    }
    // selectors
    let cs = vk.cs();
    let deg = lab.cs.degree();
    ensure!(cs.degree() <= deg, "selectors raised the degree from {} to {}", deg, cs.degree());
    ensure_eq!(cs.gates().len(), lab.cs.gates().len(), "number of gates");
    let after: Vec<Vec<Ex<Fr>>> = cs.gates().iter().map(|g| g.polynomials().iter().map(conv).collect()).collect();
    let after_lk: Vec<(Vec<Ex<Fr>>, Vec<Ex<Fr>>)> = cs.lookups().iter().map(|l| (l.input_expressions().iter().map(conv).collect(), l.table_expressions().iter().map(conv).collect())).collect();
    let combined = x.fixed.len() - nf < lab.selectors.len();
    if combined {
        g.class("combined selectors");
    }
    // several assignments: random ones, and ones with many zeros
    for round in 0..4 {
        if round > 0 {
            let mut r = Rng(g.xo());
            use rand_core::RngCore;
            for col in lab.advice.iter_mut().chain(lab.instance.iter_mut()) {
                for v in col.iter_mut() {
                    *v = if r.next_u32() % 4 < round { Fr::zero() } else { Fr::random(&mut r) };
                }
            }
        }
        for (gi, (a, b)) in lab.gates.iter().zip(&after).enumerate() {
            ensure_eq!(a.len(), b.len(), "constraints of gate {}", gi);
            for (pi, (ea, eb)) in a.iter().zip(b).enumerate() {
                for row in 0..n {
                    let va = eval(&lab, &lab.fixed, ea, row);
                    let vb = eval(&lab, &x.fixed, eb, row);
                    ensure_eq!(va == Fr::zero(), vb == Fr::zero(), "gate {} constraint {} at row {} before and after selectors became columns", gi, pi, row);
                }
            }
        }
        for (li, ((ia, ta), (ib, tb))) in lab.lookups.iter().zip(&after_lk).enumerate() {
            ensure_eq!((ia.len(), ta.len()), (ib.len(), tb.len()), "lookup {}", li);
            for (ea, eb) in ia.iter().zip(ib).chain(ta.iter().zip(tb)) {
                for row in 0..n {
                    ensure_eq!(eval(&lab, &lab.fixed, ea, row), eval(&lab, &x.fixed, eb, row), "lookup {} at row {} before and after selectors became columns", li, row);
                }
            }
        }
    }
    // copies
    let cols = cs.permutation().get_columns();
    ensure_eq!(cols.len(), x.perm.len(), "permutation columns");
    ensure_eq!(cols.len(), vk.permutation().commitments().len(), "permutation commitments");
    let kind = |c: &Column<Any>| match c.column_type() {
        Any::Advice(_) => CK::Advice,
        Any::Fixed => CK::Fixed,
        Any::Instance => CK::Instance,
    };
    let mut id: HashMap<Vec<u8>, (usize, usize)> = HashMap::new();
    for i in 0..cols.len() {
        let d = pow(Fr::DELTA, i as u64);
        for j in 0..n {
            id.insert((d * pts[j]).to_repr().as_ref().to_vec(), (i, j));
        }
    }
    ensure_eq!(id.len(), cols.len() * n, "cell labels are different");
    let mut next: BTreeMap<(usize, usize), (usize, usize)> = BTreeMap::new();
    let mut seen = BTreeSet::new();
    for i in 0..cols.len() {
        ensure_eq!(Gwc::commit(&p, &x.perm[i]), vk.permutation().commitments()[i], "commitment of permutation column {}", i);
        for j in 0..n {
            ensure_eq!(ev(&x.perm_polys[i], pts[j]), x.perm[i][j], "permutation polynomial {} at {}", i, j);
            let to = match id.get(x.perm[i][j].to_repr().as_ref()) {
                Some(t) => *t,
                None => fail!("permutation value of column {} row {} names no cell", i, j),
            };
            ensure!(seen.insert(to), "not a permutation");
            next.insert((i, j), to);
        }
    }
    let mut cycles: BTreeSet<BTreeSet<Cell>> = BTreeSet::new();
    let mut done = BTreeSet::new();
    for s in next.keys() {
        let mut set = BTreeSet::new();
        let mut at = *s;
        while done.insert(at) {
            set.insert((kind(&cols[at.0]), cols[at.0].index(), at.1));
            at = next[&at];
        }
        if set.len() > 1 {
            cycles.insert(set);
        }
    }
    let want = partition(&lab);
    if !want.is_empty() {
        g.class("copy classes");
    }
    if cycles != want {
        fail!("copy classes in the key {:?}, requested {:?}", cycles.symmetric_difference(&want).take(4).collect::<Vec<_>>(), want.len());
    }
    Ok(())
}

// ------------------------------------------------------------------ refusals

#[derive(Clone)]
struct Unknown(bool);
impl Circuit<Fr> for Unknown {
    type Config = (Column<Fixed>, Column<Advice>);
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(m: &mut ConstraintSystem<Fr>) -> Self::Config {
        (m.fixed_column(), m.advice_column())
    }
    fn synthesize(&self, c: Self::Config, mut l: impl halo2_proofs::circuit::Layouter<Fr>) -> Result<(), Error> {
        l.assign_region(
            || "r",
            |mut r| {
                r.assign_advice(|| "a", c.1, 0, || Value::<Fr>::unknown())?;
                r.assign_fixed(|| "f", c.0, 0, || if self.0 { Value::known(Fr::one()) } else { Value::unknown() })?;
                Ok(())
            },
        )
    }
}
fn refusals(g: &mut G) -> R {
    let known = g.bool();
    let k = g.range(4, 6) as u32;
    g.nontrivial();
    let p = Gwc::params(k);
    let r = guarded(|| (Gwc::vk(&p, &Unknown(known)).is_ok(), Gwc::pk2(&p, &Unknown(known)).is_ok()));
    match r {
        Ok((a, b)) => {
            ensure_eq!(a, known, "verifying key for a fixed value that is known: {}", known);
            ensure_eq!(b, known, "proving key for a fixed value that is known: {}", known);
        }
        Err(e) => fail!("key generation panicked: {}", e),
    }
    Ok(())
}

pub fn c13() -> Check {
    Check {
        id: "C13",
        rule: "the circuit has an active gate or lookup",
        assumptions: vec![],
        laws: vec![
            Law::new("contents", 150, 4000, |g| if g.bool() { contents::<SimpleFloorPlanner>(g) } else { contents::<V1>(g) }).shrink(150),
            Law::new("determinism", 60, 800, |g| match g.below(3) {
                0 => determinism::<Gwc, SimpleFloorPlanner>(g),
                1 => determinism::<IpaEq, V1>(g),
                _ => determinism::<IpaEp, SimpleFloorPlanner>(g),
            })
            .shrink(120),
            Law::new("sensitivity", 80, 1500, |g| match g.below(3) {
                0 => sensitivity::<Gwc, SimpleFloorPlanner>(g),
                1 => sensitivity::<IpaEq, SimpleFloorPlanner>(g),
                _ => sensitivity::<Gwc, V1>(g),
            })
            .shrink(120),
            Law::new("unknown fixed values", 4, 20, refusals),
        ],
    }
}

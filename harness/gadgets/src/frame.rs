//! Shared frame of the gadget checks.  Every gadget circuit ties its inputs and outputs to rows of
//! one instance column.  `honest` synthesizes it and requires that it is satisfied; `attack` lets
//! the adversarial search look for any accepted assignment and requires that the instance values
//! of whatever it finds are in the reference relation.
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use vh_common::bigref::*;
use vh_common::*;
use vh_lab::forge::{Budget, Forge};
use vh_lab::{Kind, Lab, Rng};
pub use num_bigint::BigUint;

pub fn rng(g: &mut G) -> Rng {
    Rng(g.xo())
}
pub fn int<F: FieldExt>(x: &F) -> BigUint {
    le(x.to_repr().as_ref())
}
pub fn fe<F: FieldExt>(x: &BigUint) -> F {
    let p = int(&-F::one()) + 1u32;
    let b = to_le(&(x % p), 32);
    let mut r = F::Repr::default();
    r.as_mut().copy_from_slice(&b);
    F::from_repr(r).unwrap()
}
pub fn pow2(n: usize) -> BigUint {
    BigUint::from(1u32) << n
}
/// a number below 2^bits, with emphasis on the edges
pub fn below_bits(g: &mut G, bits: usize) -> BigUint {
    if bits == 0 {
        return BigUint::from(0u32);
    }
    let m = pow2(bits);
    match g.below(8) {
        0 => BigUint::from(0u32),
        1 => BigUint::from(1u32) % &m,
        2 => &m - 1u32,
        3 => pow2(g.usize(bits)),
        4 => pow2(g.usize(bits)) - 1u32,
        _ => le(&g.bytes(32)) % &m,
    }
}
/// any field element, with emphasis on the edges
pub fn any<F: FieldExt>(g: &mut G) -> F {
    match g.below(9) {
        0 => F::zero(),
        1 => F::one(),
        2 => -F::one(),
        3 => F::from(g.below(1 << 12)),
        4 => -F::from(g.below(1 << 12)),
        5 => {
            let k = g.usize(256);
            fe(&pow2(k))
        }
        6 => {
            // small over a power of two
            let k = g.usize(16);
            F::from(g.below(1 << 12)) * fe::<F>(&pow2(k)).invert().unwrap()
        }
        _ => F::random(rng(g)),
    }
}

/// instance rows take the values of the cells they are tied to
pub fn bind<F: FieldExt>(lab: &mut Lab<F>) {
    for (a, b) in lab.copies.clone() {
        for (i, o) in [(a, b), (b, a)] {
            if i.0 == Kind::Instance && o.0 != Kind::Instance {
                let v = lab.get(o);
                lab.instance[i.1][i.2] = v;
            }
        }
    }
}

pub fn synth<F: FieldExt, C: Circuit<F>>(k: u32, c: &C) -> Result<Lab<F>, Error> {
    let mut cs = ConstraintSystem::default();
    C::configure(&mut cs);
    let inst = vec![vec![]; cs.num_instance_columns()];
    let mut lab = Lab::synth(k, c, &inst, 0)?;
    bind(&mut lab);
    Ok(lab)
}
/// synthesis that must succeed and satisfy the circuit
pub fn honest<F: FieldExt, C: Circuit<F>>(k: u32, c: &C, what: &str) -> Result<Lab<F>, Fail> {
    let lab = match guarded(|| synth(k, c)) {
        Ok(Ok(l)) => l,
        Ok(Err(e)) => fail!("{}: honest synthesis failed with {:?}", what, e),
        Err(p) => fail!("{}: honest synthesis panicked: {}", what, p),
    };
    let bad = lab.check(3);
    ensure!(bad.is_empty(), "{}: the honest assignment is not accepted: {:?}", what, bad);
    Ok(lab)
}
pub fn io<F: FieldExt>(lab: &Lab<F>, n: usize) -> Vec<F> {
    lab.instance[0][..n].to_vec()
}

/// one new value for a class
fn fresh<F: FieldExt>(f: &Forge<F>, ts: &[usize], v: usize, g: &mut G) -> F {
    let cur = f.val[v];
    match g.below(8) {
        0 => cur + F::one(),
        1 => cur - F::one(),
        2 => F::from(g.below(4)),
        3 => -cur,
        4 => {
            let o = ts[g.usize(ts.len())];
            f.val[o]
        }
        5 => any(g),
        6 => cur.double(),
        _ => F::random(rng(g)),
    }
}

/// a difference in a few bits
fn nudge<F: FieldExt>(g: &mut G) -> F {
    let k = *g.pick(&[0usize, 1, 3, 4, 5, 8, 9, 10, 64, 120, 128, 130, 239, 240, 249, 250, 251, 252, 253, 254]);
    let k = if g.chance(1, 3) { g.usize(255) } else { k };
    let d = fe::<F>(&pow2(k)) * F::from(g.range(1, 4) as u64);
    if g.bool() {
        d
    } else {
        -d
    }
}

pub struct Attack<'a, F> {
    /// number of instance rows in use; the first `inputs` are inputs
    pub n_io: usize,
    pub inputs: usize,
    pub tries: usize,
    pub budget: Budget,
    pub rel: &'a dyn Fn(&[F]) -> Result<(), String>,
}

/// Returns how many accepted assignments with instance values other than the honest ones were seen.
pub fn attack<F: FieldExt>(g: &mut G, lab: Lab<F>, a: Attack<F>) -> Result<usize, Fail> {
    attack_more(g, lab, a, &[])
}
/// the relation also gets the values of some private cells, after the instance values
pub fn attack_more<F: FieldExt>(g: &mut G, lab: Lab<F>, a: Attack<F>, more: &[(Kind, usize, usize)]) -> Result<usize, Fail> {
    let mut f = Forge::new(lab);
    let ins: Vec<usize> = (0..a.inputs).map(|i| f.class((Kind::Instance, 0, i))).collect();
    let outs: Vec<usize> = (a.inputs..a.n_io).map(|i| f.class((Kind::Instance, 0, i))).collect();
    let honest: Vec<F> = ins.iter().chain(&outs).map(|c| f.val[*c]).collect();
    let ts = f.targets();
    if ts.is_empty() {
        return Ok(0);
    }
    let mut seen = 0;
    for t in 0..a.tries {
        f.reset();
        let keep_in = g.chance(2, 3);
        let mut fixed: Vec<usize> = if keep_in { ins.clone() } else { vec![] };
        let mut ch: Vec<(usize, F)> = vec![];
        match g.below(10) {
            // an input, while all the outputs stay
            8 | 9 if !outs.is_empty() && !ins.is_empty() => {
                let v = ins[g.usize(ins.len())];
                let x = if g.chance(1, 4) { fresh(&f, &ts, v, g) } else { f.val[v] + nudge::<F>(g) };
                fixed = outs.iter().cloned().filter(|o| *o != v).collect();
                if g.bool() {
                    fixed.extend(ins.iter().cloned().filter(|i| *i != v));
                }
                ch.push((v, x));
            }
            // another root of some constraint
            0 | 1 | 2 => {
                let c = g.usize(f.num_constraints());
                let vs: Vec<usize> = f.constraint_vars(c).iter().cloned().filter(|v| !fixed.contains(v)).collect();
                if vs.is_empty() {
                    continue;
                }
                let v = vs[g.usize(vs.len())];
                let mut r = rng(g);
                let alts: Vec<F> = f.alternatives(c, v, &mut r).into_iter().filter(|x| *x != f.val[v]).collect();
                if alts.is_empty() {
                    continue;
                }
                ch.push((v, alts[g.usize(alts.len())]));
            }
            // an output
            3 if !outs.is_empty() => {
                let v = outs[g.usize(outs.len())];
                let x = fresh(&f, &ts, v, g);
                ch.push((v, x));
            }
            // two cells
            4 => {
                for _ in 0..2 {
                    let v = ts[g.usize(ts.len())];
                    let x = fresh(&f, &ts, v, g);
                    if !ch.iter().any(|(w, _)| *w == v) {
                        ch.push((v, x));
                    }
                }
            }
            _ => {
                // every cell gets its turn
                let v = if t % 2 == 0 { ts[(t / 2 + g.index * (a.tries / 2).max(1)) % ts.len()] } else { ts[g.usize(ts.len())] };
                let x = fresh(&f, &ts, v, g);
                ch.push((v, x));
            }
        }
        if ch.iter().any(|(v, x)| fixed.contains(v) || f.is_pinned(*v) || f.val[*v] == *x) {
            continue;
        }
        let mut r = rng(g);
        g.evals(1);
        if f.search(&ch, &fixed, &mut r, a.budget) {
            let now: Vec<F> = (0..a.n_io).map(|i| f.value((Kind::Instance, 0, i))).collect();
            if now != honest {
                seen += 1;
            }
            let all: Vec<F> = now.iter().cloned().chain(more.iter().map(|c| f.value(*c))).collect();
            if let Err(e) = (a.rel)(&all) {
                fail!("the circuit accepts a false statement: {}; instance {:?} (honest {:?}; {} cells differ)", e, now, honest, f.differ());
            }
        }
    }
    g.evals(a.tries);
    Ok(seen)
}

/// An assignment made by the gadget's own code from values outside its domain: nothing may make it
/// accepted while the inputs stay (unless the relation holds after all).
pub fn outside<F: FieldExt>(g: &mut G, lab: Lab<F>, a: Attack<F>) -> R {
    if lab.accepts() {
        let v = io(&lab, a.n_io);
        if let Err(e) = (a.rel)(&v) {
            fail!("the gadget's own assignment for an input outside its domain is accepted: {}; instance {:?}", e, v);
        }
        return Ok(());
    }
    let mut f = Forge::new(lab);
    let ins: Vec<usize> = (0..a.inputs).map(|i| f.class((Kind::Instance, 0, i))).collect();
    for _ in 0..a.tries {
        f.reset();
        let mut r = rng(g);
        g.evals(1);
        if f.search_all(&ins, &mut r, a.budget) {
            let now: Vec<F> = (0..a.n_io).map(|i| f.value((Kind::Instance, 0, i))).collect();
            if let Err(e) = (a.rel)(&now) {
                fail!("the circuit can be satisfied for an input outside the domain: {}; instance {:?}", e, now);
            }
        }
    }
    Ok(())
}

/// loads 0..2^k into a table column
pub fn load_table<F: FieldExt>(l: &mut impl Layouter<F>, t: TableColumn, k: usize) -> Result<(), Error> {
    l.assign_table(
        || "table",
        |mut tab| {
            for i in 0..1usize << k {
                tab.assign_cell(|| "i", t, i, || Value::known(F::from(i as u64)))?;
            }
            Ok(())
        },
    )
}
pub fn private<F: FieldExt>(l: &mut impl Layouter<F>, c: Column<Advice>, v: F) -> Result<AssignedCell<F, F>, Error> {
    l.assign_region(|| "private", |mut r| r.assign_advice(|| "v", c, 0, || Value::known(v)))
}
/// ties cells to successive instance rows
pub struct Tie {
    pub col: Column<Instance>,
    pub next: usize,
}
impl Tie {
    pub fn tie<F: FieldExt>(&mut self, l: &mut impl Layouter<F>, c: &AssignedCell<F, F>) -> Result<(), Error> {
        l.constrain_instance(c.cell(), self.col, self.next)?;
        self.next += 1;
        Ok(())
    }
}

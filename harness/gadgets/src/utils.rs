//! C30: utility gadgets.
use crate::frame::*;
use ff::PrimeFieldBits;
use halo2_gadgets::utilities::cond_swap::{CondSwapChip, CondSwapConfig, CondSwapInstructions};
use halo2_gadgets::utilities::decompose_running_sum::RunningSumConfig;
use halo2_gadgets::utilities::lookup_range_check::LookupRangeCheckConfig;
use halo2_gadgets::utilities::*;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2curves::pasta::{Fp, Fq};
use std::marker::PhantomData;
use vh_common::*;
use vh_lab::forge::Budget;

pub trait FB: FieldExt + PrimeFieldBits {}
impl<T: FieldExt + PrimeFieldBits> FB for T {}

fn b() -> Budget {
    Budget { steps: 600, backtracks: 60 }
}

// ---------------------------------------------------------------- lookup range checks
#[derive(Clone, Debug)]
enum RcOp<F> {
    Copy(F, usize, bool),
    Witness(F, usize, bool),
    CopyShort(F, usize),
    WitnessShort(F, usize),
    /// bits lo..hi of the value
    Range(F, usize, usize),
}
#[derive(Clone)]
struct RcCfg<F: FB, const K: usize> {
    free: Column<Advice>,
    io: Column<Instance>,
    table: TableColumn,
    rc: LookupRangeCheckConfig<F, K>,
}
#[derive(Clone)]
struct Rc<F, P, const K: usize> {
    ops: Vec<RcOp<F>>,
    _p: PhantomData<P>,
}
impl<F: FB, P: FloorPlanner, const K: usize> Circuit<F> for Rc<F, P, K> {
    type Config = RcCfg<F, K>;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Self { ops: self.ops.clone(), _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        let free = m.advice_column();
        let run = m.advice_column();
        let k = m.fixed_column();
        let io = m.instance_column();
        m.enable_equality(free);
        m.enable_equality(io);
        m.enable_constant(k);
        let table = m.lookup_table_column();
        RcCfg { free, io, table, rc: LookupRangeCheckConfig::configure(m, run, table) }
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        load_table(&mut l, c.table, K)?;
        let mut t = Tie { col: c.io, next: 0 };
        for o in &self.ops {
            match o {
                RcOp::Copy(x, w, s) => {
                    let x = private(&mut l, c.free, *x)?;
                    t.tie(&mut l, &x)?;
                    let z = c.rc.copy_check(l.namespace(|| "copy"), x, *w, *s)?;
                    if z.len() != w + 1 {
                        return Err(Error::Synthesis);
                    }
                    for z in z.iter() {
                        t.tie(&mut l, z)?;
                    }
                }
                RcOp::Witness(x, w, s) => {
                    let z = c.rc.witness_check(l.namespace(|| "wit"), Value::known(*x), *w, *s)?;
                    if z.len() != w + 1 {
                        return Err(Error::Synthesis);
                    }
                    t.tie(&mut l, &z[0])?;
                    for z in z.iter() {
                        t.tie(&mut l, z)?;
                    }
                }
                RcOp::CopyShort(x, n) => {
                    let x = private(&mut l, c.free, *x)?;
                    t.tie(&mut l, &x)?;
                    c.rc.copy_short_check(l.namespace(|| "short"), x, *n)?;
                }
                RcOp::WitnessShort(x, n) => {
                    let z = c.rc.witness_short_check(l.namespace(|| "short"), Value::known(*x), *n)?;
                    t.tie(&mut l, &z)?;
                }
                RcOp::Range(x, lo, hi) => {
                    let z = RangeConstrained::<F, AssignedCell<F, F>>::witness_short(&c.rc, l.namespace(|| "short"), Value::known(x), *lo..*hi)?;
                    if z.num_bits() != hi - lo {
                        return Err(Error::Synthesis);
                    }
                    t.tie(&mut l, z.inner())?;
                }
            }
        }
        Ok(())
    }
}
/// the relation of a list of operations over the instance rows
fn rc_rel<F: FB, const K: usize>(ops: &[RcOp<F>], v: &[F]) -> Result<(), String> {
    let mut i = 0;
    for o in ops {
        match o {
            RcOp::Copy(_, w, s) | RcOp::Witness(_, w, s) => {
                let z = &v[i + 1..i + w + 2];
                if z[0] != v[i] {
                    return Err(format!("the running sum starts at {:?}, not at the element {:?}", z[0], v[i]));
                }
                for j in 0..*w {
                    let a = int(&(z[j] - z[j + 1] * F::from(1 << K)));
                    if a >= pow2(K) {
                        return Err(format!("word {} of {:?} is {} and not a {}-bit word", j, v[i], a, K));
                    }
                }
                if *s {
                    let x = int(&v[i]);
                    if x >= pow2(K * w) {
                        return Err(format!("{} passes a strict check of {} words of {} bits", x, w, K));
                    }
                    for j in 0..=*w {
                        if int(&z[j]) != &x >> (K * j) {
                            return Err(format!("z_{} of {} is {:?}", j, x, z[j]));
                        }
                    }
                }
                i += w + 2;
            }
            RcOp::CopyShort(_, n) | RcOp::WitnessShort(_, n) => {
                if int(&v[i]) >= pow2(*n) {
                    return Err(format!("{:?} passes a check of {} bits (K = {})", v[i], n, K));
                }
                i += 1;
            }
            RcOp::Range(_, lo, hi) => {
                if int(&v[i]) >= pow2(hi - lo) {
                    return Err(format!("{:?} passes a check of {} bits (K = {})", v[i], hi - lo, K));
                }
                i += 1;
            }
        }
    }
    Ok(())
}
fn rc_len<F>(ops: &[RcOp<F>]) -> usize {
    ops.iter()
        .map(|o| match o {
            RcOp::Copy(_, w, _) | RcOp::Witness(_, w, _) => w + 2,
            _ => 1,
        })
        .sum()
}
fn rc_k<F>(ops: &[RcOp<F>], kk: usize) -> u32 {
    let rows = ops.iter().map(|o| if let RcOp::Copy(_, w, _) | RcOp::Witness(_, w, _) = o { w + 3 } else { 4 }).sum::<usize>().max(rc_len(ops)).max(1 << kk) + 16;
    let mut k = 4;
    while 1usize << k < rows {
        k += 1;
    }
    k
}
fn max_words<F: FB>(kk: usize) -> usize {
    F::CAPACITY as usize / kk
}
fn rc_in<F: FB, const K: usize>(g: &mut G, op: usize) -> RcOp<F> {
    let w = if g.chance(1, 8) { max_words::<F>(K) } else { g.range(1, max_words::<F>(K).min(14)) };
    match op {
        0 | 1 => {
            let s = g.bool();
            let x = if s { fe(&below_bits(g, K * w)) } else { any(g) };
            if op == 0 {
                RcOp::Copy(x, w, s)
            } else {
                RcOp::Witness(x, w, s)
            }
        }
        2 => {
            let n = g.usize(K);
            RcOp::CopyShort(fe(&below_bits(g, n)), n)
        }
        3 => {
            let n = g.usize(K + 1);
            RcOp::WitnessShort(fe(&below_bits(g, n)), n)
        }
        _ => {
            let n = g.usize(K);
            let lo = g.usize(F::NUM_BITS as usize - n + 1);
            RcOp::Range(any(g), lo, lo + n)
        }
    }
}
fn rc_law<F: FB, P: FloorPlanner, const K: usize>(g: &mut G) -> R {
    let n = g.range(1, 3);
    let ops: Vec<RcOp<F>> = (0..n)
        .map(|_| {
            let o = g.usize(5);
            rc_in::<F, K>(g, o)
        })
        .collect();
    g.desc(|| format!("K={} {:?}", K, ops));
    let c = Rc::<F, P, K> { ops: ops.clone(), _p: PhantomData };
    let k = rc_k(&ops, K);
    let lab = honest(k, &c, "range check")?;
    let n_io = rc_len(&ops);
    let v = io(&lab, n_io);
    rc_rel::<F, K>(&ops, &v)?;
    // the values the caller gets
    let mut i = 0;
    for o in &ops {
        match o {
            RcOp::Copy(x, w, _) | RcOp::Witness(x, w, _) => {
                ensure_eq!(v[i], *x, "the checked element");
                let xi = int(x);
                for j in 0..=*w {
                    // low words are the bits of x
                    let a = &xi % pow2(K * j);
                    let want = (*x - fe::<F>(&a)) * fe::<F>(&pow2(K * j)).invert().unwrap();
                    ensure_eq!(v[i + 1 + j], want, "z_{} of {:?}", j, x);
                }
                i += w + 2;
            }
            RcOp::CopyShort(x, _) | RcOp::WitnessShort(x, _) => {
                ensure_eq!(v[i], *x, "the checked element");
                i += 1;
            }
            RcOp::Range(x, lo, hi) => {
                ensure_eq!(int(&v[i]), (int(x) >> *lo) % pow2(hi - lo), "bits {}..{} of {:?}", lo, hi, x);
                i += 1;
            }
        }
    }
    g.nontrivial();
    let rel = |v: &[F]| rc_rel::<F, K>(&ops, v);
    let seen = attack(g, lab, Attack { n_io, inputs: 0, tries: 40, budget: b(), rel: &rel })?;
    if seen > 0 {
        g.class("another valid assignment reached");
    }
    Ok(())
}
/// out of range values
fn rc_out<F: FB, P: FloorPlanner, const K: usize>(g: &mut G) -> R {
    let w = g.range(1, max_words::<F>(K).min(14));
    let o = g.usize(4);
    let bits = if o < 2 { K * w } else { g.usize(if o == 2 { K } else { K + 1 }) };
    // a value outside
    let x: F = match g.below(6) {
        0 => fe(&pow2(bits)),
        1 => fe(&(pow2(bits) + below_bits(g, bits))),
        2 => -F::from(1 + g.below(1 << 12)),
        3 => {
            // shifting it back into the table works
            let k = g.range(1, K);
            F::from(g.below(1 << K)) * fe::<F>(&pow2(k)).invert().unwrap()
        }
        4 => {
            let k = g.range(bits, 253.max(bits));
            fe(&pow2(k))
        }
        _ => any(g),
    };
    if int(&x) < pow2(bits) {
        return Ok(());
    }
    let op = match o {
        0 => RcOp::Copy(x, w, true),
        1 => RcOp::Witness(x, w, true),
        2 => RcOp::CopyShort(x, bits),
        _ => RcOp::WitnessShort(x, bits),
    };
    let ops = vec![op];
    g.desc(|| format!("K={} outside {:?}", K, ops));
    g.nontrivial();
    let c = Rc::<F, P, K> { ops: ops.clone(), _p: PhantomData };
    let k = rc_k(&ops, K);
    let lab = match guarded(|| synth(k, &c)) {
        Ok(Ok(l)) => l,
        // refusing is fine
        _ => return Ok(()),
    };
    let rel = |v: &[F]| rc_rel::<F, K>(&ops, v);
    outside(g, lab, Attack { n_io: rc_len(&ops), inputs: 1, tries: 6, budget: b(), rel: &rel })
}

// ---------------------------------------------------------------- running sums
#[derive(Clone, Debug)]
struct RsOp<F> {
    copy: bool,
    x: F,
    strict: bool,
    bits: usize,
    offset: usize,
}
#[derive(Clone)]
struct RsCfg<F: FB, const W: usize> {
    free: Column<Advice>,
    io: Column<Instance>,
    rs: RunningSumConfig<F, W>,
}
#[derive(Clone)]
struct Rs<F, P, const W: usize> {
    ops: Vec<RsOp<F>>,
    _p: PhantomData<P>,
}
impl<F: FB, P: FloorPlanner, const W: usize> Circuit<F> for Rs<F, P, W> {
    type Config = RsCfg<F, W>;
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Self { ops: self.ops.clone(), _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        let free = m.advice_column();
        let z = m.advice_column();
        let k = m.fixed_column();
        let io = m.instance_column();
        m.enable_equality(free);
        m.enable_equality(io);
        m.enable_constant(k);
        let q = m.selector();
        RsCfg { free, io, rs: RunningSumConfig::configure(m, q, z) }
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let mut t = Tie { col: c.io, next: 0 };
        for o in &self.ops {
            let n = (o.bits + W - 1) / W;
            let x = if o.copy { Some(private(&mut l, c.free, o.x)?) } else { None };
            let z = l.assign_region(
                || "rs",
                |mut r| match &x {
                    Some(x) => c.rs.copy_decompose(&mut r, o.offset, x.clone(), o.strict, o.bits, n),
                    None => c.rs.witness_decompose(&mut r, o.offset, Value::known(o.x), o.strict, o.bits, n),
                },
            )?;
            if z.len() != n + 1 {
                return Err(Error::Synthesis);
            }
            t.tie(&mut l, x.as_ref().unwrap_or(&z[0]))?;
            for z in z.iter() {
                t.tie(&mut l, z)?;
            }
        }
        Ok(())
    }
}
fn rs_rel<F: FB, const W: usize>(ops: &[RsOp<F>], v: &[F]) -> Result<(), String> {
    let mut i = 0;
    for o in ops {
        let n = (o.bits + W - 1) / W;
        let z = &v[i + 1..i + n + 2];
        if z[0] != v[i] {
            return Err(format!("the running sum starts at {:?}, not at the element {:?}", z[0], v[i]));
        }
        for j in 0..n {
            let a = int(&(z[j] - z[j + 1] * F::from(1 << W)));
            if a >= pow2(W) {
                return Err(format!("window {} of {:?} is {} and not {} bits", j, v[i], a, W));
            }
        }
        if o.strict {
            if n * W < F::NUM_BITS as usize && int(&v[i]) >= pow2(n * W) {
                return Err(format!("{:?} passes a strict decomposition in {} windows of {} bits", v[i], n, W));
            }
            if z[n] != F::zero() {
                return Err(format!("strict decomposition ends in {:?}", z[n]));
            }
        }
        i += n + 2;
    }
    Ok(())
}
fn rs_k<F, const W: usize>(ops: &[RsOp<F>]) -> u32 {
    let rows = ops.iter().map(|o| (o.bits + W - 1) / W + 4 + o.offset).sum::<usize>() + 16;
    let mut k = 4;
    while 1usize << k < rows {
        k += 1;
    }
    k
}
fn rs_law<F: FB, P: FloorPlanner, const W: usize>(g: &mut G) -> R {
    let n = g.range(1, 3);
    let ops: Vec<RsOp<F>> = (0..n)
        .map(|_| {
            let bits = if g.chance(1, 8) { F::NUM_BITS as usize } else { g.range(1, 60) };
            let strict = g.bool();
            RsOp { copy: g.bool(), x: if strict { fe(&below_bits(g, bits)) } else { any(g) }, strict, bits, offset: g.usize(3) }
        })
        .collect();
    g.desc(|| format!("W={} {:?}", W, ops));
    let c = Rs::<F, P, W> { ops: ops.clone(), _p: PhantomData };
    let lab = honest(rs_k::<F, W>(&ops), &c, "running sum")?;
    let n_io = ops.iter().map(|o| (o.bits + W - 1) / W + 2).sum();
    let v = io(&lab, n_io);
    // an honest strict decomposition (or one whose bits beyond are used) is by the bits of x
    let mut i = 0;
    for o in &ops {
        let n = (o.bits + W - 1) / W;
        ensure_eq!(v[i], o.x, "the element");
        let xi = int(&o.x) % pow2(o.bits);
        for j in 0..=n {
            let a = &xi % pow2(W * j);
            let want = (o.x - fe::<F>(&a)) * fe::<F>(&pow2(W * j)).invert().unwrap();
            ensure_eq!(v[i + 1 + j], want, "z_{} of {:?}", j, o.x);
        }
        i += n + 2;
    }
    rs_rel::<F, W>(&ops, &v)?;
    g.nontrivial();
    let rel = |v: &[F]| rs_rel::<F, W>(&ops, v);
    attack(g, lab, Attack { n_io, inputs: 0, tries: 40, budget: b(), rel: &rel })?;
    Ok(())
}
fn rs_out<F: FB, P: FloorPlanner, const W: usize>(g: &mut G) -> R {
    let bits = g.range(1, 60);
    let n = (bits + W - 1) / W;
    let x: F = match g.below(4) {
        0 => fe(&pow2(n * W)),
        1 => fe(&(pow2(n * W) + below_bits(g, n * W))),
        2 => -F::from(1 + g.below(1 << 12)),
        _ => any(g),
    };
    if int(&x) < pow2(n * W) {
        return Ok(());
    }
    let ops = vec![RsOp { copy: g.bool(), x, strict: true, bits, offset: g.usize(3) }];
    g.desc(|| format!("W={} outside {:?}", W, ops));
    g.nontrivial();
    let c = Rs::<F, P, W> { ops: ops.clone(), _p: PhantomData };
    let lab = match guarded(|| synth(rs_k::<F, W>(&ops), &c)) {
        Ok(Ok(l)) => l,
        _ => return Ok(()),
    };
    let rel = |v: &[F]| rs_rel::<F, W>(&ops, v);
    outside(g, lab, Attack { n_io: n + 2, inputs: 1, tries: 6, budget: b(), rel: &rel })
}

// ---------------------------------------------------------------- conditional swap
#[derive(Clone)]
struct Cs<F, P> {
    /// a, b, swap; later ones take `a` from an output of the previous one
    ops: Vec<(F, F, bool, usize)>,
    _p: PhantomData<P>,
}
impl<F: FB, P: FloorPlanner> Circuit<F> for Cs<F, P> {
    type Config = (CondSwapConfig, Column<Advice>, Column<Instance>);
    type FloorPlanner = P;
    fn without_witnesses(&self) -> Self {
        Self { ops: self.ops.clone(), _p: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        let adv = [(); 5].map(|_| m.advice_column());
        let free = m.advice_column();
        let io = m.instance_column();
        m.enable_equality(io);
        m.enable_equality(free);
        for a in &adv[2..] {
            m.enable_equality(*a);
        }
        (CondSwapChip::configure(m, adv), free, io)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let chip = CondSwapChip::construct(c.0);
        let mut t = Tie { col: c.2, next: 0 };
        let mut last: Option<(AssignedCell<F, F>, AssignedCell<F, F>)> = None;
        for (a, b, s, from) in &self.ops {
            let a = match (&last, from) {
                (Some((x, _)), 1) => x.clone(),
                (Some((_, y)), 2) => y.clone(),
                _ => chip.load_private(l.namespace(|| "a"), c.1, Value::known(*a))?,
            };
            t.tie(&mut l, &a)?;
            let (x, y) = chip.swap(l.namespace(|| "swap"), (a, Value::known(*b)), Value::known(*s))?;
            t.tie(&mut l, &x)?;
            t.tie(&mut l, &y)?;
            last = Some((x, y));
        }
        Ok(())
    }
}
fn cs_law<F: FB, P: FloorPlanner>(g: &mut G) -> R {
    let n = g.range(1, 4);
    let ops: Vec<(F, F, bool, usize)> = (0..n).map(|_| (any(g), any(g), g.bool(), g.usize(3))).collect();
    g.desc(|| format!("{:?}", ops));
    let c = Cs::<F, P> { ops: ops.clone(), _p: PhantomData };
    let lab = honest(5, &c, "conditional swap")?;
    let v = io(&lab, 3 * n);
    let mut prev: Option<(F, F)> = None;
    for (i, (a, b, s, from)) in ops.iter().enumerate() {
        let a = match (prev, from) {
            (Some((x, _)), 1) => x,
            (Some((_, y)), 2) => y,
            _ => *a,
        };
        ensure_eq!(v[3 * i], a, "first input of swap {}", i);
        let want = if *s { (*b, a) } else { (a, *b) };
        ensure_eq!((v[3 * i + 1], v[3 * i + 2]), want, "swap {} of ({:?}, {:?}) with {}", i, a, b, s);
        prev = Some(want);
    }
    g.nontrivial();
    let rel = |v: &[F]| {
        for i in 0..n {
            let (a, x, y) = (v[3 * i], v[3 * i + 1], v[3 * i + 2]);
            if a != x && a != y {
                return Err(format!("swap {} of {:?} with something gives ({:?}, {:?})", i, a, x, y));
            }
        }
        Ok(())
    };
    attack(g, lab, Attack { n_io: 3 * n, inputs: 1, tries: 60, budget: b(), rel: &rel })?;
    Ok(())
}

// ---------------------------------------------------------------- expressions and bit functions
fn num<F: FieldExt>(e: &Expression<F>) -> F {
    let no = |_: &dyn std::fmt::Debug| -> F { panic!("a query in an expression made of constants") };
    e.evaluate(&|c| c, &|s| no(&s), &|q| no(&q), &|q| no(&q), &|q| no(&q), &|q| no(&q), &|a| -a, &|a, b| a + b, &|a, b| a * b, &|a, s| a * s)
}
fn expressions<F: FB>(g: &mut G) -> R {
    let range = g.range(1, 20);
    for x in (0..range as u64 + 3).map(F::from).chain([any(g), -F::one(), -F::from(g.below(20))]) {
        let v = num(&range_check(Expression::Constant(x), range));
        ensure!((v == F::zero()) == (int(&x) < BigUint::from(range)), "range_check({:?}, {}) is {:?}", x, range, v);
        let v = num(&bool_check(Expression::Constant(x)));
        ensure!((v == F::zero()) == (x == F::zero() || x == F::one()), "bool_check({:?}) is {:?}", x, v);
    }
    let (a, x, y) = (g.bool(), any::<F>(g), any::<F>(g));
    let v = num(&ternary(Expression::Constant(F::from(a as u64)), Expression::Constant(x), Expression::Constant(y)));
    ensure_eq!(v, if a { x } else { y }, "ternary({}, {:?}, {:?})", a, x, y);
    g.desc(|| format!("range {}", range));
    g.nontrivial();
    Ok(())
}
fn lebs<const L: usize>(g: &mut G) -> R {
    let x = match g.below(4) {
        0 => u64::MAX,
        1 => 1u64 << g.below(64),
        _ => g.u64(),
    };
    let bits: [bool; L] = i2lebsp::<L>(x);
    for (i, b) in bits.iter().enumerate() {
        ensure_eq!(*b, x >> i & 1 == 1, "bit {} of i2lebsp::<{}>({})", i, L, x);
    }
    let want = if L == 64 { x } else { x & ((1 << L) - 1) };
    ensure_eq!(lebs2ip::<L>(&bits), want, "lebs2ip of the bits of {}", x);
    Ok(())
}
fn bits<F: FB>(g: &mut G) -> R {
    let x: F = any(g);
    let xi = int(&x);
    let nb = F::NUM_BITS as usize;
    let lo = g.usize(nb + 1);
    let hi = if g.chance(1, 4) { nb } else { g.range(lo, nb) };
    let want: F = fe(&((&xi >> lo) % pow2(hi - lo)));
    ensure_eq!(bitrange_subset(&x, lo..hi), want, "bits {}..{} of {:?}", lo, hi, x);
    let r = RangeConstrained::<F, Value<F>>::bitrange_of(Value::known(&x), lo..hi);
    ensure_eq!(r.num_bits(), hi - lo, "num_bits of {}..{}", lo, hi);
    let mut got = None;
    r.inner().map(|v| got = Some(v));
    ensure_eq!(got, Some(want), "bitrange_of {}..{} of {:?}", lo, hi, x);
    let r = RangeConstrained::<F, Value<F>>::bitrange_of(Value::unknown(), lo..hi);
    ensure_eq!(r.num_bits(), hi - lo, "num_bits of an unknown value");
    ensure!(guarded(|| bitrange_subset(&x, lo..nb + 1 + g.usize(4))).is_err(), "bits beyond the field are served");
    let w = g.range(1, 8);
    let n = g.range(1, nb);
    let d = decompose_word(&x, n, w);
    ensure_eq!(d.len(), (n + w - 1) / w, "windows of {} bits in {}", w, n);
    let xn = &xi % pow2(n);
    for (i, k) in d.iter().enumerate() {
        ensure_eq!(BigUint::from(*k), (&xn >> (w * i)) % pow2(w), "window {} of the {} low bits of {:?}, {} bits each", i, n, x, w);
    }
    match g.below(9) {
        0 => lebs::<1>(g)?,
        1 => lebs::<2>(g)?,
        2 => lebs::<3>(g)?,
        3 => lebs::<10>(g)?,
        4 => lebs::<31>(g)?,
        5 => lebs::<32>(g)?,
        6 => lebs::<33>(g)?,
        7 => lebs::<63>(g)?,
        _ => lebs::<64>(g)?,
    }
    g.desc(|| format!("{:?} {}..{}, {} bits in windows of {}", x, lo, hi, n, w));
    g.nontrivial();
    Ok(())
}

pub fn c30() -> Check {
    type S = SimpleFloorPlanner;
    type V = floor_planner::V1;
    let laws = vec![
        Law::new("lookup range checks", 60, 600, |g| match g.below(6) {
            0 => rc_law::<Fp, S, 3>(g),
            1 => rc_law::<Fq, V, 4>(g),
            2 => rc_law::<Fp, V, 2>(g),
            3 => rc_law::<Fp, S, 10>(g),
            4 => rc_law::<Fq, S, 5>(g),
            _ => rc_law::<Fq, S, 7>(g),
        }),
        Law::new("lookup range checks of values outside", 120, 1200, |g| match g.below(5) {
            0 => rc_out::<Fp, S, 3>(g),
            1 => rc_out::<Fq, V, 4>(g),
            2 => rc_out::<Fp, V, 2>(g),
            3 => rc_out::<Fp, S, 10>(g),
            _ => rc_out::<Fq, S, 5>(g),
        }),
        Law::new("running sums", 60, 600, |g| match g.below(4) {
            0 => rs_law::<Fp, S, 1>(g),
            1 => rs_law::<Fq, V, 2>(g),
            2 => rs_law::<Fp, V, 3>(g),
            _ => rs_law::<Fq, S, 3>(g),
        }),
        Law::new("running sums of values outside", 120, 1200, |g| match g.below(4) {
            0 => rs_out::<Fp, S, 1>(g),
            1 => rs_out::<Fq, V, 2>(g),
            2 => rs_out::<Fp, V, 3>(g),
            _ => rs_out::<Fq, S, 3>(g),
        }),
        Law::new("conditional swap", 120, 1200, |g| if g.bool() { cs_law::<Fp, S>(g) } else { cs_law::<Fq, V>(g) }),
        Law::new("range and boolean expressions", 400, 4000, |g| if g.bool() { expressions::<Fp>(g) } else { expressions::<Fq>(g) }),
        Law::new("bit slices", 2000, 20000, |g| if g.bool() { bits::<Fp>(g) } else { bits::<Fq>(g) }),
    ];
    Check { id: "C30", rule: "a value in range was processed and the accepted assignment attacked, or a value outside was offered", assumptions: vec![], laws }
}

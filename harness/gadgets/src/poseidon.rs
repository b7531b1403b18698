//! C27: the Poseidon circuit against a textbook Poseidon with its own constant generation.
use crate::frame::*;
use crate::utils::FB;
use halo2_gadgets::poseidon::primitives::{Absorbing, ConstantLength, Domain, P128Pow5T3, Spec};
use halo2_gadgets::poseidon::{primitives, Hash, PaddedWord, PoseidonInstructions, Pow5Chip, Pow5Config, Sponge, StateWord};
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2curves::pasta::{Fp, Fq};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex, OnceLock};
use vh_common::bigref::*;
use vh_common::*;
use vh_lab::forge::Budget;

fn budget() -> Budget {
    Budget { steps: 1500, backtracks: 20 }
}

// ---------------------------------------------------------------- reference
pub struct RefParams {
    p: BigUint,
    rf: usize,
    rp: usize,
    t: usize,
    rc: Vec<Vec<BigUint>>,
    mds: Vec<Vec<BigUint>>,
}
struct Lfsr(std::collections::VecDeque<u8>);
impl Lfsr {
    fn new(bits: u32, t: usize, rf: usize, rp: usize) -> Lfsr {
        let mut s = std::collections::VecDeque::new();
        for (v, n) in [(1u64, 2u32), (0, 4), (bits as u64, 12), (t as u64, 12), (rf as u64, 10), (rp as u64, 10), ((1 << 30) - 1, 30)] {
            for i in (0..n).rev() {
                s.push_back(((v >> i) & 1) as u8);
            }
        }
        let mut l = Lfsr(s);
        for _ in 0..160 {
            l.step();
        }
        l
    }
    fn step(&mut self) -> u8 {
        let s = &self.0;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.0.pop_front();
        self.0.push_back(b);
        b
    }
    fn bit(&mut self) -> u8 {
        loop {
            let a = self.step();
            let b = self.step();
            if a == 1 {
                return b;
            }
        }
    }
    fn int(&mut self, bits: u32) -> BigUint {
        let mut v = BigUint::from(0u32);
        for _ in 0..bits {
            v = (v << 1) + self.bit();
        }
        v
    }
}
fn params(p: &BigUint, t: usize, rf: usize, rp: usize, select: usize) -> Arc<RefParams> {
    static C: OnceLock<Mutex<HashMap<(BigUint, usize, usize, usize, usize), Arc<RefParams>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let key = (p.clone(), t, rf, rp, select);
    if let Some(r) = c.lock().unwrap().get(&key) {
        return r.clone();
    }
    let bits = p.bits() as u32;
    let mut l = Lfsr::new(bits, t, rf, rp);
    let rc = (0..rf + rp)
        .map(|_| {
            (0..t)
                .map(|_| loop {
                    let v = l.int(bits);
                    if &v < p {
                        break v;
                    }
                })
                .collect()
        })
        .collect();
    let mut xy: Vec<BigUint> = vec![];
    for _ in 0..=select {
        xy = (0..2 * t).map(|_| l.int(bits) % p).collect();
    }
    let mds = xy[..t].iter().map(|x| xy[t..].iter().map(|y| invm(&addm(x, y, p), p).unwrap()).collect()).collect();
    let r = Arc::new(RefParams { p: p.clone(), rf, rp, t, rc, mds });
    c.lock().unwrap().insert(key, r.clone());
    r
}
fn permute(pr: &RefParams, st: &mut Vec<BigUint>) {
    let p = &pr.p;
    for r in 0..pr.rf + pr.rp {
        for i in 0..pr.t {
            st[i] = addm(&st[i], &pr.rc[r][i], p);
        }
        let full = r < pr.rf / 2 || r >= pr.rf / 2 + pr.rp;
        for i in 0..if full { pr.t } else { 1 } {
            let s2 = mulm(&st[i], &st[i], p);
            let s4 = mulm(&s2, &s2, p);
            st[i] = mulm(&s4, &st[i], p);
        }
        let old = st.clone();
        for i in 0..pr.t {
            let mut acc = BigUint::from(0u32);
            for j in 0..pr.t {
                acc += &pr.mds[i][j] * &old[j];
            }
            st[i] = acc % p;
        }
    }
}
/// words absorbed (padded), then `out` words squeezed
fn sponge(pr: &RefParams, capacity: BigUint, words: &[BigUint], out: usize) -> Vec<BigUint> {
    let rate = pr.t - 1;
    let mut st = vec![BigUint::from(0u32); pr.t];
    st[rate] = capacity;
    for b in words.chunks(rate) {
        for (i, x) in b.iter().enumerate() {
            st[i] = addm(&st[i], x, &pr.p);
        }
        permute(pr, &mut st);
    }
    let mut r = vec![];
    for i in 0..out {
        if i > 0 && i % rate == 0 {
            permute(pr, &mut st);
        }
        r.push(st[i % rate].clone());
    }
    r
}
fn const_len(pr: &RefParams, msg: &[BigUint]) -> BigUint {
    let rate = pr.t - 1;
    let mut w = msg.to_vec();
    while w.len() % rate != 0 {
        w.push(BigUint::from(0u32));
    }
    sponge(pr, BigUint::from(msg.len()) << 64, &w, 1).remove(0)
}

// ---------------------------------------------------------------- specifications
/// constants generated by the default implementation
#[derive(Debug)]
struct Gen<const RF: usize, const RP: usize, const SEL: usize>;
impl<F: FB, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SEL: usize> Spec<F, T, RATE> for Gen<RF, RP, SEL> {
    fn full_rounds() -> usize {
        RF
    }
    fn partial_rounds() -> usize {
        RP
    }
    fn sbox(v: F) -> F {
        v.square().square() * v
    }
    fn secure_mds() -> usize {
        SEL
    }
}
/// what a law is run for
trait Sp<F: FB, const T: usize, const RATE: usize>: Spec<F, T, RATE> + Send + Sync + 'static {
    const SEL: usize;
}
impl<F: FB, const T: usize, const RATE: usize, const RF: usize, const RP: usize, const SEL: usize> Sp<F, T, RATE> for Gen<RF, RP, SEL> {
    const SEL: usize = SEL;
}
impl Sp<Fp, 3, 2> for P128Pow5T3 {
    const SEL: usize = 0;
}
impl Sp<Fq, 3, 2> for P128Pow5T3 {
    const SEL: usize = 0;
}
fn refp<F: FB, S: Sp<F, T, RATE>, const T: usize, const RATE: usize>() -> Arc<RefParams> {
    params(&(int(&-F::one()) + 1u32), T, S::full_rounds(), S::partial_rounds(), S::SEL)
}

#[derive(Clone)]
struct Cfg<F: FB, const T: usize, const RATE: usize> {
    p: Pow5Config<F, T, RATE>,
    free: Column<Advice>,
    io: Column<Instance>,
}
fn cfg<F: FB, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(m: &mut ConstraintSystem<F>) -> Cfg<F, T, RATE> {
    let state = [(); T].map(|_| m.advice_column());
    let sbox = m.advice_column();
    let free = m.advice_column();
    let io = m.instance_column();
    m.enable_equality(io);
    m.enable_equality(free);
    let a = [(); T].map(|_| m.fixed_column());
    let b = [(); T].map(|_| m.fixed_column());
    let k = m.fixed_column();
    m.enable_constant(k);
    Cfg { p: Pow5Chip::configure::<S>(m, state, sbox, a, b), free, io }
}

/// a permutation of a whole state
struct PermC<F, S, const T: usize, const RATE: usize> {
    st: Vec<F>,
    times: usize,
    _s: PhantomData<S>,
}
impl<F: FB, S: Spec<F, T, RATE>, const T: usize, const RATE: usize> Circuit<F> for PermC<F, S, T, RATE> {
    type Config = Cfg<F, T, RATE>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        PermC { st: self.st.clone(), times: self.times, _s: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        cfg::<F, S, T, RATE>(m)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let chip = Pow5Chip::construct(c.p);
        let mut t = Tie { col: c.io, next: 0 };
        let mut cells = vec![];
        for x in &self.st {
            let z = private(&mut l, c.free, *x)?;
            t.tie(&mut l, &z)?;
            cells.push(StateWord::from(z));
        }
        let mut st: [StateWord<F>; T] = cells.try_into().unwrap();
        for _ in 0..self.times {
            st = <Pow5Chip<F, T, RATE> as PoseidonInstructions<F, S, T, RATE>>::permute(&chip, &mut l, &st)?;
        }
        for w in st {
            t.tie(&mut l, &w.into())?;
        }
        Ok(())
    }
}
fn k_for<F: FB, S: Spec<F, T, RATE>, const T: usize, const RATE: usize>(perms: usize, io: usize) -> u32 {
    let rows = perms * (S::full_rounds() + S::partial_rounds() / 2 + 5) + io + 24;
    let mut k = 4;
    while 1usize << k < rows {
        k += 1;
    }
    k
}
fn perm<F: FB, S: Sp<F, T, RATE>, const T: usize, const RATE: usize>(g: &mut G) -> R {
    let pr = refp::<F, S, T, RATE>();
    let st: Vec<F> = (0..T).map(|_| any(g)).collect();
    let times = g.range(1, 2);
    g.desc(|| format!("T={} RF={} RP={} permute x{} {:?}", T, pr.rf, pr.rp, times, st));
    let want = |v: &[F]| -> Vec<F> {
        let mut s: Vec<BigUint> = v[..T].iter().map(int).collect();
        for _ in 0..times {
            permute(&pr, &mut s);
        }
        s.iter().map(fe).collect()
    };
    let c = PermC::<F, S, T, RATE> { st: st.clone(), times, _s: PhantomData };
    let lab = honest(k_for::<F, S, T, RATE>(times, 2 * T), &c, "permutation")?;
    let v = io(&lab, 2 * T);
    ensure_eq!(v[..T], st[..], "the permuted state");
    ensure_eq!(v[T..].to_vec(), want(&v), "permutation of {:?} with {} full and {} partial rounds", st, pr.rf, pr.rp);
    g.nontrivial();
    let rel = |v: &[F]| {
        if v[T..].to_vec() != want(v) {
            return Err(format!("the permutation of {:?} is {:?}", &v[..T], &v[T..]));
        }
        Ok(())
    };
    attack(g, lab, Attack { n_io: 2 * T, inputs: T, tries: 12, budget: budget(), rel: &rel })?;
    Ok(())
}

/// hashing of constant length messages, one after the other
struct HashC<F, S, const T: usize, const RATE: usize, const L: usize> {
    msgs: Vec<[F; L]>,
    _s: PhantomData<S>,
}
impl<F: FB, S: Spec<F, T, RATE>, const T: usize, const RATE: usize, const L: usize> Circuit<F> for HashC<F, S, T, RATE, L> {
    type Config = Cfg<F, T, RATE>;
    type FloorPlanner = floor_planner::V1;
    fn without_witnesses(&self) -> Self {
        HashC { msgs: self.msgs.clone(), _s: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        cfg::<F, S, T, RATE>(m)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let mut t = Tie { col: c.io, next: 0 };
        for m in &self.msgs {
            let chip = Pow5Chip::construct(c.p.clone());
            let mut cells = vec![];
            for x in m {
                let z = private(&mut l, c.free, *x)?;
                t.tie(&mut l, &z)?;
                cells.push(z);
            }
            let cells: [AssignedCell<F, F>; L] = cells.try_into().unwrap();
            let h = Hash::<F, _, S, ConstantLength<L>, T, RATE>::init(chip, l.namespace(|| "init"))?;
            let o = h.hash(l.namespace(|| "hash"), cells)?;
            t.tie(&mut l, &o)?;
        }
        Ok(())
    }
}
fn hash<F: FB, S: Sp<F, T, RATE>, const T: usize, const RATE: usize, const L: usize>(g: &mut G) -> R {
    let pr = refp::<F, S, T, RATE>();
    let n = g.range(1, 2);
    let msgs: Vec<[F; L]> = (0..n).map(|_| [(); L].map(|_| any(g))).collect();
    g.desc(|| format!("T={} RF={} RP={} L={} {:?}", T, pr.rf, pr.rp, L, msgs));
    let want = |m: &[F]| -> F { fe(&const_len(&pr, &m.iter().map(int).collect::<Vec<_>>())) };
    for m in &msgs {
        ensure_eq!(primitives::Hash::<F, S, ConstantLength<L>, T, RATE>::init().hash(*m), want(m), "out-of-circuit hash of {:?} (T={} RF={} RP={})", m, T, pr.rf, pr.rp);
    }
    let perms = n * ((L + RATE - 1) / RATE).max(1);
    let n_io = n * (L + 1);
    let c = HashC::<F, S, T, RATE, L> { msgs: msgs.clone(), _s: PhantomData };
    let lab = honest(k_for::<F, S, T, RATE>(perms, n_io), &c, "hash")?;
    let v = io(&lab, n_io);
    for (i, m) in msgs.iter().enumerate() {
        let b = i * (L + 1);
        ensure_eq!(v[b..b + L], m[..], "the hashed message");
        ensure_eq!(v[b + L], want(m), "in-circuit hash of {:?} (T={} RF={} RP={})", m, T, pr.rf, pr.rp);
    }
    g.nontrivial();
    let rel = |v: &[F]| {
        for i in 0..n {
            let b = i * (L + 1);
            if v[b + L] != want(&v[b..b + L]) {
                return Err(format!("the hash of {:?} is {:?}", &v[b..b + L], v[b + L]));
            }
        }
        Ok(())
    };
    // with the messages fixed and without
    let inputs = if n == 1 { L } else { 0 };
    attack(g, lab, Attack { n_io, inputs, tries: 10, budget: budget(), rel: &rel })?;
    Ok(())
}

/// a sponge in a domain of our own
struct Dom;
const CAP: u64 = 0x1234_5678_9abc;
impl<F: FB, const RATE: usize> Domain<F, RATE> for Dom {
    type Padding = Vec<F>;
    fn name() -> String {
        "own".into()
    }
    fn initial_capacity_element() -> F {
        F::from(CAP)
    }
    fn padding(_: usize) -> Vec<F> {
        vec![]
    }
}
struct SpongeC<F, S, const T: usize, const RATE: usize> {
    /// (value, is padding)
    words: Vec<(F, bool)>,
    out: usize,
    _s: PhantomData<S>,
}
impl<F: FB, S: Spec<F, T, RATE>, const T: usize, const RATE: usize> Circuit<F> for SpongeC<F, S, T, RATE> {
    type Config = Cfg<F, T, RATE>;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        SpongeC { words: self.words.clone(), out: self.out, _s: PhantomData }
    }
    fn configure(m: &mut ConstraintSystem<F>) -> Self::Config {
        cfg::<F, S, T, RATE>(m)
    }
    fn synthesize(&self, c: Self::Config, mut l: impl Layouter<F>) -> Result<(), Error> {
        let mut t = Tie { col: c.io, next: 0 };
        let chip = Pow5Chip::construct(c.p.clone());
        let mut s = Sponge::<F, _, S, Absorbing<PaddedWord<F>, RATE>, Dom, T, RATE>::new(chip, l.namespace(|| "new"))?;
        for (x, pad) in &self.words {
            let w = if *pad {
                PaddedWord::Padding(*x)
            } else {
                let z = private(&mut l, c.free, *x)?;
                t.tie(&mut l, &z)?;
                PaddedWord::Message(z)
            };
            s.absorb(l.namespace(|| "absorb"), w)?;
        }
        let mut s = s.finish_absorbing(l.namespace(|| "finish"))?;
        for _ in 0..self.out {
            let o = s.squeeze(l.namespace(|| "squeeze"))?;
            t.tie(&mut l, &o)?;
        }
        Ok(())
    }
}
fn sponges<F: FB, S: Sp<F, T, RATE>, const T: usize, const RATE: usize>(g: &mut G) -> R {
    let pr = refp::<F, S, T, RATE>();
    let n = RATE * g.range(1, 3);
    let words: Vec<(F, bool)> = (0..n).map(|_| (any(g), g.chance(1, 3))).collect();
    let out = g.range(1, 2 * RATE + 1);
    g.desc(|| format!("T={} RF={} RP={} absorb {:?} squeeze {}", T, pr.rf, pr.rp, words, out));
    let m = words.iter().filter(|w| !w.1).count();
    let want = |v: &[F]| -> Vec<F> {
        let mut it = v.iter();
        let w: Vec<BigUint> = words.iter().map(|(x, p)| if *p { int(x) } else { int(it.next().unwrap()) }).collect();
        sponge(&pr, BigUint::from(CAP), &w, out).iter().map(fe).collect()
    };
    let perms = n / RATE + out / RATE + 1;
    let c = SpongeC::<F, S, T, RATE> { words: words.clone(), out, _s: PhantomData };
    let lab = honest(k_for::<F, S, T, RATE>(perms, m + out), &c, "sponge")?;
    let v = io(&lab, m + out);
    let msgs: Vec<F> = words.iter().filter(|w| !w.1).map(|w| w.0).collect();
    ensure_eq!(v[..m], msgs[..], "the absorbed words");
    ensure_eq!(v[m..].to_vec(), want(&msgs), "squeezed words");
    g.nontrivial();
    let rel = |v: &[F]| {
        if v[m..].to_vec() != want(&v[..m]) {
            return Err(format!("absorbing {:?} (among {:?}) squeezes {:?}", &v[..m], words, &v[m..]));
        }
        Ok(())
    };
    attack(g, lab, Attack { n_io: m + out, inputs: m, tries: 10, budget: budget(), rel: &rel })?;
    Ok(())
}

/// the generated constants themselves
fn consts<F: FB, S: Sp<F, T, RATE>, const T: usize, const RATE: usize>(g: &mut G) -> R {
    let pr = refp::<F, S, T, RATE>();
    let (rc, mds, inv) = S::constants();
    ensure_eq!(rc.len(), pr.rf + pr.rp, "number of round constants");
    for r in 0..rc.len() {
        for i in 0..T {
            ensure_eq!(int(&rc[r][i]), pr.rc[r][i], "round constant {} of round {} (T={} RF={} RP={})", i, r, T, pr.rf, pr.rp);
        }
    }
    for i in 0..T {
        for j in 0..T {
            ensure_eq!(int(&mds[i][j]), pr.mds[i][j], "MDS entry {},{} (T={})", i, j, T);
            let mut s = F::zero();
            for k in 0..T {
                s += mds[i][k] * inv[k][j];
            }
            ensure_eq!(s, if i == j { F::one() } else { F::zero() }, "MDS times its inverse at {},{} (T={})", i, j, T);
        }
    }
    g.desc(|| format!("constants T={} RF={} RP={}", T, pr.rf, pr.rp));
    g.nontrivial();
    Ok(())
}

pub fn c27() -> Check {
    let laws = vec![
        Law::new("constants", 24, 60, |g| match g.index % 12 {
            0 => consts::<Fp, P128Pow5T3, 3, 2>(g),
            1 => consts::<Fq, P128Pow5T3, 3, 2>(g),
            2 => consts::<Fp, Gen<8, 56, 0>, 3, 2>(g),
            3 => consts::<Fq, Gen<8, 56, 0>, 3, 2>(g),
            4 => consts::<Fp, Gen<2, 2, 0>, 2, 1>(g),
            5 => consts::<Fq, Gen<4, 2, 1>, 4, 3>(g),
            6 => consts::<Fp, Gen<8, 60, 2>, 5, 4>(g),
            7 => consts::<Fq, Gen<6, 8, 0>, 7, 6>(g),
            8 => consts::<Fp, Gen<8, 22, 3>, 9, 8>(g),
            9 => consts::<Fq, Gen<2, 0, 0>, 12, 11>(g),
            10 => consts::<Fp, Gen<10, 14, 1>, 2, 1>(g),
            _ => consts::<Fq, Gen<8, 56, 4>, 6, 5>(g),
        }),
        Law::new("permutation", 24, 240, |g| match g.below(7) {
            0 => perm::<Fp, P128Pow5T3, 3, 2>(g),
            1 => perm::<Fq, P128Pow5T3, 3, 2>(g),
            2 => perm::<Fp, Gen<2, 2, 0>, 2, 1>(g),
            3 => perm::<Fq, Gen<4, 2, 1>, 4, 3>(g),
            4 => perm::<Fp, Gen<4, 6, 2>, 5, 4>(g),
            5 => perm::<Fq, Gen<2, 4, 0>, 7, 6>(g),
            _ => perm::<Fq, Gen<2, 4, 0>, 3, 2>(g),
        }),
        Law::new("constant length hash", 40, 400, |g| match g.below(14) {
            0 => hash::<Fp, P128Pow5T3, 3, 2, 1>(g),
            1 => hash::<Fq, P128Pow5T3, 3, 2, 2>(g),
            2 => hash::<Fp, P128Pow5T3, 3, 2, 3>(g),
            3 => hash::<Fp, P128Pow5T3, 3, 2, 4>(g),
            4 => hash::<Fq, P128Pow5T3, 3, 2, 5>(g),
            5 => hash::<Fp, Gen<2, 2, 0>, 2, 1, 1>(g),
            6 => hash::<Fp, Gen<2, 2, 0>, 2, 1, 3>(g),
            7 => hash::<Fq, Gen<4, 2, 1>, 4, 3, 4>(g),
            8 => hash::<Fq, Gen<2, 2, 1>, 4, 3, 6>(g),
            9 => hash::<Fq, Gen<2, 2, 1>, 4, 3, 2>(g),
            10 => hash::<Fp, Gen<4, 6, 2>, 5, 4, 7>(g),
            11 => hash::<Fp, Gen<2, 2, 0>, 5, 4, 1>(g),
            12 => hash::<Fq, Gen<2, 4, 0>, 7, 6, 8>(g),
            _ => hash::<Fp, Gen<2, 2, 0>, 3, 2, 6>(g),
        }),
        Law::new("sponge", 30, 300, |g| match g.below(6) {
            0 => sponges::<Fp, P128Pow5T3, 3, 2>(g),
            1 => sponges::<Fq, P128Pow5T3, 3, 2>(g),
            2 => sponges::<Fp, Gen<2, 2, 0>, 2, 1>(g),
            3 => sponges::<Fq, Gen<4, 2, 1>, 4, 3>(g),
            4 => sponges::<Fp, Gen<4, 6, 2>, 5, 4>(g),
            _ => sponges::<Fq, Gen<2, 4, 0>, 3, 2>(g),
        }),
    ];
    Check { id: "C27", rule: "a permutation, hash or sponge was computed in circuit, compared, and its accepted assignment attacked", assumptions: vec![], laws }
}

//! C26: Poseidon sponge against a textbook implementation with its own constant generation.
use crate::fields::*;
use ff::PrimeField;
use halo2curves::{bn256, secp256k1, FieldExt};
use num_bigint::BigUint;
use num_traits::{One, Zero};
use poseidon::{Poseidon, Spec, State};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use vh_common::bigref::*;
use vh_common::*;

pub struct RefParams {
    pub p: BigUint,
    pub rf: usize,
    pub rp: usize,
    pub t: usize,
    pub rc: Vec<Vec<BigUint>>,
    pub mds: Vec<Vec<BigUint>>,
}

struct Lfsr {
    s: std::collections::VecDeque<u8>,
}
impl Lfsr {
    fn new(bits: u32, t: usize, rf: usize, rp: usize) -> Lfsr {
        let mut s = std::collections::VecDeque::new();
        let mut put = |v: u64, n: u32| {
            for i in (0..n).rev() {
                s.push_back(((v >> i) & 1) as u8);
            }
        };
        put(1, 2);
        put(0, 4);
        put(bits as u64, 12);
        put(t as u64, 12);
        put(rf as u64, 10);
        put(rp as u64, 10);
        put((1 << 30) - 1, 30);
        let mut l = Lfsr { s };
        for _ in 0..160 {
            l.step();
        }
        l
    }
    fn step(&mut self) -> u8 {
        let s = &self.s;
        let b = s[62] ^ s[51] ^ s[38] ^ s[23] ^ s[13] ^ s[0];
        self.s.pop_front();
        self.s.push_back(b);
        b
    }
    fn bit(&mut self) -> u8 {
        loop {
            let a = self.step();
            let b = self.step();
            if a == 1 {
                return b;
            }
        }
    }
    fn int(&mut self, bits: u32) -> BigUint {
        let mut v = BigUint::zero();
        for _ in 0..bits {
            v = (v << 1) + self.bit();
        }
        v
    }
}

pub fn params(p: &BigUint, t: usize, rf: usize, rp: usize) -> Arc<RefParams> {
    static C: OnceLock<Mutex<HashMap<(BigUint, usize, usize, usize), Arc<RefParams>>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    if let Some(r) = c.lock().unwrap().get(&(p.clone(), t, rf, rp)) {
        return r.clone();
    }
    let bits = p.bits() as u32;
    let mut l = Lfsr::new(bits, t, rf, rp);
    let rc = (0..rf + rp)
        .map(|_| {
            (0..t)
                .map(|_| loop {
                    let v = l.int(bits);
                    if &v < p {
                        break v;
                    }
                })
                .collect()
        })
        .collect();
    let xs: Vec<BigUint> = (0..t).map(|_| l.int(bits) % p).collect();
    let ys: Vec<BigUint> = (0..t).map(|_| l.int(bits) % p).collect();
    let mds = xs.iter().map(|x| ys.iter().map(|y| invm(&addm(x, y, p), p).unwrap()).collect()).collect();
    let r = Arc::new(RefParams { p: p.clone(), rf, rp, t, rc, mds });
    c.lock().unwrap().insert((p.clone(), t, rf, rp), r.clone());
    r
}

pub fn permute(pr: &RefParams, st: &mut Vec<BigUint>) {
    let p = &pr.p;
    for r in 0..pr.rf + pr.rp {
        for i in 0..pr.t {
            st[i] = addm(&st[i], &pr.rc[r][i], p);
        }
        let full = r < pr.rf / 2 || r >= pr.rf / 2 + pr.rp;
        for i in 0..if full { pr.t } else { 1 } {
            let s2 = mulm(&st[i], &st[i], p);
            let s4 = mulm(&s2, &s2, p);
            st[i] = mulm(&s4, &st[i], p);
        }
        let old = st.clone();
        for i in 0..pr.t {
            let mut acc = BigUint::zero();
            for j in 0..pr.t {
                acc += &pr.mds[i][j] * &old[j];
            }
            st[i] = acc % p;
        }
    }
}

/// reference sponge with the crate's documented padding
struct RefSponge {
    pr: Arc<RefParams>,
    st: Vec<BigUint>,
    pending: Vec<BigUint>,
}
impl RefSponge {
    fn new(pr: Arc<RefParams>) -> Self {
        let mut st = vec![BigUint::zero(); pr.t];
        st[0] = BigUint::one() << 64u32;
        RefSponge { pr, st, pending: vec![] }
    }
    fn absorb_block(&mut self, b: &[BigUint]) {
        for (i, x) in b.iter().enumerate() {
            self.st[1 + i] = addm(&self.st[1 + i], x, &self.pr.p);
        }
        permute(&self.pr, &mut self.st);
    }
    fn squeeze(&mut self) -> BigUint {
        let rate = self.pr.t - 1;
        let mut v = std::mem::take(&mut self.pending);
        v.push(BigUint::one());
        for c in v.chunks(rate).map(|c| c.to_vec()).collect::<Vec<_>>() {
            self.absorb_block(&c);
        }
        self.st[1].clone()
    }
}

fn sponge<F: TF, const T: usize, const RATE: usize>(g: &mut G) -> R {
    let p = hex(F::P);
    let rf = 2 * g.range(1, 5);
    let rp = match g.below(4) {
        0 => 57,
        1 => 60,
        _ => g.range(1, 66),
    };
    let (rf, rp) = if g.chance(1, 3) { (8, 57) } else { (rf, rp) };
    let pr = params(&p, T, rf, rp);
    let mut lib = Poseidon::<F, T, RATE>::new(rf, rp);
    let mut rs = RefSponge::new(pr.clone());
    let steps = g.range(1, 8);
    let mut log = vec![];
    let mut absorbed_partial = false;
    for _ in 0..steps {
        if g.chance(1, 3) {
            log.push("squeeze".to_string());
            let got = lib.squeeze();
            let want = rs.squeeze();
            ensure_eq!(fi(&got), want, "{} T={} rf={} rp={} after {:?}", F::NAME, T, rf, rp, log);
        } else {
            let n = match g.below(4) {
                0 => 0,
                1 => RATE,
                2 => RATE * g.range(1, 3) + g.usize(2),
                _ => g.usize(2 * RATE + 2),
            };
            let v: Vec<BigUint> = (0..n).map(|_| edge_int(g, &p)).collect();
            let fv: Vec<F> = v.iter().map(|x| fe(x)).collect();
            log.push(format!("update({n})"));
            if n % RATE != 0 {
                absorbed_partial = true;
            }
            lib.update(&fv);
            rs.pending.extend(v);
        }
    }
    let got = lib.squeeze();
    let want = rs.squeeze();
    g.desc(|| format!("{} T={} rf={} rp={} {:?}", F::NAME, T, rf, rp, log));
    if absorbed_partial && log.len() > 1 {
        g.nontrivial();
    }
    ensure_eq!(fi(&got), want, "{} T={} rf={} rp={} final squeeze after {:?}", F::NAME, T, rf, rp, log);
    // a clone continues independently and identically
    let mut c = lib.clone();
    let x: F = fe(&edge_int(g, &p));
    c.update(&[x]);
    lib.update(&[x]);
    ensure!(c.squeeze() == lib.squeeze(), "clone diverges");
    Ok(())
}

fn perm<F: TF, const T: usize, const RATE: usize>(g: &mut G) -> R {
    // drive the public permutation from its default state repeatedly and inspect public parameters
    let p = hex(F::P);
    let rf = 2 * g.range(1, 5);
    let rp = g.range(1, 66);
    let pr = params(&p, T, rf, rp);
    g.nontrivial();
    g.desc(|| format!("permutation {} T={} rf={} rp={}", F::NAME, T, rf, rp));
    let spec = Spec::<F, T, RATE>::new(rf, rp);
    ensure_eq!(spec.r_f(), rf, "r_f");
    let rows = spec.mds_matrices().mds().rows();
    for i in 0..T {
        for j in 0..T {
            ensure_eq!(fi(&rows[i][j]), pr.mds[i][j], "mds[{i}][{j}] {} T={}", F::NAME, T);
        }
    }
    let mut st = State::<F, T>::default();
    let mut rf_ = vec![BigUint::zero(); T];
    rf_[0] = BigUint::one() << 64u32;
    for k in 0..3 {
        spec.permute(&mut st);
        permute(&pr, &mut rf_);
        for i in 0..T {
            ensure_eq!(fi(&st.words()[i]), rf_[i], "permutation {k} word {i} {} T={} rf={} rp={}", F::NAME, T, rf, rp);
        }
    }
    Ok(())
}

macro_rules! by_t {
    ($f:ident, $F:ty, $g:expr) => {{
        match $g.below(9) {
            0 => $f::<$F, 3, 2>($g),
            1 => $f::<$F, 2, 1>($g),
            2 => $f::<$F, 4, 3>($g),
            3 => $f::<$F, 5, 4>($g),
            4 => $f::<$F, 6, 5>($g),
            5 => $f::<$F, 7, 6>($g),
            6 => $f::<$F, 8, 7>($g),
            7 => $f::<$F, 9, 8>($g),
            _ => $f::<$F, 10, 9>($g),
        }
    }};
}
pub fn c26() -> Check {
    Check {
        id: "C26",
        rule: "a sponge history with at least two operations, one of which leaves the buffer partially filled; every permutation comparison counts",
        assumptions: vec!["parameter generation is the published Poseidon Grain LFSR with Cauchy MDS; padding is a single one, initial capacity 2^64, as the crate documents"],
        laws: vec![
            Law::new("bn256_fr.sponge", 900, 25_000, |g| by_t!(sponge, bn256::Fr, g)),
            Law::new("bn256_fq.sponge", 200, 6_000, |g| by_t!(sponge, bn256::Fq, g)),
            Law::new("secp_fq.sponge", 200, 6_000, |g| by_t!(sponge, secp256k1::Fq, g)),
            Law::new("bn256_fr.permutation", 500, 8_000, |g| by_t!(perm, bn256::Fr, g)),
        ],
    }
}
#[allow(dead_code)]
fn _unused<F: FieldExt + PrimeField>() {}

//! C31: SHA-256.
use crate::frame::*;
use halo2_gadgets::sha256::*;
use halo2_proofs::circuit::*;
use halo2_proofs::plonk::*;
use halo2curves::pasta::pallas;
use std::sync::Mutex;
use vh_common::*;

type B = pallas::Base;

// ---------------------------------------------------------------- reference
/// the round constants and the initial state: fractional parts of roots of the first primes
fn primes(n: usize) -> Vec<u64> {
    (2u64..).filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).take(n).collect()
}
fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(root(p) * 2^32) mod 2^32
    let n: BigUint = BigUint::from(p) << if cube { 96usize } else { 64 };
    let r = if cube { n.cbrt() } else { n.sqrt() };
    (r % pow2(32)).to_u32_digits().first().copied().unwrap_or(0)
}
pub fn iv() -> [u32; 8] {
    let p = primes(8);
    core::array::from_fn(|i| frac_root(p[i], false))
}
/// the 64 rounds, without the final addition
pub fn rounds(st: [u32; 8], m: &[u32; 16]) -> [u32; 8] {
    let mut w = m.to_vec();
    for t in 16..64 {
        let (x, y) = (w[t - 15], w[t - 2]);
        let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
        let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
        w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
    }
    let p = primes(64);
    let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = st;
    for t in 0..64 {
        let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let ch = (e & f) ^ (!e & g);
        let t1 = h.wrapping_add(s1).wrapping_add(ch).wrapping_add(frac_root(p[t], true)).wrapping_add(w[t]);
        let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let maj = (a & b) ^ (a & c) ^ (b & c);
        let t2 = s0.wrapping_add(maj);
        h = g;
        g = f;
        f = e;
        e = d.wrapping_add(t1);
        d = c;
        c = b;
        b = a;
        a = t1.wrapping_add(t2);
    }
    [a, b, c, d, e, f, g, h]
}
struct Sha {
    blocks: Vec<[u32; 16]>,
    out: Mutex<Vec<[u32; 8]>>,
}
impl Circuit<B> for Sha {
    type Config = Table16Config;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Sha { blocks: self.blocks.clone(), out: Mutex::new(vec![]) }
    }
    fn configure(m: &mut ConstraintSystem<B>) -> Table16Config {
        Table16Chip::configure(m)
    }
    fn synthesize(&self, c: Table16Config, mut l: impl Layouter<B>) -> Result<(), Error> {
        Table16Chip::load(c.clone(), &mut l)?;
        let chip = Table16Chip::construct(c);
        let mut st = chip.initialization_vector(&mut l)?;
        for (i, b) in self.blocks.iter().enumerate() {
            if i > 0 {
                st = chip.initialization(&mut l, &st)?;
            }
            st = chip.compress(&mut l, &st, b.map(|w| BlockWord(Value::known(w))))?;
            let d = chip.digest(&mut l, &st)?;
            let mut r = [0; 8];
            for (i, w) in d.iter().enumerate() {
                w.0.map(|x| r[i] = x);
            }
            self.out.lock().unwrap().push(r);
        }
        Ok(())
    }
}
fn word(g: &mut G) -> u32 {
    match g.below(6) {
        0 => 0,
        1 => u32::MAX,
        2 => 1 << g.below(32),
        3 => !(1 << g.below(32)),
        _ => g.u64() as u32,
    }
}
fn blocks(g: &mut G) -> R {
    let n = g.range(1, 3);
    let blocks: Vec<[u32; 16]> = (0..n).map(|_| core::array::from_fn(|_| word(g))).collect();
    g.desc(|| format!("{:x?}", blocks));
    let c = Sha { blocks: blocks.clone(), out: Mutex::new(vec![]) };
    honest(17, &c, "blocks")?;
    let out = c.out.lock().unwrap().clone();
    let mut st = iv();
    for (i, b) in blocks.iter().enumerate() {
        st = rounds(st, b);
        ensure_eq!(out[i], st, "the state after block {}", i);
    }
    g.nontrivial();
    Ok(())
}
/// standard SHA-256 of a message of whole words
fn sha256(m: &[u32]) -> [u32; 8] {
    let mut w = m.to_vec();
    w.push(0x8000_0000);
    while w.len() % 16 != 14 {
        w.push(0);
    }
    let bits = m.len() as u64 * 32;
    w.push((bits >> 32) as u32);
    w.push(bits as u32);
    let mut st = iv();
    for b in w.chunks(16) {
        let r = rounds(st, b.try_into().unwrap());
        st = core::array::from_fn(|i| st[i].wrapping_add(r[i]));
    }
    st
}
struct Hasher {
    chunks: Vec<Vec<u32>>,
    out: Mutex<Option<String>>,
}
impl Circuit<B> for Hasher {
    type Config = Table16Config;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        Hasher { chunks: self.chunks.clone(), out: Mutex::new(None) }
    }
    fn configure(m: &mut ConstraintSystem<B>) -> Table16Config {
        Table16Chip::configure(m)
    }
    fn synthesize(&self, c: Table16Config, mut l: impl Layouter<B>) -> Result<(), Error> {
        Table16Chip::load(c.clone(), &mut l)?;
        let chip = Table16Chip::construct(c);
        let w = |c: &[u32]| -> Vec<BlockWord> { c.iter().map(|w| BlockWord(Value::known(*w))).collect() };
        let d = if self.chunks.len() == 1 {
            Sha256::digest(chip, l.namespace(|| "digest"), &w(&self.chunks[0]))?
        } else {
            let mut h = Sha256::new(chip, l.namespace(|| "new"))?;
            for c in &self.chunks {
                h.update(l.namespace(|| "update"), &w(c))?;
            }
            h.finalize(l.namespace(|| "finalize"))?
        };
        *self.out.lock().unwrap() = Some(format!("{:?}", d));
        Ok(())
    }
}
fn hasher(g: &mut G) -> R {
    let whole = g.chance(3, 4);
    let n = if whole { 16 * g.range(0, 3) } else { g.usize(50) };
    let m: Vec<u32> = (0..n).map(|_| word(g)).collect();
    let mut chunks = vec![];
    let mut at = 0;
    while at < n || chunks.is_empty() {
        let k = match g.below(4) {
            0 => n - at,
            1 => 16.min(n - at),
            _ => g.usize(n - at + 1).min(20),
        };
        chunks.push(m[at..at + k].to_vec());
        at += k;
    }
    g.desc(|| format!("{} words in updates of {:?}: {:x?}", n, chunks.iter().map(|c| c.len()).collect::<Vec<_>>(), m));
    g.nontrivial();
    let c = Hasher { chunks, out: Mutex::new(None) };
    let known = |sig: &str, msg: String| Err(Fail { sig: Some(sig.into()), msg });
    if n % 16 != 0 {
        // the words that fill up the last block have no value
        return match guarded(|| synth(17, &c)) {
            Ok(Err(Error::Synthesis)) => known("sha-incomplete-block", format!("a message of {} words is refused", n)),
            Ok(Ok(lab)) => {
                let bad = lab.check(3);
                ensure!(bad.is_empty(), "the honest assignment is not accepted: {:?}", bad);
                ensure_eq!(digest_of(&c), sha256(&m), "digest of {} words", n);
                Ok(())
            }
            r => fail!("a message of {} words: {:?}", n, r.map(|x| x.map(|_| ()))),
        };
    }
    honest(17, &c, "hasher")?;
    let got = digest_of(&c);
    if got == sha256(&m) {
        return Ok(());
    }
    let chain = m.chunks(16).fold(iv(), |st, b| rounds(st, b.try_into().unwrap()));
    ensure_eq!(got, chain, "digest of {} words (neither SHA-256, nor its rounds)", n);
    known("sha-rounds-only", format!("the digest of {} words is only the chain of the rounds", n))
}
/// the words of the digest are private, but it can be printed
fn digest_of(c: &Hasher) -> [u32; 8] {
    let s = c.out.lock().unwrap().clone().unwrap_or_default();
    let v: Vec<u32> = s.split("Some(").skip(1).filter_map(|x| x.split(')').next()?.trim().trim_end_matches(',').parse().ok()).collect();
    v.try_into().unwrap_or([0; 8])
}

pub fn c31() -> Check {
    let laws = vec![Law::new("chained blocks", 60, 1500, blocks).shrink(60), Law::new("messages in updates", 40, 1000, hasher).shrink(60)];
    Check { id: "C31", rule: "at least the initial state was hashed in circuit and the circuit checked", assumptions: vec!["the initial state and the state carried from block to block are witnessed without constraints in this unfinished gadget, so only the honest prover is considered"], laws }
}

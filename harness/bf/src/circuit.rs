//! C04-C06: completeness and soundness of the zkVM circuit.
use crate::forge::*;
use crate::refvm::*;
use crate::vm::*;
use ckb_bf_base::main_config::MyCircuit;
use halo2_proofs::dev::MockProver;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::{Circuit, ConstraintSystem};
use std::collections::BTreeSet;
use vh_common::*;
use vh_lab::*;

pub type L = Lab<Fr>;

/// smallest circuit size that holds `rows` usable rows
pub fn min_k<C: Circuit<Fr>>(rows: usize) -> u32 {
    let mut cs = ConstraintSystem::<Fr>::default();
    C::configure(&mut cs);
    let mut k = 1;
    while (1usize << k) < cs.minimum_rows() || (1usize << k) - cs.blinding_factors() - 1 < rows {
        k += 1;
    }
    k
}

pub fn rows_needed(f: &Forge, range: usize) -> usize {
    (f.inst.len() + 1).max(f.rows.len() + 1).max(f.mem.len() + 1).max(f.program_len + 1).max(f.input_len + 1).max(f.output.len() + 1).max(range + 1).max(16)
}

pub fn synth<const N: usize>(f: &Forge, inst: &[Vec<Fr>], seed: u64) -> Option<L> {
    let rows = rows_needed(f, N).max(inst[0].len()).max(inst[1].len());
    let k = min_k::<MyCircuit<Fr, N>>(rows);
    let f = f.clone();
    match guarded(move || L::synth(k, &MyCircuit::<Fr, N>::new(matrix(&f)), inst, seed)) {
        Ok(Ok(l)) => Some(l),
        _ => None,
    }
}

/// cells the prover can still choose after the challenges are known, and those tied to public values
pub fn free_cells(l: &L) -> Vec<(usize, usize)> {
    let mut s: BTreeSet<(usize, usize)> = l.later_phase_cells().into_iter().collect();
    for (a, b) in &l.copies {
        for (x, y) in [(a, b), (b, a)] {
            if x.0 == Kind::Instance && y.0 == Kind::Advice {
                s.insert((y.1, y.2));
            }
        }
    }
    s.into_iter().collect()
}

fn violated(l: &L) -> BTreeSet<String> {
    l.check(40)
        .into_iter()
        .map(|b| match b {
            Bad::Gate { gate, .. } => format!("gate {}", gate),
            Bad::Lookup { lookup, .. } => format!("lookup {}", lookup),
            Bad::Copy(a, b) => format!("copy {:?}{}-{:?}{}", a.0, a.1, b.0, b.1),
        })
        .collect()
}

const BIG: usize = 6001;
fn honest_case<const N: usize>(g: &mut G, bits: u64, limit: usize, mock: bool) -> R {
    let (src, r) = if limit == BIG { gen_big(g, 1500, 6000) } else if g.chance(1, 25) { (String::new(), ref_run(b"", bits, 10, || None).unwrap()) } else { gen_run(g, bits, limit) };
    let words = ref_compile(src.as_bytes());
    g.desc(|| format!("range {} program {:?} input {:?} steps {}", N, src, r.input, r.steps.len()));
    classify(g, &src, &r);
    let inst = instance(&words, &r.input);
    let rows = (words.len() + r.steps.len() + 1).max(N + 1).max(16);
    let k = min_k::<MyCircuit<Fr, N>>(rows) + g.chance(1, 4) as u32;
    let mk = || MyCircuit::<Fr, N>::new(run_vm(&src, &r.input, bits, &[]).matrix);
    let lab = guarded(|| L::synth(k, &mk(), &inst, g.u64())).map_err(|e| format!("laying out the circuit for {:?}: {}", src, e))?;
    match lab {
        Err(e) => fail!("laying out the circuit (k={}) for {:?}: {:?}", k, src, e),
        Ok(l) => {
            let bad = l.check(3);
            ensure!(bad.is_empty(), "honest execution of {:?} on {:?} violates {:?}", src, r.input, bad);
        }
    }
    if mock {
        let p = guarded(|| MockProver::run(k, &mk(), inst.clone())).map_err(|e| format!("mock prover on {:?}: {}", src, e))?;
        let p = p.map_err(|e| format!("mock prover: {:?}", e))?;
        if let Err(e) = p.verify() {
            fail!("mock prover rejects the honest execution of {:?} on {:?}: {:?}", src, r.input, e.first());
        }
    }
    g.evals(1);
    Ok(())
}

pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "random terminating programs and inputs, laid out in the smallest circuit that holds them or one size larger; non-trivial = at least one loop iterates",
        assumptions: vec!["the program neither moves left of the first cell nor reads past the end of its input", "the public input is what the program consumes"],
        laws: vec![
            Law::new("honest.256", 600, 20_000, |g| honest_case::<256>(g, 8, 200, g_mock(g))),
            Law::new("honest.256.long", 40, 1000, |g| honest_case::<256>(g, 8, 3000, false)),
            Law::new("honest.256.big", 48, 1000, |g| honest_case::<256>(g, 8, BIG, false)),
            Law::new("honest.16", 800, 20_000, |g| honest_case::<16>(g, 4, 200, g_mock(g))),
            c04_real(),
            Law::new("honest.2", 200, 4000, |g| honest_case::<2>(g, 1, 100, g_mock(g))),
        ],
    }
}
fn g_mock(g: &G) -> bool {
    let _ = g;
    true
}

fn forged_case<const N: usize>(g: &mut G, bits: u64, limit: usize) -> R {
    let (src, r) = gen_run(g, bits, limit);
    let words = ref_compile(src.as_bytes());
    let (f, note) = match if g.chance(1, 6) { mem_alias(g, &words, &r, 1 << bits) } else { None } {
        Some(x) => {
            g.class("aliased access");
            x
        }
        None => forge(g, &words, &r, 1 << bits),
    };
    let h = honest(&words, &r);
    if f == h {
        return Ok(());
    }
    let inst = instance(&words, &r.input);
    g.desc(|| format!("range {} program {:?} input {:?}; forgery: {}", N, src, r.input, note));
    let seed = g.u64();
    let mut lab = match synth::<N>(&f, &inst, seed) {
        Some(l) => l,
        None => {
            g.class("not laid out");
            return Ok(());
        }
    };
    let v = violated(&lab);
    if v.len() == 1 {
        g.nontrivial();
        g.class(&format!("only {}", v.iter().next().unwrap()));
    } else {
        g.class(&format!("{} kinds of constraint", v.len().min(5)));
        if v.len() <= 2 {
            g.nontrivial();
        }
    }
    let free = free_cells(&lab);
    let mut rng = Rng::new(seed ^ 7);
    if v.is_empty() || lab.solve(&free, &mut rng) {
        return Err(Fail { sig: None, msg: format!("the circuit accepts a false execution of {:?} on {:?}: {}", src, r.input, note) });
    }
    Ok(())
}

/// programs that have no execution at all: they leave the tape, run out of input or never end
fn impossible_case<const N: usize>(g: &mut G, bits: u64) -> R {
    let m = 1i64 << bits;
    let kind = g.below(3);
    let mut src: Vec<u8> = vec![];
    let n = g.range(1, 8);
    for _ in 0..n {
        src.extend_from_slice([&b"<"[..], b">", b"+", b"-", b".", b"<>", b"><", b"[-]", b"+-"][g.usize(9)]);
    }
    let input: Vec<u64> = (0..g.usize(3)).map(|_| g.below(1 << bits)).collect();
    match kind {
        0 => {}
        1 => {
            for _ in 0..input.len() + 1 {
                let at = g.usize(src.len() + 1);
                src.insert(at, b',');
            }
        }
        _ => {
            src.extend_from_slice([&b"+[]"[..], b"+[>+]", b"-[+-]", b"+[><]"][g.usize(4)]);
        }
    }
    // inserting into the middle of a loop keeps brackets balanced
    let mut it = input.iter().copied();
    if ref_run(&src, bits, 3000, || it.next()).is_some() {
        return Ok(());
    }
    let words = ref_compile(&src);
    let w: Vec<i64> = words.iter().map(|x| *x as i64).collect();
    let mut feed: Vec<i64> = input.iter().map(|x| *x as i64).collect();
    if kind == 1 || g.chance(1, 4) {
        let k = g.range(1, 2);
        for _ in 0..k {
            let at = if g.bool() { 0 } else { feed.len() };
            let v = if g.chance(2, 3) { 0 } else { g.below(m as u64) as i64 };
            feed.insert(at, v);
        }
    }
    let mut init = (0, 0, 0, 0);
    if g.bool() {
        init.2 = g.usize(4) as i64;
        if g.chance(1, 4) {
            init.3 = g.below(m as u64) as i64;
        }
    }
    let mut devs = std::collections::BTreeMap::new();
    if kind == 2 {
        devs.insert(g.usize(w.len() + 4), if g.bool() { Dev::Stop } else { Dev::Ip(w.len() as i64) });
    }
    let x = Sim { words: &w, ni: Default::default(), input: &feed, m, init, devs, limit: 60, claim_exec: true, list_true: false }.run();
    let f = Forge {
        mem: mem_table(&x.rows, g.bool()),
        inst: inst_table(&prog_rows(&w, 0, &Default::default()), &x.rows),
        rows: x.rows,
        input_len: if g.bool() { x.consumed } else { input.len() },
        output: x.output,
        program_len: w.len(),
    };
    let shown = String::from_utf8_lossy(&src).to_string();
    g.desc(|| format!("range {} program {:?} has no execution on {:?}; start {:?} fed {:?}", N, shown, input, init, feed));
    let inst = instance(&words, &input);
    let seed = g.u64();
    let mut lab = match synth::<N>(&f, &inst, seed) {
        Some(l) => l,
        None => return Ok(()),
    };
    let v = violated(&lab);
    if v.len() == 1 {
        g.class(&format!("only {}", v.iter().next().unwrap()));
    }
    if v.len() <= 2 {
        g.nontrivial();
    }
    let free = free_cells(&lab);
    if v.is_empty() || lab.solve(&free, &mut Rng::new(seed ^ 7)) {
        fail!("the circuit accepts an execution of {:?}, which has none on {:?} (start {:?}, fed {:?})", shown, input, init, feed);
    }
    Ok(())
}

/// change individual cells of the honest witness
fn cells_case<const N: usize>(g: &mut G, bits: u64, limit: usize) -> R {
    let (src, r) = gen_run(g, bits, limit);
    let words = ref_compile(src.as_bytes());
    let inst = instance(&words, &r.input);
    let h = honest(&words, &r);
    let base = match synth::<N>(&h, &inst, g.u64()) {
        Some(l) => l,
        None => fail!("honest execution of {:?} cannot be laid out", src),
    };
    ensure!(base.accepts(), "honest execution of {:?} rejected", src);
    let first = base.first_phase_cells();
    let free = free_cells(&base);
    g.nontrivial();
    let mut notes = vec![];
    for t in 0..g.range(2, 6) {
        let mut lab = base.clone();
        let n = g.range(1, 3);
        for _ in 0..n {
            let (c, row) = first[g.usize(first.len())];
            let old = lab.advice[c][row];
            let other = first[g.usize(first.len())];
            match g.weighted(&[3, 3, 2, 2]) {
                0 => lab.advice[c][row] = old + [Fr::one(), -Fr::one(), fr(2)][g.usize(3)],
                1 => {
                    // exchange with another row of the column
                    let rows: Vec<usize> = first.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
                    let o = rows[g.usize(rows.len())];
                    lab.advice[c].swap(row, o);
                }
                2 => lab.advice[c][row] = base.advice[other.0][other.1],
                _ => lab.advice[c][row] = [Fr::zero(), Fr::one(), fr(255), fr(g.below(1 << 20))][g.usize(4)],
            }
            notes.push(format!("column {} row {} from {:?} to {:?}", c, row, old, lab.advice[c][row]));
        }
        if free.iter().all(|(c, r)| lab.advice[*c][*r] == base.advice[*c][*r]) && lab.advice == base.advice {
            continue;
        }
        // cells tied to public values are restored by the solver, so compare afterwards
        let mut rng = Rng::new(t as u64);
        if lab.solve(&free, &mut rng) && first.iter().any(|(c, r)| lab.advice[*c][*r] != base.advice[*c][*r]) {
            fail!("the circuit accepts an altered witness for {:?} on {:?}: {:?}", src, r.input, notes);
        }
        notes.clear();
        g.evals(1);
    }
    g.desc(|| format!("range {} program {:?} input {:?}", N, src, r.input));
    Ok(())
}

pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "forged executions of random programs (deviating machine, forged tables, forged initial state, other input or program) with all later-phase cells left to the adversary; non-trivial = the forgery violates at most two kinds of constraint before the adversary solves for the free cells",
        assumptions: vec!["challenges are random and drawn after the first phase (Fiat-Shamir as random oracle)", "the adversary is the forger family described in DESIGN.md plus an affine solver; unsatisfiability is sampled, not proved"],
        laws: vec![
            Law::new("forged.16", 14_000, 500_000, |g| forged_case::<16>(g, 4, 60)),
            Law::new("forged.256", 1500, 60_000, |g| forged_case::<256>(g, 8, 60)),
            Law::new("forged.4", 6000, 200_000, |g| forged_case::<4>(g, 2, 40)),
            Law::new("impossible.16", 4000, 150_000, |g| impossible_case::<16>(g, 4)),
            Law::new("cells.16", 2500, 100_000, |g| cells_case::<16>(g, 4, 40)),
            Law::new("cells.256", 300, 20_000, |g| cells_case::<256>(g, 8, 40)),
        ],
    }
}

/// another well-formed public statement
pub fn alter(g: &mut G, words: &[u16], input: &[u64], m: u64) -> (Vec<u16>, Vec<u64>, String) {
    loop {
        let (mut w, mut i) = (words.to_vec(), input.to_vec());
        let mut note = String::new();
        for _ in 0..g.range(1, 2) {
            match g.weighted(&[4, 2, 2, 2, 2, 4, 2, 2, 2, 2, 1]) {
                0 if !w.is_empty() => {
                    let p = g.usize(w.len());
                    w[p] = match g.below(4) {
                        0 => 0,
                        1 => b"<>+-,.[]"[g.usize(8)] as u16,
                        2 => g.below(w.len() as u64 + 1) as u16,
                        _ => w[p].wrapping_add(1),
                    };
                    note += &format!(" word {} changed", p);
                }
                1 => {
                    for _ in 0..g.range(1, 3) {
                        w.push(0);
                    }
                    note += " zero words appended to the program";
                }
                2 => {
                    w.insert(0, 0);
                    note += " zero word before the program";
                }
                3 => {
                    w.push(b"+-.>"[g.usize(4)] as u16);
                    note += " word appended";
                }
                4 => {
                    w.pop();
                    note += " last word dropped";
                }
                5 if !i.is_empty() => {
                    let p = g.usize(i.len());
                    i[p] = [0, 1, m - 1, (i[p] + 1) % m][g.usize(4)];
                    note += &format!(" input byte {} changed", p);
                }
                6 => {
                    for _ in 0..g.range(1, 3) {
                        i.push(0);
                    }
                    note += " zero bytes appended to the input";
                }
                7 => {
                    i.insert(0, 0);
                    note += " zero byte before the input";
                }
                8 => {
                    let v = g.below(m);
                    i.push(v);
                    note += " byte appended to the input";
                }
                9 => {
                    i.pop();
                    note += " last input byte dropped";
                }
                _ => {
                    if w.len() > 1 {
                        let p = g.usize(w.len() - 1);
                        w.swap(p, p + 1);
                        note += " neighbouring words exchanged";
                    } else if i.len() > 1 {
                        i.reverse();
                    }
                }
            }
        }
        if w != words || i != input {
            return (w, i, note);
        }
    }
}

fn rebind_case<const N: usize>(g: &mut G, bits: u64, limit: usize) -> R {
    let (src, r) = gen_run(g, bits, limit);
    let words = ref_compile(src.as_bytes());
    let h = honest(&words, &r);
    let seed = g.u64();
    for _ in 0..3 {
        let (w2, i2, note) = alter(g, &words, &r.input, 1 << bits);
        let mut f = h.clone();
        let follow = g.below(4);
        if follow == 1 {
            // the circuit of the other lengths, filled with the old execution
            f.input_len = i2.len();
        } else if follow == 2 {
            f.program_len = w2.len();
        }
        g.desc(|| format!("range {} program {:?} input {:?} shown as:{}", N, src, r.input, note));
        g.nontrivial();
        let inst = instance(&w2, &i2);
        let mut lab = match synth::<N>(&f, &inst, seed) {
            Some(l) => l,
            None => continue,
        };
        let free = free_cells(&lab);
        if lab.accepts() || lab.solve(&free, &mut Rng::new(seed ^ 3)) {
            fail!("the witness for {:?} on {:?} is accepted for another statement:{}", src, r.input, note);
        }
        g.evals(1);
    }
    Ok(())
}

pub mod real {
    use super::*;
    use halo2_proofs::halo2curves::bn256::{Bn256, G1Affine};
    use halo2_proofs::plonk::*;
    use halo2_proofs::poly::commitment::ParamsProver;
    use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
    use halo2_proofs::poly::kzg::multiopen::{ProverSHPLONK, VerifierSHPLONK};
    use halo2_proofs::poly::kzg::strategy::SingleStrategy;
    use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255, TranscriptReadBuffer, TranscriptWriterBuffer};
    use std::collections::HashMap;
    use std::sync::{Arc, Mutex};

    static PARAMS: Mutex<Option<HashMap<u32, Arc<ParamsKZG<Bn256>>>>> = Mutex::new(None);
    pub fn params(k: u32) -> Arc<ParamsKZG<Bn256>> {
        let mut m = PARAMS.lock().unwrap();
        m.get_or_insert_with(HashMap::new).entry(k).or_insert_with(|| Arc::new(ParamsKZG::<Bn256>::unsafe_setup_with_s(k, fr(0x1234567)))).clone()
    }
    pub fn prove<const N: usize>(k: u32, mk: &dyn Fn() -> MyCircuit<Fr, N>, inst: &[Vec<Fr>], seed: u64) -> Result<(VerifyingKey<G1Affine>, Vec<u8>), String> {
        let p = params(k);
        let vk = keygen_vk(&*p, &mk()).map_err(|e| format!("keygen_vk: {:?}", e))?;
        let pk = keygen_pk(&*p, vk, &mk()).map_err(|e| format!("keygen_pk: {:?}", e))?;
        let cols: Vec<&[Fr]> = inst.iter().map(|c| &c[..]).collect();
        let mut t = Blake2bWrite::<_, G1Affine, Challenge255<_>>::init(vec![]);
        create_proof::<KZGCommitmentScheme<Bn256>, ProverSHPLONK<'_, Bn256>, _, _, _, _>(&*p, &pk, &[mk()], &[&cols[..]], Rng::new(seed), &mut t).map_err(|e| format!("create_proof: {:?}", e))?;
        Ok((pk.get_vk().clone(), t.finalize()))
    }
    pub fn verify(k: u32, vk: &VerifyingKey<G1Affine>, inst: &[Vec<Fr>], proof: &[u8]) -> bool {
        let p = params(k);
        let vp = p.verifier_params();
        let cols: Vec<&[Fr]> = inst.iter().map(|c| &c[..]).collect();
        let mut t = Blake2bRead::<_, G1Affine, Challenge255<_>>::init(proof);
        verify_proof::<KZGCommitmentScheme<Bn256>, VerifierSHPLONK<'_, Bn256>, _, _, _>(vp, vk, SingleStrategy::new(vp), &[&cols[..]], &mut t).is_ok()
    }
}

fn real_case<const N: usize>(g: &mut G, bits: u64, limit: usize, alters: usize) -> R {
    let (src, r) = gen_run(g, bits, limit);
    let words = ref_compile(src.as_bytes());
    g.desc(|| format!("range {} program {:?} input {:?} (real proof)", N, src, r.input));
    classify(g, &src, &r);
    let inst = instance(&words, &r.input);
    let k = min_k::<MyCircuit<Fr, N>>((words.len() + r.steps.len() + 1).max(N + 1).max(16));
    let mk = || MyCircuit::<Fr, N>::new(run_vm(&src, &r.input, bits, &[]).matrix);
    let (vk, proof) = guarded(|| real::prove::<N>(k, &mk, &inst, g.u64())).map_err(|e| format!("proving {:?}: {}", src, e))??;
    ensure!(real::verify(k, &vk, &inst, &proof), "the proof of {:?} on {:?} does not verify", src, r.input);
    for _ in 0..alters {
        let (w2, i2, note) = alter(g, &words, &r.input, 1 << bits);
        let other = instance(&w2, &i2);
        if other.iter().any(|c| c.len() > 10 + (1 << k) / 2) {
            continue;
        }
        let ok = guarded(|| real::verify(k, &vk, &other, &proof)).unwrap_or(false);
        ensure!(!ok, "the proof for {:?} on {:?} verifies for another statement:{}", src, r.input, note);
        g.evals(1);
    }
    Ok(())
}

pub fn c04_real() -> Law {
    Law::new("honest.proof", 24, 1000, |g| real_case::<16>(g, 4, 60, 0)).shrink(60)
}

pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "honest witnesses and real proofs of random runs shown with another well-formed public program/input (changed, added, dropped, padded, exchanged words and bytes); non-trivial = the statement differs, which is every case",
        assumptions: vec!["a public statement is a length followed by exactly that many words", "the adversary keeps the execution and chooses all later-phase cells and all cells tied to public values"],
        laws: vec![
            Law::new("rebind.16", 5000, 200_000, |g| rebind_case::<16>(g, 4, 60)),
            Law::new("rebind.256", 600, 20_000, |g| rebind_case::<256>(g, 8, 60)),
            Law::new("rebind.proof", 24, 1000, |g| real_case::<16>(g, 4, 60, 6)).shrink(60),
        ],
    }
}

//! C01-C03: compiler, execution and trace against the reference machine.
use crate::refvm::*;
use ckb_bf_vm::code;
use ckb_bf_vm::interpreter::Interpreter;
use halo2_proofs::arithmetic::Field;
use halo2_proofs::halo2curves::bn256::Fr;
use vh_common::*;

pub fn fr(v: u64) -> Fr {
    Fr::from(v)
}

fn compile_law(g: &mut G, max: usize) -> R {
    let mut src = gen_text(g, max);
    if max >= 40_000 && g.bool() {
        // up to the largest address
        let n = ref_compile(&src).len();
        src.extend(std::iter::repeat(b'>').take(65531usize.saturating_sub(n)));
        src.extend_from_slice(b"[]");
    }
    let want = ref_compile(&src);
    if want.len() > 65535 {
        return Ok(());
    }
    let shown: String = String::from_utf8_lossy(&src).chars().take(300).collect();
    g.desc(|| format!("source ({} bytes, {} words): {:?}", src.len(), want.len(), shown));
    if src.iter().filter(|c| **c == b'[').count() >= 2 {
        g.nontrivial();
    }
    if want.len() > 256 {
        g.class("addresses above 255");
    }
    if want.is_empty() {
        g.class("empty");
    }
    let got = code::compile_to_u16(src.clone());
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail!("compile_to_u16 differs at word {}: got {:?} want {:?} (lengths {} / {})", i, got.get(i), want.get(i), got.len(), want.len());
    }
    let gf = code::compile(src.clone());
    ensure!(gf.len() == want.len() && gf.iter().zip(&want).all(|(a, b)| *a == fr(*b as u64)), "compile() disagrees with the reference bytecode");
    ensure!(code::compile_to_u16(src.clone()) == want, "second compilation differs");
    if let Ok(t) = std::str::from_utf8(&src) {
        let e = code::easygen(t);
        ensure!(e.len() == t.len() && e.iter().zip(t.as_bytes()).all(|(a, b)| *a == fr(*b as u64)), "easygen");
    }
    g.evals(want.len());
    Ok(())
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "balanced source texts with arbitrary other bytes mixed in; non-trivial = at least two loops",
        assumptions: vec!["brackets are balanced and the compiled program has at most 65535 words (addresses are u16)"],
        laws: vec![
            Law::new("compile.small", 60_000, 2_000_000, |g| compile_law(g, 60)),
            Law::new("compile.large", 1500, 40_000, |g| compile_law(g, 3000)),
            Law::new("compile.huge", 24, 400, |g| compile_law(g, 40_000)),
        ],
    }
}

pub fn run_vm(src: &str, input: &[u64], bits: u64, extra: &[u64]) -> Interpreter {
    let mut i = Interpreter::new();
    i.set_code(code::compile(src.as_bytes().to_vec()));
    let mut inp: Vec<Fr> = input.iter().map(|x| fr(*x)).collect();
    inp.extend(extra.iter().map(|x| fr(*x)));
    i.set_input(inp);
    if bits != 8 {
        i.set_bits(bits);
    }
    i.run();
    i
}

pub fn classify(g: &mut G, src: &str, r: &Run) {
    if src.contains('[') && r.steps.windows(2).any(|w| w[1].ip < w[0].ip) {
        g.class("loop taken");
        g.nontrivial();
    }
    if !r.input.is_empty() {
        g.class("reads input");
    }
    if !r.output.is_empty() {
        g.class("writes output");
    }
    if r.steps.windows(2).any(|w| w[0].mp == w[1].mp && w[0].mv.abs_diff(w[1].mv) > 1) {
        g.class("wraps or overwrites");
    }
    if r.max_mp > 0 {
        g.class("several cells");
    }
}

fn exec(g: &mut G, limit: usize) -> R {
    let bits = if g.chance(1, 5) { g.range(1, 16) as u64 } else { 8 };
    let (src, r) = gen_run(g, bits, limit);
    exec_of(g, src, r, bits)
}
fn short(s: &str) -> String {
    if s.len() < 400 { format!("{:?}", s) } else { format!("{:?}…{:?} ({} bytes)", &s[..60], &s[s.len() - 150..], s.len()) }
}
fn exec_of(g: &mut G, src: String, r: Run, bits: u64) -> R {
    let extra: Vec<u64> = (0..g.usize(4)).map(|_| g.below(1 << bits)).collect();
    g.desc(|| format!("bits {} program {} input {:?}({})+{:?} steps {} far {}", bits, short(&src), &r.input[..r.input.len().min(20)], r.input.len(), extra, r.steps.len(), r.max_mp));
    classify(g, &src, &r);
    let i = guarded(|| run_vm(&src, &r.input, bits, &extra)).map_err(|e| format!("execution of {} on {:?}: {}", short(&src), &r.input[..r.input.len().min(20)], e))?;
    for (l, c) in [(255, "more than 255"), (65535, "more than 65535")] {
        if r.max_mp > l {
            g.class(&format!("cell number {}", c));
        }
        if r.steps.len() > l {
            g.class(&format!("cycles {}", c));
        }
        if r.steps.windows(2).any(|w| w[1].ip < w[0].ip && w[1].ip > l) {
            g.class(&format!("jumps to addresses {}", c));
        }
        if r.output.len() > l {
            g.class(&format!("outputs {}", c));
        }
    }
    ensure_eq!(i.matrix.output_matrix, r.output.iter().map(|x| fr(*x)).collect::<Vec<_>>(), "output");
    ensure_eq!(i.input, extra.iter().map(|x| fr(*x)).collect::<Vec<_>>(), "unread input");
    ensure_eq!(i.matrix.input_matrix, r.input.iter().map(|x| fr(*x)).collect::<Vec<_>>(), "read input");
    for (c, v) in i.memory.iter().enumerate() {
        ensure_eq!(*v, fr(*r.tape.get(&c).unwrap_or(&0)), "final cell {}", c);
    }
    for (c, v) in &r.tape {
        ensure!(*v == 0 || *c < i.memory.len(), "cell {} = {} lost", c, v);
    }
    ensure_eq!(i.register.memory_pointer, fr(r.mp as u64), "final pointer");
    ensure_eq!(i.matrix.processor_matrix.len(), r.steps.len(), "number of cycles");
    Ok(())
}

pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "random terminating programs (construction by grammar, kept when the reference run stays on the tape and within the step limit); non-trivial = at least one loop iterates",
        assumptions: vec!["the program neither moves left of the first cell nor reads past the end of its input"],
        laws: vec![
            Law::new("exec.short", 30_000, 600_000, |g| exec(g, 400)),
            Law::new("exec.long", 3000, 60_000, |g| exec(g, 20_000)),
            Law::new("exec.big", 120, 4000, |g| {
                let (src, r) = gen_big(g, 30_000, 400_000);
                exec_of(g, src, r, 8)
            }),
            Law::new("exec.empty", 20, 200, |g| {
                let src: String = (0..g.usize(5)).map(|_| ['a', ' ', '\n'][g.usize(3)]).collect();
                g.desc(|| format!("program without commands {:?}", src));
                g.nontrivial();
                let i = guarded(|| run_vm(&src, &[], 8, &[])).map_err(|e| format!("running an empty program: {}", e))?;
                ensure!(i.matrix.output_matrix.is_empty() && i.matrix.processor_matrix.len() == 1, "empty program");
                Ok(())
            }),
        ],
    }
}

fn trace(g: &mut G, limit: usize) -> R {
    let (src, r) = gen_run(g, 8, limit);
    trace_of(g, src, r)
}
fn trace_of(g: &mut G, src: String, r: Run) -> R {
    let extra: Vec<u64> = (0..g.usize(3)).map(|_| g.below(256)).collect();
    g.desc(|| format!("program {} input {:?}({}) steps {}", short(&src), &r.input[..r.input.len().min(20)], r.input.len(), r.steps.len()));
    classify(g, &src, &r);
    let m = guarded(|| run_vm(&src, &r.input, 8, &extra)).map_err(|e| format!("execution of {}: {}", short(&src), e))?.matrix;
    let w = ref_compile(src.as_bytes());
    let at = |i: usize| fr(*w.get(i).unwrap_or(&0) as u64);
    let p = &m.processor_matrix;
    ensure_eq!(p.len(), r.steps.len(), "processor rows");
    for (c, (row, s)) in p.iter().zip(&r.steps).enumerate() {
        ensure_eq!(row.cycle, fr(c as u64), "cycle {}", c);
        ensure_eq!(row.instruction_pointer, fr(s.ip as u64), "cycle {} instruction pointer", c);
        ensure_eq!(row.current_instruction, at(s.ip), "cycle {} current instruction", c);
        ensure_eq!(row.next_instruction, at(s.ip + 1), "cycle {} next instruction", c);
        ensure_eq!(row.memory_pointer, fr(s.mp as u64), "cycle {} memory pointer", c);
        ensure_eq!(row.memory_value, fr(s.mv), "cycle {} memory value", c);
        let inv = if s.mv == 0 { Fr::zero() } else { fr(s.mv).invert().unwrap() };
        ensure_eq!(row.memory_value_inverse, inv, "cycle {} inverse", c);
    }
    // instruction table
    let mut want: Vec<usize> = (0..w.len()).chain(r.steps.iter().map(|s| s.ip)).collect();
    want.sort();
    ensure_eq!(m.instruction_matrix.len(), want.len(), "instruction rows");
    for (i, (row, ip)) in m.instruction_matrix.iter().zip(&want).enumerate() {
        ensure!(row.instruction_pointer == fr(*ip as u64) && row.current_instruction == at(*ip) && row.next_instruction == at(*ip + 1), "instruction row {}", i);
    }
    // memory table
    let mut want: Vec<(usize, usize, u64)> = r.steps.iter().enumerate().map(|(c, s)| (s.mp, c, s.mv)).collect();
    want.sort();
    ensure_eq!(m.memory_matrix.len(), want.len(), "memory rows");
    for (i, (row, (mp, c, mv))) in m.memory_matrix.iter().zip(&want).enumerate() {
        ensure!(row.memory_pointer == fr(*mp as u64) && row.cycle == fr(*c as u64) && row.memory_value == fr(*mv), "memory row {}", i);
    }
    ensure_eq!(m.input_matrix, r.input.iter().map(|x| fr(*x)).collect::<Vec<_>>(), "input table");
    ensure_eq!(m.output_matrix, r.output.iter().map(|x| fr(*x)).collect::<Vec<_>>(), "output table");
    ensure!(m.program.len() == w.len() && m.program.iter().zip(&w).all(|(a, b)| *a == fr(*b as u64)), "program table");
    g.evals(r.steps.len());
    Ok(())
}

pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "random terminating programs; every recorded row compared with the reference run; non-trivial = at least one loop iterates",
        assumptions: vec!["the program neither moves left of the first cell nor reads past the end of its input"],
        laws: vec![Law::new("trace.short", 25_000, 500_000, |g| trace(g, 400)), Law::new("trace.long", 2500, 50_000, |g| trace(g, 20_000)),
            Law::new("trace.big", 60, 2500, |g| {
                let (src, r) = gen_big(g, 30_000, 400_000);
                trace_of(g, src, r)
            }),
        ],
    }
}

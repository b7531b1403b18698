//! Forged executions: a machine that follows the public program but deviates where it is told,
//! and the tables a cheating prover would build from such a run.
use crate::refvm::*;
use crate::vm::fr;
use ckb_bf_vm::interpreter::Register;
use ckb_bf_vm::matrix::*;
use halo2_proofs::arithmetic::Field;
use halo2_proofs::halo2curves::bn256::Fr;
use std::collections::BTreeMap;
use vh_common::*;

pub fn fi(v: i64) -> Fr {
    if v < 0 {
        -Fr::from((-v) as u64)
    } else {
        Fr::from(v as u64)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub clk: i64,
    pub ip: i64,
    pub ci: i64,
    pub ni: i64,
    pub mp: i64,
    pub mv: i64,
    pub mvi: Fr,
    /// what the memory and instruction tables list for this cycle
    pub lm: (i64, i64, i64),
    pub li: (i64, i64, i64),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Forge {
    pub rows: Vec<Row>,
    pub mem: Vec<(i64, i64, i64)>,  // clk mp mv
    pub inst: Vec<(i64, i64, i64)>, // ip ci ni
    pub input_len: usize,
    pub output: Vec<i64>,
    pub program_len: usize,
}

pub fn inv(v: i64) -> Fr {
    if v == 0 {
        Fr::zero()
    } else {
        fi(v).invert().unwrap()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Dev {
    Ip(i64),
    /// leave the inverse register such that the documented jump condition still balances
    IpInv(i64),
    /// inverse register forced to zero
    InvZero,
    Mp(i64),
    Mv(i64),
    Clk(i64),
    Exec(i64),
    Stop,
    /// another next word on this visit only
    Ni(i64),
    /// execute and claim (opcode, next word), listed in the instruction table as another row
    Alias(i64, i64, (i64, i64, i64)),
    Skip, // do not consume the input byte
}

pub struct Sim<'a> {
    pub words: &'a [i64],
    pub ni: BTreeMap<i64, i64>, // claimed next instruction at an address
    pub input: &'a [i64],
    pub m: i64,
    pub init: (i64, i64, i64, i64), // clk ip mp mv
    pub devs: BTreeMap<usize, Dev>,
    pub limit: usize,
    pub list_true: bool,
    pub claim_exec: bool, // the processor row shows the opcode actually executed
}

pub struct Ran {
    pub rows: Vec<Row>,
    pub output: Vec<i64>,
    pub consumed: usize,
    pub ended: bool,
}

impl<'a> Sim<'a> {
    pub fn word(&self, ip: i64) -> i64 {
        if ip < 0 {
            return 0;
        }
        self.words.get(ip as usize).copied().unwrap_or(0)
    }
    pub fn run(&self) -> Ran {
        let (mut clk, mut ip, mut mp, mv0) = self.init;
        let mut mem: BTreeMap<i64, i64> = BTreeMap::new();
        if mv0 != 0 {
            mem.insert(mp, mv0);
        }
        let mut shadow: BTreeMap<i64, i64> = mem.clone();
        let mut rows: Vec<Row> = vec![];
        let mut output = vec![];
        let mut pos = 0usize;
        let len = self.words.len() as i64;
        loop {
            let mv = *mem.get(&mp).unwrap_or(&0);
            let mut ni = self.ni.get(&ip).copied().unwrap_or_else(|| self.word(ip + 1));
            if let Some(Dev::Ni(t)) = self.devs.get(&rows.len()) {
                ni = *t;
            }
            let honest_ni = self.ni.get(&ip).copied().unwrap_or_else(|| self.word(ip + 1));
            let lmv = if self.list_true { *shadow.get(&mp).unwrap_or(&mv) } else { mv };
            let lni = if self.list_true { honest_ni } else { ni };
            rows.push(Row { clk, ip, ci: self.word(ip), ni, mp, mv, mvi: inv(mv), lm: (clk, mp, lmv), li: (ip, self.word(ip), lni) });
            let step = rows.len() - 1;
            let dev = self.devs.get(&step);
            if dev == Some(&Dev::Stop) {
                return Ran { rows, output, consumed: pos, ended: true };
            }
            if ip == len || rows.len() > self.limit || ip < 0 || ip > len {
                return Ran { rows, output, consumed: pos, ended: ip == len };
            }
            let mut op = self.word(ip);
            if let Some(Dev::Exec(o)) = dev {
                op = *o;
                if self.claim_exec {
                    rows[step].ci = op;
                    if !self.list_true {
                        rows[step].li.1 = op;
                    }
                }
            }
            if let Some(Dev::InvZero) = dev {
                rows[step].mvi = Fr::zero();
            }
            if let Some(Dev::Alias(o, n, as_)) = dev {
                op = *o;
                ni = *n;
                rows[step].ci = op;
                rows[step].ni = ni;
                rows[step].li = *as_;
            }
            let (mut nip, mut nmp, mut nmv) = (ip + 1, mp, None);
            match op as u8 {
                b'>' => nmp += 1,
                b'<' => nmp -= 1,
                b'+' => nmv = Some((mv + 1).rem_euclid(self.m)),
                b'-' => nmv = Some((mv - 1).rem_euclid(self.m)),
                b',' => {
                    if pos < self.input.len() {
                        nmv = Some(self.input[pos]);
                    } else {
                        return Ran { rows, output, consumed: pos, ended: false };
                    }
                    if dev != Some(&Dev::Skip) {
                        pos += 1;
                    }
                }
                b'.' => output.push(mv),
                b'[' => nip = if mv == 0 { ni } else { ip + 2 },
                b']' => nip = if mv != 0 { ni } else { ip + 2 },
                _ => return Ran { rows, output, consumed: pos, ended: false },
            }
            match dev {
                Some(Dev::Ip(t)) => nip = *t,
                Some(Dev::IpInv(t)) => {
                    let x = if op == b'[' as i64 {
                        (fi(mv) * fi(t - ip - 2), fi(t - ni))
                    } else {
                        (fi(mv) * fi(t - ni), fi(t - ip - 2))
                    };
                    if let (Some(i), Some(j)) = (Option::<Fr>::from(x.1.invert()), Option::<Fr>::from(fi(mv).invert())) {
                        rows[step].mvi = (Fr::one() - x.0 * i) * j;
                    }
                    nip = *t;
                }
                Some(Dev::InvZero) => {
                    // the address that balances the jump condition, when it is an integer
                    if mv > 1 {
                        let (p, q) = if op == b'[' as i64 { (mv * (ip + 2) - ni, mv - 1) } else { (mv * ni - (ip + 2), mv - 1) };
                        if p % q == 0 && (op == b'[' as i64 || op == b']' as i64) {
                            nip = p / q;
                        }
                    }
                }
                Some(Dev::Mp(d)) => nmp += d,
                _ => {}
            }
            if let Some(v) = nmv {
                mem.insert(mp, v);
                shadow.insert(mp, v);
            }
            if let Some(Dev::Mv(v)) = dev {
                let o = *mem.get(&nmp).unwrap_or(&0);
                shadow.entry(nmp).or_insert(o);
                mem.insert(nmp, *v);
            }
            clk += 1;
            if let Some(Dev::Clk(d)) = dev {
                clk += d;
            }
            ip = nip;
            mp = nmp;
        }
    }
}

/// order the accesses of one cell so that the value only changes between consecutive clocks
fn reorder(group: &[(i64, i64, i64)], start: Option<i64>) -> Option<Vec<(i64, i64, i64)>> {
    fn go(group: &[(i64, i64, i64)], used: &mut Vec<bool>, out: &mut Vec<usize>, start: Option<i64>, budget: &mut usize) -> bool {
        if out.len() == group.len() {
            return true;
        }
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        // candidates: the consecutive clock first, then equal values
        let last = out.last().copied();
        let mut cand: Vec<usize> = (0..group.len())
            .filter(|i| !used[*i])
            .filter(|&i| match last {
                None => start.map_or(true, |s| group[i].2 == s),
                Some(l) => group[i].0 == group[l].0 + 1 || group[i].2 == group[l].2,
            })
            .collect();
        if let Some(l) = last {
            cand.sort_by_key(|&i| (group[i].0 != group[l].0 + 1, group[i].0));
        }
        for i in cand {
            used[i] = true;
            out.push(i);
            if go(group, used, out, start, budget) {
                return true;
            }
            out.pop();
            used[i] = false;
        }
        false
    }
    let mut out = vec![];
    let mut budget = 3000;
    if go(group, &mut vec![false; group.len()], &mut out, start, &mut budget) {
        Some(out.into_iter().map(|i| group[i]).collect())
    } else {
        None
    }
}

pub fn mem_table(rows: &[Row], smart: bool) -> Vec<(i64, i64, i64)> {
    let mut t: Vec<(i64, i64, i64)> = rows.iter().map(|r| r.lm).collect();
    t.sort_by_key(|r| (r.1, r.0));
    if !smart {
        return t;
    }
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut j = i;
        while j < t.len() && t[j].1 == t[i].1 {
            j += 1;
        }
        let g = &t[i..j];
        match reorder(g, if i == 0 { None } else { Some(0) }) {
            Some(r) => out.extend(r),
            None => out.extend_from_slice(g),
        }
        i = j;
    }
    out
}

/// split the accesses of a cell where it drops to zero without a reason and list the pieces as
/// if they were separate cells
pub fn mem_regroup(g: &mut G, rows: &[Row]) -> Vec<(i64, i64, i64)> {
    let t = mem_table(rows, false);
    let mut segs: Vec<Vec<(i64, i64, i64)>> = vec![];
    for r in t {
        let new = match segs.last().and_then(|s| s.last()) {
            None => true,
            Some(l) => l.1 != r.1 || (l.2 != r.2 && r.0 != l.0 + 1 && r.2 == 0),
        };
        if new {
            segs.push(vec![r]);
        } else {
            segs.last_mut().unwrap().push(r);
        }
    }
    // chain the pieces: one that starts at zero may follow a neighbour cell or a zero
    let mut out: Vec<Vec<(i64, i64, i64)>> = vec![segs.remove(0)];
    while !segs.is_empty() {
        let l = *out.last().unwrap().last().unwrap();
        let ok: Vec<usize> = (0..segs.len()).filter(|&i| segs[i][0].1 == l.1 + 1 || l.2 == segs[i][0].2 || segs[i][0].0 == l.0 + 1).collect();
        let i = if ok.is_empty() { 0 } else { ok[g.usize(ok.len())] };
        out.push(segs.remove(i));
    }
    out.concat()
}

/// program rows (as claimed) go last in each group: only they are folded into the program sum
pub fn inst_table(prog: &[(i64, i64, i64)], rows: &[Row]) -> Vec<(i64, i64, i64)> {
    let mut t: Vec<(u8, (i64, i64, i64))> = rows.iter().map(|r| (0, r.li)).collect();
    t.extend(prog.iter().map(|p| (1, *p)));
    t.sort_by_key(|(k, r)| (r.0, *k));
    t.into_iter().map(|x| x.1).collect()
}

pub fn prog_rows(words: &[i64], base: i64, ni: &BTreeMap<i64, i64>) -> Vec<(i64, i64, i64)> {
    (0..words.len()).map(|i| (base + i as i64, words[i], ni.get(&(base + i as i64)).copied().unwrap_or_else(|| words.get(i + 1).copied().unwrap_or(0)))).collect()
}

pub fn matrix(f: &Forge) -> Matrix {
    let mut m = Matrix::default();
    for r in &f.rows {
        let mut x = Register::default();
        x.cycle = fi(r.clk);
        x.instruction_pointer = fi(r.ip);
        x.current_instruction = fi(r.ci);
        x.next_instruction = fi(r.ni);
        x.memory_pointer = fi(r.mp);
        x.memory_value = fi(r.mv);
        x.memory_value_inverse = r.mvi;
        m.processor_matrix.push(x);
    }
    for r in &f.mem {
        let mut x = Register::default();
        x.cycle = fi(r.0);
        x.memory_pointer = fi(r.1);
        x.memory_value = fi(r.2);
        m.memory_matrix.push(MemoryMatrixRow::from(&x));
    }
    for r in &f.inst {
        let mut x = Register::default();
        x.instruction_pointer = fi(r.0);
        x.current_instruction = fi(r.1);
        x.next_instruction = fi(r.2);
        m.instruction_matrix.push(InstructionMatrixRow::from(&x));
    }
    m.input_matrix = vec![Fr::zero(); f.input_len];
    m.output_matrix = f.output.iter().map(|x| fi(*x)).collect();
    m.program = vec![Fr::zero(); f.program_len];
    m
}

pub fn instance(words: &[u16], input: &[u64]) -> Vec<Vec<Fr>> {
    let mut a = vec![fr(words.len() as u64)];
    a.extend(words.iter().map(|w| fr(*w as u64)));
    let mut b = vec![fr(input.len() as u64)];
    b.extend(input.iter().map(|w| fr(*w)));
    vec![a, b]
}

pub fn honest(words: &[u16], r: &Run) -> Forge {
    let w: Vec<i64> = words.iter().map(|x| *x as i64).collect();
    let at = |i: usize| w.get(i).copied().unwrap_or(0);
    let rows: Vec<Row> = r
        .steps
        .iter()
        .enumerate()
        .map(|(c, s)| Row { clk: c as i64, ip: s.ip as i64, ci: at(s.ip), ni: at(s.ip + 1), mp: s.mp as i64, mv: s.mv as i64, mvi: inv(s.mv as i64), lm: (c as i64, s.mp as i64, s.mv as i64), li: (s.ip as i64, at(s.ip), at(s.ip + 1)) })
        .collect();
    Forge {
        mem: mem_table(&rows, false),
        inst: inst_table(&prog_rows(&w, 0, &BTreeMap::new()), &rows),
        rows,
        input_len: r.input.len(),
        output: r.output.iter().map(|x| *x as i64).collect(),
        program_len: w.len(),
    }
}

fn some_dev(g: &mut G, r: &Row, len: i64, m: i64, hist: &[i64], starts: &[i64]) -> Dev {
    let val = |g: &mut G| -> i64 {
        if r.ci == b'+' as i64 && g.chance(1, 3) {
            return r.mv + if g.bool() { 1 } else { 1 - m };
        }
        if r.ci == b'-' as i64 && g.chance(1, 3) {
            return r.mv - if g.bool() { 1 } else { 1 - m };
        }
        match g.weighted(&[3, 3, 2, 2, 2, 1]) {
            0 if !hist.is_empty() => hist[g.usize(hist.len())],
            0 => 0,
            1 => r.mv + [1, -1, 2, -2][g.usize(4)],
            2 => [0, m - 1, m, -1][g.usize(4)],
            3 => r.mv,
            4 => g.below(m as u64) as i64,
            _ => r.mv + [m, -m, m - 1, 1 - m][g.usize(4)],
        }
    };
    let target = |g: &mut G| -> i64 {
        match g.weighted(&[4, 2, 2, 1]) {
            0 => starts[g.usize(starts.len())],
            1 => len,
            2 => r.ip + [0, 1, 2, 3, -1][g.usize(5)],
            _ => r.ni,
        }
    };
    let branch = r.ci == b'[' as i64 || r.ci == b']' as i64;
    match g.weighted(&[3, if branch { 2 } else { 0 }, if branch { 2 } else { 0 }, 3, 6, 1, 2, 1, if r.ci == b',' as i64 { 3 } else { 0 }, if branch { 3 } else { 0 }]) {
        0 => Dev::Ip(target(g)),
        1 => Dev::IpInv(target(g)),
        2 => Dev::InvZero,
        3 => Dev::Mp([1, -1, 2, -2][g.usize(4)]),
        4 => Dev::Mv(val(g)),
        5 => Dev::Clk([-1, 1, 2][g.usize(3)]),
        6 => Dev::Exec(b"<>+-,.[]"[g.usize(8)] as i64),
        7 => Dev::Stop,
        8 => Dev::Skip,
        _ => Dev::Ni(target(g)),
    }
}

/// an instruction row that a fingerprint confusing two of its fields would not tell apart
fn alias(g: &mut G, r: &Row, w: &[i64]) -> Option<Dev> {
    if w.is_empty() || !g.chance(1, 8) {
        return None;
    }
    let ops = b"<>+-,.[]";
    for _ in 0..30 {
        let p2 = g.usize(w.len()) as i64;
        let (c2, n2) = (w[p2 as usize], w.get(p2 as usize + 1).copied().unwrap_or(0));
        let (c, n) = match g.below(3) {
            0 => (c2 + p2 - r.ip, n2),
            1 if p2 == r.ip => {
                let c = ops[g.usize(8)] as i64;
                (c, c2 + n2 - c)
            }
            1 => continue,
            _ => (c2, n2 + p2 - r.ip),
        };
        if ops.contains(&(c as u8)) && c < 256 && c > 0 && (c, n) != (r.ci, r.ni) {
            return Some(Dev::Alias(c, n, (p2, c2, n2)));
        }
    }
    None
}

/// the documented rules of the memory table
fn mem_ok(t: &[(i64, i64, i64)]) -> bool {
    t.first().map_or(true, |f| f.1 == 0)
        && t.windows(2).all(|x| {
            let (a, b) = (x[0], x[1]);
            if b.1 == a.1 {
                b.0 > a.0 && (a.2 == b.2 || b.0 == a.0 + 1)
            } else {
                b.1 == a.1 + 1 && b.2 == 0
            }
        })
}

/// a visit to a cell that reads a false value, listed as an access of another cell or another
/// time such that the sum of two of the three fields stays the same
pub fn mem_alias(g: &mut G, words: &[u16], r: &Run, m: i64) -> Option<(Forge, String)> {
    let w: Vec<i64> = words.iter().map(|x| *x as i64).collect();
    let inp: Vec<i64> = r.input.iter().map(|x| *x as i64).collect();
    let limit = r.steps.len() * 2 + 40;
    let moves: Vec<usize> = (1..r.steps.len()).filter(|&i| r.steps[i].mp != r.steps[i - 1].mp).collect();
    if moves.is_empty() {
        return None;
    }
    for _ in 0..40 {
        let at = moves[g.usize(moves.len())];
        let v = g.below(m.min(8) as u64) as i64;
        if v as u64 == r.steps[at].mv {
            continue;
        }
        let mut devs = BTreeMap::new();
        devs.insert(at - 1, Dev::Mv(v));
        let x = Sim { words: &w, ni: BTreeMap::new(), input: &inp, m, init: (0, 0, 0, 0), devs, limit, claim_exec: true, list_true: false }.run();
        if !x.ended || x.consumed != inp.len() {
            continue;
        }
        let mut rows = x.rows;
        let cell = rows[at].mp;
        let mut end = at;
        while end < rows.len() && rows[end].mp == cell {
            end += 1;
        }
        let until = g.range(at + 1, end);
        let kind = g.below(3);
        let j = [1, -1, 2, -2, 3, -3, 4, -4][g.usize(8)];
        for q in rows[at..until].iter_mut() {
            match kind {
                0 => q.lm = (q.clk + j, q.mp - j, q.mv),
                1 => q.lm = (q.clk, q.mp - j, q.mv + j),
                _ => q.lm = (q.clk - j, q.mp, q.mv + j),
            }
        }
        let t = mem_table(&rows, false);
        if !mem_ok(&t) {
            continue;
        }
        let note = format!("cell {} reads {} at cycle {}, listed as {:?}", cell, v, at, rows[at].lm);
        return Some((Forge { mem: t, inst: inst_table(&prog_rows(&w, 0, &BTreeMap::new()), &rows), rows, input_len: inp.len(), output: x.output, program_len: w.len() }, note));
    }
    None
}

/// A forged set of tables for the public (words, input) whose honest run is `r`.
pub fn forge(g: &mut G, words: &[u16], r: &Run, m: i64) -> (Forge, String) {
    let w: Vec<i64> = words.iter().map(|x| *x as i64).collect();
    let inp: Vec<i64> = r.input.iter().map(|x| *x as i64).collect();
    let h = honest(words, r);
    let len = w.len() as i64;
    let mut starts: Vec<i64> = vec![];
    let mut i = 0;
    while i < w.len() {
        starts.push(i as i64);
        i += if w[i] == b'[' as i64 || w[i] == b']' as i64 { 2 } else { 1 };
    }
    starts.push(len);
    let limit = r.steps.len() * 2 + 40;
    let mut words_used = w.clone();
    let mut ni = BTreeMap::new();
    let mut input = inp.clone();
    let mut init = (0, 0, 0, 0);
    let mut devs = BTreeMap::new();
    let mut note = String::new();
    let mut base = 0i64;
    let mut prefix: Vec<(i64, i64, i64)> = vec![];
    let mut input_len = inp.len();
    let mut program_len = w.len();
    let mut mode = g.weighted(&[10, 4, 3, 4, 3, 2, 2]);
    if mode == 1 && inp.is_empty() && g.chance(2, 3) {
        mode = 0;
    }
    let mut rounds = 1;
    match mode {
        0 => {
            rounds = g.range(1, 3).min(2);
        }
        1 => {
            // another input than the public one
            let d = g.u8();
            match g.weighted(&[3, 3, 3, 2, 2]) {
                0 if !input.is_empty() => {
                    let i = g.usize(input.len());
                    input[i] = [0, 1, m - 1, (input[i] + 1) % m, d as i64 % m][g.usize(5)];
                }
                1 => {
                    for _ in 0..g.range(1, 2) {
                        input.insert(0, 0);
                    }
                }
                2 => {
                    for _ in 0..g.range(1, 2) {
                        input.push(if g.bool() { 0 } else { d as i64 % m });
                    }
                }
                3 if input.len() > 1 => {
                    let i = g.usize(input.len() - 1);
                    input.swap(i, i + 1);
                }
                _ => {
                    if !input.is_empty() {
                        let i = g.usize(input.len());
                        input.remove(i);
                    }
                }
            }
            if g.bool() {
                input_len = usize::MAX;
            }
            note = format!("input {:?} instead of {:?}", input, inp);
        }
        2 => {
            // another program
            match g.weighted(&[4, 2, 2, 2]) {
                0 => {
                    let s = starts[g.usize(starts.len())] as usize;
                    if s < w.len() {
                        words_used[s] = b"<>+-,."[g.usize(6)] as i64;
                    }
                }
                1 => {
                    let i = g.usize(w.len().max(1));
                    if i < w.len() {
                        words_used[i] = *g.pick(&starts);
                    }
                }
                2 => words_used.push(b"<>+-.,"[g.usize(6)] as i64),
                _ => {
                    words_used.pop();
                }
            }
            if g.bool() {
                program_len = words_used.len();
            }
            note = format!("program {:?}", words_used);
        }
        3 => {
            // false successor word at some address
            let s: Vec<i64> = starts.iter().copied().filter(|s| *s < len && (w[*s as usize] == b'[' as i64 || w[*s as usize] == b']' as i64)).collect();
            let at = if s.is_empty() || g.chance(1, 6) { *g.pick(&starts) } else { *g.pick(&s) };
            let t = *g.pick(&starts);
            ni.insert(at, t);
            note = format!("next word {} at address {}", t, at);
        }
        4 => {
            // the run starts in another state
            match g.below(6) {
                0 => init.0 = [1, -1, 5][g.usize(3)],
                1 => init.1 = *g.pick(&starts),
                2 => init.2 = [1, -1, 2][g.usize(3)],
                3 => init.3 = [1, m - 1, 2][g.usize(3)],
                4 => {
                    init.2 = [1, -1, 2][g.usize(3)];
                    init.3 = [1, m - 1, 2][g.usize(3)];
                }
                _ => {
                    init.1 = *g.pick(&starts);
                    init.3 = [0, 1, m - 1, 2][g.usize(4)];
                }
            }
            note = format!("initial state {:?}", init);
        }
        5 => {
            // address zero is some words into the program
            let s: Vec<i64> = starts.iter().copied().filter(|s| *s <= len).collect();
            let j = *g.pick(&s);
            base = 0;
            words_used = w[j as usize..].to_vec();
            prefix = prog_rows(&w, -j, &BTreeMap::new())[..j as usize].to_vec();
            note = format!("program starts at address {}", -j);
        }
        _ => {}
    }
    let mut ran = None;
    for round in 0..rounds {
        let sim = Sim { words: &words_used, ni: ni.clone(), input: &input, m, init, devs: devs.clone(), limit, claim_exec: true, list_true: false };
        let cur = sim.run();
        if mode == 0 {
            // choose where to deviate along the current run
            let n = cur.rows.len();
            let step = match g.weighted(&[6, 2, 2]) {
                0 => g.usize(n),
                1 => n.saturating_sub(1 + g.usize(3)),
                _ => g.usize(n.min(3)),
            };
            let row = &cur.rows[step];
            let next_mp = cur.rows.get(step + 1).map_or(row.mp, |x| x.mp);
            let hist: Vec<i64> = cur.rows.iter().filter(|x| x.mp == next_mp).map(|x| x.mv).collect();
            let d = match alias(g, row, &w) {
                Some(d) => d,
                None => some_dev(g, row, len, m, &hist, &starts),
            };
            note += &format!(" step {}{}: {:?}", step, if round > 0 { " then" } else { "" }, d);
            devs.insert(step, d);
        }
        ran = Some(());
    }
    let _ = ran;
    let claim_exec = g.chance(2, 3);
    let list_true = g.chance(1, 4);
    let sim = Sim { words: &words_used, ni: ni.clone(), input: &input, m, init, devs, limit, claim_exec, list_true };
    let x = sim.run();
    if !x.ended {
        note += " (did not end)";
    }
    let style = g.weighted(&[3, 4, 2]);
    let mut f = Forge {
        mem: if style == 2 { mem_regroup(g, &x.rows) } else { mem_table(&x.rows, style == 1) },
        inst: {
            let mut p = prefix;
            p.extend(prog_rows(&words_used, base, &ni));
            inst_table(&p, &x.rows)
        },
        rows: x.rows,
        input_len: if input_len == usize::MAX { x.consumed } else { input_len },
        output: x.output,
        program_len,
    };
    if mode == 6 || g.chance(1, 12) {
        // tamper with the finished tables
        let h2 = h.clone();
        if mode == 6 {
            f = h2;
        }
        match g.below(12) {
            0 if !f.output.is_empty() => {
                let i = g.usize(f.output.len());
                f.output[i] += 1;
            }
            1 => f.output.insert(0, 0),
            2 => {
                f.output.pop();
            }
            3 => {
                let i = g.usize(f.mem.len());
                let r = f.mem[i];
                f.mem.insert(i, r);
            }
            4 => {
                let i = g.usize(f.mem.len());
                f.mem.remove(i);
            }
            5 if f.mem.len() > 1 => {
                let i = g.usize(f.mem.len() - 1);
                f.mem.swap(i, i + 1);
            }
            6 => {
                let i = g.usize(f.inst.len());
                let r = f.inst[i];
                f.inst.insert(i, r);
            }
            7 => {
                let i = g.usize(f.inst.len());
                f.inst.remove(i);
            }
            8 => {
                // the row after the last word
                let l = f.rows.len() - 1;
                if g.bool() {
                    f.rows[l].ci = b"+.,>"[g.usize(4)] as i64;
                } else {
                    f.rows[l].ni = 1 + g.below(40) as i64;
                }
                let (ci, ni) = (f.rows[l].ci, f.rows[l].ni);
                f.rows[l].li = (f.rows[l].ip, ci, ni);
                for t in f.inst.iter_mut().filter(|t| t.0 == len) {
                    t.1 = ci;
                    t.2 = ni;
                }
            }
            9 => {
                let i = g.usize(f.rows.len());
                f.rows[i].mvi = [Fr::zero(), Fr::one(), fi(5)][g.usize(3)];
            }
            10 => {
                // a run that skips its tail: the last row alone claims the end
                let n = f.rows.len();
                let cut = g.usize(n);
                let last = f.rows[n - 1].clone();
                f.rows.truncate(cut);
                let mut l = last;
                l.clk = cut as i64;
                l.lm.0 = l.clk;
                if let Some(p) = f.rows.last() {
                    if g.bool() {
                        l.mp = p.mp;
                        l.mv = p.mv;
                        l.mvi = p.mvi;
                        l.lm = (l.clk, l.mp, l.mv);
                    }
                }
                f.rows.push(l);
                f.mem = mem_table(&f.rows, true);
                f.inst = inst_table(&prog_rows(&w, 0, &BTreeMap::new()), &f.rows);
                f.output = f.rows.iter().filter(|r| r.ci == b'.' as i64).map(|r| r.mv).collect();
            }
            _ => {
                // cycles of the whole run shifted
                let d = 1 + g.usize(3) as i64;
                for r in f.rows.iter_mut() {
                    r.clk += d;
                }
                for r in f.mem.iter_mut() {
                    r.0 += d;
                }
            }
        }
        note += " tables tampered";
    }
    (f, note)
}

//! Independent Brainfuck reference: its own bracket matching, bytecode and execution.
use std::collections::BTreeMap;
use vh_common::G;

#[derive(Clone, Debug)]
pub struct Prog {
    pub src: String,
    /// reference bytecode
    pub words: Vec<u16>,
}

/// Reference compiler: commands and matching computed from the source positions.
pub fn ref_compile(src: &[u8]) -> Vec<u16> {
    let cmds: Vec<u8> = src.iter().copied().filter(|c| b"<>+-,.[]".contains(c)).collect();
    // address of each command in the word stream
    let mut addr = vec![];
    let mut a = 0usize;
    for c in &cmds {
        addr.push(a);
        a += if *c == b'[' || *c == b']' { 2 } else { 1 };
    }
    // matching by depth scan
    let mut out = vec![];
    for (i, c) in cmds.iter().enumerate() {
        out.push(*c as u16);
        match c {
            b'[' => {
                let mut d = 0;
                let mut j = i;
                loop {
                    if cmds[j] == b'[' {
                        d += 1;
                    }
                    if cmds[j] == b']' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                out.push((addr[j] + 2) as u16);
            }
            b']' => {
                let mut d = 0;
                let mut j = i;
                loop {
                    if cmds[j] == b']' {
                        d += 1;
                    }
                    if cmds[j] == b'[' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j -= 1;
                }
                out.push((addr[j] + 2) as u16);
            }
            _ => {}
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub ip: usize,
    pub mp: usize,
    pub mv: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Run {
    pub steps: Vec<Step>,
    pub output: Vec<u64>,
    pub input: Vec<u64>,
    pub tape: BTreeMap<usize, u64>,
    pub mp: usize,
    pub max_mp: usize,
}

/// Execute the source directly (not the bytecode). `read` supplies input; None when the run
/// leaves the tape on the left, exceeds `limit` steps or read() has nothing to give.
pub fn ref_run(src: &[u8], bits: u64, limit: usize, mut read: impl FnMut() -> Option<u64>) -> Option<Run> {
    let cmds: Vec<u8> = src.iter().copied().filter(|c| b"<>+-,.[]".contains(c)).collect();
    let mut addr = vec![];
    let mut a = 0usize;
    for c in &cmds {
        addr.push(a);
        a += if *c == b'[' || *c == b']' { 2 } else { 1 };
    }
    addr.push(a);
    let mut mate = vec![0; cmds.len()];
    let mut st = vec![];
    for (i, c) in cmds.iter().enumerate() {
        if *c == b'[' {
            st.push(i);
        } else if *c == b']' {
            let j = st.pop()?;
            mate[i] = j;
            mate[j] = i;
        }
    }
    if !st.is_empty() {
        return None;
    }
    let m = 1u64 << bits;
    let mut r = Run::default();
    let mut pc = 0;
    let mut mp: i64 = 0;
    loop {
        let mv = *r.tape.get(&(mp as usize)).unwrap_or(&0);
        r.steps.push(Step { ip: addr[pc], mp: mp as usize, mv });
        if pc >= cmds.len() {
            break;
        }
        if r.steps.len() > limit {
            return None;
        }
        match cmds[pc] {
            b'>' => {
                mp += 1;
                r.max_mp = r.max_mp.max(mp as usize);
            }
            b'<' => {
                mp -= 1;
                if mp < 0 {
                    return None;
                }
            }
            b'+' => {
                r.tape.insert(mp as usize, (mv + 1) % m);
            }
            b'-' => {
                r.tape.insert(mp as usize, (mv + m - 1) % m);
            }
            b',' => {
                let v = read()?;
                r.input.push(v);
                r.tape.insert(mp as usize, v);
            }
            b'.' => r.output.push(mv),
            b'[' => {
                if mv == 0 {
                    pc = mate[pc];
                }
            }
            _ => {
                if mv != 0 {
                    pc = mate[pc];
                }
            }
        }
        pc += 1;
    }
    r.mp = mp as usize;
    Some(r)
}

fn block(g: &mut G, depth: usize, budget: &mut usize, out: &mut String) {
    let n = g.range(1, 6);
    for _ in 0..n {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        match g.weighted(&[4, 4, 3, 3, 3, 3, 2, 2, 2, 2, if depth > 0 { 3 } else { 0 }]) {
            0 => out.push('+'),
            1 => out.push('-'),
            2 => out.push('>'),
            3 => out.push('<'),
            4 => out.push(','),
            5 => out.push('.'),
            6 => out.push_str("[-]"),
            7 => {
                // move / copy loops
                let k = g.range(1, 3);
                let body = ["[->+<]", "[>+<-]", "[->++>+<<]", "[>]", "[-<+>]"];
                out.push_str(body[g.usize(body.len())]);
                let _ = k;
            }
            8 => {
                let k = g.range(1, 5);
                let c = if g.bool() { '+' } else { '-' };
                for _ in 0..k {
                    out.push(c);
                }
            }
            9 => {
                // counted loop
                let k = g.range(1, 3);
                for _ in 0..k {
                    out.push('+');
                }
                out.push('[');
                out.push('>');
                block(g, depth.saturating_sub(1), budget, out);
                // not necessarily balanced: the simulation filters
                out.push('<');
                out.push_str("-]");
            }
            _ => {
                out.push('[');
                block(g, depth - 1, budget, out);
                if g.chance(2, 3) {
                    out.push('-');
                }
                out.push(']');
            }
        }
    }
}

/// Straight-line/loop programs over a few named cells with a tracked pointer.
fn structured(g: &mut G, depth: usize, cells: usize, locked: &mut Vec<usize>, ptr: &mut usize, out: &mut String) {
    let go = |t: usize, ptr: &mut usize, out: &mut String| {
        while *ptr < t {
            out.push('>');
            *ptr += 1;
        }
        while *ptr > t {
            out.push('<');
            *ptr -= 1;
        }
    };
    let n = g.range(1, 5);
    for _ in 0..n {
        let c = g.usize(cells);
        if locked.contains(&c) {
            continue;
        }
        match g.weighted(&[4, 2, 3, 3, 2, if depth > 0 { 5 } else { 0 }, 1]) {
            0 => {
                go(c, ptr, out);
                let k = g.range(1, 4);
                let ch = if g.bool() { '+' } else { '-' };
                for _ in 0..k {
                    out.push(ch);
                }
            }
            1 => {
                go(c, ptr, out);
                out.push_str("[-]");
            }
            2 => {
                go(c, ptr, out);
                out.push(',');
            }
            3 => {
                go(c, ptr, out);
                out.push('.');
            }
            4 => {
                // move c into d
                let d = g.usize(cells);
                if d != c && !locked.contains(&d) {
                    go(c, ptr, out);
                    out.push_str("[-");
                    go(d, ptr, out);
                    out.push('+');
                    go(c, ptr, out);
                    out.push(']');
                }
            }
            5 => {
                go(c, ptr, out);
                out.push_str("[-]");
                let k = g.usize(4);
                for _ in 0..k {
                    out.push('+');
                }
                out.push('[');
                locked.push(c);
                structured(g, depth - 1, cells, locked, ptr, out);
                locked.pop();
                go(c, ptr, out);
                out.push_str("-]");
            }
            _ => {
                go(c, ptr, out);
                out.push_str("-+");
            }
        }
    }
}

/// A random terminating program within `limit` steps together with its reference run.
pub fn gen_run(g: &mut G, bits: u64, limit: usize) -> (String, Run) {
    for attempt in 0..12 {
        let mut s = String::new();
        let mut budget = if attempt > 6 { 10 } else { g.range(1, 40) };
        let blocks = g.range(1, 4);
        if g.chance(3, 5) {
            let cells = g.range(1, 5);
            let mut ptr = 0;
            for _ in 0..blocks {
                structured(g, 2, cells, &mut vec![], &mut ptr, &mut s);
            }
        } else {
            // starting a little to the right makes '<' usable
            let pre = g.usize(3);
            for _ in 0..pre {
                s.push('>');
            }
            for _ in 0..blocks {
                block(g, 3, &mut budget, &mut s);
            }
        }
        let m = 1u64 << bits;
        let mode = g.below(4);
        let r = {
            let g = &mut *g;
            ref_run(s.as_bytes(), bits, limit, || {
                Some(match mode {
                    0 => g.below(3) % m,
                    1 => [0, 1, m - 1, m / 2][g.usize(4)],
                    _ => g.below(m),
                })
            })
        };
        if let Some(r) = r {
            return (s, r);
        }
    }
    let s = "+,.".to_string();
    let r = ref_run(s.as_bytes(), bits, limit, || Some(7 % (1 << bits))).unwrap();
    (s, r)
}

/// Programs with far cells, high addresses, many cycles, much input or output.
pub fn gen_big(g: &mut G, max_far: usize, limit: usize) -> (String, Run) {
    for _ in 0..6 {
        let mut s = String::new();
        let mut fixed: Option<Vec<u64>> = None;
        let far = match g.below(4) {
            0 => g.usize(300),
            1 => g.usize(2000),
            _ => g.usize(max_far + 1),
        };
        match g.below(6) {
            0 => {
                // far cells, addresses above them
                s.push_str(&">".repeat(far));
                let cells = g.range(1, 5);
                let mut ptr = 0;
                for _ in 0..g.range(1, 4) {
                    structured(g, 2, cells, &mut vec![], &mut ptr, &mut s);
                }
                s.push_str(&"<".repeat(ptr + g.usize(far + 1)));
                s.push_str([".", "+.", ",.", "-[-].", ""][g.usize(5)]);
            }
            1 => {
                // long straight code around loops (skipped and taken)
                let n = far / 3 + 1;
                if g.bool() {
                    s.push('+');
                }
                s.push('[');
                for _ in 0..n {
                    s.push_str(["+-", "><", "-+", "+", ">+<"][g.usize(5)]);
                }
                s.push_str("[-]]");
                let mut ptr = 0;
                for _ in 0..g.range(1, 3) {
                    structured(g, 2, 4, &mut vec![], &mut ptr, &mut s);
                }
            }
            2 => {
                // many cycles
                let a = g.usize(4);
                s.push_str(["-", "--", "++++", ","][a]);
                s.push_str("[>-[");
                s.push_str(["-", ">+<-", "--"][g.usize(3)]);
                s.push_str("]<-].>.");
            }
            3 => {
                // copies its input
                let n = g.usize(far / 4 + 2);
                let mut v: Vec<u64> = (0..n).map(|_| 1 + g.below(255)).collect();
                v.push(0);
                fixed = Some(v);
                s.push_str(["+[,.]", "+[,.>]", ",[.,]", ",[>,]<[.<]"][g.usize(3)]);
            }
            4 => {
                // marks cells to the right until the input ends, walks back
                let n = g.usize(far / 6 + 2);
                let mut v: Vec<u64> = (0..n).map(|_| 1 + g.below(255)).collect();
                v.push(0);
                fixed = Some(v);
                s.push_str(">,[>,]<[.-<]");
            }
            _ => {
                // all byte values
                s.push_str(&">".repeat(g.usize(far / 8 + 1)));
                s.push_str(["+[.+]", "-[.-]", ".+[+.]", "-[.-].-[>+<-]>."][g.usize(4)]);
            }
        }
        let mut it = fixed.into_iter().flatten();
        let any = g.below(3);
        let r = ref_run(s.as_bytes(), 8, limit, || it.next().or_else(|| Some([0, 7, 255][any as usize])));
        if let Some(r) = r {
            return (s, r);
        }
    }
    gen_run(g, 8, limit.min(1000))
}

/// Any balanced source text with arbitrary other bytes in between.
pub fn gen_text(g: &mut G, max: usize) -> Vec<u8> {
    let n = g.usize(max + 1);
    let mut s = vec![];
    let mut depth = 0usize;
    let style = g.below(4);
    let open = if style == 1 { 12 } else { 3 };
    let close = if style == 2 { 1 } else { 3 };
    for _ in 0..n {
        match g.weighted(&[6, open, close, 3]) {
            0 => s.push(b"+-<>.,"[g.usize(6)]),
            1 => {
                s.push(b'[');
                depth += 1;
            }
            2 => {
                if depth > 0 {
                    s.push(b']');
                    depth -= 1;
                } else {
                    s.push(b'+');
                }
            }
            _ => {
                let b = g.u8();
                if !b"+-<>.,[]".contains(&b) {
                    s.push(b);
                }
            }
        }
    }
    for _ in 0..depth {
        s.push(b']');
    }
    s
}

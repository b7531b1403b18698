#![feature(once_cell)]
//! C07/C08: the prover command and the on-chain verifier script, run end to end on the host.
//! The verifier is the repository's script compiled against a stand-in for the system calls.
#[path = "../../bf/src/refvm.rs"]
#[allow(dead_code)]
mod refvm;
use refvm::*;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;
use vh_common::*;

type Wit = Vec<Vec<u8>>;
static NEXT: AtomicUsize = AtomicUsize::new(0);

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("vh_chain_{}_{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(d.join("res")).unwrap();
        let t = d.join("target/riscv64imac-unknown-none-elf/release");
        std::fs::create_dir_all(&t).unwrap();
        std::fs::write(t.join("ckb_bf_verifier"), b"not the real script").unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn prover() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("vh_prover")
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x")?;
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// run the prover command; Ok = the witnesses of the transaction it wrote
fn run_prover(dir: &Path, src: &str, input: Option<&str>) -> Result<Wit, String> {
    std::fs::write(dir.join("program.bf"), src).unwrap();
    let _ = std::fs::remove_file(dir.join("res/tx.json"));
    let mut c = Command::new(prover());
    c.current_dir(dir).arg("program.bf");
    if let Some(i) = input {
        c.arg(i);
    }
    let o = c.output().map_err(|e| format!("cannot run the prover: {}", e))?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        let line = e.lines().find(|l| l.contains("panicked") || l.contains("rror")).unwrap_or("");
        return Err(format!("the prover command failed ({:?}): {}", o.status.code(), line));
    }
    let t = std::fs::read_to_string(dir.join("res/tx.json")).map_err(|e| format!("no transaction written: {}", e))?;
    let v: serde_json::Value = serde_json::from_str(&t).map_err(|e| format!("transaction is not JSON: {}", e))?;
    let w = v["tx"]["witnesses"].as_array().ok_or("no witnesses")?;
    w.iter().map(|x| x.as_str().and_then(unhex).ok_or_else(|| "bad witness".to_string())).collect()
}

/// Some(code): the script returned; None: it aborted
fn verifier(w: &Wit) -> Option<i8> {
    let w = w.clone();
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        guarded(|| {
            ckb_std::set_witnesses(w);
            vh_verifier::vh_entry()
        })
        .ok()
    });
    h.unwrap().join().unwrap_or(None)
}

fn random_string(g: &mut G, bytes: usize) -> String {
    let mut s = String::new();
    let mode = g.below(3);
    while s.len() < bytes {
        let c = match if mode == 2 { g.below(5) } else { mode } {
            0 => char::from_u32(1 + g.below(127) as u32),
            1 => char::from_u32(97 + g.below(26) as u32),
            2 => char::from_u32(0x80 + g.below(0x700) as u32),
            3 => char::from_u32(1 + g.below(3) as u32),
            _ => char::from_u32(0x10000 + g.below(0x1000) as u32),
        };
        s.push(c.unwrap_or('x'));
    }
    s
}

/// program, full input text and its reference run
fn gen_case(g: &mut G, limit: usize) -> (String, String, Run) {
    for _ in 0..8 {
        let (src, r) = gen_run(g, 8, limit);
        let text = random_string(g, r.input.len() + 24);
        let b = text.as_bytes().to_vec();
        let mut i = 0;
        let r2 = ref_run(src.as_bytes(), 8, limit, || {
            i += 1;
            b.get(i - 1).map(|x| *x as u64)
        });
        if let Some(r2) = r2 {
            return (src, text, r2);
        }
    }
    ("+.".into(), "a".into(), ref_run(b"+.", 8, 100, || None).unwrap())
}

fn end_to_end(g: &mut G, mut src: String, text: Option<String>, note: &str) -> R {
    let bytes = text.clone().unwrap_or_default().into_bytes();
    if g.chance(1, 3) {
        src = format!("a program\n{}\n", src);
    }
    let mut i = 0;
    let r = ref_run(src.as_bytes(), 8, 100_000, || {
        i += 1;
        bytes.get(i - 1).map(|x| *x as u64)
    });
    let r = match r {
        Some(r) => r,
        None => return Ok(()),
    };
    let words = ref_compile(src.as_bytes());
    let rows = words.len() + r.steps.len();
    g.desc(|| format!("{} program {:?} ({} words, {} instruction rows) input {:?} of which {} bytes read", note, src.chars().take(200).collect::<String>(), words.len(), rows, text.as_ref().map(|t| t.chars().take(40).collect::<String>()), r.input.len()));
    g.nontrivial();
    if bytes.len() > r.input.len() {
        g.class("input left over");
    }
    if !r.input.is_empty() {
        g.class("reads input");
    }
    let near = (rows + 40).next_power_of_two();
    if near - rows <= 40 {
        g.class("rows just below a power of two");
    }
    let s = Scratch::new();
    let twice = g.chance(1, 6);
    for round in 0..1 + twice as usize {
        if round == 1 {
            g.class("parameters reused");
        }
        let w = run_prover(&s.0, &src, text.as_deref()).map_err(|e| format!("program {:?} ({} instruction rows), input {:?}: {}", src.chars().take(120).collect::<String>(), rows, text, e))?;
        ensure!(w.len() >= 5, "the transaction has {} witnesses", w.len());
        let code: Vec<u8> = words.iter().flat_map(|x| x.to_le_bytes()).collect();
        ensure_eq!(w[3], code, "program witness");
        let read: Vec<u8> = r.input.iter().map(|x| *x as u8).collect();
        ensure_eq!(w[4], read, "input witness");
        match verifier(&w) {
            Some(0) => {}
            x => fail!("the on-chain verifier answers {:?} to the transaction for {:?} ({} instruction rows) on {:?}: {:?}", x, src.chars().take(120).collect::<String>(), rows, text, w.iter().map(|x| x.len()).collect::<Vec<_>>()),
        }
        g.evals(1);
    }
    Ok(())
}

fn c07() -> Check {
    Check {
        id: "C07",
        rule: "random programs and inputs through the prover command, its transaction through the verifier script; non-trivial = a transaction was produced and verified (all cases)",
        assumptions: vec![
            "the program neither moves left of the first cell nor reads past the end of its input, has at most 1024 words and reads at most 1024 bytes",
            "ckb-std is replaced by a stand-in with the same error behaviour; the script runs on the host, not in the RISC-V machine",
        ],
        laws: vec![
            Law::new("transaction.random", 22, 1500, |g| {
                let (src, text, r) = gen_case(g, 200);
                let input = match g.below(3) {
                    0 => Some(text),
                    _ if r.input.is_empty() && g.bool() => None,
                    _ => match std::str::from_utf8(&r.input.iter().map(|x| *x as u8).collect::<Vec<_>>()) {
                        Ok(s) => Some(s.to_string()),
                        _ => Some(text),
                    },
                };
                end_to_end(g, src, input, "random")
            })
            .shrink(8),
            Law::new("transaction.boundary", 20, 900, |g| {
                // pad the program so that the trace ends near the capacity of the circuit
                let (src, text, r) = gen_case(g, 150);
                let cur = ref_compile(src.as_bytes()).len() + r.steps.len();
                let want = 512 - g.usize(26);
                let mut s = src.clone();
                let mut n = cur;
                while n + 2 <= want {
                    s.push(if g.bool() { '+' } else { '>' });
                    n += 2;
                }
                end_to_end(g, s, Some(text), "boundary")
            })
            .shrink(4),
            Law::new("transaction.special", 11, 60, |g| {
                let i = g.index;
                let (src, input): (String, Option<String>) = match i % 11 {
                    // white space and control characters are input like any other
                    8 => (",.>,.>,.>,.>,.>,.>,.>,.".into(), Some(" \n\ta\r \n ".into())),
                    9 => (",.,.,.".into(), Some("\u{7f}\u{ff}".into())),
                    10 => (format!("{}.", ",".repeat(270)), Some("0123456789".repeat(27))),
                    0 => (String::new(), None),
                    1 => ("no commands here".into(), Some("left over".into())),
                    // exactly 1024 words, most of them skipped
                    2 => (format!("[{}]", "+".repeat(1020)), None),
                    3 => (",.".into(), Some("x".repeat(1024))),
                    4 => (".".repeat(40), None),
                    5 => ("-[-]".into(), None),
                    6 => (",>,>,<<[->+<]>.".into(), Some("é1".into())),
                    _ => (format!("[{}],", "[-]".repeat(203)), Some("q".into())),
                };
                end_to_end(g, src, input, "special")
            })
            .shrink(0),
            Law::new("transaction.large", 0, 24, |g| {
                if g.bool() {
                    // reads exactly 1024 bytes
                    let n = 1024;
                    end_to_end(g, ",".repeat(n), Some("ab".repeat(n / 2)), "large")
                } else {
                    let (src, text, _) = gen_case(g, 3000);
                    end_to_end(g, src, Some(text), "large")
                }
            })
            .shrink(0),
        ],
    }
}

struct Tx {
    what: String,
    w: Wit,
}
const BASES: [(&str, Option<&str>); 6] = [
    // addresses of more than one byte
    ("[++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++++],.[-].", Some("\u{3}zz")),
    (",.>,<[->+<]>.", Some("\u{5}A")),
    (",>,<[->+<]>.,", Some("\u{5}A\u{1}")),
    ("+++[->++<]>.", None),
    ("+++[->+-<]>.", None),
    (",.>,<[->+<]>.", Some("\u{4}A")),
];
fn bases() -> &'static Result<Vec<Tx>, String> {
    static B: OnceLock<Result<Vec<Tx>, String>> = OnceLock::new();
    B.get_or_init(|| {
        let hs: Vec<_> = BASES
            .iter()
            .map(|(p, i)| {
                std::thread::spawn(move || {
                    let s = Scratch::new();
                    let w = run_prover(&s.0, p, *i)?;
                    if verifier(&w) != Some(0) {
                        return Err(format!("the transaction for {:?} on {:?} is not accepted", p, i));
                    }
                    Ok(Tx { what: format!("{:?} on {:?}", p, i), w })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

const NAMES: [&str; 5] = ["parameters", "verifying key", "proof", "program", "input"];

fn tamper(g: &mut G, kind: usize) -> R {
    let b = match bases() {
        Ok(b) => b,
        Err(e) => fail!("{}", e),
    };
    let t = &b[g.usize(b.len())];
    let mut w = t.w.clone();
    let note = match kind {
        0 => {
            // bytes of proof, program or input
            let which = *g.pick(&[2, 2, 2, 2, 2, 3, 4]);
            if w[which].is_empty() {
                return Ok(());
            }
            let mut at = vec![];
            for _ in 0..g.range(1, 2) {
                let i = g.usize(w[which].len());
                match g.below(4) {
                    // the flag bits of a group element
                    3 if which == 2 => w[2][i | 31] ^= [0x80, 0x40][g.usize(2)],
                    0 => w[which][i] ^= 1 << g.below(8),
                    1 => w[which][i] = g.u8(),
                    _ => w[which][i] = [0, 0xff][g.usize(2)],
                }
                at.push(i);
            }
            format!("{} byte {:?} changed", NAMES[which], at)
        }
        1 => {
            // a proof element replaced by another one of the proof, or two exchanged
            let n = w[2].len() / 32;
            let (i, j) = (g.usize(n), g.usize(n));
            let a = w[2][32 * i..32 * i + 32].to_vec();
            let c = w[2][32 * j..32 * j + 32].to_vec();
            w[2][32 * j..32 * j + 32].copy_from_slice(&a);
            if g.bool() {
                w[2][32 * i..32 * i + 32].copy_from_slice(&c);
            }
            format!("proof elements {} and {} exchanged", i, j)
        }
        2 => {
            // truncation or omission
            let which = g.usize(5);
            if w[which].is_empty() {
                return Ok(());
            }
            if g.chance(1, 5) {
                w.truncate(which);
                format!("no {} witness", NAMES[which])
            } else {
                let n = if g.bool() { g.usize(w[which].len()) } else { w[which].len() - 1 };
                w[which].truncate(n);
                format!("{} cut to {} bytes", NAMES[which], n)
            }
        }
        3 => {
            // more program or input
            let which = 3 + g.usize(2);
            let n = if g.chance(1, 6) { 1024 + g.usize(1100) } else { g.range(1, 4) };
            let front = g.chance(1, 3);
            for _ in 0..n {
                let v = if g.chance(2, 3) { 0 } else { g.u8() };
                if front {
                    w[which].insert(0, v);
                } else {
                    w[which].push(v);
                }
            }
            format!("{} bytes added to the {} ({})", n, NAMES[which], if front { "front" } else { "end" })
        }
        4 => {
            // pieces of another transaction
            let o = &b[g.usize(b.len())];
            let set = g.range(1, 15);
            for k in 0..4 {
                if set >> k & 1 == 1 {
                    w[1 + k] = o.w[1 + k].clone();
                }
            }
            format!("witnesses {:04b} (input, program, proof, key) of {}", set, o.what)
        }
        5 => {
            // bytes of the verifying key
            let i = g.usize(w[1].len());
            w[1][i] ^= 1 << g.below(8);
            format!("verifying key byte {} changed", i)
        }
        _ => {
            let (i, j) = (g.usize(5), g.usize(5));
            w.swap(i, j);
            format!("witnesses {} and {} exchanged", i, j)
        }
    };
    if b.iter().any(|x| x.w == w) {
        return Ok(());
    }
    g.desc(|| format!("{}: {}", t.what, note));
    g.nontrivial();
    g.class(match kind {
        0 => "bytes",
        1 => "elements",
        2 => "truncated",
        3 => "extended",
        4 => "mixed",
        5 => "key",
        _ => "exchanged",
    });
    match verifier(&w) {
        Some(0) => fail!("the verifier accepts the transaction for {} with {}", t.what, note),
        Some(_) => {}
        None => g.class("aborted"),
    }
    Ok(())
}

fn c08() -> Check {
    Check {
        id: "C08",
        rule: "transactions of the prover command with witnesses altered, cut, extended, omitted or mixed; non-trivial = the witnesses differ from those of every base transaction",
        assumptions: vec![
            "the verifying key and the parameters are those of the transaction (the script takes them from its witnesses); an aborting script counts as rejection",
            "bytes after the end of the proof, key or parameters are not claimed to matter",
        ],
        laws: vec![
            Law::new("tamper.bytes", 1800, 80_000, |g| tamper(g, 0)).shrink(40),
            Law::new("tamper.elements", 500, 20_000, |g| tamper(g, 1)).shrink(40),
            Law::new("tamper.cut", 400, 10_000, |g| tamper(g, 2)).shrink(40),
            Law::new("tamper.extend", 300, 10_000, |g| tamper(g, 3)).shrink(40),
            Law::new("tamper.mixed", 300, 5_000, |g| tamper(g, 4)).shrink(40),
            Law::new("tamper.key", 500, 20_000, |g| tamper(g, 5)).shrink(40),
            Law::new("tamper.exchanged", 60, 500, |g| tamper(g, 6)).shrink(40),
        ],
    }
}

fn main() {
    vh_common::main_for(vec![c07(), c08()]);
}

//! Minimal property-based testing engine: every random decision a case makes is a draw
//! recorded on a choice tape, so failures shrink by editing the tape and the tape itself is
//! the replay file. Runs are a pure function of (code, VERIF_SEED, VERIF_TIER).

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod bigref;

// ---------------------------------------------------------------- choice tape

#[derive(Clone)]
pub struct Xo(pub [u64; 4]);
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Xo {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Xo([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

enum Src {
    Random(Xo),
    Replay,
}

/// The generator handle a property receives.
pub struct G {
    src: Src,
    tape: Vec<u64>,
    pos: usize,
    classes: Vec<String>,
    nontrivial: bool,
    desc: Option<String>,
    sub_evals: usize,
    pub index: usize,
}

impl G {
    fn random(seed: u64, index: usize) -> Self {
        G { src: Src::Random(Xo::new(seed)), tape: vec![], pos: 0, classes: vec![], nontrivial: false, desc: None, sub_evals: 0, index }
    }
    /// draws that are not part of a tape
    pub fn sub(seed: u64) -> Self {
        G::random(seed, 0)
    }
    fn replay(tape: Vec<u64>, index: usize) -> Self {
        G { src: Src::Replay, tape, pos: 0, classes: vec![], nontrivial: false, desc: None, sub_evals: 0, index }
    }
    /// uniform in [0, n); n == 0 means the full u64 range. 0 is the "simplest" outcome.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = match &mut self.src {
            Src::Random(r) => {
                let x = r.next();
                let v = if n == 0 { x } else { x % n };
                self.tape.push(v);
                v
            }
            Src::Replay => {
                // a generator that rejects draws may never end on the zeroes after the tape
                if self.pos > self.tape.len() + 300_000 {
                    panic!("the choice tape is exhausted");
                }
                let v = self.tape.get(self.pos).copied().unwrap_or(0);
                if n == 0 { v } else { v % n }
            }
        };
        self.pos += 1;
        v
    }
    fn exhausted(&self) -> bool {
        matches!(self.src, Src::Replay) && self.pos > self.tape.len() + 300_000
    }
    pub fn u64(&mut self) -> u64 {
        self.below(0)
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability a/b
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.below(b) >= b - a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut x = self.below(t);
        for (i, &wi) in w.iter().enumerate() {
            if x < wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let w = self.u64().to_le_bytes();
            let take = (n - v.len()).min(8);
            v.extend_from_slice(&w[..take]);
        }
        v
    }
    /// rng for APIs which need one; deterministic from the tape
    pub fn xo(&mut self) -> Xo {
        Xo::new(self.u64())
    }
    pub fn class(&mut self, c: &str) {
        if !self.classes.iter().any(|x| x == c) {
            self.classes.push(c.to_string());
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn desc<F: FnOnce() -> String>(&mut self, f: F) {
        self.desc = Some(f());
    }
    /// record extra oracle evaluations inside one case (mutants tried, queries compared ...)
    pub fn evals(&mut self, n: usize) {
        self.sub_evals += n;
    }
}

// ---------------------------------------------------------------- laws

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: Option<String>,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(msg: String) -> Self {
        Fail { sig: None, msg }
    }
}
impl From<&str> for Fail {
    fn from(msg: &str) -> Self {
        Fail { sig: None, msg: msg.to_string() }
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::Fail{sig:None,msg:format!($($a)*)}); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err($crate::Fail{sig:None,msg:format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)}); }
    }};
}
#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::Fail{sig:None,msg:format!($($a)*)}) };
}

pub struct Law {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub shrink: usize,
    pub run: Box<dyn Fn(&mut G) -> R + Send + Sync>,
}
impl Law {
    pub fn new<F: Fn(&mut G) -> R + Send + Sync + 'static>(name: &'static str, quick: usize, thorough: usize, f: F) -> Law {
        Law { name, quick, thorough, shrink: 400, run: Box::new(f) }
    }
    pub fn shrink(mut self, n: usize) -> Law {
        self.shrink = n;
        self
    }
}

impl Check {
    /// multiply the number of quick / thorough cases of every law
    pub fn scaled(mut self, q: f64, t: f64) -> Check {
        for l in &mut self.laws {
            l.quick = ((l.quick as f64 * q).ceil() as usize).max(1);
            l.thorough = ((l.thorough as f64 * t).ceil() as usize).max(1);
        }
        self
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub laws: Vec<Law>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

fn run_case(law: &Law, g: &mut G) -> R {
    match catch_unwind(AssertUnwindSafe(|| (law.run)(g))) {
        Ok(r) => r,
        Err(_) => Err(Fail { sig: None, msg: format!("unexpected panic: {}", last_panic()) }),
    }
}

fn shrink(law: &Law, mut tape: Vec<u64>, index: usize, first: Fail, start: Instant) -> (Vec<u64>, Fail, usize) {
    let mut best = first;
    let mut budget = law.shrink;
    let mut used = 0usize;
    let key = |f: &Fail| f.sig.clone();
    let want = key(&best);
    let mut attempt = |cand: &Vec<u64>, best: &mut Fail, budget: &mut usize| -> bool {
        if *budget == 0 || start.elapsed().as_secs() > 60 {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        used += 1;
        let mut g = G::replay(cand.clone(), index);
        match run_case(law, &mut g) {
            Err(f) if key(&f) == want && !g.exhausted() => {
                *best = f;
                true
            }
            _ => false,
        }
    };
    let mut progress = true;
    while progress && budget > 0 {
        progress = false;
        let mut size = (tape.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= tape.len() && budget > 0 {
                let mut c = tape.clone();
                c.drain(i..i + size);
                if attempt(&c, &mut best, &mut budget) {
                    tape = c;
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..tape.len() {
            if budget == 0 {
                break;
            }
            if tape[i] == 0 {
                continue;
            }
            let mut c = tape.clone();
            c[i] = 0;
            if attempt(&c, &mut best, &mut budget) {
                tape = c;
                progress = true;
                continue;
            }
            let (mut lo, mut hi) = (0u64, tape[i]);
            while hi - lo > 1 && budget > 0 {
                let mid = lo + (hi - lo) / 2;
                let mut c = tape.clone();
                c[i] = mid;
                if attempt(&c, &mut best, &mut budget) {
                    tape = c;
                    hi = mid;
                    progress = true;
                } else {
                    lo = mid;
                }
            }
        }
    }
    (tape, best, used)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

#[derive(Default)]
struct LawStats {
    evals: usize,
    sub: usize,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, usize>,
    samples: Vec<(usize, String)>,
    known: BTreeMap<String, usize>,
}

fn known_findings(id: &str) -> Vec<(String, String)> {
    let p = format!("{}/known_findings.txt", verif_dir());
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("KNOWN-FINDING: ") {
                let mut prop = "";
                let mut sig = "";
                for w in rest.split_whitespace() {
                    if let Some(v) = w.strip_prefix("property=") {
                        prop = v;
                    }
                    if let Some(v) = w.strip_prefix("signature=") {
                        sig = v;
                    }
                }
                if prop == id && !sig.is_empty() {
                    out.push((sig.to_string(), rest.to_string()));
                }
            }
        }
    }
    out
}

pub fn main_for(checks: Vec<Check>) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, loc));
    }));
    let args: Vec<String> = std::env::args().collect();
    let mut id = String::new();
    let mut replay = None;
    let mut only_law = None;
    let mut scale = 1.0f64;
    // name of the build variant this binary is (replay files record it)
    let mut variant = String::from("default");
    let mut evidence_path = None;
    // evidence of another build variant, embedded in this run's evidence
    let mut embed: Vec<(String, String)> = vec![];
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--replay" => {
                replay = Some(args[i + 1].clone());
                i += 1;
            }
            "--law" => {
                only_law = Some(args[i + 1].clone());
                i += 1;
            }
            "--scale" => {
                scale = args[i + 1].parse().unwrap();
                i += 1;
            }
            "--variant" => {
                variant = args[i + 1].clone();
                i += 1;
            }
            "--evidence" => {
                evidence_path = Some(args[i + 1].clone());
                i += 1;
            }
            "--embed" => {
                let (n, f) = args[i + 1].split_once('=').expect("name=file");
                embed.push((n.to_string(), std::fs::read_to_string(f).expect("embedded evidence")));
                i += 1;
            }
            "--list" => {
                for c in &checks {
                    for l in &c.laws {
                        println!("{} {} {} {}", c.id, l.name, l.quick, l.thorough);
                    }
                }
                std::process::exit(0);
            }
            s => id = s.to_string(),
        }
        i += 1;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let check = match checks.into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {id}");
            std::process::exit(2);
        }
    };

    if let Some(path) = replay {
        let s = std::fs::read_to_string(&path).expect("replay file");
        let mut law_name = String::new();
        let mut index = 0usize;
        let mut tape = vec![];
        for l in s.lines() {
            if let Some(v) = l.strip_prefix("law: ") {
                law_name = v.to_string();
            } else if let Some(v) = l.strip_prefix("index: ") {
                index = v.parse().unwrap();
            } else if let Some(v) = l.strip_prefix("tape:") {
                tape = v.split_whitespace().map(|x| x.parse().unwrap()).collect();
            }
        }
        let law = check.laws.iter().find(|l| l.name == law_name).expect("law");
        let mut g = G::replay(tape, index);
        match run_case(law, &mut g) {
            Ok(()) => {
                println!("replay passes: {} {}", check.id, law_name);
                std::process::exit(0);
            }
            Err(f) => {
                println!("replay fails: {} {}\n{}\ncase: {}", check.id, law_name, f.msg, g.desc.unwrap_or_default());
                println!("VIOLATION property={} replay={}", check.id, path);
                std::process::exit(1);
            }
        }
    }

    let t0 = Instant::now();
    let known = known_findings(check.id);
    // work list: interleave laws so that long ones do not pile up at the end
    let mut work: Vec<(usize, usize)> = vec![];
    let counts: Vec<usize> = check
        .laws
        .iter()
        .map(|l| {
            if only_law.as_ref().map_or(false, |n| n != l.name) {
                return 0;
            }
            let n = if tier == "thorough" { l.thorough } else { l.quick };
            ((n as f64 * scale).ceil() as usize).max(1)
        })
        .collect();
    for (li, &n) in counts.iter().enumerate() {
        for ci in 0..n {
            work.push((li, ci));
        }
    }
    // sort by relative progress => laws advance together
    work.sort_by(|a, b| {
        let x = (a.1 as u64 * 1_000_000 / counts[a.0] as u64, a.0, a.1);
        let y = (b.1 as u64 * 1_000_000 / counts[b.0] as u64, b.0, b.1);
        x.cmp(&y)
    });
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let stats: Vec<Mutex<LawStats>> = check.laws.iter().map(|_| Mutex::new(LawStats::default())).collect();
    let failure: Mutex<Option<(usize, usize, usize, Vec<u64>, Fail)>> = Mutex::new(None);
    let law_time: Vec<AtomicUsize> = check.laws.iter().map(|_| AtomicUsize::new(0)).collect();
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            let b = std::thread::Builder::new().stack_size(64 << 20);
            let (next, stop, stats, failure, work, check, known, law_time) = (&next, &stop, &stats, &failure, &work, &check, &known, &law_time);
            b.spawn_scoped(sc, move || loop {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let wi = next.fetch_add(1, Ordering::Relaxed);
                if wi >= work.len() {
                    break;
                }
                let (li, ci) = work[wi];
                let law = &check.laws[li];
                let mut s = seed ^ fnv(check.id).rotate_left(17) ^ fnv(law.name);
                let a = splitmix(&mut s);
                let case_seed = a ^ (ci as u64).wrapping_mul(0x9E3779B97F4A7C15);
                let mut g = G::random(case_seed, ci);
                let ts = Instant::now();
                let r = run_case(law, &mut g);
                law_time[li].fetch_add(ts.elapsed().as_micros() as usize, Ordering::Relaxed);
                let mut st = stats[li].lock().unwrap();
                st.evals += 1;
                st.sub += g.sub_evals;
                for c in &g.classes {
                    *st.classes.entry(c.clone()).or_default() += 1;
                }
                if g.nontrivial {
                    let mut h = fnv(law.name) ^ (g.index as u64).wrapping_mul(if g.tape.is_empty() { 0x1000193 } else { 0 });
                    for t in &g.tape {
                        h = (h ^ *t).wrapping_mul(0x100000001b3).rotate_left(23);
                    }
                    st.nontrivial.insert(h);
                }
                if let Some(d) = &g.desc {
                    if ci < 3 {
                        let d: String = d.chars().take(600).collect();
                        st.samples.push((ci, d));
                    }
                }
                if let Err(f) = r {
                    if let Some(sig) = &f.sig {
                        if known.iter().any(|(k, _)| k == sig) {
                            *st.known.entry(sig.clone()).or_default() += 1;
                            continue;
                        }
                    }
                    drop(st);
                    let mut fl = failure.lock().unwrap();
                    let better = match &*fl {
                        None => true,
                        Some((w, ..)) => wi < *w,
                    };
                    if better {
                        *fl = Some((wi, li, ci, g.tape.clone(), f));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            })
            .unwrap();
        }
    });
    let fl = failure.into_inner().unwrap();
    let mut violations = 0;
    let mut exit = 0;
    let mut vio_line = String::new();
    if let Some((_, li, ci, tape, f)) = fl {
        violations = 1;
        exit = 1;
        let law = &check.laws[li];
        let (tape, f, used) = shrink(law, tape, ci, f, Instant::now());
        let mut g = G::replay(tape.clone(), ci);
        let _ = run_case(law, &mut g);
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.txt", dir, check.id, variant, law.name.replace(|c: char| !c.is_ascii_alphanumeric() && c != '.', "_"));
        let t: Vec<String> = tape.iter().map(|x| x.to_string()).collect();
        let body = format!(
            "check: {}\nvariant: {}\nlaw: {}\nindex: {}\nseed: {}\ntape: {}\nfailure: {}\ncase: {}\nreplay with: /verif/check.sh {} --replay {}\n",
            check.id,
            variant,
            law.name,
            ci,
            seed,
            t.join(" "),
            f.msg,
            g.desc.clone().unwrap_or_default(),
            check.id,
            path
        );
        let _ = std::fs::write(&path, body);
        println!("FAILED law {} (case {}, {} shrink steps): {}", law.name, ci, used, f.msg.chars().take(2000).collect::<String>());
        println!("case: {}", g.desc.unwrap_or_default().chars().take(2000).collect::<String>());
        vio_line = format!("VIOLATION property={} replay={}", check.id, path);
    }
    // evidence
    let mut evals = 0;
    let mut sub = 0;
    let mut nt = 0;
    let mut samples = vec![];
    let mut laws_json = vec![];
    for (law, st) in check.laws.iter().zip(stats.into_iter()) {
        let mut st = st.into_inner().unwrap();
        evals += st.evals;
        sub += st.sub;
        nt += st.nontrivial.len();
        st.samples.sort();
        for (_, d) in st.samples.iter().take(2) {
            samples.push(format!("{{\"law\":{},\"case\":{}}}", json_str(law.name), json_str(d)));
        }
        let cl: Vec<String> = st.classes.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect();
        laws_json.push(format!(
            "{{\"law\":{},\"cases\":{},\"nontrivial\":{},\"inner_comparisons\":{},\"classes\":{{{}}}}}",
            json_str(law.name),
            st.evals,
            st.nontrivial.len(),
            st.sub,
            cl.join(",")
        ));
        for (sig, n) in &st.known {
            let text = known.iter().find(|(k, _)| k == sig).map(|x| x.1.clone()).unwrap_or_default();
            println!("KNOWN-FINDING: {} (seen {} times in law {})", text, n, law.name);
        }
        if std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("{:40} cases {:7} nontrivial {:7} inner {:8} {:?}", law.name, st.evals, st.nontrivial.len(), st.sub, st.classes);
        }
    }
    if std::env::var("VERIF_VERBOSE").is_ok() {
        for (l, t) in check.laws.iter().zip(&law_time) {
            eprintln!("   time {:40} {:9.2}s", l.name, t.load(Ordering::Relaxed) as f64 / 1e6);
        }
    }
    let asm: Vec<String> = check.assumptions.iter().map(|a| json_str(a)).collect();
    let mut emb = String::new();
    for (n, e) in &embed {
        let _ = write!(emb, ",{}:{}", json_str(&format!("variant_{n}")), e.trim());
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"inner_comparisons\":{},\"rule\":{},\"samples\":[{}],\"laws\":[{}]{}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n",
        json_str(check.id),
        json_str(tier),
        seed,
        evals,
        nt,
        sub,
        json_str(check.rule),
        samples.join(","),
        laws_json.join(","),
        emb,
        asm.join(","),
        t0.elapsed().as_secs_f64(),
        violations
    );
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(evidence_path.unwrap_or(format!("{}/{}.json", dir, check.id)), ev) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
    println!("{}: {} cases, {} distinct non-trivial, {} inner comparisons, {:.1}s", check.id, evals, nt, sub, t0.elapsed().as_secs_f64());
    if exit == 1 {
        println!("{vio_line}");
    }
    std::process::exit(exit)
}

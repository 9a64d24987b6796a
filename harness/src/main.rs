//! Search for inputs that show a violation of a property on the real crates,
//! and replay of such inputs. Only the public interface is used.
mod conform;
mod dbg;
mod gram;
mod lex;
mod re;
mod rng;

use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------ limits

const MEM_LIMIT: usize = 3 << 30;


struct Counting;
static USED: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        USED.fetch_add(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// run the code under check, a panic becomes `Err`
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(no message)".into())
    })
}

// ------------------------------------------------------------ cases

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Case {
    Lex { pats: Vec<(u8, String)>, input: String },
    Gram { ops: Vec<gram::Op>, texts: Vec<String>, style: u8 },
}

fn hex(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

fn show_body(b: &[gram::S]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter()
        .map(|s| match s {
            gram::S::V(v) => format!("V{}", v),
            gram::S::T(a, v) => format!("t{}_{}", a, v),
            gram::S::E => "e".into(),
        })
        .collect::<Vec<_>>()
        .join(".")
}
fn read_body(s: &str) -> Vec<gram::S> {
    if s == "-" {
        return vec![];
    }
    s.split('.')
        .map(|x| match x.as_bytes()[0] {
            b'V' => gram::S::V(x[1..].parse().unwrap()),
            b't' => {
                let (a, b) = x[1..].split_once('_').unwrap();
                gram::S::T(a.parse().unwrap(), b.parse().unwrap())
            }
            _ => gram::S::E,
        })
        .collect()
}

fn short(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    if c.len() > 200 {
        format!("{:?} ... ({} characters)", c[..200].iter().collect::<String>(), c.len())
    } else {
        format!("{:?}", s)
    }
}

fn write_case(c: &Case) -> String {
    let mut o = String::new();
    match c {
        Case::Lex { pats, input } => {
            for (m, p) in pats {
                o += &format!("# pattern {}\npat {} {}\n", short(p), m, hex(p));
            }
            o += &format!("# input {}\ninput {}\n", short(input), hex(input));
        }
        Case::Gram { ops, texts, style } => {
            o += &format!("style {}\n", style);
            for op in ops {
                match op {
                    gram::Op::Start(v) => o += &format!("start {}\n", v),
                    gram::Op::Rule(v, b) => o += &format!("rule {} {}\n", v, show_body(b)),
                    gram::Op::Rules(v, bs) => {
                        o += &format!("rules {} {}\n", v, bs.iter().map(|b| show_body(b)).collect::<Vec<_>>().join(" "))
                    }
                }
            }
            for t in texts {
                o += &format!("# text {}\ntext {}\n", short(t), hex(t));
            }
        }
    }
    o
}

fn read_case(s: &str) -> (String, Case) {
    let mut pid = String::new();
    let (mut pats, mut input, mut ops, mut texts, mut style, mut lex) = (vec![], String::new(), vec![], vec![], 0u8, false);
    for l in s.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "property" => pid = w[1].into(),
            "pat" => {
                lex = true;
                pats.push((w[1].parse().unwrap(), unhex(w[2])));
            }
            "input" => {
                lex = true;
                input = unhex(w[1]);
            }
            "style" => style = w[1].parse().unwrap(),
            "start" => ops.push(gram::Op::Start(w[1].parse().unwrap())),
            "rule" => ops.push(gram::Op::Rule(w[1].parse().unwrap(), read_body(w[2]))),
            "rules" => ops.push(gram::Op::Rules(
                w[1].parse().unwrap(),
                w[2..].iter().filter(|x| !x.is_empty()).map(|x| read_body(x)).collect(),
            )),
            "text" => texts.push(unhex(w[1])),
            _ => (),
        }
    }
    if lex {
        (pid, Case::Lex { pats, input })
    } else {
        (pid, Case::Gram { ops, texts, style })
    }
}

fn judge(pid: &str, c: &Case) -> Result<(), String> {
    match c {
        Case::Lex { pats, input } => lex::check(pid, pats, input),
        Case::Gram { ops, texts, style } => gram::check(pid, ops, texts, *style),
    }
}

// ------------------------------------------------------------ running

static CURRENT: Mutex<Option<(String, String, String)>> = Mutex::new(None); // pid, out, case text
static STARTED: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

pub struct Ctx {
    pid: String,
    out: String,
    pub rng: Rng,
    pub thorough: bool,
    begin: Instant,
    secs: f64,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    violation: Option<(Case, String)>,
    slowest: f64,
}

fn case_hash(c: &Case) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn over(&self) -> bool {
        self.violation.is_some() || self.begin.elapsed().as_secs_f64() > self.secs
    }
    /// has the given share of the time been used
    pub fn slice_over(&self, percent: u32) -> bool {
        self.violation.is_some() || self.begin.elapsed().as_secs_f64() > self.secs * percent as f64 / 100.0
    }
    pub fn run(&mut self, c: Case) {
        if self.violation.is_some() {
            return;
        }
        self.evals += 1;
        let nontrivial = match &c {
            Case::Lex { input, .. } => !input.is_empty(),
            Case::Gram { .. } => true,
        };
        if nontrivial && self.distinct.len() < 2_000_000 {
            self.distinct.insert(case_hash(&c));
        }
        if self.samples.len() < 3 && self.evals % 997 == 5 {
            self.samples.push(format!("{:?}", c).chars().take(300).collect());
        }
        *CURRENT.lock().unwrap() = Some((self.pid.clone(), self.out.clone(), String::new()));
        enter(&c);
        let t = Instant::now();
        let r = judge(&self.pid, &c);
        leave();
        let t = t.elapsed().as_secs_f64();
        if t > self.slowest {
            self.slowest = t;
            if std::env::var_os("HARNESS_SLOW").is_some() && t > 0.5 {
                eprintln!("{:.2} {}", t, format!("{:?}", c).chars().take(200).collect::<String>());
            }
        }
        if let Err(e) = r {
            self.violation = Some((c, e));
        }
    }
}

static CASE: Mutex<Option<Case>> = Mutex::new(None);

fn enter(c: &Case) {
    *CASE.lock().unwrap() = Some(c.clone());
    STARTED.store(now(), Ordering::SeqCst);
    COUNT.fetch_add(1, Ordering::SeqCst);
}
fn leave() {
    STARTED.store(0, Ordering::SeqCst);
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// smaller case that still fails
fn shrink(pid: &str, c: Case, why: String) -> (Case, String) {
    let mut best = (c, why);
    let until = Instant::now() + Duration::from_secs(10);
    'again: loop {
        let mut cands: Vec<Case> = Vec::new();
        match &best.0 {
            Case::Lex { pats, input } => {
                if pats.len() > 1 {
                    for i in 0..pats.len() {
                        let mut p = pats.clone();
                        p.remove(i);
                        cands.push(Case::Lex { pats: p, input: input.clone() });
                    }
                }
                let ch: Vec<char> = input.chars().collect();
                if ch.len() > 1 {
                    cands.push(Case::Lex { pats: pats.clone(), input: ch[..ch.len() / 2].iter().collect() });
                    cands.push(Case::Lex { pats: pats.clone(), input: ch[ch.len() / 2..].iter().collect() });
                }
                for i in 0..ch.len().min(60) {
                    let mut d = ch.clone();
                    d.remove(i);
                    cands.push(Case::Lex { pats: pats.clone(), input: d.into_iter().collect() });
                }
                for k in 0..pats.len() {
                    let pc: Vec<char> = pats[k].1.chars().collect();
                    for i in 0..pc.len().min(40) {
                        let mut d = pc.clone();
                        d.remove(i);
                        let mut p = pats.clone();
                        p[k].1 = d.into_iter().collect();
                        cands.push(Case::Lex { pats: p, input: input.clone() });
                    }
                }
            }
            Case::Gram { ops, texts, style } => {
                for i in 0..texts.len() {
                    if texts.len() > 1 {
                        cands.push(Case::Gram { ops: ops.clone(), texts: vec![texts[i].clone()], style: *style });
                    }
                }
                for i in 0..ops.len() {
                    let mut o = ops.clone();
                    o.remove(i);
                    cands.push(Case::Gram { ops: o, texts: texts.clone(), style: *style });
                    if let gram::Op::Rules(v, bs) = &ops[i] {
                        for k in 0..bs.len() {
                            let mut b = bs.clone();
                            b.remove(k);
                            let mut o = ops.clone();
                            o[i] = gram::Op::Rules(*v, b);
                            cands.push(Case::Gram { ops: o, texts: texts.clone(), style: *style });
                        }
                    }
                }
            }
        }
        for c in cands {
            if Instant::now() > until {
                return best;
            }
            enter(&c);
            let r = judge(pid, &c);
            leave();
            if let Err(w) = r {
                // a smaller case only counts if it fails in the same way
                if same_kind(&w, &best.1) {
                    best = (c, w);
                    continue 'again;
                }
            }
        }
        return best;
    }
}

fn same_kind(a: &str, b: &str) -> bool {
    let k = |s: &str| s.chars().filter(|c| c.is_alphabetic()).take(12).collect::<String>();
    k(a) == k(b)
}

fn report(pid: &str, out: &str, c: &Case, why: &str) {
    let mut s = format!("property {}\n# {}\n", pid, why.replace('\n', " "));
    s += &write_case(c);
    std::fs::write(out, s).expect("write replay");
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let code = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn({
            let args = args.clone();
            let (seed, secs, out, tier) = (get("--seed"), get("--secs"), get("--out"), get("--tier"));
            move || real_main(&args, seed, secs, out, tier)
        })
        .unwrap();
    // watch the running case
    let mut strikes = 0;
    let case_secs: u64 = std::env::var("HARNESS_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(40);
    loop {
        std::thread::sleep(Duration::from_millis(100));
        if code.is_finished() {
            std::process::exit(code.join().unwrap_or(4));
        }
        let st = STARTED.load(Ordering::SeqCst);
        let slow = st != 0 && now().saturating_sub(st) > case_secs * 1000;
        let big = USED.load(Ordering::Relaxed) > MEM_LIMIT;
        if slow || big {
            strikes += 1;
        } else {
            strikes = 0;
        }
        if strikes >= 2 || big {
            let why = if big { "no answer: memory use grows without bound" } else { "no answer within the time limit" };
            let pid = args.get(2).cloned().unwrap_or_default();
            if let (Some(out), Ok(Some(c))) = (get("--out"), CASE.try_lock().map(|c| c.clone())) {
                report(&pid, &out, &c, why);
                println!("VIOLATION-FOUND {}", why);
                println!("STATS {{\"evaluations\":{},\"distinct_nontrivial\":0,\"samples\":[],\"unreadable\":0}}", COUNT.load(Ordering::SeqCst));
                std::process::exit(1);
            }
            println!("VIOLATION-FOUND {}", why);
            std::process::exit(1);
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main(args: &[String], seed: Option<String>, secs: Option<String>, out: Option<String>, tier: Option<String>) -> i32 {
    match args.get(1).map(|s| s.as_str()) {
        Some("conform") => match conform::conform(seed.and_then(|s| s.parse().ok()).unwrap_or(0)) {
            Ok(n) => {
                println!("CONFORM {n}");
                0
            }
            Err(why) => {
                println!("the standard library does not have the contract: {why}");
                3
            }
        },
        Some("search") => {
            let pid = args[2].clone();
            let seed: u64 = seed.and_then(|s| s.parse().ok()).unwrap_or(0);
            let mut ctx = Ctx {
                out: out.expect("--out"),
                rng: Rng(seed ^ pid.bytes().fold(7, |a, b| a * 31 + b as u64)),
                thorough: tier.as_deref() == Some("thorough"),
                begin: Instant::now(),
                secs: secs.and_then(|s| s.parse().ok()).unwrap_or(15.0),
                evals: 0,
                distinct: HashSet::new(),
                samples: Vec::new(),
                violation: None,
                slowest: 0.0,
                pid: pid.clone(),
            };
            if pid.starts_with('L') {
                lex::generate(&pid, &mut ctx);
            } else {
                gram::generate(&pid, &mut ctx);
            }
            let unreadable = gram::UNREADABLE.with(|u| u.get());
            println!(
                "STATS {{\"evaluations\":{},\"distinct_nontrivial\":{},\"slowest_case_s\":{:.3},\"unreadable\":{},\"known_skipped\":{},\"samples\":[{}]}}",
                ctx.evals,
                ctx.distinct.len(),
                ctx.slowest,
                unreadable,
                gram::KNOWN_SKIPPED.with(|u| u.get()),
                ctx.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
            );
            if let Some((c, w)) = ctx.violation.take() {
                let (c, w) = shrink(&pid, c, w);
                report(&pid, &ctx.out, &c, &w);
                println!("VIOLATION-FOUND {}", w.replace('\n', " "));
                return 1;
            }
            0
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("read replay");
            let (pid, c) = read_case(&text);
            enter(&c);
            let r = judge(&pid, &c);
            leave();
            match r {
                Ok(()) => {
                    println!("{}: the case behaves as the property says", pid);
                    0
                }
                Err(w) => {
                    println!("{}: {}", pid, w);
                    1
                }
            }
        }
        _ => {
            eprintln!("usage: harness search <property> --seed N --secs S --tier T --out FILE | replay FILE");
            2
        }
    }
}

//! Lexer cases: run the real lexer and judge what it returned.
use crate::re::{self, Re};
use crate::rng::Rng;
use crate::{guard, Case, Ctx};
use pango_lexer::Lexer;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Kind {
    pub idx: usize,
    pub mode: u8,
    pub hash: u64,
}

pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (s.len() as u64) << 48
}

fn call<const I: usize>() -> Kind {
    Kind { idx: I, mode: 1, hash: 0 }
}
fn map<const I: usize>(s: &str) -> Kind {
    Kind { idx: I, mode: 2, hash: hash(s) }
}

macro_rules! tables {
    ($($i:literal)*) => {
        pub const N: usize = [$($i),*].len();
        const CALLS: [fn() -> Kind; N] = [$(call::<$i>),*];
        const MAPS: [fn(&str) -> Kind; N] = [$(map::<$i>),*];
    };
}
tables!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
        32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63);

pub struct Tok {
    pub kind: Kind,
    pub source: String,
    pub pos: (usize, usize),
}

pub struct Run {
    pub tokens: Vec<Tok>,
    /// tokens returned by calls after the first `None`
    pub after_end: Vec<String>,
    pub finished: bool,
    pub finished_before: bool,
    pub finished_after: Vec<bool>,
}

/// `Ok(Err(i))`: pattern i was refused. `Err`: panic.
pub fn run_real(pats: &[(u8, String)], input: &str) -> Result<Result<Run, usize>, String> {
    guard(|| {
        let mut b = Lexer::<Kind>::builder();
        for (i, (mode, p)) in pats.iter().enumerate() {
            let r = match mode {
                1 => b.with_token(p, CALLS[i % N]),
                2 => b.with_token_map(p, MAPS[i % N]),
                _ => b.with_token_unit(p, Kind { idx: i, mode: 0, hash: 0 }),
            };
            match r {
                Ok(x) => b = x,
                Err(e) => {
                    // the error must be printable
                    let _ = e.to_string();
                    return Err(i);
                }
            }
        }
        let mut lexer = b.tokenize(input);
        let finished_before = lexer.is_finished();
        let (mut tokens, mut finished_after) = (Vec::new(), Vec::new());
        let limit = input.chars().count() + 2;
        while let Some(t) = lexer.next() {
            tokens.push(Tok { kind: t.kind, source: t.source, pos: t.pos });
            finished_after.push(lexer.is_finished());
            if tokens.len() > limit {
                break;
            }
        }
        let finished = lexer.is_finished();
        let mut after_end = Vec::new();
        for _ in 0..3 {
            if let Some(t) = lexer.next() {
                after_end.push(t.source);
            }
        }
        Ok(Run { tokens, after_end, finished, finished_before, finished_after })
    })
}

/// judge one case for one property
pub fn check(pid: &str, pats: &[(u8, String)], input: &str) -> Result<(), String> {
    let chars: Vec<char> = input.chars().collect();
    let oracle: Vec<Result<Re, ()>> = pats.iter().map(|(_, p)| re::parse(p)).collect();
    let real = run_real(pats, input).map_err(|p| format!("panic: {}", p))?;
    let first_bad = oracle.iter().position(|r| r.is_err());
    let run = match (real, first_bad) {
        (Err(i), Some(j)) if i == j => return Ok(()),
        (Err(i), _) => {
            return Err(format!("pattern {:?} is refused, but it is a valid pattern", pats[i].1))
        }
        (Ok(_), Some(j)) => {
            return Err(format!("pattern {:?} is accepted, but it is not a valid pattern", pats[j].1))
        }
        (Ok(run), None) => run,
    };
    let res: Vec<Re> = oracle.into_iter().map(|r| r.unwrap()).collect();
    let longest_at = |at: usize| -> Option<usize> {
        res.iter().filter_map(|re| re::longest(re, &chars[at..])).max()
    };
    let total = chars.len();
    // for long inputs only look at a window
    let longest_near = |at: usize, len: usize| -> Option<usize> {
        let end = if total > 5000 { total.min(at + 2 * len + 300) } else { total };
        res.iter().filter_map(|re| re::longest(re, &chars[at.min(end)..end])).max()
    };
    match pid {
        "L01" | "L02" | "L03" | "L04" => {
            let want = longest_at(0);
            let got = run.tokens.first().map(|t| t.source.chars().count());
            if want != got {
                return Err(format!(
                    "the pattern matches {} of the input, but the lexer returned {}",
                    show_len(&chars, want),
                    show_len(&chars, got)
                ));
            }
        }
        "L05" => {
            let mut at = 0;
            for t in &run.tokens {
                let len = t.source.chars().count();
                let want = longest_near(at, len);
                if want != Some(len) {
                    return Err(format!(
                        "at character {} the longest match has length {:?}, the token returned is {:?}",
                        at, want, t.source
                    ));
                }
                at += len;
            }
            if let Some(len) = if at <= total { longest_at(at) } else { None } {
                return Err(format!(
                    "at character {} there is a match of length {}, but the lexer ended",
                    at, len
                ));
            }
        }
        "L06" => {
            for t in &run.tokens {
                let s: Vec<char> = t.source.chars().collect();
                let want = res.iter().position(|re| re::matches_all(re, &s));
                let got = real_index(&t.kind, pats, &s, &res);
                if want != got {
                    return Err(format!(
                        "token {:?} has the kind of pattern {:?}, but the first pattern matching it is {:?}",
                        t.source, got, want
                    ));
                }
            }
        }
        "L07" => {
            let mut at = 0;
            for t in &run.tokens {
                let len = t.source.chars().count();
                if len == 0 {
                    return Err(format!("empty token at {:?}", t.pos));
                }
                if t.pos != (at, at + len) {
                    return Err(format!(
                        "token {:?} has position {:?}, expected {:?}",
                        t.source, t.pos, (at, at + len)
                    ));
                }
                if at + len > total || t.source.chars().ne(chars[at..at + len].iter().copied()) {
                    return Err(format!("token {:?} at {:?} is not the text of the input there", t.source, t.pos));
                }
                at += len;
            }
            if at < total && longest_at(at).is_some() {
                return Err(format!("the lexer ended at character {}, where a pattern matches", at));
            }
            if !run.after_end.is_empty() {
                return Err(format!("after the end more tokens are returned: {:?}", run.after_end));
            }
            if run.finished != (at == total) {
                return Err(format!(
                    "tokens cover {} of {} characters, but is_finished is {}",
                    at, total, run.finished
                ));
            }
            if run.finished_before != (total == 0) {
                return Err(format!("before the first token is_finished is {}", run.finished_before));
            }
            for (t, f) in run.tokens.iter().zip(&run.finished_after) {
                if *f != (t.pos.1 == total) {
                    return Err(format!("after the token at {:?} of {} characters is_finished is {}", t.pos, total, f));
                }
            }
        }
        "L08" => {
            for t in &run.tokens {
                let s: Vec<char> = t.source.chars().collect();
                let k = t.kind;
                // patterns this kind can come from
                let from: Vec<usize> = (0..pats.len())
                    .filter(|&i| match pats[i].0 {
                        0 => k == Kind { idx: i, mode: 0, hash: 0 },
                        1 => k == Kind { idx: i % N, mode: 1, hash: 0 },
                        _ => k.mode == 2 && k.idx == i % N,
                    })
                    .collect();
                if from.is_empty() || !from.iter().any(|&i| re::matches_all(&res[i], &s)) {
                    return Err(format!("token {:?} has kind {:?} of a pattern that does not match it", t.source, k));
                }
                if k.mode == 2 && k.hash != hash(&t.source) {
                    return Err(format!("the kind of token {:?} was not made from its text", t.source));
                }
            }
        }
        "L09" => (),
        _ => unreachable!(),
    }
    Ok(())
}

fn real_index(k: &Kind, pats: &[(u8, String)], s: &[char], res: &[Re]) -> Option<usize> {
    (0..pats.len()).find(|&i| {
        (match pats[i].0 {
            0 => *k == Kind { idx: i, mode: 0, hash: 0 },
            1 => *k == Kind { idx: i % N, mode: 1, hash: 0 },
            _ => k.mode == 2 && k.idx == i % N,
        }) && (i < N || re::matches_all(&res[i], s))
    })
}

fn show_len(chars: &[char], len: Option<usize>) -> String {
    match len {
        None => "no prefix".into(),
        Some(n) => format!("{:?}", chars[..n.min(chars.len())].iter().collect::<String>()),
    }
}

// ------------------------------------------------------------ case generation

fn one(p: &str, input: &str) -> Case {
    Case::Lex { pats: vec![(0, p.into())], input: input.into() }
}

fn many(ps: &[&str], input: &str) -> Case {
    Case::Lex {
        pats: ps.iter().enumerate().map(|(i, p)| ((i % 3) as u8, p.to_string())).collect(),
        input: input.into(),
    }
}

/// all strings over `alphabet` of length at most `n`
pub fn words(alphabet: &[char], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..n {
        let mut next = Vec::new();
        for w in &last {
            for c in alphabet {
                let mut w = w.clone();
                w.push(*c);
                next.push(w);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn mutate(r: &mut Rng, s: &mut Vec<char>, alphabet: &[char]) {
    for _ in 0..r.below(3) {
        match r.below(4) {
            0 if !s.is_empty() => {
                let i = r.below(s.len());
                s.remove(i);
            }
            1 if !s.is_empty() => {
                let i = r.below(s.len());
                s[i] = *r.pick(alphabet);
            }
            2 if !s.is_empty() => {
                let n = r.below(s.len()) + 1;
                s.truncate(n);
            }
            _ => {
                let i = r.below(s.len() + 1);
                s.insert(i, *r.pick(alphabet));
            }
        }
    }
}

fn text_for(r: &mut Rng, res: &[Re], alphabet: &[char]) -> String {
    let mut s = Vec::new();
    for _ in 0..r.range(1, 4) {
        if r.chance(3, 4) {
            let re = r.pick(res);
            let mut part = Vec::new();
            let mut budget = 600;
            sample(r, re, alphabet, &mut part, &mut budget);
            if r.chance(1, 3) {
                mutate(r, &mut part, alphabet);
            }
            s.extend(part);
        } else {
            for _ in 0..r.below(4) {
                s.push(*r.pick(alphabet));
            }
        }
        if r.chance(1, 2) {
            break;
        }
    }
    s.into_iter().collect()
}

use crate::re::sample;

pub const REGRESSION: &[(&[&str], &str)] = &[
    (&["(a*b){1}"], "b"),
    (&["(a*b){1}"], "bb"),
    (&["(a?b)+"], "bab"),
    (&["((a){2}){2}"], "aaaa"),
    (&["((a){2}){2}"], "aa"),
    (&["([0-9]+x)?"], "1x2x"),
    (&["(a{2}|b){2}"], "aab"),
    (&["(a*)*"], "aaa"),
    (&["(a?)*b"], "aab"),
    (&["(a*)+"], "aaaa"),
    (&["((a*)*)*b"], "aaab"),
    (&["(a*|b*){2,3}"], "aabbaa"),
    (&["(a|[a-z]|\\w)*"], "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"),
    (&["a)b"], "a"),
    (&[")"], "a"),
    (&["|a"], "a"),
    (&["a|"], "a"),
    (&["()"], "a"),
    (&["(|a)"], "a"),
    (&["(a|)"], "a"),
    (&["a||b"], "a"),
    (&["(a"], "a"),
    (&["a{4294967295}"], "a"),
    (&["a{4294967296}"], "a"),
    (&["a{42949672950}"], "a"),
    (&["a{4294967295,4294967295}"], "a"),
    (&["\\x41B"], "AB"),
    (&["\\u00411"], "A1"),
    (&["\\u41"], "A"),
    (&["\\u{100000041}"], "A"),
    (&["\\u{41}"], "A"),
    (&["\\u{0041}"], "A"),
    (&["\\u{10FFFF}"], "\u{10ffff}"),
    (&["\\u{110000}"], "a"),
    (&["\\uD800"], "a"),
    (&["\\u{0d800}"], "a"),
    (&["a", "abc"], "ab"),
    (&["a", "abcde", "b", "c", "d", "x"], "abcdx"),
    (&["a"], "xa"),
    (&["a"], "axa"),
    (&["aaaa", "b{4,}", "b{4}", "d*", "/\\* .*", "/\\* .* \\*/", "a"], "bbbbbbbaaaabbbbddd/* foo */"),
    (&["if", "[a-z]+", "[0-9]+", " "], "if ifx 12 if"),
    (&["[a-z]+", "if", "[0-9]+", " "], "if ifx 12 if"),
    (&["a*", "b"], "ab"),
    (&[""], "a"),
    (&["", "a"], "aa"),
    (&["(ab){3}c{2}"], "abababcc"),
    (&["a{3,2}"], "aaa"),
    (&["a{0}b"], "b"),
    (&["(a{0}){3}b"], "ab"),
    (&["[]"], "a"),
    (&["[^]"], "a"),
];

pub fn generate(pid: &str, ctx: &mut Ctx) {
    for (ps, t) in REGRESSION {
        ctx.run(many(ps, t));
    }
    match pid {
        "L01" => gen_l01(ctx),
        "L02" => gen_l02(ctx),
        "L03" => gen_l03(ctx),
        "L04" => gen_l04(ctx),
        _ => gen_multi(pid, ctx),
    }
}

fn gen_l01(ctx: &mut Ctx) {
    // every text up to a length over the characters with a meaning
    let meta: Vec<char> = "a|()[]^-*{}2,\\d.".chars().collect();
    let n = if ctx.thorough { 5 } else { 4 };
    'outer: for w in words(&meta, n) {
        ctx.run(one(&w, "aa2a"));
        if ctx.slice_over(40) {
            break 'outer;
        }
    }
    let structured: Vec<char> = "ab|()*".chars().collect();
    for w in words(&structured, if ctx.thorough { 7 } else { 6 }) {
        ctx.run(one(&w, "abab"));
        if ctx.slice_over(60) {
            break;
        }
    }
    let sets: Vec<char> = "a-[]^z\\.".chars().collect();
    for w in words(&sets, 4) {
        ctx.run(one(&format!("[{}", w), "az-"));
        if ctx.slice_over(70) {
            break;
        }
    }
    // deep nesting and long patterns
    for d in [1usize, 2, 10, 50, 100, 200] {
        let p = format!("{}a{}", "(".repeat(d), ")".repeat(d));
        ctx.run(one(&p, "a"));
        ctx.run(one(&p[..p.len() - 1], "a"));
        ctx.run(one(&format!("{})", p), "a"));
        ctx.run(one(&vec!["ab"; d].join("|"), "ab"));
        ctx.run(one(&"a".repeat(d), &"a".repeat(d)));
        ctx.run(one(&format!("[{}]", "abc".repeat(d)), "c"));
    }
    random_patterns(ctx, true)
}

/// random patterns, also damaged ones, against texts close to the language
fn random_patterns(ctx: &mut Ctx, damage: bool) {
    let pools: Vec<Vec<char>> = vec![
        "ab".chars().collect(),
        "abc0 \n".chars().collect(),
        "aé🌕-]^*\\".chars().collect(),
        vec!['\u{0}', '\u{1}', '\u{1a}', '\u{7f}', '\u{ff}', '\u{100}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '$', '/', '}'],
    ];
    while !ctx.over() {
        let r = &mut ctx.rng;
        let alphabet = r.pick(&pools).clone();
        let cfg = re::GenCfg { alphabet, depth: r.range(1, 4), sets: r.chance(1, 2), big: false };
        let re = re::gen(r, &cfg, cfg.depth);
        let mut text = String::new();
        re::print(r, &re, &mut text);
        if damage && r.chance(1, 2) {
            let mut t: Vec<char> = text.chars().collect();
            let meta: Vec<char> = "|()[]^-*+?{}0,\\dxu.a".chars().collect();
            mutate(r, &mut t, &meta);
            text = t.into_iter().collect();
        }
        let input = text_for(r, &[re], &cfg.alphabet);
        ctx.run(one(&text, &input));
    }
}

fn gen_l02(ctx: &mut Ctx) {
    // every character after a backslash
    for v in (0..0x300u32).chain([0x2028, 0xfeff, 0x1f315]) {
        if let Some(c) = char::from_u32(v) {
            let p = format!("\\{}", c);
            ctx.run(one(&p, &c.to_string()));
            for x in ["\u{c}", "\n", "\r", "\t", "\u{b}", "\0", "a", "0", " "] {
                if v < 0x80 {
                    ctx.run(one(&p, x));
                }
            }
            ctx.run(one(&format!("\\c{}", c), &((v % 32) as u8 as char).to_string()));
            ctx.run(one(&format!("[\\{}]", c), &c.to_string()));
        }
    }
    // every \xHH, and every \uHHHH and \u{...} sampled with a stride that depends on the seed
    for v in 0..256u32 {
        let c = char::from_u32(v).unwrap();
        ctx.run(one(&format!("\\x{:02x}", v), &c.to_string()));
        ctx.run(one(&format!("\\x{:02X}a", v), &format!("{}a", c)));
        ctx.run(one(&format!("\\x{:x}", v), &c.to_string()));
    }
    let stride = if ctx.thorough { 1 } else { 7 };
    let start = ctx.rng.below(stride) as u32;
    let mut v = start;
    while v < 0x10000 {
        if let Some(c) = char::from_u32(v) {
            ctx.run(one(&format!("\\u{:04x}", v), &c.to_string()));
            ctx.run(one(&format!("\\u{{{:04X}}}", v), &c.to_string()));
        } else {
            ctx.run(one(&format!("\\u{:04x}", v), "a"));
            ctx.run(one(&format!("\\u{{{:04X}}}", v), "a"));
        }
        v += stride as u32;
        if ctx.slice_over(50) {
            break;
        }
    }
    let mut v = 0x10000 + start;
    while v < 0x110400 {
        let t = char::from_u32(v).unwrap_or('a').to_string();
        ctx.run(one(&format!("\\u{{{:x}}}", v), &t));
        v += if ctx.thorough { 11 } else { 97 };
        if ctx.slice_over(65) {
            break;
        }
    }
    // digit counts
    for n in 0..12 {
        for d in ["0", "4", "f", "F", "g", "٣"] {
            for tail in ["", "}", "a", "0", "}}"] {
                for head in ["\\x", "\\u", "\\u{", "\\u{0", "\\u00", "\\x0", "[\\u{000", "a{", "a{1,", "a{0", "a{,"] {
                    ctx.run(one(&format!("{}{}{}", head, d.repeat(n), tail), "aa0"));
                }
            }
        }
    }
    // repetition counts around all the borders
    let mut borders: Vec<u64> = vec![0, 1, 2, 3, 5, 9, 10, 11, 12, 19, 20, 99, 100, 101];
    for k in [7u32, 8, 15, 16, 31, 32, 33] {
        for d in [-11i64, -2, -1, 0, 1, 2, 10] {
            borders.push(((1i64 << k) + d) as u64);
        }
    }
    borders.extend([9999999999, 42949672950, 42949672959, 18446744073709551615, 4294967290, 4294967299]);
    for n in &borders {
        for f in ["{N}", "{N,}", "{0,N}", "{N,N}", "{1,N}", "{N,1}", "{00N}", "{N", "{N,", "{N,N", "{ N}", "{N }", "{N,a}", "{-N}", "{N,,}", "{N,N,}", "{,N}"] {
            let q = f.replace('N', &n.to_string());
            ctx.run(one(&format!("a{}", q), "aaa"));
            if *n <= 300 {
                let t = "a".repeat(*n as usize);
                ctx.run(one(&format!("a{}", q), &t));
                ctx.run(one(&format!("a{}", q), &format!("{}a", t)));
                if *n > 0 {
                    ctx.run(one(&format!("a{}b", q), &format!("{}b", &t[1..])));
                }
                ctx.run(one(&format!("a{}b", q), &format!("{}b", t)));
                ctx.run(one(&format!("a{}b", q), &format!("{}ab", t)));
            }
        }
    }
    for n in [32767usize, 32768, 65535, 65536, 65537] {
        for f in ["{N}", "{N,}", "{0,N}"] {
            let q = f.replace('N', &n.to_string());
            for d in [n - 1, n, n + 1, 1] {
                ctx.run(one(&format!("a{}b", q), &format!("{}b", "a".repeat(d))));
            }
        }
    }
    random_patterns(ctx, true)
}

fn gen_l03(ctx: &mut Ctx) {
    let sets = [
        ".", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S", "a", "é", "🌕", "[a-z]", "[^a-z]", "[\\w\\d]", "[^\\w\\d]", "[\\W\\D]",
        "[^\\W]", "[^\\S]", "[^\\D]", "[0-9a-fA-F_]", "[^0-9]", "[z-a]", "[^z-a]", "[a-a]", "[^a-a]", "[]", "[^]", "[.]",
        "[^.]", "[ab\\s_-\\-]", "[^ab\\s_-\\-]", "[\\0-\\u{10ffff}]", "[^\\0-\\u{10ffff}]", "[\\u0080-\\u{0ffff}]", "[à-ÿ]",
        "[a-cx-z]", "[^a-cx-z5]", "[aab]", "[\\d-a]", "[a\\-z]", "[\\u{1f300}-\\u{1f5ff}]", "[^\\n]", "[\\n\\r\\t ]", "\\n", "\\-",
        "[\\]]", "[\\^a]", "[^\\^a]",
    ];
    // all characters in the thorough tier, a seeded residue class otherwise
    let stride = if ctx.thorough { 1 } else { 61 };
    let off = ctx.rng.below(stride) as u32;
    for s in sets {
        let mut v = 0u32;
        while v < 0x110000 {
            if v < 0x3000 && (ctx.thorough || v < 0x300) || v % stride as u32 == off || (v & 0xff) == 0xff || (v & 0xff) == 0 {
                if let Some(c) = char::from_u32(v) {
                    ctx.run(one(s, &c.to_string()));
                }
            }
            v += 1;
        }
        if ctx.slice_over(60) {
            break;
        }
    }
    // sets with many members
    for n in [70u32, 140, 270, 520, 1100] {
        let letter = |i: u32| char::from_u32(0x4e00 + 2 * i).unwrap();
        let singles: String = (0..n).map(letter).collect();
        let ranges: String = (0..n).map(|i| format!("{}-{}", letter(2 * i), letter(2 * i + 1))).collect();
        for p in [format!("[{}]", singles), format!("[^{}]", singles), format!("[{}]", ranges), format!("[^{}a]", ranges)] {
            for i in [0, 1, n / 2, n - 2, n - 1, n, 2 * n - 1, 2 * n] {
                for d in [0, 1] {
                    ctx.run(one(&p, &char::from_u32(letter(i) as u32 + d).unwrap().to_string()));
                }
            }
        }
    }
    let pool: Vec<char> = "abmz09_-] \n^éà🌕A$".chars().chain(['\u{0}', '\u{7f}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{660}', '\u{2028}']).collect();
    while !ctx.over() {
        let r = &mut ctx.rng;
        let n = r.range(0, 7);
        let items = (0..n)
            .map(|_| match r.below(4) {
                0 => re::Item::Cls(*r.pick(&['w', 'W', 'd', 'D', 's', 'S'])),
                1 => {
                    let (mut a, mut b) = (*r.pick(&pool), *r.pick(&pool));
                    if a > b && r.chance(2, 3) {
                        std::mem::swap(&mut a, &mut b);
                    }
                    re::Item::Range(a, b)
                }
                _ => re::Item::Ch(*r.pick(&pool)),
            })
            .collect();
        let set = Re::Set(r.chance(1, 2), items);
        let mut text = String::new();
        re::print(r, &set, &mut text);
        for c in &pool {
            let near = char::from_u32((*c as u32).wrapping_add(1)).unwrap_or('a');
            ctx.run(one(&text, &c.to_string()));
            ctx.run(one(&text, &near.to_string()));
        }
    }
}

/// all pattern descriptions up to a size
fn small_res(size: usize, alphabet: &[char], quants: &[(u64, Option<u64>)]) -> Vec<Re> {
    let mut by: Vec<Vec<Re>> = vec![vec![]];
    for n in 1..=size {
        let mut v = Vec::new();
        if n == 1 {
            v.extend(alphabet.iter().map(|c| Re::Ch(*c)));
        }
        if n >= 2 {
            for b in &by[n - 1] {
                for (lo, hi) in quants {
                    v.push(Re::Rep(Box::new(b.clone()), *lo, *hi));
                }
            }
        }
        if n >= 3 {
            for k in 1..n - 1 {
                for a in &by[k] {
                    for b in &by[n - 1 - k] {
                        v.push(Re::Cat(vec![a.clone(), b.clone()]));
                        v.push(Re::Alt(vec![a.clone(), b.clone()]));
                    }
                }
            }
        }
        by.push(v);
    }
    by.into_iter().flatten().collect()
}

fn gen_l04(ctx: &mut Ctx) {
    let quants = [(0, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(2)), (0, Some(0)), (2, None)];
    let ws = words(&['a', 'b'], 4);
    let mut all = small_res(5, &['a', 'b'], &quants);
    // a different order every seed, so that runs together cover all
    let off = ctx.rng.below(all.len());
    all.rotate_left(off);
    let small = small_res(4, &['a', 'b'], &quants);
    for re in small.iter().chain(all.iter()) {
        let mut text = String::new();
        re::print(&mut Rng(1), re, &mut text);
        for w in &ws {
            ctx.run(one(&text, w));
        }
        if ctx.slice_over(50) {
            break;
        }
    }
    // counts around borders, nested
    for n in [7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        for p in ["a{N}b", "a{N,}b", "a{0,N}b", "(ab?){N}c", "(a|b){N}", "(a{2}){N}b", "(a?){N}b", "((a*)b?){N}c", "(aN*){2,N}b"] {
            let p = p.replace('N', &n.to_string());
            if n > 70 && (p.contains('?') || p.contains("*){")) {
                continue;
            }
            for d in [n - 1, n, n + 1, 2 * n, 2 * n - 1, 2 * n + 1] {
                for tail in ["b", "c", ""] {
                    ctx.run(one(&p, &format!("{}{}", "a".repeat(d), tail)));
                }
            }
        }
        if ctx.slice_over(70) {
            break;
        }
    }
    wide(ctx);
    // other patterns must not interfere
    let alphabet: Vec<char> = "ab".chars().collect();
    while !ctx.over() {
        let r = &mut ctx.rng;
        let alphabet = if r.chance(1, 3) { "abc0é".chars().collect() } else { alphabet.clone() };
        let cfg = re::GenCfg { alphabet, depth: r.range(2, 5), sets: r.chance(1, 3), big: true };
        let n = if r.chance(1, 4) { r.range(2, 4) } else { 1 };
        let mut res = Vec::new();
        let mut pats = Vec::new();
        for i in 0..n {
            let re = re::gen(r, &cfg, cfg.depth);
            let mut t = String::new();
            re::print(r, &re, &mut t);
            res.push(re);
            pats.push(((i % 3) as u8, t));
        }
        if pats.iter().any(|(_, p)| p.len() > 120) {
            continue;
        }
        for _ in 0..6 {
            let input = text_for(&mut ctx.rng, &res, &cfg.alphabet);
            if input.chars().count() > 700 {
                continue;
            }
            ctx.run(Case::Lex { pats: pats.clone(), input });
        }
    }
}

const SETS: &[&[&str]] = &[
    &["a", "ab", "abc", "b", "c"],
    &["a", "abcd", "b", "bcde", "c", "d", "e"],
    &["aaa", "a", "aab", "b"],
    &["(ab)*c", "a", "b", "abab"],
    &["a+b", "a", "b+"],
    &["if", "else", "[a-z]+", "[0-9]+", "\\s+", "[0-9]+\\.[0-9]+", "\\.", "=", "=="],
    &["\"[^\"]*\"", "[^\"]", "\\w+"],
    &["/\\*(.)*\\*/", "/", "\\*", "\\w"],
    &["0x[0-9a-f]+", "0", "[0-9]+", "x", "[a-f]"],
    &["a{2,3}", "a", "b{2}", "b"],
    &["(a|b)*abb", "a", "b"],
    &["é🌕", "é", "🌕", "🌕🌕🌕", "."],
    &["x*", "y?", "(z|w)*q", "z", "w"],
    &["[ab]*c", "[ab]", "d"],
];

fn gen_multi(pid: &str, ctx: &mut Ctx) {
    for set in SETS {
        let mut alphabet: Vec<char> = set.join("").chars().filter(|c| c.is_alphanumeric() || "=./*\" é🌕".contains(*c)).collect();
        alphabet.sort();
        alphabet.dedup();
        alphabet.truncate(6);
        for rot in 0..set.len().min(4) {
            let mut s = set.to_vec();
            s.rotate_left(rot);
            for w in words(&alphabet, if alphabet.len() <= 3 { 7 } else { 4 }) {
                ctx.run(many(&s, &w));
            }
            if ctx.slice_over(45) {
                break;
            }
        }
    }
    // large inputs and many patterns
    let long: String = (0..70000).map(|i| if i % 7 == 3 { 'b' } else { 'a' }).collect();
    ctx.run(many(&["a+", "b"], &long));
    ctx.run(many(&["[ab]"], &long[..66000]));
    ctx.run(many(&["[ab]+"], &long[..66000]));
    ctx.run(many(&["a", "b", "ab"], &long[..66000]));
    ctx.run(many(&["é+", "b"], &"é".repeat(300)));
    for n in [2usize, 10, 40, 63, 64, 65, 130, 260, 300] {
        let pats: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
        let mut ps: Vec<(u8, String)> = pats.iter().enumerate().map(|(i, p)| (if n <= 60 { (i % 3) as u8 } else { 0 }, p.clone())).collect();
        let m = if n <= 60 { 1 } else { 0 };
        ps.push((m, "k[0-9]*".into()));
        for probe in [0, 1, n / 2, n - 1, n] {
            ctx.run(Case::Lex { pats: ps.clone(), input: format!("k{}k{}", probe, n - probe) });
        }
        // the same pattern declared many times
        let same: Vec<(u8, String)> = (0..n).map(|i| (if n <= 60 { (i % 3) as u8 } else { 0 }, "(a|b)*c?".to_string())).collect();
        ctx.run(Case::Lex { pats: same, input: "ababcab".into() });
    }
    wide(ctx);
    if pid == "L09" {
        gen_l09(ctx);
    }
    // long lookahead that fails, repeatedly
    for n in [3usize, 10, 50, 200, 257] {
        let long = format!("{}y", "a".repeat(n));
        ctx.run(many(&["a", &long, "x"], &format!("{}x", "a".repeat(n))));
        ctx.run(many(&["a", &long, "x"], &format!("{}xa", "a".repeat(2 * n))));
        ctx.run(many(&["aa", &long, "a", "x"], &"a".repeat(n)));
    }
    let alphabets: Vec<Vec<char>> = vec!["ab".chars().collect(), "abc".chars().collect(), "abcd".chars().collect(), "aé🌕\n".chars().collect()];
    while !ctx.over() {
        let r = &mut ctx.rng;
        let alphabet = r.pick(&alphabets).clone();
        let n = r.range(1, 6);
        let cfg = re::GenCfg { alphabet, depth: r.range(0, 3), sets: r.chance(1, 4), big: false };
        let mut res = Vec::new();
        let mut pats = Vec::new();
        for _ in 0..n {
            let re = if r.chance(1, 3) {
                // fixed words of varying length, so that one is a prefix of another
                let len = r.range(1, 6);
                Re::Cat((0..len.max(2)).map(|_| Re::Ch(*r.pick(&cfg.alphabet))).collect())
            } else {
                re::gen(r, &cfg, cfg.depth)
            };
            let mut t = String::new();
            re::print(r, &re, &mut t);
            res.push(re);
            pats.push((r.below(3) as u8, t));
        }
        for _ in 0..8 {
            let input = text_for(&mut ctx.rng, &res, &cfg.alphabet);
            if input.chars().count() > 300 {
                continue;
            }
            ctx.run(Case::Lex { pats: pats.clone(), input });
        }
    }
}

/// Machines with thousands of states, many of them active at the same time.
fn wide(ctx: &mut Ctx) {
    // many configurations that differ in their counters
    for n in [5usize, 8, 11] {
        let p = format!("({}){{3}}c", (2..n).map(|k| format!("a{{{}}}", k)).collect::<Vec<_>>().join("|"));
        for k in [5, 6, 9, 3 * n - 3, 3 * n - 2, 40] {
            ctx.run(one(&p, &format!("{}c", "a".repeat(k))));
        }
    }
    let letter = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
    for n in [150usize, 300, 600, 1100] {
        // alternatives with counters, all of them active at the start
        let alt: Vec<String> = (0..n).map(|i| format!("{}{{2}}b", letter(i))).collect();
        let alt = alt.join("|");
        for i in [0, 1, n / 2, n - 1] {
            ctx.run(one(&alt, &format!("{0}{0}b", letter(i))));
            ctx.run(one(&alt, &format!("{0}{0}{0}b", letter(i))));
        }
        // as many patterns
        let pats: Vec<(u8, String)> = (0..n).map(|i| (0, format!("{}+", letter(i)))).collect();
        let input: String = [n - 1, 0, n / 2, n - 1, 1].iter().map(|&i| letter(i)).collect();
        ctx.run(Case::Lex { pats, input });
        // alternatives and sequences that may be skipped: long chains of empty steps
        let alt: Vec<String> = (0..n).map(|i| format!("a?{}*b", letter(i))).collect();
        ctx.run(one(&alt.join("|"), &format!("{}b", letter(n - 1))));
        let pats: Vec<(u8, String)> = (0..n).map(|i| (0, format!("a?{}", letter(i)))).collect();
        ctx.run(Case::Lex { pats, input: format!("a{}{}", letter(n - 1), letter(n - 2)) });
        let seq: String = (0..n).map(|i| format!("{}?", letter(i))).collect();
        ctx.run(one(&format!("{}b", seq), "b"));
        ctx.run(one(&format!("{}b", seq), &format!("{}b", letter(1))));
        // a set with as many members
        let set: String = (0..n).map(letter).collect();
        for i in [0, n / 2, n - 1, n] {
            ctx.run(one(&format!("x[{}]", set), &format!("x{}", letter(i))));
            ctx.run(one(&format!("x[^{}]", set), &format!("x{}", letter(i))));
        }
        // a long sequence, with counters far apart
        let seq: String = (0..n).map(|i| if i % 2 == 0 { "a{2}" } else { "b" }).collect();
        let text: String = (0..n).map(|i| if i % 2 == 0 { "aa" } else { "b" }).collect();
        ctx.run(one(&seq, &text));
        ctx.run(one(&seq, &text[1..]));
        // two counters of the same character with a long plain part between them
        for gap in [n, 2 * n, 4 * n - 10, 4 * n] {
            let p = format!("a{{2}}({}|b)*a{{3}}", "c".repeat(gap));
            ctx.run(one(&p, "aabbaaa"));
            ctx.run(one(&p, "aabbaa"));
        }
        if ctx.slice_over(80) {
            break;
        }
    }
}

fn gen_l09(ctx: &mut Ctx) {
    let bodies = ["a*", "a?", "(a*)*", "(a|b*)", "a{0,2}", "(a?b?)", "(a*b*)", "((a?)*)+", "a{0}", "[ab]*", "(a|[a-z]|\\w)"];
    let outer = ["*", "+", "?", "{2}", "{0,3}", "{2,}", "{5}", "{0}"];
    for b in bodies {
        for o in outer {
            for o2 in outer {
                let p = format!("(({}){}){}", b, o, o2);
                for t in ["", "a", "b", "aaab", "abababababababab", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaac"] {
                    ctx.run(one(&p, t));
                }
            }
        }
        if ctx.slice_over(60) {
            break;
        }
    }
    // overlapping alternatives on long inputs: must stay linear
    for p in ["(a|[a]|[a-z]|\\w|.)*", "(a|aa|aaa)*b", "((a|[a])|(\\w|.))*", "(\\w|\\d|[a-z]|_)+", "(a*|[a]*)*"] {
        ctx.run(one(p, &"a".repeat(3000)));
    }
}

//! Independent reading of the pattern language: a parser for pattern text, a
//! denotational matcher, a printer and generators. Nothing in here is shared
//! with the code under check.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Ch(char),
    Range(char, char),
    Cls(char), // '.', w W d D s S
}

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Empty,
    Ch(char),
    Cls(char),
    Set(bool, Vec<Item>),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Grp(Box<Re>),
    Rep(Box<Re>, u64, Option<u64>),
}

pub fn class_has(c: char, x: char) -> bool {
    match c {
        '.' => true,
        'w' => x.is_alphabetic(),
        'W' => !x.is_alphabetic(),
        'd' => ('0'..='9').contains(&x),
        'D' => !('0'..='9').contains(&x),
        's' => x.is_whitespace(),
        'S' => !x.is_whitespace(),
        _ => unreachable!(),
    }
}

pub fn item_has(i: &Item, x: char) -> bool {
    match *i {
        Item::Ch(c) => c == x,
        Item::Range(a, b) => a as u32 <= x as u32 && x as u32 <= b as u32,
        Item::Cls(c) => class_has(c, x),
    }
}

// ------------------------------------------------------------ pattern text

/// `Ok(re)` iff the whole text is a pattern.
pub fn parse(text: &str) -> Result<Re, ()> {
    let t: Vec<char> = text.chars().collect();
    if t.is_empty() {
        return Ok(Re::Empty);
    }
    let (re, i) = alt(&t, 0)?;
    if i == t.len() {
        Ok(re)
    } else {
        Err(())
    }
}

fn alt(t: &[char], mut i: usize) -> Result<(Re, usize), ()> {
    let mut branches = Vec::new();
    loop {
        let (re, j) = cat(t, i)?;
        branches.push(re);
        i = j;
        if i < t.len() && t[i] == '|' {
            i += 1;
        } else {
            break;
        }
    }
    let re = if branches.len() == 1 { branches.pop().unwrap() } else { Re::Alt(branches) };
    Ok((re, i))
}

fn cat(t: &[char], mut i: usize) -> Result<(Re, usize), ()> {
    let mut items = Vec::new();
    while i < t.len() && t[i] != '|' && t[i] != ')' {
        let (re, j) = quantified(t, i)?;
        items.push(re);
        i = j;
    }
    if items.is_empty() {
        return Err(());
    }
    let re = if items.len() == 1 { items.pop().unwrap() } else { Re::Cat(items) };
    Ok((re, i))
}

fn quantified(t: &[char], i: usize) -> Result<(Re, usize), ()> {
    let (re, i) = atom(t, i)?;
    if i < t.len() {
        let simple = match t[i] {
            '*' => Some((0, None)),
            '+' => Some((1, None)),
            '?' => Some((0, Some(1))),
            _ => None,
        };
        if let Some((lo, hi)) = simple {
            return Ok((Re::Rep(Box::new(re), lo, hi), i + 1));
        }
        if t[i] == '{' {
            let (lo, mut j) = number(t, i + 1)?;
            let mut hi = Some(lo);
            if t.get(j) == Some(&',') {
                j += 1;
                if t.get(j) == Some(&'}') {
                    hi = None;
                } else {
                    let (n, k) = number(t, j)?;
                    hi = Some(n);
                    j = k;
                }
            }
            if t.get(j) != Some(&'}') {
                return Err(());
            }
            return Ok((Re::Rep(Box::new(re), lo, hi), j + 1));
        }
    }
    Ok((re, i))
}

fn number(t: &[char], i: usize) -> Result<(u64, usize), ()> {
    let mut j = i;
    let mut n: u64 = 0;
    while j < t.len() && ('0'..='9').contains(&t[j]) {
        n = (n * 10 + (t[j] as u64 - '0' as u64)).min(1 << 40);
        j += 1;
    }
    if j == i || n > u32::MAX as u64 {
        Err(())
    } else {
        Ok((n, j))
    }
}

enum Esc {
    Ch(char),
    Cls(char),
}

/// an escape, `i` is the index after the backslash
fn escape(t: &[char], i: usize) -> Result<(Esc, usize), ()> {
    let c = *t.get(i).ok_or(())?;
    let hex = |from: usize, n: usize| -> Result<u32, ()> {
        let mut v = 0u32;
        for k in 0..n {
            let c = *t.get(from + k).ok_or(())?;
            let d = match c {
                '0'..='9' => c as u32 - '0' as u32,
                'a'..='f' => c as u32 - 'a' as u32 + 10,
                'A'..='F' => c as u32 - 'A' as u32 + 10,
                _ => return Err(()),
            };
            v = v * 16 + d;
        }
        Ok(v)
    };
    let ch = |v: u32| char::from_u32(v).ok_or(());
    Ok(match c {
        'w' | 'W' | 'd' | 'D' | 's' | 'S' => (Esc::Cls(c), i + 1),
        'f' => (Esc::Ch('\u{c}'), i + 1),
        'n' => (Esc::Ch('\u{a}'), i + 1),
        'r' => (Esc::Ch('\u{d}'), i + 1),
        't' => (Esc::Ch('\u{9}'), i + 1),
        'v' => (Esc::Ch('\u{b}'), i + 1),
        '0' => (Esc::Ch('\u{0}'), i + 1),
        '^' | '$' | '\\' | '.' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '|' | '/' | '{' | '}'
        | '-' => (Esc::Ch(c), i + 1),
        'c' => {
            let l = *t.get(i + 1).ok_or(())?;
            if !l.is_ascii_alphabetic() {
                return Err(());
            }
            let v = l.to_ascii_uppercase() as u32 - 'A' as u32 + 1;
            (Esc::Ch(ch(v)?), i + 2)
        }
        'x' => (Esc::Ch(ch(hex(i + 1, 2)?)?), i + 3),
        'u' if t.get(i + 1) == Some(&'{') => {
            let close = (i + 2..t.len()).find(|&k| t[k] == '}').ok_or(())?;
            let n = close - (i + 2);
            if !(4..=6).contains(&n) {
                return Err(());
            }
            (Esc::Ch(ch(hex(i + 2, n)?)?), close + 1)
        }
        'u' => (Esc::Ch(ch(hex(i + 1, 4)?)?), i + 5),
        _ => return Err(()),
    })
}

fn atom(t: &[char], i: usize) -> Result<(Re, usize), ()> {
    match t[i] {
        '(' => {
            let (re, j) = alt(t, i + 1)?;
            if t.get(j) == Some(&')') {
                Ok((Re::Grp(Box::new(re)), j + 1))
            } else {
                Err(())
            }
        }
        '[' => set(t, i + 1),
        '.' => Ok((Re::Cls('.'), i + 1)),
        '\\' => Ok(match escape(t, i + 1)? {
            (Esc::Ch(c), j) => (Re::Ch(c), j),
            (Esc::Cls(c), j) => (Re::Cls(c), j),
        }),
        ']' | '^' | '-' | '*' | '+' | '?' | '{' | ')' | '|' => Err(()),
        c => Ok((Re::Ch(c), i + 1)),
    }
}

fn set(t: &[char], mut i: usize) -> Result<(Re, usize), ()> {
    let mut neg = false;
    if t.get(i) == Some(&'^') {
        neg = true;
        i += 1;
    }
    let mut items = Vec::new();
    loop {
        let c = *t.get(i).ok_or(())?;
        if c == ']' {
            return Ok((Re::Set(neg, items), i + 1));
        }
        let (e, j) = set_char(t, i)?;
        i = j;
        match e {
            Esc::Cls(c) => items.push(Item::Cls(c)),
            Esc::Ch(a) => {
                if t.get(i) == Some(&'-') {
                    if i + 1 >= t.len() {
                        return Err(());
                    }
                    match set_char(t, i + 1)? {
                        (Esc::Ch(b), j) => {
                            items.push(Item::Range(a, b));
                            i = j;
                        }
                        _ => return Err(()),
                    }
                } else {
                    items.push(Item::Ch(a));
                }
            }
        }
    }
}

fn set_char(t: &[char], i: usize) -> Result<(Esc, usize), ()> {
    match t[i] {
        '\\' => escape(t, i + 1),
        '.' => Ok((Esc::Cls('.'), i + 1)),
        '[' | ']' | '(' | ')' | '^' | '|' | '-' | '*' | '+' | '?' | '{' => Err(()),
        c => Ok((Esc::Ch(c), i + 1)),
    }
}

// ------------------------------------------------------------ denotation

/// all `j` such that `s[i..j]` is in the language, for all `i` in `from`
pub fn ends(re: &Re, s: &[char], from: &[bool]) -> Vec<bool> {
    let n = s.len();
    let step = |p: &dyn Fn(char) -> bool| {
        let mut r = vec![false; n + 1];
        for i in 0..n {
            if from[i] && p(s[i]) {
                r[i + 1] = true;
            }
        }
        r
    };
    match re {
        Re::Empty => from.to_vec(),
        Re::Ch(c) => step(&|x| x == *c),
        Re::Cls(c) => step(&|x| class_has(*c, x)),
        Re::Set(neg, items) => step(&|x| items.iter().any(|i| item_has(i, x)) != *neg),
        Re::Cat(v) => v.iter().fold(from.to_vec(), |acc, r| ends(r, s, &acc)),
        Re::Alt(v) => {
            let mut r = vec![false; n + 1];
            for b in v {
                for (x, y) in r.iter_mut().zip(ends(b, s, from)) {
                    *x |= y;
                }
            }
            r
        }
        Re::Grp(b) => ends(b, s, from),
        Re::Rep(b, lo, hi) if matches!(**b, Re::Ch(_) | Re::Cls(_) | Re::Set(..)) => {
            // runs of single characters: positions reached form intervals
            let ok = ends(b, s, &vec![true; n + 1]);
            let mut run_end = vec![n; n + 1];
            for i in (0..n).rev() {
                run_end[i] = if ok[i + 1] { run_end[i + 1] } else { i };
            }
            let mut diff = vec![0i64; n + 2];
            for i in 0..=n {
                let last = match hi {
                    Some(h) => run_end[i].min(i.saturating_add(*h as usize)),
                    None => run_end[i],
                };
                let first = i.saturating_add(*lo as usize);
                if from[i] && first <= last {
                    diff[first] += 1;
                    diff[last + 1] -= 1;
                }
            }
            let mut sum = 0;
            (0..=n)
                .map(|j| {
                    sum += diff[j];
                    sum > 0
                })
                .collect()
        }
        Re::Rep(b, lo, hi) => {
            let mut result = vec![false; n + 1];
            let mut cur = from.to_vec();
            let mut k: u64 = 0;
            loop {
                if let Some(h) = hi {
                    if k > *h {
                        break;
                    }
                }
                if k >= *lo {
                    for (x, y) in result.iter_mut().zip(&cur) {
                        *x |= *y;
                    }
                }
                let next = ends(b, s, &cur);
                if next == cur {
                    // stays the same for every further round
                    if hi.map_or(true, |h| h >= *lo) {
                        for (x, y) in result.iter_mut().zip(&cur) {
                            *x |= *y;
                        }
                    }
                    break;
                }
                if !next.iter().any(|x| *x) {
                    break;
                }
                if hi.is_none() && k >= *lo {
                    // unbounded: stop once nothing new is added
                    let mut changed = false;
                    for (x, y) in result.iter().zip(&next) {
                        changed |= !*x && *y;
                    }
                    if !changed {
                        break;
                    }
                }
                cur = next;
                k += 1;
            }
            result
        }
    }
}

/// length of the longest non-empty prefix of `s` matched, and whether the
/// pattern matches all of `s`
pub fn longest(re: &Re, s: &[char]) -> Option<usize> {
    let mut from = vec![false; s.len() + 1];
    from[0] = true;
    let e = ends(re, s, &from);
    (1..=s.len()).rev().find(|&j| e[j])
}

pub fn matches_all(re: &Re, s: &[char]) -> bool {
    let mut from = vec![false; s.len() + 1];
    from[0] = true;
    ends(re, s, &from)[s.len()]
}

// ------------------------------------------------------------ generation

pub struct GenCfg {
    pub alphabet: Vec<char>,
    pub depth: usize,
    pub sets: bool,
    pub big: bool,
}

pub fn gen(r: &mut Rng, c: &GenCfg, depth: usize) -> Re {
    let k = if depth == 0 { r.below(4) } else { r.below(14) };
    match k {
        0..=2 => Re::Ch(*r.pick(&c.alphabet)),
        3 => {
            if c.sets {
                gen_set(r, &c.alphabet)
            } else {
                Re::Ch(*r.pick(&c.alphabet))
            }
        }
        4..=6 => {
            let n = r.range(2, 3);
            Re::Cat((0..n).map(|_| gen(r, c, depth - 1)).collect())
        }
        7..=8 => {
            let n = r.range(2, 3);
            Re::Alt((0..n).map(|_| gen(r, c, depth - 1)).collect())
        }
        9 => Re::Grp(Box::new(gen(r, c, depth - 1))),
        _ => {
            let b = Box::new(gen(r, c, depth - 1));
            let single = matches!(*b, Re::Ch(_) | Re::Cls(_) | Re::Set(..));
            let (lo, hi) = gen_quant(r, c.big);
            if !single && (lo > 17 || hi.map_or(false, |h| h > 17)) {
                // the runs of the simulator grow with the product of the counts
                return Re::Rep(b, lo % 5, hi.map(|h| h % 7));
            }
            Re::Rep(b, lo, hi)
        }
    }
}

pub fn gen_quant(r: &mut Rng, big: bool) -> (u64, Option<u64>) {
    if big && r.chance(1, 12) {
        let n = *r.pick(&[7u64, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
        return match r.below(3) {
            0 => (n, Some(n)),
            1 => (n, None),
            _ => (n, Some(n + r.below(3) as u64)),
        };
    }
    match r.below(8) {
        0 => (0, None),
        1 => (1, None),
        2 => (0, Some(1)),
        3 => {
            let n = r.below(4) as u64;
            (n, Some(n))
        }
        4 => (r.below(4) as u64, None),
        _ => {
            let n = r.below(4) as u64;
            (n, Some(r.below(5) as u64))
        }
    }
}

pub fn gen_set(r: &mut Rng, alphabet: &[char]) -> Re {
    match r.below(5) {
        0 => Re::Cls(*r.pick(&['.', 'w', 'W', 'd', 'D', 's', 'S'])),
        _ => {
            let n = r.below(4);
            let items = (0..n)
                .map(|_| match r.below(4) {
                    0 => Item::Cls(*r.pick(&['.', 'w', 'W', 'd', 'D', 's', 'S'])),
                    1 => Item::Range(*r.pick(alphabet), *r.pick(alphabet)),
                    _ => Item::Ch(*r.pick(alphabet)),
                })
                .collect();
            Re::Set(r.chance(1, 3), items)
        }
    }
}

/// some string of the language (if the description has one that is found)
pub fn sample(r: &mut Rng, re: &Re, alphabet: &[char], out: &mut Vec<char>, budget: &mut usize) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    match re {
        Re::Empty => true,
        Re::Ch(c) => {
            out.push(*c);
            true
        }
        Re::Cls(_) | Re::Set(..) => {
            for _ in 0..12 {
                let x = match (r.below(3), re) {
                    (0, _) => *r.pick(alphabet),
                    (_, Re::Set(_, items)) if !items.is_empty() => match r.pick(items) {
                        Item::Ch(c) => *c,
                        Item::Range(a, b) => *r.pick(&[*a, *b]),
                        Item::Cls(_) => *r.pick(&['a', '0', ' ', 'é', '_']),
                    },
                    _ => *r.pick(&['a', '0', ' ', 'é', '_', '9', '\n']),
                };
                let ok = match re {
                    Re::Cls(c) => class_has(*c, x),
                    Re::Set(neg, items) => items.iter().any(|i| item_has(i, x)) != *neg,
                    _ => unreachable!(),
                };
                if ok {
                    out.push(x);
                    return true;
                }
            }
            false
        }
        Re::Cat(v) => v.iter().all(|b| sample(r, b, alphabet, out, budget)),
        Re::Alt(v) => {
            let b = r.pick(v);
            sample(r, b, alphabet, out, budget)
        }
        Re::Grp(b) => sample(r, b, alphabet, out, budget),
        Re::Rep(b, lo, hi) => {
            if hi.map_or(false, |h| h < *lo) || *lo > 2000 {
                return false;
            }
            let span = match hi {
                Some(h) => (h - lo).min(3),
                None => 3,
            };
            let n = lo + r.below(span as usize + 1) as u64;
            (0..n).all(|_| sample(r, b, alphabet, out, budget))
        }
    }
}

// ------------------------------------------------------------ printing

const META: &[char] = &['^', '\\', '.', '*', '+', '?', '(', ')', '[', ']', '|', '{', '-'];

pub fn print_char(r: &mut Rng, c: char, out: &mut String) {
    let v = c as u32;
    let must = META.contains(&c);
    match r.below(if must { 12 } else { 40 }) {
        0 if v < 256 => out.push_str(&format!("\\x{:02x}", v)),
        1 if v < 0x10000 => out.push_str(&format!("\\u{:04X}", v)),
        2 => out.push_str(&format!("\\u{{{:04x}}}", v)),
        3 if v >= 1 && v <= 26 => {
            out.push_str("\\c");
            out.push((b'A' + v as u8 - 1) as char);
        }
        _ if must => {
            out.push('\\');
            out.push(c);
        }
        4 if c == '/' || c == '$' || c == '}' => {
            out.push('\\');
            out.push(c);
        }
        5 if c == '\n' => out.push_str("\\n"),
        5 if c == '\t' => out.push_str("\\t"),
        _ => out.push(c),
    }
}

pub fn print(r: &mut Rng, re: &Re, out: &mut String) {
    // precedence: 0 alternation, 1 sequence, 2 item, 3 item that can take a quantifier
    fn go(r: &mut Rng, re: &Re, prec: usize, out: &mut String) {
        let own = match re {
            Re::Alt(_) => 0,
            Re::Cat(_) => 1,
            Re::Rep(..) => 2,
            Re::Empty => 0,
            _ => 3,
        };
        if own < prec {
            out.push('(');
            go(r, re, 0, out);
            out.push(')');
            return;
        }
        match re {
            Re::Empty => (),
            Re::Ch(c) => print_char(r, *c, out),
            Re::Cls('.') => out.push('.'),
            Re::Cls(c) => {
                out.push('\\');
                out.push(*c);
            }
            Re::Set(neg, items) => {
                out.push('[');
                if *neg {
                    out.push('^');
                }
                for i in items {
                    match i {
                        Item::Ch(c) => print_char(r, *c, out),
                        Item::Range(a, b) => {
                            print_char(r, *a, out);
                            out.push('-');
                            print_char(r, *b, out);
                        }
                        Item::Cls('.') => out.push('.'),
                        Item::Cls(c) => {
                            out.push('\\');
                            out.push(*c);
                        }
                    }
                }
                out.push(']');
            }
            Re::Cat(v) => {
                for b in v {
                    go(r, b, 2, out);
                }
            }
            Re::Alt(v) => {
                for (k, b) in v.iter().enumerate() {
                    if k > 0 {
                        out.push('|');
                    }
                    go(r, b, 1, out);
                }
            }
            Re::Grp(b) => {
                out.push('(');
                go(r, b, 0, out);
                out.push(')');
            }
            Re::Rep(b, lo, hi) => {
                go(r, b, 3, out);
                match (lo, hi) {
                    (0, None) if r.chance(3, 4) => out.push('*'),
                    (1, None) if r.chance(3, 4) => out.push('+'),
                    (0, Some(1)) if r.chance(3, 4) => out.push('?'),
                    (n, None) => out.push_str(&format!("{{{},}}", n)),
                    (n, Some(m)) if n == m && r.chance(3, 4) => out.push_str(&format!("{{{}}}", n)),
                    (n, Some(m)) => out.push_str(&format!("{{{},{}}}", n, m)),
                }
            }
        }
    }
    go(r, re, 0, out)
}

//! Grammar and parser cases, with textbook constructions as oracle.
use crate::dbg::Val;
use crate::rng::Rng;
use crate::{guard, Case, Ctx};
use pango_lexer::Lexer;
use pango_parser::{Cfsm, Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct V(pub u16);
impl Debug for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "V{}", self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct T {
    pub id: u16,
    pub val: u32,
}
impl Debug for T {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}_{}", self.id, self.val)
    }
}
thread_local!(pub static HASH_MODE: Cell<u8> = const { Cell::new(0) });
impl TerminalEq for T {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.id == other.id
    }
}
impl TerminalHash for T {
    fn terminal_hash<H: Hasher>(&self, state: &mut H) {
        match HASH_MODE.with(|m| m.get()) {
            0 => self.id.hash(state),
            1 => (),
            _ => 0.hash(state),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    V(u16),
    T(u16, u32),
    E,
}

fn to_real(s: S) -> Symbol<V, T> {
    match s {
        S::V(v) => Symbol::Variable(V(v)),
        S::T(id, val) => Symbol::Terminal(T { id, val }),
        S::E => Symbol::Epsilon,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Start(u16),
    Rule(u16, Vec<S>),
    Rules(u16, Vec<Vec<S>>),
}

pub fn build_real(ops: &[Op], style: u8) -> Result<Grammar<V, T>, String> {
    guard(|| {
        let mut b = Grammar::<V, T>::builder();
        for (i, op) in ops.iter().enumerate() {
            let chain = (style as usize >> (i % 7)) & 1 == 1;
            match op {
                Op::Start(v) if chain => b = b.with_start_variable(V(*v)),
                Op::Start(v) => b.set_start_variable(V(*v)),
                Op::Rule(v, body) => {
                    let body: Vec<_> = body.iter().map(|s| to_real(*s)).collect();
                    if chain {
                        b = b.with_rule(V(*v), body)
                    } else {
                        b.add_rule(V(*v), body);
                    }
                }
                Op::Rules(v, bodies) => {
                    let bodies: Vec<Vec<_>> = bodies.iter().map(|b| b.iter().map(|s| to_real(*s)).collect()).collect();
                    if chain {
                        b = b.with_rules(V(*v), bodies)
                    } else {
                        b.add_rules(V(*v), bodies)
                    }
                }
            }
        }
        b.build()
    })
}

// ------------------------------------------------------------ oracle

pub struct G {
    pub start: u16,
    pub rules: Vec<(u16, Vec<S>)>,
    pub nvars: usize,
}

/// `None` if the calls do not describe a complete grammar
pub fn oracle_grammar(ops: &[Op]) -> Option<G> {
    let mut start = None;
    let mut set = BTreeSet::new();
    let norm = |b: &Vec<S>| if b.is_empty() { vec![S::E] } else { b.clone() };
    for op in ops {
        match op {
            Op::Start(v) => start = Some(*v),
            Op::Rule(v, b) => {
                set.insert((*v, norm(b)));
            }
            Op::Rules(v, bs) => {
                for b in bs {
                    set.insert((*v, norm(b)));
                }
            }
        }
    }
    let start = start?;
    let heads: BTreeSet<u16> = set.iter().map(|(v, _)| *v).collect();
    let used = set.iter().flat_map(|(_, b)| b.iter()).filter_map(|s| match s {
        S::V(v) => Some(*v),
        _ => None,
    });
    if !heads.contains(&start) || used.into_iter().any(|v| !heads.contains(&v)) {
        return None;
    }
    let rules: Vec<_> = set.into_iter().collect();
    let nvars = rules.iter().map(|(v, _)| *v as usize + 1).max().unwrap().max(start as usize + 1);
    Some(G { start, rules, nvars })
}

/// end of input as a lookahead
pub const EOF: (u16, u32) = (u16::MAX, 0);

pub struct Sets {
    pub nullable: Vec<bool>,
    pub first: Vec<BTreeSet<(u16, u32)>>,
    pub follow: Vec<BTreeSet<(u16, u32)>>,
}

pub fn sets(g: &G) -> Sets {
    let n = g.nvars;
    let mut nullable = vec![false; n];
    loop {
        let mut ch = false;
        for (h, b) in &g.rules {
            let all = b.iter().all(|s| match s {
                S::E => true,
                S::T(..) => false,
                S::V(v) => nullable[*v as usize],
            });
            if all && !nullable[*h as usize] {
                nullable[*h as usize] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut first = vec![BTreeSet::new(); n];
    fn first_of(b: &[S], nullable: &[bool], first: &[BTreeSet<(u16, u32)>]) -> (BTreeSet<(u16, u32)>, bool) {
        let mut r = BTreeSet::new();
        for s in b {
            match s {
                S::E => (),
                S::T(a, v) => {
                    r.insert((*a, *v));
                    return (r, false);
                }
                S::V(v) => {
                    r.extend(first[*v as usize].iter().copied());
                    if !nullable[*v as usize] {
                        return (r, false);
                    }
                }
            }
        }
        (r, true)
    }
    loop {
        let mut ch = false;
        for (h, b) in &g.rules {
            let (f, _) = first_of(b, &nullable, &first);
            let e = &mut first[*h as usize];
            let l = e.len();
            e.extend(f);
            ch |= l != e.len();
        }
        if !ch {
            break;
        }
    }
    let mut follow = vec![BTreeSet::new(); n];
    follow[g.start as usize].insert(EOF);
    loop {
        let mut ch = false;
        for (h, b) in &g.rules {
            for (i, s) in b.iter().enumerate() {
                if let S::V(v) = s {
                    let (mut f, null) = first_of(&b[i + 1..], &nullable, &first);
                    if null {
                        f.extend(follow[*h as usize].iter().copied());
                    }
                    let e = &mut follow[*v as usize];
                    let l = e.len();
                    e.extend(f);
                    ch |= l != e.len();
                }
            }
        }
        if !ch {
            break;
        }
    }
    Sets { nullable, first, follow }
}

/// (rule, cursor)
type Items = BTreeSet<(usize, usize)>;

pub struct Lr0 {
    pub states: Vec<Items>,
    pub trans: Vec<BTreeMap<S, usize>>,
}

pub fn lr0(g: &G) -> Lr0 {
    let mut by_head: Vec<Vec<usize>> = vec![vec![]; g.nvars];
    for (r, (h, _)) in g.rules.iter().enumerate() {
        by_head[*h as usize].push(r);
    }
    let skip = |r: usize, mut c: usize| {
        let b = &g.rules[r].1;
        while c < b.len() && b[c] == S::E {
            c += 1;
        }
        c
    };
    let close = |mut items: Items| {
        let mut todo: Vec<_> = items.iter().copied().collect();
        while let Some((r, c)) = todo.pop() {
            if let Some(S::V(v)) = g.rules[r].1.get(c) {
                for &q in &by_head[*v as usize] {
                    let it = (q, skip(q, 0));
                    if items.insert(it) {
                        todo.push(it);
                    }
                }
            }
        }
        items
    };
    let start: Items = by_head[g.start as usize].iter().map(|&r| (r, skip(r, 0))).collect();
    let mut states = vec![close(start)];
    let mut index: BTreeMap<Items, usize> = BTreeMap::from([(states[0].clone(), 0)]);
    let mut trans = Vec::new();
    let mut i = 0;
    while i < states.len() {
        let mut kernels: BTreeMap<S, Items> = BTreeMap::new();
        for &(r, c) in &states[i] {
            if let Some(s) = g.rules[r].1.get(c) {
                kernels.entry(*s).or_default().insert((r, skip(r, c + 1)));
            }
        }
        let mut t = BTreeMap::new();
        for (s, k) in kernels {
            let c = close(k);
            let id = *index.entry(c.clone()).or_insert_with(|| {
                states.push(c);
                states.len() - 1
            });
            t.insert(s, id);
        }
        trans.push(t);
        i += 1;
    }
    Lr0 { states, trans }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    Shift(usize),
    Reduce(u16, usize),
    Accept,
}

/// per state: lookahead id -> possible actions
pub fn actions(g: &G, s: &Sets, a: &Lr0) -> Vec<BTreeMap<u16, BTreeSet<Act>>> {
    let mut out: Vec<BTreeMap<u16, BTreeSet<Act>>> = vec![BTreeMap::new(); a.states.len()];
    for (i, items) in a.states.iter().enumerate() {
        for &(r, c) in items {
            let (h, b) = &g.rules[r];
            match b.get(c) {
                Some(s @ S::T(id, _)) => {
                    out[i].entry(*id).or_default().insert(Act::Shift(a.trans[i][s]));
                }
                Some(_) => (),
                None => {
                    let n = b.iter().filter(|s| **s != S::E).count();
                    for (t, _) in &s.follow[*h as usize] {
                        out[i].entry(*t).or_default().insert(Act::Reduce(*h, n));
                    }
                }
            }
        }
    }
    if let Some(&q) = a.trans[0].get(&S::V(g.start)) {
        out[q].entry(EOF.0).or_default().insert(Act::Accept);
    }
    out
}

pub fn has_conflict(acts: &[BTreeMap<u16, BTreeSet<Act>>]) -> bool {
    acts.iter().any(|m| m.values().any(|s| s.len() > 1))
}

/// is there a variable that derives no text or does not occur in any sentential form
pub fn has_useless(g: &G) -> bool {
    let mut prod = vec![false; g.nvars];
    let mut reach = vec![false; g.nvars];
    reach[g.start as usize] = true;
    loop {
        let before = (prod.clone(), reach.clone());
        for (h, b) in &g.rules {
            if b.iter().all(|s| !matches!(s, S::V(v) if !prod[*v as usize])) {
                prod[*h as usize] = true;
            }
            if reach[*h as usize] {
                for s in b {
                    if let S::V(v) = s {
                        reach[*v as usize] = true;
                    }
                }
            }
        }
        if before == (prod.clone(), reach.clone()) {
            break;
        }
    }
    g.rules.iter().any(|(h, _)| !prod[*h as usize] || !reach[*h as usize])
}

/// The textbook driver: whether it accepts, nothing if it does not stop.
pub fn drive(g: &G, a: &Lr0, acts: &[BTreeMap<u16, BTreeSet<Act>>], w: &[u16]) -> Option<bool> {
    let mut stack = vec![0usize];
    let mut steps = 0;
    let mut i = 0;
    loop {
        let la = w.get(i).copied().unwrap_or(EOF.0);
        let Some(act) = acts[*stack.last().unwrap()].get(&la).and_then(|x| x.iter().next()) else { return Some(false) };
        match act {
            Act::Shift(d) => {
                stack.push(*d);
                i += 1;
                steps = 0;
            }
            Act::Accept => return Some(true),
            Act::Reduce(v, n) => {
                stack.truncate(stack.len() - n);
                match a.trans[*stack.last().unwrap()].get(&S::V(*v)) {
                    Some(d) => stack.push(*d),
                    // the start variable alone, nowhere in the rules a step on it
                    None => return Some(stack.len() == 1 && *v == g.start && i == w.len()),
                }
                steps += 1;
                if steps > 5000 + 2 * w.len() {
                    return None;
                }
            }
        }
    }
}

/// The textbook driver does not stop on this input: with useless variables it can reduce
/// empty bodies forever. Listed in the known findings, see there.
pub fn diverges(g: &G, a: &Lr0, acts: &[BTreeMap<u16, BTreeSet<Act>>], w: &[u16]) -> bool {
    has_useless(g) && drive(g, a, acts, w).is_none()
}

pub fn derives(g: &G, w: &[u16]) -> bool {
    let n = w.len();
    let mut d = vec![vec![vec![false; n + 1]; n + 1]; g.nvars];
    loop {
        let mut ch = false;
        for (h, b) in &g.rules {
            for i in 0..=n {
                let mut cur = vec![false; n + 1];
                cur[i] = true;
                for s in b {
                    match s {
                        S::E => (),
                        S::T(id, _) => {
                            let mut nx = vec![false; n + 1];
                            for j in i..n {
                                nx[j + 1] = cur[j] && w[j] == *id;
                            }
                            cur = nx;
                        }
                        S::V(v) => {
                            let mut nx = vec![false; n + 1];
                            for j in i..=n {
                                if cur[j] {
                                    for k in j..=n {
                                        nx[k] |= d[*v as usize][j][k];
                                    }
                                }
                            }
                            cur = nx;
                        }
                    }
                }
                for j in i..=n {
                    if cur[j] && !d[*h as usize][i][j] {
                        d[*h as usize][i][j] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    d[g.start as usize][0][n]
}

/// random sentence
pub fn sentence(r: &mut Rng, g: &G, budget: usize) -> Option<Vec<u16>> {
    // least height of a derivation
    let mut height = vec![usize::MAX; g.nvars];
    let rule_h = |b: &[S], height: &[usize]| {
        b.iter()
            .map(|s| match s {
                S::V(v) => height[*v as usize],
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    };
    loop {
        let mut ch = false;
        for (h, b) in &g.rules {
            let x = rule_h(b, &height);
            if x != usize::MAX && x + 1 < height[*h as usize] {
                height[*h as usize] = x + 1;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    if height[g.start as usize] == usize::MAX {
        return None;
    }
    let mut out = Vec::new();
    let mut stack = vec![S::V(g.start)];
    let mut steps = 0;
    while let Some(s) = stack.pop() {
        match s {
            S::E => (),
            S::T(id, _) => out.push(id),
            S::V(v) => {
                steps += 1;
                let cands: Vec<_> = g.rules.iter().filter(|(h, b)| *h == v && rule_h(b, &height) != usize::MAX).collect();
                let pick = if steps > budget {
                    cands.iter().min_by_key(|(_, b)| (rule_h(b, &height), b.len())).unwrap()
                } else {
                    *r.pick(&cands.iter().collect::<Vec<_>>())
                };
                stack.extend(pick.1.iter().rev());
            }
        }
        if out.len() > 400 || steps > 5000 {
            return None;
        }
    }
    Some(out)
}

// ------------------------------------------------------------ text and trees

fn id_char(id: u16) -> char {
    if id < 26 {
        (b'a' + id as u8) as char
    } else {
        char::from_u32(0x4e00 + id as u32).unwrap()
    }
}

fn char_id(c: char) -> u16 {
    if c.is_ascii_lowercase() {
        c as u16 - b'a' as u16
    } else {
        (c as u32 - 0x4e00) as u16
    }
}

fn tok(s: &str) -> T {
    let c = s.chars().next().unwrap();
    T { id: char_id(c), val: s[c.len_utf8()..].parse().unwrap_or(0) }
}

pub fn text_of(w: &[u16], vals: bool) -> String {
    let mut s = String::new();
    for (i, id) in w.iter().enumerate() {
        s.push(id_char(*id));
        if vals {
            s.push_str(&(i + 1).to_string());
        }
    }
    s
}

/// tokens of the text, and whether all of it is made of tokens
fn oracle_tokens(text: &str, nterms: u16) -> (Vec<(u16, u32)>, bool) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        let known = (0..nterms).any(|id| id_char(id) == c[i]);
        if !known {
            return (out, false);
        }
        let id = char_id(c[i]);
        i += 1;
        let st = i;
        while i < c.len() && c[i].is_ascii_digit() {
            i += 1;
        }
        out.push((id, c[st..i].iter().collect::<String>().parse().unwrap_or(0)));
    }
    (out, true)
}

#[derive(Debug)]
pub enum Tree {
    Leaf(u16, u32),
    Node(u16, Vec<Tree>),
}

fn read_var(v: &Val) -> Option<u16> {
    v.name()?.strip_prefix('V')?.parse().ok()
}
fn read_term(v: &Val) -> Option<(u16, u32)> {
    let (a, b) = v.name()?.strip_prefix('t')?.split_once('_')?;
    Some((a.parse().ok()?, b.parse().ok()?))
}
fn read_sym(v: &Val) -> Option<S> {
    match v.name()? {
        "Terminal" => {
            let (a, b) = read_term(v.arg()?)?;
            Some(S::T(a, b))
        }
        "Variable" => Some(S::V(read_var(v.arg()?)?)),
        "Epsilon" => Some(S::E),
        _ => None,
    }
}

fn read_tree(v: &Val) -> Option<Tree> {
    let children = v.field("children")?.list()?;
    match read_sym(v.field("symbol")?)? {
        S::T(a, b) if children.is_empty() => Some(Tree::Leaf(a, b)),
        S::V(x) => {
            let mut c = children.iter().map(read_tree).collect::<Option<Vec<_>>>()?;
            c.reverse();
            Some(Tree::Node(x, c))
        }
        _ => None,
    }
}

fn leaves(t: &Tree, out: &mut Vec<(u16, u32)>) {
    match t {
        Tree::Leaf(a, b) => out.push((*a, *b)),
        Tree::Node(_, c) => c.iter().for_each(|t| leaves(t, out)),
    }
}

fn check_tree(g: &G, t: &Tree) -> Result<(), String> {
    if let Tree::Node(v, c) = t {
        let ok = g.rules.iter().any(|(h, b)| {
            let body: Vec<S> = b.iter().copied().filter(|s| *s != S::E).collect();
            h == v
                && body.len() == c.len()
                && body.iter().zip(c).all(|(s, t)| match (s, t) {
                    (S::T(id, _), Tree::Leaf(a, _)) => id == a,
                    (S::V(x), Tree::Node(y, _)) => x == y,
                    _ => false,
                })
        });
        if !ok {
            return Err(format!("a node V{} of the tree is not an application of a rule: {:?}", v, t));
        }
        for t in c {
            check_tree(g, t)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ checks

pub fn nterms(g: &G) -> u16 {
    g.rules
        .iter()
        .flat_map(|(_, b)| b)
        .filter_map(|s| match s {
            S::T(id, _) => Some(*id + 1),
            _ => None,
        })
        .max()
        .unwrap_or(0)
        .max(2)
        + 1
}

fn read_items(v: &Val) -> Option<BTreeSet<(u16, Vec<S>, usize)>> {
    let mut out = BTreeSet::new();
    for (h, bodies) in v.field("items")?.map()? {
        let h = read_var(h)?;
        for (b, _) in bodies.as_ref()?.map()? {
            let body = b.field("body")?.list()?.iter().map(read_sym).collect::<Option<Vec<_>>>()?;
            out.insert((h, body, b.field("cursor")?.num()?));
        }
    }
    Some(out)
}

struct RealState {
    id: usize,
    items: BTreeSet<(u16, Vec<S>, usize)>,
    trans: BTreeMap<S, usize>,
    ntrans: usize,
}

fn read_cfsm(v: &Val) -> Option<(usize, Vec<RealState>)> {
    let start = v.field("start_state")?.num()?;
    let mut out = Vec::new();
    for (s, _) in v.field("states")?.map()? {
        let tr = s.field("transitions")?.map()?;
        let mut trans = BTreeMap::new();
        for (k, d) in tr {
            trans.insert(read_sym(k)?, d.as_ref()?.num()?);
        }
        out.push(RealState { id: s.field("id")?.num()?, items: read_items(s.field("item_set")?)?, trans, ntrans: tr.len() });
    }
    Some((start, out))
}

fn check_cfsm(g: &G, text: &str) -> Option<Result<(), String>> {
    let (start, states) = read_cfsm(&Val::parse(text)?)?;
    let a = lr0(g);
    let want: Vec<BTreeSet<(u16, Vec<S>, usize)>> = a
        .states
        .iter()
        .map(|s| s.iter().map(|&(r, c)| (g.rules[r].0, g.rules[r].1.clone(), c)).collect())
        .collect();
    Some((|| {
        let mut ids: Vec<usize> = states.iter().map(|s| s.id).collect();
        ids.sort();
        if ids != (0..states.len()).collect::<Vec<_>>() {
            return Err(format!("state numbers are {:?}", ids));
        }
        if start != 0 {
            return Err(format!("start state is {}", start));
        }
        let mut map: Vec<Option<usize>> = vec![None; states.len()];
        let mut seen = BTreeSet::new();
        for s in &states {
            if s.ntrans != s.trans.len() {
                return Err(format!("state {} has two transitions for one symbol", s.id));
            }
            match want.iter().position(|w| *w == s.items) {
                Some(k) => {
                    if !seen.insert(k) {
                        return Err(format!("two states have the item set {:?}", s.items));
                    }
                    map[s.id] = Some(k);
                }
                None => return Err(format!("state {} has items that are no state of the LR(0) automaton: {:?}", s.id, s.items)),
            }
        }
        if map.first() != Some(&Some(0)) {
            return Err("state 0 is not the closure of the start rules".into());
        }
        if seen.len() != want.len() {
            return Err(format!("{} states, the LR(0) automaton has {}", seen.len(), want.len()));
        }
        for s in &states {
            let k = map[s.id].unwrap();
            let got: BTreeMap<S, Option<usize>> = s.trans.iter().map(|(x, d)| (*x, map.get(*d).copied().flatten())).collect();
            let exp: BTreeMap<S, Option<usize>> = a.trans[k].iter().map(|(x, d)| (*x, Some(*d))).collect();
            if got != exp {
                return Err(format!("transitions of the state {:?} are {:?}, expected {:?}", want[k], got, exp));
            }
        }
        Ok(())
    })())
}

/// (lookahead -> action, variable -> state) per state; EOF.0 for the end
type Table = Vec<(BTreeMap<u16, Act>, BTreeMap<u16, usize>)>;

fn read_table(v: &Val) -> Option<Table> {
    let t = v.field("table")?;
    let act = t.field("action")?.list()?;
    let goto = t.field("goto")?.list()?;
    let mut out: Table = vec![Default::default(); act.len().max(goto.len())];
    for (i, row) in act.iter().enumerate() {
        for (k, a) in row.map()? {
            let la = match k.name()? {
                "Eof" => EOF.0,
                "T" => read_term(k.arg()?)?.0,
                _ => return None,
            };
            let a = a.as_ref()?;
            let a = match a.name()? {
                "Shift" => Act::Shift(a.field("dest_state")?.num()?),
                "Reduce" => Act::Reduce(read_var(a.field("variable")?)?, a.field("amount")?.num()?),
                "Accept" => Act::Accept,
                _ => return None,
            };
            out[i].0.insert(la, a);
        }
    }
    for (i, row) in goto.iter().enumerate() {
        for (k, d) in row.map()? {
            out[i].1.insert(read_var(k)?, d.as_ref()?.num()?);
        }
    }
    Some(out)
}

/// walk the real table and the oracle automaton in step and compare the reductions
fn check_reductions(g: &G, text: &str) -> Option<Result<(), String>> {
    let table = read_table(&Val::parse(text)?)?;
    let a = lr0(g);
    let s = sets(g);
    let acts = actions(g, &s, &a);
    Some((|| {
        let empty = Default::default();
        let mut map: BTreeMap<usize, usize> = BTreeMap::from([(0, 0)]);
        let mut todo = vec![0usize];
        while let Some(o) = todo.pop() {
            let real = map[&o];
            let row: &(BTreeMap<u16, Act>, BTreeMap<u16, usize>) = table.get(real).unwrap_or(&empty);
            let want: BTreeSet<(u16, u16, usize)> = acts[o]
                .iter()
                .flat_map(|(t, x)| x.iter().map(move |x| (t, x)))
                .filter_map(|(t, x)| match x {
                    Act::Reduce(v, n) => Some((*t, *v, *n)),
                    _ => None,
                })
                .collect();
            let got: BTreeSet<(u16, u16, usize)> = row
                .0
                .iter()
                .filter_map(|(t, x)| match x {
                    Act::Reduce(v, n) => Some((*t, *v, *n)),
                    _ => None,
                })
                .collect();
            if want != got {
                let show = |s: &BTreeSet<(u16, u16, usize)>| {
                    s.iter()
                        .map(|(t, v, n)| format!("on {} V{}/{}", if *t == EOF.0 { "end".to_string() } else { format!("t{}", t) }, v, n))
                        .collect::<Vec<_>>()
                        .join(", ")
                };
                return Err(format!(
                    "in the state {:?} the reductions are [{}], expected [{}]",
                    a.states[o].iter().map(|&(r, c)| (g.rules[r].0, &g.rules[r].1, c)).collect::<Vec<_>>(),
                    show(&got),
                    show(&want)
                ));
            }
            for (sym, d) in &a.trans[o] {
                let rd = match sym {
                    S::T(id, _) => match row.0.get(id) {
                        Some(Act::Shift(d)) => *d,
                        _ => return Err(format!("no shift on t{} in state {}", id, real)),
                    },
                    S::V(v) => match row.1.get(v) {
                        Some(d) => *d,
                        None => return Err(format!("no goto for V{} in state {}", v, real)),
                    },
                    S::E => continue,
                };
                if !map.contains_key(d) {
                    map.insert(*d, rd);
                    todo.push(*d);
                }
            }
        }
        Ok(())
    })())
}

pub struct Outcome {
    pub skipped: bool,
}

thread_local!(pub static KNOWN_SKIPPED: Cell<u64> = const { Cell::new(0) });
thread_local!(pub static UNREADABLE: Cell<u64> = const { Cell::new(0) });

fn unreadable() {
    UNREADABLE.with(|u| u.set(u.get() + 1));
}

fn show_grammar(g: &Grammar<V, T>) -> String {
    format!("{:?}", g)
}

fn check_rules(g: &G, text: &str) -> Option<Result<(), String>> {
    let v = Val::parse(text)?;
    let start = read_var(v.field("start_variable")?)?;
    let mut got = BTreeSet::new();
    let mut n = 0;
    for (h, bodies) in v.field("rules")?.map()? {
        for (b, _) in bodies.as_ref()?.map()? {
            got.insert((read_var(h)?, b.list()?.iter().map(read_sym).collect::<Option<Vec<_>>>()?));
            n += 1;
        }
    }
    Some((|| {
        if start != g.start {
            return Err(format!("the start variable is V{}, expected V{}", start, g.start));
        }
        let want: BTreeSet<_> = g.rules.iter().cloned().collect();
        if n != got.len() || got != want {
            return Err(format!("the rules are {:?}, expected {:?}", got, want));
        }
        Ok(())
    })())
}

type Parsed = Result<Result<String, ()>, String>;

fn parse_real(slr: &Slr<V, T>, text: &str, nt: u16) -> Parsed {
    guard(|| {
        let mut b = Lexer::<T>::builder();
        for id in 0..nt {
            b = b.with_token_map(&format!("{}[0-9]*", id_char(id)), tok).expect("pattern");
        }
        slr.parse(b.tokenize(text)).map(|cst| format!("{:?}", cst))
    })
}

pub fn check(pid: &str, ops: &[Op], texts: &[String], style: u8) -> Result<(), String> {
    HASH_MODE.with(|m| m.set(style % 3));
    let no_skip = std::env::var_os("HARNESS_NO_SKIP").is_some();
    let oracle = oracle_grammar(ops);
    let real = build_real(ops, style);
    if pid == "P01" {
        match (&oracle, &real) {
            (None, Ok(_)) => return Err("building an incomplete grammar does not panic".into()),
            (Some(_), Err(p)) => return Err(format!("building a complete grammar panics: {}", p)),
            (None, Err(_)) => return Ok(()),
            (Some(g), Ok(r)) => match check_rules(g, &show_grammar(r)) {
                Some(x) => x?,
                None => unreadable(),
            },
        }
    }
    let Some(g) = oracle else { return Ok(()) };
    let Ok(real) = real else {
        return Err("building a complete grammar panics".into());
    };
    if pid == "P03" {
        let text = guard(|| format!("{:?}", Cfsm::from_grammar(real))).map_err(|p| format!("panic: {}", p))?;
        match check_cfsm(&g, &text) {
            Some(x) => x?,
            None => unreadable(),
        }
        return Ok(());
    }
    let s = sets(&g);
    let a = lr0(&g);
    let acts = actions(&g, &s, &a);
    let conflict = has_conflict(&acts);
    let slr = guard(|| Slr::new(real));
    match (&slr, conflict) {
        (Ok(_), true) if pid == "P04" => return Err("the grammar has a conflict, but a parser is made from it".into()),
        (Err(p), false) => return Err(format!("the grammar has no conflict, but the parser constructor panics: {}", p)),
        (_, true) => return Ok(()),
        _ => (),
    }
    let Ok(slr) = slr else { return Ok(()) };
    if pid == "P02" {
        let text = guard(|| format!("{:?}", slr)).map_err(|p| format!("panic: {}", p))?;
        match check_reductions(&g, &text) {
            Some(x) => x?,
            None => unreadable(),
        }
    }
    if matches!(pid, "P04") {
        return Ok(());
    }
    let nt = nterms(&g);
    for text in texts {
        let (tokens, whole) = oracle_tokens(text, nt);
        let ids: Vec<u16> = tokens.iter().map(|t| t.0).collect();
        if !no_skip && diverges(&g, &a, &acts, &ids) {
            KNOWN_SKIPPED.with(|u| u.set(u.get() + 1));
            continue;
        }
        let r = parse_real(&slr, text, nt).map_err(|p| format!("parsing {:?} panics: {}", text, p))?;
        if pid == "P08" {
            if !whole && r.is_ok() {
                return Err(format!("{:?} has a part that is not a token, but it is accepted", text));
            }
        } else if !whole {
            continue;
        }
        match pid {
            "P01" | "P02" | "P06" | "P07" | "P08" => {
                // without conflicts the textbook driver accepts exactly the sentences
                let is_sentence = if ids.len() <= 90 { derives(&g, &ids) } else { drive(&g, &a, &acts, &ids) == Some(true) };
                let want = whole && is_sentence;
                if want != r.is_ok() {
                    return Err(format!("{:?} {} a sentence, but parse returned {}", text, if want { "is" } else { "is not" }, if r.is_ok() { "Ok" } else { "Err" }));
                }
            }
            _ => (),
        }
        if let (Ok(tree), "P05" | "P07" | "P08") = (&r, pid) {
            match Val::parse(tree).and_then(|v| read_tree(v.field("root")?)) {
                None => unreadable(),
                Some(tree) => {
                    let mut l = Vec::new();
                    leaves(&tree, &mut l);
                    let same = if pid == "P05" { l.iter().map(|x| x.0).eq(ids.iter().copied()) } else { l == tokens };
                    if !same {
                        return Err(format!("the leaves of the tree for {:?} are {:?}", text, l));
                    }
                    if pid == "P05" {
                        match tree {
                            Tree::Node(v, _) if v == g.start => (),
                            _ => return Err(format!("the root of the tree for {:?} is not the start variable", text)),
                        }
                        check_tree(&g, &tree)?;
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------ generation

/// "S: A b | ; A: a" - upper case variables, lower case terminals, ~ the empty symbol
pub fn read_grammar(s: &str) -> Vec<Op> {
    let mut names: Vec<char> = Vec::new();
    let mut var = |c: char| {
        let i = names.iter().position(|x| *x == c).unwrap_or_else(|| {
            names.push(c);
            names.len() - 1
        });
        i as u16
    };
    let mut ops = Vec::new();
    for (k, rule) in s.split(';').enumerate() {
        let (h, bodies) = rule.split_once(':').unwrap();
        let h = var(h.trim().chars().next().unwrap());
        if k == 0 {
            ops.push(Op::Start(h));
        }
        let bodies = bodies
            .split('|')
            .map(|b| {
                b.chars()
                    .filter(|c| !c.is_whitespace())
                    .map(|c| match c {
                        '~' => S::E,
                        c if c.is_ascii_uppercase() => S::V(var(c)),
                        c => S::T(c as u16 - b'a' as u16, 0),
                    })
                    .collect()
            })
            .collect();
        ops.push(Op::Rules(h, bodies));
    }
    ops
}

pub const KNOWN: &[&str] = &[
    "S: a",
    "S: ",
    "S: A; A: a",
    "S: A; A: B; B: c",
    "S: a S b | c",
    "S: a S | a",
    "S: S a | a",
    "S: S a | ",
    "S: a b | a c",
    "S: A b; A: | a",
    "S: A B; A: a | ; B: b | ",
    "S: A B C; A: a | ; B: b | ; C: c | ",
    "E: E a T | T; T: T b F | F; F: c E d | e",
    "E: T X; X: a T X | ; T: F Y; Y: b F Y | ; F: c E d | e",
    "S: a A c; A: A b b | b",
    "S: L e R | R; L: s R | i; R: L",
    "S: C C; C: c C | d",
    "S: A b | x A | z; A: S y",
    "S: S A | a; A: ",
    "S: S | a",
    "S: a B D h; B: c C; C: b C | ; D: E F; E: g | ; F: f | ",
    "S: A S | b; A: ",
    "S: x S y | ",
    "S: a S a | b",
    "S: ~ a ~ S ~ | ~ ~ b",
    "S: ~ | a ~ | ~ a S",
    "S: A; A: B A | b; B: c",
    "S: A B; A: a; B: B b",
    "S: A | B; A: a; B: a",
    "S: A a | B b; A: ; B: ",
    "S: A a | B a; A: ; B: ",
    "S: a A b | a B c; A: d; B: d",
    "S: A A; A: a A | b",
    "V: o W c | t; W: V | W s V",
    "V: o M c | l R r | t | n; M: P | ; P: Q | P k Q; Q: t i V; R: A | ; A: V | A k V",
    "S: i E t S | x; E: e",
    "S: i E t S | i E t S l S | x; E: e",
    "S: A B c; A: B a | ; B: A b | d",
    "S: X Y Z q; X: Y | ; Y: Z | y; Z: X z | ",
    "P: D P | ; D: v i s | f i l A r B; A: i | A k i | ; B: o P c",
    "S: A x; A: B; B: C; C: D; D: A y | z",
    "S: A B; A: a A | ; B: b B | ",
    "S: B a | b; B: C; C: c | C c",
    "A: a | b B; B: A c | d",
    "S: a X | b X; X: c Y | d Y; Y: e Z | f Z; Z: g | h",
];

fn one(ops: Vec<Op>, texts: Vec<String>, style: u8) -> Case {
    Case::Gram { ops, texts, style }
}

fn seqs(nt: u16, n: usize) -> Vec<Vec<u16>> {
    let mut all: Vec<Vec<u16>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        let mut next = Vec::new();
        for w in &last {
            for id in 0..nt {
                let mut w = w.clone();
                w.push(id);
                next.push(w);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

fn texts_for(r: &mut Rng, pid: &str, g: &G, all_len: usize, samples: usize) -> Vec<String> {
    if matches!(pid, "P03" | "P04") {
        return vec![];
    }
    let nt = nterms(g);
    let mut out = Vec::new();
    let mut n = all_len;
    while n > 1 && (nt as usize).pow(n as u32) > 400 {
        n -= 1;
    }
    for w in seqs(nt.min(20), n) {
        out.push(text_of(&w, w.len() % 2 == 1));
    }
    for k in 0..samples {
        let Some(mut w) = sentence(r, g, 3 + 4 * k) else { break };
        if w.len() > 60 {
            continue;
        }
        let vals = r.chance(1, 2);
        out.push(text_of(&w, vals));
        // damage it
        match r.below(4) {
            0 if !w.is_empty() => {
                let i = r.below(w.len());
                w.remove(i);
            }
            1 if !w.is_empty() => {
                let i = r.below(w.len());
                w[i] = r.below(nt as usize) as u16;
            }
            2 => {
                w.truncate(r.below(w.len() + 1));
            }
            _ => {
                let i = r.below(w.len() + 1);
                w.insert(i, r.below(nt as usize) as u16);
            }
        }
        out.push(text_of(&w, vals));
    }
    if pid == "P08" {
        let mut bad = Vec::new();
        for t in &out {
            let mut c: Vec<char> = t.chars().collect();
            let i = *r.pick(&[0, c.len() / 2, c.len()]);
            c.insert(i, *r.pick(&['!', ' ', 'é', '\n', 'A', '\u{10ffff}']));
            bad.push(c.into_iter().collect());
        }
        out.extend(bad);
    }
    out
}

fn random_ops(r: &mut Rng, with_errors: bool) -> Vec<Op> {
    let nv = r.range(1, 5);
    let nt = r.range(1, 4);
    let max_len = r.range(1, 5);
    let guarded = r.chance(1, 2);
    // how often the empty string is written out
    let eps = [1, 1, 3, 10][r.below(4)];
    let nullable = r.range(2, 6);
    let mut ops = Vec::new();
    if !(with_errors && r.chance(1, 6)) {
        let n = nv + usize::from(with_errors && r.chance(1, 8));
        ops.push(Op::Start(r.below(n) as u16));
    }
    let mut fresh = 0;
    for v in 0..nv {
        if with_errors && r.chance(1, 10) {
            continue;
        }
        let k = r.range(1, 3);
        let mut bodies: Vec<Vec<S>> = (0..k)
            .map(|_| {
                let len = if r.chance(1, nullable) { 0 } else { r.range(1, max_len) };
                let mut b: Vec<S> = (0..len)
                    .map(|_| match r.below(10) {
                        _ if r.chance(eps, 30) => S::E,
                        0..=4 => {
                            let n = nv + usize::from(with_errors && r.chance(1, 15));
                            S::V(r.below(n) as u16)
                        }
                        _ => S::T(r.below(nt) as u16, 0),
                    })
                    .collect();
                if guarded && r.chance(3, 4) {
                    // starts with a terminal used nowhere else: tends to be conflict free
                    fresh += 1;
                    b.insert(0, S::T((nt + fresh) as u16, 0));
                }
                b
            })
            .collect();
        if with_errors && r.chance(1, 4) {
            let d = bodies[0].clone();
            bodies.push(d);
        }
        if r.chance(1, 2) {
            ops.push(Op::Rules(v as u16, bodies));
        } else {
            for b in bodies {
                ops.push(Op::Rule(v as u16, b));
            }
        }
    }
    if with_errors || r.chance(1, 3) {
        // any order
        for i in (1..ops.len()).rev() {
            let j = r.below(i + 1);
            ops.swap(i, j);
        }
        if r.chance(1, 5) {
            ops.push(Op::Start(r.below(nv) as u16));
        }
        if r.chance(1, 8) {
            ops.push(Op::Rules(0, vec![]));
        }
    }
    ops
}

/// write the empty string between symbols of the bodies
fn spelled(r: &mut Rng, mut ops: Vec<Op>) -> Vec<Op> {
    let mut f = |b: &mut Vec<S>| {
        let mut i = 0;
        while i <= b.len() {
            if r.chance(1, 3) {
                b.insert(i, S::E);
                i += 1;
            }
            i += 1;
        }
    };
    for op in &mut ops {
        match op {
            Op::Rule(_, b) => f(b),
            Op::Rules(_, bs) => bs.iter_mut().for_each(&mut f),
            _ => (),
        }
    }
    ops
}

/// change the payload of the terminals, the same way for equal ones
fn with_payload(ops: &mut [Op], salt: u32) {
    let f = |b: &mut Vec<S>| {
        for s in b {
            if let S::T(id, v) = s {
                *v = 1000 + salt.wrapping_mul(*id as u32 + 1) % 977;
            }
        }
    };
    for op in ops {
        match op {
            Op::Rule(_, b) => f(b),
            Op::Rules(_, bs) => bs.iter_mut().for_each(f),
            _ => (),
        }
    }
}

pub fn generate(pid: &str, ctx: &mut Ctx) {
    let salted = |ctx: &mut Ctx, mut ops: Vec<Op>| {
        if pid == "P07" || ctx.rng.chance(1, 4) {
            let s = ctx.rng.next() as u32 | 1;
            with_payload(&mut ops, s);
        }
        ops
    };
    for k in KNOWN {
        for style in [0u8, 5, 127] {
            let ops = salted(ctx, read_grammar(k));
            let g = oracle_grammar(&ops).expect("known grammar");
            let texts = texts_for(&mut ctx.rng, pid, &g, 4, 6);
            ctx.run(one(ops, texts, style));
        }
    }
    large(pid, ctx);
    if pid != "P01" {
        // the same grammars with the empty string written out here and there
        for k in KNOWN.iter().chain(KNOWN) {
            let ops = spelled(&mut ctx.rng, read_grammar(k));
            let ops = salted(ctx, ops);
            let g = oracle_grammar(&ops).expect("known grammar");
            let texts = texts_for(&mut ctx.rng, pid, &g, 3, 4);
            let style = ctx.rng.next() as u8;
            ctx.run(one(ops, texts, style));
        }
    }
    if pid == "P01" {
        while !ctx.over() {
            let ops = random_ops(&mut ctx.rng, true);
            let texts = match oracle_grammar(&ops) {
                Some(g) => texts_for(&mut ctx.rng, pid, &g, 2, 2),
                None => vec![],
            };
            let style = ctx.rng.next() as u8;
            ctx.run(one(ops, texts, style));
        }
        return;
    }
    // all grammars with two variables and two short bodies each, in a seeded order
    let bodies: Vec<Vec<S>> = {
        let syms = [S::V(0), S::V(1), S::T(0, 0), S::T(1, 0)];
        let mut v: Vec<Vec<S>> = vec![vec![]];
        v.extend(syms.iter().map(|s| vec![*s]));
        for a in syms {
            for b in syms {
                v.push(vec![a, b]);
            }
        }
        v
    };
    let nb = bodies.len();
    let total = nb * nb * nb * nb;
    let start = ctx.rng.below(total);
    let mut k = 0;
    while k < total && !ctx.slice_over(50) {
        let mut x = (start + k * 7919) % total;
        k += 1;
        let mut pick = || {
            let b = bodies[x % nb].clone();
            x /= nb;
            b
        };
        let ops = vec![Op::Start(0), Op::Rules(0, vec![pick(), pick()]), Op::Rules(1, vec![pick(), pick()])];
        let g = oracle_grammar(&ops).unwrap();
        if !matches!(pid, "P03" | "P04") && has_conflict(&actions(&g, &sets(&g), &lr0(&g))) {
            continue;
        }
        let texts = texts_for(&mut ctx.rng, pid, &g, 4, 3);
        ctx.run(one(ops, texts, (k % 128) as u8));
    }
    while !ctx.over() {
        let ops = random_ops(&mut ctx.rng, false);
        let Some(g) = oracle_grammar(&ops) else { continue };
        if !matches!(pid, "P03" | "P04") && has_conflict(&actions(&g, &sets(&g), &lr0(&g))) {
            continue;
        }
        let ops = salted(ctx, ops);
        let texts = texts_for(&mut ctx.rng, pid, &g, 3, 6);
        let style = ctx.rng.next() as u8;
        ctx.run(one(ops, texts, style));
    }
}

/// grammars beyond small sizes: long bodies, many variables, terminals, states
fn large(pid: &str, ctx: &mut Ctx) {
    let mut cases: Vec<Vec<Op>> = Vec::new();
    for n in [10usize, 33, 70, 130, 260, 300] {
        // one long body
        cases.push(vec![Op::Start(0), Op::Rule(0, (0..n).map(|i| S::T((i % 20) as u16, 0)).collect())]);
        // a chain of variables
        let mut c = vec![Op::Start(0)];
        for i in 0..n {
            c.push(Op::Rule(i as u16, vec![S::V(i as u16 + 1)]));
        }
        c.push(Op::Rules(n as u16, vec![vec![S::T(0, 0)], vec![]]));
        cases.push(c);
        // many alternatives
        let n = n.min(60);
        cases.push(vec![Op::Start(0), Op::Rules(0, (0..n).map(|i| vec![S::T(i as u16, 0), S::V(0)]).chain([vec![]]).collect())]);
        // a sequence of optional parts
        if n <= 33 {
            let mut c = vec![Op::Start(0), Op::Rule(0, (1..=n).map(|i| S::V(i as u16)).collect())];
            for i in 1..=n {
                c.push(Op::Rules(i as u16, vec![vec![S::T(i as u16, 0)], vec![]]));
            }
            cases.push(c);
        }
        // parts that are always empty, side by side
        if n <= 70 {
            let v = S::V(1);
            let t = |i| S::T(i, 0);
            let mut c = vec![Op::Start(0), Op::Rule(0, vec![t(0), v, v, t(1), S::V(n as u16 + 1), v, v, v, t(2), v, v])];
            c.push(Op::Rule(n as u16 + 1, vec![t(3)]));
            for i in 1..n as u16 {
                c.push(Op::Rule(i, vec![S::V(i + 1)]));
            }
            c.push(Op::Rule(n as u16, vec![]));
            cases.push(c);
        }
        // many heads that read the same symbol
        if n <= 70 {
            let heads = 1..=n as u16;
            let mut c = vec![Op::Start(0), Op::Rules(0, heads.clone().map(|i| vec![S::V(i), S::T(i, 0)]).collect())];
            c.extend(heads.map(|i| Op::Rule(i, vec![S::T(0, 0), S::T(i, 0)])));
            cases.push(c);
        }
        // operators of n levels
        if n <= 70 {
            let mut c = vec![Op::Start(0)];
            for i in 0..n as u16 {
                c.push(Op::Rules(i, vec![vec![S::V(i), S::T(i, 0), S::V(i + 1)], vec![S::V(i + 1)]]));
            }
            c.push(Op::Rules(n as u16, vec![vec![S::T(n as u16, 0), S::V(0), S::T(n as u16 + 1, 0)], vec![S::T(n as u16 + 2, 0)]]));
            cases.push(c);
        }
        // layers of diamonds
        if n <= 70 {
            let mut c = vec![Op::Start(0)];
            for i in 0..n {
                c.push(Op::Rules(i as u16, vec![vec![S::T(0, 0), S::V(i as u16 + 1)], vec![S::T(1, 0), S::V(i as u16 + 1)]]));
            }
            c.push(Op::Rule(n as u16, vec![S::T(2, 0)]));
            cases.push(c);
        }
    }
    for ops in cases {
        let g = oracle_grammar(&ops).unwrap();
        let mut texts = Vec::new();
        if !matches!(pid, "P03" | "P04") {
            for b in [2usize, 10] {
                if let Some(mut w) = sentence(&mut ctx.rng, &g, b) {
                    if w.len() <= 80 {
                        texts.push(text_of(&w, true));
                        if w.pop().is_some() {
                            texts.push(text_of(&w, true));
                        }
                    }
                }
            }
        }
        ctx.run(one(ops, texts, 0));
    }
    // many terminals in a set, a long body with everything in it
    for n in [150u16, 300] {
        let follow = vec![Op::Start(0), Op::Rules(0, (0..n).map(|i| vec![S::V(1), S::T(i, 0)]).collect()), Op::Rule(1, vec![S::T(n, 0)])];
        let texts = [0, 1, n / 2, n - 1].iter().map(|i| text_of(&[n, *i], true)).chain([text_of(&[n], true)]).collect();
        ctx.run(one(follow, if matches!(pid, "P03" | "P04") { vec![] } else { texts }, 0));
    }
    // long inputs
    if matches!(pid, "P03" | "P04") {
        return;
    }
    for n in [20usize, 60, 300, 1500, 7000] {
        let long = |items: &[(&str, usize)]| items.iter().map(|(s, n)| s.repeat(*n)).collect::<String>();
        let mut cases = vec![
            (
                "E: E a T | T; T: T b F | F; F: c E d | e",
                vec![
                    long(&[("c", n), ("e", 1), ("d", n)]),
                    long(&[("c", n), ("e", 1), ("d", n - 1)]),
                    long(&[("c", n), ("e", 1), ("d", n + 1)]),
                    long(&[("eb", n), ("e", 1)]),
                    long(&[("eaeb", n)]),
                    long(&[("cea", n), ("e", 1), ("d", n)]),
                ],
            ),
            ("S: a S | b", vec![long(&[("a", n), ("b", 1)]), long(&[("a", n)]), long(&[("a", n), ("bb", 1)])]),
            ("S: S a | b", vec![long(&[("b", 1), ("a", n)]), long(&[("a", n)]), long(&[("b", 1), ("a", n), ("b", 1)])]),
            ("S: a S B | b; B: ", vec![long(&[("a", n), ("b", 1)]), long(&[("a", n), ("bb", 1)])]),
            ("S: A S | b; A: a", vec![long(&[("a", n), ("b", 1)]), long(&[("a", n), ("ba", 1)])]),
        ];
        if n > 1500 && !ctx.thorough {
            cases.truncate(2);
        }
        for (g, texts) in cases {
            let mut c = read_grammar(g);
            if pid == "P07" {
                with_payload(&mut c, 5);
            }
            for t in texts {
                // the values of the tokens count
                let w: Vec<u16> = t.chars().map(char_id).collect();
                ctx.run(one(c.clone(), vec![text_of(&w, true)], 0));
            }
        }
    }
}

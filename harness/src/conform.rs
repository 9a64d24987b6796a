//! The contracts the units take the standard library to have, tried on the
//! standard library itself: on every character where they are about characters,
//! on random operations where they are about collections. A contract is written
//! here as a comparison with a plain list.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

macro_rules! hold {
    ($n:ident, $($t:tt)*) => {{
        $n += 1;
        if !($($t)*) {
            return Err(format!("conform.rs:{}: {}", line!(), stringify!($($t)*)));
        }
    }};
}

/// units/chars.vx
fn chars() -> Result<usize, String> {
    let mut n = 0;
    let digit = |c: char| '0' <= c && c <= '9';
    let lower = |c: char| 'a' <= c && c <= 'z';
    let upper = |c: char| 'A' <= c && c <= 'Z';
    for x in (0..=0x0011_ffffu32).chain([u32::MAX - 1, u32::MAX, 1 << 31]) {
        let scalar = x < 0xd800 || (0xe000 <= x && x <= 0x10ffff);
        hold!(n, char::from_u32(x).is_some() == scalar);
        let Some(c) = char::from_u32(x) else { continue };
        hold!(n, c as u32 == x);
        hold!(n, c.is_ascii() == (x < 128));
        hold!(n, c.is_ascii_digit() == digit(c));
        hold!(n, c.is_ascii_lowercase() == lower(c));
        hold!(n, c.is_ascii_uppercase() == upper(c));
        hold!(n, c.is_ascii_alphabetic() == (lower(c) || upper(c)));
        hold!(n, c.is_ascii_alphanumeric() == (lower(c) || upper(c) || digit(c)));
        hold!(n, c.is_ascii_whitespace() == matches!(c, ' ' | '\t' | '\n' | '\x0c' | '\r'));
        hold!(n, c.is_ascii_hexdigit() == (digit(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')));
        hold!(n, c.is_alphanumeric() == (c.is_alphabetic() || c.is_numeric()));
        let value = if digit(c) { x - 48 } else if lower(c) { x - 97 + 10 } else if upper(c) { x - 65 + 10 } else { 99 };
        for radix in 2..=36 {
            hold!(n, c.to_digit(radix) == if value < radix { Some(value) } else { None });
        }
    }
    Ok(n)
}

/// `got` has every element of `want` once and nothing else.
fn lists(got: impl Iterator<Item = u8>, want: &[u8]) -> bool {
    let mut got: Vec<u8> = got.collect();
    let mut want = want.to_vec();
    got.sort();
    want.sort();
    got == want
}

/// units/maps.vx, units/eqs.vx
fn sets(r: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    let (mut h, mut t, mut l): (HashSet<u8>, BTreeSet<u8>, Vec<u8>) = Default::default();
    hold!(n, h.is_empty() && t.is_empty());
    let (mut h2, mut l2): (HashSet<u8>, Vec<u8>) = Default::default();
    for _ in 0..r.below(40) {
        let x = r.below(12) as u8;
        let new = !l.contains(&x);
        hold!(n, h.contains(&x) != new && t.contains(&x) != new);
        if r.chance(1, 2) {
            hold!(n, h.insert(x) == new && t.insert(x) == new);
        } else {
            h.extend([x]);
            t.extend([x]);
        }
        if new {
            l.push(x);
        }
        if r.chance(1, 3) {
            let y = r.below(12) as u8;
            if h2.insert(y) {
                l2.push(y);
            }
        }
        hold!(n, !h.is_empty() && !t.is_empty() && h.len() == l.len() && t.len() == l.len());
        let (mut h3, gone) = (h.clone(), r.below(12) as u8);
        let rest: Vec<u8> = l.iter().copied().filter(|y| *y != gone).collect();
        hold!(n, h3.remove(&gone) == l.contains(&gone) && lists(h3.iter().copied(), &rest));
        hold!(n, lists(h.iter().copied(), &l) && lists(h.clone().into_iter(), &l) && lists((&h).into_iter().copied(), &l));
        hold!(n, lists(t.iter().copied(), &l) && lists((&t).into_iter().copied(), &l));
        let mut sorted = l.clone();
        sorted.sort();
        hold!(n, t.iter().copied().eq(sorted.iter().copied()) && t.clone().into_iter().eq(sorted.iter().copied()));
        hold!(n, h.is_subset(&h2) == l.iter().all(|x| l2.contains(x)));
        hold!(n, (h == h2) == (l.iter().all(|x| l2.contains(x)) && l2.iter().all(|x| l.contains(x))));
    }
    Ok(n)
}

/// What is kept of equal elements: a set keeps the first one, a map its first key and the last value.
#[derive(Clone, Debug)]
struct Twin(u8, u8);
impl PartialEq for Twin {
    fn eq(&self, o: &Twin) -> bool {
        self.0 == o.0
    }
}
impl Eq for Twin {}
impl PartialOrd for Twin {
    fn partial_cmp(&self, o: &Twin) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Twin {
    fn cmp(&self, o: &Twin) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

fn twins(r: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    let (mut t, mut l): (BTreeSet<Twin>, Vec<Twin>) = Default::default();
    for i in 0..r.below(30) {
        let x = Twin(r.below(8) as u8, i as u8);
        let new = !l.contains(&x);
        hold!(n, t.insert(x.clone()) == new);
        if new {
            l.push(x);
        }
        hold!(n, t.iter().all(|x| l.iter().any(|y| y.0 == x.0 && y.1 == x.1)) && t.len() == l.len());
    }
    Ok(n)
}

/// units/maps.vx, units/eqs.vx
fn maps(r: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    let (mut h, mut t, mut l): (HashMap<u8, u8>, BTreeMap<u8, u8>, Vec<(u8, u8)>) = Default::default();
    hold!(n, h.is_empty());
    for _ in 0..r.below(40) {
        let (k, v) = (r.below(10) as u8, r.below(5) as u8);
        let old = l.iter().find(|e| e.0 == k).map(|e| e.1);
        hold!(n, h.contains_key(&k) == old.is_some() && t.contains_key(&k) == old.is_some());
        hold!(n, h.get(&k).copied() == old && t.get(&k).copied() == old);
        hold!(n, h.get_key_value(&k) == old.as_ref().map(|_| &k).zip(old.as_ref()));
        let before = (h.clone(), t.clone());
        let put = |l: &mut Vec<(u8, u8)>, v| {
            l.retain(|e| e.0 != k);
            l.push((k, v));
        };
        match r.below(6) {
            0 => {
                hold!(n, h.insert(k, v) == old && t.insert(k, v) == old);
                put(&mut l, v);
            }
            1 => {
                let (a, b) = (h.get_mut(&k), t.get_mut(&k));
                hold!(n, a.is_some() == old.is_some() && b.is_some() == old.is_some());
                if let (Some(a), Some(b)) = (a, b) {
                    hold!(n, Some(*a) == old && Some(*b) == old);
                    *a = v;
                    *b = v;
                    put(&mut l, v);
                } else {
                    hold!(n, before == (h.clone(), t.clone()));
                }
            }
            2 => {
                let d = r.below(5) as u8;
                let (a, b) = (h.entry(k).or_insert(d), t.entry(k).or_insert(d));
                hold!(n, *a == old.unwrap_or(d) && *b == *a);
                *a = v;
                *b = v;
                put(&mut l, v);
            }
            3 => {
                let (a, b) = (h.entry(k).or_default(), t.entry(k).or_default());
                hold!(n, *a == old.unwrap_or(0) && *b == *a);
                *a = v;
                *b = v;
                put(&mut l, v);
            }
            4 => {
                hold!(n, h.remove(&k) == old);
                t.remove(&k);
                l.retain(|e| e.0 != k);
            }
            _ => {
                h.extend([(k, v)]);
                t.insert(k, v);
                put(&mut l, v);
            }
        }
        let mut pairs = l.clone();
        pairs.sort();
        let sorted = |mut v: Vec<(u8, u8)>| {
            v.sort();
            v
        };
        hold!(n, sorted(h.iter().map(|(k, v)| (*k, *v)).collect()) == pairs);
        hold!(n, h.len() == pairs.len());
        hold!(n, sorted(h.clone().into_iter().collect()) == pairs);
        hold!(n, lists(h.keys().copied(), &l.iter().map(|e| e.0).collect::<Vec<_>>()));
        hold!(n, lists(h.values().copied(), &l.iter().map(|e| e.1).collect::<Vec<_>>()));
        hold!(n, h.is_empty() == l.is_empty());
        hold!(n, (h == before.0) == (sorted(before.0.clone().into_iter().collect()) == pairs));
        hold!(n, l.iter().all(|e| t.get(&e.0) == Some(&e.1)));
    }
    Ok(n)
}

/// units/maps.vx, units/iter.vx, units/input.vx, units/slr.vx, units/table.vx, units/mem.vx
fn lines(r: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    let (mut d, mut l): (VecDeque<u8>, Vec<u8>) = Default::default();
    for _ in 0..r.below(40) {
        let x = r.below(9) as u8;
        match r.below(5) {
            0 => {
                d.push_back(x);
                l.push(x);
            }
            1 => {
                d.push_front(x);
                l.insert(0, x);
            }
            2 => hold!(n, d.pop_front() == if l.is_empty() { None } else { Some(l.remove(0)) }),
            3 => hold!(n, d.pop_back() == l.pop()),
            _ => {
                d.extend([x]);
                l.push(x);
            }
        }
        hold!(n, d.is_empty() == l.is_empty() && d.iter().eq(l.iter()) && d.len() == l.len());
        let k = r.below(l.len() + 3);
        hold!(n, d.get(k) == l.get(k) && d.front() == l.first() && d.back() == l.last());
        let min = k.min(l.len());
        hold!(n, l.iter().skip(k).eq(l[min..].iter()) && l.iter().take(k).eq(l[..min].iter()));
        hold!(n, l.iter().rev().copied().collect::<Vec<_>>() == (0..l.len()).map(|i| l[l.len() - 1 - i]).collect::<Vec<_>>());
        hold!(n, l.iter().chain([&x]).copied().collect::<Vec<_>>() == [&l[..], &[x]].concat());
        hold!(n, std::iter::once(x).collect::<Vec<_>>() == [x] && std::iter::empty::<u8>().next().is_none());
        hold!(n, l.get(k) == if k < l.len() { Some(&l[k]) } else { None });
        hold!(n, l.last() == if l.is_empty() { None } else { Some(&l[l.len() - 1]) });
        let mut v = l.clone();
        let tail: Vec<u8> = v.drain(min..).collect();
        hold!(n, tail == l[min..] && v == l[..min]);
        let mut v = l.clone();
        v.resize(l.len().max(k), 0);
        hold!(n, v.len() == l.len().max(k) && v[..l.len()] == l[..] && v[l.len()..].iter().all(|x| *x == 0));
        let mut it = l.clone().into_iter();
        for i in 0..min {
            hold!(n, it.next() == Some(l[i]));
        }
        hold!(n, it.as_slice() == &l[min..] && it.as_slice().is_empty() == (min == l.len()));
        let rest: Vec<u8> = it.by_ref().collect();
        hold!(n, rest == l[min..] && it.next().is_none() && it.as_slice().is_empty());
        hold!(n, std::vec::IntoIter::<u8>::default().next().is_none());
        let mut v = l.clone();
        hold!(n, std::mem::take(&mut v) == l && v.is_empty());
        hold!(n, std::mem::replace(&mut v, vec![x]).is_empty() && v == [x]);
        let mut p = l.iter().peekable();
        for i in 0..min {
            hold!(n, p.peek() == Some(&&l[i]) && p.next() == Some(&l[i]));
        }
        hold!(n, p.peek().copied() == l.get(min));
    }
    Ok(n)
}

/// units/strings.vx, units/input.vx, units/peek.vx
fn strings(r: &mut Rng) -> Result<usize, String> {
    let mut n = 0;
    let (mut s, mut l) = (String::with_capacity(r.below(9)), Vec::<char>::new());
    hold!(n, s.is_empty() && String::new().is_empty());
    for _ in 0..r.below(30) {
        let c = *r.pick(&['a', '\0', '\n', 'é', 'ß', '€', '\u{ffff}', '😀', '\u{10ffff}']);
        match r.below(8) {
            0 => {
                let other: String = l.iter().rev().collect();
                l.extend(other.chars());
                s.push_str(&other);
            }
            1 => {
                s.clear();
                l.clear();
            }
            2 => {
                s.extend([c]);
                l.push(c);
            }
            _ => {
                s.push(c);
                l.push(c);
            }
        }
        hold!(n, s.chars().eq(l.iter().copied()) && s.is_empty() == l.is_empty());
        hold!(n, s.chars().enumerate().eq((0..l.len()).map(|i| (i, l[i]))));
        hold!(n, s.chars().collect::<String>() == s && s.clone() == s);
        let mut it = s.chars().enumerate();
        it.nth(r.below(l.len() + 2));
        let copy = it.clone();
        hold!(n, copy.eq(it));
    }
    Ok(n)
}

/// Tries all of them, the number of comparisons made.
pub fn conform(seed: u64) -> Result<usize, String> {
    let mut n = chars()?;
    let mut r = Rng(seed ^ 0x5eed);
    for _ in 0..300 {
        n += sets(&mut r)? + twins(&mut r)? + maps(&mut r)? + lines(&mut r)? + strings(&mut r)?;
    }
    Ok(n)
}

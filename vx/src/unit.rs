//! Unit files: lines that start with `//@` are directives, the rest is the text
//! that belongs to the directive before.
use std::{collections::BTreeMap, fs};

pub struct Unit {
    /// Text outside of the module with the extracted functions.
    pub library: String,
    pub entries: Vec<Entry>,
    /// Path segments to rename.
    pub map: BTreeMap<String, String>,
    /// Bounds of type parameters.
    pub bounds: BTreeMap<String, String>,
    /// Methods and functions that return an iterator.
    pub iterfns: Vec<String>,
    /// Local variables that hold a callable value.
    pub callables: Vec<String>,
    /// Token rewrites for all functions.
    pub rewrites: Vec<(String, String)>,
    /// What `map`, `bound`, `rewrite-all` and `rename` say for some files only.
    scoped: Vec<Scoped>,
    /// Names to change.
    pub renames: Vec<(String, String)>,
    /// Files read so far.
    seen: Vec<String>,
    /// The functions being read are proved in another unit.
    proved: bool,
}

struct Scoped {
    prefixes: Vec<String>,
    word: String,
    from: String,
    to: String,
}

pub enum Entry {
    Text(String),
    Item { file: String, name: String, extra: String },
    Fn(FnSpec),
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub rename: Option<String>,
    pub ret: String,
    /// Panics end the function instead of being obligations.
    pub panics: bool,
    /// The contract is proved in another unit and assumed in this one.
    pub assumed: bool,
    pub contract: String,
    pub sig: Option<String>,
    pub attrs: String,
    pub nloops: Option<usize>,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, (String, String)>,
    pub ats: Vec<(String, String)>,
    pub collects: BTreeMap<usize, String>,
    pub rewrites: Vec<(String, String)>,
}

impl FnSpec {
    pub fn key(&self) -> String {
        match &self.rename {
            Some(n) => format!("{} ({n})", self.path),
            None => self.path.clone(),
        }
    }
}

enum Cur {
    None,
    Library,
    Text,
    Contract,
    Loop(usize),
    Closure(usize),
    At(usize),
}

impl Unit {
    pub fn load(dir: &str, name: &str) -> Result<Unit, String> {
        let mut u = Unit { library: String::new(), entries: vec![], map: BTreeMap::new(), bounds: BTreeMap::new(), iterfns: vec![], callables: vec![], rewrites: vec![], scoped: vec![], renames: vec![], seen: vec![], proved: false };
        u.read(dir, &format!("{name}.vx"))?;
        Ok(u)
    }

    /// The unit as it is for one file.
    pub fn for_file(&self, file: &str) -> Unit {
        let mut u = Unit {
            library: String::new(),
            entries: vec![],
            map: self.map.clone(),
            bounds: self.bounds.clone(),
            iterfns: self.iterfns.clone(),
            callables: self.callables.clone(),
            rewrites: self.rewrites.clone(),
            scoped: vec![],
            renames: self.renames.clone(),
            seen: vec![],
            proved: self.proved,
        };
        for s in self.scoped.iter().filter(|s| s.prefixes.iter().any(|p| file.starts_with(p.as_str()))) {
            u.set(&s.word, &s.from, &s.to);
        }
        u
    }

    fn set(&mut self, word: &str, from: &str, to: &str) {
        match word {
            "map" => drop(self.map.insert(from.into(), to.into())),
            "bound" => drop(self.bounds.insert(from.into(), to.into())),
            "rewrite-all" => self.rewrites.push((from.into(), to.into())),
            _ => self.renames.push((from.into(), to.into())),
        }
    }

    fn read(&mut self, dir: &str, file: &str) -> Result<(), String> {
        if self.seen.iter().any(|f| f == file) {
            return Ok(());
        }
        self.seen.push(file.to_string());
        let mut text = fs::read_to_string(format!("{dir}/{file}")).map_err(|e| format!("{file}: {e}"))?;
        while let Some(i) = text.find("//@ paste ") {
            let end = text[i..].find('\n').map_or(text.len(), |n| i + n + 1);
            let from = text[i + "//@ paste ".len()..end].trim().to_string();
            let other = fs::read_to_string(format!("{dir}/{from}")).map_err(|e| format!("{from}: {e}"))?;
            text.replace_range(i..end, &other);
        }
        let mut src = String::new();
        let mut scope: Vec<String> = vec![];
        let mut cur = Cur::None;
        for (no, line) in text.lines().enumerate() {
            let bad = |m: &str| format!("{file}:{}: {m}", no + 1);
            let Some(d) = line.trim_start().strip_prefix("//@") else {
                let add = format!("{line}\n");
                match &cur {
                    Cur::None => {
                        if !line.trim().is_empty() && !line.trim_start().starts_with("//") {
                            return Err(bad("text outside of a directive"));
                        }
                    }
                    Cur::Library => self.library.push_str(&add),
                    Cur::Text => match self.entries.last_mut() {
                        Some(Entry::Text(t)) => t.push_str(&add),
                        _ => unreachable!(),
                    },
                    _ => {
                        let Some(Entry::Fn(f)) = self.entries.last_mut() else { unreachable!() };
                        match &cur {
                            Cur::Contract => f.contract.push_str(&add),
                            Cur::Loop(n) => f.loops.get_mut(n).unwrap().push_str(&add),
                            Cur::Closure(n) => f.closures.get_mut(n).unwrap().1.push_str(&add),
                            Cur::At(n) => f.ats[*n].1.push_str(&add),
                            _ => unreachable!(),
                        }
                    }
                }
                continue;
            };
            let d = d.trim();
            let (word, arg) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let arg = arg.trim();
            match word {
                "" | "#" => (),
                "include" => {
                    self.read(dir, arg)?;
                    cur = Cur::None;
                }
                "include-proved" => {
                    let proved = std::mem::replace(&mut self.proved, true);
                    self.read(dir, arg)?;
                    self.proved = proved;
                    cur = Cur::None;
                }
                "library" => cur = Cur::Library,
                "prelude" => {
                    self.entries.push(Entry::Text(String::new()));
                    cur = Cur::Text;
                }
                "file" => {
                    src = arg.to_string();
                    cur = Cur::None;
                }
                "scope" => scope = arg.split_whitespace().map(String::from).collect(),
                "map" | "bound" | "rewrite-all" | "rename" => {
                    let by = match word {
                        "bound" => ":",
                        "rewrite-all" => "=>>",
                        _ => "=>",
                    };
                    let (a, b) = arg.split_once(by).ok_or_else(|| bad(&format!("{word} A {by} B")))?;
                    let (from, to) = (a.trim().to_string(), b.trim().to_string());
                    match scope.is_empty() {
                        true => self.set(word, &from, &to),
                        false => self.scoped.push(Scoped { prefixes: scope.clone(), word: word.into(), from, to }),
                    }
                }
                "iterfn" => self.iterfns.extend(arg.split_whitespace().map(String::from)),
                "callable" => self.callables.extend(arg.split_whitespace().map(String::from)),
                "item" => {
                    let (name, extra) = arg.split_once(char::is_whitespace).unwrap_or((arg, ""));
                    self.entries.push(Entry::Item { file: src.clone(), name: name.into(), extra: extra.trim().into() });
                    cur = Cur::None;
                }
                w if w.starts_with("impl") || w == "end" => {
                    let t = if word == "end" { "}\n".to_string() } else { format!("{d} {{\n") };
                    self.entries.push(Entry::Text(t));
                    cur = Cur::Text;
                }
                "fn" => {
                    let mut f = FnSpec { file: src.clone(), ret: "r".into(), assumed: self.proved, ..Default::default() };
                    let mut parts: Vec<&str> = arg.split_whitespace().collect();
                    while let Some(p) = parts.last() {
                        match p.split_once('=') {
                            Some(("as", n)) => f.rename = Some(n.into()),
                            Some(("ret", n)) => f.ret = n.into(),
                            Some(("panic", "ret")) => f.panics = true,
                            Some(("loops", n)) => f.nloops = n.parse().ok(),
                            _ => break,
                        }
                        parts.pop();
                    }
                    f.path = parts.join(" ");
                    self.entries.push(Entry::Fn(f));
                    cur = Cur::Contract;
                }
                "sig" | "attr" | "loop" | "closure" | "at" | "collect" | "rewrite" => {
                    let Some(Entry::Fn(f)) = self.entries.last_mut() else { return Err(bad("no function")) };
                    match word {
                        "sig" => {
                            f.sig = Some(arg.into());
                            cur = Cur::Contract;
                        }
                        "attr" => {
                            f.attrs.push_str(arg);
                            f.attrs.push('\n');
                            cur = Cur::Contract;
                        }
                        "loop" => {
                            let n = arg.parse().map_err(|_| bad("loop N"))?;
                            f.loops.insert(n, String::new());
                            cur = Cur::Loop(n);
                        }
                        "closure" => {
                            let (n, h) = arg.split_once(char::is_whitespace).ok_or_else(|| bad("closure N |x: T| -> (r: U)"))?;
                            let n = n.parse().map_err(|_| bad("closure N"))?;
                            f.closures.insert(n, (h.trim().into(), String::new()));
                            cur = Cur::Closure(n);
                        }
                        "at" => {
                            f.ats.push((arg.into(), String::new()));
                            cur = Cur::At(f.ats.len() - 1);
                        }
                        "collect" => {
                            let (n, h) = arg.split_once(char::is_whitespace).ok_or_else(|| bad("collect N T"))?;
                            f.collects.insert(n.parse().map_err(|_| bad("collect N"))?, h.trim().into());
                        }
                        _ => {
                            let (a, b) = arg.split_once("=>>").ok_or_else(|| bad("rewrite A =>> B"))?;
                            f.rewrites.push((a.trim().into(), b.trim().into()));
                        }
                    }
                }
                _ => return Err(bad(&format!("unknown directive {word}"))),
            }
        }
        Ok(())
    }
}

//! Extracts functions from the crates' source, rewrites them by the rules in
//! `desugar.rs` and joins them with the contracts of a unit file.
//!
//! usage: vx REPO UNITS_DIR UNIT OUT.rs [vacuity]     (writes OUT.rs and OUT.rs.info)
mod desugar;
mod find;
mod unit;

use std::{collections::BTreeMap, fmt::Write as _, fs, io::Write as _, process};

fn rustfmt(text: &str) -> Result<String, String> {
    let mut child = process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=110"])
        .stdin(process::Stdio::piped())
        .stdout(process::Stdio::piped())
        .stderr(process::Stdio::piped())
        .spawn()
        .map_err(|e| format!("rustfmt: {e}"))?;
    child.stdin.take().unwrap().write_all(text.as_bytes()).map_err(|e| e.to_string())?;
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(format!("rustfmt failed on extracted text: {}\n{text}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(String::from_utf8_lossy(&out.stdout).into_owned())
}

fn indent(text: &str, by: &str) -> String {
    text.lines().map(|l| if l.trim().is_empty() { String::new() } else { format!("{by}{l}") }).collect::<Vec<_>>().join("\n")
}

/// Position just behind the closing parenthesis that belongs to the one at `open`.
fn close_paren(s: &str, open: usize) -> usize {
    let mut depth = 0;
    for (i, c) in s[open..].char_indices() {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    return open + i + 1;
                }
            }
            _ => (),
        }
    }
    s.len()
}

/// Replaces `NAME!(arg)` (with an optional `;`) by `f(arg)`.
fn replace_macro(s: &str, name: &str, f: &mut dyn FnMut(&str) -> String) -> String {
    let pat = format!("{name}!(");
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find(&pat) {
        let open = i + pat.len() - 1;
        let end = close_paren(rest, open);
        out.push_str(&rest[..i]);
        out.push_str(&f(rest[open + 1..end - 1].trim()));
        rest = rest[end..].strip_prefix(';').unwrap_or(&rest[end..]);
    }
    out.push_str(rest);
    out
}

/// Moves the text for `{ NAME!(arg);` in front of the brace.
fn replace_block_macro(s: &str, name: &str, f: &mut dyn FnMut(&str) -> String) -> String {
    let pat = format!("{name}!(");
    let mut out = s.to_string();
    while let Some(i) = out.find(&pat) {
        let open = i + pat.len() - 1;
        let end = close_paren(&out, open);
        let text = f(out[open + 1..end - 1].trim());
        let brace = out[..i].rfind('{').expect("marker outside of a block");
        let mut tail = end;
        if out[tail..].starts_with(';') {
            tail += 1;
        }
        let head = out[..brace].trim_end().to_string();
        out = format!("{head}\n{text}\n{{{}{}", &out[brace + 1..i], &out[tail..]);
    }
    out
}

/// Verus wants a single `broadcast use` per module.
fn text(t: &str, out: &mut String, broadcast: &mut Vec<String>) {
    for l in t.lines() {
        match l.strip_prefix("broadcast use ") {
            Some(b) => broadcast.push(b.trim_end_matches(';').to_string()),
            None => {
                out.push_str(l);
                out.push('\n');
            }
        }
    }
}

/// With `vacuity` every extracted function starts with an assertion that must fail.
fn emit(u: &unit::Unit, repo: &str, vacuity: bool) -> Result<(String, String), String> {
    let mut out = String::new();
    let mut info = String::new();
    let mut items = String::new();
    let mut broadcast: Vec<String> = vec![];
    let mut files: BTreeMap<String, syn::File> = BTreeMap::new();
    out.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_labels, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unused_assignments, unreachable_code, unused_must_use, unreachable_patterns)]\n#![verifier::loop_isolation(false)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\nuse vstd::std_specs::hash::*;\nverus! {\n");
    text(&u.library, &mut out, &mut broadcast);
    let head = std::mem::take(&mut out);
    for entry in &u.entries {
        match entry {
            unit::Entry::Text(t) => {
                text(t, &mut out, &mut broadcast);
                out.push('\n');
            }
            unit::Entry::Item { file, name, extra } => {
                let u = u.for_file(file);
                let f = load(&mut files, repo, file)?;
                let item = find::item(f, name).ok_or_else(|| format!("lost item {name} in {file}"))?;
                let toks = desugar::item(&u, item, extra)?;
                let text = rename(&u, &rustfmt(&toks)?);
                // the crates have types of the same name and definition
                if !items.contains(&format!("\n{text}")) {
                    items.push_str(&format!("// from {file}\n{text}"));
                }
                writeln!(info, "item\t{name}\t{file}\t{}", find::derives(item).join(" ")).unwrap();
            }
            unit::Entry::Fn(spec) => {
                let assumed;
                let spec = if spec.assumed {
                    assumed = only_contract(spec);
                    &assumed
                } else {
                    spec
                };
                let u = u.for_file(&spec.file);
                let f = load(&mut files, repo, &spec.file)?;
                let found = find::function(f, &spec.path).ok_or_else(|| format!("lost function {} in {}", spec.path, spec.file))?;
                let shape = find::shape(&found.block, &spec.ats);
                let res = desugar::function(&u, spec, found).map_err(|e| format!("{}: {e}", spec.path))?;
                let text = rename(&u, &rustfmt(&format!("impl VxTmp {{\n{}\n}}", res.text))?);
                let text = text.trim().strip_prefix("impl VxTmp {").unwrap().strip_suffix('}').unwrap();
                let key = spec.key();
                let text = if vacuity && !spec.assumed { text.replacen("vx_fn!(0);", "vx_fn!(0); vx_vacuity!(0);", 1) } else { text.to_string() };
                let text = finish(&text, spec, &res)?;
                let text = text.replace("vx_vacuity!(0);", "proof { assert(false); }");
                out.push_str(&format!("// FN {key} from {}\n{}{text}\n// END\n", spec.file, if spec.attrs.is_empty() { String::new() } else { format!("{}\n", spec.attrs) }));
                let kind = if spec.assumed { "assumed" } else { "fn" };
                writeln!(info, "{kind}\t{key}\t{}\t{}\t{shape}", spec.file, res.notes.join("; ")).unwrap();
            }
        }
    }
    if !broadcast.is_empty() {
        out.push_str(&format!("broadcast use {{{}}};\n", broadcast.join(", ")));
    }
    out.push_str("} // mod code\n");
    out.push_str("\n} // verus!\nfn main() {}\n");
    Ok((format!("{head}{items}mod code {{\nuse super::*;\n{out}"), info))
}

/// Two types of the same name in one unit.
fn rename(u: &unit::Unit, text: &str) -> String {
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut text = text.to_string();
    for (a, b) in &u.renames {
        let mut out = String::new();
        let mut rest = text.as_str();
        while let Some(i) = rest.find(a.as_str()) {
            out.push_str(&rest[..i]);
            let whole = !out.ends_with(word) && !rest[i + a.len()..].starts_with(word);
            out.push_str(if whole { b } else { a });
            rest = &rest[i + a.len()..];
        }
        out.push_str(rest);
        text = out;
    }
    text
}

/// A function of which only the contract is kept.
fn only_contract(spec: &unit::FnSpec) -> unit::FnSpec {
    let contract = match find_word(&spec.contract, "decreases") {
        Some(i) => spec.contract[..i].to_string(),
        None => spec.contract.clone(),
    };
    unit::FnSpec {
        contract,
        attrs: "#[verifier::external_body]\n".into(),
        nloops: None,
        loops: BTreeMap::new(),
        closures: BTreeMap::new(),
        ats: vec![],
        collects: BTreeMap::new(),
        ..spec.clone()
    }
}

fn finish(text: &str, spec: &unit::FnSpec, res: &desugar::Output) -> Result<String, String> {
    let mut err = None;
    let contract = spec.contract.clone();
    let ret = spec.ret.clone();
    let t = replace_macro(&text.replace("vx_ret ! (", "vx_ret!("), "vx_ret", &mut |ty| format!("({ret}: {ty})"));
    let t = replace_macro(&t, "vx_cret", &mut |ty| format!("(r: {ty})"));
    let t = replace_block_macro(&t, "vx_fn", &mut |_| indent(&contract, "        "));
    let t = replace_block_macro(&t, "vx_clos", &mut |n| {
        let c = &spec.closures[&n.parse::<usize>().unwrap()];
        indent(&c.1, "            ")
    });
    let t = replace_block_macro(&t, "vx_loop", &mut |n| {
        let n: usize = n.parse().unwrap();
        let auto = res.loops[n].clone();
        let user = match spec.loops.get(&n) {
            Some(s) => s.clone(),
            None if auto.is_empty() => {
                err = Some(format!("{}: loop {n} has no invariant", spec.path));
                String::new()
            }
            None => String::new(),
        };
        join_loop(&auto, &user)
    });
    let t = replace_macro(&t, "vx_pre", &mut |n| format!("let ghost vx_s{n} = vx_it{n}.seq();"));
    let t = replace_macro(&t, "vx_at", &mut |n| format!("\n{}", spec.ats[n.parse::<usize>().unwrap()].1));
    for n in spec.loops.keys() {
        if *n >= res.loops.len() {
            err = Some(format!("{}: lost loop {n}", spec.path));
        }
    }
    if let Some(n) = spec.nloops {
        if n != res.loops.len() {
            err = Some(format!("{}: {} loops where the contract has {n}", spec.path, res.loops.len()));
        }
    }
    match err {
        Some(e) => Err(e),
        None => Ok(t),
    }
}

/// The automatic clauses come first, in the user's `invariant` and `decreases`.
fn join_loop(auto: &str, user: &str) -> String {
    if auto.is_empty() {
        return indent(user, "            ");
    }
    let (inv, dec) = auto.split_once("@@").unwrap();
    let mut user = user.to_string();
    if let Some(i) = find_word(&user, "invariant_except_break").or_else(|| find_word(&user, "invariant")) {
        let word = if user[i..].starts_with("invariant_except_break") { "invariant_except_break" } else { "invariant" };
        user.insert_str(i + word.len(), &format!(" {inv},"));
    } else {
        user = format!("invariant {inv},\n{user}");
    }
    if find_word(&user, "decreases").is_none() {
        user.push_str(&format!("\ndecreases {dec},"));
    }
    indent(&user, "            ")
}

fn find_word(s: &str, w: &str) -> Option<usize> {
    s.match_indices(w).map(|(i, _)| i).find(|&i| {
        let before = s[..i].chars().next_back().map_or(true, |c| !(c.is_alphanumeric() || c == '_'));
        let after = s[i + w.len()..].chars().next().map_or(true, |c| !(c.is_alphanumeric() || c == '_'));
        before && after
    })
}

fn load<'a>(files: &'a mut BTreeMap<String, syn::File>, repo: &str, file: &str) -> Result<&'a syn::File, String> {
    if !files.contains_key(file) {
        let text = fs::read_to_string(format!("{repo}/{file}")).map_err(|e| format!("lost file {file}: {e}"))?;
        let parsed = syn::parse_file(&text).map_err(|e| format!("{file}: {e}"))?;
        files.insert(file.to_string(), parsed);
    }
    Ok(&files[file])
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (repo, dir, name, out) = (&args[1], &args[2], &args[3], &args[4]);
    let u = match unit::Unit::load(dir, name) {
        Ok(u) => u,
        Err(e) => {
            println!("UNIT-ERROR {e}");
            process::exit(3);
        }
    };
    match emit(&u, repo, args.get(5).map_or(false, |a| a == "vacuity")) {
        Ok((text, info)) => {
            fs::write(out, text).unwrap();
            fs::write(format!("{out}.info"), info).unwrap();
        }
        Err(e) => {
            println!("LOST {e}");
            process::exit(4);
        }
    }
}

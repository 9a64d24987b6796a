//! The rewriting rules. Everything that is dropped or replaced is listed in
//! `DESIGN.md`, section "Extraction".
use crate::{
    find::Found,
    unit::{FnSpec, Unit},
};
use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::{
    parse_quote,
    punctuated::Punctuated,
    visit_mut::{self, VisitMut},
    Arm, Block, Expr, ExprClosure, FnArg, GenericParam, Generics, Item, Lit, Pat, Path, ReturnType, Stmt, Token, Type,
};

pub struct Output {
    pub text: String,
    pub loops: Vec<String>,
    pub notes: Vec<String>,
}

// ---------------------------------------------------------------- token rewrites

fn flat(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter().collect()
}

fn same(a: &TokenTree, b: &TokenTree) -> bool {
    match (a, b) {
        (TokenTree::Group(x), TokenTree::Group(y)) => {
            x.delimiter() == y.delimiter() && {
                let (x, y) = (flat(x.stream()), flat(y.stream()));
                x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| same(p, q))
            }
        }
        _ => a.to_string() == b.to_string(),
    }
}

/// Matches `pat` at the start of `toks`. `$x` stands for one token tree.
fn matches_at(pat: &[TokenTree], toks: &[TokenTree], env: &mut BTreeMap<String, TokenTree>) -> Option<usize> {
    let (mut p, mut t) = (0, 0);
    while p < pat.len() {
        if let TokenTree::Punct(c) = &pat[p] {
            if c.as_char() == '$' {
                env.insert(pat[p + 1].to_string(), toks.get(t)?.clone());
                p += 2;
                t += 1;
                continue;
            }
        }
        let x = toks.get(t)?;
        match (&pat[p], x) {
            (TokenTree::Group(a), TokenTree::Group(b)) if a.delimiter() == b.delimiter() => {
                let (a, b) = (flat(a.stream()), flat(b.stream()));
                let b = if b.len() == a.len() + 1 && b.last().map_or(false, |t| t.to_string() == ",") { b[..a.len()].to_vec() } else { b };
                if matches_at(&a, &b, env)? != b.len() {
                    return None;
                }
            }
            (a, b) if same(a, b) => (),
            _ => return None,
        }
        p += 1;
        t += 1;
    }
    Some(t)
}

fn subst(tpl: TokenStream, env: &BTreeMap<String, TokenTree>) -> TokenStream {
    let toks = flat(tpl);
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(c) if c.as_char() == '$' => {
                out.extend([env[&toks[i + 1].to_string()].clone()]);
                i += 1;
            }
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), env)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn rewrite(ts: TokenStream, pat: &[TokenTree], tpl: &TokenStream) -> TokenStream {
    let toks = flat(ts);
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < toks.len() {
        let mut env = BTreeMap::new();
        if let Some(n) = matches_at(pat, &toks[i..], &mut env) {
            if n > 0 {
                out.extend(subst(tpl.clone(), &env));
                i += n;
                continue;
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), rewrite(g.stream(), pat, tpl)))]),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn rewrite_all(ts: TokenStream, rules: &[&(String, String)]) -> Result<TokenStream, String> {
    let mut ts = ts;
    for (a, b) in rules.iter().map(|r| (&r.0, &r.1)) {
        let pat: TokenStream = a.parse().map_err(|e| format!("{a}: {e}"))?;
        let tpl: TokenStream = b.parse().map_err(|e| format!("{b}: {e}"))?;
        ts = rewrite(ts, &flat(pat), &tpl);
    }
    Ok(ts)
}

// ---------------------------------------------------------------- types and paths

struct Names<'a> {
    u: &'a Unit,
}

impl Names<'_> {
    fn path(&self, p: &mut Path) {
        let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let prims = ["char", "str", "usize", "u32", "u64", "bool", "u8", "i32", "i64", "u16"];
        if names.len() > 1 && !prims.contains(&names[0].as_str()) {
            let upper = |s: &str| s.chars().next().map_or(false, |c| c.is_uppercase());
            if let Some(i) = names.iter().position(|s| upper(s)) {
                p.segments = p.segments.iter().skip(i).cloned().collect();
            } else if names[0] == "std" || names[0] == "core" {
                let id = format_ident!("vx_{}", names[1..].join("_"));
                let args = p.segments.last().unwrap().arguments.clone();
                let mut seg: syn::PathSegment = id.into();
                seg.arguments = args;
                p.segments = Punctuated::from_iter([seg]);
            } else {
                p.segments = p.segments.iter().skip(names.len() - 1).cloned().collect();
            }
            p.leading_colon = None;
        }
        for s in p.segments.iter_mut() {
            if let Some(n) = self.u.map.get(&s.ident.to_string()) {
                s.ident = format_ident!("{n}");
            }
        }
    }
}

fn iter_item(bounds: &Punctuated<syn::TypeParamBound, Token![+]>) -> Option<Type> {
    for b in bounds {
        if let syn::TypeParamBound::Trait(t) = b {
            let seg = t.path.segments.last().unwrap();
            if seg.ident == "Iterator" || seg.ident == "IntoIterator" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    for x in &a.args {
                        if let syn::GenericArgument::AssocType(t) = x {
                            if t.ident == "Item" {
                                return Some(t.ty.clone());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

impl VisitMut for Names<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        self.path(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        match t {
            Type::ImplTrait(i) => {
                if let Some(x) = iter_item(&i.bounds) {
                    *t = parse_quote!(VxIt<#x>);
                }
            }
            Type::TraitObject(i) => {
                if let Some(x) = iter_item(&i.bounds) {
                    *t = parse_quote!(VxIt<#x>);
                }
            }
            _ => (),
        }
        if let Type::Path(p) = t {
            let seg = p.path.segments.last().unwrap().clone();
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                if let Some(syn::GenericArgument::Type(x)) = a.args.first() {
                    let is_it = matches!(x, Type::Path(q) if q.path.segments.last().unwrap().ident == "VxIt");
                    if seg.ident == "Pin" || seg.ident == "Box" && is_it {
                        *t = x.clone();
                    }
                }
            }
        }
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        *v = syn::Visibility::Inherited;
    }
}

fn generics(u: &Unit, g: &mut Generics) {
    g.where_clause = None;
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds.clear();
            t.colon_token = None;
            t.default = None;
            t.eq_token = None;
            if let Some(b) = u.bounds.get(&t.ident.to_string()) {
                let tp: syn::TypeParam = syn::parse_str(&format!("{}: {b}", t.ident)).expect("bound");
                *t = tp;
            }
        }
    }
}

// ---------------------------------------------------------------- items

pub fn item(u: &Unit, item: &Item, extra: &str) -> Result<String, String> {
    let attrs = match item {
        Item::Struct(s) => &s.attrs,
        Item::Enum(s) => &s.attrs,
        Item::Type(s) => &s.attrs,
        _ => return Err("unsupported item".into()),
    };
    let mut derives = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let text = a.to_token_stream().to_string();
            for d in ["Clone", "Copy", "PartialEq", "Eq"] {
                if text.split(|c: char| !c.is_alphanumeric()).any(|w| w == d) {
                    derives.push(d.to_string());
                }
            }
        }
    }
    let rules: Vec<_> = u.rewrites.iter().collect();
    let ts = rewrite_all(item.to_token_stream(), &rules)?;
    let mut item: Item = syn::parse2(ts).map_err(|e| e.to_string())?;
    Names { u }.visit_item_mut(&mut item);
    let mut structural = derives.iter().any(|d| d == "PartialEq") && derives.iter().any(|d| d == "Eq");
    match &mut item {
        Item::Struct(s) => {
            structural &= s.generics.params.is_empty();
            generics(u, &mut s.generics);
        }
        Item::Enum(s) => {
            structural &= s.generics.params.is_empty();
            generics(u, &mut s.generics);
        }
        Item::Type(_) => derives.clear(),
        _ => (),
    }
    let mut pre = String::new();
    for e in extra.split_whitespace() {
        if e == "noderive" {
            derives.clear();
            structural = false;
        } else if e == "nostructural" {
            structural = false;
        } else if let Some(d) = e.strip_prefix("derive=") {
            derives = d.split(',').map(String::from).collect();
            structural = d.contains("Structural");
            derives.retain(|d| d != "Structural");
        } else if let Some(f) = e.strip_prefix("drop=") {
            for f in f.split(',') {
                drop_field(&mut item, f)?;
            }
        } else if let Some(b) = e.strip_prefix("bound=") {
            let (name, _) = b.split_once(':').ok_or("bound=T:B")?;
            let tp: syn::TypeParam = syn::parse_str(b).map_err(|e| format!("{b}: {e}"))?;
            let params = match &mut item {
                Item::Struct(s) => &mut s.generics.params,
                Item::Enum(s) => &mut s.generics.params,
                _ => return Err("bound".into()),
            };
            for p in params.iter_mut() {
                if let GenericParam::Type(t) = p {
                    if t.ident == name {
                        *t = tp.clone();
                    }
                }
            }
        } else if e == "bare" {
            // no bounds on the parameters
            if let Item::Struct(s) = &mut item {
                for p in s.generics.params.iter_mut() {
                    if let GenericParam::Type(t) = p {
                        t.bounds.clear();
                        t.colon_token = None;
                    }
                }
            }
            if let Item::Enum(s) = &mut item {
                for p in s.generics.params.iter_mut() {
                    if let GenericParam::Type(t) = p {
                        t.bounds.clear();
                        t.colon_token = None;
                    }
                }
            }
        } else {
            pre.push_str(&format!("#[{e}]\n"));
        }
    }
    if structural {
        derives.push("Structural".into());
    }
    if !derives.is_empty() {
        pre.push_str(&format!("#[derive({})]\n", derives.join(", ")));
    }
    Ok(format!("{pre}{}", item.to_token_stream()))
}

fn drop_field(item: &mut Item, f: &str) -> Result<(), String> {
    if let Item::Struct(s) = item {
        if let syn::Fields::Named(n) = &mut s.fields {
            let before = n.named.len();
            n.named = n.named.iter().filter(|x| x.ident.as_ref().map_or(true, |i| i != f)).cloned().collect();
            if n.named.len() < before {
                return Ok(());
            }
        }
    }
    Err(format!("lost field {f}"))
}

// ---------------------------------------------------------------- functions

enum Src {
    /// Expression of the cursor type.
    It(Expr),
    /// Any iterator, read with `next`.
    Pull(Expr),
}

enum Stage {
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    FlatMap(Expr),
    Flatten,
    Copied,
    Cloned,
    Enumerate,
    /// Pairs with a value; `true` when the value comes first.
    Pair(Expr, bool),
    TakeWhile(Expr),
    Take(Expr),
    Inspect(Expr),
}

struct Chain {
    src: Src,
    stages: Vec<Stage>,
}

struct D<'a> {
    u: &'a Unit,
    spec: &'a FnSpec,
    loops: Vec<String>,
    fresh: std::collections::HashMap<String, usize>,
    nclos: usize,
    ncollect: usize,
    calls: BTreeMap<String, usize>,
    /// Calls found in the statement being visited.
    in_stmt: Vec<Vec<(String, usize)>>,
    used: Vec<bool>,
    notes: Vec<String>,
    err: Option<String>,
    finding: bool,
}

const SOURCES: [&str; 6] = ["iter", "keys", "values", "into_iter", "drain", "chars"];
const OPTION_METHODS: [&str; 11] = ["map", "and_then", "or_else", "map_or", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "copied", "cloned", "is_some_and", "or"];

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn closure(e: &Expr) -> Option<&ExprClosure> {
    match strip(e) {
        Expr::Closure(c) => Some(c),
        _ => None,
    }
}

fn path_last(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn path_text(e: &Expr) -> String {
    match strip(e) {
        Expr::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
        _ => String::new(),
    }
}

impl<'a> D<'a> {
    fn fail(&mut self, m: &str) {
        if self.err.is_none() {
            self.err = Some(m.to_string());
        }
    }

    fn id(&mut self, p: &str) -> syn::Ident {
        // numbered per kind, so that one temporary more does not rename the others
        let n = self.fresh.entry(p.to_string()).or_insert(0);
        *n += 1;
        format_ident!("vx_{p}{}", n)
    }

    /// Reads an iterator chain without its consumer, not yet visited.
    fn chain(&mut self, e: &Expr) -> Option<Chain> {
        match strip(e) {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                match name.as_str() {
                    "map" | "filter" | "filter_map" | "flat_map" | "take_while" | "inspect" => {
                        let mut c = self.chain(&m.receiver)?;
                        let f = args[0].clone();
                        c.stages.push(match name.as_str() {
                            "map" => Stage::Map(f),
                            "filter" => Stage::Filter(f),
                            "filter_map" => Stage::FilterMap(f),
                            "flat_map" => Stage::FlatMap(f),
                            "inspect" => Stage::Inspect(f),
                            _ => Stage::TakeWhile(f),
                        });
                        return Some(c);
                    }
                    "flatten" | "copied" | "cloned" | "enumerate" => {
                        let mut c = self.chain(&m.receiver)?;
                        c.stages.push(match name.as_str() {
                            "flatten" => Stage::Flatten,
                            "copied" => Stage::Copied,
                            "cloned" => Stage::Cloned,
                            _ => Stage::Enumerate,
                        });
                        return Some(c);
                    }
                    "rev" | "skip" | "take" | "chain" | "zip" => {
                        if name == "zip" {
                            if let Some(v) = self.repeat(&m.receiver) {
                                let mut c = self.chain_or_into(&args[0]);
                                c.stages.push(Stage::Pair(v, true));
                                return Some(c);
                            }
                        }
                        let mut c = self.chain(&m.receiver)?;
                        if name == "zip" {
                            if let Some(v) = self.repeat(&args[0]) {
                                c.stages.push(Stage::Pair(v, false));
                                return Some(c);
                            }
                        }
                        if let (Src::Pull(_), "take") = (&c.src, name.as_str()) {
                            c.stages.push(Stage::Take(args[0].clone()));
                            return Some(c);
                        }
                        let method = match name.as_str() {
                            "rev" => format_ident!("vx_rev"),
                            "skip" => format_ident!("vx_skip"),
                            "take" => format_ident!("vx_take_n"),
                            "chain" => format_ident!("vx_chain"),
                            _ => {
                                self.fail("zip of two iterators");
                                return Some(c);
                            }
                        };
                        // reversing commutes with the element-wise stages
                        let commutes = c.stages.iter().all(|s| matches!(s, Stage::Map(_) | Stage::Copied | Stage::Cloned | Stage::Pair(..)))
                            && name != "chain"
                            || c.stages.is_empty();
                        let src = if commutes {
                            match c.src {
                                Src::It(e) => e,
                                Src::Pull(e) => {
                                    self.fail("adapter of a pulled iterator");
                                    e
                                }
                            }
                        } else {
                            let stages = std::mem::take(&mut c.stages);
                            self.materialise(Chain { src: c.src, stages })
                        };
                        let args: Vec<Expr> = args
                            .iter()
                            .map(|a| {
                                if name == "chain" {
                                    let c = self.chain_or_into(a);
                                    self.materialise(c)
                                } else {
                                    let mut a = a.clone();
                                    self.visit_expr_mut(&mut a);
                                    a
                                }
                            })
                            .collect();
                        c.src = Src::It(parse_quote!(#src.#method(#(#args),*)));
                        return Some(c);
                    }
                    "by_ref" => return self.chain(&m.receiver),
                    "cautious_map_while" => {
                        let mut e = e.clone();
                        self.visit_expr_mut(&mut e);
                        return Some(Chain { src: Src::Pull(e), stages: vec![] });
                    }
                    _ => (),
                }
                let is_fn = self.u.iterfns.contains(&name);
                // only `find` looks at a mutable iterator without changing the elements
                if SOURCES.contains(&name.as_str()) || is_fn || name == "iter_mut" && self.finding {
                    // `.iter()` on a chain, as `.into_iter()` on a chain, is the chain
                    if name == "iter_mut" {
                        return self.chain(&{
                            let mut m = m.clone();
                            m.method = format_ident!("iter");
                            Expr::MethodCall(m)
                        });
                    }
                    if name == "into_iter" {
                        if let Some(c) = self.chain(&m.receiver) {
                            return Some(c);
                        }
                    }
                    let mut recv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut recv);
                    let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                    for a in args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    self.note_call(&name);
                    let src: Expr = if is_fn {
                        let f = &m.method;
                        parse_quote!(#recv.#f(#(#args),*))
                    } else if name == "drain" {
                        let Some(Expr::Range(r)) = args.first().map(strip) else {
                            self.fail("drain");
                            return None;
                        };
                        let place = &recv;
                        match (&r.start, &r.end) {
                            (Some(s), None) => parse_quote!(vx_drain_from(#s, &mut *#place)),
                            (None, None) => parse_quote!(vx_drain_from(0, &mut *#place)),
                            _ => {
                                self.fail("drain range");
                                return None;
                            }
                        }
                    } else {
                        let f = format_ident!("vx_{name}");
                        parse_quote!(#recv.#f())
                    };
                    return Some(Chain { src: Src::It(src), stages: vec![] });
                }
                None
            }
            Expr::Call(c) => {
                let text = path_text(&c.func);
                if text.ends_with("iter::once") {
                    let mut x = c.args[0].clone();
                    self.visit_expr_mut(&mut x);
                    return Some(Chain { src: Src::It(parse_quote!(VxIt::vx_once(#x))), stages: vec![] });
                }
                if text == "Box::new" {
                    return self.chain(&c.args[0]);
                }
                None
            }
            Expr::Cast(c) => self.chain(&c.expr),
            _ => None,
        }
    }

    fn repeat(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Call(c) = strip(e) {
            if path_text(&c.func).ends_with("iter::repeat") {
                let mut x = c.args[0].clone();
                self.visit_expr_mut(&mut x);
                return Some(x);
            }
        }
        None
    }

    fn chain_or_into(&mut self, e: &Expr) -> Chain {
        if let Some(c) = self.chain(e) {
            return c;
        }
        let mut e = e.clone();
        self.visit_expr_mut(&mut e);
        Chain { src: Src::It(parse_quote!(#e.vx_into_iter())), stages: vec![] }
    }

    /// A chain as a value.
    fn materialise(&mut self, c: Chain) -> Expr {
        if c.stages.is_empty() {
            return match c.src {
                Src::It(e) | Src::Pull(e) => e,
            };
        }
        let out = self.id("out");
        let body = self.run(c, None, &mut |_, x| vec![parse_quote!(#out.vx_push(#x);)]);
        parse_quote!({ let mut #out = VxIt::vx_empty(); #(#body)* #out })
    }

    /// Applies a closure literal or a function.
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        match closure(f) {
            Some(c) => {
                let body = self.closure_body(&c.body);
                let pats: Vec<Pat> = c.inputs.iter().cloned().map(|mut p| {
                    self.visit_pat_mut(&mut p);
                    p
                }).collect();
                if pats.len() != args.len() {
                    self.fail("closure arguments");
                }
                let stmts: Vec<Stmt> = pats.iter().zip(&args).map(|(p, a)| parse_quote!(let #p = #a;)).collect();
                match body {
                    Expr::Block(b) if b.label.is_none() => {
                        let inner = &b.block.stmts;
                        parse_quote!({ #(#stmts)* #(#inner)* })
                    }
                    b => parse_quote!({ #(#stmts)* #b }),
                }
            }
            None => {
                let mut f = f.clone();
                self.visit_expr_mut(&mut f);
                parse_quote!(#f(#(#args),*))
            }
        }
    }

    /// The body of a closure that is going to be inlined.
    fn closure_body(&mut self, e: &Expr) -> Expr {
        struct R(bool, bool);
        impl<'ast> syn::visit::Visit<'ast> for R {
            fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
                self.1 = true;
                syn::visit::visit_expr_try(self, e);
            }
        }
        let mut r = R(false, false);
        syn::visit::Visit::visit_expr(&mut r, e);
        if r.0 {
            self.fail("return in an inlined closure");
        }
        let mut e = e.clone();
        if r.1 {
            e = self.lift_try(&e);
        }
        self.visit_expr_mut(&mut e);
        e
    }

    /// `A?.f(x)` becomes a match on `A`, for question marks on the receivers.
    fn lift_try(&mut self, e: &Expr) -> Expr {
        fn take(e: &mut Expr) -> Option<Expr> {
            match e {
                Expr::Paren(p) => take(&mut p.expr),
                Expr::Block(b) if b.block.stmts.len() == 1 => match &mut b.block.stmts[0] {
                    Stmt::Expr(x, None) => take(x),
                    _ => None,
                },
                Expr::MethodCall(m) => {
                    if let Some(x) = take(&mut m.receiver) {
                        return Some(x);
                    }
                    None
                }
                Expr::Try(t) => {
                    if let Some(x) = take(&mut t.expr) {
                        return Some(x);
                    }
                    let x = (*t.expr).clone();
                    *e = parse_quote!(vx_hole);
                    Some(x)
                }
                _ => None,
            }
        }
        let mut rest = e.clone();
        match take(&mut rest) {
            Some(first) => {
                let q = self.id("q");
                let text = rest.to_token_stream();
                let pat = flat(quote!(vx_hole));
                let text = rewrite(text, &pat, &quote!(#q));
                let rest: Expr = syn::parse2(text).expect("lifted expression");
                let rest = self.lift_try(&rest);
                parse_quote!(match #first { Some(#q) => #rest, None => None })
            }
            None => {
                let text = e.to_token_stream().to_string();
                if text.contains('?') {
                    self.fail("question mark in an inlined closure");
                }
                e.clone()
            }
        }
    }

    /// The loop's clauses tell what holds when it is left.
    fn complex(&self, n: usize) -> Option<TokenStream> {
        let text = self.spec.loops.get(&n)?;
        let told = text.contains("ensures") || text.contains("invariant_except_break");
        (told && !self.spec.attrs.contains("loop_isolation")).then(|| quote!(#[verifier::allow_complex_invariants]))
    }

    fn new_loop(&mut self, auto: String) -> usize {
        self.loops.push(auto);
        self.loops.len() - 1
    }

    fn at(&mut self, what: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for (i, (a, _)) in self.spec.ats.iter().enumerate() {
            if a == what {
                self.used[i] = true;
                let lit = proc_macro2::Literal::usize_unsuffixed(i);
                v.push(parse_quote!(vx_at!(#lit);));
            }
        }
        v
    }

    /// Runs `k` for every element of the chain.
    fn run(&mut self, c: Chain, counter: Option<&syn::Ident>, k: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let n = self.new_loop(String::new());
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        let it = format_ident!("vx_it{n}");
        let x = format_ident!("vx_x{n}");
        let label = syn::Lifetime::new(&format!("'vx_l{n}"), Span::call_site());
        let before = self.at(&format!("loop {n} before"));
        let start = self.at(&format!("loop {n} start"));
        let end = self.at(&format!("loop {n} end"));
        let after = self.at(&format!("loop {n} after"));
        let mut first: Vec<Stmt> = vec![];
        let mut pre: Vec<Stmt> = vec![];
        let mut stages = c.stages;
        let mut take: Option<Stmt> = None;
        if let Src::Pull(_) = c.src {
            if let Some(Stage::Take(_)) = stages.first() {
                let Stage::Take(mut e) = stages.remove(0) else { unreachable!() };
                self.visit_expr_mut(&mut e);
                let (lim, cnt) = (format_ident!("vx_lim{n}"), format_ident!("vx_cnt{n}"));
                pre.push(parse_quote!(let #lim: usize = #e;));
                pre.push(parse_quote!(let mut #cnt: usize = 0;));
                take = Some(parse_quote!(if #cnt >= #lim { break #label; } else { #cnt = #cnt + 1; }));
            }
        }
        let mut item: Expr = parse_quote!(#x);
        if let Some(Stage::Enumerate) = stages.first() {
            stages.remove(0);
            let i = format_ident!("vx_i{n}");
            first.push(parse_quote!(let #i = #it.vx_index();));
            item = parse_quote!((#i, #x));
        }
        let simple = !stages.iter().any(|s| matches!(s, Stage::FlatMap(_) | Stage::Flatten));
        let body = self.stages(&label, stages.into_iter().collect(), item, k);
        match c.src {
            Src::It(src) => {
                let mut inv = format!("vx_it{n}.seq() == vx_s{n}, 0 <= vx_it{n}.pos() <= vx_s{n}.len(), vx_s{n}.len() <= usize::MAX");
                if let (Some(c), true) = (counter, simple) {
                    inv.push_str(&format!(", {c} <= vx_it{n}.pos()"));
                }
                self.loops[n] = format!("{inv}@@vx_s{n}.len() - vx_it{n}.pos()");
                let complex = self.complex(n);
                parse_quote! {
                    let mut #it = #src;
                    vx_pre!(#lit);
                    #(#before)*
                    #complex #label: while #it.vx_has() {
                        vx_loop!(#lit);
                        #(#first)*
                        let #x = #it.vx_take();
                        #(#start)*
                        #(#body)*
                        #(#end)*
                    }
                    #(#after)*
                }
            }
            Src::Pull(src) => parse_quote! {
                let mut #it = #src;
                #(#pre)*
                #(#before)*
                #label: loop {
                    vx_loop!(#lit);
                    #take
                    match #it.next() {
                        None => { break #label; }
                        Some(#x) => { #(#start)* #(#body)* #(#end)* }
                    }
                }
                #(#after)*
            },
        }
    }

    fn stages(&mut self, label: &syn::Lifetime, mut rest: std::collections::VecDeque<Stage>, item: Expr, k: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let Some(s) = rest.pop_front() else {
            return k(self, item);
        };
        match s {
            Stage::Map(f) => {
                let y = self.id("y");
                let e = self.apply(&f, vec![item]);
                let mut v: Vec<Stmt> = vec![parse_quote!(let #y = #e;)];
                v.extend(self.stages(label, rest, parse_quote!(#y), k));
                v
            }
            Stage::Inspect(f) => {
                let y = self.id("y");
                let e = self.apply(&f, vec![parse_quote!(&#y)]);
                let mut v: Vec<Stmt> = parse_quote!(let #y = #item; #e;);
                v.extend(self.stages(label, rest, parse_quote!(#y), k));
                v
            }
            Stage::Copied | Stage::Cloned => {
                let y = self.id("y");
                let mut v: Vec<Stmt> = if matches!(s, Stage::Copied) { parse_quote!(let #y = *#item;) } else { parse_quote!(let #y = #item.clone();) };
                v.extend(self.stages(label, rest, parse_quote!(#y), k));
                v
            }
            Stage::Pair(p, left) => {
                let y = self.id("y");
                let z = self.id("z");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #z = #p;)];
                v.push(if left { parse_quote!(let #y = (#z, #item);) } else { parse_quote!(let #y = (#item, #z);) });
                v.extend(self.stages(label, rest, parse_quote!(#y), k));
                v
            }
            Stage::Filter(f) => {
                let (c, y) = (self.id("c"), self.id("y"));
                let e = self.apply(&f, vec![parse_quote!(&#y)]);
                let inner = self.stages(label, rest, parse_quote!(#y), k);
                parse_quote!(let #y = #item; let #c = #e; if #c { #(#inner)* })
            }
            Stage::TakeWhile(f) => {
                let (c, y) = (self.id("c"), self.id("y"));
                let e = self.apply(&f, vec![parse_quote!(&#y)]);
                let inner = self.stages(label, rest, parse_quote!(#y), k);
                parse_quote!(let #y = #item; let #c = #e; if !#c { break #label; } #(#inner)*)
            }
            Stage::FilterMap(f) => {
                let y = self.id("y");
                let e = self.apply(&f, vec![item]);
                let inner = self.stages(label, rest, parse_quote!(#y), k);
                let o = self.id("o");
                parse_quote!(let #o = #e; match #o { Some(#y) => { #(#inner)* } None => {} })
            }
            Stage::FlatMap(f) => {
                let Some(c) = closure(&f).cloned() else {
                    self.fail("flat_map of a function");
                    return vec![];
                };
                let p = c.inputs[0].clone();
                let mut p = p;
                self.visit_pat_mut(&mut p);
                let body = match &*c.body {
                    Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                        Stmt::Expr(e, None) => e.clone(),
                        _ => (*c.body).clone(),
                    },
                    b => b.clone(),
                };
                let inner = self.chain_or_into(&body);
                let v = self.nested(inner, label, rest, k);
                parse_quote!(let #p = #item; #(#v)*)
            }
            Stage::Flatten => {
                let inner = Chain { src: Src::It(parse_quote!(#item.vx_into_iter())), stages: vec![] };
                self.nested(inner, label, rest, k)
            }
            Stage::Enumerate | Stage::Take(_) => {
                self.fail("enumerate or take behind another adapter");
                vec![]
            }
        }
    }

    fn nested(&mut self, mut inner: Chain, _label: &syn::Lifetime, rest: std::collections::VecDeque<Stage>, k: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        inner.stages.extend(rest);
        self.run(inner, None, k)
    }

    /// A chain with its consumer.
    fn consumer(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let terminals = ["any", "all", "find", "find_map", "count", "max", "fold", "for_each", "collect", "last", "next", "position"];
        if !terminals.contains(&name.as_str()) {
            return None;
        }
        self.finding = name == "find" && matches!(strip(&m.receiver), Expr::MethodCall(i) if i.method == "iter_mut");
        let c = self.chain(&m.receiver);
        self.finding = false;
        let c = c?;
        let outer = syn::Lifetime::new(&format!("'vx_l{}", self.loops.len()), Span::call_site());
        let r = self.id("r");
        let f = m.args.first().cloned();
        let e: Expr = match name.as_str() {
            "next" => {
                let it = self.materialise(c);
                return Some(parse_quote!(#it.next()));
            }
            "position" => {
                self.fail("position");
                return None;
            }
            "any" | "all" => {
                let any = name == "any";
                let v = self.run(c, None, &mut |d, x| {
                    let cond = d.apply(f.as_ref().unwrap(), vec![x]);
                    let b = d.id("c");
                    if any {
                        parse_quote!(let #b = #cond; if #b { #r = true; break #outer; })
                    } else {
                        parse_quote!(let #b = #cond; if !#b { #r = false; break #outer; })
                    }
                });
                let init = !any;
                parse_quote!({ let mut #r = #init; #(#v)* #r })
            }
            "find" if matches!(strip(&m.receiver), Expr::MethodCall(i) if i.method == "iter_mut") => {
                // the element is borrowed mutably once it is found
                let Expr::MethodCall(i) = strip(&m.receiver) else { unreachable!() };
                let mut v = (*i.receiver).clone();
                self.visit_expr_mut(&mut v);
                let n = self.id("n");
                let b = self.run(c, None, &mut |d, x| {
                    let y = d.id("y");
                    let cond = d.apply(f.as_ref().unwrap(), vec![parse_quote!(&#y)]);
                    let b = d.id("c");
                    parse_quote!(let #y = #x; let #b = #cond; if #b { #r = Some(#n); break #outer; } #n = #n + 1;)
                });
                parse_quote!({ let mut #n: usize = 0; let mut #r = None; #(#b)* match #r { Some(vx_n) => Some(vx_at_mut(&mut #v, vx_n)), None => None } })
            }
            "find" => {
                let v = self.run(c, None, &mut |d, x| {
                    let y = d.id("y");
                    let cond = d.apply(f.as_ref().unwrap(), vec![parse_quote!(&#y)]);
                    let b = d.id("c");
                    parse_quote!(let #y = #x; let #b = #cond; if #b { #r = Some(#y); break #outer; })
                });
                parse_quote!({ let mut #r = None; #(#v)* #r })
            }
            "find_map" => {
                let v = self.run(c, None, &mut |d, x| {
                    let res = d.apply(f.as_ref().unwrap(), vec![x]);
                    let y = d.id("y");
                    parse_quote!(let #y = #res; if #y.is_some() { #r = #y; break #outer; })
                });
                parse_quote!({ let mut #r = None; #(#v)* #r })
            }
            "count" => {
                let v = self.run(c, Some(&r), &mut |_, x| parse_quote!(let _ = #x; #r = #r + 1;));
                parse_quote!({ let mut #r: usize = 0; #(#v)* #r })
            }
            "last" => {
                let v = self.run(c, None, &mut |_, x| parse_quote!(#r = Some(#x);));
                parse_quote!({ let mut #r = None; #(#v)* #r })
            }
            "max" => {
                let v = self.run(c, None, &mut |d, x| {
                    let y = d.id("y");
                    parse_quote!(let #y = #x; #r = match #r { Some(vx_m) => if #y >= vx_m { Some(#y) } else { Some(vx_m) }, None => Some(#y) };)
                });
                parse_quote!({ let mut #r = None; #(#v)* #r })
            }
            "fold" => {
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let g = m.args[1].clone();
                let v = self.run(c, None, &mut |d, x| {
                    let e = d.apply(&g, vec![parse_quote!(#r), x]);
                    parse_quote!(#r = #e;)
                });
                parse_quote!({ let mut #r = #init; #(#v)* #r })
            }
            "for_each" => {
                let v = self.run(c, None, &mut |d, x| {
                    let e = d.apply(f.as_ref().unwrap(), vec![x]);
                    parse_quote!(#e;)
                });
                parse_quote!({ #(#v)* })
            }
            _ => {
                let k = self.ncollect;
                self.ncollect += 1;
                let ty: Option<Type> = match self.spec.collects.get(&k) {
                    Some(t) => Some(syn::parse_str(t).expect("collect type")),
                    None => m.turbofish.as_ref().and_then(|t| match t.args.first() {
                        Some(syn::GenericArgument::Type(t)) => {
                            let mut t = t.clone();
                            self.visit_type_mut(&mut t);
                            Some(t)
                        }
                        _ => None,
                    }),
                };
                let Some(ty) = ty else {
                    self.fail(&format!("collect {k} has no type"));
                    return None;
                };
                self.collect(c, &ty)
            }
        };
        Some(e)
    }

    fn collect(&mut self, c: Chain, ty: &Type) -> Expr {
        let r = self.id("col");
        let add = add_method(ty);
        let v = self.run(c, None, &mut |_, x| parse_quote!(#r.#add(#x);));
        parse_quote!({ let mut #r: #ty = <#ty>::new(); #(#v)* #r })
    }

    fn note_call(&mut self, name: &str) {
        let n = self.calls.entry(name.to_string()).or_insert(0);
        let k = *n;
        *n += 1;
        if let Some(s) = self.in_stmt.last_mut() {
            s.push((name.to_string(), k));
        }
    }

    fn option_method(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !OPTION_METHODS.contains(&name.as_str()) {
            return None;
        }
        let arity = match name.as_str() {
            "copied" | "cloned" | "unwrap_or_default" => 0,
            "map_or" => 2,
            _ => 1,
        };
        if m.args.len() != arity {
            return None;
        }
        let mut recv = (*m.receiver).clone();
        self.visit_expr_mut(&mut recv);
        let x = self.id("o");
        let a = m.args.first().cloned();
        Some(match name.as_str() {
            "copied" => parse_quote!(match #recv { Some(#x) => Some(*#x), None => None }),
            "cloned" => parse_quote!(match #recv { Some(#x) => Some(#x.clone()), None => None }),
            "unwrap_or_default" => parse_quote!(match #recv { Some(#x) => #x, None => vx_default() }),
            "unwrap_or" => {
                let mut d = a.unwrap();
                self.visit_expr_mut(&mut d);
                parse_quote!(match #recv { Some(#x) => #x, None => #d })
            }
            "or" => {
                let mut d = a.unwrap();
                self.visit_expr_mut(&mut d);
                parse_quote!(match #recv { Some(#x) => Some(#x), None => #d })
            }
            "or_else" => {
                let d = self.apply(&a.unwrap(), vec![]);
                parse_quote!(match #recv { Some(#x) => Some(#x), None => #d })
            }
            "unwrap_or_else" => {
                let d = self.apply(&a.unwrap(), vec![]);
                parse_quote!(match #recv { Some(#x) => #x, None => #d })
            }
            "map" => {
                let b = self.apply(&a.unwrap(), vec![parse_quote!(#x)]);
                parse_quote!(match #recv { Some(#x) => Some(#b), None => None })
            }
            "and_then" => {
                let b = self.apply(&a.unwrap(), vec![parse_quote!(#x)]);
                parse_quote!(match #recv { Some(#x) => #b, None => None })
            }
            "is_some_and" => {
                let b = self.apply(&a.unwrap(), vec![parse_quote!(#x)]);
                parse_quote!(match #recv { Some(#x) => #b, None => false })
            }
            _ => {
                let mut d = a.unwrap();
                self.visit_expr_mut(&mut d);
                let b = self.apply(&m.args[1], vec![parse_quote!(#x)]);
                parse_quote!(match #recv { Some(#x) => #b, None => #d })
            }
        })
    }

    /// `m.entry(k).or_insert(..)`
    fn entry(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let default: Expr = match name.as_str() {
            "or_default" => parse_quote!(vx_default()),
            "or_insert" => {
                let mut a = m.args[0].clone();
                self.visit_expr_mut(&mut a);
                a
            }
            "or_insert_with" => self.apply(&m.args[0], vec![]),
            _ => return None,
        };
        let Expr::MethodCall(inner) = strip(&m.receiver) else { return None };
        if inner.method != "entry" {
            return None;
        }
        let mut map = (*inner.receiver).clone();
        self.visit_expr_mut(&mut map);
        let mut key = inner.args[0].clone();
        self.visit_expr_mut(&mut key);
        self.note_call("entry");
        Some(parse_quote!(#map.vx_entry_or(#key, #default)))
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = |m: &syn::Macro| m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok();
        let mode = if self.spec.panics { "_or_panic" } else { "" };
        match name.as_str() {
            "unreachable" | "panic" | "todo" | "unimplemented" => {
                let f = format_ident!("vx_unreachable{mode}");
                Some(parse_quote!(#f()))
            }
            "assert" | "debug_assert" => {
                let mut c = args(m)?.first()?.clone();
                self.visit_expr_mut(&mut c);
                let f = format_ident!("vx_assert{mode}");
                Some(parse_quote!(#f(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = args(m)?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                let f = format_ident!("vx_assert{mode}");
                Some(parse_quote!(#f(#x == #y)))
            }
            "matches" => {
                let toks = flat(m.tokens.clone());
                let comma = toks.iter().position(|t| t.to_string() == ",")?;
                let e: TokenStream = toks[..comma].iter().cloned().collect();
                let mut p: Vec<TokenTree> = toks[comma + 1..].to_vec();
                if p.last().map_or(false, |t| t.to_string() == ",") {
                    p.pop();
                }
                let p: TokenStream = p.into_iter().collect();
                let mut e: Expr = syn::parse2(quote!(match #e { #p => true, _ => false })).ok()?;
                self.visit_expr_mut(&mut e);
                Some(e)
            }
            "vec" => {
                let a = args(m)?;
                if a.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                let v = self.id("v");
                let mut st: Vec<Stmt> = vec![];
                for mut x in a {
                    self.visit_expr_mut(&mut x);
                    st.push(parse_quote!(#v.push(#x);));
                }
                Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }))
            }
            _ => None,
        }
    }

    fn from_array(&mut self, c: &syn::ExprCall) -> Option<Expr> {
        let Expr::Path(p) = strip(&c.func) else { return None };
        let n = p.path.segments.len();
        if n < 2 {
            return None;
        }
        let last = p.path.segments[n - 1].ident.to_string();
        let mut ty = p.path.clone();
        ty.segments.pop();
        let ty: Path = {
            let segs: Vec<_> = ty.segments.iter().cloned().collect();
            let mut q = Path { leading_colon: None, segments: Punctuated::from_iter(segs) };
            self.names_path(&mut q);
            q
        };
        if last == "from_iter" {
            let c = self.chain_or_into(&c.args[0]);
            let r = self.id("col");
            let tyt: Type = parse_quote!(#ty);
            let add = add_method(&tyt);
            let v = self.run(c, None, &mut |_, x| parse_quote!(#r.#add(#x);));
            return Some(parse_quote!({ let mut #r = #ty::new(); #(#v)* #r }));
        }
        if last == "from" {
            if let Some(Expr::Array(a)) = c.args.first().map(strip) {
                let r = self.id("col");
                let tyt: Type = parse_quote!(#ty);
                let add = add_method(&tyt);
                let mut st: Vec<Stmt> = vec![];
                for mut x in a.elems.iter().cloned() {
                    self.visit_expr_mut(&mut x);
                    st.push(parse_quote!(#r.#add(#x);));
                }
                return Some(parse_quote!({ let mut #r = #ty::new(); #(#st)* #r }));
            }
        }
        None
    }

    fn names_path(&self, p: &mut Path) {
        Names { u: self.u }.visit_path_mut(p);
    }

    fn loop_body(&mut self, n: usize, body: &mut Block) {
        let lit = proc_macro2::Literal::usize_unsuffixed(n);
        let start = self.at(&format!("loop {n} start"));
        let end = self.at(&format!("loop {n} end"));
        self.visit_block_mut(body);
        let mut stmts: Vec<Stmt> = vec![parse_quote!(vx_loop!(#lit);)];
        stmts.extend(start);
        let mut inner = std::mem::take(&mut body.stmts);
        if !end.is_empty() {
            if let Some(Stmt::Expr(_, semi @ None)) = inner.last_mut() {
                *semi = Some(Default::default());
            }
        }
        stmts.extend(inner);
        stmts.extend(end);
        body.stmts = stmts;
    }
}

fn add_method(ty: &Type) -> syn::Ident {
    let name = match ty {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => String::new(),
    };
    match name.as_str() {
        "Vec" | "String" => format_ident!("push"),
        _ => format_ident!("vx_extend_one"),
    }
}

fn debug_only(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().contains("debug_assertions"))
}

fn stmt_attrs(s: &Stmt) -> Vec<syn::Attribute> {
    match s {
        Stmt::Local(l) => l.attrs.clone(),
        Stmt::Expr(e, _) => match e {
            Expr::Block(b) => b.attrs.clone(),
            Expr::If(b) => b.attrs.clone(),
            Expr::MethodCall(b) => b.attrs.clone(),
            Expr::Call(b) => b.attrs.clone(),
            Expr::Macro(b) => b.attrs.clone(),
            _ => vec![],
        },
        Stmt::Macro(m) => m.attrs.clone(),
        Stmt::Item(_) => vec![],
    }
}

impl VisitMut for D<'_> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        Names { u: self.u }.visit_path_mut(p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        Names { u: self.u }.visit_type_mut(t);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, s) in old.into_iter().enumerate() {
            if debug_only(&stmt_attrs(&s)) {
                self.notes.push("drops a cfg(debug_assertions) block".into());
                continue;
            }
            let mut s = match s {
                Stmt::Macro(m) => {
                    let name = m.mac.path.segments.last().unwrap().ident.to_string();
                    if name == "dbg" || name == "println" || name == "eprintln" {
                        self.notes.push(format!("drops {name}!"));
                        continue;
                    }
                    if name.starts_with("debug_assert") {
                        self.notes.push(format!("drops {name}!"));
                        continue;
                    }
                    let semi = m.semi_token;
                    let tail = i + 1 == n && semi.is_none();
                    let mac = m.mac;
                    if !tail && ["panic", "unreachable", "todo", "unimplemented"].contains(&name.as_str()) {
                        let f = format_ident!("vx_unreachable{}", if self.spec.panics { "_or_panic" } else { "" });
                        b.stmts.push(parse_quote!(#f::<()>();));
                        continue;
                    }
                    Stmt::Expr(parse_quote!(#mac), if tail { None } else { Some(Default::default()) })
                }
                Stmt::Item(Item::Use(u)) => {
                    let text = u.tree.to_token_stream().to_string();
                    if text.starts_with(|c: char| c.is_uppercase()) {
                        b.stmts.push(Stmt::Item(Item::Use(u)));
                    }
                    continue;
                }
                Stmt::Item(_) => continue,
                s => s,
            };
            self.in_stmt.push(vec![]);
            let loops_before = self.loops.len();
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_) | Expr::Loop(_), _));
            visit_mut::visit_stmt_mut(self, &mut s);
            let calls = self.in_stmt.pop().unwrap();
            let (mut before, mut after) = (vec![], vec![]);
            for (name, k) in calls {
                before.extend(self.at(&format!("call {name} {k} before")));
                after.extend(self.at(&format!("call {name} {k} after")));
            }
            if is_loop {
                before.extend(self.at(&format!("loop {loops_before} before")));
                after.extend(self.at(&format!("loop {loops_before} after")));
            }
            b.stmts.extend(before);
            if after.is_empty() {
                b.stmts.push(s);
            } else {
                match s {
                    Stmt::Expr(e, None) if i + 1 == n && !is_loop => {
                        let t = self.id("t");
                        b.stmts.push(parse_quote!(let #t = #e;));
                        b.stmts.extend(after);
                        b.stmts.push(Stmt::Expr(parse_quote!(#t), None));
                    }
                    s => {
                        b.stmts.push(s);
                        b.stmts.extend(after);
                    }
                }
            }
        }
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        self.visit_pat_mut(&mut a.pat);
        if let Some((_, g)) = &mut a.guard {
            self.visit_expr_mut(g);
        }
        let is_block = matches!(&*a.body, Expr::Block(b) if b.label.is_none());
        if !is_block {
            let e = &a.body;
            a.body = Box::new(parse_quote!({ #e }));
        }
        self.visit_expr_mut(&mut a.body);
        a.comma = Some(Default::default());
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // wrappers that disappear
        match e {
            Expr::Break(_) => self.note_call("break"),
            Expr::Continue(_) => self.note_call("continue"),
            Expr::Return(_) => self.note_call("return"),
            Expr::Unsafe(u) => {
                let b = u.block.clone();
                *e = parse_quote!(#b);
                return self.visit_expr_mut(e);
            }
            Expr::Cast(c) => {
                let t = c.ty.to_token_stream().to_string();
                if t.contains("dyn") || t.starts_with("VxIt ") {
                    *e = (*c.expr).clone();
                    return self.visit_expr_mut(e);
                }
            }
            Expr::Macro(m) => {
                if let Some(x) = self.macro_expr(&m.mac.clone()) {
                    *e = x;
                }
                return;
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::BitXor(_)) => {
                let (mut x, mut y) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                *e = parse_quote!(vx_xor(#x, #y));
                return;
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = strip(&r.expr) {
                    if let Expr::Range(rg) = strip(&ix.index) {
                        if let (Some(s), None) = (&rg.start, &rg.end) {
                            let (mut x, mut s) = ((*ix.expr).clone(), (**s).clone());
                            self.visit_expr_mut(&mut x);
                            self.visit_expr_mut(&mut s);
                            *e = parse_quote!(vx_slice_from(&#x, #s));
                            return;
                        }
                    }
                }
            }
            _ => (),
        }
        match e {
            Expr::MethodCall(m) => {
                let m = m.clone();
                if m.method == "contains" && m.args.len() == 1 {
                    if let (Expr::Range(r), Expr::Reference(a)) = (strip(&m.receiver), strip(&m.args[0])) {
                        if let (Some(lo), Some(hi), Expr::Path(x)) = (&r.start, &r.end, strip(&a.expr)) {
                            let (mut lo, mut hi) = ((**lo).clone(), (**hi).clone());
                            self.visit_expr_mut(&mut lo);
                            self.visit_expr_mut(&mut hi);
                            *e = match r.limits {
                                syn::RangeLimits::Closed(_) => parse_quote!((#lo <= #x && #x <= #hi)),
                                syn::RangeLimits::HalfOpen(_) => parse_quote!((#lo <= #x && #x < #hi)),
                            };
                            return;
                        }
                    }
                }
                if let Some(x) = self.entry(&m) {
                    *e = x;
                    return;
                }
                if m.method == "hash" && m.args.len() == 1 {
                    if let Expr::Lit(n @ syn::ExprLit { lit: syn::Lit::Int(_), .. }) = strip(&m.receiver) {
                        let s = &m.args[0];
                        *e = parse_quote!(#s.vx_feed(#n));
                        return;
                    }
                }
                if m.method == "extend" && m.args.len() == 1 {
                    let mut recv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut recv);
                    let c = self.chain_or_into(&m.args[0]);
                    let place = matches!(strip(&m.receiver), Expr::Path(_) | Expr::Field(_));
                    if place {
                        let v = self.run(c, None, &mut |_, x| parse_quote!(#recv.vx_extend_one(#x);));
                        *e = parse_quote!({ #(#v)* });
                    } else {
                        let t = self.id("t");
                        let v = self.run(c, None, &mut |_, x| parse_quote!(#t.vx_extend_one(#x);));
                        *e = parse_quote!({ let #t = #recv; #(#v)* });
                    }
                    return;
                }
                if let Some(x) = self.consumer(&m) {
                    *e = x;
                    return;
                }
                if m.method != "cautious_map_while" {
                    if let Some(c) = self.chain(&Expr::MethodCall(m.clone())) {
                        *e = self.materialise(c);
                        return;
                    }
                }
                if let Some(x) = self.option_method(&m) {
                    *e = x;
                    return;
                }
                if m.method == "expect" || m.method == "unwrap" {
                    let mut recv = (*m.receiver).clone();
                    self.visit_expr_mut(&mut recv);
                    self.note_call(&m.method.to_string());
                    let f = if self.spec.panics { format_ident!("vx_expect_or_panic") } else { format_ident!("vx_expect") };
                    *e = parse_quote!(#recv.#f());
                    return;
                }
                let Expr::MethodCall(m) = e else { unreachable!() };
                self.visit_expr_mut(&mut m.receiver);
                if let Some(t) = &mut m.turbofish {
                    self.visit_angle_bracketed_generic_arguments_mut(t);
                }
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let name = m.method.to_string();
                if let Some(n) = self.u.map.get(&format!(".{name}")) {
                    m.method = format_ident!("{n}");
                }
                self.note_call(&name);
            }
            Expr::Call(c) => {
                let c = c.clone();
                if path_text(&c.func).ends_with("iter::once") {
                    let ch = self.chain(&Expr::Call(c)).unwrap();
                    *e = self.materialise(ch);
                    return;
                }
                if path_text(&c.func) == "Box::new" {
                    if let Some(ch) = self.chain(&c.args[0]) {
                        *e = self.materialise(ch);
                        return;
                    }
                }
                if let Some(x) = self.from_array(&c) {
                    *e = x;
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::Path(p) = strip(&c.func) {
                    if p.path.get_ident().map_or(false, |i| self.u.callables.contains(&i.to_string())) {
                        let Expr::Call(c) = &*e else { unreachable!() };
                        let (f, args) = (&c.func, &c.args);
                        *e = parse_quote!(#f.vx_call(#args));
                        return;
                    }
                }
                if let Some(n) = path_last(&c.func) {
                    self.note_call(&n);
                }
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                let n0 = self.loops.len();
                let _ = n0;
                if f.label.is_some() {
                    self.fail("labelled for loop");
                }
                let c = self.chain_or_into(&f.expr);
                let v = self.run(c, None, &mut |d, x| {
                    let mut p = (*f.pat).clone();
                    d.visit_pat_mut(&mut p);
                    let mut b = f.body.clone();
                    d.visit_block_mut(&mut b);
                    let st = &b.stmts;
                    parse_quote!(let #p = #x; #(#st)*)
                });
                *e = parse_quote!({ #(#v)* });
            }
            Expr::While(w) => {
                self.visit_expr_mut(&mut w.cond);
                let n = self.new_loop(String::new());
                let mut body = std::mem::replace(&mut w.body, parse_quote!({}));
                let top = self.at(&format!("loop {n} top"));
                self.loop_body(n, &mut body);
                let Expr::While(w) = e else { unreachable!() };
                let complex = self.complex(n);
                if let (Expr::Let(l), true) = (&*w.cond, complex.is_some()) {
                    // `while let P = x { .. }` is `loop { let P = x else { break }; .. }`
                    let (p, x, label) = (&l.pat, &l.expr, &w.label);
                    let first = body.stmts.remove(0);
                    let rest = &body.stmts;
                    *e = parse_quote!(#complex #label loop { #first #(#top)* let #p = (#x) else { break; }; #(#rest)* });
                    return;
                }
                if !top.is_empty() {
                    self.fail("top of a loop which is not `while let` with an ensures clause");
                }
                w.body = body;
            }
            Expr::Loop(w) => {
                let n = self.new_loop(String::new());
                let mut body = std::mem::replace(&mut w.body, parse_quote!({}));
                self.loop_body(n, &mut body);
                let Expr::Loop(w) = e else { unreachable!() };
                w.body = body;
            }
            Expr::Closure(c) => {
                let k = self.nclos;
                self.nclos += 1;
                match self.spec.closures.get(&k) {
                    Some((head, _)) => {
                        let body = {
                            let mut b = (*c.body).clone();
                            self.visit_expr_mut(&mut b);
                            b
                        };
                        let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
                        let (names, text) = closure_head(head);
                        if names.len() != pats.len() {
                            self.fail("closure arguments");
                            return;
                        }
                        let lets: Vec<Stmt> = pats
                            .iter()
                            .zip(&names)
                            .map(|(p, n)| {
                                let n = format_ident!("{n}");
                                parse_quote!(let #p = #n;)
                            })
                            .collect();
                        let lit = proc_macro2::Literal::usize_unsuffixed(k);
                        let head: TokenStream = text.parse().expect("closure head");
                        let ts = quote!(#head { vx_clos!(#lit); #(#lets)* #body });
                        *e = syn::parse2(ts).expect("closure");
                    }
                    None => visit_mut::visit_expr_mut(self, e),
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// `|x: T, y: U| -> (r: V)` with the result written as `vx_ret!`.
fn closure_head(h: &str) -> (Vec<String>, String) {
    let (args, ret) = h.split_once("->").expect("closure head");
    let mut depth = 0;
    let names = args
        .trim()
        .trim_matches('|')
        .split(|c| {
            match c {
                '(' | '<' | '[' => depth += 1,
                ')' | '>' | ']' => depth -= 1,
                _ => (),
            }
            c == ',' && depth == 0
        })
        .filter(|s| !s.trim().is_empty())
        .map(|a| a.split(':').next().unwrap().trim().to_string())
        .collect();
    let ret = ret.trim().trim_start_matches('(').trim_end();
    let ret = &ret[..ret.len() - 1];
    let (_, ty) = ret.split_once(':').expect("closure result");
    (names, format!("{} -> vx_cret!({})", args.trim(), ty.trim()))
}

pub fn function(u: &Unit, spec: &FnSpec, found: Found) -> Result<Output, String> {
    let rules: Vec<&(String, String)> = spec.rewrites.iter().chain(&u.rewrites).collect();
    let mut sig = found.sig;
    if let Some(s) = &spec.sig {
        sig = syn::parse_str(s).map_err(|e| format!("sig: {e}"))?;
    } else {
        let g = sig.generics.clone();
        sig.generics.where_clause = None;
        let ts = rewrite_all(sig.to_token_stream(), &rules)?;
        sig = syn::parse2(ts).map_err(|e| format!("signature: {e}"))?;
        let _ = g;
        Names { u }.visit_signature_mut(&mut sig);
        generics(u, &mut sig.generics);
    }
    if let Some(n) = &spec.rename {
        sig.ident = format_ident!("{n}");
    }
    let mut lets: Vec<Stmt> = vec![];
    let mut own_self = false;
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.reference.is_none() && r.mutability.is_some() {
                    r.mutability = None;
                    own_self = true;
                    lets.push(parse_quote!(let mut vx_self = self;));
                }
                if r.colon_token.is_some() {
                    let ty = r.ty.to_token_stream().to_string();
                    *a = if ty.starts_with("& mut") {
                        parse_quote!(&mut self)
                    } else if ty.starts_with('&') {
                        parse_quote!(&self)
                    } else {
                        parse_quote!(self)
                    };
                }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                if !matches!(*t.pat, Pat::Ident(_)) {
                    let n = format_ident!("vx_p{i}");
                    let p = &t.pat;
                    lets.push(parse_quote!(let #p = #n;));
                    t.pat = parse_quote!(#n);
                }
            }
        }
    }
    let block = rewrite_all(found.block.to_token_stream(), &rules)?;
    let block = if own_self { rename_self(block) } else { block };
    let mut block: Block = syn::parse2(block).map_err(|e| format!("body: {e}"))?;
    block.stmts = lets.into_iter().chain(block.stmts).collect();
    if spec.assumed {
        block = parse_quote!({ vx_unchecked() });
    }
    let mut d = D {
        u,
        spec,
        loops: vec![],
        fresh: Default::default(),
        nclos: 0,
        ncollect: 0,
        calls: BTreeMap::new(),
        in_stmt: vec![],
        used: vec![false; spec.ats.len()],
        notes: vec![],
        err: None,
        finding: false,
    };
    d.visit_block_mut(&mut block);
    let start = d.at("start");
    let end = d.at("end");
    if !end.is_empty() {
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                block.stmts.push(parse_quote!(let vx_tail = #e;));
                block.stmts.extend(end);
                block.stmts.push(Stmt::Expr(parse_quote!(vx_tail), None));
            }
            Some(s) => {
                block.stmts.push(s);
                block.stmts.extend(end);
            }
            None => block.stmts.extend(end),
        }
    }
    let mut stmts: Vec<Stmt> = vec![parse_quote!(vx_fn!(0);)];
    stmts.extend(start);
    stmts.extend(block.stmts);
    block.stmts = stmts;
    for (i, (a, _)) in spec.ats.iter().enumerate() {
        if !d.used[i] {
            d.fail(&format!("lost anchor {a}"));
        }
    }
    if let Some(e) = d.err {
        return Err(e);
    }
    if let ReturnType::Type(_, t) = &sig.output {
        let t = t.clone();
        sig.output = parse_quote!(-> vx_ret!(#t));
    }
    Ok(Output { text: format!("{} {}", sig.to_token_stream(), block.to_token_stream()), loops: d.loops, notes: d.notes })
}

/// The body of a function that takes `mut self`.
fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    ts.into_iter()
        .map(|t| match t {
            proc_macro2::TokenTree::Ident(i) if i == "self" => proc_macro2::TokenTree::Ident(format_ident!("vx_self")),
            proc_macro2::TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), rename_self(g.stream()));
                n.set_span(g.span());
                proc_macro2::TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}

#[allow(dead_code)]
fn unused(_: Lit, _: Delimiter) {}

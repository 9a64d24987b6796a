//! Finds items and functions in a parsed file.
use std::collections::BTreeMap;
use syn::{Block, File, ImplItem, Item, ItemFn, Signature, Stmt};

pub struct Found {
    pub sig: Signature,
    pub block: Block,
}

fn items<'a>(list: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in list {
        let attrs = match i {
            Item::Mod(m) => &m.attrs,
            _ => {
                out.push(i);
                continue;
            }
        };
        if attrs.iter().any(|a| quote::quote!(#a).to_string().contains("test")) {
            continue;
        }
        if let Item::Mod(m) = i {
            if let Some((_, l)) = &m.content {
                items(l, out);
            }
        }
    }
}

pub fn all(file: &File) -> Vec<&Item> {
    let mut v = Vec::new();
    items(&file.items, &mut v);
    v
}

pub fn item<'a>(file: &'a File, name: &str) -> Option<&'a Item> {
    all(file).into_iter().find(|i| match i {
        Item::Struct(s) => s.ident == name,
        Item::Enum(s) => s.ident == name,
        Item::Type(s) => s.ident == name,
        Item::Trait(s) => s.ident == name,
        _ => false,
    })
}

/// The traits an item derives.
pub fn derives(item: &Item) -> Vec<String> {
    let attrs = match item {
        Item::Struct(s) => &s.attrs,
        Item::Enum(s) => &s.attrs,
        _ => return Vec::new(),
    };
    let mut list: Vec<String> = Vec::new();
    for a in attrs.iter().filter(|a| a.path().is_ident("derive")) {
        let _ = a.parse_nested_meta(|m| {
            list.extend(m.path.segments.last().map(|s| s.ident.to_string()));
            Ok(())
        });
    }
    list.sort();
    list
}

fn last_ident(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => last_ident(&r.elem),
        _ => String::new(),
    }
}

/// `name`, `Type::name`, `Trait for Type::name`, `Trait<X> for Type::name`, each
/// followed by `/inner` for a function defined inside of another one.
pub fn function(file: &File, path: &str) -> Option<Found> {
    let (path, inner) = match path.split_once('/') {
        Some((p, i)) => (p, Some(i)),
        None => (path, None),
    };
    let found = top(file, path)?;
    match inner {
        None => Some(found),
        Some(i) => nested(&found.block, i),
    }
}

fn nested(block: &Block, name: &str) -> Option<Found> {
    struct V<'a>(&'a str, Option<Found>);
    impl<'ast> syn::visit::Visit<'ast> for V<'_> {
        fn visit_stmt(&mut self, s: &'ast Stmt) {
            if let Stmt::Item(Item::Fn(ItemFn { sig, block, .. })) = s {
                if sig.ident == self.0 && self.1.is_none() {
                    self.1 = Some(Found { sig: sig.clone(), block: (**block).clone() });
                }
            }
            syn::visit::visit_stmt(self, s);
        }
    }
    let mut v = V(name, None);
    syn::visit::Visit::visit_block(&mut v, block);
    v.1
}

fn top(file: &File, path: &str) -> Option<Found> {
    let (tr, rest) = match path.split_once(" for ") {
        Some((t, r)) => (Some(t.trim()), r.trim()),
        None => (None, path),
    };
    let (ty, name) = match rest.rsplit_once("::") {
        Some((t, n)) => (Some(t), n),
        None => (None, rest),
    };
    for i in all(file) {
        match i {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                return Some(Found { sig: f.sig.clone(), block: (*f.block).clone() });
            }
            Item::Trait(t) if tr == Some("trait") && ty == Some(&t.ident.to_string()) => {
                for it in &t.items {
                    if let syn::TraitItem::Fn(f) = it {
                        if f.sig.ident == name {
                            if let Some(b) = &f.default {
                                return Some(Found { sig: f.sig.clone(), block: b.clone() });
                            }
                        }
                    }
                }
            }
            Item::Impl(im) if Some(last_ident(&im.self_ty).as_str()) == ty || Some(full(&im.self_ty).as_str()) == ty => {
                let trait_text = im.trait_.as_ref().map(|(_, p, _)| {
                    let seg = p.segments.last().unwrap();
                    let args = &seg.arguments;
                    format!("{}{}", seg.ident, quote::quote!(#args).to_string().replace(' ', ""))
                });
                let ok = match (tr, &trait_text) {
                    (None, None) => true,
                    (Some(t), Some(x)) => t.replace(' ', "") == *x || x.split('<').next() == Some(t),
                    _ => false,
                };
                if !ok {
                    continue;
                }
                for it in &im.items {
                    if let ImplItem::Fn(f) = it {
                        if f.sig.ident == name {
                            return Some(Found { sig: f.sig.clone(), block: f.block.clone() });
                        }
                    }
                }
            }
            _ => (),
        }
    }
    None
}

fn full(ty: &syn::Type) -> String {
    quote::quote!(#ty).to_string().replace(' ', "")
}

/// The loops of a function and the calls that become loops, in order. Invariants
/// belong to loops by number, so they are only worth something for the same shape.
/// The same goes for the calls and ends that `anchors` belong to, which are counted.
pub fn shape(block: &Block, anchors: &[(String, String)]) -> String {
    const CALLS: &[&str] = &[
        "all", "any", "chain", "collect", "count", "extend", "filter", "filter_map", "find", "find_map", "flat_map", "flatten",
        "fold", "for_each", "map_while", "position", "retain", "take_while", "zip",
    ];
    struct V(Vec<String>, BTreeMap<String, usize>);
    impl V {
        fn count(&mut self, name: &str) {
            if let Some(n) = self.1.get_mut(name) {
                *n += 1;
            }
        }
    }
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_item(&mut self, _: &'ast Item) {}
        fn visit_expr(&mut self, e: &'ast syn::Expr) {
            match e {
                syn::Expr::MethodCall(m) => self.count(&m.method.to_string()),
                syn::Expr::Call(c) => {
                    if let syn::Expr::Path(p) = &*c.func {
                        self.count(&p.path.segments.last().unwrap().ident.to_string());
                    }
                }
                syn::Expr::Break(_) | syn::Expr::Continue(_) => self.count("jump"),
                syn::Expr::Return(_) => self.count("return"),
                _ => (),
            }
            let name = match e {
                syn::Expr::ForLoop(_) => "for".to_string(),
                syn::Expr::While(w) if matches!(*w.cond, syn::Expr::Let(_)) => "while-let".to_string(),
                syn::Expr::While(_) => "while".to_string(),
                syn::Expr::Loop(_) => "loop".to_string(),
                syn::Expr::MethodCall(m) if m.method == "extend" => {
                    let to = &m.receiver;
                    format!("extend {} ", quote::quote!(#to).to_string().replace(' ', ""))
                }
                syn::Expr::MethodCall(m) if CALLS.iter().any(|c| m.method == c) => m.method.to_string(),
                _ => return syn::visit::visit_expr(self, e),
            };
            self.0.push(format!("{name}("));
            syn::visit::visit_expr(self, e);
            self.0.push(")".into());
        }
    }
    let mut v = V(vec![], BTreeMap::from([("jump".to_string(), 0)]));
    for (at, _) in anchors {
        let mut words = at.split_whitespace();
        match words.next() {
            Some("call") => v.1.insert(words.next().unwrap_or_default().to_string(), 0),
            Some("end") => v.1.insert("return".to_string(), 0),
            _ => continue,
        };
    }
    syn::visit::Visit::visit_block(&mut v, block);
    for (name, n) in v.1 {
        if n > 0 {
            v.0.push(format!(" {name}*{n}"));
        }
    }
    v.0.concat()
}

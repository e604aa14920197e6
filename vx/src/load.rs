//! Reads the crate under /repo/src: modules, items, macros.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use syn::{Attribute, Item};

#[derive(Clone)]
pub struct FnDef {
    pub key: String,
    pub module: Vec<String>,
    pub self_ty: Option<(String, syn::Generics, syn::Type)>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub file: String,
    pub line: usize,
}

#[derive(Clone)]
pub struct TypeDef {
    pub key: String,
    pub module: Vec<String>,
    pub item: Item,
    pub derives: BTreeSet<String>,
    pub file: String,
    pub line: usize,
}

#[derive(Clone, Default)]
pub struct Module {
    pub uses: HashMap<String, Vec<String>>,
    pub globs: Vec<Vec<String>>,
    pub items: BTreeSet<String>,
    pub mods: BTreeSet<String>,
}

#[derive(Clone)]
pub struct MacroDef {
    pub name: String,
    pub tokens: proc_macro2::TokenStream,
}

#[derive(Clone)]
pub struct FromImpl {
    pub module: Vec<String>,
    pub from: syn::Type,
    pub to: syn::Type,
    pub def: FnDef,
}

#[derive(Default, Clone)]
pub struct Krate {
    pub mods: BTreeMap<Vec<String>, Module>,
    pub macros: HashMap<String, MacroDef>,
    pub fns: BTreeMap<String, FnDef>,
    pub types: BTreeMap<String, TypeDef>,
    pub method_owners: HashMap<String, Vec<String>>,
    pub froms: Vec<FromImpl>,
    pub dropped: Vec<String>,
    pub files: Vec<String>,
}

pub fn mangle(p: &[String]) -> String {
    if p.len() == 1 {
        format!("lib_{}", p[0])
    } else {
        p.join("_")
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("test") {
            return true;
        }
        if a.path().is_ident("cfg") {
            if let syn::Meta::List(l) = &a.meta {
                let t = l.tokens.to_string();
                return t == "test" || t.starts_with("feature") || t == "doctest";
            }
        }
        false
    })
}

fn derives(attrs: &[Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            if let syn::Meta::List(l) = &a.meta {
                for t in l.tokens.to_string().split(',') {
                    let t = t.trim();
                    let t = t.rsplit("::").next().unwrap_or(t).trim();
                    if !t.is_empty() {
                        out.insert(t.to_string());
                    }
                }
            }
        }
    }
    out
}

pub fn use_tree(t: &syn::UseTree, pre: &mut Vec<String>, out: &mut HashMap<String, Vec<String>>, globs: &mut Vec<Vec<String>>) {
    match t {
        syn::UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_tree(&p.tree, pre, out, globs);
            pre.pop();
        }
        syn::UseTree::Name(n) => {
            let n = n.ident.to_string();
            if n == "self" {
                if let Some(l) = pre.last().cloned() {
                    out.insert(l, pre.clone());
                }
            } else {
                let mut p = pre.clone();
                p.push(n.clone());
                out.insert(n, p);
            }
        }
        syn::UseTree::Rename(r) => {
            let mut p = pre.clone();
            if r.ident != "self" {
                p.push(r.ident.to_string());
            }
            out.insert(r.rename.to_string(), p);
        }
        syn::UseTree::Glob(_) => globs.push(pre.clone()),
        syn::UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, pre, out, globs);
            }
        }
    }
}

pub fn load(src: &Path) -> Result<Krate, String> {
    let mut k = Krate::default();
    let root = src.join("lib.rs");
    load_file(&mut k, &root, src, &[], src)?;
    Ok(k)
}

/// functions of the overlay that only call macros and functions of the crate
pub fn load_harness(k: &mut Krate, text: &str) -> Result<(), String> {
    if text.is_empty() {
        return Ok(());
    }
    let ast = syn::parse_file(text).map_err(|e| format!("cannot parse the harness: {}", e))?;
    load_items(k, &ast.items, Path::new(""), &["vx_h".to_string()], Path::new(""), "(harness)")
}

fn load_file(k: &mut Krate, file: &Path, dir: &Path, modpath: &[String], src: &Path) -> Result<(), String> {
    let text = std::fs::read_to_string(file).map_err(|e| format!("cannot read {}: {}", file.display(), e))?;
    let ast = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", file.display(), e))?;
    let rel = file.strip_prefix(src).unwrap_or(file).display().to_string();
    k.files.push(rel.clone());
    load_items(k, &ast.items, dir, modpath, src, &rel)
}

fn load_items(k: &mut Krate, items: &[Item], dir: &Path, modpath: &[String], src: &Path, rel: &str) -> Result<(), String> {
    k.mods.entry(modpath.to_vec()).or_default();
    for it in items {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    k.dropped.push(format!("test module {}::{}", modpath.join("::"), m.ident));
                    continue;
                }
                let name = m.ident.to_string();
                k.mods.get_mut(modpath).unwrap().mods.insert(name.clone());
                let mut mp = modpath.to_vec();
                mp.push(name.clone());
                let sub = dir.join(&name);
                match &m.content {
                    Some((_, its)) => load_items(k, its, &sub, &mp, src, rel)?,
                    None => {
                        let mut f: PathBuf = dir.join(format!("{}.rs", name));
                        if !f.exists() {
                            f = sub.join("mod.rs");
                        }
                        load_file(k, &f, &sub, &mp, src)?;
                    }
                }
            }
            Item::Use(u) => {
                if is_test(&u.attrs) {
                    continue;
                }
                let m = k.mods.get_mut(modpath).unwrap();
                use_tree(&u.tree, &mut vec![], &mut m.uses, &mut m.globs);
            }
            Item::ExternCrate(_) => {}
            Item::Macro(m) => {
                if let Some(id) = &m.ident {
                    k.macros.insert(id.to_string(), MacroDef { name: id.to_string(), tokens: m.mac.tokens.clone() });
                }
            }
            Item::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                add_fn(k, modpath, f, rel);
            }
            Item::Struct(s) => {
                let n = s.ident.to_string();
                add_type(k, modpath, &n, it.clone(), derives(&s.attrs), rel, s.ident.span().start().line);
            }
            Item::Enum(s) => {
                let n = s.ident.to_string();
                add_type(k, modpath, &n, it.clone(), derives(&s.attrs), rel, s.ident.span().start().line);
            }
            Item::Type(s) => {
                let n = s.ident.to_string();
                add_type(k, modpath, &n, it.clone(), BTreeSet::new(), rel, s.ident.span().start().line);
            }
            Item::Const(c) => {
                let n = c.ident.to_string();
                add_type(k, modpath, &n, it.clone(), BTreeSet::new(), rel, c.ident.span().start().line);
            }
            Item::Static(_) | Item::Trait(_) | Item::Union(_) => {
                k.dropped.push(format!("item of an unsupported kind in {}", modpath.join("::")));
            }
            Item::Impl(_) => {}
            _ => {}
        }
    }
    // impls afterwards: their self types are resolved later by name
    for it in items {
        if let Item::Impl(im) = it {
            if is_test(&im.attrs) {
                continue;
            }
            add_impl(k, modpath, im, rel);
        }
    }
    Ok(())
}

fn add_fn(k: &mut Krate, modpath: &[String], f: &syn::ItemFn, rel: &str) {
    let n = f.sig.ident.to_string();
    k.mods.get_mut(modpath).unwrap().items.insert(n.clone());
    let mut p = modpath.to_vec();
    p.push(n);
    let key = mangle(&p);
    k.fns.insert(
        key.clone(),
        FnDef {
            key,
            module: modpath.to_vec(),
            self_ty: None,
            sig: f.sig.clone(),
            block: (*f.block).clone(),
            file: rel.to_string(),
            line: f.sig.ident.span().start().line,
        },
    );
}

fn add_type(k: &mut Krate, modpath: &[String], n: &str, item: Item, derives: BTreeSet<String>, rel: &str, line: usize) {
    k.mods.get_mut(modpath).unwrap().items.insert(n.to_string());
    let mut p = modpath.to_vec();
    p.push(n.to_string());
    let key = mangle(&p);
    k.types.insert(key.clone(), TypeDef { key, module: modpath.to_vec(), item, derives, file: rel.to_string(), line });
}

fn add_impl(k: &mut Krate, modpath: &[String], im: &syn::ItemImpl, rel: &str) {
    if let Some((_, tr, _)) = &im.trait_ {
        let last = tr.segments.last().unwrap();
        if last.ident == "From" {
            if let syn::PathArguments::AngleBracketed(a) = &last.arguments {
                if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            k.froms.push(FromImpl {
                                module: modpath.to_vec(),
                                from: t.clone(),
                                to: (*im.self_ty).clone(),
                                def: FnDef {
                                    key: format!("From::{}", k.froms.len()),
                                    module: modpath.to_vec(),
                                    self_ty: None,
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    file: rel.to_string(),
                                    line: f.sig.ident.span().start().line,
                                },
                            });
                        }
                    }
                }
            }
            return;
        }
        k.dropped.push(format!("impl of trait {} in {}", last.ident, modpath.join("::")));
        return;
    }
    // self type: resolved through the module later, here by its last segment
    let tyname = match &*im.self_ty {
        syn::Type::Path(p) => p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>(),
        _ => return,
    };
    for ii in &im.items {
        if let syn::ImplItem::Fn(f) = ii {
            if is_test(&f.attrs) {
                continue;
            }
            let owner = tyname.join("::");
            let key = format!("?{}@{}::{}", modpath.join("::"), owner, f.sig.ident);
            k.fns.insert(
                key.clone(),
                FnDef {
                    key,
                    module: modpath.to_vec(),
                    self_ty: Some((owner, im.generics.clone(), (*im.self_ty).clone())),
                    sig: f.sig.clone(),
                    block: f.block.clone(),
                    file: rel.to_string(),
                    line: f.sig.ident.span().start().line,
                },
            );
        }
    }
}

/// second step: resolve the self type of every impl
pub fn fix_impls(k: &mut Krate) {
    let keys: Vec<String> = k.fns.keys().filter(|x| x.starts_with('?')).cloned().collect();
    for key in keys {
        let mut d = k.fns.remove(&key).unwrap();
        let (owner, g, t) = d.self_ty.clone().unwrap();
        let segs: Vec<String> = owner.split("::").map(|s| s.to_string()).collect();
        let r = crate::resolve::canon(k, &d.module, &segs, None);
        let m = match r {
            crate::resolve::Canon::Item(m, _) => m,
            _ => owner.clone(),
        };
        let name = d.sig.ident.to_string();
        d.self_ty = Some((m.clone(), g, t));
        d.key = format!("{}::{}", m, name);
        k.method_owners.entry(name).or_default().push(m);
        k.fns.insert(d.key.clone(), d);
    }
}

/// the text a function without parameters evaluates to: a literal, a constant, or concat! of such
pub fn text_of(k: &Krate, key: &str) -> Option<String> {
    let f = k.fns.get(key)?;
    text_block(k, &f.module, &f.block)
}
fn text_block(k: &Krate, m: &[String], b: &syn::Block) -> Option<String> {
    match b.stmts.last()? {
        syn::Stmt::Expr(e, None) => {
            if let (syn::Expr::Path(p), Some(n)) = (e, b.stmts.len().checked_sub(1)) {
                // let x = "..."; x      const X: &str = "..."; X
                let id = p.path.get_ident()?.to_string();
                for s in &b.stmts[..n] {
                    match s {
                        syn::Stmt::Local(l) => {
                            let nm = match &l.pat {
                                syn::Pat::Ident(i) => i.ident.to_string(),
                                syn::Pat::Type(t) => match &*t.pat {
                                    syn::Pat::Ident(i) => i.ident.to_string(),
                                    _ => continue,
                                },
                                _ => continue,
                            };
                            if nm == id {
                                return text_expr(k, m, &l.init.as_ref()?.expr);
                            }
                        }
                        syn::Stmt::Item(Item::Const(c)) if c.ident == id => return text_expr(k, m, &c.expr),
                        syn::Stmt::Item(Item::Static(c)) if c.ident == id => return text_expr(k, m, &c.expr),
                        _ => {}
                    }
                }
            }
            text_expr(k, m, e)
        }
        syn::Stmt::Expr(syn::Expr::Return(r), _) => text_expr(k, m, r.expr.as_ref()?),
        syn::Stmt::Macro(x) => text_macro(k, m, &x.mac),
        _ => None,
    }
}
fn text_macro(k: &Krate, m: &[String], mac: &syn::Macro) -> Option<String> {
    if !mac.path.is_ident("concat") {
        return None;
    }
    let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    let args = syn::parse::Parser::parse2(p, mac.tokens.clone()).ok()?;
    args.iter().map(|a| text_expr(k, m, a)).collect()
}
fn text_expr(k: &Krate, m: &[String], e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Lit(l) => match &l.lit {
            syn::Lit::Str(s) => Some(s.value()),
            _ => None,
        },
        syn::Expr::Paren(p) => text_expr(k, m, &p.expr),
        syn::Expr::Reference(p) => text_expr(k, m, &p.expr),
        syn::Expr::Block(b) => text_block(k, m, &b.block),
        syn::Expr::Return(r) => text_expr(k, m, r.expr.as_ref()?),
        syn::Expr::Macro(x) => text_macro(k, m, &x.mac),
        syn::Expr::Call(c) if c.args.is_empty() => match &*c.func {
            syn::Expr::Path(p) => {
                let n = p.path.segments.last()?.ident.to_string();
                let c: Vec<&FnDef> = k.fns.values().filter(|f| f.sig.ident == n && f.self_ty.is_none()).collect();
                match &c[..] {
                    [f] => text_block(k, &f.module, &f.block),
                    _ => None,
                }
            }
            _ => None,
        },
        syn::Expr::Path(p) => {
            let n = p.path.segments.last()?.ident.to_string();
            let find = |own: bool| -> Option<syn::Expr> {
                let v: Vec<&TypeDef> = k.types.values().filter(|t| (!own || t.module == m) && matches!(&t.item, Item::Const(c) if c.ident == n)).collect();
                match &v[..] {
                    [t] => match &t.item {
                        Item::Const(c) => Some((*c.expr).clone()),
                        _ => None,
                    },
                    _ => None,
                }
            };
            let e = find(true).or_else(|| find(false))?;
            text_expr(k, m, &e)
        }
        _ => None,
    }
}

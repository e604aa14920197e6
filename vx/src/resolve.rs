//! Macro expansion inside bodies, path resolution, and unique names for locals.
use crate::load::{mangle, FnDef, Krate};
use crate::macros;
use proc_macro2::{Span, TokenStream};
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Debug, Clone)]
pub enum Canon {
    /// item of the crate: mangled name, remaining segments
    Item(String, Vec<String>),
    /// something outside of the crate
    Ext(Vec<String>),
    Module(Vec<String>),
}

const PRELUDE_LAST: &[&str] = &["Result", "Option", "Vec", "String", "HashMap", "Chars", "Box", "Some", "None", "Ok", "Err"];

pub fn canon(k: &Krate, module: &[String], segs: &[String], local_uses: Option<&Vec<HashMap<String, Vec<String>>>>) -> Canon {
    canon_d(k, module, segs, local_uses, 0)
}

fn canon_d(k: &Krate, module: &[String], segs: &[String], local_uses: Option<&Vec<HashMap<String, Vec<String>>>>, depth: usize) -> Canon {
    if depth > 20 || segs.is_empty() {
        return Canon::Ext(segs.to_vec());
    }
    let first = segs[0].as_str();
    let abs = |m: &[String], rest: &[String]| canon_abs(k, m, rest, depth + 1);
    match first {
        "crate" => return abs(&[], &segs[1..]),
        "self" if segs.len() > 1 => return abs(module, &segs[1..]),
        "super" => {
            let mut m = module.to_vec();
            let mut i = 0;
            while i < segs.len() && segs[i] == "super" {
                m.pop();
                i += 1;
            }
            return abs(&m, &segs[i..]);
        }
        "std" | "core" | "alloc" | "idata" => return Canon::Ext(segs.to_vec()),
        _ => {}
    }
    if let Some(lu) = local_uses {
        for s in lu.iter().rev() {
            if let Some(p) = s.get(first) {
                let mut np = p.clone();
                np.extend(segs[1..].iter().cloned());
                if np == segs {
                    return Canon::Ext(np);
                }
                return canon_d(k, module, &np, None, depth + 1);
            }
        }
    }
    if let Some(m) = k.mods.get(module) {
        if m.items.contains(first) || m.mods.contains(first) {
            return abs(module, segs);
        }
        if let Some(p) = m.uses.get(first) {
            let mut np = p.clone();
            np.extend(segs[1..].iter().cloned());
            if np == segs {
                return Canon::Ext(np);
            }
            // use paths are relative to the crate root or to the module
            return canon_d(k, module, &np, None, depth + 1);
        }
        for g in &m.globs {
            let mut np = g.clone();
            np.extend(segs.iter().cloned());
            let r = canon_d(k, module, &np, None, depth + 1);
            if let Canon::Item(..) = r {
                return r;
            }
        }
    }
    // extern prelude: a crate-root module used with 2015-like paths
    Canon::Ext(segs.to_vec())
}

fn canon_abs(k: &Krate, m: &[String], rest: &[String], depth: usize) -> Canon {
    if rest.is_empty() {
        return Canon::Module(m.to_vec());
    }
    let md = match k.mods.get(m) {
        Some(x) => x,
        None => {
            let mut v = m.to_vec();
            v.extend(rest.iter().cloned());
            return Canon::Ext(v);
        }
    };
    let f = &rest[0];
    if rest.len() == 1 && md.items.contains(f) || rest.len() > 1 && md.items.contains(f) && !md.mods.contains(f) {
        let mut p = m.to_vec();
        p.push(f.clone());
        return Canon::Item(mangle(&p), rest[1..].to_vec());
    }
    if md.mods.contains(f) {
        let mut p = m.to_vec();
        p.push(f.clone());
        return canon_abs(k, &p, &rest[1..], depth + 1);
    }
    if md.items.contains(f) {
        let mut p = m.to_vec();
        p.push(f.clone());
        return Canon::Item(mangle(&p), rest[1..].to_vec());
    }
    if md.uses.contains_key(f) {
        return canon_d(k, m, rest, None, depth + 1);
    }
    // e.g. crate::idata::... (extern crate at the root)
    Canon::Ext(rest.to_vec())
}

pub struct Resolver<'a> {
    pub k: &'a mut Krate,
    pub module: Vec<String>,
    pub fnkey: String,
    pub self_name: Option<String>,
    pub self_ident: Option<String>,
    /// `Self` stays: the function is printed inside its impl
    pub keep_self_ty: bool,
    pub scopes: Vec<HashMap<String, String>>,
    pub uses: Vec<HashMap<String, Vec<String>>>,
    pub local_items: Vec<HashMap<String, String>>,
    pub used: HashSet<String>,
    pub errors: Vec<String>,
    pub consts: HashMap<String, Expr>,
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

pub fn path1(s: &str) -> Expr {
    let p: Path = parse_str(s).unwrap_or_else(|_| panic!("path {}", s));
    Expr::Path(ExprPath { attrs: vec![], qself: None, path: p })
}

pub fn call(f: &str, args: Vec<Expr>) -> Expr {
    Expr::Call(ExprCall {
        attrs: vec![],
        func: Box::new(path1(f)),
        paren_token: Default::default(),
        args: args.into_iter().collect(),
    })
}

pub fn strlit(s: &str) -> Expr {
    Expr::Lit(ExprLit { attrs: vec![], lit: Lit::Str(LitStr::new(s, Span::call_site())) })
}

/// "a{}b{:?}" -> pieces
fn fmt_pieces(s: &str) -> std::result::Result<Vec<FmtPiece>, String> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' => {
                if it.peek() == Some(&'{') {
                    it.next();
                    lit.push('{');
                    continue;
                }
                let mut a = String::new();
                loop {
                    match it.next() {
                        Some('}') => break,
                        Some(x) => a.push(x),
                        None => return Err("bad format string".into()),
                    }
                }
                if !lit.is_empty() {
                    out.push(FmtPiece::Lit(std::mem::take(&mut lit)));
                }
                let (name, spec) = match a.split_once(':') {
                    Some((n, s)) => (n.trim().to_string(), s.trim().to_string()),
                    None => (a.trim().to_string(), String::new()),
                };
                out.push(FmtPiece::Arg(name, spec));
            }
            '}' => {
                it.next();
                lit.push('}');
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push(FmtPiece::Lit(lit));
    }
    Ok(out)
}

enum FmtPiece {
    Lit(String),
    Arg(String, String),
}

fn parse_args(ts: TokenStream) -> std::result::Result<Vec<(Option<String>, Expr)>, String> {
    use syn::parse::{ParseStream, Parser};
    (|i: ParseStream| {
        let mut v = vec![];
        while !i.is_empty() {
            let mut name = None;
            if i.peek(syn::Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                let id: Ident = i.parse()?;
                let _: Token![=] = i.parse()?;
                name = Some(id.to_string());
            }
            let e: Expr = i.parse()?;
            v.push((name, e));
            if i.peek(Token![,]) {
                let _: Token![,] = i.parse()?;
            } else {
                break;
            }
        }
        if !i.is_empty() {
            return Err(i.error("unexpected tokens"));
        }
        Ok(v)
    })
    .parse2(ts)
    .map_err(|e| e.to_string())
}

impl<'a> Resolver<'a> {
    fn fresh(&mut self, n: &str) -> String {
        let mut c = n.to_string();
        let mut i = 1;
        while self.used.contains(&c) {
            c = format!("{}_{}", n, i);
            i += 1;
        }
        self.used.insert(c.clone());
        c
    }
    pub fn bind(&mut self, n: &str) -> String {
        let f = self.fresh(n);
        self.scopes.last_mut().unwrap().insert(n.to_string(), f.clone());
        f
    }
    fn lookup(&self, n: &str) -> Option<String> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn expand_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            _ if self.k.macros.contains_key(&name) => match macros::expand(self.k, &name, m.tokens.clone()) {
                Ok(ts) => match parse2::<Expr>(ts.clone()) {
                    Ok(e) => Some(e),
                    Err(e) => {
                        self.errors.push(format!("expansion of {}!: {} in `{}`", name, e, ts));
                        None
                    }
                },
                Err(e) => {
                    self.errors.push(e);
                    None
                }
            },
            "vec" => {
                let s = m.tokens.to_string();
                if s.contains(';') {
                    self.errors.push("vec![x; n]".to_string());
                    return None;
                }
                match parse_args(m.tokens.clone()) {
                    Ok(a) => Some(call("vx_vec", a.into_iter().map(|x| x.1).collect())),
                    Err(e) => {
                        self.errors.push(e);
                        None
                    }
                }
            }
            "format" => match self.format(m.tokens.clone()) {
                Ok(e) => Some(e),
                Err(e) => {
                    self.errors.push(format!("format!: {}", e));
                    None
                }
            },
            "println" | "eprintln" | "print" | "eprint" | "debug_assert" | "debug_assert_eq" => {
                let b: Expr = parse_quote!({});
                Some(b)
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(call("vx_panic", vec![])),
            "assert" => match parse_args(m.tokens.clone()) {
                Ok(a) if !a.is_empty() => Some(call("vx_assert", vec![a[0].1.clone()])),
                _ => None,
            },
            "matches" => {
                use syn::parse::{ParseStream, Parser};
                let r = (|i: ParseStream| {
                    let e: Expr = i.parse()?;
                    let _: Token![,] = i.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.peek(Token![if]) {
                        let _: Token![if] = i.parse()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((e, p, g))
                })
                .parse2(m.tokens.clone());
                match r {
                    Ok((e, p, None)) => Some(parse_quote!(match #e { #p => true, _ => false })),
                    Ok((e, p, Some(g))) => Some(parse_quote!(match #e { #p if #g => true, _ => false })),
                    Err(e) => {
                        self.errors.push(e.to_string());
                        None
                    }
                }
            }
            "__vx_loop" => None,
            _ => {
                self.errors.push(format!("macro {}! not supported", name));
                None
            }
        }
    }

    fn format(&mut self, ts: TokenStream) -> std::result::Result<Expr, String> {
        let a = parse_args(ts)?;
        let f = match a.first() {
            Some((None, e)) => match strip(e) {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                _ => return Err("not a literal".into()),
            },
            _ => return Err("no format string".into()),
        };
        let mut pos = 1;
        let mut acc = call("vx_fmt_new", vec![]);
        for p in fmt_pieces(&f)? {
            match p {
                FmtPiece::Lit(l) => acc = call("vx_fmt_lit", vec![acc, strlit(&l)]),
                FmtPiece::Arg(n, spec) => {
                    let e: Expr = if n.is_empty() {
                        let e = a.get(pos).ok_or("missing argument")?.1.clone();
                        pos += 1;
                        e
                    } else if let Ok(i) = n.parse::<usize>() {
                        a.get(i + 1).ok_or("missing argument")?.1.clone()
                    } else {
                        match a.iter().find(|x| x.0.as_deref() == Some(&n)) {
                            Some(x) => x.1.clone(),
                            None => path1(&n),
                        }
                    };
                    let fun = match spec.as_str() {
                        "" => "vx_fmt_disp",
                        "?" | "#?" => "vx_fmt_dbg",
                        _ => return Err(format!("format spec {}", spec)),
                    };
                    let r: Expr = parse_quote!(&#e);
                    acc = call(fun, vec![acc, r]);
                }
            }
        }
        Ok(acc)
    }

    pub fn resolve_path(&mut self, p: &mut Path, is_value: bool) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs.len() == 1 && is_value {
            if segs[0] == "self" {
                if let Some(s) = &self.self_ident {
                    *p = parse_str(s).unwrap();
                }
                return;
            }
            if let Some(n) = self.lookup(&segs[0]) {
                p.segments[0].ident = ident(&n);
                return;
            }
        }
        for li in self.local_items.iter().rev() {
            if let Some(m) = li.get(&segs[0]) {
                let m = m.clone();
                p.segments[0].ident = ident(&m);
                return;
            }
        }
        if segs[0] == "Self" {
            if let Some(s) = &self.self_name {
                let s = s.clone();
                p.segments[0].ident = ident(&s);
            }
            return;
        }
        if segs.len() == 1 && PRELUDE_LAST.contains(&segs[0].as_str()) && !self.shadowed(&segs[0]) {
            return;
        }
        match canon(self.k, &self.module, &segs, Some(&self.uses)) {
            Canon::Item(m, rest) => {
                let keep = rest.len() + 1;
                let n = p.segments.len();
                let mut new: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
                new[0].ident = ident(&m);
                if is_value && keep == 1 {
                    if let Some(t) = self.k.types.get(&m) {
                        if let Item::Const(_) = t.item {
                            self.consts.insert(m.clone(), path1(&m));
                        }
                    }
                }
                p.leading_colon = None;
                p.segments = new.into_iter().collect();
            }
            Canon::Ext(v) => {
                let last = v.last().unwrap().clone();
                let keep: usize = if v[0] == "idata" {
                    0
                } else if PRELUDE_LAST.contains(&last.as_str()) {
                    1
                } else if v.len() >= 2 {
                    2
                } else {
                    1
                };
                p.leading_colon = None;
                if keep == 0 {
                    let name = match v.iter().position(|x| x == "TailCall") {
                        Some(i) => {
                            let mut s = "TailCall".to_string();
                            for x in &v[i + 1..] {
                                s.push_str("::");
                                s.push_str(x);
                            }
                            s
                        }
                        None => format!("idata_{}", last),
                    };
                    *p = parse_str(&name).unwrap();
                    return;
                }
                let lastargs = p.segments.last().unwrap().arguments.clone();
                let penult = if p.segments.len() >= 2 { Some(p.segments[p.segments.len() - 2].arguments.clone()) } else { None };
                let mut ns: Vec<PathSegment> = v[v.len() - keep.min(v.len())..]
                    .iter()
                    .map(|s| PathSegment { ident: ident(s), arguments: PathArguments::None })
                    .collect();
                let n = ns.len();
                ns[n - 1].arguments = lastargs;
                if n >= 2 {
                    if let Some(a) = penult {
                        ns[n - 2].arguments = a;
                    }
                }
                p.segments = ns.into_iter().collect();
            }
            Canon::Module(_) => {
                self.errors.push(format!("path to a module: {}", segs.join("::")));
            }
        }
    }
    fn shadowed(&self, n: &str) -> bool {
        if let Some(m) = self.k.mods.get(&self.module) {
            if m.items.contains(n) {
                return true;
            }
            if let Some(p) = m.uses.get(n) {
                return !(p[0] == "std" || p[0] == "core");
            }
        }
        false
    }

    fn bind_pat(&mut self, p: &mut Pat) {
        match p {
            Pat::Ident(pi) => {
                let n = pi.ident.to_string();
                let is_const = pi.subpat.is_none() && pi.by_ref.is_none() && pi.mutability.is_none() && n.chars().next().map(|c| c.is_uppercase()).unwrap_or(false);
                if is_const {
                    let mut path: Path = pi.ident.clone().into();
                    self.resolve_path(&mut path, false);
                    *p = Pat::Path(PatPath { attrs: vec![], qself: None, path });
                    return;
                }
                let f = self.bind(&n);
                pi.ident = ident(&f);
                if let Some((_, sp)) = &mut pi.subpat {
                    self.bind_pat(sp);
                }
            }
            Pat::Or(o) => {
                // same names in every case
                let n = o.cases.len();
                let mut first: Option<HashMap<String, String>> = None;
                for i in 0..n {
                    if let Some(f) = &first {
                        let map = f.clone();
                        rename_pat(&mut o.cases[i], &map);
                        let mut c = o.cases[i].clone();
                        self.pat_paths(&mut c);
                        o.cases[i] = c;
                    } else {
                        self.scopes.push(HashMap::new());
                        let mut c = o.cases[i].clone();
                        self.bind_pat(&mut c);
                        o.cases[i] = c;
                        let m = self.scopes.pop().unwrap();
                        for (a, b) in &m {
                            self.scopes.last_mut().unwrap().insert(a.clone(), b.clone());
                        }
                        first = Some(m);
                    }
                }
            }
            Pat::Tuple(t) => {
                for x in t.elems.iter_mut() {
                    self.bind_pat(x);
                }
            }
            Pat::TupleStruct(t) => {
                self.resolve_path(&mut t.path, false);
                for x in t.elems.iter_mut() {
                    self.bind_pat(x);
                }
            }
            Pat::Struct(s) => {
                self.resolve_path(&mut s.path, false);
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                    self.bind_pat(&mut f.pat);
                }
            }
            Pat::Path(pp) => self.resolve_path(&mut pp.path, false),
            Pat::Reference(r) => self.bind_pat(&mut r.pat),
            Pat::Paren(r) => {
                let mut inner = (*r.pat).clone();
                self.bind_pat(&mut inner);
                *p = inner;
            }
            Pat::Type(t) => {
                self.bind_pat(&mut t.pat);
                self.visit_type_mut(&mut t.ty);
            }
            Pat::Slice(s) => {
                for x in s.elems.iter_mut() {
                    self.bind_pat(x);
                }
            }
            Pat::Wild(_) | Pat::Rest(_) | Pat::Lit(_) | Pat::Range(_) => {}
            _ => self.errors.push(format!("pattern {}", p.to_token_stream())),
        }
    }
    fn pat_paths(&mut self, p: &mut Pat) {
        match p {
            Pat::TupleStruct(t) => {
                self.resolve_path(&mut t.path, false);
                for x in t.elems.iter_mut() {
                    self.pat_paths(x);
                }
            }
            Pat::Tuple(t) => {
                for x in t.elems.iter_mut() {
                    self.pat_paths(x);
                }
            }
            Pat::Path(pp) => self.resolve_path(&mut pp.path, false),
            Pat::Reference(r) => self.pat_paths(&mut r.pat),
            _ => {}
        }
    }

    /// binds the parameters of a function and resolves its body
    pub fn function(&mut self, d: &mut FnDef, keep_self: bool) {
        self.scopes.push(HashMap::new());
        for a in d.sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(t) => {
                    self.visit_type_mut(&mut t.ty);
                    let mut p = (*t.pat).clone();
                    self.bind_pat(&mut p);
                    t.pat = Box::new(p);
                }
                FnArg::Receiver(r) => {
                    if !keep_self || (r.reference.is_none() && r.mutability.is_some()) {
                        let n = self.fresh("self_0");
                        self.self_ident = Some(n);
                    }
                    let _ = r;
                }
            }
        }
        if let ReturnType::Type(_, t) = &mut d.sig.output {
            self.visit_type_mut(t);
        }
        // the types inside Fn(..) -> .. bounds
        let mut bs: Vec<&mut TypeParamBound> = vec![];
        for p in d.sig.generics.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                bs.extend(t.bounds.iter_mut());
            }
        }
        if let Some(w) = &mut d.sig.generics.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    bs.extend(t.bounds.iter_mut());
                }
            }
        }
        for b in bs {
            if let TypeParamBound::Trait(t) = b {
                if let Some(PathArguments::Parenthesized(a)) = t.path.segments.last_mut().map(|s| &mut s.arguments) {
                    for x in a.inputs.iter_mut() {
                        self.visit_type_mut(x);
                    }
                    if let ReturnType::Type(_, x) = &mut a.output {
                        self.visit_type_mut(x);
                    }
                }
            }
        }
        self.visit_block_mut(&mut d.block);
        self.scopes.pop();
    }
}

pub fn rename_pat(p: &mut Pat, map: &HashMap<String, String>) {
    match p {
        Pat::Ident(pi) => {
            if let Some(n) = map.get(&pi.ident.to_string()) {
                pi.ident = ident(n);
            }
        }
        Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| rename_pat(x, map)),
        Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| rename_pat(x, map)),
        Pat::Reference(r) => rename_pat(&mut r.pat, map),
        Pat::Paren(r) => rename_pat(&mut r.pat, map),
        _ => {}
    }
}

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Group(g) => strip(&g.expr),
        Expr::Paren(g) => strip(&g.expr),
        _ => e,
    }
}

impl<'a> VisitMut for Resolver<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.scopes.push(HashMap::new());
        self.uses.push(HashMap::new());
        self.local_items.push(HashMap::new());
        // items first
        let mut rest = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Item(Item::Use(u)) => {
                    let mut g = vec![];
                    let mut m = HashMap::new();
                    crate::load::use_tree(&u.tree, &mut vec![], &mut m, &mut g);
                    self.uses.last_mut().unwrap().extend(m);
                }
                Stmt::Item(Item::Fn(f)) => {
                    let name = f.sig.ident.to_string();
                    let key = format!("{}__{}", self.fnkey.replace("::", "__"), name);
                    self.local_items.last_mut().unwrap().insert(name.clone(), key.clone());
                    rest.push(Stmt::Item(Item::Fn(f)));
                }
                Stmt::Item(Item::Type(t)) => {
                    let name = t.ident.to_string();
                    let key = format!("{}__{}", self.fnkey.replace("::", "__"), name);
                    self.local_items.last_mut().unwrap().insert(name, key.clone());
                    rest.push(Stmt::Item(Item::Type(t)));
                }
                Stmt::Item(Item::Const(c)) => {
                    let name = c.ident.to_string();
                    let key = format!("{}__{}", self.fnkey.replace("::", "__"), name);
                    self.local_items.last_mut().unwrap().insert(name, key.clone());
                    rest.push(Stmt::Item(Item::Const(c)));
                }
                s => rest.push(s),
            }
        }
        let mut out = vec![];
        for s in rest {
            match s {
                Stmt::Item(Item::Fn(f)) => {
                    let name = f.sig.ident.to_string();
                    let key = self.local_items.last().unwrap()[&name].clone();
                    if !self.k.fns.contains_key(&key) {
                        let mut d = FnDef {
                            key: key.clone(),
                            module: self.module.clone(),
                            self_ty: None,
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            file: String::new(),
                            line: f.sig.ident.span().start().line,
                        };
                        d.sig.ident = ident(&key);
                        let pre = LocalCtx { uses: self.uses.clone(), items: self.local_items.clone() };
                        LOCAL_CTX.with(|c| c.borrow_mut().insert(key.clone(), pre));
                        let file = self.k.fns.get(&self.fnkey).map(|x| x.file.clone()).unwrap_or_default();
                        d.file = file;
                        self.k.fns.insert(key, d);
                    }
                }
                Stmt::Item(Item::Type(mut t)) => {
                    let name = t.ident.to_string();
                    let key = self.local_items.last().unwrap()[&name].clone();
                    t.ident = ident(&key);
                    self.visit_type_mut(&mut t.ty);
                    self.k.types.insert(
                        key.clone(),
                        crate::load::TypeDef { key, module: self.module.clone(), item: Item::Type(t), derives: Default::default(), file: String::new(), line: 0 },
                    );
                }
                Stmt::Item(Item::Const(mut c)) => {
                    let name = c.ident.to_string();
                    let key = self.local_items.last().unwrap()[&name].clone();
                    c.ident = ident(&key);
                    self.visit_type_mut(&mut c.ty);
                    self.visit_expr_mut(&mut c.expr);
                    self.consts.insert(key.clone(), path1(&key));
                    self.k.types.insert(
                        key.clone(),
                        crate::load::TypeDef { key, module: self.module.clone(), item: Item::Const(c), derives: Default::default(), file: String::new(), line: 0 },
                    );
                }
                Stmt::Item(_) => self.errors.push("nested item".to_string()),
                Stmt::Local(mut l) => {
                    if let Some(init) = &mut l.init {
                        self.visit_expr_mut(&mut init.expr);
                        if let Some((_, d)) = &mut init.diverge {
                            self.visit_expr_mut(d);
                        }
                    }
                    self.bind_pat(&mut l.pat);
                    l.attrs.clear();
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(Expr::Verbatim(t), _) if t.is_empty() => {}
                Stmt::Expr(mut e, s) => {
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, s));
                }
                Stmt::Macro(m) => {
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                    self.visit_expr_mut(&mut e);
                    out.push(Stmt::Expr(e, m.semi_token));
                }
            }
        }
        b.stmts = out;
        self.local_items.pop();
        self.uses.pop();
        self.scopes.pop();
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Group(g) => {
                let mut i = (*g.expr).clone();
                self.visit_expr_mut(&mut i);
                *e = i;
            }
            Expr::Paren(g) => {
                let mut i = (*g.expr).clone();
                self.visit_expr_mut(&mut i);
                // keep the grouping explicit
                *e = match i {
                    Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Range(_) | Expr::Closure(_) | Expr::Reference(_) | Expr::Assign(_) | Expr::Let(_) => {
                        Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(i) })
                    }
                    i => i,
                };
            }
            Expr::Macro(m) => {
                if m.mac.path.is_ident("__vx_loop") {
                    return;
                }
                match self.expand_macro(&m.mac.clone()) {
                    Some(mut x) => {
                        self.visit_expr_mut(&mut x);
                        *e = x;
                    }
                    None => {
                        if self.errors.is_empty() {
                            self.errors.push("macro".into());
                        }
                    }
                }
            }
            Expr::Path(p) => {
                if p.qself.is_some() {
                    self.errors.push("qualified path".into());
                }
                for s in p.path.segments.iter_mut() {
                    self.visit_path_arguments_mut(&mut s.arguments);
                }
                self.resolve_path(&mut p.path, true);
            }
            Expr::Closure(c) => {
                self.scopes.push(HashMap::new());
                c.attrs.clear();
                let mut ins: Vec<Pat> = c.inputs.iter().cloned().collect();
                for p in ins.iter_mut() {
                    self.bind_pat(p);
                }
                c.inputs = ins.into_iter().collect();
                if let ReturnType::Type(_, t) = &mut c.output {
                    self.visit_type_mut(t);
                }
                self.visit_expr_mut(&mut c.body);
                self.scopes.pop();
            }
            Expr::ForLoop(f) => {
                self.visit_expr_mut(&mut f.expr);
                self.scopes.push(HashMap::new());
                let mut p = (*f.pat).clone();
                self.bind_pat(&mut p);
                f.pat = Box::new(p);
                self.visit_block_mut(&mut f.body);
                self.scopes.pop();
            }
            Expr::If(i) => {
                self.scopes.push(HashMap::new());
                self.visit_expr_mut(&mut i.cond);
                self.visit_block_mut(&mut i.then_branch);
                self.scopes.pop();
                if let Some((_, x)) = &mut i.else_branch {
                    self.visit_expr_mut(x);
                }
            }
            Expr::While(w) => {
                self.scopes.push(HashMap::new());
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.scopes.pop();
            }
            Expr::Let(l) => {
                self.visit_expr_mut(&mut l.expr);
                let mut p = (*l.pat).clone();
                self.bind_pat(&mut p);
                l.pat = Box::new(p);
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.scopes.push(HashMap::new());
                    a.attrs.clear();
                    self.bind_pat(&mut a.pat);
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.visit_expr_mut(&mut a.body);
                    self.scopes.pop();
                }
            }
            Expr::Struct(s) => {
                self.resolve_path(&mut s.path, false);
                for f in s.fields.iter_mut() {
                    if f.colon_token.is_none() {
                        f.colon_token = Some(Default::default());
                    }
                    self.visit_expr_mut(&mut f.expr);
                }
                if let Some(r) = &mut s.rest {
                    self.visit_expr_mut(r);
                }
            }
            Expr::MethodCall(m) => {
                self.visit_expr_mut(&mut m.receiver);
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                m.args = args.into_iter().collect();
                if let Some(t) = &mut m.turbofish {
                    self.visit_angle_bracketed_generic_arguments_mut(t);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        for s in t.path.segments.iter_mut() {
            self.visit_path_arguments_mut(&mut s.arguments);
        }
        let seg = t.path.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if seg == "Self" {
            if self.keep_self_ty {
                return;
            }
            if let Some(n) = &self.self_name {
                t.path = parse_str(n).unwrap();
            }
            return;
        }
        self.resolve_path(&mut t.path, false);
    }
}

#[derive(Clone, Default)]
pub struct LocalCtx {
    pub uses: Vec<HashMap<String, Vec<String>>>,
    pub items: Vec<HashMap<String, String>>,
}

thread_local! {
    pub static LOCAL_CTX: std::cell::RefCell<HashMap<String, LocalCtx>> = Default::default();
}

/// resolves one function; `used` collects all the names of locals
pub fn resolve_fn(k: &mut Krate, d: &FnDef, used: &mut HashSet<String>, keep_self: bool) -> (FnDef, Option<String>, Vec<String>) {
    let mut d = d.clone();
    let ctx = LOCAL_CTX.with(|c| c.borrow().get(&d.key).cloned()).unwrap_or_default();
    let mut r = Resolver {
        k,
        module: d.module.clone(),
        fnkey: d.key.clone(),
        self_name: d.self_ty.as_ref().map(|x| x.0.clone()),
        self_ident: None,
        keep_self_ty: keep_self,
        scopes: vec![],
        uses: ctx.uses,
        local_items: ctx.items,
        used: std::mem::take(used),
        errors: vec![],
        consts: Default::default(),
    };
    r.function(&mut d, keep_self);
    *used = r.used;
    (d, r.self_ident, r.errors)
}

/// new names for every binder of an already resolved expression
pub fn freshen(k: &mut Krate, e: &mut Expr, used: &mut HashSet<String>) {
    struct Fr<'b> {
        used: &'b mut HashSet<String>,
        scopes: Vec<HashMap<String, String>>,
    }
    impl<'b> Fr<'b> {
        fn fresh(&mut self, n: &str) -> String {
            let base = n.to_string();
            let mut c = base.clone();
            let mut i = 1;
            while self.used.contains(&c) {
                c = format!("{}_{}", base, i);
                i += 1;
            }
            self.used.insert(c.clone());
            self.scopes.last_mut().unwrap().insert(n.to_string(), c.clone());
            c
        }
        fn pat(&mut self, p: &mut Pat) {
            match p {
                Pat::Ident(pi) => {
                    let n = pi.ident.to_string();
                    let f = self.fresh(&n);
                    pi.ident = ident(&f);
                    if let Some((_, s)) = &mut pi.subpat {
                        self.pat(s);
                    }
                }
                Pat::Or(o) => {
                    let mut map: Option<HashMap<String, String>> = None;
                    for c in o.cases.iter_mut() {
                        match &map {
                            None => {
                                self.scopes.push(HashMap::new());
                                self.pat(c);
                                let m = self.scopes.pop().unwrap();
                                self.scopes.last_mut().unwrap().extend(m.clone());
                                map = Some(m);
                            }
                            Some(m) => rename_pat(c, m),
                        }
                    }
                }
                Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.pat(x)),
                Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.pat(x)),
                Pat::Struct(s) => s.fields.iter_mut().for_each(|f| self.pat(&mut f.pat)),
                Pat::Reference(r) => self.pat(&mut r.pat),
                Pat::Paren(r) => self.pat(&mut r.pat),
                Pat::Type(t) => self.pat(&mut t.pat),
                Pat::Slice(s) => s.elems.iter_mut().for_each(|x| self.pat(x)),
                _ => {}
            }
        }
    }
    impl<'b> VisitMut for Fr<'b> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            self.scopes.push(HashMap::new());
            for s in b.stmts.iter_mut() {
                match s {
                    Stmt::Local(l) => {
                        if let Some(i) = &mut l.init {
                            self.visit_expr_mut(&mut i.expr);
                            if let Some((_, d)) = &mut i.diverge {
                                self.visit_expr_mut(d);
                            }
                        }
                        self.pat(&mut l.pat);
                    }
                    Stmt::Expr(e, _) => self.visit_expr_mut(e),
                    _ => {}
                }
            }
            self.scopes.pop();
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Path(p) => {
                    if p.path.segments.len() == 1 {
                        let n = p.path.segments[0].ident.to_string();
                        if let Some(f) = self.scopes.iter().rev().find_map(|s| s.get(&n).cloned()) {
                            p.path.segments[0].ident = ident(&f);
                        }
                    }
                }
                Expr::Closure(c) => {
                    self.scopes.push(HashMap::new());
                    for p in c.inputs.iter_mut() {
                        self.pat(p);
                    }
                    self.visit_expr_mut(&mut c.body);
                    self.scopes.pop();
                }
                Expr::ForLoop(f) => {
                    self.visit_expr_mut(&mut f.expr);
                    self.scopes.push(HashMap::new());
                    self.pat(&mut f.pat);
                    self.visit_block_mut(&mut f.body);
                    self.scopes.pop();
                }
                Expr::If(i) => {
                    self.scopes.push(HashMap::new());
                    self.visit_expr_mut(&mut i.cond);
                    self.visit_block_mut(&mut i.then_branch);
                    self.scopes.pop();
                    if let Some((_, x)) = &mut i.else_branch {
                        self.visit_expr_mut(x);
                    }
                }
                Expr::While(w) => {
                    self.scopes.push(HashMap::new());
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    self.scopes.pop();
                }
                Expr::Let(l) => {
                    self.visit_expr_mut(&mut l.expr);
                    self.pat(&mut l.pat);
                }
                Expr::Match(m) => {
                    self.visit_expr_mut(&mut m.expr);
                    for a in m.arms.iter_mut() {
                        self.scopes.push(HashMap::new());
                        self.pat(&mut a.pat);
                        if let Some((_, g)) = &mut a.guard {
                            self.visit_expr_mut(g);
                        }
                        self.visit_expr_mut(&mut a.body);
                        self.scopes.pop();
                    }
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    let _ = k;
    let mut f = Fr { used, scopes: vec![HashMap::new()] };
    f.visit_expr_mut(e);
}

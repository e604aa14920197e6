//! Prints the lowered functions with the overlay woven in.
use crate::load::{Krate, TypeDef};
use crate::lower::{Lower, RENAMED};
use crate::overlay::{subst, FnSpec, Overlay};
use crate::resolve::{resolve_fn, Resolver};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Out {
    pub s: String,
    pub vecs: BTreeSet<usize>,
}

impl Out {
    pub fn line(&self) -> usize {
        self.s.matches('\n').count() + 1
    }
}

pub struct Weave<'a> {
    pub spec: Option<&'a FnSpec>,
    pub params: Vec<String>,
    pub probe: bool,
    pub seen: BTreeSet<usize>,
}

fn loop_marker(ts: &TokenStream) -> Option<usize> {
    let v: Vec<TokenTree> = ts.clone().into_iter().take(3).collect();
    marker(&v, "__vx_loop")
}

fn marker(v: &[TokenTree], name: &str) -> Option<usize> {
    if v.len() < 3 {
        return None;
    }
    match (&v[0], &v[1], &v[2]) {
        (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g)) if i == name && p.as_char() == '!' => {
            let s = g.stream().to_string();
            s.trim_end_matches("usize").parse().ok()
        }
        _ => None,
    }
}

pub fn print(ts: TokenStream, o: &mut Out, ind: usize, w: &mut Weave) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    let mut glue = true; // no space before the next token
    while i < v.len() {
        // markers
        let mut done = false;
        for (name, which) in [("__vx_loop_body", 1), ("__vx_loop_end", 2), ("__vx_loop_after", 3), ("__vx_loop", 0)] {
            if let Some(n) = marker(&v[i..], name) {
                if which == 3 {
                    o.s.push(';');
                }
                if let Some(sp) = w.spec {
                    let t = match which {
                        1 => sp.bodies.get(&n),
                        2 => sp.ends.get(&n),
                        3 => sp.afters.get(&n),
                        _ => None,
                    };
                    if let Some(t) = t {
                        o.s.push('\n');
                        o.s.push_str(&subst(t, &w.params));
                    }
                    if which == 1 && w.probe {
                        let k = NPROBE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        o.s.push_str(&format!("\nassert(vx_probe({})); //#PROBE\n", k));
                    }
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                o.s.push('\n');
                o.s.push_str(&"    ".repeat(ind));
                glue = true;
                done = true;
                break;
            }
        }
        if done {
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    if let Some(n) = loop_marker(&g.stream()) {
                        w.seen.insert(n);
                        if let Some(sp) = w.spec {
                            if let Some((_, t)) = sp.loops.get(&n) {
                                o.s.push('\n');
                                o.s.push_str(&subst(t, &w.params));
                            }
                        }
                    }
                    o.s.push_str(" {\n");
                    o.s.push_str(&"    ".repeat(ind + 1));
                    print(g.stream(), o, ind + 1, w);
                    o.s.push('\n');
                    o.s.push_str(&"    ".repeat(ind));
                    o.s.push('}');
                    // statement-like: new line unless an expression goes on
                    match v.get(i + 1) {
                        Some(TokenTree::Punct(_)) | None => {}
                        Some(TokenTree::Ident(x)) if x == "else" => {}
                        _ => {
                            o.s.push('\n');
                            o.s.push_str(&"    ".repeat(ind));
                        }
                    }
                } else {
                    if !glue && g.delimiter() == Delimiter::None {
                        o.s.push(' ');
                    }
                    o.s.push_str(a);
                    print(g.stream(), o, ind, w);
                    o.s.push_str(b);
                }
                glue = false;
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == ';' || c == ',' {
                    o.s.push(c);
                    if c == ';' {
                        o.s.push('\n');
                        o.s.push_str(&"    ".repeat(ind));
                        glue = true;
                    } else {
                        glue = false;
                    }
                } else {
                    if !glue && c != '.' && c != ':' && c != '?' && c != '!' {
                        o.s.push(' ');
                    } else if !glue && c == '!' {
                        o.s.push(' ');
                    }
                    o.s.push(c);
                    glue = p.spacing() == Spacing::Joint || c == '\'' || c == '.' || c == '&' || c == '!' || c == '$' || c == '#';
                    if c == ':' && p.spacing() == Spacing::Alone {
                        glue = matches!(o.s.as_bytes().get(o.s.len().wrapping_sub(2)), Some(b':'));
                    }
                }
            }
            TokenTree::Ident(id) => {
                if !glue {
                    o.s.push(' ');
                }
                let s = id.to_string();
                // vx_vec(a, b) -> vx_vec2(a, b)
                if s == "vx_vec" {
                    if let Some(TokenTree::Group(g)) = v.get(i + 1) {
                        let n = count_args(&g.stream());
                        if n == 0 {
                            o.s.push_str("Vec::new");
                        } else {
                            o.vecs.insert(n);
                            o.s.push_str(&format!("vx_vec{}", n));
                        }
                    }
                } else {
                    o.s.push_str(&s);
                }
                glue = false;
            }
            TokenTree::Literal(l) => {
                if !glue {
                    o.s.push(' ');
                }
                o.s.push_str(&l.to_string());
                glue = false;
            }
        }
        i += 1;
    }
}

fn count_args(ts: &TokenStream) -> usize {
    let mut n = 0;
    let mut pending = false;
    for t in ts.clone() {
        match t {
            TokenTree::Punct(p) if p.as_char() == ',' => {
                if pending {
                    n += 1;
                }
                pending = false;
            }
            _ => pending = true,
        }
    }
    if pending {
        n += 1;
    }
    n
}

pub struct FnReport {
    pub key: String,
    pub props: Vec<String>,
    pub file: String,
    pub line: usize,
    pub from: usize,
    pub to: usize,
    pub loops: Vec<String>,
    pub inlined: Vec<String>,
    pub calls: Vec<String>,
    pub desugared: BTreeMap<String, usize>,
    pub imported: bool,
}

pub struct Report {
    pub fns: Vec<FnReport>,
    pub errors: Vec<(String, String)>,
    pub lost: Vec<String>,
    pub types: Vec<String>,
}

fn words(s: &str) -> HashSet<String> {
    let mut out = HashSet::new();
    let mut c = String::new();
    for ch in s.chars() {
        if ch.is_alphanumeric() || ch == '_' {
            c.push(ch);
        } else if !c.is_empty() {
            out.insert(std::mem::take(&mut c));
        }
    }
    if !c.is_empty() {
        out.insert(c);
    }
    out
}

pub static NPROBE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn emit(k: &mut Krate, ov: &Overlay, prelude: &str, probe: bool) -> (String, Report) {
    let mut rep = Report { fns: vec![], errors: vec![], lost: vec![], types: vec![] };
    // register nested functions
    let keys: Vec<String> = k.fns.keys().cloned().collect();
    for key in keys {
        reg_nested(k, &key);
    }
    let contracted: HashSet<String> = ov.fns.iter().map(|f| f.key.clone()).collect();
    let mut o = Out { s: String::new(), vecs: BTreeSet::new() };
    o.s.push_str("// GENERATED by /verif/vx from the current source of /repo. Do not edit.\n");
    o.s.push_str(prelude);
    o.s.push_str("\nverus! {\n");
    if probe {
        o.s.push_str("pub uninterp spec fn vx_probe(i: int) -> bool;\n");
    }
    for (f, t) in &ov.specs {
        o.s.push_str(&format!("// ---- overlay {}\n", f));
        o.s.push_str(t);
        o.s.push('\n');
    }
    let mut fo = Out { s: String::new(), vecs: BTreeSet::new() };
    let mut done = HashSet::new();
    for sp in &ov.fns {
        if !done.insert(sp.key.clone()) {
            continue;
        }
        let d = match k.fns.get(&sp.key) {
            Some(d) => d.clone(),
            None => {
                rep.lost.push(format!("function {} not found", sp.key));
                continue;
            }
        };
        let mut used = HashSet::new();
        let (d, self_id, errs) = resolve_fn(k, &d, &mut used, true);
        for e in errs {
            if !sp.imported {
                rep.errors.push((sp.key.clone(), e));
            }
        }
        // parameters
        let mut params: Vec<String> = vec![];
        let mut sigp: Vec<String> = vec![];
        let mut pre = String::new();
        for a in &d.sig.inputs {
            match a {
                FnArg::Receiver(r) => {
                    params.push("self".into());
                    match (&r.reference, &r.mutability) {
                        (Some(_), Some(_)) => sigp.push("&mut self".into()),
                        (Some((_, lt)), None) => {
                            let l = lt.as_ref().map(|l| format!("{} ", l)).unwrap_or_default();
                            sigp.push(format!("&{}self", l))
                        }
                        (None, _) => sigp.push("self".into()),
                    }
                    if let (Some(n), None) = (&self_id, &r.reference) {
                        pre = format!("let mut {} = self;\n", n);
                    }
                }
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(p) => {
                        let n = p.ident.to_string();
                        params.push(n.clone());
                        if p.mutability.is_some() {
                            pre.push_str(&format!("let mut {} = {};\n", n, n));
                        }
                        sigp.push(format!("{}: {}", n, t.ty.to_token_stream()));
                    }
                    Pat::Wild(_) => {
                        let n = format!("vx_p{}", params.len());
                        params.push(n.clone());
                        sigp.push(format!("{}: {}", n, t.ty.to_token_stream()));
                    }
                    p => rep.errors.push((sp.key.clone(), format!("parameter pattern {}", p.to_token_stream()))),
                },
            }
        }
        let mut lw = Lower {
            k,
            contracted: &contracted,
            used,
            closures: HashMap::new(),
            fnbounds: HashMap::new(),
            kinds: HashMap::new(),
            loops: vec![],
            errors: vec![],
            inlined: BTreeSet::new(),
            stack: vec![],
            calls: BTreeSet::new(),
            desugared: BTreeMap::new(),
            tmp: Default::default(),
            guard: vec![],
        };
        let mut body = Block { brace_token: Default::default(), stmts: vec![] };
        if !sp.imported {
            for a in &d.sig.inputs {
                if let FnArg::Typed(t) = a {
                    if let Pat::Ident(p) = &*t.pat {
                        if let Some(kd) = crate::lower::type_kind(lw.k, &t.ty) {
                            lw.kinds.insert(p.ident.to_string(), kd);
                        }
                    }
                }
            }
            body = lw.block_in(d.block.clone());
        }
        let (loops, errors, inlined, calls, desugared) = (lw.loops, lw.errors, lw.inlined, lw.calls, lw.desugared);
        for e in errors {
            rep.errors.push((sp.key.clone(), e));
        }
        if !sp.imported {
            for (n, (kind, _)) in &sp.loops {
                match loops.get(*n) {
                    Some(x) if x == kind || kind.is_empty() => {}
                    x => rep.lost.push(format!("{}: loop {} of kind {} (found {:?})", sp.key, n, kind, x)),
                }
            }
            if loops.len() > sp.loops.len() && !sp.loops.is_empty() || (sp.loops.is_empty() && !loops.is_empty()) {
                rep.lost.push(format!("{}: {} loops in the code, {} in the overlay", sp.key, loops.len(), sp.loops.len()));
            }
        }
        // ---- print
        let from = fo.line();
        let (ty, name) = match sp.key.split_once("::") {
            Some((t, m)) => (Some(t.to_string()), if RENAMED.contains(&m) { crate::lower::vx_name(m) } else { m.to_string() }),
            None => (None, sp.key.clone()),
        };
        if let (Some(_), Some((m, g, t))) = (&ty, &d.self_ty) {
            let mut t = t.clone();
            if let Type::Path(p) = &mut t {
                let args = p.path.segments.last().unwrap().arguments.clone();
                let mut seg: PathSegment = parse_str(m).unwrap();
                seg.arguments = args;
                p.path.segments = std::iter::once(seg).collect();
                p.path.leading_colon = None;
            }
            fo.s.push_str(&format!("impl {} {} {{\n", g.to_token_stream(), t.to_token_stream()));
        }
        if !sp.imported { fo.s.push_str("#[verifier::loop_isolation(false)]\n"); }
        if !sp.attr.is_empty() {
            fo.s.push_str(&sp.attr);
        }
        if sp.imported {
            fo.s.push_str("#[verifier::external_body]\n");
        }
        let gen = d.sig.generics.to_token_stream();
        let whr = d.sig.generics.where_clause.to_token_stream();
        let ret = match &d.sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!("-> (vx_r: {})", t.to_token_stream()),
        };
        fo.s.push_str(&format!("pub fn {} {}({}) {} {}\n", name, gen, sigp.join(", "), ret, whr));
        fo.s.push_str(&subst(&sp.contract, &params));
        fo.s.push_str("{\n");
        if sp.imported {
            fo.s.push_str("unimplemented!()\n");
        } else {
            // hide(...) has to come first
            let entry = subst(&sp.entry, &params);
            let at: usize = entry.lines().take_while(|l| l.trim().starts_with("hide(")).map(|l| l.len() + 1).sum();
            fo.s.push_str(&entry[..at]);
            if probe {
                let k = NPROBE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                fo.s.push_str(&format!("assert(vx_probe({})); //#PROBE\n", k));
            }
            fo.s.push_str(&entry[at..]);
            fo.s.push_str(&pre);
            fo.s.push_str("    ");
            let start = fo.s.len();
            let mut w = Weave { spec: Some(sp), params: params.clone(), probe, seen: BTreeSet::new() };
            let mut ts = TokenStream::new();
            for s in &body.stmts {
                s.to_tokens(&mut ts);
            }
            print(ts, &mut fo, 1, &mut w);
            if sp.partial {
                let mut tail = fo.s.split_off(start);
                for f in ["vx_slice", "vx_slice_from", "vx_slice_to"] {
                    tail = tail.replace(&format!(".{}(", f), &format!(".{}_p(", f));
                }
                fo.s.push_str(&tail);
            }
        }
        fo.s.push_str("\n}\n");
        if ty.is_some() {
            fo.s.push_str("}\n");
        }
        let to = fo.line();
        fo.s.push('\n');
        rep.fns.push(FnReport {
            key: sp.key.clone(),
            props: sp.props.clone(),
            file: d.file.clone(),
            line: d.line,
            from,
            to,
            loops,
            inlined: inlined.into_iter().collect(),
            calls: calls.into_iter().collect(),
            desugared,
            imported: sp.imported,
        });
    }
    // ---- types: all those named, transitively
    let mut need: BTreeSet<String> = ov.types.iter().cloned().collect();
    let all: Vec<String> = k.types.keys().cloned().collect();
    let ws = words(&format!("{}\n{}", o.s, fo.s));
    for t in &all {
        if ws.contains(t) {
            need.insert(t.clone());
        }
    }
    let mut texts: BTreeMap<String, String> = BTreeMap::new();
    loop {
        let todo: Vec<String> = need.iter().filter(|t| !texts.contains_key(*t)).cloned().collect();
        if todo.is_empty() {
            break;
        }
        for t in todo {
            let td = match k.types.get(&t) {
                Some(td) => td.clone(),
                None => {
                    rep.lost.push(format!("type {} not found", t));
                    texts.insert(t, String::new());
                    continue;
                }
            };
            let txt = type_text(k, &td, &mut rep);
            for w in words(&txt) {
                if k.types.contains_key(&w) {
                    need.insert(w);
                }
            }
            texts.insert(t, txt);
        }
    }
    o.s.push_str("// ---- types of the crate (attributes dropped, fields public)\n");
    for (t, txt) in &texts {
        o.s.push_str(txt);
        o.s.push('\n');
        rep.types.push(t.clone());
    }
    // ---- From impls between emitted types
    let froms = k.froms.clone();
    for f in froms {
        let mut r = mk_resolver(k, &f.module);
        let (mut a, mut b) = (f.from.clone(), f.to.clone());
        r.visit_type_mut(&mut a);
        r.visit_type_mut(&mut b);
        let (at, bt) = (a.to_token_stream().to_string(), b.to_token_stream().to_string());
        let known = |s: &str| words(s).iter().all(|w| need.contains(w) || ["String", "str", "usize"].contains(&w.as_str()));
        if at == bt || !known(&at) || !known(&bt) {
            continue;
        }
        let mut used = HashSet::new();
        let mut def = f.def.clone();
        def.self_ty = Some((bt.clone(), Default::default(), b.clone()));
        let (d, _, errs) = resolve_fn(k, &def, &mut used, true);
        for e in errs {
            rep.errors.push((format!("From<{}> for {}", at, bt), e));
        }
        let mut lw = Lower {
            k,
            contracted: &contracted,
            used,
            closures: HashMap::new(),
            fnbounds: HashMap::new(),
            kinds: HashMap::new(),
            loops: vec![],
            errors: vec![],
            inlined: BTreeSet::new(),
            stack: vec![],
            calls: BTreeSet::new(),
            desugared: BTreeMap::new(),
            tmp: Default::default(),
            guard: vec![],
        };
        let body = lw.block_in(d.block.clone());
        for e in lw.errors.clone() {
            rep.errors.push((format!("From<{}> for {}", at, bt), e));
        }
        let mut shadow = String::new();
        let p = match d.sig.inputs.first() {
            Some(FnArg::Typed(t)) => match &*t.pat {
                Pat::Ident(i) => {
                    if i.mutability.is_some() {
                        shadow = format!("let mut {} = {};\n    ", i.ident, i.ident);
                    }
                    i.ident.to_string()
                }
                Pat::Wild(_) => "vx_p0".to_string(),
                x => {
                    rep.errors.push((format!("From<{}> for {}", at, bt), format!("parameter pattern {}", x.to_token_stream())));
                    "vx_p0".to_string()
                }
            },
            _ => "vx_p0".into(),
        };
        let (a1, b1) = (at.replace(' ', ""), bt.replace(' ', ""));
        let given = ov.froms.iter().find(|x| x.0 == a1 && x.1 == b1);
        let what = given.map(|x| x.3.clone()).unwrap_or("true".into());
        let tag = given.filter(|x| !x.2.is_empty()).map(|x| format!(" //#{}", x.2.join(","))).unwrap_or_default();
        let from = fo.line();
        fo.s.push_str(&format!("impl VxFrom<{}> for {} {{\nopen spec fn vx_from_ok(a: {}, r: Self) -> bool {{ {} }}\nfn vx_from_({}: {}) -> (vx_r: Self)\n    ensures <Self as VxFrom<{}>>::vx_from_ok({}, vx_r),{}\n{{\n    {}", at, bt, at, what, p, at, at, p, tag, shadow));
        let mut w = Weave { spec: None, params: vec![], probe: false, seen: BTreeSet::new() };
        let mut ts = TokenStream::new();
        for s in &body.stmts {
            s.to_tokens(&mut ts);
        }
        print(ts, &mut fo, 1, &mut w);
        fo.s.push_str("\n}\n}\n");
        if let Some(x) = given {
            let to = fo.line();
            rep.fns.push(FnReport {
                key: format!("{}::from({})", bt, at),
                props: x.2.clone(),
                file: f.def.file.clone(),
                line: f.def.line,
                from,
                to,
                loops: vec![],
                inlined: vec![],
                calls: vec![],
                desugared: BTreeMap::new(),
                imported: x.4,
            });
        }
        fo.s.push('\n');
    }
    // ---- vec![..]
    for n in &fo.vecs {
        let a: Vec<String> = (0..*n).map(|i| format!("a{}", i)).collect();
        let ps: Vec<String> = a.iter().map(|x| format!("{}: T", x)).collect();
        o.s.push_str(&format!("pub fn vx_vec{}<T>({}) -> (r: Vec<T>)\n    ensures r@ == seq![{}],\n{{ let mut v = Vec::new();\n", n, ps.join(", "), a.join(", ")));
        for x in &a {
            o.s.push_str(&format!("v.push({}); ", x));
        }
        o.s.push_str(&format!("assert(v@ =~= seq![{}]); v }}\n\n", a.join(", ")));
    }
    let off = o.line() - 1;
    o.s.push_str(&fo.s);
    for f in rep.fns.iter_mut() {
        f.from += off;
        f.to += off;
    }
    o.s.push_str("\n} // verus!\nfn main() {}\n");
    (o.s, rep)
}

fn reg_nested(k: &mut Krate, key: &str) {
    let d = k.fns[key].clone();
    let before: HashSet<String> = k.fns.keys().cloned().collect();
    let mut used = HashSet::new();
    let _ = resolve_fn(k, &d, &mut used, true);
    let new: Vec<String> = k.fns.keys().filter(|x| !before.contains(*x)).cloned().collect();
    for n in new {
        reg_nested(k, &n);
    }
}

fn mk_resolver<'a>(k: &'a mut Krate, module: &[String]) -> Resolver<'a> {
    Resolver {
        k,
        module: module.to_vec(),
        fnkey: "type".into(),
        self_name: None,
        self_ident: None,
        keep_self_ty: false,
        scopes: vec![HashMap::new()],
        uses: vec![],
        local_items: vec![],
        used: HashSet::new(),
        errors: vec![],
        consts: Default::default(),
    }
}

fn type_text(k: &mut Krate, td: &TypeDef, rep: &mut Report) -> String {
    let mut item = td.item.clone();
    {
        let mut r = mk_resolver(k, &td.module);
        match &mut item {
            Item::Struct(s) => s.fields.iter_mut().for_each(|f| r.visit_type_mut(&mut f.ty)),
            Item::Enum(e) => e.variants.iter_mut().for_each(|v| v.fields.iter_mut().for_each(|f| r.visit_type_mut(&mut f.ty))),
            Item::Type(t) if !td.key.contains("__") => r.visit_type_mut(&mut t.ty),
            Item::Const(c) if !td.key.contains("__") => {
                r.visit_type_mut(&mut c.ty);
                r.visit_expr_mut(&mut c.expr);
            }
            _ => {}
        }
        for e in r.errors {
            rep.errors.push((td.key.clone(), e));
        }
    }
    let mut out = String::new();
    let key = &td.key;
    let id = Ident::new(key, proc_macro2::Span::call_site());
    let strip_fields = |f: &mut Fields| {
        for x in f.iter_mut() {
            x.attrs.clear();
            x.vis = parse_quote!(pub);
        }
    };
    match item {
        Item::Struct(mut s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            s.ident = id;
            strip_fields(&mut s.fields);
            if matches!(s.fields, Fields::Unnamed(_)) {
                s.semi_token = Some(Default::default());
            }
            let copy = td.derives.contains("Copy");
            if copy {
                out.push_str("#[derive(Clone, Copy)]\n");
            }
            out.push_str(&s.to_token_stream().to_string());
            out.push('\n');
            if td.derives.contains("Clone") {
                let g = s.generics.to_token_stream().to_string();
                let fields: Vec<String> = match &s.fields {
                    Fields::Named(n) => n.named.iter().map(|f| format!("{0}: self.{0}.vx_clone()", f.ident.as_ref().unwrap())).collect(),
                    Fields::Unnamed(n) => (0..n.unnamed.len()).map(|i| format!("{0}: self.{0}.vx_clone()", i)).collect(),
                    Fields::Unit => vec![],
                };
                out.push_str(&format!("impl{g} VxClone for {key}{g} {{ fn vx_clone(&self) -> (r: Self) {{ {key} {{ {} }} }} }}\n", fields.join(", ")));
            }
        }
        Item::Enum(mut e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            e.ident = id;
            let mut clike = true;
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
                if !matches!(v.fields, Fields::Unit) {
                    clike = false;
                }
            }
            if td.derives.contains("Copy") {
                out.push_str("#[derive(Clone, Copy)]\n");
            }
            out.push_str(&e.to_token_stream().to_string());
            out.push('\n');
            let names: Vec<String> = e.variants.iter().map(|v| v.ident.to_string()).collect();
            if clike && !names.is_empty() {
                // position of a variant: derived PartialEq / PartialOrd
                let arms: Vec<String> = names.iter().enumerate().map(|(i, n)| format!("{key}::{n} => {i}")).collect();
                out.push_str(&format!("pub open spec fn {key}_rank(x: {key}) -> int {{ match x {{ {} }} }}\n", arms.join(", ")));
                out.push_str(&format!(
                    "impl {key} {{ pub fn vx_rank(&self) -> (r: usize) ensures r == {key}_rank(*self) {{ match self {{ {} }} }} }}\n",
                    arms.join(", ")
                ));
                if td.derives.contains("PartialEq") {
                    out.push_str(&format!(
                        "impl VxVal for {key} {{ type V = {key}; open spec fn vv(&self) -> {key} {{ *self }} }}\n"
                    ));
                }
                if td.derives.contains("PartialOrd") {
                    out.push_str(&format!(
                        "impl VxOrd for {key} {{ open spec fn ov(&self) -> int {{ {key}_rank(*self) }} fn vx_lt_(&self, o: &{key}) -> (r: bool) {{ self.vx_rank() < o.vx_rank() }} }}\n"
                    ));
                }
                if td.derives.contains("Clone") {
                    out.push_str(&format!("impl VxClone for {key} {{ fn vx_clone(&self) -> (r: Self) {{ match self {{ {} }} }} }}\n", names.iter().map(|n| format!("{key}::{n} => {key}::{n}")).collect::<Vec<_>>().join(", ")));
                }
            }
        }
        Item::Type(mut t) => {
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            t.ident = id;
            out.push_str(&t.to_token_stream().to_string());
        }
        Item::Const(mut c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            c.ident = id;
            out.push_str(&c.to_token_stream().to_string());
        }
        _ => rep.lost.push(format!("type {} of an unsupported kind", key)),
    }
    out
}

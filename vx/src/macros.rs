//! Expansion of the crate's own macro_rules! macros.
use crate::load::Krate;
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}

static COUNT: AtomicUsize = AtomicUsize::new(0);

pub fn expand(k: &Krate, name: &str, input: TokenStream) -> Result<TokenStream, String> {
    let def = k.macros.get(name).ok_or_else(|| format!("unknown macro {}!", name))?;
    let toks: Vec<TokenTree> = def.tokens.clone().into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        let pat = match &toks[i] {
            TokenTree::Group(g) => g.stream(),
            _ => return Err(format!("macro {}: pattern expected", name)),
        };
        // =>
        i += 3;
        let body = match toks.get(i) {
            Some(TokenTree::Group(g)) => g.stream(),
            _ => return Err(format!("macro {}: body expected", name)),
        };
        i += 1;
        if let Some(TokenTree::Punct(p)) = toks.get(i) {
            if p.as_char() == ';' {
                i += 1;
            }
        }
        let pv: Vec<TokenTree> = pat.into_iter().collect();
        if let Some((b, rest)) = matcher(&pv, input.clone()) {
            if rest.is_empty() {
                let n = COUNT.fetch_add(1, Ordering::SeqCst);
                let mut bound = HashSet::new();
                collect_bound(&body, &mut bound);
                return transcribe(&body, &b, &bound, n);
            }
        }
    }
    Err(format!("no rule of macro {}! matches", name))
}

fn collect_bound(ts: &TokenStream, out: &mut HashSet<String>) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for i in 0..v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "let" => {
                let mut j = i + 1;
                if let Some(TokenTree::Ident(m)) = v.get(j) {
                    if m == "mut" {
                        j += 1;
                    }
                }
                if let Some(TokenTree::Ident(x)) = v.get(j) {
                    // not a fragment variable
                    out.insert(x.to_string());
                }
            }
            TokenTree::Group(g) => collect_bound(&g.stream(), out),
            _ => {}
        }
    }
}

fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn matcher(pat: &[TokenTree], input: TokenStream) -> Option<(HashMap<String, Bind>, TokenStream)> {
    let mut b = HashMap::new();
    let mut input = input;
    let mut i = 0;
    while i < pat.len() {
        if is_p(pat.get(i), '$') {
            match pat.get(i + 1) {
                Some(TokenTree::Ident(x)) => {
                    let kind = match pat.get(i + 3) {
                        Some(TokenTree::Ident(kd)) => kd.to_string(),
                        _ => return None,
                    };
                    let (m, rest) = fragment(&kind, input)?;
                    b.insert(x.to_string(), Bind::One(m));
                    input = rest;
                    i += 4;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut j = i + 2;
                    let mut sep: Option<char> = None;
                    let op;
                    match pat.get(j) {
                        Some(TokenTree::Punct(p)) if "*+?".contains(p.as_char()) => op = p.as_char(),
                        Some(TokenTree::Punct(p)) => {
                            sep = Some(p.as_char());
                            j += 1;
                            op = match pat.get(j) {
                                Some(TokenTree::Punct(p)) => p.as_char(),
                                _ => return None,
                            };
                        }
                        _ => return None,
                    }
                    let mut many = vec![];
                    loop {
                        if input.is_empty() {
                            break;
                        }
                        if !many.is_empty() {
                            if let Some(c) = sep {
                                let mut it = input.clone().into_iter();
                                if is_p(it.next().as_ref(), c) {
                                    input = it.collect();
                                } else {
                                    break;
                                }
                            }
                        }
                        match matcher(&inner, input.clone()) {
                            Some((bb, rest)) => {
                                many.push(bb);
                                input = rest;
                            }
                            None => return None,
                        }
                    }
                    if op == '+' && many.is_empty() {
                        return None;
                    }
                    let mut names = vec![];
                    frag_names(&inner, &mut names);
                    for n in names {
                        b.insert(n, Bind::Many(many.clone()));
                    }
                    i = j + 1;
                }
                _ => return None,
            }
        } else {
            let mut it = input.clone().into_iter();
            let t = it.next()?;
            let same = match (&pat[i], &t) {
                (TokenTree::Ident(a), TokenTree::Ident(c)) => a == c,
                (TokenTree::Punct(a), TokenTree::Punct(c)) => a.as_char() == c.as_char(),
                (TokenTree::Literal(a), TokenTree::Literal(c)) => a.to_string() == c.to_string(),
                (TokenTree::Group(a), TokenTree::Group(c)) => {
                    if a.delimiter() != c.delimiter() {
                        return None;
                    }
                    let pv: Vec<TokenTree> = a.stream().into_iter().collect();
                    let (bb, rest) = matcher(&pv, c.stream())?;
                    if !rest.is_empty() {
                        return None;
                    }
                    b.extend(bb);
                    true
                }
                _ => false,
            };
            if !same {
                return None;
            }
            input = it.collect();
            i += 1;
        }
    }
    Some((b, input))
}

fn frag_names(p: &[TokenTree], out: &mut Vec<String>) {
    for i in 0..p.len() {
        if is_p(p.get(i), '$') {
            if let Some(TokenTree::Ident(x)) = p.get(i + 1) {
                out.push(x.to_string());
            }
        }
        if let TokenTree::Group(g) = &p[i] {
            let v: Vec<TokenTree> = g.stream().into_iter().collect();
            frag_names(&v, out);
        }
    }
}

fn fragment(kind: &str, input: TokenStream) -> Option<(TokenStream, TokenStream)> {
    use quote::ToTokens;
    macro_rules! p {
        ($t:ty) => {{
            (|i: ParseStream| {
                let e: $t = i.parse()?;
                let rest: TokenStream = i.parse()?;
                Ok((e.to_token_stream(), rest))
            })
            .parse2(input)
            .ok()
        }};
    }
    match kind {
        "expr" => {
            let (e, r) = p!(syn::Expr)?;
            Some((TokenStream::from(TokenTree::Group(Group::new(Delimiter::None, e))), r))
        }
        "ident" => p!(syn::Ident),
        "ty" => p!(syn::Type),
        "path" => p!(syn::Path),
        "tt" => {
            let mut it = input.into_iter();
            let t = it.next()?;
            Some((t.into(), it.collect()))
        }
        "literal" => p!(syn::Lit),
        "block" => p!(syn::Block),
        _ => None,
    }
}

fn transcribe(body: &TokenStream, b: &HashMap<String, Bind>, bound: &HashSet<String>, n: usize) -> Result<TokenStream, String> {
    let v: Vec<TokenTree> = body.clone().into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if is_p(v.get(i), '$') {
            match v.get(i + 1) {
                Some(TokenTree::Ident(x)) if x == "crate" => {
                    out.push(TokenTree::Ident(Ident::new("crate", x.span())));
                    i += 2;
                    continue;
                }
                Some(TokenTree::Ident(x)) => {
                    match b.get(&x.to_string()) {
                        Some(Bind::One(t)) => out.extend(t.clone()),
                        _ => return Err(format!("macro variable ${} not bound", x)),
                    }
                    i += 2;
                    continue;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let mut j = i + 2;
                    let mut sep: Option<TokenTree> = None;
                    if let Some(TokenTree::Punct(p)) = v.get(j) {
                        if !"*+?".contains(p.as_char()) {
                            sep = v.get(j).cloned();
                            j += 1;
                        }
                    }
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut names = vec![];
                    frag_names(&inner, &mut names);
                    let many = names
                        .iter()
                        .find_map(|x| match b.get(x) {
                            Some(Bind::Many(m)) => Some(m.clone()),
                            _ => None,
                        })
                        .unwrap_or_default();
                    for (q, m) in many.iter().enumerate() {
                        if q > 0 {
                            if let Some(s) = &sep {
                                out.push(s.clone());
                            }
                        }
                        let mut bb = b.clone();
                        bb.extend(m.clone());
                        out.extend(transcribe(&g.stream(), &bb, bound, n)?);
                    }
                    i = j + 1;
                    continue;
                }
                _ => {}
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let s = transcribe(&g.stream(), b, bound, n)?;
                let mut ng = Group::new(g.delimiter(), s);
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            TokenTree::Ident(id) if bound.contains(&id.to_string()) && !is_field(&v, i) => {
                out.push(TokenTree::Ident(Ident::new(&format!("{}__m{}", id, n), id.span())));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Ok(out.into_iter().collect())
}

fn is_field(v: &[TokenTree], i: usize) -> bool {
    if i > 0 {
        if let TokenTree::Punct(p) = &v[i - 1] {
            if p.as_char() == '.' || (p.as_char() == ':' && p.spacing() == Spacing::Alone && i > 1 && is_p(v.get(i - 2), ':')) {
                return true;
            }
        }
    }
    is_p(v.get(i + 1), ':') && is_p(v.get(i + 2), ':')
}

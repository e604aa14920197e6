//! Mechanical desugaring of a resolved body into the subset Verus reads.
use crate::load::{FnDef, Krate};
use crate::resolve::{call, freshen, ident, path1, resolve_fn, strip};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
}

pub struct Lower<'a> {
    pub k: &'a mut Krate,
    pub contracted: &'a HashSet<String>,
    pub used: HashSet<String>,
    pub closures: HashMap<String, ExprClosure>,
    pub fnbounds: HashMap<String, (Vec<Type>, Option<Type>)>,
    pub kinds: HashMap<String, Kind>,
    pub loops: Vec<String>,
    pub errors: Vec<String>,
    pub inlined: BTreeSet<String>,
    pub stack: Vec<String>,
    pub calls: BTreeSet<String>,
    pub desugared: BTreeMap<String, usize>,
    pub tmp: std::collections::HashMap<String, usize>,
    pub guard: Vec<String>,
}

pub const RENAMED: &[&str] = &[
    "to_string", "to_owned", "clone", "cloned", "as_str", "len", "is_empty", "first", "last", "split_first", "find", "rfind",
    "replace", "chars", "as_ref", "push_str", "contains", "into_iter", "chain", "collect", "insert", "get", "iter", "starts_with",
    "ends_with", "contains_key", "split_last", "trim", "count", "nth", "to_vec", "extend", "append", "truncate", "char_indices", "bytes", "as_slice", "as_bytes", "eq", "ne",
    "is_char_boundary", "unwrap_or_default", "max", "min", "copied", "into", "remove", "into_owned", "skip", "take", "rev", "repeat", "join", "concat", "next", "enumerate",
];

pub fn vx_name(n: &str) -> String {
    let n = if n == "to_owned" { "to_string" } else { n };
    format!("vx_{}", n)
}

pub fn type_kind(k: &Krate, t: &Type) -> Option<Kind> {
    match t {
        Type::Path(p) => {
            let l = p.path.segments.last()?;
            let n = l.ident.to_string();
            match n.as_str() {
                "Option" => Some(Kind::Opt),
                "Result" => Some(Kind::Res),
                _ => match k.types.get(&n) {
                    Some(td) => match &td.item {
                        Item::Type(a) => {
                            let last = match &*a.ty {
                                Type::Path(p) => p.path.segments.last()?.ident.to_string(),
                                _ => return None,
                            };
                            match last.as_str() {
                                "Result" => Some(Kind::Res),
                                "Option" => Some(Kind::Opt),
                                _ => None,
                            }
                        }
                        _ => None,
                    },
                    None => None,
                },
            }
        }
        Type::Reference(r) => type_kind(k, &r.elem),
        Type::Paren(p) => type_kind(k, &p.elem),
        _ => None,
    }
}

/// does the expression always end in a `return`
fn diverges(e: &Expr) -> bool {
    match strip(e) {
        Expr::Return(_) => true,
        Expr::Block(b) => match b.block.stmts.last() {
            Some(Stmt::Expr(e, _)) => diverges(e),
            _ => false,
        },
        Expr::If(i) => match &i.else_branch {
            Some((_, e)) => i.then_branch.stmts.last().map_or(false, |s| matches!(s, Stmt::Expr(e, _) if diverges(e))) && diverges(e),
            None => false,
        },
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges(&a.body)),
        _ => false,
    }
}

/// does the expression contain `return` or `?` (outside closures)
pub fn escapes(e: &Expr) -> bool {
    struct V(bool);
    impl<'x> Visit<'x> for V {
        fn visit_expr(&mut self, e: &'x Expr) {
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                Expr::Closure(_) => {}
                _ => visit::visit_expr(self, e),
            }
        }
        fn visit_item(&mut self, _: &'x Item) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn stmt_escapes(s: &Stmt) -> bool {
    match s {
        Stmt::Local(l) => l.init.as_ref().map(|i| escapes(&i.expr) || i.diverge.as_ref().map(|d| escapes(&d.1)).unwrap_or(false)).unwrap_or(false),
        Stmt::Expr(e, _) => escapes(e),
        _ => false,
    }
}

pub fn block(stmts: Vec<Stmt>) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts } })
}

pub fn let_stmt(p: Pat, ty: Option<Type>, e: Expr) -> Stmt {
    let pat = match ty {
        Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(p), colon_token: Default::default(), ty: Box::new(t) }),
        None => p,
    };
    Stmt::Local(Local {
        attrs: vec![],
        let_token: Default::default(),
        pat,
        init: Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None }),
        semi_token: Default::default(),
    })
}

pub fn pid(n: &str) -> Pat {
    Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: ident(n), subpat: None })
}

fn pts(path: &str, inner: Pat) -> Pat {
    Pat::TupleStruct(PatTupleStruct {
        attrs: vec![],
        qself: None,
        path: parse_str(path).unwrap(),
        paren_token: Default::default(),
        elems: std::iter::once(inner).collect(),
    })
}

fn arm(p: Pat, b: Expr) -> Arm {
    Arm { attrs: vec![], pat: p, guard: None, fat_arrow_token: Default::default(), body: Box::new(b), comma: Some(Default::default()) }
}

fn ematch(e: Expr, arms: Vec<Arm>) -> Expr {
    Expr::Match(ExprMatch { attrs: vec![], match_token: Default::default(), expr: Box::new(e), brace_token: Default::default(), arms })
}

fn unit() -> Expr {
    Expr::Tuple(ExprTuple { attrs: vec![], paren_token: Default::default(), elems: Default::default() })
}

fn single_ident(e: &Expr) -> Option<String> {
    match strip(e) {
        Expr::Path(p) if p.path.segments.len() == 1 && p.qself.is_none() => Some(p.path.segments[0].ident.to_string()),
        _ => None,
    }
}

/// types without lifetimes; the generic parameters given become `_`
pub fn plain_type(t: &Type, generics: &HashSet<String>) -> Type {
    struct S<'b>(&'b HashSet<String>);
    impl<'b> VisitMut for S<'b> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::Path(p) = t {
                if p.path.segments.len() == 1 && self.0.contains(&p.path.segments[0].ident.to_string()) {
                    *t = parse_quote!(_);
                    return;
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
            r.lifetime = None;
            self.visit_type_mut(&mut r.elem);
        }
        fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
            let v: Vec<GenericArgument> = a.args.iter().filter(|x| !matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
            a.args = v.into_iter().collect();
            for x in a.args.iter_mut() {
                if let GenericArgument::Type(t) = x {
                    self.visit_type_mut(t);
                }
            }
        }
        fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                self.visit_angle_bracketed_generic_arguments_mut(a);
                if a.args.is_empty() {
                    s.arguments = PathArguments::None;
                }
            }
        }
    }
    let mut t = t.clone();
    S(generics).visit_type_mut(&mut t);
    t
}

impl<'a> Lower<'a> {
    fn t(&mut self, base: &str) -> String {
        loop {
            let c = self.tmp.entry(base.to_string()).or_insert(0);
            let n = format!("vx_{}{}", base, *c);
            *c += 1;
            if self.used.insert(n.clone()) {
                return n;
            }
        }
    }
    fn count(&mut self, what: &str) {
        *self.desugared.entry(what.to_string()).or_default() += 1;
    }
    fn err(&mut self, s: String) -> Expr {
        self.errors.push(s);
        unit()
    }

    // ------------------------------------------------------------------
    //  elimination of return and ? in inlined bodies

    fn leaf(&self, e: Expr, flow: bool) -> Expr {
        if flow {
            call("VxFlow::Go", vec![e])
        } else {
            e
        }
    }
    fn ret(&self, e: Expr, flow: bool) -> Expr {
        if flow {
            call("VxFlow::Ret", vec![e])
        } else {
            e
        }
    }

    fn bind(&mut self, e: Expr, flow: bool, cont: &mut dyn FnMut(&mut Self, Expr) -> Expr) -> Expr {
        if !escapes(&e) {
            return cont(self, e);
        }
        if let Expr::Try(t) = strip(&e).clone() {
            let inner = (*t.expr).clone();
            if !escapes(&inner) {
                let x = self.t("x");
                let er = self.t("e");
                let good = cont(self, path1(&x));
                let bad = self.ret(call("Err", vec![call("vx_from", vec![path1(&er)])]), flow);
                return ematch(inner, vec![arm(pts("Ok", pid(&x)), good), arm(pts("Err", pid(&er)), bad)]);
            }
            let mut c2 = |s: &mut Self, i: Expr| {
                let x = s.t("x");
                let er = s.t("e");
                let good = cont(s, path1(&x));
                let bad = s.ret(call("Err", vec![call("vx_from", vec![path1(&er)])]), flow);
                ematch(i, vec![arm(pts("Ok", pid(&x)), good), arm(pts("Err", pid(&er)), bad)])
            };
            return self.bind(inner, flow, &mut c2);
        }
        //  at most one branch goes on: what follows moves into it
        match strip(&e).clone() {
            Expr::If(mut i) if !escapes(&i.cond) => {
                let t = block(i.then_branch.stmts.clone());
                let el = i.else_branch.take().map(|(_, e)| *e).unwrap_or_else(unit);
                let (dt, de) = (diverges(&t), diverges(&el));
                if dt || de {
                    let t = if dt { self.tr(t, flow) } else { self.bind_branch(t, flow, cont) };
                    let el = if de { self.tr(el, flow) } else { self.bind_branch(el, flow, cont) };
                    i.then_branch = as_block(t);
                    i.else_branch = Some((Default::default(), Box::new(block(vec![Stmt::Expr(el, None)]))));
                    return Expr::If(i);
                }
            }
            Expr::Match(m) if !escapes(&m.expr) && m.arms.iter().filter(|a| !diverges(&a.body)).count() <= 1 => {
                let mut out = vec![];
                for a in m.arms.clone() {
                    let mut a = a;
                    a.body = Box::new(if diverges(&a.body) { self.tr(*a.body, flow) } else { self.bind_branch(*a.body, flow, cont) });
                    a.comma = Some(Default::default());
                    out.push(a);
                }
                return ematch((*m.expr).clone(), out);
            }
            //  what is tested comes first
            Expr::If(i) if diverges(&block(i.then_branch.stmts.clone())) || i.else_branch.as_ref().map_or(false, |(_, e)| diverges(e)) => {
                let l = if let Expr::Let(l) = strip(&i.cond).clone() { Some(l) } else { None };
                let tested = l.as_ref().map_or((*i.cond).clone(), |l| (*l.expr).clone());
                let mut c = |s: &mut Self, x: Expr| {
                    let mut n = i.clone();
                    n.cond = Box::new(match &l {
                        Some(l) => {
                            let mut l = l.clone();
                            l.expr = Box::new(x);
                            Expr::Let(l)
                        }
                        None => x,
                    });
                    s.bind(Expr::If(n), flow, cont)
                };
                return self.bind(tested, flow, &mut c);
            }
            Expr::Match(m) if m.arms.iter().filter(|a| !diverges(&a.body)).count() <= 1 => {
                let mut c = |s: &mut Self, x: Expr| {
                    let mut n = m.clone();
                    n.expr = Box::new(x);
                    s.bind(Expr::Match(n), flow, cont)
                };
                return self.bind((*m.expr).clone(), flow, &mut c);
            }
            _ => {}
        }
        let x = self.t("x");
        let r = self.t("r");
        let f = self.tr(e, true);
        let good = cont(self, path1(&x));
        let bad = self.ret(path1(&r), flow);
        ematch(f, vec![arm(pts("VxFlow::Go", pid(&x)), good), arm(pts("VxFlow::Ret", pid(&r)), bad)])
    }

    fn bind_branch(&mut self, e: Expr, flow: bool, cont: &mut dyn FnMut(&mut Self, Expr) -> Expr) -> Expr {
        if let Expr::Block(b) = strip(&e).clone() {
            let mut stmts = b.block.stmts.clone();
            if !stmts.iter().rev().skip(1).any(stmt_escapes) {
                match stmts.pop() {
                    Some(Stmt::Expr(t, None)) => {
                        let t = self.bind_branch(t, flow, cont);
                        stmts.push(Stmt::Expr(t, None));
                        return block(stmts);
                    }
                    Some(l) if !stmt_escapes(&l) => {
                        stmts.push(l);
                        let t = cont(self, unit());
                        stmts.push(Stmt::Expr(t, None));
                        return block(stmts);
                    }
                    None => return cont(self, unit()),
                    _ => {}
                }
            }
        }
        self.bind(e, flow, cont)
    }

    fn hoist_args(&mut self, mut args: Vec<Expr>, flow: bool, i: usize, cont: &mut dyn FnMut(&mut Self, Vec<Expr>) -> Expr) -> Expr {
        let last = args.iter().rposition(escapes);
        let last = match last {
            None => return cont(self, args),
            Some(l) => l,
        };
        let mut j = i;
        while j <= last {
            if escapes(&args[j]) {
                let a = args[j].clone();
                let mut c2 = |s: &mut Self, x: Expr| {
                    let mut n = args.clone();
                    n[j] = x;
                    s.hoist_args(n, flow, j + 1, cont)
                };
                return self.bind(a, flow, &mut c2);
            }
            if !is_simple(&args[j]) {
                let x = self.t("x");
                let a = std::mem::replace(&mut args[j], path1(&x));
                let rest = self.hoist_args(args, flow, j + 1, cont);
                return block(vec![let_stmt(pid(&x), None, a), Stmt::Expr(rest, None)]);
            }
            j += 1;
        }
        cont(self, args)
    }

    pub fn tr(&mut self, e: Expr, flow: bool) -> Expr {
        if !escapes(&e) {
            return self.leaf(e, flow);
        }
        match e {
            Expr::Paren(p) => self.tr(*p.expr, flow),
            Expr::Group(p) => self.tr(*p.expr, flow),
            Expr::Return(r) => {
                let v = r.expr.map(|x| *x).unwrap_or_else(unit);
                if !escapes(&v) {
                    return self.ret(v, flow);
                }
                let mut c = |s: &mut Self, x: Expr| s.ret(x, flow);
                self.bind(v, flow, &mut c)
            }
            Expr::Try(_) => {
                let mut c = |s: &mut Self, x: Expr| s.leaf(x, flow);
                self.bind(e, flow, &mut c)
            }
            Expr::Block(b) => self.tr_stmts(b.block.stmts, flow),
            Expr::If(i) => {
                if escapes(&i.cond) {
                    let i2 = i.clone();
                    if let Expr::Let(l) = strip(&i.cond).clone() {
                        let mut c = |s: &mut Self, x: Expr| {
                            let mut n = i2.clone();
                            let mut l = l.clone();
                            l.expr = Box::new(x);
                            n.cond = Box::new(Expr::Let(l));
                            s.tr_if(n, flow)
                        };
                        return self.bind((*l.expr).clone(), flow, &mut c);
                    }
                    let mut c = |s: &mut Self, x: Expr| {
                        let mut n = i2.clone();
                        n.cond = Box::new(x);
                        s.tr_if(n, flow)
                    };
                    return self.bind((*i.cond).clone(), flow, &mut c);
                }
                self.tr_if(i, flow)
            }
            Expr::Match(m) => {
                let arms = m.arms.clone();
                let mut c = |s: &mut Self, x: Expr| {
                    let mut out = vec![];
                    for a in arms.clone() {
                        let mut a = a;
                        a.body = Box::new(s.tr(*a.body, flow));
                        a.comma = Some(Default::default());
                        out.push(a);
                    }
                    ematch(x, out)
                };
                self.bind((*m.expr).clone(), flow, &mut c)
            }
            Expr::Call(c0) => {
                let f = (*c0.func).clone();
                let mut c = |s: &mut Self, a: Vec<Expr>| {
                    let e = Expr::Call(ExprCall { attrs: vec![], func: Box::new(f.clone()), paren_token: Default::default(), args: a.into_iter().collect() });
                    s.leaf(e, flow)
                };
                self.hoist_args(c0.args.into_iter().collect(), flow, 0, &mut c)
            }
            Expr::MethodCall(m0) => {
                let mut all = vec![(*m0.receiver).clone()];
                all.extend(m0.args.iter().cloned());
                let mut c = |s: &mut Self, a: Vec<Expr>| {
                    let mut n = m0.clone();
                    n.receiver = Box::new(a[0].clone());
                    n.args = a[1..].iter().cloned().collect();
                    s.leaf(Expr::MethodCall(n), flow)
                };
                self.hoist_args(all, flow, 0, &mut c)
            }
            Expr::Tuple(t) => {
                let mut c = |s: &mut Self, a: Vec<Expr>| {
                    let e = Expr::Tuple(ExprTuple { attrs: vec![], paren_token: Default::default(), elems: a.into_iter().collect() });
                    s.leaf(fix_tuple(e), flow)
                };
                self.hoist_args(t.elems.into_iter().collect(), flow, 0, &mut c)
            }
            Expr::Reference(r) => {
                let mut c = |s: &mut Self, x: Expr| {
                    let mut n = r.clone();
                    n.expr = Box::new(x);
                    s.leaf(Expr::Reference(n), flow)
                };
                self.bind((*r.expr).clone(), flow, &mut c)
            }
            Expr::Unary(r) => {
                let mut c = |s: &mut Self, x: Expr| {
                    let mut n = r.clone();
                    n.expr = Box::new(x);
                    s.leaf(Expr::Unary(n), flow)
                };
                self.bind((*r.expr).clone(), flow, &mut c)
            }
            Expr::Field(r) => {
                let mut c = |s: &mut Self, x: Expr| {
                    let mut n = r.clone();
                    n.base = Box::new(x);
                    s.leaf(Expr::Field(n), flow)
                };
                self.bind((*r.base).clone(), flow, &mut c)
            }
            Expr::Binary(b) if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => {
                let mut c = |s: &mut Self, a: Vec<Expr>| {
                    let mut n = b.clone();
                    n.left = Box::new(a[0].clone());
                    n.right = Box::new(a[1].clone());
                    s.leaf(Expr::Binary(n), flow)
                };
                self.hoist_args(vec![(*b.left).clone(), (*b.right).clone()], flow, 0, &mut c)
            }
            Expr::Struct(st) => {
                let es: Vec<Expr> = st.fields.iter().map(|f| f.expr.clone()).collect();
                let mut c = |s: &mut Self, a: Vec<Expr>| {
                    let mut n = st.clone();
                    for (f, x) in n.fields.iter_mut().zip(a) {
                        f.expr = x;
                    }
                    s.leaf(Expr::Struct(n), flow)
                };
                self.hoist_args(es, flow, 0, &mut c)
            }
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.tr_stmts(vec![Stmt::Expr(e, Some(Default::default()))], flow),
            other => self.err(format!("return or ? inside `{}`", short(&other))),
        }
    }

    fn tr_if(&mut self, i: ExprIf, flow: bool) -> Expr {
        let mut i = i;
        let t = self.tr(block(i.then_branch.stmts.clone()), flow);
        i.then_branch = as_block(t);
        let e = match i.else_branch.take() {
            Some((_, e)) => self.tr(*e, flow),
            None => self.leaf(unit(), flow),
        };
        i.else_branch = Some((Default::default(), Box::new(block(vec![Stmt::Expr(e, None)]))));
        Expr::If(i)
    }

    fn tr_stmts(&mut self, stmts: Vec<Stmt>, flow: bool) -> Expr {
        let pos = match stmts.iter().position(stmt_escapes) {
            None => {
                let mut stmts = stmts;
                if flow {
                    match stmts.pop() {
                        Some(Stmt::Expr(e, None)) => {
                            let l = self.leaf(e, flow);
                            stmts.push(Stmt::Expr(l, None));
                        }
                        Some(s) => {
                            stmts.push(s);
                            let l = self.leaf(unit(), flow);
                            stmts.push(Stmt::Expr(l, None));
                        }
                        None => {
                            let l = self.leaf(unit(), flow);
                            stmts.push(Stmt::Expr(l, None));
                        }
                    }
                }
                return block(stmts);
            }
            Some(p) => p,
        };
        let mut pre: Vec<Stmt> = stmts[..pos].to_vec();
        let rest: Vec<Stmt> = stmts[pos + 1..].to_vec();
        let tail = match stmts[pos].clone() {
            Stmt::Local(l) => {
                let init = l.init.clone().unwrap();
                if let Some((_, d)) = &init.diverge {
                    // let P = E else { D };
                    let pat = l.pat.clone();
                    let d = (**d).clone();
                    let mut c = |s: &mut Self, x: Expr| {
                        let good = s.tr_stmts(rest.clone(), flow);
                        let bad = s.tr(d.clone(), flow);
                        ematch(x, vec![arm(pat.clone(), good), arm(Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() }), bad)])
                    };
                    self.bind((*init.expr).clone(), flow, &mut c)
                } else {
                    let pat = l.pat.clone();
                    let mut c = |s: &mut Self, x: Expr| {
                        let mut l2 = l.clone();
                        l2.init.as_mut().unwrap().expr = Box::new(x);
                        l2.pat = pat.clone();
                        let r = s.tr_stmts(rest.clone(), flow);
                        let mut v = vec![Stmt::Local(l2)];
                        v.extend(as_block(r).stmts);
                        block(v)
                    };
                    self.bind((*init.expr).clone(), flow, &mut c)
                }
            }
            Stmt::Expr(e, semi) => {
                if let Expr::Return(_) = strip(&e) {
                    self.tr(e, flow)
                } else if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
                    let r = self.t("ret");
                    let lp = self.loop_returns(e, &r);
                    let x = self.t("r");
                    let after = self.tr_stmts(rest.clone(), flow);
                    let bad = self.ret(path1(&x), flow);
                    let mut pm = pid(&r);
                    if let Pat::Ident(p) = &mut pm {
                        p.mutability = Some(Default::default());
                    }
                    block(vec![
                        let_stmt(pm, None, path1("None")),
                        Stmt::Expr(lp, Some(Default::default())),
                        Stmt::Expr(
                            ematch(path1(&r), vec![arm(pts("Some", pid(&x)), bad), arm(Pat::Path(PatPath { attrs: vec![], qself: None, path: parse_str("None").unwrap() }), after)]),
                            None,
                        ),
                    ])
                } else if rest.is_empty() && semi.is_none() {
                    self.tr(e, flow)
                } else {
                    let mut c = |s: &mut Self, x: Expr| {
                        let r = s.tr_stmts(rest.clone(), flow);
                        let mut v = vec![];
                        if single_ident(&x).is_none() {
                            v.push(Stmt::Expr(x, Some(Default::default())));
                        }
                        v.extend(as_block(r).stmts);
                        block(v)
                    };
                    // the value of a statement is dropped
                    self.bind(e, flow, &mut c)
                }
            }
            _ => self.err("statement".into()),
        };
        pre.push(Stmt::Expr(tail, None));
        block(pre)
    }

    /// `return v` inside of a loop: { ret = Some(v); continue; } and the loop ends when ret is Some
    fn loop_returns(&mut self, e: Expr, r: &str) -> Expr {
        struct R<'b> {
            r: &'b str,
            depth: usize,
            bad: bool,
        }
        impl<'b> VisitMut for R<'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Closure(_) => {}
                    Expr::Return(x) => {
                        if self.depth != 1 {
                            self.bad = true;
                        }
                        let v = x.expr.clone().map(|x| *x).unwrap_or_else(unit);
                        let r = path1(self.r);
                        *e = parse_quote!({ #r = Some(#v); continue; });
                    }
                    Expr::Try(t) => {
                        if self.depth != 1 {
                            self.bad = true;
                        }
                        let mut i = (*t.expr).clone();
                        self.visit_expr_mut(&mut i);
                        let r = path1(self.r);
                        *e = parse_quote!(match #i { Ok(vx_v) => vx_v, Err(vx_er) => { #r = Some(Err(vx_from(vx_er))); continue; } });
                    }
                    Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                        self.depth += 1;
                        visit_mut::visit_expr_mut(self, e);
                        self.depth -= 1;
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut e = e;
        let mut v = R { r, depth: 0, bad: false };
        v.visit_expr_mut(&mut e);
        if v.bad {
            self.errors.push("return inside nested loops of an inlined body".into());
        }
        let g: Stmt = parse_quote!(__vx_guard(#r););
        let body = match &mut e {
            Expr::ForLoop(f) => &mut f.body,
            Expr::While(f) => &mut f.body,
            Expr::Loop(f) => &mut f.body,
            _ => unreachable!(),
        };
        body.stmts.insert(0, g);
        e
    }

    // ------------------------------------------------------------------

    fn take_guard(b: &mut Block) -> Option<String> {
        if let Some(Stmt::Expr(Expr::Call(c), _)) = b.stmts.first() {
            if single_ident(&c.func).as_deref() == Some("__vx_guard") {
                let g = match &c.args[0] {
                    Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                    e => single_ident(e).unwrap_or_default(),
                };
                b.stmts.remove(0);
                return Some(g);
            }
        }
        None
    }

    /// binds closure/function parameters to arguments and lowers the body
    fn inline(&mut self, params: Vec<(Pat, Option<Type>)>, args: Vec<Expr>, ret: Option<Type>, body: Expr) -> Expr {
        let mut stmts: Vec<Stmt> = vec![];
        for ((p, t), a) in params.into_iter().zip(args) {
            // closures given as an argument
            if let Pat::Ident(pi) = &p {
                let clo = match strip(&a) {
                    Expr::Closure(c) => Some(c.clone()),
                    x => single_ident(x).and_then(|n| self.closures.get(&n).cloned()),
                };
                if let Some(mut c) = clo {
                    // the types its bound gives to a closure that does not name them
                    if let Some((ins, out)) = self.fnbounds.get(&pi.ident.to_string()) {
                        let n = c.inputs.len();
                        if n == ins.len() {
                            for (x, ty) in c.inputs.iter_mut().zip(ins) {
                                if !matches!(x, Pat::Type(_)) && !matches!(ty, Type::Infer(_)) {
                                    *x = Pat::Type(PatType { attrs: vec![], pat: Box::new(x.clone()), colon_token: Default::default(), ty: Box::new(ty.clone()) });
                                }
                            }
                        }
                        if let (ReturnType::Default, Some(o)) = (&c.output, out) {
                            c.output = ReturnType::Type(Default::default(), Box::new(o.clone()));
                        }
                    }
                    self.closures.insert(pi.ident.to_string(), c);
                    continue;
                }
            }
            let (p, pre) = self.pat(p);
            let t = match t {
                Some(t) if !t.to_token_stream().to_string().contains("impl ") => Some(t),
                _ => None,
            };
            if let (Pat::Ident(pi), Some(t)) = (&p, &t) {
                if let Some(kd) = type_kind(self.k, t) {
                    self.kinds.insert(pi.ident.to_string(), kd);
                }
            }
            stmts.push(let_stmt(p, t, a));
            stmts.extend(pre);
        }
        let body = if escapes(&body) { self.tr(body, false) } else { body };
        let b = self.expr(body);
        match ret {
            Some(t) => {
                let r = self.t("r");
                stmts.push(let_stmt(pid(&r), Some(t), b));
                stmts.push(Stmt::Expr(path1(&r), None));
            }
            None => {
                if stmts.is_empty() {
                    return b;
                }
                stmts.push(Stmt::Expr(b, None));
            }
        }
        block(stmts)
    }

    fn inline_closure(&mut self, c: &ExprClosure, args: Vec<Expr>) -> Expr {
        let mut e = Expr::Closure(c.clone());
        let mut used = std::mem::take(&mut self.used);
        freshen(self.k, &mut e, &mut used);
        self.used = used;
        let c = match e {
            Expr::Closure(c) => c,
            _ => unreachable!(),
        };
        self.count("closure call inlined");
        if self.stack.len() > 40 {
            return self.err("inlining too deep".into());
        }
        let none = HashSet::new();
        let params: Vec<(Pat, Option<Type>)> = c
            .inputs
            .iter()
            .map(|p| match p {
                Pat::Type(t) => ((*t.pat).clone(), Some(plain_type(&t.ty, &none))),
                p => (p.clone(), None),
            })
            .collect();
        let ret = match &c.output {
            ReturnType::Type(_, t) => Some(plain_type(t, &none)),
            _ => None,
        };
        self.stack.push("closure".into());
        let r = self.inline(params, args, ret, (*c.body).clone());
        self.stack.pop();
        r
    }

    fn inline_fn(&mut self, key: &str, args: Vec<Expr>) -> Expr {
        if self.stack.iter().filter(|s| *s == key).count() > 2 {
            return self.err(format!("recursive function without contract: {}", key));
        }
        let d = match self.k.fns.get(key) {
            Some(d) => d.clone(),
            None => return self.err(format!("unknown function {}", key)),
        };
        self.inlined.insert(key.to_string());
        let mut used = std::mem::take(&mut self.used);
        let (d, self_id, errs) = resolve_fn(self.k, &d, &mut used, false);
        self.used = used;
        self.errors.extend(errs);
        let mut gens: HashSet<String> = HashSet::new();
        for g in d.sig.generics.type_params() {
            gens.insert(g.ident.to_string());
        }
        for i in &d.sig.inputs {
            if let FnArg::Typed(t) = i {
                if let (Pat::Ident(p), Some(b)) = (&*t.pat, fn_bound(&d.sig.generics, &t.ty, &gens)) {
                    self.fnbounds.insert(p.ident.to_string(), b);
                }
            }
        }
        let mut params = vec![];
        for i in &d.sig.inputs {
            match i {
                FnArg::Receiver(_) => params.push((pid(&self_id.clone().unwrap_or_else(|| "self".into())), None)),
                FnArg::Typed(t) => params.push(((*t.pat).clone(), Some(plain_type(&t.ty, &gens)))),
            }
        }
        let mut args = args;
        if let Some(FnArg::Receiver(r)) = d.sig.inputs.first() {
            if r.reference.is_some() {
                let a = args[0].clone();
                args[0] = if r.mutability.is_some() { parse_quote!(&mut #a) } else { parse_quote!(&#a) };
            } else if r.mutability.is_some() {
                if let (Pat::Ident(p), _) = &mut params[0] {
                    p.mutability = Some(Default::default());
                }
            }
        }
        let ret = match &d.sig.output {
            ReturnType::Type(_, t) => Some(plain_type(t, &gens)),
            _ => None,
        };
        self.stack.push(key.to_string());
        self.count("helper function inlined");
        let r = self.inline(params, args, ret, block(d.block.stmts.clone()));
        self.stack.pop();
        r
    }

    /// reference patterns -> plain binders
    fn pat(&mut self, p: Pat) -> (Pat, Vec<Stmt>) {
        let mut pre = vec![];
        let q = self.pat_in(p, &mut pre);
        (q, pre)
    }
    fn pat_in(&mut self, p: Pat, pre: &mut Vec<Stmt>) -> Pat {
        match p {
            Pat::Reference(r) => {
                let x = self.t("p");
                let e: Expr = {
                    let x = path1(&x);
                    parse_quote!(*#x)
                };
                let inner = self.pat_in(*r.pat, pre);
                pre.insert(0, let_stmt(inner, None, e));
                self.count("reference pattern");
                pid(&x)
            }
            Pat::Tuple(mut t) => {
                let v: Vec<Pat> = t.elems.iter().cloned().map(|x| self.pat_in(x, pre)).collect();
                t.elems = v.into_iter().collect();
                if t.elems.len() == 1 && !t.elems.trailing_punct() {
                    t.elems.push_punct(Default::default());
                }
                Pat::Tuple(t)
            }
            Pat::TupleStruct(mut t) => {
                let v: Vec<Pat> = t.elems.iter().cloned().map(|x| self.pat_in(x, pre)).collect();
                t.elems = v.into_iter().collect();
                Pat::TupleStruct(t)
            }
            Pat::Type(mut t) => {
                let none = HashSet::new();
                if let (Pat::Ident(pi), Some(kd)) = (&*t.pat, type_kind(self.k, &t.ty)) {
                    self.kinds.insert(pi.ident.to_string(), kd);
                }
                t.ty = Box::new(plain_type(&t.ty, &none));
                t.pat = Box::new(self.pat_in(*t.pat, pre));
                Pat::Type(t)
            }
            p => p,
        }
    }

    /// string literals inside a pattern -> binder + condition
    fn pat_lits(&mut self, p: &mut Pat, conds: &mut Vec<Expr>) {
        match p {
            Pat::Lit(l) => {
                if let Lit::Str(s) = &l.lit {
                    let x = self.t("s");
                    let lit = s.clone();
                    let xe = path1(&x);
                    conds.push(parse_quote!(vx_eq(&#xe, &#lit)));
                    *p = pid(&x);
                    self.count("string literal pattern");
                }
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.pat_lits(x, conds)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.pat_lits(x, conds)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|x| self.pat_lits(&mut x.pat, conds)),
            Pat::Reference(r) => self.pat_lits(&mut r.pat, conds),
            Pat::Paren(r) => self.pat_lits(&mut r.pat, conds),
            _ => {}
        }
    }

    fn pat_slices(&mut self, p: &mut Pat, lens: &mut Vec<Expr>, binds: &mut Vec<Stmt>) {
        match p {
            Pat::Slice(sl) => {
                let x = self.t("s");
                let xe = path1(&x);
                let n = sl.elems.len();
                let rest = sl.elems.iter().position(|e| matches!(e, Pat::Rest(_)) || matches!(e, Pat::Ident(i) if matches!(&i.subpat, Some((_, q)) if matches!(**q, Pat::Rest(_)))));
                let lit = |n: usize| -> Expr { parse_str(&format!("{}", n)).unwrap() };
                match rest {
                    None => {
                        let l = lit(n);
                        lens.push(parse_quote!(#xe.len() == #l));
                    }
                    Some(_) if n == 1 => lens.push(parse_quote!(true)),
                    Some(_) => {
                        let l = lit(n - 1);
                        lens.push(parse_quote!(#xe.len() >= #l));
                    }
                }
                for (i, e) in sl.elems.iter().enumerate() {
                    if matches!(e, Pat::Wild(_) | Pat::Rest(_)) {
                        continue;
                    }
                    let v: Expr = match rest {
                        Some(r) if i == r => {
                            let (a, b) = (lit(r), lit(n - 1 - r));
                            if n - 1 == r {
                                parse_quote!(&#xe[#a..])
                            } else {
                                parse_quote!(&#xe[#a..#xe.len() - #b])
                            }
                        }
                        Some(r) if i > r => {
                            let b = lit(n - i);
                            parse_quote!(&#xe[#xe.len() - #b])
                        }
                        _ => {
                            let a = lit(i);
                            parse_quote!(&#xe[#a])
                        }
                    };
                    let mut e = e.clone();
                    if let Pat::Ident(i) = &mut e {
                        i.subpat = None;
                    }
                    binds.push(let_stmt(e, None, v));
                }
                *p = pid(&x);
            }
            Pat::Tuple(t) => t.elems.iter_mut().for_each(|x| self.pat_slices(x, lens, binds)),
            Pat::TupleStruct(t) => t.elems.iter_mut().for_each(|x| self.pat_slices(x, lens, binds)),
            Pat::Struct(t) => t.fields.iter_mut().for_each(|x| self.pat_slices(&mut x.pat, lens, binds)),
            Pat::Reference(r) => self.pat_slices(&mut r.pat, lens, binds),
            Pat::Paren(r) => self.pat_slices(&mut r.pat, lens, binds),
            _ => {}
        }
    }

    pub fn block_in(&mut self, b: Block) -> Block {
        let mut out = vec![];
        for s in b.stmts {
            match s {
                Stmt::Local(l) => self.local(l, &mut out),
                Stmt::Expr(e, semi) => {
                    let e = self.expr(e);
                    out.push(Stmt::Expr(e, semi));
                }
                s => out.push(s),
            }
        }
        Block { brace_token: Default::default(), stmts: out }
    }

    fn local(&mut self, mut l: Local, out: &mut Vec<Stmt>) {
        if let Some(init) = &l.init {
            if let Expr::Closure(c) = strip(&init.expr) {
                if let Pat::Ident(pi) = &l.pat {
                    self.closures.insert(pi.ident.to_string(), c.clone());
                    return;
                }
            }
            if let (Pat::Ident(pi), Some(n)) = (&l.pat, single_ident(&init.expr)) {
                if let Some(c) = self.closures.get(&n).cloned() {
                    self.closures.insert(pi.ident.to_string(), c);
                    return;
                }
            }
            if let Pat::Ident(pi) = &l.pat {
                if let Some(kd) = self.kind_of(&init.expr) {
                    self.kinds.insert(pi.ident.to_string(), kd);
                }
            }
        }
        let (p, pre) = self.pat(l.pat.clone());
        l.pat = p;
        if let Some(init) = &mut l.init {
            let e = (*init.expr).clone();
            init.expr = Box::new(self.expr(e));
            if let Some((_, d)) = init.diverge.take() {
                // let P = E else { D };   ->  let binders = match E { P => binders, _ => D };
                let d = self.expr(*d);
                let e = (*init.expr).clone();
                let mut names = vec![];
                pat_names(&l.pat, &mut names);
                self.count("let else");
                let es: Vec<Expr> = names.iter().map(|n| path1(n)).collect();
                let tup = fix_tuple(Expr::Tuple(ExprTuple { attrs: vec![], paren_token: Default::default(), elems: es.into_iter().collect() }));
                let ps: Vec<Pat> = names.iter().map(|n| pid(n)).collect();
                let mut pt = PatTuple { attrs: vec![], paren_token: Default::default(), elems: ps.into_iter().collect() };
                if pt.elems.len() == 1 {
                    pt.elems.push_punct(Default::default());
                }
                let m = ematch(e, vec![arm(l.pat.clone(), tup), arm(Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() }), d)]);
                out.push(let_stmt(Pat::Tuple(pt), None, m));
                out.extend(pre);
                return;
            }
        }
        out.push(Stmt::Local(l));
        out.extend(pre);
    }

    pub fn kind_of(&self, e: &Expr) -> Option<Kind> {
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "first" | "last" | "get" | "find" | "rfind" | "split_first" | "split_last" | "next" | "pop" | "checked_add" | "checked_sub" | "nth" | "ok" | "position"
                    | "strip_prefix" | "strip_suffix" | "next_back" | "find_map" => Some(Kind::Opt),
                    "cloned" | "copied" | "map" | "and_then" | "as_ref" | "or_else" | "clone" => self.kind_of(&m.receiver),
                    "ok_or_else" | "ok_or" | "map_err" => Some(Kind::Res),
                    _ => {
                        let owners = self.k.method_owners.get(&n)?;
                        let f = self.k.fns.get(&format!("{}::{}", owners[0], n))?;
                        self.fn_kind(f)
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = strip(&c.func) {
                    let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                    let key = s.join("::");
                    match key.as_str() {
                        "Some" | "idata_consume_char" => return Some(Kind::Opt),
                        "Ok" | "Err" | "u8::from_str_radix" => return Some(Kind::Res),
                        _ => {}
                    }
                    if let Some(cl) = self.closures.get(&key) {
                        if let ReturnType::Type(_, t) = &cl.output {
                            return type_kind(self.k, t);
                        }
                        return self.kind_of(&cl.body);
                    }
                    let f = self.k.fns.get(&key)?;
                    return self.fn_kind(f);
                }
                None
            }
            Expr::Path(_) => single_ident(e).and_then(|n| if n == "None" { Some(Kind::Opt) } else { self.kinds.get(&n).copied() }),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_of(e),
                _ => None,
            },
            Expr::Match(m) => m.arms.iter().find_map(|a| self.kind_of(&a.body)),
            Expr::If(i) => match i.then_branch.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind_of(e).or_else(|| i.else_branch.as_ref().and_then(|x| self.kind_of(&x.1))),
                _ => None,
            },
            Expr::Reference(r) => self.kind_of(&r.expr),
            Expr::Field(f) => {
                let name = match &f.member {
                    Member::Named(n) => n.to_string(),
                    _ => return None,
                };
                let mut found = None;
                for t in self.k.types.values() {
                    if let Item::Struct(s) = &t.item {
                        for fl in &s.fields {
                            if fl.ident.as_ref().map(|x| x.to_string()).as_deref() == Some(&name) {
                                if let Type::Path(p) = &fl.ty {
                                    if p.path.segments.last().unwrap().ident == "Option" {
                                        found = Some(Kind::Opt);
                                    }
                                }
                            }
                        }
                    }
                }
                found
            }
            _ => None,
        }
    }

    fn fn_kind(&self, f: &FnDef) -> Option<Kind> {
        match &f.sig.output {
            ReturnType::Type(_, t) => {
                if let Some(k) = type_kind(self.k, t) {
                    return Some(k);
                }
                // unresolved alias
                if let Type::Path(p) = &**t {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.last().map(|s| s == "Result").unwrap_or(false) {
                        return Some(Kind::Res);
                    }
                    if let crate::resolve::Canon::Item(m, _) = crate::resolve::canon(self.k, &f.module, &segs, None) {
                        let t: Type = parse_str(&m).ok()?;
                        return type_kind(self.k, &t);
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// applies a closure, a constructor or a function given as an argument
    fn apply(&mut self, f: &Expr, args: Vec<Expr>) -> Expr {
        match strip(f) {
            Expr::Closure(c) => {
                let c = c.clone();
                self.inline_closure(&c, args)
            }
            Expr::Path(p) => {
                if let Some(n) = single_ident(f) {
                    if let Some(c) = self.closures.get(&n).cloned() {
                        return self.inline_closure(&c, args);
                    }
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 2 && RENAMED.contains(&segs.last().unwrap().as_str()) && args.len() == 1 {
                    let m = ident(segs.last().unwrap());
                    let a = &args[0];
                    let e: Expr = parse_quote!((#a).#m());
                    return self.expr(e);
                }
                let e = Expr::Call(ExprCall { attrs: vec![], func: Box::new(f.clone()), paren_token: Default::default(), args: args.into_iter().collect() });
                self.expr(e)
            }
            _ => self.err(format!("function value `{}`", short(f))),
        }
    }

    fn add_loop(&mut self, kind: &str) -> usize {
        self.loops.push(kind.to_string());
        self.loops.len() - 1
    }

    fn chain(&self, e: &Expr) -> bool {
        // is it an iterator expression?
        match strip(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" | "chars" | "into_iter" => m.args.is_empty(),
                    "map" | "filter" | "take_while" | "skip_while" | "rev" | "enumerate" | "skip" | "take" | "filter_map" | "copied" | "cloned" => self.chain(&m.receiver),
                    "clone" => matches!(strip(&m.receiver), Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "it_parsing")),
                    "chain" => self.chain(&m.receiver),
                    _ => false,
                }
            }
            _ => false,
        }
    }

    /// returns (source vector expression, adaptors)
    fn source(&mut self, e: &Expr) -> (Expr, Vec<(String, Expr)>) {
        match strip(e).clone() {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "iter" => {
                        let r = self.expr((*m.receiver).clone());
                        (parse_quote!(#r.vx_iter()), vec![])
                    }
                    "chars" => {
                        let r = self.expr((*m.receiver).clone());
                        (parse_quote!(#r.vx_chars().vx_iter()), vec![])
                    }
                    "map" | "filter" | "take_while" | "filter_map" | "skip_while" if m.args.len() == 1 && self.chain(&m.receiver) => {
                        let (s, mut a) = self.source(&m.receiver);
                        a.push((n, m.args[0].clone()));
                        (s, a)
                    }
                    "copied" | "cloned" if self.chain(&m.receiver) => {
                        let (s, mut a) = self.source(&m.receiver);
                        a.push((n, unit()));
                        (s, a)
                    }
                    "rev" | "skip" | "take" | "enumerate" if self.chain(&m.receiver) => {
                        let (s, a) = self.source(&m.receiver);
                        if !a.is_empty() {
                            self.errors.push(format!("iterator adaptor {} after others", n));
                        }
                        let f = ident(&format!("vx_{}", n));
                        let args: Vec<Expr> = m.args.iter().cloned().map(|x| self.expr(x)).collect();
                        (parse_quote!(#s.#f(#(#args),*)), vec![])
                    }
                    _ => {
                        let r = self.expr(Expr::MethodCall(m));
                        (parse_quote!(#r.vx_iter()), vec![])
                    }
                }
            }
            Expr::Reference(r) => {
                let x = self.expr((*r.expr).clone());
                (parse_quote!(#x.vx_iter()), vec![])
            }
            x => {
                let x = self.expr(x);
                (parse_quote!(#x.vx_iter()), vec![])
            }
        }
    }

    /// loops over an iterator; `step` gives the statements for one item
    fn iter_loop(&mut self, src: &Expr, init: Option<Expr>, until_some: bool, guard: Option<String>, step: &mut dyn FnMut(&mut Self, Expr, usize) -> Vec<Stmt>) -> Vec<Stmt> {
        let (s, adaptors) = self.source(src);
        let n = self.add_loop("iter");
        let v = format!("vx_v{}", n);
        let i = format!("vx_i{}", n);
        let acc = format!("vx_acc{}", n);
        let stop = format!("vx_stop{}", n);
        for x in [&v, &i, &acc, &stop] {
            self.used.insert(x.clone());
        }
        let (vi, ii, ai, si) = (ident(&v), ident(&i), ident(&acc), ident(&stop));
        self.count("iterator loop");
        let mut out: Vec<Stmt> = vec![];
        out.push(parse_quote!(let #vi = #s;));
        out.push(parse_quote!(let mut #ii: usize = 0;));
        if let Some(x) = init {
            out.push(parse_quote!(let mut #ai = #x;));
        }
        let has_stop = adaptors.iter().any(|a| a.0 == "take_while");
        if has_stop {
            out.push(parse_quote!(let mut #si: bool = false;));
        }
        let mut cond: Expr = parse_quote!(#ii < #vi.len());
        if until_some {
            cond = parse_quote!(#ai.is_none() && #cond);
        }
        if has_stop {
            cond = parse_quote!(!#si && #cond);
        }
        if let Some(g) = guard {
            let g = ident(&g);
            cond = parse_quote!(#g.is_none() && #cond);
        }
        let lit = n;
        let mut body: Vec<Stmt> = vec![];
        body.push(parse_quote!(__vx_loop!(#lit);));
        let x = self.t("x");
        let xi = ident(&x);
        body.push(parse_quote!(let #xi = #vi[#ii];));
        body.push(parse_quote!(#ii = #ii + 1;));
        body.push(parse_quote!(__vx_loop_body!(#lit);));
        // adaptors, innermost code last
        let inner = self.adapt(&adaptors, 0, path1(&x), &si, n, step);
        body.extend(inner);
        body.push(parse_quote!(__vx_loop_end!(#lit);));
        let b = Block { brace_token: Default::default(), stmts: body };
        out.push(parse_quote!(while #cond #b));
        out.push(parse_quote!(__vx_loop_after!(#lit);));
        out
    }

    fn adapt(&mut self, ad: &[(String, Expr)], i: usize, x: Expr, stop: &Ident, n: usize, step: &mut dyn FnMut(&mut Self, Expr, usize) -> Vec<Stmt>) -> Vec<Stmt> {
        if i == ad.len() {
            return step(self, x, n);
        }
        match ad[i].0.as_str() {
            "map" => {
                let y = self.apply(&ad[i].1.clone(), vec![x]);
                let t = self.t("x");
                let mut v = vec![let_stmt(pid(&t), None, y)];
                v.extend(self.adapt(ad, i + 1, path1(&t), stop, n, step));
                v
            }
            "filter" => {
                let r: Expr = parse_quote!(&#x);
                let c = self.apply(&ad[i].1.clone(), vec![r]);
                let inner = self.adapt(ad, i + 1, x, stop, n, step);
                vec![parse_quote!(if #c { #(#inner)* })]
            }
            "take_while" => {
                let r: Expr = parse_quote!(&#x);
                let c = self.apply(&ad[i].1.clone(), vec![r]);
                let inner = self.adapt(ad, i + 1, x, stop, n, step);
                vec![parse_quote!(if #c { #(#inner)* } else { #stop = true; })]
            }
            "filter_map" => {
                let c = self.apply(&ad[i].1.clone(), vec![x]);
                let t = self.t("x");
                let ti = ident(&t);
                let inner = self.adapt(ad, i + 1, path1(&t), stop, n, step);
                vec![parse_quote!(match #c { Some(#ti) => { #(#inner)* } None => {} })]
            }
            "copied" => {
                let t = self.t("x");
                let e: Expr = parse_quote!(*#x);
                let mut v = vec![let_stmt(pid(&t), None, e)];
                v.extend(self.adapt(ad, i + 1, path1(&t), stop, n, step));
                v
            }
            "cloned" => {
                let t = self.t("x");
                let e: Expr = parse_quote!(#x.vx_clone());
                let mut v = vec![let_stmt(pid(&t), None, e)];
                v.extend(self.adapt(ad, i + 1, path1(&t), stop, n, step));
                v
            }
            o => {
                self.errors.push(format!("iterator adaptor {}", o));
                vec![]
            }
        }
    }

    fn lower_call_args(&mut self, a: impl Iterator<Item = Expr>) -> Vec<Expr> {
        a.map(|x| {
            // closures stay as they are: they are only used by inlining
            let is_clo = matches!(strip(&x), Expr::Closure(_)) || single_ident(&x).map(|n| self.closures.contains_key(&n)).unwrap_or(false);
            if is_clo {
                x
            } else {
                self.expr(x)
            }
        })
        .collect()
    }

    pub fn expr(&mut self, e: Expr) -> Expr {
        match e {
            Expr::Group(g) => self.expr(*g.expr),
            Expr::Paren(mut g) => {
                g.expr = Box::new(self.expr(*g.expr));
                Expr::Paren(g)
            }
            Expr::Block(b) => {
                let bb = self.block_in(b.block);
                Expr::Block(ExprBlock { attrs: vec![], label: b.label, block: bb })
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Try(t) => {
                let x = self.t("x");
                let er = self.t("e");
                let kd = self.kind_of(&t.expr);
                let i = self.expr(*t.expr);
                self.count("? operator");
                let (xi, ei) = (ident(&x), ident(&er));
                if kd == Some(Kind::Opt) {
                    return parse_quote!(match #i { Some(#xi) => #xi, None => return None, });
                }
                parse_quote!(match #i { Ok(#xi) => #xi, Err(#ei) => return Err(vx_from(#ei)), })
            }
            Expr::Binary(b) => self.binary(b),
            Expr::Unary(mut u) => {
                u.expr = Box::new(self.expr(*u.expr));
                Expr::Unary(u)
            }
            Expr::Reference(r) => {
                if let Expr::Index(i) = strip(&r.expr) {
                    if let Expr::Range(rg) = strip(&i.index) {
                        return self.slice((*i.expr).clone(), rg.clone());
                    }
                }
                let mut r = r;
                let inner = (*r.expr).clone();
                r.expr = Box::new(self.expr(inner));
                Expr::Reference(r)
            }
            Expr::Index(i) => {
                if let Expr::Range(rg) = strip(&i.index) {
                    let s = self.slice((*i.expr).clone(), rg.clone());
                    return parse_quote!((*#s));
                }
                let mut i = i;
                i.expr = Box::new(self.expr(*i.expr));
                i.index = Box::new(self.expr(*i.index));
                Expr::Index(i)
            }
            Expr::Field(mut f) => {
                f.base = Box::new(self.expr(*f.base));
                Expr::Field(f)
            }
            Expr::Tuple(mut t) => {
                let v: Vec<Expr> = t.elems.iter().cloned().map(|x| self.expr(x)).collect();
                t.elems = v.into_iter().collect();
                fix_tuple(Expr::Tuple(t))
            }
            Expr::Array(mut t) => {
                let v: Vec<Expr> = t.elems.iter().cloned().map(|x| self.expr(x)).collect();
                t.elems = v.into_iter().collect();
                Expr::Array(t)
            }
            Expr::Struct(mut s) => {
                for f in s.fields.iter_mut() {
                    f.expr = self.expr(f.expr.clone());
                }
                if let Some(r) = s.rest.take() {
                    s.rest = Some(Box::new(self.expr(*r)));
                }
                Expr::Struct(s)
            }
            Expr::If(mut i) => {
                if let Expr::Let(l) = strip(&i.cond).clone() {
                    // if let P = E { A } else { B }  ->  match
                    let s = self.expr((*l.expr).clone());
                    let then = block(i.then_branch.stmts.clone());
                    let other = match i.else_branch.take() {
                        Some((_, e)) => *e,
                        None => block(vec![]),
                    };
                    self.count("if let");
                    let m = ExprMatch {
                        attrs: vec![],
                        match_token: Default::default(),
                        expr: Box::new(s),
                        brace_token: Default::default(),
                        arms: vec![arm((*l.pat).clone(), then), arm(Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() }), other)],
                    };
                    return self.match_arms(m);
                }
                i.cond = Box::new(self.expr(*i.cond));
                i.then_branch = self.block_in(i.then_branch);
                if let Some((t, e)) = i.else_branch.take() {
                    let e = self.expr(*e);
                    let e = match e {
                        Expr::If(_) | Expr::Block(_) => e,
                        e => block(vec![Stmt::Expr(e, None)]),
                    };
                    i.else_branch = Some((t, Box::new(e)));
                }
                Expr::If(i)
            }
            Expr::Match(mut m) => {
                m.expr = Box::new(self.expr(*m.expr));
                self.match_arms(m)
            }
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(mut w) => {
                let g = Self::take_guard(&mut w.body);
                let n = self.add_loop("while");
                if let Expr::Let(l) = strip(&w.cond).clone() {
                    let pat = (*l.pat).clone();
                    let body = w.body.clone();
                    let ex = (*l.expr).clone();
                    let mut st: Vec<Stmt> = vec![];
                    st.push(parse_quote!(__vx_loop!(#n);));
                    if let Some(g) = g {
                        let g = ident(&g);
                        st.push(parse_quote!(if #g.is_some() { break; }));
                    }
                    let m = ExprMatch {
                        attrs: vec![],
                        match_token: Default::default(),
                        expr: Box::new(self.expr(ex)),
                        brace_token: Default::default(),
                        arms: vec![arm(pat, block(body.stmts)), arm(Pat::Wild(PatWild { attrs: vec![], underscore_token: Default::default() }), parse_quote!({ break; }))],
                    };
                    let m = self.match_arms(m);
                    st.push(Stmt::Expr(m, Some(Default::default())));
                    let b = Block { brace_token: Default::default(), stmts: st };
                    return parse_quote!({ loop #b __vx_loop_after!(#n); });
                }
                let mut cond = self.expr(*w.cond);
                if let Some(g) = g {
                    let g = ident(&g);
                    cond = parse_quote!(#g.is_none() && #cond);
                }
                let mut b = self.block_in(w.body);
                b.stmts.insert(0, parse_quote!(__vx_loop!(#n);));
                parse_quote!({ while #cond #b __vx_loop_after!(#n); })
            }
            Expr::Loop(mut w) => {
                let g = Self::take_guard(&mut w.body);
                let n = self.add_loop("loop");
                let mut b = self.block_in(w.body);
                if let Some(g) = g {
                    let g = ident(&g);
                    b.stmts.insert(0, parse_quote!(if #g.is_some() { break; }));
                }
                b.stmts.insert(0, parse_quote!(__vx_loop!(#n);));
                w.body = b;
                Expr::Loop(w)
            }
            Expr::Return(mut r) => {
                if let Some(x) = r.expr.take() {
                    r.expr = Some(Box::new(self.expr(*x)));
                }
                Expr::Return(r)
            }
            Expr::Assign(mut a) => {
                a.left = Box::new(self.expr(*a.left));
                a.right = Box::new(self.expr(*a.right));
                Expr::Assign(a)
            }
            Expr::Cast(mut c) => {
                c.expr = Box::new(self.expr(*c.expr));
                if c.ty.to_token_stream().to_string().replace(' ', "") == "&str" {
                    let x = match strip(&c.expr) {
                        Expr::Reference(r) => (*r.expr).clone(),
                        x => x.clone(),
                    };
                    self.count("cast to &str");
                    return parse_quote!((#x).vx_str_of());
                }
                Expr::Cast(c)
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() == 1 && self.k.fns.contains_key(&segs[0]) {
                    self.errors.push(format!("function {} used as a value", segs[0]));
                }
                Expr::Path(p)
            }
            Expr::Lit(_) | Expr::Continue(_) => e,
            Expr::Break(mut b) => {
                if let Some(x) = b.expr.take() {
                    b.expr = Some(Box::new(self.expr(*x)));
                }
                Expr::Break(b)
            }
            Expr::Closure(_) => self.err("closure used as a value".to_string()),
            Expr::Let(_) => self.err("let chain".to_string()),
            o => self.err(format!("expression `{}`", short(&o))),
        }
    }

    fn slice(&mut self, base: Expr, r: ExprRange) -> Expr {
        let b = self.expr(base);
        let inc = matches!(r.limits, RangeLimits::Closed(_));
        let s = r.start.map(|x| self.expr(*x));
        let e = r.end.map(|x| self.expr(*x));
        let e = match (e, inc) {
            (Some(e), true) => Some(parse_quote!(#e + 1)),
            (e, _) => e,
        };
        self.count("range index");
        match (s, e) {
            (Some(s), Some(e)) => parse_quote!((#b).vx_slice(#s, #e)),
            (Some(s), None) => parse_quote!((#b).vx_slice_from(#s)),
            (None, Some(e)) => parse_quote!((#b).vx_slice_to(#e)),
            (None, None) => parse_quote!((#b).vx_slice_all()),
        }
    }

    fn match_arms(&mut self, mut m: ExprMatch) -> Expr {
        let n_arms = m.arms.len();
        for (k, a) in m.arms.iter_mut().enumerate() {
            // slice patterns: a test of the length and bindings of the elements
            let (mut lens, mut binds) = (vec![], vec![]);
            self.pat_slices(&mut a.pat, &mut lens, &mut binds);
            if !lens.is_empty() {
                self.count("slice pattern");
                let g = a.guard.take().map(|g| *g.1);
                // the last arm of a match takes what the others leave
                if k + 1 < n_arms || g.is_some() {
                    let mut c: Expr = lens[0].clone();
                    for l in &lens[1..] {
                        c = parse_quote!(#c && #l);
                    }
                    if let Some(g) = g {
                        let mut v = binds.clone();
                        v.push(Stmt::Expr(g, None));
                        let g = block(v);
                        c = parse_quote!(#c && #g);
                    }
                    a.guard = Some((Default::default(), Box::new(c)));
                }
                binds.push(Stmt::Expr((*a.body).clone(), None));
                a.body = Box::new(block(binds));
            }
            // a reference pattern at the top of the arm: match ergonomics do the same
            let (p, pre) = self.pat(a.pat.clone());
            a.pat = p;
            let mut conds = vec![];
            // or patterns of string literals
            if let Pat::Or(o) = &a.pat {
                let all_str = o.cases.iter().all(|c| matches!(c, Pat::Lit(PatLit { lit: Lit::Str(_), .. })));
                if all_str {
                    let x = self.t("s");
                    let xe = path1(&x);
                    let mut c: Option<Expr> = None;
                    for cs in &o.cases {
                        if let Pat::Lit(PatLit { lit: Lit::Str(s), .. }) = cs {
                            let one: Expr = parse_quote!(vx_eq(&#xe, &#s));
                            c = Some(match c {
                                None => one,
                                Some(p) => parse_quote!(#p || #one),
                            });
                        }
                    }
                    let c = c.unwrap();
                    conds.push(parse_quote!((#c)));
                    a.pat = pid(&x);
                }
            }
            let mut p = a.pat.clone();
            self.pat_lits(&mut p, &mut conds);
            a.pat = p;
            let g = a.guard.take().map(|g| self.expr(*g.1));
            let mut all: Option<Expr> = None;
            for c in conds.into_iter().chain(g) {
                all = Some(match all {
                    None => c,
                    Some(x) => parse_quote!(#x && #c),
                });
            }
            if let Some(c) = all {
                a.guard = Some((Default::default(), Box::new(c)));
                if !pre.is_empty() {
                    self.errors.push("reference pattern with guard".into());
                }
            }
            let b = self.expr((*a.body).clone());
            let mut v = pre;
            let b = if v.is_empty() {
                match b {
                    Expr::Block(_) => b,
                    b => block(vec![Stmt::Expr(b, None)]),
                }
            } else {
                v.push(Stmt::Expr(b, None));
                block(v)
            };
            a.body = Box::new(b);
            a.comma = Some(Default::default());
        }
        Expr::Match(m)
    }

    fn for_loop(&mut self, mut f: ExprForLoop) -> Expr {
        let g = Self::take_guard(&mut f.body);
        if let Expr::Range(r) = strip(&f.expr).clone() {
            if let (Some(s), Some(e), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                let s = self.expr((**s).clone());
                let e = self.expr((**e).clone());
                let n = self.add_loop("range");
                let i = ident(&format!("vx_i{}", n));
                let en = ident(&format!("vx_end{}", n));
                let mut cond: Expr = parse_quote!(#i < #en);
                if let Some(g) = g {
                    let g = ident(&g);
                    cond = parse_quote!(#g.is_none() && #cond);
                }
                let p = (*f.pat).clone();
                let b = self.block_in(f.body);
                let st = b.stmts;
                return parse_quote!({ let mut #i = #s; let #en = #e; while #cond { __vx_loop!(#n); let #p = #i; #i = #i + 1; __vx_loop_body!(#n); #(#st)* } __vx_loop_after!(#n); });
            }
        }
        let pat = (*f.pat).clone();
        let body = f.body.clone();
        let src = (*f.expr).clone();
        let mut step = |s: &mut Self, x: Expr, _n: usize| {
            let (p, pre) = s.pat(pat.clone());
            let mut v = vec![let_stmt(p, None, x)];
            v.extend(pre);
            let b = s.block_in(body.clone());
            v.extend(b.stmts);
            v
        };
        let st = self.iter_loop(&src, None, false, g, &mut step);
        block(st)
    }

    fn binary(&mut self, b: ExprBinary) -> Expr {
        let is_int = |e: &Expr| matches!(strip(e), Expr::Lit(ExprLit { lit: Lit::Int(_), .. }));
        let l0 = (*b.left).clone();
        let r0 = (*b.right).clone();
        let l = self.expr(l0.clone());
        let r = self.expr(r0.clone());
        let ints = is_int(&l0) || is_int(&r0);
        match b.op {
            BinOp::Eq(_) if !ints => parse_quote!(vx_eq(&#l, &#r)),
            BinOp::Ne(_) if !ints => parse_quote!(!vx_eq(&#l, &#r)),
            BinOp::Lt(_) if !ints => parse_quote!(vx_lt(&#l, &#r)),
            BinOp::Gt(_) if !ints => parse_quote!(vx_lt(&#r, &#l)),
            BinOp::Le(_) if !ints => parse_quote!(!vx_lt(&#r, &#l)),
            BinOp::Ge(_) if !ints => parse_quote!(!vx_lt(&#l, &#r)),
            BinOp::AddAssign(_) if !ints => parse_quote!((#l).vx_add_assign_(#r)),
            BinOp::Add(_) if !ints => parse_quote!(vx_add(#l, #r)),
            _ => {
                let mut b = b;
                b.left = Box::new(l);
                b.right = Box::new(r);
                Expr::Binary(b)
            }
        }
    }

    fn call(&mut self, c: ExprCall) -> Expr {
        let segs: Option<Vec<String>> = match strip(&c.func) {
            Expr::Path(p) => Some(p.path.segments.iter().map(|s| s.ident.to_string()).collect()),
            _ => None,
        };
        let segs = match segs {
            Some(s) => s,
            None => {
                if let Expr::Closure(cl) = strip(&c.func).clone() {
                    let a = self.lower_call_args(c.args.into_iter());
                    return self.inline_closure(&cl, a);
                }
                return self.err(format!("call of `{}`", short(&c.func)));
            }
        };
        let key = segs.join("::");
        if segs.len() == 1 {
            if let Some(cl) = self.closures.get(&segs[0]).cloned() {
                let a = self.lower_call_args(c.args.into_iter());
                return self.inline_closure(&cl, a);
            }
        }
        if key == "idata_tail_call" {
            return self.tail_call(c);
        }
        if self.k.fns.contains_key(&key) {
            let a = self.lower_call_args(c.args.clone().into_iter());
            if self.contracted.contains(&key) {
                self.calls.insert(key.clone());
                let f = match key.split_once("::") {
                    Some((t, m)) if RENAMED.contains(&m) => path1(&format!("{}::{}", t, vx_name(m))),
                    _ => (*c.func).clone(),
                };
                return Expr::Call(ExprCall { attrs: vec![], func: Box::new(f), paren_token: c.paren_token, args: a.into_iter().collect() });
            }
            return self.inline_fn(&key, a);
        }
        if segs.len() == 2 && self.k.types.contains_key(&segs[0]) && segs[1].chars().next().map(|c| c.is_lowercase()).unwrap_or(false) {
            if segs[1] == "from" && c.args.len() == 1 {
                // From::from of this type
                let a = self.lower_call_args(c.args.into_iter());
                let f: Expr = syn::parse_str(&format!("<{} as VxFrom<_>>::vx_from_", segs[0])).unwrap();
                return Expr::Call(ExprCall { attrs: vec![], func: Box::new(f), paren_token: c.paren_token, args: a.into_iter().collect() });
            }
            return self.err(format!("unknown associated function {}", key));
        }
        let a = self.lower_call_args(c.args.clone().into_iter());
        if a.iter().any(|x| matches!(strip(x), Expr::Closure(_))) {
            return self.err(format!("closure given to {}", key));
        }
        let shim = match key.as_str() {
            "String::new" | "String::default" => Some("vx_string_new"),
            "HashMap::new" | "HashMap::default" => Some("vx_hm_new"),
            "u8::from_str_radix" | "std::u8::from_str_radix" => Some("vx_u8_from_str_radix"),
            "cmp::max" => Some("vx_max"),
            "cmp::min" => Some("vx_min"),
            "String::from" | "str::to_string" | "String::to_string" => {
                let x = &a[0];
                return parse_quote!((#x).vx_to_string());
            }
            "From::from" | "Into::into" => Some("vx_from"),
            "char::from" | "u32::from" | "usize::from" | "u8::from" => {
                let (x, t) = (&a[0], ident(&segs[0]));
                return parse_quote!({ let vx_c: #t = vx_from(#x); vx_c });
            }
            _ => None,
        };
        if let Some(s) = shim {
            return call(s, a);
        }
        if segs.len() == 2 && RENAMED.contains(&segs[1].as_str()) && !a.is_empty() {
            let m = ident(&vx_name(&segs[1]));
            let r = &a[0];
            let rest = &a[1..];
            return parse_quote!((#r).#m(#(#rest),*));
        }
        Expr::Call(ExprCall { attrs: vec![], func: c.func, paren_token: c.paren_token, args: a.into_iter().collect() })
    }

    fn tail_call(&mut self, c: ExprCall) -> Expr {
        let args: Vec<Expr> = c.args.into_iter().collect();
        let clo = match strip(&args[1]) {
            Expr::Closure(c) => Some(c.clone()),
            x => single_ident(x).and_then(|n| self.closures.get(&n).cloned()),
        };
        let clo = match clo {
            Some(c) => c,
            None => return self.err("tail_call without a closure".into()),
        };
        let mut e = Expr::Closure(clo);
        let mut used = std::mem::take(&mut self.used);
        freshen(self.k, &mut e, &mut used);
        self.used = used;
        let clo = match e {
            Expr::Closure(c) => c,
            _ => unreachable!(),
        };
        let init = self.expr(args[0].clone());
        let n = self.add_loop("tail_call");
        let tc = ident(&format!("vx_tc{}", n));
        self.used.insert(tc.to_string());
        self.count("tail_call inlined (definition of idata::tc::tail_call)");
        // returns of the closure
        struct R<'b>(&'b Ident);
        impl<'b> VisitMut for R<'b> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                match e {
                    Expr::Closure(_) => {}
                    Expr::Return(x) => {
                        let mut v = x.expr.clone().map(|x| *x).unwrap_or_else(unit);
                        self.visit_expr_mut(&mut v);
                        let tc = self.0;
                        *e = parse_quote!({ #tc = #v; continue; });
                    }
                    _ => visit_mut::visit_expr_mut(self, e),
                }
            }
        }
        let mut body = (*clo.body).clone();
        R(&tc).visit_expr_mut(&mut body);
        if escapes(&body) {
            return self.err("? inside the closure of tail_call".into());
        }
        let body = self.expr(body);
        let p = match clo.inputs.first() {
            Some(Pat::Type(t)) => (*t.pat).clone(),
            Some(p) => p.clone(),
            None => return self.err("tail_call closure without parameter".into()),
        };
        let (p, pre) = self.pat(p);
        parse_quote!({
            let mut #tc = TailCall::Call(#init);
            loop {
                __vx_loop!(#n);
                __vx_loop_body!(#n);
                match #tc {
                    TailCall::Call(#p) => { #(#pre)* #tc = #body; }
                    TailCall::Return(_) => { break; }
                }
            }
            __vx_loop_after!(#n);
            match #tc { TailCall::Return(vx_r) => { vx_r } TailCall::Call(_) => { vx_unreachable() } }
        })
    }

    fn method(&mut self, m: ExprMethodCall) -> Expr {
        let n = m.method.to_string();
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let fun_arg = |s: &Self, e: &Expr| match strip(e) {
            Expr::Closure(_) => true,
            Expr::Path(p) => {
                let l = p.path.segments.last().unwrap().ident.to_string();
                p.path.segments.len() == 1 && s.closures.contains_key(&l) || s.k.fns.contains_key(&p.path.segments.iter().map(|x| x.ident.to_string()).collect::<Vec<_>>().join("::")) || s.k.types.contains_key(&l) || l.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) || p.path.segments.len() > 1
            }
            _ => false,
        };
        // ---- iterators
        if self.chain(&m.receiver) {
            match (n.as_str(), args.len()) {
                ("fold", 2) => {
                    let init = self.expr(args[0].clone());
                    let f = args[1].clone();
                    let mut step = |s: &mut Self, x: Expr, k: usize| {
                        let acc = ident(&format!("vx_acc{}", k));
                        let b = s.apply(&f, vec![path1(&acc.to_string()), x]);
                        vec![parse_quote!(#acc = #b;)]
                    };
                    let k = self.loops.len();
                    let mut st = self.iter_loop(&m.receiver, Some(init), false, None, &mut step);
                    let k2 = self.last_iter_from(k);
                    st.push(Stmt::Expr(path1(&format!("vx_acc{}", k2)), None));
                    return block(st);
                }
                ("find", 1) => {
                    let f = args[0].clone();
                    let mut step = |s: &mut Self, x: Expr, k: usize| {
                        let acc = ident(&format!("vx_acc{}", k));
                        let r: Expr = parse_quote!(&#x);
                        let b = s.apply(&f, vec![r]);
                        vec![parse_quote!(if #b { #acc = Some(#x); })]
                    };
                    let k = self.loops.len();
                    let mut st = self.iter_loop(&m.receiver, Some(path1("None")), true, None, &mut step);
                    let k2 = self.last_iter_from(k);
                    st.push(Stmt::Expr(path1(&format!("vx_acc{}", k2)), None));
                    return block(st);
                }
                ("any", 1) | ("all", 1) => {
                    let f = args[0].clone();
                    let any = n == "any";
                    // same loop as find, then is_some
                    let mut step = |s: &mut Self, x: Expr, k: usize| {
                        let acc = ident(&format!("vx_acc{}", k));
                        let b = s.apply(&f, vec![x.clone()]);
                        if any {
                            vec![parse_quote!(if #b { #acc = Some(#x); })]
                        } else {
                            vec![parse_quote!(if !(#b) { #acc = Some(#x); })]
                        }
                    };
                    let k = self.loops.len();
                    let mut st = self.iter_loop(&m.receiver, Some(path1("None")), true, None, &mut step);
                    let k2 = self.last_iter_from(k);
                    let acc = ident(&format!("vx_acc{}", k2));
                    let r: Expr = if any { parse_quote!(#acc.is_some()) } else { parse_quote!(#acc.is_none()) };
                    st.push(Stmt::Expr(r, None));
                    return block(st);
                }
                ("for_each", 1) => {
                    let f = args[0].clone();
                    let mut step = |s: &mut Self, x: Expr, _k: usize| {
                        let b = s.apply(&f, vec![x]);
                        vec![Stmt::Expr(b, Some(Default::default()))]
                    };
                    let st = self.iter_loop(&m.receiver, None, false, None, &mut step);
                    return block(st);
                }
                ("collect", 0) if !self.by_value(&m.receiver) => {
                    let mut step = |_s: &mut Self, x: Expr, k: usize| {
                        let acc = ident(&format!("vx_acc{}", k));
                        vec![parse_quote!(#acc.push(#x);)]
                    };
                    let k = self.loops.len();
                    let init: Expr = parse_quote!(Vec::new());
                    let mut st = self.iter_loop(&m.receiver, Some(init), false, None, &mut step);
                    let k2 = self.last_iter_from(k);
                    let acc = ident(&format!("vx_acc{}", k2));
                    let tf = m.turbofish.clone();
                    let ty: Type = match tf.as_ref().and_then(|t| t.args.first()) {
                        Some(GenericArgument::Type(t)) => t.clone(),
                        _ => parse_quote!(_),
                    };
                    let r: Expr = parse_quote!({ let vx_c: #ty = vx_collect_vec(#acc); vx_c });
                    st.push(Stmt::Expr(r, None));
                    return block(st);
                }
                _ => {}
            }
        }
        // ---- Option / Result combinators
        if args.len() == 1 && fun_arg(self, &args[0]) {
            let f = args[0].clone();
            let kd = self.kind_of(&m.receiver);
            match n.as_str() {
                "map_err" => {
                    let r = self.expr((*m.receiver).clone());
                    let (x, er) = (self.t("x"), self.t("e"));
                    let b = self.apply(&f, vec![path1(&er)]);
                    self.count("map_err");
                    let (xi, ei) = (ident(&x), ident(&er));
                    return parse_quote!(match #r { Ok(#xi) => { Ok(#xi) } Err(#ei) => { Err(#b) } });
                }
                "ok_or_else" => {
                    let r = self.expr((*m.receiver).clone());
                    let x = ident(&self.t("x"));
                    let b = self.apply(&f, vec![]);
                    self.count("ok_or_else");
                    return parse_quote!(match #r { Some(#x) => { Ok(#x) } None => { Err(#b) } });
                }
                "map" | "and_then" | "unwrap_or_else" | "or_else" => {
                    let kd = match kd {
                        Some(k) => k,
                        None => return self.err(format!("Option or Result? `{}`", short(&Expr::MethodCall(m)))),
                    };
                    let r = self.expr((*m.receiver).clone());
                    let (xs, es) = (self.t("x"), self.t("e"));
                    let (x, er) = (ident(&xs), ident(&es));
                    self.count(&n);
                    return match (n.as_str(), kd) {
                        ("map", Kind::Opt) => {
                            let b = self.apply(&f, vec![path1(&xs)]);
                            parse_quote!(match #r { Some(#x) => { Some(#b) } None => { None } })
                        }
                        ("map", Kind::Res) => {
                            let b = self.apply(&f, vec![path1(&xs)]);
                            parse_quote!(match #r { Ok(#x) => { Ok(#b) } Err(#er) => { Err(#er) } })
                        }
                        ("and_then", Kind::Opt) => {
                            let b = self.apply(&f, vec![path1(&xs)]);
                            parse_quote!(match #r { Some(#x) => { #b } None => { None } })
                        }
                        ("and_then", Kind::Res) => {
                            let b = self.apply(&f, vec![path1(&xs)]);
                            parse_quote!(match #r { Ok(#x) => { #b } Err(#er) => { Err(#er) } })
                        }
                        ("or_else", Kind::Opt) => {
                            let b = self.apply(&f, vec![]);
                            parse_quote!(match #r { Some(#x) => { Some(#x) } None => { #b } })
                        }
                        ("or_else", Kind::Res) => {
                            let b = self.apply(&f, vec![path1(&es)]);
                            parse_quote!(match #r { Ok(#x) => { Ok(#x) } Err(#er) => { #b } })
                        }
                        (_, Kind::Opt) => {
                            let b = self.apply(&f, vec![]);
                            parse_quote!(match #r { Some(#x) => { #x } None => { #b } })
                        }
                        (_, Kind::Res) => {
                            let b = self.apply(&f, vec![path1(&es)]);
                            parse_quote!(match #r { Ok(#x) => { #x } Err(#er) => { #b } })
                        }
                    };
                }
                _ => {}
            }
        }
        if n == "map_or" && args.len() == 2 && fun_arg(self, &args[1]) || n == "map_or_else" {
            let kd = self.kind_of(&m.receiver);
            let r = self.expr((*m.receiver).clone());
            let xs = self.t("x");
            let x = ident(&xs);
            let b = self.apply(&args[1].clone(), vec![path1(&xs)]);
            let d = if n == "map_or" { self.expr(args[0].clone()) } else { self.apply(&args[0].clone(), vec![]) };
            self.count("map_or");
            return match kd {
                Some(Kind::Opt) => parse_quote!(match #r { Some(#x) => { #b } None => { #d } }),
                Some(Kind::Res) => parse_quote!(match #r { Ok(#x) => { #b } Err(_) => { #d } }),
                None => self.err("map_or on an unknown type".into()),
            };
        }
        if n == "unwrap_or" && args.len() == 1 || n == "ok_or" && args.len() == 1 {
            let kd = self.kind_of(&m.receiver);
            let r = self.expr((*m.receiver).clone());
            let d = self.expr(args[0].clone());
            let (xs, es) = (self.t("x"), self.t("d"));
            let (x, dd) = (ident(&xs), ident(&es));
            return match (n.as_str(), kd) {
                ("ok_or", _) => parse_quote!({ let #dd = #d; match #r { Some(#x) => { Ok(#x) } None => { Err(#dd) } } }),
                (_, Some(Kind::Opt)) => parse_quote!({ let #dd = #d; match #r { Some(#x) => { #x } None => { #dd } } }),
                (_, Some(Kind::Res)) => parse_quote!({ let #dd = #d; match #r { Ok(#x) => { #x } Err(_) => { #dd } } }),
                _ => parse_quote!((#r).vx_unwrap_or(#d)),
            };
        }
        if n == "ok" && args.is_empty() && self.kind_of(&m.receiver) == Some(Kind::Res) {
            let r = self.expr((*m.receiver).clone());
            let x = ident(&self.t("x"));
            return parse_quote!(match #r { Ok(#x) => { Some(#x) } Err(_) => { None } });
        }
        if n == "as_ref" && args.is_empty() && self.kind_of(&m.receiver) == Some(Kind::Opt) {
            let r = self.expr((*m.receiver).clone());
            let x = ident(&self.t("x"));
            return parse_quote!(match &#r { Some(#x) => { Some(#x) } None => { None } });
        }
        // ---- methods of the crate
        let recv0 = (*m.receiver).clone();
        if let Some(owners) = self.k.method_owners.get(&n).cloned() {
            let has_self: Vec<String> = owners
                .iter()
                .filter(|o| self.k.fns.get(&format!("{}::{}", o, n)).map(|f| matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_)))).unwrap_or(false))
                .cloned()
                .collect();
            let contracted: Vec<String> = has_self.iter().filter(|o| self.contracted.contains(&format!("{}::{}", o, n))).cloned().collect();
            let std_like = RENAMED.contains(&n.as_str()) || ["ipush", "iappend", "ipop", "push", "pop", "next"].contains(&n.as_str());
            if !has_self.is_empty() && contracted.is_empty() && !std_like {
                if has_self.len() > 1 {
                    return self.err(format!("ambiguous method {}", n));
                }
                let r = self.expr(recv0);
                let mut a = vec![r];
                a.extend(self.lower_call_args(args.into_iter()));
                return self.inline_fn(&format!("{}::{}", has_self[0], n), a);
            }
            for o in &contracted {
                self.calls.insert(format!("{}::{}", o, n));
            }
        }
        let mut m = m;
        m.receiver = Box::new(self.expr(recv0));
        if let Expr::Closure(_) | Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Reference(_) = *m.receiver {
            let r = (*m.receiver).clone();
            m.receiver = Box::new(parse_quote!((#r)));
        }
        let a = self.lower_call_args(args.into_iter());
        if a.iter().any(|x| matches!(strip(x), Expr::Closure(_))) {
            return self.err(format!("closure given to method {}", n));
        }
        m.args = a.into_iter().collect();
        if RENAMED.contains(&n.as_str()) {
            m.method = ident(&vx_name(&n));
            m.turbofish = None;
        }
        Expr::MethodCall(m)
    }

    fn by_value(&self, e: &Expr) -> bool {
        match strip(e) {
            Expr::MethodCall(m) => {
                if m.method == "into_iter" {
                    true
                } else {
                    self.by_value(&m.receiver)
                }
            }
            _ => false,
        }
    }

    /// the outermost iterator loop added since k (its body may have added more)
    fn last_iter_from(&self, k: usize) -> usize {
        // loops inside the source expression come before: the loop itself is the
        // first "iter" registered after lowering the source; sources have no loops here
        let mut i = k;
        while i < self.loops.len() && self.loops[i] != "iter" {
            i += 1;
        }
        i
    }
}

fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|x| pat_names(x, out)),
        Pat::Struct(t) => t.fields.iter().for_each(|x| pat_names(&x.pat, out)),
        Pat::Reference(t) => pat_names(&t.pat, out),
        Pat::Type(t) => pat_names(&t.pat, out),
        _ => {}
    }
}

fn fix_tuple(e: Expr) -> Expr {
    match e {
        Expr::Tuple(mut t) => {
            if t.elems.len() == 1 && !t.elems.trailing_punct() {
                t.elems.push_punct(Default::default());
            }
            Expr::Tuple(t)
        }
        e => e,
    }
}

fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] },
    }
}

fn is_simple(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => true,
        Expr::Reference(r) => is_simple(&r.expr),
        Expr::Field(f) => is_simple(&f.base),
        _ => false,
    }
}

pub fn short(e: &Expr) -> String {
    let s = e.to_token_stream().to_string();
    s.chars().take(100).collect()
}

/// argument and result types of a parameter whose type is bounded by Fn, FnMut or FnOnce
fn fn_bound(g: &Generics, ty: &Type, gens: &HashSet<String>) -> Option<(Vec<Type>, Option<Type>)> {
    let mut bounds: Vec<TypeParamBound> = vec![];
    match ty {
        Type::ImplTrait(i) => bounds.extend(i.bounds.iter().cloned()),
        Type::Path(p) => {
            let id = p.path.get_ident()?.to_string();
            for tp in g.type_params() {
                if tp.ident == id {
                    bounds.extend(tp.bounds.iter().cloned());
                }
            }
            if let Some(w) = &g.where_clause {
                for pr in &w.predicates {
                    if let WherePredicate::Type(t) = pr {
                        if let Type::Path(q) = &t.bounded_ty {
                            if q.path.get_ident().map_or(false, |x| *x == id) {
                                bounds.extend(t.bounds.iter().cloned());
                            }
                        }
                    }
                }
            }
        }
        _ => return None,
    }
    for b in bounds {
        if let TypeParamBound::Trait(t) = b {
            let s = t.path.segments.last()?;
            if ["Fn", "FnMut", "FnOnce"].contains(&s.ident.to_string().as_str()) {
                if let PathArguments::Parenthesized(a) = &s.arguments {
                    let ins = a.inputs.iter().map(|t| plain_type(t, gens)).collect();
                    let out = match &a.output {
                        ReturnType::Type(_, t) => Some(plain_type(t, gens)),
                        _ => None,
                    };
                    return Some((ins, out));
                }
            }
        }
    }
    None
}

//! A grammar of its own, with its conversions from and to the library's.
use dynparser::parser::atom::{Atom, MatchRules};
use dynparser::parser::expression::{Expression, MultiExpr, RepInfo, SetOfRules};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(String),
    Class(String, Vec<(char, char)>),
    Error(String),
    Dot,
    Eof,
    And(Vec<E>),
    Or(Vec<E>),
    Not(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
    Ref(String),
}
pub type Rules = Vec<(String, E)>;

pub fn expr(e: &E) -> Expression {
    match e {
        E::Lit(s) => Expression::Simple(Atom::Literal(s.clone())),
        E::Class(s, r) => Expression::Simple(Atom::Match(MatchRules::init(s, r.clone()))),
        E::Error(s) => Expression::Simple(Atom::Error(s.clone())),
        E::Dot => Expression::Simple(Atom::Dot),
        E::Eof => Expression::Simple(Atom::EOF),
        E::And(v) => Expression::And(MultiExpr::new(v.iter().map(expr).collect())),
        E::Or(v) => Expression::Or(MultiExpr::new(v.iter().map(expr).collect())),
        E::Not(x) => Expression::Not(Box::new(expr(x))),
        E::Rep(x, m, n) => Expression::Repeat(RepInfo::new(Box::new(expr(x)), *m, *n)),
        E::Ref(s) => Expression::RuleName(s.clone()),
    }
}
pub fn rules(r: &Rules) -> SetOfRules {
    let mut m = HashMap::new();
    for (n, e) in r {
        m.insert(n.clone(), expr(e));
    }
    SetOfRules::new(m)
}
pub fn from_expr(e: &Expression) -> E {
    match e {
        Expression::Simple(Atom::Literal(s)) => E::Lit(s.clone()),
        Expression::Simple(Atom::Match(m)) => E::Class(m.chars().to_string(), m.ranges().clone()),
        Expression::Simple(Atom::Error(s)) => E::Error(s.clone()),
        Expression::Simple(Atom::Dot) => E::Dot,
        Expression::Simple(Atom::EOF) => E::Eof,
        Expression::And(m) => E::And(m.0.iter().map(from_expr).collect()),
        Expression::Or(m) => E::Or(m.0.iter().map(from_expr).collect()),
        Expression::Not(x) => E::Not(Box::new(from_expr(x))),
        Expression::Repeat(r) => E::Rep(Box::new(from_expr(&r.expression)), r.min.to_string().parse().unwrap(), r.max.as_ref().map(|m| m.to_string().parse().unwrap())),
        Expression::RuleName(s) => E::Ref(s.clone()),
    }
}
pub fn from_rules(r: &SetOfRules) -> Rules {
    let mut v: Rules = r.0.iter().map(|(n, e)| (n.clone(), from_expr(e))).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
pub fn sorted(r: &Rules) -> Rules {
    let mut v = r.clone();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}
pub fn ejson(e: &E) -> Value {
    match e {
        E::Lit(s) => json!({ "lit": s }),
        E::Class(s, r) => json!({"class": [s, r.iter().map(|(a, b)| json!([a.to_string(), b.to_string()])).collect::<Vec<_>>()]}),
        E::Error(s) => json!({ "error": s }),
        E::Dot => json!("dot"),
        E::Eof => json!("eof"),
        E::And(v) => json!({"and": v.iter().map(ejson).collect::<Vec<_>>()}),
        E::Or(v) => json!({"or": v.iter().map(ejson).collect::<Vec<_>>()}),
        E::Not(x) => json!({ "not": ejson(x) }),
        E::Rep(x, m, n) => json!({"rep": [ejson(x), m, n]}),
        E::Ref(s) => json!({ "ref": s }),
    }
}
fn ch(v: &Value) -> char {
    v.as_str().unwrap().chars().next().unwrap()
}
pub fn jsone(v: &Value) -> E {
    if let Some(s) = v.as_str() {
        return if s == "dot" { E::Dot } else { E::Eof };
    }
    let (k, x) = v.as_object().unwrap().iter().next().unwrap();
    let st = || x.as_str().unwrap().to_string();
    let ve = || x.as_array().unwrap().iter().map(jsone).collect::<Vec<_>>();
    match k.as_str() {
        "lit" => E::Lit(st()),
        "class" => E::Class(x[0].as_str().unwrap().to_string(), x[1].as_array().unwrap().iter().map(|p| (ch(&p[0]), ch(&p[1]))).collect()),
        "error" => E::Error(st()),
        "and" => E::And(ve()),
        "or" => E::Or(ve()),
        "not" => E::Not(Box::new(jsone(x))),
        "rep" => E::Rep(Box::new(jsone(&x[0])), x[1].as_u64().unwrap() as usize, x[2].as_u64().map(|m| m as usize)),
        _ => E::Ref(st()),
    }
}
pub fn rjson(r: &Rules) -> Value {
    Value::Array(r.iter().map(|(n, e)| json!([n, ejson(e)])).collect())
}
pub fn jsonr(v: &Value) -> Rules {
    v.as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), jsone(&p[1]))).collect()
}
/// a list without some of its elements
pub fn without<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    let n = v.len();
    let mut r = vec![];
    let mut k = if n > 20 { n / 2 } else { n.min(1) };
    while k >= 1 && n / k <= 64 {
        let mut i = 0;
        while i < n {
            r.push(v[..i].iter().chain(&v[(i + k).min(n)..]).cloned().collect());
            i += k;
        }
        k /= 2;
    }
    r
}
/// smaller variants of a text
pub fn shrink_str(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut r = vec![];
    let n = c.len();
    let mut k = n / 2;
    while k >= 1 && n / k <= 64 {
        let mut i = 0;
        while i + k <= n {
            r.push(c[..i].iter().chain(&c[i + k..]).collect());
            i += k;
        }
        k /= 2;
    }
    for i in 0..n.min(64) {
        if !c[i].is_ascii_alphanumeric() {
            let mut d = c.clone();
            d[i] = 'a';
            r.push(d.iter().collect());
        }
    }
    r
}
/// smaller variants of an expression
pub fn shrink(e: &E) -> Vec<E> {
    let mut r = vec![];
    match e {
        E::Lit(s) => r.extend(shrink_str(s).into_iter().map(E::Lit)),
        E::Error(s) => {
            r.extend(shrink_str(s).into_iter().map(E::Error));
            r.push(E::Lit("a".into()));
        }
        E::Class(s, v) => {
            r.extend(shrink_str(s).into_iter().map(|s| E::Class(s, v.clone())));
            r.extend(without(v).into_iter().map(|w| E::Class(s.clone(), w)));
            r.push(E::Lit("a".into()));
            r.push(E::Dot);
        }
        E::And(v) | E::Or(v) => {
            r.extend(v.iter().take(64).cloned());
            let mk = |w: Vec<E>| if let E::And(_) = e { E::And(w) } else { E::Or(w) };
            r.extend(without(v).into_iter().map(mk));
            for i in 0..if v.len() > 64 { 0 } else { v.len() } {
                for x in shrink(&v[i]) {
                    let mut w = v.clone();
                    w[i] = x;
                    r.push(mk(w));
                }
            }
        }
        E::Not(x) => {
            r.push((**x).clone());
            r.extend(shrink(x).into_iter().map(|y| E::Not(Box::new(y))));
        }
        E::Rep(x, m, n) => {
            r.push((**x).clone());
            if *m > 0 {
                r.push(E::Rep(x.clone(), m / 2, *n));
                r.push(E::Rep(x.clone(), m - 1, *n));
            }
            if let Some(n) = n {
                if n > m {
                    r.push(E::Rep(x.clone(), *m, Some(*m)));
                    r.push(E::Rep(x.clone(), *m, Some(n - 1)));
                }
            }
            r.extend(shrink(x).into_iter().map(|y| E::Rep(Box::new(y), *m, *n)));
        }
        E::Ref(_) => r.push(E::Lit("a".into())),
        E::Dot | E::Eof => r.push(E::Lit("a".into())),
    }
    r
}
pub fn shrink_rules(r: &Rules) -> Vec<Rules> {
    let mut o = vec![];
    o.extend(without(r));
    if r.len() > 100 {
        return o;
    }
    // a reference replaced by what it names
    for i in 0..r.len() {
        if let E::Ref(n) = &r[i].1 {
            if let Some((_, e)) = r.iter().find(|(m, _)| m == n) {
                let mut w = r.clone();
                w[i].1 = e.clone();
                o.push(w);
            }
        }
    }
    for i in 0..r.len() {
        for e in shrink(&r[i].1) {
            let mut w = r.clone();
            w[i].1 = e;
            o.push(w);
        }
    }
    o
}
pub fn walk<'a>(e: &'a E, f: &mut dyn FnMut(&'a E)) {
    f(e);
    match e {
        E::And(v) | E::Or(v) => v.iter().for_each(|x| walk(x, f)),
        E::Not(x) | E::Rep(x, _, _) => walk(x, f),
        _ => {}
    }
}

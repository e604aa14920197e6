//! C13 to C18: trees, flat lists and rule sets against definitions of their own.
use crate::dict;
use crate::gram::*;
use crate::parse::{any_char, any_str, size, tree};
use crate::refi::T;
use crate::rng::Rng;
use crate::Bad;
use dynparser::ast::{self, flat, Node};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn node(t: &T) -> Node {
    match t {
        T::Val(s) => Node::Val(s.clone()),
        T::Rule(s, v) => Node::Rule((s.clone(), v.iter().map(node).collect())),
        T::Eof => Node::EOF,
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Val(String),
    Begin(String),
    End(String),
    Eof,
}
fn fnode(f: &F) -> flat::Node {
    match f {
        F::Val(s) => flat::Node::Val(s.clone()),
        F::Begin(s) => flat::Node::BeginRule(s.clone()),
        F::End(s) => flat::Node::EndRule(s.clone()),
        F::Eof => flat::Node::EOF,
    }
}
fn fl(n: &flat::Node) -> F {
    match n {
        flat::Node::Val(s) => F::Val(s.clone()),
        flat::Node::BeginRule(s) => F::Begin(s.clone()),
        flat::Node::EndRule(s) => F::End(s.clone()),
        flat::Node::EOF => F::Eof,
    }
}
#[derive(Clone, Debug)]
pub enum Case {
    Tree { prop: &'static str, t: T, names: Vec<String> },
    Acc { nodes: Vec<T>, arg: String },
    FAcc { nodes: Vec<F>, arg: String },
    Rules { a: Rules, b: Rules, name: String },
}
fn tjson(t: &T) -> Value {
    match t {
        T::Val(s) => json!(s),
        T::Rule(s, v) => json!([s, v.iter().map(tjson).collect::<Vec<_>>()]),
        T::Eof => Value::Null,
    }
}
fn jsont(v: &Value) -> T {
    match v {
        Value::Null => T::Eof,
        Value::String(s) => T::Val(s.clone()),
        v => T::Rule(v[0].as_str().unwrap().to_string(), v[1].as_array().unwrap().iter().map(jsont).collect()),
    }
}
fn fjson(f: &F) -> Value {
    match f {
        F::Val(s) => json!(["val", s]),
        F::Begin(s) => json!(["begin", s]),
        F::End(s) => json!(["end", s]),
        F::Eof => json!(["eof", ""]),
    }
}
fn jsonf(v: &Value) -> F {
    let s = v[1].as_str().unwrap().to_string();
    match v[0].as_str().unwrap() {
        "val" => F::Val(s),
        "begin" => F::Begin(s),
        "end" => F::End(s),
        _ => F::Eof,
    }
}
// ---- the definitions
fn prune(t: &T, names: &[String]) -> T {
    match t {
        T::Rule(n, v) => T::Rule(n.clone(), v.iter().filter(|c| !matches!(c, T::Rule(m, _) if names.contains(m))).map(|c| prune(c, names)).collect()),
        x => x.clone(),
    }
}
fn pass(t: &T, names: &[String]) -> T {
    fn kids(v: &[T], names: &[String]) -> Vec<T> {
        let mut o = vec![];
        for c in v {
            match c {
                T::Rule(m, w) if !names.contains(m) => o.extend(kids(w, names)),
                c => o.push(pass(c, names)),
            }
        }
        o
    }
    match t {
        T::Rule(n, v) => T::Rule(n.clone(), kids(v, names)),
        x => x.clone(),
    }
}
pub fn compact(t: &T) -> T {
    match t {
        T::Rule(n, v) => {
            let mut o: Vec<T> = vec![];
            let mut run: Option<String> = None;
            for c in v {
                match c {
                    T::Val(s) => run = Some(run.unwrap_or_default() + s),
                    c => {
                        o.extend(run.take().map(T::Val));
                        o.push(compact(c));
                    }
                }
            }
            o.extend(run.map(T::Val));
            T::Rule(n.clone(), o)
        }
        x => x.clone(),
    }
}
fn flatten(t: &T, o: &mut Vec<F>) {
    match t {
        T::Val(s) => o.push(F::Val(s.clone())),
        T::Rule(n, v) => {
            o.push(F::Begin(n.clone()));
            v.iter().for_each(|c| flatten(c, o));
            o.push(F::End(n.clone()));
        }
        T::Eof => {}
    }
}
impl Case {
    pub fn json(&self) -> Value {
        match self {
            Case::Tree { prop, t, names } => json!({"tree": {"prop": prop, "t": tjson(t), "names": names}}),
            Case::Acc { nodes, arg } => json!({"acc": {"nodes": nodes.iter().map(tjson).collect::<Vec<_>>(), "arg": arg}}),
            Case::FAcc { nodes, arg } => json!({"facc": {"nodes": nodes.iter().map(fjson).collect::<Vec<_>>(), "arg": arg}}),
            Case::Rules { a, b, name } => json!({"rules": {"a": rjson(a), "b": rjson(b), "name": name}}),
        }
    }
    pub fn from_json(k: &str, v: &Value) -> Case {
        let arg = || v["arg"].as_str().unwrap().to_string();
        match k {
            "tree" => Case::Tree {
                prop: crate::PROPS.iter().find(|p| **p == v["prop"].as_str().unwrap()).unwrap(),
                t: jsont(&v["t"]),
                names: v["names"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
            },
            "acc" => Case::Acc { nodes: v["nodes"].as_array().unwrap().iter().map(jsont).collect(), arg: arg() },
            "facc" => Case::FAcc { nodes: v["nodes"].as_array().unwrap().iter().map(jsonf).collect(), arg: arg() },
            _ => Case::Rules { a: jsonr(&v["a"]), b: jsonr(&v["b"]), name: v["name"].as_str().unwrap().to_string() },
        }
    }
    pub fn shrink(&self) -> Vec<Case> {
        let drops = |n: usize| (0..n).collect::<Vec<_>>();
        match self {
            Case::Tree { prop, t, names } => {
                let mut o: Vec<Case> = shrink_t(t).into_iter().map(|t| Case::Tree { prop, t, names: names.clone() }).collect();
                o.extend(without(names).into_iter().map(|w| Case::Tree { prop, t: t.clone(), names: w }));
                o
            }
            Case::Acc { nodes, arg } => {
                let mut o: Vec<Case> = drops(nodes.len())
                    .into_iter()
                    .map(|i| {
                        let mut w = nodes.clone();
                        w.remove(i);
                        Case::Acc { nodes: w, arg: arg.clone() }
                    })
                    .collect();
                for i in 0..nodes.len() {
                    for x in shrink_t(&nodes[i]) {
                        let mut w = nodes.clone();
                        w[i] = x;
                        o.push(Case::Acc { nodes: w, arg: arg.clone() });
                    }
                }
                o
            }
            Case::FAcc { nodes, arg } => drops(nodes.len())
                .into_iter()
                .map(|i| {
                    let mut w = nodes.clone();
                    w.remove(i);
                    Case::FAcc { nodes: w, arg: arg.clone() }
                })
                .collect(),
            Case::Rules { a, b, name } => {
                let mut o: Vec<Case> = shrink_rules(a).into_iter().map(|a| Case::Rules { a, b: b.clone(), name: name.clone() }).collect();
                o.extend(shrink_rules(b).into_iter().map(|b| Case::Rules { a: a.clone(), b, name: name.clone() }));
                o
            }
        }
    }
    pub fn check(&self) -> Vec<Bad> {
        let mut bad = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| self.check1()));
        match r {
            Ok(b) => bad.extend(b),
            Err(_) => {
                let p = match self {
                    Case::Tree { prop, .. } => prop,
                    Case::Acc { .. } | Case::FAcc { .. } => "C17",
                    Case::Rules { .. } => "C18",
                };
                bad.push(Bad { props: vec![p], what: "a panic".into(), want: "a result".into(), got: "a panic".into() });
            }
        }
        bad
    }
    fn check1(&self) -> Vec<Bad> {
        let mut bad = vec![];
        let mut cmp = |p: &'static str, what: &str, want: String, got: String| {
            if want != got {
                bad.push(Bad { props: vec![p], what: what.to_string(), want, got });
            }
        };
        match self {
            Case::Tree { prop, t, names } => {
                let n = node(t);
                let list: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                match *prop {
                    "C13" => cmp("C13", "prune", format!("{:?}", prune(t, names)), format!("{:?}", tree(&n.prune(&list)))),
                    "C14" => cmp("C14", "pass_through_except", format!("{:?}", pass(t, names)), format!("{:?}", tree(&n.pass_through_except(&list)))),
                    "C15" => cmp("C15", "compact", format!("{:?}", compact(t)), format!("{:?}", tree(&n.compact()))),
                    _ => {
                        let mut o = vec![];
                        flatten(t, &mut o);
                        cmp("C16", "flatten", format!("{:?}", o), format!("{:?}", n.flatten().iter().map(fl).collect::<Vec<_>>()));
                    }
                }
                cmp(prop, "the original tree", format!("{:?}", t), format!("{:?}", tree(&n)));
            }
            Case::Acc { nodes, arg } => {
                let v: Vec<Node> = nodes.iter().map(node).collect();
                let ts = |w: &[Node]| w.iter().map(tree).collect::<Vec<_>>();
                let first = nodes.first();
                let rest = || nodes[1..].to_vec();
                let val = |t: Option<&T>| match t {
                    Some(T::Val(s)) => Some(s.clone()),
                    _ => None,
                };
                let rule = |t: Option<&T>| match t {
                    Some(T::Rule(s, c)) => Some((s.clone(), c.clone())),
                    _ => None,
                };
                if let Some(n) = v.first() {
                    cmp("C17", "ast::get_nodename_and_nodes", format!("{:?}", rule(first)), format!("{:?}", ast::get_nodename_and_nodes(n).ok().map(|(s, c)| (s.to_string(), ts(c)))));
                    cmp("C17", "ast::get_node_val", format!("{:?}", val(first)), format!("{:?}", ast::get_node_val(n).ok().map(|s| s.to_string())));
                }
                cmp("C17", "ast::get_nodes_unique_val", format!("{:?}", if nodes.len() == 1 { val(first) } else { None }), format!("{:?}", ast::get_nodes_unique_val(&v).ok().map(|s| s.to_string())));
                cmp("C17", "ast::consume_val", format!("{:?}", val(first).map(|s| (s, rest()))), format!("{:?}", ast::consume_val(&v).ok().map(|(s, r)| (s.to_string(), ts(r)))));
                cmp("C17", "ast::split_first_nodes", format!("{:?}", first.map(|n| (n.clone(), rest()))), format!("{:?}", ast::split_first_nodes(&v).ok().map(|(n, r)| (tree(n), ts(r)))));
                cmp("C17", "ast::consume_this_value", format!("{:?}", val(first).filter(|s| s == arg).map(|_| rest())), format!("{:?}", ast::consume_this_value(arg, &v).ok().map(ts)));
                cmp(
                    "C17",
                    "ast::consume_node_get_subnodes_for_rule_name_is",
                    format!("{:?}", rule(first).filter(|(s, _)| s == arg).map(|(_, c)| (rest(), c))),
                    format!("{:?}", ast::consume_node_get_subnodes_for_rule_name_is(arg, &v).ok().map(|(r, c)| (ts(r), ts(c)))),
                );
                cmp("C17", "ast::check_empty_nodes", format!("{}", nodes.is_empty()), format!("{}", ast::check_empty_nodes(&v).is_ok()));
                cmp("C17", "ast::peek_first_node", format!("{:?}", first), format!("{:?}", ast::peek_first_node(&v).ok().map(tree).as_ref()));
            }
            Case::FAcc { nodes, arg } => {
                let v: Vec<flat::Node> = nodes.iter().map(fnode).collect();
                let ts = |w: &[flat::Node]| w.iter().map(fl).collect::<Vec<_>>();
                let first = nodes.first();
                let rest = || nodes[1..].to_vec();
                let val = match first {
                    Some(F::Val(s)) => Some(s.clone()),
                    _ => None,
                };
                if let Some(n) = v.first() {
                    cmp("C17", "flat::get_node_val", format!("{:?}", val), format!("{:?}", flat::get_node_val(n).ok().map(|s| s.to_string())));
                    let name = match first {
                        Some(F::Begin(s)) | Some(F::End(s)) => Some(s.clone()),
                        _ => None,
                    };
                    cmp("C17", "flat::get_nodename", format!("{:?}", name), format!("{:?}", flat::get_nodename(n).ok().map(|s| s.to_string())));
                }
                cmp("C17", "flat::consume_val", format!("{:?}", val.clone().map(|s| (s, rest()))), format!("{:?}", flat::consume_val(&v).ok().map(|(s, r)| (s.to_string(), ts(r)))));
                cmp("C17", "flat::consume_this_value", format!("{:?}", val.filter(|s| s == arg).map(|_| rest())), format!("{:?}", flat::consume_this_value(arg, &v).ok().map(ts)));
                cmp("C17", "flat::split_first_nodes", format!("{:?}", first.map(|n| (n.clone(), rest()))), format!("{:?}", flat::split_first_nodes(&v).ok().map(|(n, r)| (fl(n), ts(r)))));
                cmp("C17", "flat::peek_first_node", format!("{:?}", first), format!("{:?}", flat::peek_first_node(&v).ok().map(fl).as_ref()));
                let is = |f: &F| first == Some(f);
                cmp("C17", "flat::consume_node_start_rule_name", format!("{:?}", Some(()).filter(|_| is(&F::Begin(arg.clone()))).map(|_| rest())), format!("{:?}", flat::consume_node_start_rule_name(arg, &v).ok().map(ts)));
                cmp("C17", "flat::consume_node_end_rule_name", format!("{:?}", Some(()).filter(|_| is(&F::End(arg.clone()))).map(|_| rest())), format!("{:?}", flat::consume_node_end_rule_name(arg, &v).ok().map(ts)));
            }
            Case::Rules { a, b, name } => {
                let map = |r: &Rules| r.iter().map(|(n, e)| (n.clone(), e.clone())).collect::<BTreeMap<_, _>>();
                let mut w = map(a);
                w.insert(name.clone(), E::Dot);
                cmp("C18", "add", format!("{:?}", w.into_iter().collect::<Vec<_>>()), format!("{:?}", from_rules(&rules(a).add(name, expr(&E::Dot)))));
                let mut w = map(b);
                w.extend(map(a));
                cmp("C18", "merge", format!("{:?}", w.into_iter().collect::<Vec<_>>()), format!("{:?}", from_rules(&rules(a).merge(rules(b)))));
            }
        }
        bad
    }
}
fn shrink_t(t: &T) -> Vec<T> {
    let mut o = vec![];
    match t {
        T::Val(s) => o.extend(shrink_str(s).into_iter().map(T::Val)),
        T::Rule(n, v) => {
            o.extend(v.iter().take(64).cloned());
            o.extend(without(v).into_iter().map(|w| T::Rule(n.clone(), w)));
            if v.len() > 64 {
                return o;
            }
            for i in 0..v.len() {
                if let T::Rule(_, c) = &v[i] {
                    let mut w = v.clone();
                    w.splice(i..=i, c.iter().cloned());
                    o.push(T::Rule(n.clone(), w));
                }
            }
            for i in 0..v.len() {
                for x in shrink_t(&v[i]) {
                    let mut w = v.clone();
                    w[i] = x;
                    o.push(T::Rule(n.clone(), w));
                }
            }
        }
        T::Eof => {}
    }
    o
}
const NAMES: &[&str] = &["a", "b", "aa", "_", "", "ñ", "main", "A", "ab", "a-much-longer-name-than-the-others-ñ"];
fn name(r: &mut Rng) -> String {
    if let Some(s) = dict::st(r, 6) {
        return s;
    }
    let s = r.pick(NAMES).to_string();
    match r.below(40) {
        0 => dict::near(r, &s),
        1 => any_char(r).to_string() + &s,
        2 => any_str(r, 3),
        _ => s,
    }
}
fn gen_t(r: &mut Rng, depth: usize) -> T {
    match r.below(if depth == 0 { 5 } else { 9 }) {
        0..=3 => T::Val(if r.one_in(4) { name(r) } else { any_str(r, 2) }),
        4 => T::Eof,
        _ => {
            let n = if r.one_in(12) { r.below(12) } else { r.below(5) };
            let s = if r.one_in(2) { r.pick(&NAMES[..3]).to_string() } else { name(r) };
            T::Rule(s, (0..n).map(|_| gen_t(r, depth - 1)).collect())
        }
    }
}
fn gen_e(r: &mut Rng) -> E {
    match r.below(4) {
        0 => E::Lit(any_str(r, 2)),
        1 => E::Ref("a".into()),
        2 => E::Eof,
        _ => E::Rep(Box::new(E::Lit(any_str(r, 1))), r.below(3), None),
    }
}
pub fn gen(prop: &str, r: &mut Rng) -> Case {
    match prop {
        "C17" => {
            let n = r.below(4);
            if r.one_in(2) {
                let nodes: Vec<T> = (0..n).map(|_| gen_t(r, 2)).collect();
                let arg = match nodes.first() {
                    Some(T::Val(s)) | Some(T::Rule(s, _)) if !r.one_in(3) => s.clone(),
                    _ => name(r),
                };
                let arg = if r.one_in(8) { arg.chars().take(1).collect() } else if r.one_in(12) { arg.chars().skip(1).collect() } else if r.one_in(12) { arg.trim().to_string() } else { arg };
                let arg = if r.one_in(6) { arg + "a" } else if r.one_in(6) { arg.to_uppercase() } else { arg };
                Case::Acc { nodes, arg }
            } else {
                let nodes: Vec<F> = (0..n)
                    .map(|_| {
                        let s = name(r);
                        match r.below(4) {
                            0 => F::Val(s),
                            1 => F::Begin(s),
                            2 => F::End(s),
                            _ => F::Eof,
                        }
                    })
                    .collect();
                let arg = match nodes.first() {
                    Some(F::Val(s)) | Some(F::Begin(s)) | Some(F::End(s)) if !r.one_in(3) => s.clone(),
                    _ => name(r),
                };
                let arg = if r.one_in(8) { arg.chars().take(1).collect() } else if r.one_in(12) { arg.chars().skip(1).collect() } else if r.one_in(12) { arg.trim().to_string() } else { arg };
                let arg = if r.one_in(6) { arg + "a" } else if r.one_in(6) { arg.to_uppercase() } else { arg };
                Case::FAcc { nodes, arg }
            }
        }
        "C18" => {
            let set = |r: &mut Rng| {
                let mut v: Rules = vec![];
                for n in NAMES {
                    if r.one_in(2) {
                        v.push((n.to_string(), gen_e(r)));
                    }
                }
                let more = if r.one_in(if dict::dict().nums.is_empty() { 200 } else { 10 }) { size(r, 1_100) } else { r.below(3) };
                for _ in 0..more {
                    let n = if more > 4 { format!("n{}", v.len()) } else { name(r) };
                    if v.iter().all(|(m, _)| *m != n) {
                        v.push((n, gen_e(r)));
                    }
                }
                v
            };
            let (a, b) = (set(r), set(r));
            let name = match a.first() {
                Some((n, _)) if r.one_in(4) => dict::near(r, n),
                _ => name(r),
            };
            Case::Rules { a, b, name }
        }
        _ => {
            let prop = crate::PROPS.iter().find(|p| **p == prop).unwrap();
            let depth = 1 + r.below(5);
            let many = r.one_in(if dict::dict().nums.is_empty() { 300 } else { 15 });
            let mut t = if r.one_in(20) {
                gen_t(r, 0)
            } else {
                let n = if many { size(r, 3_000) } else if r.one_in(40) { r.below(70) } else { r.below(6) };
                let depth = if n > 8 { r.below(2) } else { depth };
                T::Rule(name(r), (0..n).map(|_| gen_t(r, depth)).collect())
            };
            if many && r.one_in(2) {
                // deep
                t = gen_t(r, 3);
                for _ in 0..size(r, 300) {
                    let mut v = vec![t];
                    if r.one_in(4) {
                        v.insert(r.below(2), gen_t(r, 0));
                    }
                    t = T::Rule(name(r), v);
                }
            }
            fn names_of(t: &T, o: &mut Vec<String>) {
                if let T::Rule(s, v) = t {
                    o.push(s.clone());
                    v.iter().for_each(|x| names_of(x, o));
                }
            }
            let mut own = vec![];
            names_of(&t, &mut own);
            let n = if many { size(r, 300) } else if r.one_in(20) { r.below(40) } else { r.below(4) };
            let names = (0..n)
                .map(|_| {
                    if own.is_empty() || r.one_in(2) {
                        name(r)
                    } else {
                        let s = r.pick(&own).clone();
                        if r.one_in(6) {
                            dict::near(r, &s)
                        } else {
                            s
                        }
                    }
                })
                .collect();
            Case::Tree { prop, t, names }
        }
    }
}

//! C01 to C12: parsing compared with the reference interpreter.
use crate::dict;
use crate::gram::*;
use crate::refi::{self, leaf_text, Ans, Ev, T};
use crate::rng::Rng;
use crate::Bad;
use dynparser::ast::Node;
use dynparser::parser::{ErrPriority, Error};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub struct Case {
    pub rules: Rules,
    pub text: String,
}
pub fn tree(n: &Node) -> T {
    match n {
        Node::Val(s) => T::Val(s.clone()),
        Node::Rule((s, v)) => T::Rule(s.clone(), v.iter().map(tree).collect()),
        Node::EOF => T::Eof,
    }
}
impl Case {
    pub fn json(&self) -> Value {
        json!({"parse": {"rules": rjson(&self.rules), "text": self.text}})
    }
    pub fn from_json(v: &Value) -> Case {
        Case { rules: jsonr(&v["rules"]), text: v["text"].as_str().unwrap().to_string() }
    }
    pub fn shrink(&self) -> Vec<Case> {
        let mut o: Vec<Case> = shrink_str(&self.text).into_iter().map(|text| Case { rules: self.rules.clone(), text }).collect();
        o.extend(shrink_rules(&self.rules).into_iter().map(|rules| Case { rules, text: self.text.clone() }));
        o
    }
    fn feats(&self) -> Vec<&'static str> {
        let mut p = vec![];
        let mut add = |x| {
            if !p.contains(&x) {
                p.push(x)
            }
        };
        for (_, e) in &self.rules {
            walk(e, &mut |e| match e {
                E::And(_) | E::Or(_) | E::Ref(_) => add("C01"),
                E::Rep(..) => add("C02"),
                E::Not(_) => add("C03"),
                _ => {}
            });
        }
        if p.is_empty() {
            p.push("C04");
        }
        p
    }
    fn composite(&self) -> bool {
        self.rules.iter().any(|(_, e)| {
            let mut f = false;
            walk(e, &mut |e| f |= matches!(e, E::And(_) | E::Or(_) | E::Rep(..) | E::Ref(_)));
            f
        })
    }
    pub fn check(&self) -> Vec<Bad> {
        let text: Vec<char> = self.text.chars().collect();
        let mut size = text.len();
        for (_, e) in &self.rules {
            walk(e, &mut |_| size += 1);
        }
        let (steps, depth, entered) = refi::USUAL;
        let want = match refi::answer_within(&self.rules, &text, (steps + if size > 400 { 8 * size } else { 0 }, depth, entered)) {
            Ok(w) => w,
            Err(_) => return vec![],
        };
        let rs = rules(&self.rules);
        let run = |debug: bool| {
            catch_unwind(AssertUnwindSafe(|| if debug { dynparser::parse_debug(&self.text, &rs) } else { dynparser::parse(&self.text, &rs) }))
        };
        let mut bad: Vec<Bad> = vec![];
        let mut push = |props: Vec<&'static str>, what: &str, want: String, got: String| bad.push(Bad { props, what: what.to_string(), want, got });
        let show = |w: &Ans| match w {
            Ans::Tree(t) => format!("the tree {:?}", t),
            Ans::Fail(e) => format!("the error {:?} at position {} (critical: {})", e.descr, e.n, e.crit),
        };
        let (plain, debug) = match (run(false), run(true)) {
            (Ok(a), Ok(b)) => (a, b),
            (a, _) => {
                push(vec!["C12"], "the parse panics", show(&want.ans), format!("a panic in {}", if a.is_err() { "parse" } else { "parse_debug" }));
                return bad;
            }
        };
        let got = match &plain {
            Ok(t) => Ans::Tree(tree(t)),
            Err(e) => Ans::Fail(Ev { n: e.pos.n, crit: e.priority == ErrPriority::Critical, descr: e.descr.clone(), trace: refi::Tr::none() }),
        };
        // C10
        match (&plain, &debug) {
            (Ok(a), Ok(b)) => {
                if a != b {
                    push(vec!["C10"], "parse and parse_debug give different trees", format!("{:?}", a), format!("{:?}", b));
                }
            }
            (Err(a), Err(b)) => {
                let k = |e: &Error| (e.pos.clone(), e.descr.clone(), e.line_before.clone(), e.line_after.clone(), e.priority);
                if k(a) != k(b) {
                    push(vec!["C10"], "parse and parse_debug give different errors", format!("{:?}", a), format!("{:?}", b));
                }
                if !a.parsing_rules.is_empty() {
                    push(vec!["C10"], "the plain parse reports a trace", "no trace".into(), format!("{:?}", a.parsing_rules));
                }
                if b.parsing_rules.first().map(|s| s.as_str()) != Some("r:main") {
                    push(vec!["C10"], "the trace does not start with main", "r:main first".into(), format!("{:?}", b.parsing_rules));
                } else if let Ans::Fail(w) = &want.ans {
                    if w.n == b.pos.n && w.descr == b.descr && w.crit == (b.priority == ErrPriority::Critical) && w.trace.list() != b.parsing_rules {
                        push(vec!["C10"], "the trace is not the rules entered on the way", format!("{:?}", w.trace.list()), format!("{:?}", b.parsing_rules));
                    }
                }
            }
            _ => push(vec!["C10"], "parse and parse_debug disagree on success", format!("parse: {}", plain.is_ok()), format!("parse_debug: {}", debug.is_ok())),
        }
        // C07
        for e in [plain.as_ref().err(), debug.as_ref().err()].iter().flatten() {
            let p = &e.pos;
            let mut wrong = String::new();
            if p.n > text.len() {
                wrong = format!("position {} of a text of {} characters", p.n, text.len());
            } else {
                let start = text[..p.n].iter().rposition(|c| *c == '\n').map_or(0, |i| i + 1);
                let cstart = text[..p.n].iter().rposition(|c| *c == '\n' || *c == '\r').map_or(0, |i| i + 1);
                let end = text[p.n..].iter().position(|c| *c == '\n' || *c == '\r').map_or(text.len(), |i| p.n + i);
                let w = (text[..p.n].iter().filter(|c| **c == '\n').count(), p.n - cstart, start, text[start..p.n].iter().collect::<String>(), text[p.n..end].iter().collect::<String>());
                let g = (p.row, p.col, p.start_line, e.line_before.clone(), e.line_after.clone());
                if w != g {
                    wrong = format!("(row, col, line start, before, after) at {}: should be {:?}, is {:?}", p.n, w, g);
                }
            }
            if !wrong.is_empty() {
                push(vec!["C07"], "the error's position or context is wrong", "accurate".into(), wrong);
                break;
            }
        }
        // the outcome
        let mut feats = self.feats();
        match (&want.ans, &got) {
            (Ans::Tree(w), Ans::Tree(g)) if w != g => {
                let mut p = feats.clone();
                let root = matches!(g, T::Rule(n, _) if n == "main");
                if !root || leaf_text(g) != self.text {
                    p.push("C06");
                }
                push(p, "wrong tree", show(&want.ans), show(&got));
            }
            (Ans::Tree(_), Ans::Tree(_)) => {}
            (Ans::Tree(_), Ans::Fail(e)) => {
                if e.descr == "not consumed full input" {
                    feats.push("C05");
                }
                if e.crit {
                    feats.push("C08");
                }
                push(feats, "an error instead of a tree", show(&want.ans), show(&got));
            }
            (Ans::Fail(w), Ans::Tree(g)) => {
                let root = matches!(g, T::Rule(n, _) if n == "main");
                if want.prefix {
                    feats.push("C05");
                }
                if !root || leaf_text(g) != self.text {
                    feats.push("C06");
                }
                if w.crit {
                    feats.push("C08");
                }
                push(feats, "a tree instead of an error", show(&want.ans), show(&got));
            }
            (Ans::Fail(w), Ans::Fail(g)) => {
                if (w.n, w.crit, &w.descr) != (g.n, g.crit, &g.descr) {
                    let mut p = vec![];
                    if w.crit != g.crit || w.crit {
                        p.push("C08");
                    }
                    if want.prefix {
                        p.push("C05");
                    }
                    if !w.crit {
                        if self.composite() {
                            p.push("C09");
                            if feats.contains(&"C03") {
                                p.push("C03");
                            }
                            if feats.contains(&"C02") {
                                p.push("C02");
                            }
                        } else if !want.prefix {
                            p.extend(feats);
                        }
                    }
                    push(p, "a different error", show(&want.ans), show(&got));
                }
            }
        }
        bad
    }
}

// ------------------------------------------------------------------ generation
const CHARS: &[char] = &['a', 'a', 'a', 'b', 'b', 'b', 'c', 'c', 'z', '0', ' ', '\n', '\n', '\r', '\t', 'A', 'ñ', 'é', '€', '𝒳', '\u{0}', '\u{7f}', '\u{80}', '\u{2028}', '"', '\\', '\'', '-', '{', '\u{10FFFF}', 'e', '\u{301}'];
/// characters that some notion of blank, line end, letter, digit, case or delimiter may treat in its own way
const RARE: &[char] = &[
    '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{2029}', '\u{3000}', '\u{feff}', '\u{fffd}', 'ß', 'İ', 'ı', 'ſ', 'K', 'Z', 'É', '²', '٣', '9', '_', ',', '.', '/', '(', ')', '<', '>', '[', ']', '}', '%', '&', '*', '+', '?', '!', '=', '#', ':', ';', '`', '~', '^', '|', '$', '@', 'x', 'n', 'r', 't', '\u{1}', '\u{1b}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}',
];
pub fn any_char(r: &mut Rng) -> char {
    if let Some(c) = dict::ch(r, 6) {
        return c;
    }
    if r.one_in(40) {
        return match r.below(4) {
            0 => char::from_u32(r.below(0x250) as u32).unwrap(),
            1 => char::from_u32(r.below(0x110000) as u32).unwrap_or('a'),
            _ => *r.pick(RARE),
        };
    }
    if r.one_in(3) {
        *r.pick(CHARS)
    } else {
        *r.pick(&CHARS[..8])
    }
}
/// a number at which something may change
pub fn size(r: &mut Rng, max: usize) -> usize {
    if let Some(n) = dict::num(r, 2, max) {
        return n;
    }
    let b = *r.pick(&[8usize, 10, 16, 20, 32, 50, 64, 80, 100, 128, 200, 255, 256, 500, 512, 1000, 1024, 2048, 4096, 10_000, 65_536]);
    let n = (b + r.below(4)).saturating_sub(1);
    if n <= max {
        n
    } else {
        r.below(max + 1)
    }
}
pub fn any_str(r: &mut Rng, max: usize) -> String {
    if let Some(s) = dict::st(r, 10) {
        let a = r.below(max + 1);
        let k = r.below(a + 1);
        let f = |r: &mut Rng, n: usize| -> String { (0..n).map(|_| any_char(r)).collect() };
        return if r.one_in(3) { s } else { f(r, k) + &s + &f(r, a - k) };
    }
    let mut n = r.below(max + 1);
    if r.one_in(50) {
        n = size(r, 300);
    } else if let Some(k) = dict::num(r, 20, 5_000) {
        n = k;
    }
    if r.one_in(8) {
        // mostly plain, then something else
        return (0..n).map(|_| if r.one_in(6) { any_char(r) } else { *r.pick(&CHARS[..4]) }).collect();
    }
    (0..n).map(|_| any_char(r)).collect()
}
/// many of something
fn big(r: &mut Rng) -> Case {
    let big = if r.one_in(4) { 70_000 } else { 2_000 };
    let c = |r: &mut Rng| any_char(r);
    let (mut main, mut more, mut text) = (E::Dot, vec![], String::new());
    match r.below(9) {
        0 | 1 => {
            // iterations
            let n = size(r, big);
            let x = match r.below(3) {
                0 => E::Dot,
                1 => E::Lit(any_str(r, 1)),
                _ => E::Class("ab".into(), vec![('a', 'c')]),
            };
            let u = match &x {
                E::Lit(s) => s.clone(),
                _ => "a".into(),
            };
            let k = if r.one_in(2) { n } else { size(r, big) };
            text = u.repeat(k.min(200_000 / (u.len() + 1)));
            main = match r.below(4) {
                0 => E::Rep(Box::new(x), n, None),
                1 => E::Rep(Box::new(x), 0, Some(n)),
                2 => E::Rep(Box::new(x), n, Some(n + r.below(2))),
                _ => E::Rep(Box::new(x), r.below(3), None),
            };
            if r.one_in(3) {
                main = E::And(vec![main, E::Lit("b".into())]);
                text.push('b');
            }
        }
        2 => {
            let n = size(r, big);
            let s: String = (0..n).map(|_| if r.one_in(9) { c(r) } else { 'a' }).collect();
            text = s.clone();
            main = E::Lit(s);
        }
        3 => {
            // depth of rules
            let n = size(r, 120);
            let (x, y) = (c(r).to_string(), c(r).to_string());
            main = E::Ref("a".into());
            more.push(("a".to_string(), E::Or(vec![E::And(vec![E::Lit(x.clone()), E::Ref("a".into())]), E::Lit(y.clone())])));
            text = x.repeat(n) + &y;
        }
        k @ 4..=5 => {
            let n = size(r, if big > 9_000 && k == 4 { big } else { 300 });
            let v: Vec<E> = (0..n).map(|i| E::Lit(char::from_u32(0x4E00 + (i % 5_000) as u32).unwrap().to_string())).collect();
            let at = r.below(n + 1);
            text = if k == 4 { v.iter().map(|e| if let E::Lit(s) = e { s.as_str() } else { "" }).collect() } else { char::from_u32(0x4E00 + at as u32).unwrap().to_string() };
            main = if k == 4 { E::And(v) } else { E::Or(v) };
        }
        6 => {
            // an error after many lines or far to the right
            let n = size(r, big);
            let u = *r.pick(&["\n", "a\n", "a", "\r\n", "é", "𝒳", "\r"]);
            text = u.repeat(n) + "b" + *r.pick(&["", "a", "\na", "aaa\n"]);
            main = E::Rep(Box::new(E::Class("a\r\né𝒳".into(), vec![])), 0, None);
            if r.one_in(2) {
                main = E::And(vec![main, E::Lit("c".into())]);
            }
        }
        7 => {
            let n = size(r, 90);
            main = E::Lit("a".into());
            for _ in 0..n {
                main = match r.below(5) {
                    0 => E::Not(Box::new(main)),
                    1 => E::And(vec![main]),
                    2 => E::Or(vec![E::Lit("b".into()), main]),
                    3 => E::Rep(Box::new(main), 0, Some(1)),
                    _ => E::And(vec![main, E::And(vec![])]),
                };
            }
            text = "a".into();
        }
        _ => {
            // ranges and characters of a class
            let n = size(r, 2_000);
            let at = |i: usize| char::from_u32(0x4E00 + 3 * i as u32).unwrap();
            let (s, v) = if r.one_in(2) { ((0..n).map(at).collect(), vec![]) } else { (String::new(), (0..n).map(|i| (at(i), char::from_u32(at(i) as u32 + 1).unwrap())).collect()) };
            text.push(char::from_u32(at(r.below(n + 1)) as u32 + r.below(3) as u32).unwrap());
            main = E::Class(s, v);
        }
    }
    if r.one_in(4) {
        match r.below(3) {
            0 => {
                text.pop();
            }
            1 => text.push(c(r)),
            _ => text.insert(0, c(r)),
        }
    }
    more.insert(0, ("main".into(), main));
    Case { rules: more, text }
}
struct Gen<'a> {
    r: &'a mut Rng,
    names: Vec<String>,
    /// weights: lit class error dot eof and or not rep ref
    w: [usize; 10],
    /// one reference in so many is to a name nearly that of a rule
    near: usize,
}
impl Gen<'_> {
    fn lit(&mut self) -> E {
        let n = match self.r.below(12) {
            0 => 0,
            1..=6 => 1,
            7..=9 => 2,
            10 => 3,
            _ if self.r.one_in(4) => self.r.below(150),
            _ => self.r.below(40),
        };
        if self.r.one_in(20) {
            return E::Lit(any_str(self.r, 3));
        }
        E::Lit((0..n).map(|_| any_char(self.r)).collect())
    }
    fn class(&mut self) -> E {
        let s = any_str(self.r, 3);
        let k = if self.r.one_in(40) { self.r.below(30) } else { self.r.below(4) };
        let v = (0..k)
            .map(|_| {
                let (a, b) = (any_char(self.r), any_char(self.r));
                if a > b && !self.r.one_in(8) {
                    (b, a)
                } else {
                    (a, b)
                }
            })
            .collect();
        E::Class(s, v)
    }
    fn expr(&mut self, depth: usize) -> E {
        let mut w = self.w;
        if depth == 0 {
            for k in 5..9 {
                w[k] = 0;
            }
        }
        match self.r.weighted(&w) {
            0 => self.lit(),
            1 => self.class(),
            2 => E::Error(format!("{}{}", any_str(self.r, 2), self.r.pick(&["", "err", "stop"]))),
            3 => E::Dot,
            4 => E::Eof,
            k @ 5..=6 => {
                let n = match self.r.below(10) {
                    0 => 0,
                    1 => 1,
                    2..=5 => 2,
                    6..=8 => 3,
                    _ => 4 + self.r.below(6),
                };
                let d = if n > 4 { 0 } else { depth - 1 };
                let v = (0..n).map(|_| self.expr(d)).collect();
                if k == 5 {
                    E::And(v)
                } else {
                    E::Or(v)
                }
            }
            7 => E::Not(Box::new(self.expr(depth - 1))),
            8 => {
                let x = self.expr(depth - 1);
                let min = match self.r.below(16) {
                    0..=8 => 0,
                    9..=12 => 1,
                    13 => 2,
                    14 => 3,
                    _ => self.r.below(12),
                };
                let max = match self.r.below(8) {
                    0..=4 => None,
                    5 => Some(min),
                    6 => Some(min + 1),
                    _ => Some(min + self.r.below(10)),
                };
                if max.is_none() && self.r.one_in(40) {
                    return E::Rep(Box::new(x), *self.r.pick(&[300usize, 1 << 33, isize::MAX as usize, usize::MAX]), None);
                }
                if self.r.one_in(40) {
                    return E::Rep(Box::new(x), min, Some(*self.r.pick(&[300usize, 1 << 33, usize::MAX])));
                }
                E::Rep(Box::new(x), min, max)
            }
            _ => {
                let n = self.names.clone();
                let x = self.r.pick(&n).clone();
                if self.near > 0 && self.r.one_in(self.near) {
                    return E::Ref(dict::near(self.r, &x));
                }
                E::Ref(x)
            }
        }
    }
}
/// a text the expression may match
fn sample(r: &mut Rng, rs: &Rules, e: &E, fuel: &mut usize, o: &mut String) {
    if *fuel == 0 {
        return;
    }
    *fuel -= 1;
    match e {
        E::Lit(s) => o.push_str(s),
        E::Class(s, v) => {
            let n = s.chars().count() + v.len();
            if n == 0 {
                return;
            }
            let k = r.below(n);
            match s.chars().nth(k) {
                Some(c) => o.push(c),
                None => {
                    let (a, b) = v[k - s.chars().count()];
                    let c = match r.below(4) {
                        0 => Some(a),
                        1 => Some(b),
                        2 => char::from_u32(a as u32 + (b as u32).saturating_sub(a as u32) / 2),
                        _ => char::from_u32((b as u32).wrapping_add(1)),
                    };
                    o.push(c.unwrap_or(a));
                }
            }
        }
        E::Dot => o.push(any_char(r)),
        E::Error(_) | E::Eof | E::Not(_) => {}
        E::And(v) => v.iter().for_each(|x| sample(r, rs, x, fuel, o)),
        E::Or(v) => {
            if !v.is_empty() {
                let x = r.pick(v);
                sample(r, rs, x, fuel, o);
            }
        }
        E::Rep(x, m, n) => {
            let hi = n.unwrap_or(m.saturating_add(3)).min(m.saturating_add(4));
            let k = m.saturating_add(r.below(hi.saturating_sub(*m) + 1)).min(12);
            let k = if r.one_in(6) { k + 1 } else if r.one_in(8) { k.saturating_sub(1) } else { k };
            for _ in 0..k {
                sample(r, rs, x, fuel, o);
            }
        }
        E::Ref(s) => {
            if let Some((_, e)) = rs.iter().find(|(n, _)| n == s) {
                sample(r, rs, e, fuel, o)
            }
        }
    }
}
pub fn gen(prop: &str, r: &mut Rng) -> Case {
    if r.one_in(if dict::dict().nums.is_empty() { 400 } else { 30 }) && prop != "C22" {
        return big(r);
    }
    let mut w = [30, 12, 3, 8, 4, 14, 14, 7, 14, 12];
    let boost: &[usize] = match prop {
        "C01" => &[5, 6, 9],
        "C02" | "C11" => &[8],
        "C03" => &[7],
        "C04" => &[0, 1, 3, 4],
        "C08" => &[2],
        "C09" => &[6, 6],
        _ => &[],
    };
    for b in boost {
        w[*b] *= 3;
    }
    if r.one_in(2) && prop != "C08" {
        w[2] = 0;
    }
    let nrules = [1, 1, 2, 2, 3, 4][r.below(6)];
    let mut names: Vec<String> = vec!["main".into(), "a".into(), "b".into(), r.pick(&["ñ€", "r.s", "main2", "", " ", ".a", "A", "a ", "€"]).to_string()];
    names.truncate(nrules);
    if names.len() > 1 && r.one_in(4) {
        let k = 1 + r.below(names.len() - 1);
        let x = match dict::st(r, 2) {
            Some(x) => x,
            None => dict::near(r, &names[r.0 as usize % names.len()].clone()),
        };
        if !names.contains(&x) {
            names[k] = x;
        }
    }
    let all = names.clone();
    if r.one_in(if prop == "C08" { 4 } else { 30 }) {
        let x = match r.below(8) {
            0 => r.pick(&["", "é", "€x", "\u{0}", "𝒳", " "]).to_string(),
            1 => any_str(r, 3),
            _ => "undefined".to_string(),
        };
        names.push(x);
    }
    let near = if r.one_in(if prop == "C08" { 4 } else { 20 }) { 3 } else { 0 };
    let depth = [0, 1, 2, 2, 3, 4][r.below(6)];
    let mut g = Gen { r, names, w, near };
    let rules: Rules = all
        .iter()
        .map(|n| (n.clone(), g.expr(depth)))
        .filter(|_| true)
        .collect();
    let rules = if r.one_in(60) { rules.into_iter().skip(1).collect() } else { rules };
    let mut text = String::new();
    if r.below(5) > 0 {
        if let Some((_, e)) = rules.iter().find(|(n, _)| n == "main") {
            let mut fuel = if r.one_in(20) { 300 } else { 40 };
            sample(r, &rules, e, &mut fuel, &mut text);
        }
        if r.one_in(2) {
            let mut c: Vec<char> = text.chars().collect();
            for _ in 0..1 + r.below(2) {
                let i = r.below(c.len() + 1);
                match r.below(5) {
                    0 => c.insert(i, any_char(r)),
                    1 if i < c.len() => {
                        c.remove(i);
                    }
                    2 if i < c.len() => c[i] = any_char(r),
                    3 => c.truncate(i),
                    _ => c.push(any_char(r)),
                }
            }
            text = c.into_iter().collect();
        }
    } else {
        text = any_str(r, 8);
    }
    if r.one_in(200) {
        // long text
        let unit = any_str(r, 6);
        text = text + &unit.repeat(1 + r.below(60));
    }
    // something else after it
    if let Some(s) = dict::st(r, 12) {
        text = if r.one_in(2) { text + &s } else { s + &text };
    } else if let Some(c) = dict::ch(r, 8) {
        text.push(c);
    }
    Case { rules, text }
}

//! The reference interpreter: what the properties say a parse does.
use crate::gram::{Rules, E};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Val(String),
    Rule(String, Vec<T>),
    Eof,
}
/// computed when it is asked for
#[derive(Clone, Debug)]
pub struct Tr(Option<Rc<Walk>>);
impl Tr {
    pub fn none() -> Tr {
        Tr(None)
    }
    pub fn list(&self) -> Vec<String> {
        trace(&self.0)
    }
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub n: usize,
    pub crit: bool,
    pub descr: String,
    pub trace: Tr,
}
#[derive(Clone, Debug)]
pub struct St {
    n: usize,
    pe: Option<Ev>,
    walk: Option<Rc<Walk>>,
}
/// the rules entered, the last one first
pub struct Walk {
    name: String,
    before: Option<Rc<Walk>>,
}
impl std::fmt::Debug for Walk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.name)
    }
}
fn trace(w: &Option<Rc<Walk>>) -> Vec<String> {
    let mut o = vec![];
    let mut w = w;
    while let Some(x) = w {
        o.push(x.name.clone());
        w = &x.before;
    }
    o.reverse();
    o
}
pub enum R {
    Ok(St, Vec<T>),
    Err(Ev),
}
/// the case is outside the properties (left recursion) or too long
pub struct Skip;

pub struct Ref<'a> {
    rules: HashMap<&'a str, &'a E>,
    text: &'a [char],
    steps: usize,
    entered: usize,
    active: Vec<(&'a str, usize)>,
    depth: usize,
    max: (usize, usize, usize),
}
#[derive(Clone, Debug)]
pub enum Ans {
    Tree(T),
    Fail(Ev),
}
pub struct Answer {
    pub ans: Ans,
    /// main matched a proper prefix only
    pub prefix: bool,
}
/// steps, depth and rules entered
pub const USUAL: (usize, usize, usize) = (8_000, 500, 1_000);

pub fn answer(rules: &Rules, text: &[char]) -> Result<Answer, Skip> {
    answer_within(rules, text, USUAL)
}
pub fn answer_within(rules: &Rules, text: &[char], max: (usize, usize, usize)) -> Result<Answer, Skip> {
    let mut m = HashMap::new();
    for (n, e) in rules {
        m.insert(n.as_str(), e);
    }
    let mut r = Ref { rules: m, text, steps: 0, entered: 0, active: vec![], depth: 0, max };
    let st = St { n: 0, pe: None, walk: None };
    let o = r.rule(st, "main")?;
    Ok(match o {
        R::Err(e) => Answer { ans: Ans::Fail(e), prefix: false },
        R::Ok(s, mut v) => {
            if s.n == text.len() {
                Answer { ans: Ans::Tree(v.remove(0)), prefix: false }
            } else {
                let e = s.pe.unwrap_or(Ev { n: s.n, crit: false, descr: "not consumed full input".into(), trace: Tr(s.walk) });
                Answer { ans: Ans::Fail(e), prefix: true }
            }
        }
    })
}
impl<'a> Ref<'a> {
    fn err(&self, st: &St, n: usize, descr: &str) -> R {
        R::Err(Ev { n, crit: false, descr: descr.to_string(), trace: Tr(st.walk.clone()) })
    }
    fn rule(&mut self, mut st: St, name: &'a str) -> Result<R, Skip> {
        st.walk = Some(Rc::new(Walk { name: format!("r:{}", name), before: st.walk.take() }));
        self.entered += 1;
        if self.entered > self.max.2 {
            return Err(Skip);
        }
        let e = match self.rules.get(name) {
            None => return Ok(R::Err(Ev { n: st.n, crit: true, descr: format!("Missing rule: {}", name), trace: Tr(st.walk) })),
            Some(e) => *e,
        };
        if self.active.contains(&(name, st.n)) {
            return Err(Skip);
        }
        self.active.push((name, st.n));
        let r = self.expr(st, e)?;
        self.active.pop();
        Ok(match r {
            R::Ok(s, v) => R::Ok(s, vec![T::Rule(name.to_string(), v)]),
            x => x,
        })
    }
    fn expr(&mut self, st: St, e: &'a E) -> Result<R, Skip> {
        self.steps += 1;
        self.depth += 1;
        if self.steps > self.max.0 || self.depth > self.max.1 {
            return Err(Skip);
        }
        let r = self.expr1(st, e);
        self.depth -= 1;
        r
    }
    fn one(&self, mut st: St, ok: impl Fn(char) -> bool, descr: &str) -> R {
        if st.n >= self.text.len() {
            return self.err(&st, st.n, descr);
        }
        let c = self.text[st.n];
        if ok(c) {
            st.n += 1;
            R::Ok(st, vec![T::Val(c.to_string())])
        } else {
            self.err(&st, st.n + 1, descr)
        }
    }
    fn expr1(&mut self, mut st: St, e: &'a E) -> Result<R, Skip> {
        Ok(match e {
            E::Lit(s) => {
                let d = format!("expected literal: <{}>", s);
                let start = st.n;
                for (i, c) in s.chars().enumerate() {
                    match self.text.get(start + i) {
                        None => return Ok(self.err(&st, start + i, &d)),
                        Some(x) if *x != c => return Ok(self.err(&st, start + i + 1, &d)),
                        _ => {}
                    }
                }
                st.n += s.chars().count();
                R::Ok(st, vec![T::Val(s.clone())])
            }
            E::Class(s, r) => self.one(st, |c| s.chars().any(|x| x == c) || r.iter().any(|&(a, b)| a as u32 <= c as u32 && c as u32 <= b as u32), &format!("match. expected {} {:?}", s, r)),
            E::Error(s) => R::Err(Ev { n: st.n, crit: true, descr: s.clone(), trace: Tr(st.walk) }),
            E::Dot => self.one(st, |_| true, "dot"),
            E::Eof => {
                if st.n >= self.text.len() {
                    R::Ok(st, vec![T::Eof])
                } else {
                    self.err(&st, st.n + 1, "expected EOF")
                }
            }
            E::And(v) => {
                let mut o = vec![];
                for x in v {
                    match self.expr(st, x)? {
                        R::Ok(s, w) => {
                            st = s;
                            o.extend(w);
                        }
                        x => return Ok(x),
                    }
                }
                R::Ok(st, o)
            }
            E::Or(v) => {
                let mut best: Option<Ev> = None;
                for x in v {
                    match self.expr(st.clone(), x)? {
                        R::Err(e) => {
                            if e.crit {
                                return Ok(R::Err(e));
                            }
                            best = match best {
                                Some(b) if b.n > e.n => Some(b),
                                _ => Some(e),
                            };
                        }
                        x => return Ok(x),
                    }
                }
                match best {
                    Some(b) => R::Err(b),
                    None => self.err(&st, st.n, "LOGIC ERROR!!! checked all options in or with ¿NO? errors"),
                }
            }
            E::Not(x) => match self.expr(st.clone(), x)? {
                R::Ok(..) => self.err(&st, st.n, "not"),
                R::Err(_) => R::Ok(st, vec![]),
            },
            E::Rep(x, min, max) => {
                let mut k = 0usize;
                let mut o = vec![];
                loop {
                    if let Some(m) = max {
                        if k >= *m {
                            return Ok(R::Ok(st, o));
                        }
                    }
                    match self.expr(st.clone(), x)? {
                        R::Err(e) => {
                            if e.crit || k < *min {
                                return Ok(R::Err(e));
                            }
                            st.pe = Some(e);
                            return Ok(R::Ok(st, o));
                        }
                        R::Ok(s, w) => {
                            let stuck = s.n == st.n;
                            st = s;
                            o.extend(w);
                            k += 1;
                            if max.is_none() && stuck && k >= *min {
                                return Ok(R::Ok(st, o));
                            }
                        }
                    }
                }
            }
            E::Ref(s) => self.rule(st, s)?,
        })
    }
}
pub fn leaf_text(t: &T) -> String {
    match t {
        T::Val(s) => s.clone(),
        T::Rule(_, v) => v.iter().map(leaf_text).collect(),
        T::Eof => String::new(),
    }
}

//! C19 to C23: PEG text, generated code and the built-in grammar.
use crate::dict;
use crate::gram::*;
use crate::parse::{any_char, size};
use crate::refi;
use crate::rng::Rng;
use crate::Bad;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use syn::parse::{Parse, ParseStream};

#[derive(Clone, Debug)]
pub enum Case {
    /// rules with the module each is written in, and the seed of the layout
    Peg { prop: String, rules: Rules, mods: Vec<usize>, layout: u64 },
    Gcode { rules: Rules },
    Builtin { rule: String },
    /// is this text accepted, as the published grammar says?
    Accept { text: String },
}

// ------------------------------------------------------------------ writing PEG text
struct Pr {
    r: Rng,
    o: String,
    plain: bool,
}
impl Pr {
    fn one_in(&mut self, n: usize) -> bool {
        !self.plain && self.r.one_in(n)
    }
    fn ws(&mut self) {
        while self.one_in(4) {
            match self.r.below(8) {
                0..=3 => self.o.push(' '),
                4 => self.o.push('\n'),
                5 => self.o.push_str("\r\n"),
                6 => {
                    self.o.push_str("/* c ");
                    let w = ["", "*", "x = 'a'", "\n", "ñ", "// "];
                    let s = *self.r.pick(&w);
                    self.o.push_str(s);
                    self.o.push_str(" */");
                }
                _ => {
                    self.o.push_str("// c ");
                    let w = ["", "/", "x = 'a'", "'", "\"", "€"];
                    let s = *self.r.pick(&w);
                    self.o.push_str(s);
                    self.o.push('\n');
                }
            }
        }
    }
    fn ws1(&mut self) {
        let c = if self.one_in(5) { '\n' } else { ' ' };
        self.o.push(c);
        self.ws();
    }
    fn or(&mut self, e: &E) {
        if let E::Or(v) = e {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    self.ws();
                    self.o.push('/');
                    if !self.one_in(3) {
                        self.ws1();
                    }
                }
                self.and(x);
            }
        } else {
            self.and(e)
        }
    }
    fn and(&mut self, e: &E) {
        match e {
            E::And(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.ws1();
                    }
                    self.elem(x, i > 0);
                }
            }
            e => self.elem(e, true),
        }
    }
    fn elem(&mut self, e: &E, error: bool) {
        match e {
            E::Rep(x, m, n) => {
                self.atom(x);
                self.o.push(match (m, n) {
                    (0, None) => '*',
                    (1, None) => '+',
                    _ => '?',
                });
            }
            E::Not(x) => {
                self.o.push('!');
                self.atom(x);
            }
            E::Error(s) if error => {
                self.o.push_str("error");
                self.ws();
                self.o.push('(');
                self.ws();
                self.lit(s);
                self.ws();
                self.o.push(')');
            }
            e => self.atom(e),
        }
    }
    fn atom(&mut self, e: &E) {
        let paren = self.one_in(12);
        match e {
            E::Lit(s) if !paren => self.lit(s),
            E::Class(s, v) if !paren => {
                self.o.push('[');
                self.o.push_str(s);
                for (a, b) in v {
                    self.o.push(*a);
                    self.o.push('-');
                    self.o.push(*b);
                }
                self.o.push(']');
            }
            E::Ref(s) if !paren => self.o.push_str(s),
            E::Dot if !paren => self.o.push('.'),
            e => {
                self.o.push('(');
                self.ws();
                self.or(e);
                self.ws();
                self.o.push(')');
            }
        }
    }
    fn lit(&mut self, s: &str) {
        if !s.contains('\'') && !self.one_in(2) {
            self.o.push('\'');
            self.o.push_str(s);
            self.o.push('\'');
            return;
        }
        let c: Vec<char> = s.chars().collect();
        let mut parts: Vec<String> = vec![];
        for &ch in c.iter().rev() {
            let next = parts.last().and_then(|p| p.chars().next()).unwrap_or('"');
            let hex = format!("\\0x{:02X}", ch as u32);
            parts.push(match ch {
                c if (c as u32) < 256 && self.one_in(6) => hex,
                '"' => "\\\"".into(),
                '\\' if "rnt\\\"0".contains(next) || self.one_in(2) || self.plain => "\\\\".into(),
                '\n' if !self.one_in(3) => "\\n".into(),
                '\r' if !self.one_in(3) => "\\r".into(),
                '\t' if !self.one_in(3) => "\\t".into(),
                c => c.to_string(),
            });
        }
        parts.reverse();
        self.o.push('"');
        self.o.push_str(&parts.concat());
        self.o.push('"');
    }
    fn rules(&mut self, rules: &Rules, mods: &[usize], depth: usize) {
        let mut i = 0;
        while i < rules.len() {
            self.ws();
            if mods[i] > depth {
                let mut j = i;
                while j < rules.len() && mods[j] > depth {
                    j += 1;
                }
                self.o.push_str(&format!("m{}", depth));
                self.ws1();
                self.o.push('{');
                self.ws1();
                self.rules(&rules[i..j].to_vec(), &mods[i..j], depth + 1);
                self.ws();
                self.o.push('}');
                self.eol();
                i = j;
            } else {
                self.o.push_str(&rules[i].0);
                if self.plain || self.r.below(4) > 0 {
                    self.o.push(' ');
                }
                self.ws();
                self.o.push('=');
                self.ws();
                let e = &rules[i].1;
                self.or(e);
                self.eol();
                i += 1;
            }
        }
    }
    fn eol(&mut self) {
        if self.one_in(4) {
            self.o.push_str([" ", "   ", " /* x */ ", " // x\n"][self.r.below(4)]);
        }
        let e = if self.one_in(10) { "\r\n" } else if self.one_in(10) { "\r" } else { "\n" };
        self.o.push_str(e);
        self.ws();
    }
}
pub fn text(rules: &Rules, mods: &[usize], layout: u64) -> String {
    let mut p = Pr { r: Rng::new(layout, 77), o: String::new(), plain: layout == 0 };
    p.rules(rules, mods, 0);
    p.o
}
/// what can be written in PEG text
fn writable(e: &E) -> bool {
    match e {
        E::Lit(_) | E::Error(_) | E::Dot | E::Ref(_) => true,
        E::Eof => false,
        E::Class(s, v) => {
            let c: Vec<char> = s.chars().collect();
            (!c.is_empty() || !v.is_empty()) && !c.contains(&']') && !c.iter().skip(1).any(|x| *x == '-') && !(!c.is_empty() && v.first().map_or(false, |x| x.0 == '-'))
        }
        E::And(v) | E::Or(v) => v.len() > 1 && v.iter().all(writable),
        E::Not(x) => writable(x),
        E::Rep(x, m, n) => matches!((m, n), (0, None) | (1, None) | (0, Some(1))) && writable(x),
    }
}

// ------------------------------------------------------------------ reading generated code
pub struct Entries(pub Rules);
fn mac(m: &syn::Macro) -> syn::Result<E> {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let list = |t: &proc_macro2::TokenStream| -> syn::Result<Vec<E>> {
        let v = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<syn::Macro, syn::Token![,]>::parse_terminated, t.clone())?;
        if v.trailing_punct() {
            return Err(syn::Error::new(proc_macro2::Span::call_site(), "trailing comma"));
        }
        v.iter().map(mac).collect()
    };
    // rustc wants these characters escaped; the parser used here does not
    let ch = |c: syn::LitChar| -> syn::Result<char> {
        match c.token().to_string().as_str() {
            "'''" | "'\n'" | "'\t'" | "'\r'" => Err(syn::Error::new(proc_macro2::Span::call_site(), "character not escaped")),
            _ => Ok(c.value()),
        }
    };
    let s = |t: &proc_macro2::TokenStream| -> syn::Result<String> { Ok(syn::parse2::<syn::LitStr>(t.clone())?.value()) };
    Ok(match name.as_str() {
        "lit" => E::Lit(s(&m.tokens)?),
        "error" => E::Error(s(&m.tokens)?),
        "ref_rule" => E::Ref(s(&m.tokens)?),
        "dot" => E::Dot,
        "eof" => E::Eof,
        "and" => E::And(list(&m.tokens)?),
        "or" => E::Or(list(&m.tokens)?),
        "not" => E::Not(Box::new(mac(&syn::parse2(m.tokens.clone())?)?)),
        "rep" => syn::parse::Parser::parse2(
            |i: ParseStream| {
                let x: syn::Macro = i.parse()?;
                let mut nums = vec![];
                while !i.is_empty() {
                    i.parse::<syn::Token![,]>()?;
                    nums.push(i.parse::<syn::LitInt>()?.base10_parse::<usize>()?);
                }
                if nums.is_empty() || nums.len() > 2 {
                    return Err(i.error("rep"));
                }
                Ok(E::Rep(Box::new(mac(&x)?), nums[0], nums.get(1).copied()))
            },
            m.tokens.clone(),
        )?,
        "ematch" => syn::parse::Parser::parse2(
            |i: ParseStream| {
                let k: syn::Ident = i.parse()?;
                if k != "chlist" {
                    return Err(i.error("chlist"));
                }
                let chars = i.parse::<syn::LitStr>()?.value();
                let mut v = vec![];
                i.parse::<syn::Token![,]>()?;
                loop {
                    let k: syn::Ident = i.parse()?;
                    if k == "from2" && v.is_empty() {
                        let m: syn::Macro = i.parse()?;
                        if !m.path.is_ident("vec") || !m.tokens.is_empty() {
                            return Err(i.error("vec![]"));
                        }
                        break;
                    }
                    if k != "from" {
                        return Err(i.error("from"));
                    }
                    let a = ch(i.parse()?)?;
                    i.parse::<syn::Token![,]>()?;
                    let k: syn::Ident = i.parse()?;
                    if k != "to" {
                        return Err(i.error("to"));
                    }
                    let b = ch(i.parse()?)?;
                    v.push((a, b));
                    if i.is_empty() {
                        break;
                    }
                    i.parse::<syn::Token![,]>()?;
                }
                if !i.is_empty() {
                    return Err(i.error("end"));
                }
                Ok(E::Class(chars, v))
            },
            m.tokens.clone(),
        )?,
        _ => return Err(syn::Error::new(proc_macro2::Span::call_site(), format!("macro {}", name))),
    })
}
impl Parse for Entries {
    fn parse(i: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            let n: syn::LitStr = i.parse()?;
            i.parse::<syn::Token![=>]>()?;
            let m: syn::Macro = i.parse()?;
            v.push((n.value(), mac(&m)?));
            if i.is_empty() {
                break;
            }
            i.parse::<syn::Token![,]>()?;
            if i.is_empty() {
                return Err(i.error("trailing comma"));
            }
        }
        Ok(Entries(v))
    }
}

/// the same expression by the library's macros (for the numbers of elements they are used with here)
fn by_macros(e: &E) -> dynparser::parser::expression::Expression {
    use dynparser::*;
    match e {
        E::Lit(s) => lit!(s),
        E::Error(s) => error!(s),
        E::Ref(s) => ref_rule!(s),
        E::Dot => dot!(),
        E::Eof => eof!(),
        E::Not(x) => not!(by_macros(x)),
        E::Rep(x, m, None) => rep!(by_macros(x), *m),
        E::Rep(x, m, Some(n)) => rep!(by_macros(x), *m, *n),
        E::Class(s, v) => match v.as_slice() {
            [] => ematch!(chlist s, from2 vec![]),
            [x0] => ematch!(chlist s, from x0.0, to x0.1),
            [x0, x1] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1),
            [x0, x1, x2] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1, from x2.0, to x2.1),
            [x0, x1, x2, x3] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1, from x2.0, to x2.1, from x3.0, to x3.1),
            [x0, x1, x2, x3, x4] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1, from x2.0, to x2.1, from x3.0, to x3.1, from x4.0, to x4.1),
            [x0, x1, x2, x3, x4, x5] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1, from x2.0, to x2.1, from x3.0, to x3.1, from x4.0, to x4.1, from x5.0, to x5.1),
            [x0, x1, x2, x3, x4, x5, x6] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1, from x2.0, to x2.1, from x3.0, to x3.1, from x4.0, to x4.1, from x5.0, to x5.1, from x6.0, to x6.1),
            [x0, x1, x2, x3, x4, x5, x6, x7] => ematch!(chlist s, from x0.0, to x0.1, from x1.0, to x1.1, from x2.0, to x2.1, from x3.0, to x3.1, from x4.0, to x4.1, from x5.0, to x5.1, from x6.0, to x6.1, from x7.0, to x7.1),
            v => ematch!(chlist s, from2 v.to_vec()),
        },
        E::And(v) => match v.as_slice() {
            [] => and!(),
            [x0] => and!(by_macros(x0)),
            [x0, x1] => and!(by_macros(x0), by_macros(x1)),
            [x0, x1, x2] => and!(by_macros(x0), by_macros(x1), by_macros(x2)),
            [x0, x1, x2, x3] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3)),
            [x0, x1, x2, x3, x4] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4)),
            [x0, x1, x2, x3, x4, x5] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5)),
            [x0, x1, x2, x3, x4, x5, x6] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6)),
            [x0, x1, x2, x3, x4, x5, x6, x7] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8), by_macros(x9)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8), by_macros(x9), by_macros(x10)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11] => and!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8), by_macros(x9), by_macros(x10), by_macros(x11)),
            _ => crate::gram::expr(e),
        },
        E::Or(v) => match v.as_slice() {
            [] => or!(),
            [x0] => or!(by_macros(x0)),
            [x0, x1] => or!(by_macros(x0), by_macros(x1)),
            [x0, x1, x2] => or!(by_macros(x0), by_macros(x1), by_macros(x2)),
            [x0, x1, x2, x3] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3)),
            [x0, x1, x2, x3, x4] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4)),
            [x0, x1, x2, x3, x4, x5] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5)),
            [x0, x1, x2, x3, x4, x5, x6] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6)),
            [x0, x1, x2, x3, x4, x5, x6, x7] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8), by_macros(x9)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8), by_macros(x9), by_macros(x10)),
            [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11] => or!(by_macros(x0), by_macros(x1), by_macros(x2), by_macros(x3), by_macros(x4), by_macros(x5), by_macros(x6), by_macros(x7), by_macros(x8), by_macros(x9), by_macros(x10), by_macros(x11)),
            _ => crate::gram::expr(e),
        },
    }
}
fn rules_by_macros(r: &Rules) -> dynparser::parser::expression::SetOfRules {
    use dynparser::*;
    match r.as_slice() {
        [] => rules! {},
        [x0] => rules! { &x0.0 => by_macros(&x0.1) },
        [x0, x1] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1) },
        [x0, x1, x2] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1) },
        [x0, x1, x2, x3] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1) },
        [x0, x1, x2, x3, x4] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1), &x4.0 => by_macros(&x4.1) },
        [x0, x1, x2, x3, x4, x5] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1), &x4.0 => by_macros(&x4.1), &x5.0 => by_macros(&x5.1) },
        [x0, x1, x2, x3, x4, x5, x6] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1), &x4.0 => by_macros(&x4.1), &x5.0 => by_macros(&x5.1), &x6.0 => by_macros(&x6.1) },
        [x0, x1, x2, x3, x4, x5, x6, x7] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1), &x4.0 => by_macros(&x4.1), &x5.0 => by_macros(&x5.1), &x6.0 => by_macros(&x6.1), &x7.0 => by_macros(&x7.1) },
        [x0, x1, x2, x3, x4, x5, x6, x7, x8] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1), &x4.0 => by_macros(&x4.1), &x5.0 => by_macros(&x5.1), &x6.0 => by_macros(&x6.1), &x7.0 => by_macros(&x7.1), &x8.0 => by_macros(&x8.1) },
        [x0, x1, x2, x3, x4, x5, x6, x7, x8, x9] => rules! { &x0.0 => by_macros(&x0.1), &x1.0 => by_macros(&x1.1), &x2.0 => by_macros(&x2.1), &x3.0 => by_macros(&x3.1), &x4.0 => by_macros(&x4.1), &x5.0 => by_macros(&x5.1), &x6.0 => by_macros(&x6.1), &x7.0 => by_macros(&x7.1), &x8.0 => by_macros(&x8.1), &x9.0 => by_macros(&x9.1) },
        _ => r.iter().fold(rules! {}, |s, (n, e)| s.add(n, by_macros(e))),
    }
}

// ------------------------------------------------------------------ the documented grammar
/// The published grammar, read by a parser of its own that follows the documentation.
pub fn read_peg(t: &str) -> Option<Rules> {
    let mut p = Rd { c: t.chars().collect(), i: 0 };
    let mut o = vec![];
    loop {
        p.ws();
        if p.i >= p.c.len() {
            return Some(o);
        }
        let n = p.name()?;
        p.ws();
        p.eat("=")?;
        p.ws();
        o.push((n, p.or()?));
    }
}
struct Rd {
    c: Vec<char>,
    i: usize,
}
impl Rd {
    fn at(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.c.get(self.i + k) == Some(&c))
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        if self.at(s) {
            self.i += s.chars().count();
            Some(())
        } else {
            None
        }
    }
    fn ws(&mut self) -> bool {
        let b = self.i;
        loop {
            if self.at("//") {
                while self.i < self.c.len() && self.c[self.i] != '\n' && self.c[self.i] != '\r' {
                    self.i += 1;
                }
            } else if self.at("/*") {
                while self.i < self.c.len() && !self.at("*/") {
                    self.i += 1;
                }
                self.i += 2;
            } else if self.i < self.c.len() && " \n\r".contains(self.c[self.i]) {
                self.i += 1;
            } else {
                return self.i > b;
            }
        }
    }
    fn symbol(&mut self) -> Option<String> {
        let b = self.i;
        let ok = |c: char, first: bool| c == '_' || c.is_ascii_alphanumeric() || !first && (c == '\'' || c == '"');
        while self.i < self.c.len() && ok(self.c[self.i], self.i == b) {
            self.i += 1;
        }
        if self.i > b {
            Some(self.c[b..self.i].iter().collect())
        } else {
            None
        }
    }
    fn name(&mut self) -> Option<String> {
        let b = self.i;
        let mut s = String::new();
        if self.eat(".").is_some() {
            s.push('.');
        }
        match self.symbol() {
            Some(x) => s += &x,
            None => {
                self.i = b;
                return None;
            }
        }
        loop {
            let b = self.i;
            if self.eat(".").is_some() {
                if let Some(x) = self.symbol() {
                    s = s + "." + &x;
                    continue;
                }
            }
            self.i = b;
            return Some(s);
        }
    }
    fn or(&mut self) -> Option<E> {
        let mut v = vec![self.and()?];
        loop {
            let b = self.i;
            self.ws();
            if self.eat("/").is_none() {
                self.i = b;
                break;
            }
            self.ws();
            v.push(self.and()?);
        }
        Some(if v.len() == 1 { v.remove(0) } else { E::Or(v) })
    }
    fn and(&mut self) -> Option<E> {
        let mut v = vec![self.elem()?];
        loop {
            let b = self.i;
            if !self.ws() {
                break;
            }
            let here = self.i;
            // the next rule
            if self.name().is_some() {
                self.ws();
                if self.at("=") || self.at("{") {
                    self.i = b;
                    break;
                }
            }
            self.i = here;
            match self.elem() {
                Some(e) => v.push(e),
                None => {
                    self.i = b;
                    break;
                }
            }
        }
        Some(if v.len() == 1 { v.remove(0) } else { E::And(v) })
    }
    fn elem(&mut self) -> Option<E> {
        if self.eat("!").is_some() {
            return Some(E::Not(Box::new(self.atom()?)));
        }
        let b = self.i;
        if self.eat("error").is_some() {
            self.ws();
            if self.eat("(").is_some() {
                self.ws();
                let s = self.lit()?;
                self.ws();
                self.eat(")")?;
                return Some(E::Error(s));
            }
        }
        self.i = b;
        let e = self.atom()?;
        Some(if self.eat("*").is_some() {
            E::Rep(Box::new(e), 0, None)
        } else if self.eat("+").is_some() {
            E::Rep(Box::new(e), 1, None)
        } else if self.eat("?").is_some() {
            E::Rep(Box::new(e), 0, Some(1))
        } else {
            e
        })
    }
    fn lit(&mut self) -> Option<String> {
        let mut s = String::new();
        if self.eat("'").is_some() {
            while *self.c.get(self.i)? != '\'' {
                s.push(self.c[self.i]);
                self.i += 1;
            }
            self.i += 1;
            return Some(s);
        }
        self.eat("\"")?;
        loop {
            let esc = [("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\\\", '\\'), ("\\\"", '"')];
            if let Some((t, c)) = esc.iter().find(|(t, _)| self.at(t)) {
                s.push(*c);
                self.eat(t);
            } else if self.at("\\0x") && self.c[self.i + 3..].len() > 1 && self.c[self.i + 3..self.i + 5].iter().all(|c| "0123456789ABCDEF".contains(*c)) {
                let h: String = self.c[self.i + 3..self.i + 5].iter().collect();
                s.push(u8::from_str_radix(&h, 16).unwrap() as char);
                self.i += 5;
            } else if self.eat("\"").is_some() {
                return Some(s);
            } else {
                s.push(*self.c.get(self.i)?);
                self.i += 1;
            }
        }
    }
    fn atom(&mut self) -> Option<E> {
        if self.eat("(").is_some() {
            self.ws();
            let e = self.or()?;
            self.ws();
            self.eat(")")?;
            return Some(e);
        }
        if self.at("'") || self.at("\"") {
            return Some(E::Lit(self.lit()?));
        }
        if self.eat("[").is_some() {
            let mut s = String::new();
            let mut v = vec![];
            let range = |p: &Rd| p.c.get(p.i + 1) == Some(&'-');
            while !self.at("]") && !range(self) {
                s.push(*self.c.get(self.i)?);
                self.i += 1;
            }
            while range(self) {
                v.push((self.c[self.i], *self.c.get(self.i + 2)?));
                self.i += 3;
            }
            self.eat("]")?;
            return Some(E::Class(s, v));
        }
        if let Some(n) = self.name() {
            return Some(E::Ref(n));
        }
        self.eat(".")?;
        Some(E::Dot)
    }
}
pub fn repo() -> String {
    std::env::var("VP_REPO").unwrap_or("/repo".into())
}
/// the built-in rules, as written in the source
pub fn builtin() -> Option<Rules> {
    let f = syn::parse_file(&std::fs::read_to_string(repo() + "/src/peg/rules.rs").ok()?).ok()?;
    for i in &f.items {
        if let syn::Item::Fn(f) = i {
            if f.sig.ident == "parse_peg" && f.block.stmts.len() == 1 {
                let m = match &f.block.stmts[0] {
                    syn::Stmt::Macro(m) => &m.mac,
                    syn::Stmt::Expr(syn::Expr::Macro(m), _) => &m.mac,
                    _ => return None,
                };
                return Some(syn::parse2::<Entries>(m.tokens.clone()).ok()?.0);
            }
        }
    }
    None
}
/// the published grammar's text
pub fn published() -> Option<String> {
    // the text as the extractor read it
    if let Some(t) = std::env::var("VP_GRAMMAR").ok().and_then(|f| std::fs::read_to_string(f).ok()) {
        return Some(t);
    }
    let f = syn::parse_file(&std::fs::read_to_string(repo() + "/src/peg/peg2code.rs").ok()?).ok()?;
    for i in &f.items {
        if let syn::Item::Fn(f) = i {
            if f.sig.ident == "text_peg2code" {
                if let [syn::Stmt::Expr(syn::Expr::Lit(l), None)] = &f.block.stmts[..] {
                    if let syn::Lit::Str(s) = &l.lit {
                        return Some(s.value());
                    }
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------ cases
/// where two expressions differ first: a literal, a class, or the structure
fn differs(a: &E, b: &E, o: &mut Vec<&'static str>) {
    match (a, b) {
        (a, b) if a == b => {}
        (E::Lit(_), E::Lit(_)) => o.push("C20"),
        (E::Error(_), E::Error(_)) => o.extend(["C20", "C19"]),
        (E::Class(..), E::Class(..)) => o.push("C21"),
        (E::And(x), E::And(y)) | (E::Or(x), E::Or(y)) if x.len() == y.len() => x.iter().zip(y).for_each(|(p, q)| differs(p, q, o)),
        (E::Not(x), E::Not(y)) => differs(x, y, o),
        (E::Rep(x, m, n), E::Rep(y, m2, n2)) if m == m2 && n == n2 => differs(x, y, o),
        _ => o.push("C19"),
    }
}
impl Case {
    pub fn json(&self) -> Value {
        match self {
            Case::Peg { prop, rules, mods, layout } => json!({"peg": {"prop": prop, "rules": rjson(rules), "mods": mods, "layout": layout, "text": text(rules, mods, *layout)}}),
            Case::Gcode { rules } => json!({"gcode": {"rules": rjson(rules)}}),
            Case::Builtin { rule } => json!({ "builtin": { "rule": rule } }),
            Case::Accept { text } => json!({ "accept": { "text": text } }),
        }
    }
    pub fn from_json(k: &str, v: &Value) -> Case {
        match k {
            "peg" => Case::Peg {
                prop: v["prop"].as_str().unwrap().into(),
                rules: jsonr(&v["rules"]),
                mods: v["mods"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect(),
                layout: v["layout"].as_u64().unwrap(),
            },
            "gcode" => Case::Gcode { rules: jsonr(&v["rules"]) },
            "accept" => Case::Accept { text: v["text"].as_str().unwrap().into() },
            _ => Case::Builtin { rule: v["rule"].as_str().unwrap().into() },
        }
    }
    pub fn shrink(&self) -> Vec<Case> {
        match self {
            Case::Peg { prop, rules, mods, layout } => {
                let mut o = vec![];
                if *layout != 0 {
                    for l in [0, 1, 2, 3, 4] {
                        if l < *layout {
                            o.push(Case::Peg { prop: prop.clone(), rules: rules.clone(), mods: mods.clone(), layout: l });
                        }
                    }
                }
                if mods.iter().any(|m| *m > 0) {
                    o.push(Case::Peg { prop: prop.clone(), rules: rules.clone(), mods: vec![0; mods.len()], layout: *layout });
                }
                if rules.len() > 40 {
                    for k in [rules.len() / 2, rules.len() / 4, rules.len() / 8] {
                        for i in 0..rules.len() / k {
                            let (mut r, mut m) = (rules.clone(), mods.clone());
                            r.drain(i * k..(i + 1) * k);
                            m.drain(i * k..(i + 1) * k);
                            o.push(Case::Peg { prop: prop.clone(), rules: r, mods: m, layout: *layout });
                        }
                    }
                }
                if rules.len() > 1 {
                    for i in 0..rules.len() {
                        let (mut r, mut m) = (rules.clone(), mods.clone());
                        r.remove(i);
                        m.remove(i);
                        o.push(Case::Peg { prop: prop.clone(), rules: r, mods: m, layout: *layout });
                    }
                }
                for i in 0..rules.len() {
                    for e in shrink(&rules[i].1) {
                        if writable(&e) {
                            let mut r = rules.clone();
                            r[i].1 = e;
                            o.push(Case::Peg { prop: prop.clone(), rules: r, mods: mods.clone(), layout: *layout });
                        }
                    }
                    if rules[i].0 != "main" {
                        let mut r = rules.clone();
                        r[i].0 = "main".into();
                        if rules.iter().all(|(n, _)| n != "main") {
                            o.push(Case::Peg { prop: prop.clone(), rules: r, mods: mods.clone(), layout: *layout });
                        }
                    }
                }
                o
            }
            Case::Gcode { rules } => shrink_rules(rules).into_iter().map(|rules| Case::Gcode { rules }).collect(),
            Case::Builtin { .. } => vec![],
            Case::Accept { text } => shrink_str(text).into_iter().map(|text| Case::Accept { text }).collect(),
        }
    }
    pub fn check(&self) -> Vec<Bad> {
        let one = |props: Vec<&'static str>, what: &str, want: String, got: String| vec![Bad { props, what: what.into(), want, got }];
        match self {
            Case::Peg { rules, mods, layout, .. } => {
                let t = text(rules, mods, *layout);
                let want = sorted(rules);
                let got = catch_unwind(AssertUnwindSafe(|| dynparser::rules_from_peg(&t).map(|r| from_rules(&r)).map_err(|e| format!("{}", e))));
                let feats = || {
                    let mut p = vec![];
                    for (_, e) in rules {
                        walk(e, &mut |e| match e {
                            E::Class(..) => p.push("C21"),
                            E::Lit(s) if s != "a" => p.push("C20"),
                            E::And(_) | E::Or(_) | E::Not(_) | E::Rep(..) | E::Error(_) | E::Dot | E::Ref(_) => p.push("C19"),
                            _ => {}
                        });
                    }
                    if p.is_empty() || rules.len() > 1 || mods.iter().any(|m| *m > 0) || *layout != 0 {
                        p.push("C19");
                    }
                    p.sort();
                    p.dedup();
                    p
                };
                match got {
                    Err(_) => one(feats(), "rules_from_peg panics", format!("{:?}", want), format!("a panic on {:?}", t)),
                    Ok(Err(e)) => one(feats(), "the text is refused", format!("{:?}", want), format!("{} on {:?}", e, t)),
                    Ok(Ok(g)) if g != want => {
                        let mut p = vec![];
                        if g.len() != want.len() || g.iter().zip(&want).any(|(a, b)| a.0 != b.0) {
                            p.push("C19");
                        } else {
                            g.iter().zip(&want).for_each(|(a, b)| differs(&a.1, &b.1, &mut p));
                        }
                        one(p, "other rules than written", format!("{:?}", want), format!("{:?} from {:?}", g, t))
                    }
                    _ => vec![],
                }
            }
            Case::Gcode { rules: r } => {
                let want = sorted(r);
                let rs = rules(r);
                let code = match catch_unwind(AssertUnwindSafe(|| dynparser::peg::gcode::rust_from_rules(&rs))) {
                    Ok(c) => c,
                    Err(_) => return one(vec!["C22"], "rust_from_rules panics", format!("{:?}", want), "a panic".into()),
                };
                let got = syn::parse_str::<Entries>(&code).map(|e| sorted(&e.0)).map_err(|e| e.to_string());
                let m = crate::gram::from_rules(&rules_by_macros(r));
                if m != want {
                    return one(vec!["C22"], "the macros give other rules", format!("{:?}", want), format!("{:?}", m));
                }
                match got {
                    Err(e) => one(vec!["C22"], "the code is not Rust for these rules", format!("{:?}", want), format!("{} in {:?}", e, code)),
                    Ok(g) if g != want => one(vec!["C22"], "the code gives other rules", format!("{:?}", want), format!("{:?} from {:?}", g, code)),
                    _ => vec![],
                }
            }
            Case::Accept { text } => {
                static G: std::sync::OnceLock<Option<Rules>> = std::sync::OnceLock::new();
                let g = match G.get_or_init(|| published().and_then(|t| read_peg(&t))) {
                    Some(g) => g,
                    None => return vec![],
                };
                let chars: Vec<char> = text.chars().collect();
                let want = match refi::answer_within(g, &chars, (400_000, 4_000, 200_000)) {
                    Ok(a) => matches!(a.ans, refi::Ans::Tree(_)),
                    Err(_) => return vec![],
                };
                let got = catch_unwind(AssertUnwindSafe(|| dynparser::rules_from_peg(text).map(|_| ())));
                let w = if want { "accepted" } else { "refused" };
                match got {
                    Err(_) => one(vec!["C24", "C23", "C19"], "rules_from_peg panics", w.into(), format!("a panic on {:?}", text)),
                    Ok(g) if g.is_ok() != want => one(vec!["C24", "C23"], "the published grammar says otherwise about this text", w.into(), format!("{} on {:?}", match g { Ok(_) => "accepted".to_string(), Err(e) => format!("refused: {}", e) }, text)),
                    // the error is that of the parse by the published grammar
                    Ok(Err(e)) => {
                        let own = match catch_unwind(AssertUnwindSafe(|| dynparser::parse(text, &rules(g)))) {
                            Ok(Err(x)) => x,
                            _ => return vec![],
                        };
                        let k = |e: &dynparser::parser::Error| (e.pos.clone(), e.descr.clone(), e.line_before.clone(), e.line_after.clone(), e.priority, e.parsing_rules.clone());
                        match &e {
                            dynparser::peg::Error::Parser(x) if k(x) == k(&own) => vec![],
                            _ => one(vec!["C24"], "not the error of the parse by the published grammar", format!("{:?}", own), format!("{:?} on {:?}", e, text)),
                        }
                    }
                    _ => vec![],
                }
            }
            // the published grammar, given to the library
            Case::Builtin { rule } if rule.is_empty() => {
                let t = match published() {
                    Some(t) => t,
                    None => return vec![],
                };
                let want = read_peg(&t).map(|r| sorted(&r));
                let got = catch_unwind(AssertUnwindSafe(|| dynparser::rules_from_peg(&t).map(|r| from_rules(&r)).map_err(|e| format!("{}", e))));
                match (want, got) {
                    (Some(w), Ok(Ok(g))) if w == g => vec![],
                    (w, g) => one(vec!["C23"], "the published grammar, read by the library, gives other rules", format!("{:?}", w), format!("{:?}", g.map_err(|_| "a panic"))),
                }
            }
            Case::Builtin { rule } => {
                let find = |r: &Rules| r.iter().find(|(n, _)| n == rule).map(|(_, e)| e.clone());
                match (builtin(), published().and_then(|t| read_peg(&t))) {
                    (Some(b), Some(p)) => {
                        let (x, y) = (find(&b), find(&p));
                        let dup = |r: &Rules| r.iter().filter(|(n, _)| n == rule).count() > 1;
                        if x != y || dup(&b) || dup(&p) {
                            return one(vec!["C23"], &format!("the rule {} is not as published", rule), format!("{:?}", y), format!("{:?}", x));
                        }
                        vec![]
                    }
                    _ => vec![],
                }
            }
        }
    }
}
const NAMES: &[&str] = &["a", "b1", "_x", "x'y", "q\"", "A.b", ".c", "a.b.c", "0d", "error1", "_", "eol", "rule", "Z9", "_1"];
/// a name that PEG text can have
fn rule_name(r: &mut Rng) -> String {
    let first = |c: char| c == '_' || c.is_ascii_alphanumeric();
    let valid = |s: &str| {
        let t = s.strip_prefix('.').unwrap_or(s);
        s != "error" && s != ".error" && t.split('.').all(|p| p.chars().next().map_or(false, first) && p.chars().all(|c| first(c) || c == '\'' || c == '"'))
    };
    loop {
        let s = match dict::st(r, 6) {
            Some(s) => s,
            None if r.one_in(6) => {
                let n = if r.one_in(10) { size(r, 300) } else { 1 + r.below(6) };
                (0..n).map(|i| if i > 0 && r.one_in(4) { *r.pick(&['\'', '"', '.', '_', '0']) } else { char::from_u32(33 + r.below(94) as u32).unwrap() }).collect()
            }
            None => r.pick(NAMES).to_string(),
        };
        let s = if r.one_in(8) { dict::near(r, &s) } else { s };
        if valid(&s) {
            return s;
        }
    }
}
/// how often something is large
fn rate(often: usize) -> usize {
    if dict::dict().nums.is_empty() {
        often
    } else {
        often / 10 + 1
    }
}
fn lit_text(r: &mut Rng) -> String {
    if let Some(s) = dict::st(r, 6) {
        return match r.below(4) {
            0 => s,
            1 => lit_text1(r) + &s,
            2 => s + &lit_text1(r),
            _ => lit_text1(r) + &s + &lit_text1(r),
        };
    }
    lit_text1(r)
}
fn lit_text1(r: &mut Rng) -> String {
    if let Some(c) = dict::ch(r, 6) {
        return c.to_string();
    }
    let n = match r.below(8) {
        0 => 0,
        1..=4 => 1,
        5 => 2,
        6 => 3,
        _ if r.one_in(rate(200)) => size(r, 600),
        _ => r.below(8),
    };
    (0..n)
        .map(|_| match r.below(7) {
            0 => *r.pick(&['\\', '"', '\'', 'n', 'r', 't', '0', 'x', 'A', '4']),
            1 => *r.pick(&['\n', '\r', '\t', '/', '*', ' ', '[', ']', '(', ')']),
            2 => char::from_u32(r.below(256) as u32).unwrap(),
            _ => any_char(r),
        })
        .collect()
}
fn class(r: &mut Rng) -> E {
    loop {
        let mut s = lit_text(r);
        let k = if r.one_in(rate(200)) { size(r, 60) } else { r.below(4) };
        if s.is_empty() && k == 0 {
            s.push('-');
        }
        let ch = |r: &mut Rng| lit_text(r).chars().next().unwrap_or('a');
        let v = (0..k).map(|_| (ch(r), ch(r))).collect();
        let e = E::Class(s, v);
        if writable(&e) {
            return e;
        }
    }
}
fn gen_e(prop: &str, r: &mut Rng, depth: usize, names: &[String]) -> E {
    let mut w = [10, 4, 3, 3, 6, 8, 8, 4, 8];
    match prop {
        "C20" => w[0] = 40,
        "C21" => w[1] = 40,
        _ => {}
    }
    if depth == 0 {
        for k in 5..9 {
            w[k] = 0;
        }
    }
    match r.weighted(&w) {
        0 => E::Lit(if prop == "C19" && !r.one_in(4) { r.pick(&["a", "b", "ab", " "]).to_string() } else { lit_text(r) }),
        1 => class(r),
        2 => E::Error(if prop == "C19" && !r.one_in(4) { "e".into() } else { lit_text(r) }),
        3 => E::Dot,
        4 => E::Ref(r.pick(names).clone()),
        k @ 5..=6 => {
            let many = r.one_in(rate(400));
            let n = if many { 2 + size(r, 80) } else if r.one_in(8) { 2 + r.below(6) } else { 2 + r.below(2) };
            let d = if many { 0 } else { depth - 1 };
            let v = (0..n).map(|_| gen_e(prop, r, d, names)).collect();
            if k == 5 {
                E::And(v)
            } else {
                E::Or(v)
            }
        }
        7 => E::Not(Box::new(gen_e(prop, r, depth - 1, names))),
        _ => {
            let (m, n) = *r.pick(&[(0, None), (1, None), (0, Some(1))]);
            E::Rep(Box::new(gen_e(prop, r, depth - 1, names)), m, n)
        }
    }
}
pub fn gen(prop: &str, r: &mut Rng, i: u64) -> Case {
    match prop {
        "C22" => {
            let mut c = crate::parse::gen("C22", r);
            if r.one_in(3) {
                for (n, _) in c.rules.iter_mut() {
                    if r.one_in(2) {
                        n.extend(lit_text(r).chars().filter(|c| c.is_ascii_alphanumeric() || "_'\"".contains(*c)));
                    }
                }
            }
            fn odd(e: &mut E, r: &mut Rng) {
                match e {
                    E::Lit(s) | E::Error(s) | E::Ref(s) if r.one_in(2) => *s = lit_text(r),
                    E::Class(s, v) => {
                        *s = lit_text(r);
                        for p in v {
                            p.0 = lit_text(r).chars().next().unwrap_or(p.0);
                            p.1 = lit_text(r).chars().next().unwrap_or(p.1);
                        }
                    }
                    E::And(v) | E::Or(v) => v.iter_mut().for_each(|x| odd(x, r)),
                    E::Not(x) | E::Rep(x, _, _) => odd(x, r),
                    _ => {}
                }
            }
            c.rules.iter_mut().for_each(|(_, e)| odd(e, r));
            for _ in 0..if r.one_in(rate(300)) { size(r, 60) } else if r.one_in(10) { r.below(10) } else { 0 } {
                let n = if r.one_in(2) { rule_name(r) } else { lit_text(r) };
                let mut e = E::Lit(lit_text(r));
                if r.one_in(3) {
                    let k = if r.one_in(rate(100)) { size(r, 60) } else { r.below(14) };
                    let v = (0..k).map(|_| if r.one_in(2) { E::Lit(lit_text(r)) } else { E::Class(lit_text(r), vec![]) }).collect();
                    e = if r.one_in(2) { E::And(v) } else { E::Or(v) };
                } else if r.one_in(3) {
                    let (a, b) = (size(r, 70_000), size(r, 70_000));
                    e = E::Rep(Box::new(e), a, if r.one_in(2) { None } else { Some(b) });
                } else if r.one_in(3) {
                    e = E::Class(lit_text(r), (0..r.below(12)).map(|_| (any_char(r), any_char(r))).collect());
                }
                c.rules.push((n, e));
            }
            let mut seen = std::collections::BTreeSet::new();
            c.rules.retain(|(n, _)| seen.insert(n.clone()));
            Case::Gcode { rules: c.rules }
        }
        "C23" | "C24" => {
            let mut names: Vec<String> = builtin().into_iter().chain(published().and_then(|t| read_peg(&t))).flatten().map(|x| x.0).collect();
            names.sort();
            names.dedup();
            names.push(String::new());
            if let (Some(n), "C23") = (names.get(i as usize), prop) {
                return Case::Builtin { rule: n.clone() };
            }
            let p = ["C19", "C20", "C21"][r.below(3)];
            let mut t: Vec<char> = match gen(p, r, i) {
                Case::Peg { rules, mods, layout, .. } => text(&rules, &mods, layout).chars().collect(),
                _ => vec![],
            };
            t.truncate(300);
            if r.one_in(4) {
                match r.below(5) {
                    // a piece once more, here or elsewhere
                    0 if !t.is_empty() => {
                        let a = r.below(t.len());
                        let p = t[a..a + 1 + r.below(t.len() - a)].to_vec();
                        let at = r.below(t.len() + 1);
                        t.splice(at..at, p);
                    }
                    1 if !t.is_empty() => {
                        let a = r.below(t.len());
                        let n = 1 + r.below(t.len() - a);
                        t.drain(a..a + n);
                    }
                    // the same names once more
                    2 => {
                        let c = t.clone();
                        t.push('\n');
                        t.extend(c);
                    }
                    3 => {
                        if let Case::Peg { rules, mods, layout, .. } = gen(["C19", "C20", "C21"][r.below(3)], r, i) {
                            t.push('\n');
                            t.extend(text(&rules, &mods, layout).chars().take(300));
                        }
                    }
                    _ => t = crate::parse::any_str(r, 40).chars().collect(),
                }
            }
            for _ in 0..[0, 1, 1, 2, 4][r.below(5)] {
                let at = r.below(t.len() + 1);
                let c = || " \n\r\t/*+?!()[]-.'\"=\\0xnrtABF9afz_{}e".chars().collect::<Vec<char>>();
                match r.below(4) {
                    0 if at < t.len() => {
                        t.remove(at);
                    }
                    1 if at < t.len() => t[at] = *r.pick(&c()),
                    2 => {
                        let w = ["//", "/*", "*/", "error", "error('x')", "'", "\"", "\\0x4G", "\\0xaF", "\\n", "[]", "[a-]", "[-]", "[--a]", " m { a = 'b'\n }\n", ".a", "a.b", "\r\n", "\u{e9}", "main", "()"];
                        let w: Vec<char> = r.pick(&w).chars().collect();
                        t.splice(at..at, w);
                    }
                    _ => t.insert(at, *r.pick(&c())),
                }
            }
            Case::Accept { text: t.into_iter().collect() }
        }
        _ => {
            let n = if r.one_in(rate(400)) { size(r, 40) } else { [1, 1, 1, 2, 3, 5][r.below(6)] }.max(1);
            let mut names: Vec<String> = vec!["main".into()];
            while names.len() < n {
                let x = rule_name(r);
                if !names.contains(&x) {
                    names.push(x);
                }
            }
            let depth = [0, 1, 2, 2, 3, 4][r.below(6)];
            let rules: Rules = names.iter().map(|n| (n.clone(), gen_e(prop, r, depth, &names))).collect();
            let deep = if r.one_in(rate(100)) { size(r, 20) } else { 3 };
            let mods = if r.one_in(3) { names.iter().map(|_| r.below(deep.max(1))).collect() } else { vec![0; n] };
            let layout = if r.one_in(4) { 0 } else { 1 + r.next() % 1_000_000 };
            Case::Peg { prop: prop.to_string(), rules, mods, layout }
        }
    }
}

//! Constants of the library's current source that are not in the list made from the source the
//! properties were written for: inputs that hold them are worth trying.
use crate::rng::Rng;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    pub chars: Vec<char>,
    pub strs: Vec<String>,
    pub nums: Vec<usize>,
    /// short texts that were there before
    pub old: Vec<String>,
}
fn tokens(t: TokenStream, o: &mut BTreeSet<String>) {
    for x in t {
        match x {
            TokenTree::Group(g) => tokens(g.stream(), o),
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if s.len() < 60 {
                    o.insert(s);
                }
            }
            _ => {}
        }
    }
}
fn files(d: &std::path::Path, o: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                files(&p, o)
            } else if p.extension().map_or(false, |e| e == "rs") && p.file_name().map_or(true, |n| n != "test.rs") {
                o.push(p)
            }
        }
    }
}
/// the literals of the source, as written
pub fn literals(repo: &str) -> BTreeSet<String> {
    let mut fs = vec![];
    files(std::path::Path::new(&(repo.to_string() + "/src")), &mut fs);
    let mut o = BTreeSet::new();
    for f in fs {
        if let Some(t) = std::fs::read_to_string(f).ok().and_then(|s| s.parse::<TokenStream>().ok()) {
            tokens(t, &mut o);
        }
    }
    o
}
const KNOWN: &str = include_str!("../known_literals.txt");
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let known: BTreeSet<&str> = KNOWN.lines().collect();
        let mut d = Dict::default();
        for l in literals(&crate::peg::repo()) {
            if known.contains(l.replace('\n', "\\n").as_str()) {
                if let Ok(syn::Lit::Str(s)) = syn::parse_str::<syn::Lit>(&l) {
                    if s.value().chars().count() <= 12 {
                        d.old.push(s.value());
                    }
                }
                continue;
            }
            match syn::parse_str::<syn::Lit>(&l) {
                Ok(syn::Lit::Char(c)) => d.chars.push(c.value()),
                Ok(syn::Lit::Byte(c)) => d.chars.push(c.value() as char),
                Ok(syn::Lit::Str(s)) => {
                    d.strs.push(s.value());
                    // a pattern or a message: its words and characters as well
                    if s.value().chars().count() <= 4 {
                        d.chars.extend(s.value().chars());
                    }
                    for w in s.value().split(|c: char| !c.is_alphanumeric() && c != '_') {
                        if !w.is_empty() && w != s.value() {
                            d.strs.push(w.to_string());
                        }
                    }
                }
                Ok(syn::Lit::ByteStr(s)) => d.strs.push(s.value().iter().map(|b| *b as char).collect()),
                Ok(syn::Lit::Int(n)) => {
                    if let Ok(n) = n.base10_parse::<u64>() {
                        if n > 1 && n <= 70_000 {
                            d.nums.push(n as usize);
                        }
                        if n > 31 {
                            d.chars.extend(char::from_u32(n as u32));
                        }
                    }
                }
                _ => {}
            }
        }
        d
    })
}
/// one of them, now and then
pub fn ch(r: &mut Rng, rate: usize) -> Option<char> {
    let d = &dict().chars;
    if d.is_empty() || !r.one_in(rate) {
        return None;
    }
    let c = *r.pick(d);
    Some(match r.below(10) {
        0 => char::from_u32(c as u32 + 1).unwrap_or(c),
        1 => char::from_u32((c as u32).wrapping_sub(1)).unwrap_or(c),
        _ => c,
    })
}
pub fn st(r: &mut Rng, rate: usize) -> Option<String> {
    let d = dict();
    if !d.strs.is_empty() && r.one_in(rate) {
        return Some(r.pick(&d.strs).clone());
    }
    if !d.old.is_empty() && r.one_in(rate * 10) {
        return Some(r.pick(&d.old).clone());
    }
    None
}
pub fn num(r: &mut Rng, rate: usize, max: usize) -> Option<usize> {
    let d = &dict().nums;
    if d.is_empty() || !r.one_in(rate) {
        return None;
    }
    let n = *r.pick(d);
    let n = match r.below(6) {
        0 | 1 => n,
        2 | 3 => n + 1,
        4 => n - 1,
        _ => n + 2,
    };
    if n <= max {
        Some(n)
    } else {
        None
    }
}
/// a name that is nearly this one
pub fn near(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    match r.below(12) {
        0 => format!(".{}", s),
        1 => s.trim_start_matches('.').to_string(),
        2 => format!("{} ", s),
        3 => format!(" {}", s),
        4 => s.to_uppercase(),
        5 => s.to_lowercase(),
        6 => c.iter().skip(1).collect(),
        7 => c[..c.len().saturating_sub(1)].iter().collect(),
        8 => format!("{}{}", s, s),
        9 => format!("{}.{}", r.pick(&["a", "m", "main", ""]), s),
        10 => format!("{}{}", s, r.pick(&["a", "_", "'", "1", "\u{301}", "\n", "\u{0}"])),
        _ => c.iter().rev().collect(),
    }
}

//! The contracts that the proofs take on trust (overlays/prelude.rs), tried on the operations
//! themselves: sampled, or exhaustive where the domain is small. Not part of the proof.
use crate::rng::Rng;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

const ALPHA: &[char] = &['a', 'b', '\\', '"', '\'', '\n', '\r', '\t', ' ', '0', 'F', '\u{0}', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}'];

fn text(r: &mut Rng, max: usize) -> Vec<char> {
    let few = r.one_in(2);
    (0..r.below(max + 1)).map(|_| if few { ALPHA[r.below(3)] } else { *r.pick(ALPHA) }).collect()
}
fn s(v: &[char]) -> String {
    let mut o = String::new();
    v.iter().for_each(|c| o.push(*c));
    o
}
fn v(t: &str) -> Vec<char> {
    t.chars().collect()
}
fn clen(c: char) -> usize {
    let n = c as u32;
    if n < 0x80 { 1 } else if n < 0x800 { 2 } else if n < 0x10000 { 3 } else { 4 }
}
fn blen(t: &[char]) -> usize {
    t.iter().map(|c| clen(*c)).sum()
}
fn repl(t: &[char], p: &[char], w: &[char]) -> Vec<char> {
    let (mut o, mut i) = (vec![], 0);
    while i < t.len() {
        if i + p.len() <= t.len() && t[i..i + p.len()] == *p {
            o.extend_from_slice(w);
            i += p.len();
        } else {
            o.push(t[i]);
            i += 1;
        }
    }
    o
}
fn dec(n: usize) -> String {
    let d = ((48 + n % 10) as u8) as char;
    if n < 10 { s(&[d]) } else { let mut o = dec(n / 10); o.push(d); o }
}
fn hexany(c: char) -> Option<u32> {
    match c { '0'..='9' => Some(c as u32 - 48), 'A'..='F' => Some(c as u32 - 55), 'a'..='f' => Some(c as u32 - 87), _ => None }
}
macro_rules! hold { ($n:expr, $b:expr, $o:expr) => { if !$b { return Err(format!("{}: {:?}", $n, $o)); } } }

fn strings(r: &mut Rng) -> Result<(), String> {
    let t = text(r, 9);
    let o = s(&t);
    let q: &str = &o;
    hold!("vx_iter/vx_chars", v(q) == t, o);
    hold!("vx_len", q.len() == blen(&t) && o.len() == blen(&t) && q.is_empty() == t.is_empty(), o);
    hold!("vx_clone/vx_to_string", o.clone() == o && q.to_string() == o && v(&o.to_string()) == t, o);
    hold!("vx_as_str/vx_as_ref", o.as_str() == q && v(o.as_ref()) == t, o);
    hold!("vx_count", q.chars().count() == t.len(), o);
    hold!("vx_collect_", t.iter().cloned().collect::<String>() == o, o);
    // a Chars: what it has still to give, and a clone of it
    let mut c = q.chars();
    for k in 0..=t.len() {
        hold!("vx_as_str of Chars", v(c.as_str()) == t[k..] && v(c.clone().as_str()) == t[k..], o);
        match idata::consume_char(c.clone()) {
            Some((x, d)) => hold!("idata_consume_char", k < t.len() && x == t[k] && v(d.as_str()) == t[k + 1..], o),
            None => hold!("idata_consume_char", k == t.len(), o),
        }
        let n = c.next();
        hold!("vx_next", n == t.get(k).cloned(), o);
    }
    let p = text(r, 2);
    let (ps, w) = (s(&p), text(r, 3));
    let ch = *r.pick(ALPHA);
    let at = |k: Option<usize>| k.map(|k| blen(&t[..k]));
    hold!("vx_find", q.find(ch) == at(t.iter().position(|x| *x == ch)) && o.find(ch) == q.find(ch), (&o, ch));
    hold!("vx_rfind", q.rfind(ch) == at(t.iter().rposition(|x| *x == ch)), (&o, ch));
    hold!("vx_contains", q.contains(ch) == t.contains(&ch) && q.contains(&*ps) == (p.is_empty() || t.windows(p.len().max(1)).any(|x| *x == *p)), (&o, ch, &ps));
    hold!("vx_starts_with", q.starts_with(&*ps) == t.starts_with(&p) && q.starts_with(ch) == t.starts_with(&[ch]), (&o, ch, &ps));
    hold!("vx_ends_with", q.ends_with(&*ps) == t.ends_with(&p) && q.ends_with(ch) == t.ends_with(&[ch]), (&o, ch, &ps));
    if !p.is_empty() {
        hold!("vx_replace", v(&q.replace(&*ps, &s(&w))) == repl(&t, &p, &w), (&o, &ps, &w));
    }
    hold!("vx_replace by char", v(&q.replace(ch, &s(&w))) == repl(&t, &[ch], &w), (&o, ch, &w));
    let mut a = o.clone();
    a.push_str(&ps);
    let both: Vec<char> = t.iter().chain(p.iter()).cloned().collect();
    let mut b = o.clone();
    b += &ps;
    hold!("vx_push_str/vx_add_/vx_add_assign_", v(&a) == both && a == b && o.clone() + &ps == a, (&o, &ps));
    hold!("vx_fmt_lit/vx_fmt_disp", v(&format!("{}{}", o, ps)) == both && format!("{}", ch) == s(&[ch]) && ch.to_string() == s(&[ch]), (&o, &ps));
    hold!("vx_eq", (o == ps) == (t == p) && (*q == ps) == (t == p), (&o, &ps));
    hold!("vx_dbg", format!("{:?}", t) == format!("{:?}", t.clone()), o);
    // slices: exactly the boundaries of characters
    for i in 0..=q.len() + 1 {
        let k = (0..=t.len()).find(|k| blen(&t[..*k]) == i);
        let f = catch_unwind(AssertUnwindSafe(|| (v(&q[i..]), v(&q[..i]))));
        match (k, f) {
            (Some(k), Ok((x, y))) => hold!("vx_slice_from/vx_slice_to", x == t[k..] && y == t[..k], (&o, i)),
            (None, Err(_)) => {}
            _ => return Err(format!("bok: {:?} {}", o, i)),
        }
        for j in 0..=q.len() {
            let l = (0..=t.len()).find(|k| blen(&t[..*k]) == j);
            let f = catch_unwind(AssertUnwindSafe(|| v(&q[i..j])));
            match (k, l, f) {
                (Some(k), Some(l), Ok(x)) => hold!("vx_slice", k <= l && x == t[k..l], (&o, i, j)),
                (_, _, Err(_)) => hold!("vx_slice", k.is_none() || l.is_none() || i > j, (&o, i, j)),
                _ => return Err(format!("vx_slice: {:?} {} {}", o, i, j)),
            }
        }
    }
    Ok(())
}
fn seqs(r: &mut Rng) -> Result<(), String> {
    use idata::cont::IVec;
    let a: Vec<String> = (0..r.below(5)).map(|_| s(&text(r, 2))).collect();
    let b: Vec<String> = (0..r.below(5)).map(|_| s(&text(r, 2))).collect();
    let n = r.below(7);
    let m = n.min(a.len());
    let cat: Vec<String> = { let mut x = vec![]; for y in a.iter().chain(&b) { x.push(y.to_string()); } x };
    hold!("vx_clone of Vec", a.clone() == a, a);
    let mut x = a.clone();
    x.extend(b.clone());
    let (mut y, mut z) = (a.clone(), b.clone());
    y.append(&mut z);
    hold!("vx_extend/vx_append", x == cat && y == cat && z.is_empty(), (&a, &b));
    let rev: Vec<_> = a.iter().rev().collect();
    hold!("vx_rev", rev.len() == a.len() && (0..a.len()).all(|i| rev[i] == &a[a.len() - 1 - i]), a);
    hold!("vx_skip", a.iter().skip(n).collect::<Vec<_>>().len() == a.len() - m && a.iter().skip(n).enumerate().all(|(i, e)| *e == a[m + i]), (&a, n));
    hold!("vx_take", a.iter().take(n).collect::<Vec<_>>().len() == m && a.iter().take(n).enumerate().all(|(i, e)| *e == a[i]), (&a, n));
    hold!("vx_contains of a list", b.iter().all(|e| a.contains(e) == a.iter().any(|f| f == e)), (&a, &b));
    for i in 0..=a.len() {
        hold!("vx_slice of a list", a[i..].len() == a.len() - i && a[..i].len() == i && (i == a.len() || a[i..][0] == a[i]), a);
    }
    hold!("ipush/iappend/ipop", a.clone().iappend(b.clone()) == cat && a.clone().ipush("x".to_string()).ipop() == (Some("x".to_string()), a.clone()) && Vec::<u8>::new().ipop() == (None, vec![]), (&a, &b));
    // a map from names
    let (mut h, mut g): (HashMap<String, usize>, BTreeMap<String, usize>) = (HashMap::new(), BTreeMap::new());
    for (i, e) in a.iter().enumerate() {
        hold!("vx_insert", h.insert(e.clone(), i) == g.insert(e.clone(), i), &a);
    }
    let h2: HashMap<String, usize> = b.iter().enumerate().map(|(i, e)| (e.clone(), i + 100)).collect();
    let g2: BTreeMap<String, usize> = b.iter().enumerate().map(|(i, e)| (e.clone(), i + 100)).collect();
    let same = |h: &HashMap<String, usize>, g: &BTreeMap<String, usize>| h.len() == g.len() && g.iter().all(|(k, e)| h.get(&**k) == Some(e));
    hold!("vx_collect into a map", same(&h2, &g2), &b);
    hold!("vx_get/vx_contains_key", a.iter().chain(&b).all(|k| h.get(k) == g.get(k) && h.contains_key(k) == g.contains_key(k)), (&a, &b));
    let mut it: Vec<_> = h.iter().map(|(k, e)| (k.clone(), *e)).collect();
    it.sort();
    hold!("vx_iter of a map", it == g.iter().map(|(k, e)| (k.clone(), *e)).collect::<Vec<_>>(), &a);
    let mut u = g.clone();
    u.extend(g2.clone());
    let mut k = h.clone();
    k.extend(h2.clone());
    hold!("vx_extend of a map", same(&k, &u), (&a, &b));
    hold!("vx_chain", same(&h.clone().into_iter().chain(h2.clone()).collect(), &u), (&a, &b));
    // the loop of a tail call
    let n = r.below(50);
    let sum = idata::tc::tail_call((0usize, 0usize), |(i, acc)| if i < n { idata::tc::TailCall::Call((i + 1, acc + i)) } else { idata::tc::TailCall::Return(acc) });
    hold!("tail_call", sum == n * n.saturating_sub(1) / 2, n);
    Ok(())
}
fn numbers(r: &mut Rng) -> Result<(), String> {
    let n = match r.below(3) { 0 => r.below(12), 1 => r.next() as usize, _ => (r.next() as usize) >> r.below(64) };
    hold!("usize_str", n.to_string() == dec(n) && format!("{}", n) == dec(n), n);
    let (a, b) = (*r.pick(ALPHA), *r.pick(ALPHA));
    hold!("vx_lt", (a < b) == ((a as u32) < (b as u32)) && (a == b) == (a as u32 == b as u32), (a, b));
    Ok(())
}
fn small() -> Result<(), String> {
    for x in 0..=255u8 {
        hold!("u8 as char", (x as char) as u32 == x as u32 && char::from(x) == x as char && u32::from(x as char) == x as u32, x);
    }
    for a in (0u8..128).map(|x| x as char) {
        for b in (0u8..128).map(|x| x as char) {
            if let (Some(x), Some(y)) = (hexany(a), hexany(b)) {
                hold!("vx_u8_from_str_radix", u8::from_str_radix(&s(&[a, b]), 16).ok().map(|z| z as u32) == Some(16 * x + y), (a, b));
            }
        }
    }
    Ok(())
}
pub fn run(seed: u64, n: usize) -> Result<usize, String> {
    std::panic::set_hook(Box::new(|_| {}));
    small()?;
    for i in 0..n {
        let mut r = Rng::new(seed, i as u64);
        strings(&mut r)?;
        seqs(&mut r)?;
        numbers(&mut r)?;
    }
    Ok(n)
}

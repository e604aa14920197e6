//! Looks for an input on which the real library breaks a property, and replays one.
//!   replay search PROP SEED SECONDS OUT   (result JSON on stdout; the failing case in OUT)
//!   replay literals                       (the literals of the library's source)
//!   replay grammar FILE                   (reads a PEG text by the documentation; JSON on stdout)
//!   replay run FILE                       (exit 1 if the case still fails)
mod contracts;
mod dict;
mod gram;
mod parse;
mod peg;
mod refi;
mod rng;
mod tree;

use rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];
/// a difference from what is expected, and the properties it breaks
#[derive(Clone, Debug)]
pub struct Bad {
    pub props: Vec<&'static str>,
    pub what: String,
    pub want: String,
    pub got: String,
}
#[derive(Clone, Debug)]
enum Case {
    Parse(parse::Case),
    Tree(tree::Case),
    Peg(peg::Case),
    /// one after the other, in the same process: an outcome may not depend on what was done before
    Seq(Vec<Case>),
}
impl Case {
    fn json(&self) -> Value {
        match self {
            Case::Parse(c) => c.json(),
            Case::Tree(c) => c.json(),
            Case::Peg(c) => c.json(),
            Case::Seq(v) => json!({"seq": v.iter().map(|c| c.json()).collect::<Vec<_>>()}),
        }
    }
    fn from_json(v: &Value) -> Case {
        let (k, x) = v.as_object().unwrap().iter().next().unwrap();
        match k.as_str() {
            "parse" => Case::Parse(parse::Case::from_json(x)),
            "seq" => Case::Seq(x.as_array().unwrap().iter().map(Case::from_json).collect()),
            "tree" | "acc" | "facc" | "rules" => Case::Tree(tree::Case::from_json(k, x)),
            _ => Case::Peg(peg::Case::from_json(k, x)),
        }
    }
    fn check(&self) -> Vec<Bad> {
        match self {
            Case::Parse(c) => c.check(),
            Case::Tree(c) => c.check(),
            Case::Peg(c) => c.check(),
            Case::Seq(v) => v.iter().flat_map(|c| c.check()).collect(),
        }
    }
    fn shrink(&self) -> Vec<Case> {
        match self {
            Case::Parse(c) => c.shrink().into_iter().map(Case::Parse).collect(),
            Case::Tree(c) => c.shrink().into_iter().map(Case::Tree).collect(),
            Case::Peg(c) => c.shrink().into_iter().map(Case::Peg).collect(),
            Case::Seq(v) => {
                let mut o: Vec<Case> = vec![];
                let mut k = v.len();
                while k > 0 {
                    for a in (0..v.len()).step_by(k) {
                        let w: Vec<Case> = v[..a].iter().chain(&v[(a + k).min(v.len())..]).cloned().collect();
                        match w.len() {
                            0 => {}
                            1 => o.push(w[0].clone()),
                            _ => o.push(Case::Seq(w)),
                        }
                    }
                    k /= 2;
                }
                if v.len() <= 4 {
                    for (i, c) in v.iter().enumerate() {
                        for s in c.shrink() {
                            let mut w = v.clone();
                            w[i] = s;
                            o.push(Case::Seq(w));
                        }
                    }
                }
                o
            }
        }
    }
    fn gen(prop: &str, seed: u64, i: u64) -> Case {
        let mut r = Rng::new(seed, i);
        let c = Case::one(prop, &mut r, i);
        if i % 12 != 5 {
            return c;
        }
        // a history: something, something like it, and perhaps the first again
        let mut d = Case::one(prop, &mut r, i + 1);
        match (&c, &mut d) {
            (Case::Parse(a), Case::Parse(b)) => match r.below(4) {
                0 | 1 => b.text = a.text.clone(),
                2 => b.rules = a.rules.clone(),
                _ => {}
            },
            (Case::Tree(_), _) | (Case::Peg(_), _) if r.one_in(2) => {
                let mut v = c.shrink();
                if !v.is_empty() {
                    let k = r.below(v.len());
                    d = v.swap_remove(k);
                }
            }
            _ => {}
        }
        match r.below(3) {
            0 => Case::Seq(vec![c.clone(), d, c]),
            1 => Case::Seq(vec![d, c]),
            _ => Case::Seq(vec![c, d]),
        }
    }
    fn one(prop: &str, r: &mut Rng, i: u64) -> Case {
        match prop {
            "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => Case::Tree(tree::gen(prop, r)),
            "C19" | "C20" | "C21" | "C22" | "C23" | "C24" => Case::Peg(peg::gen(prop, r, i)),
            _ => Case::Parse(parse::gen(prop, r)),
        }
    }
}
static CASE: AtomicU64 = AtomicU64::new(0);
static BEGAN: AtomicU64 = AtomicU64::new(0);
const HANG_MS: u64 = 8_000;

fn minimise(c: Case, clock: &dyn Fn() -> u64) -> (Case, Vec<Bad>) {
    let end = Instant::now() + Duration::from_secs(6);
    let mut c = c;
    'again: loop {
        BEGAN.store(0, Ordering::SeqCst);
        for s in c.shrink() {
            if Instant::now() > end {
                break 'again;
            }
            BEGAN.store(clock(), Ordering::SeqCst);
            if !s.check().is_empty() {
                c = s;
                continue 'again;
            }
        }
        break;
    }
    BEGAN.store(clock(), Ordering::SeqCst);
    let b = c.check();
    (c, b)
}
fn report(prop: &str, c: &Case, bad: &[Bad], out: &str) {
    let v = json!({
        "property": prop,
        "case": c.json(),
        "differences": bad.iter().map(|b| json!({"properties": b.props, "what": b.what, "expected": b.want, "actual": b.got})).collect::<Vec<_>>(),
        "replay": "replay run THIS_FILE (crate /verif/replay) runs the case against the library in /repo",
    });
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}
/// the cases from first on, until one breaks prop; other properties broken on the way are counted
fn worker(prop: String, seed: u64, secs: f64, out: String, journal: String, first: u64) {
    let t0 = Instant::now();
    let clock = move || t0.elapsed().as_millis() as u64 + 1;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let b = BEGAN.load(Ordering::SeqCst);
        if b != 0 && clock() > b + HANG_MS {
            std::process::exit(97);
        }
    });
    let mut jf = std::fs::OpenOptions::new().create(true).write(true).open(&journal).unwrap();
    let mut i = first;
    let (mut done, mut seen) = (0u64, HashSet::new());
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    let mut found = false;
    let mut shrunk = 0;
    let mut past: VecDeque<Case> = VecDeque::new();
    let mut lonely = 0;
    while t0.elapsed().as_secs_f64() < secs {
        let c = Case::gen(&prop, seed, i);
        CASE.store(i, Ordering::SeqCst);
        BEGAN.store(clock(), Ordering::SeqCst);
        jf.seek(SeekFrom::Start(0)).unwrap();
        jf.write_all(&i.to_le_bytes()).unwrap();
        let c0 = c.clone();
        let bad = c.check();
        done += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        format!("{:?}", c).hash(&mut h);
        seen.insert(h.finish());
        if samples.len() < 3 && i % 7 == 3 {
            samples.push(c.json());
        }
        if !bad.is_empty() {
            let hit = |b: &Vec<Bad>| b.iter().any(|x| x.props.contains(&prop.as_str()));
            let (m, mb) = if shrunk < 40 {
                shrunk += 1;
                minimise(c.clone(), &clock)
            } else {
                (c.clone(), vec![])
            };
            BEGAN.store(0, Ordering::SeqCst);
            let alone = |c: &Case, b: &[Bad]| -> bool {
                report(&prop, c, b, &out);
                let (code, _, _) = child(&["run".to_string(), out.clone()], Duration::from_secs(20));
                code == Some(1)
            };
            let mine = |b: Vec<Bad>| -> Vec<Bad> { b.into_iter().filter(|b| b.props.contains(&prop.as_str())).collect() };
            if hit(&mb) {
                let mb = mine(mb.clone());
                if alone(&m, &mb) {
                    found = true;
                    break;
                }
            }
            if hit(&bad) && lonely < 3 {
                // it needs what was done before, or has lost it while it was made smaller
                lonely += 1;
                let bad = mine(bad);
                let mut h = c.clone();
                if !alone(&h, &bad) {
                    h = Case::Seq(past.iter().cloned().chain(std::iter::once(c)).collect());
                }
                if alone(&h, &bad) {
                    let end = Instant::now() + Duration::from_secs(20);
                    'again: loop {
                        for s in h.shrink() {
                            if Instant::now() > end {
                                break 'again;
                            }
                            if alone(&s, &bad) {
                                h = s;
                                continue 'again;
                            }
                        }
                        break;
                    }
                    report(&prop, &h, &bad, &out);
                    found = true;
                    break;
                }
            }
            std::fs::remove_file(&out).ok();
            for b in &mb {
                for p in &b.props {
                    *others.entry(p.to_string()).or_default() += 1;
                }
            }
        }
        past.push_back(c0);
        if past.len() > 40 {
            past.pop_front();
        }
        i += 1;
    }
    println!("{}", json!({"found": found, "cases": done, "distinct": seen.len(), "others": others, "samples": samples, "next": i + 1}));
    std::process::exit(0);
}
fn child(args: &[String], limit: Duration) -> (Option<i32>, bool, String) {
    use std::io::Read;
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .unwrap();
    let t0 = Instant::now();
    loop {
        if let Some(s) = p.try_wait().unwrap() {
            let mut o = String::new();
            p.stdout.take().unwrap().read_to_string(&mut o).ok();
            return (s.code(), false, o);
        }
        if t0.elapsed() > limit {
            p.kill().ok();
            p.wait().ok();
            return (None, true, String::new());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}
fn search(prop: &str, seed: u64, secs: f64, out: &str) {
    let journal = format!("{}.journal", out);
    let t0 = Instant::now();
    let (mut first, mut cases, mut distinct) = (0u64, 0u64, 0u64);
    let mut others: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut found = false;
    let mut crashes = 0;
    while t0.elapsed().as_secs_f64() < secs && !found && crashes < 3 {
        let left = secs - t0.elapsed().as_secs_f64();
        let a: Vec<String> = ["worker", prop, &seed.to_string(), &left.to_string(), out, &journal, &first.to_string()].iter().map(|s| s.to_string()).collect();
        let (code, late, o) = child(&a, Duration::from_secs_f64(left + 60.0));
        if code == Some(0) {
            let v: Value = serde_json::from_str(&o).unwrap();
            found = v["found"].as_bool().unwrap();
            cases += v["cases"].as_u64().unwrap();
            distinct += v["distinct"].as_u64().unwrap();
            for (k, n) in v["others"].as_object().unwrap() {
                *others.entry(k.clone()).or_default() += n.as_u64().unwrap();
            }
            samples = v["samples"].as_array().unwrap().clone();
            break;
        }
        // the library did not come back: hang, stack overflow or out of memory
        crashes += 1;
        let i = std::fs::read(&journal).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(first);
        cases += i.saturating_sub(first);
        first = i + 1;
        let c = Case::gen(prop, seed, i);
        let how = |code: Option<i32>, late: bool| if late || code == Some(97) { "no answer within 20 s" } else { "the process is killed (stack overflow or memory)" };
        let tmp = format!("{}.case", out);
        let fails = |c: &Case| -> Option<&'static str> {
            report("C11", c, &[], &tmp);
            let (code, late, _) = child(&["run".to_string(), tmp.clone()], Duration::from_secs(20));
            if late || code.is_none() || code == Some(97) {
                Some(how(code, late))
            } else {
                None
            }
        };
        let _ = late;
        if let Some(what) = fails(&c) {
            let mut c = c;
            let mut what = what;
            // smaller, as long as it does not take long
            let end = Instant::now() + Duration::from_secs(60);
            let quick = |c: &Case| {
                report("C11", c, &[], &tmp);
                let (code, late, _) = child(&["run".to_string(), tmp.clone()], Duration::from_secs(2));
                late || code.is_none()
            };
            'again: loop {
                for s in c.shrink() {
                    if Instant::now() > end {
                        break 'again;
                    }
                    if quick(&s) {
                        c = s;
                        continue 'again;
                    }
                }
                break;
            }
            if let Some(w) = fails(&c) {
                what = w;
            }
            // parsing that does not come back is C11's, reading a text C24's, anything else is of the property at hand
            let whose = match &c {
                Case::Peg(peg::Case::Peg { .. } | peg::Case::Accept { .. }) => "C24",
                Case::Parse(_) | Case::Seq(_) => "C11",
                _ => prop,
            };
            *others.entry(whose.into()).or_default() += 1;
            if prop == whose {
                let b = Bad { props: vec![PROPS.iter().find(|p| **p == whose).unwrap()], what: what.into(), want: "an answer".into(), got: what.into() };
                report(prop, &c, &[b], out);
                found = true;
            }
        }
        std::fs::remove_file(&tmp).ok();
    }
    std::fs::remove_file(&journal).ok();
    println!("{}", json!({"found": found, "cases": cases, "distinct": distinct, "others": others, "samples": samples, "wall_s": t0.elapsed().as_secs_f64()}));
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let deep = |f: Box<dyn FnOnce() + Send>| {
        std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| std::process::exit(101));
    };
    match a[0].as_str() {
        "search" => search(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]),
        "worker" => {
            let a = a.clone();
            deep(Box::new(move || worker(a[1].clone(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].clone(), a[5].clone(), a[6].parse().unwrap())))
        }
        "literals" => dict::literals(&peg::repo()).iter().for_each(|l| println!("{}", l.replace('\n', "\\n"))),
        "contracts" => match contracts::run(a[1].parse().unwrap(), a[2].parse().unwrap()) {
            Ok(n) => println!("{}", n),
            Err(e) => {
                println!("{}", e);
                std::process::exit(1)
            }
        },
        "grammar" => match std::fs::read_to_string(&a[1]).ok().and_then(|t| peg::read_peg(&t)) {
            Some(r) => println!("{}", gram::rjson(&r)),
            None => std::process::exit(1),
        },
        "run" => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).unwrap()).unwrap();
            let c = Case::from_json(&v["case"]);
            let prop = v["property"].as_str().unwrap_or("").to_string();
            deep(Box::new(move || {
                let bad = c.check();
                for b in &bad {
                    println!("{:?}: {}\n  expected: {}\n  actual:   {}", b.props, b.what, b.want, b.got);
                }
                let hit = bad.iter().any(|b| prop.is_empty() || b.props.contains(&prop.as_str()));
                std::process::exit(if hit { 1 } else { 0 });
            }));
        }
        _ => std::process::exit(2),
    }
}

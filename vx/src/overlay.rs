//! The overlay: specifications woven into the extracted functions.
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub key: String,
    pub props: Vec<String>,
    pub contract: String,
    pub entry: String,
    pub attr: String,
    pub loops: BTreeMap<usize, (String, String)>,
    pub bodies: BTreeMap<usize, String>,
    pub ends: BTreeMap<usize, String>,
    pub afters: BTreeMap<usize, String>,
    /// the body is not emitted: the contract is proved in another overlay
    pub imported: bool,
    /// operations that may panic get contracts that speak only of the case where they do not
    pub partial: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Overlay {
    pub name: String,
    pub loaded: std::collections::BTreeSet<String>,
    pub defined: std::collections::BTreeSet<String>,
    pub specs: Vec<(String, String)>,
    /// functions of ours that use the crate's macros (module vx_h)
    pub harness: String,
    pub fns: Vec<FnSpec>,
    pub types: Vec<String>,
    /// conversions: argument type, result type, properties, what holds of `a` and `r`, imported
    pub froms: Vec<(String, String, Vec<String>, String, bool)>,
    pub no_clone: Vec<String>,
    pub noclone_fields: Vec<(String, String)>,
}

pub fn load(path: &Path, o: &mut Overlay, imported: bool) -> Result<(), String> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path.display(), e))?;
    #[derive(Clone)]
    enum At {
        None,
        Spec,
        Harness,
        Contract,
        Entry,
        Attr,
        Loop(usize),
        Body(usize),
        End(usize),
        After(usize),
    }
    let fname = path.file_name().unwrap().to_string_lossy().to_string();
    if !o.loaded.insert(fname.clone()) {
        return Ok(());
    }
    let mut at = At::None;
    for (ln, line) in text.lines().enumerate() {
        // `//+NAME text` counts where NAME is defined, `text //-NAME` where it is not
        let mut line = line;
        if let Some(x) = line.strip_prefix("//+") {
            let (n, t) = x.split_once(' ').unwrap_or((x, ""));
            if !o.defined.contains(n) {
                continue;
            }
            line = t;
        } else if let Some((t, n)) = line.rsplit_once(" //-") {
            if o.defined.contains(n.trim()) {
                continue;
            }
            line = t;
        }
        if let Some(d) = line.trim().strip_prefix("//@ ") {
            let w: Vec<&str> = d.split_whitespace().collect();
            let num = |i: usize| -> Result<usize, String> { w.get(i).and_then(|x| x.parse().ok()).ok_or_else(|| format!("{}:{}: number expected", fname, ln + 1)) };
            match w[0] {
                "include" | "import" => {
                    // $name: generated from the source for this run
                    let p = match w[1].strip_prefix('$') {
                        Some(n) => Path::new(&std::env::var("VX_GEN").unwrap_or_default()).join(n),
                        None => path.parent().unwrap().join(w[1]),
                    };
                    load(&p, o, imported || w[0] == "import")?;
                    at = At::None;
                }
                "spec" => {
                    o.specs.push((fname.clone(), String::new()));
                    at = At::Spec;
                }
                "define" => {
                    o.defined.insert(w[1].to_string());
                    at = At::None;
                }
                "harness" => at = At::Harness,
                "type" => {
                    o.types.extend(w[1..].iter().map(|s| s.to_string()));
                    at = At::None;
                }
                "fn" => {
                    o.fns.push(FnSpec { key: w[1].to_string(), props: w[2..].iter().map(|s| s.to_string()).collect(), imported, ..Default::default() });
                    at = At::None;
                }
                "contract" => at = At::Contract,
                "entry" => at = At::Entry,
                "attr" => at = At::Attr,
                // from A B PROPS… = what holds of the argument a and the result r of the conversion
                "from" => {
                    let (h, t) = d.split_once(" = ").ok_or_else(|| format!("{}:{}: = expected", fname, ln + 1))?;
                    let w: Vec<String> = h.split_whitespace().skip(1).map(|s| s.to_string()).collect();
                    o.froms.push((w[0].clone(), w[1].clone(), w[2..].to_vec(), t.trim().to_string(), imported));
                    at = At::None;
                }
                "partial" => {
                    o.fns.last_mut().unwrap().partial = true;
                    at = At::None;
                }
                "loop" => {
                    let n = num(1)?;
                    o.fns.last_mut().unwrap().loops.insert(n, (w.get(2).unwrap_or(&"").to_string(), String::new()));
                    at = At::Loop(n);
                }
                "loop-body" => at = At::Body(num(1)?),
                "loop-end" => at = At::End(num(1)?),
                "loop-after" => at = At::After(num(1)?),
                "note" => at = At::None,
                x => return Err(format!("{}:{}: unknown directive {}", fname, ln + 1, x)),
            }
            continue;
        }
        let dst: Option<&mut String> = match &at {
            At::None => None,
            At::Harness => Some(&mut o.harness),
            At::Spec => o.specs.last_mut().map(|x| &mut x.1),
            a => match o.fns.last_mut() {
                None => None,
                Some(f) => Some(match a {
                    At::Contract => &mut f.contract,
                    At::Entry => &mut f.entry,
                    At::Attr => &mut f.attr,
                    At::Loop(n) => &mut f.loops.get_mut(n).unwrap().1,
                    At::Body(n) => f.bodies.entry(*n).or_default(),
                    At::End(n) => f.ends.entry(*n).or_default(),
                    At::After(n) => f.afters.entry(*n).or_default(),
                    _ => unreachable!(),
                }),
            },
        };
        match dst {
            Some(d) => {
                d.push_str(line);
                d.push('\n');
            }
            None if line.trim().is_empty() || line.trim().starts_with("//") => {}
            None => return Err(format!("{}:{}: text outside of a section", fname, ln + 1)),
        }
    }
    Ok(())
}

/// `$0`.. are the parameters
pub fn subst(s: &str, params: &[String]) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() {
            if let Some(d) = b[i + 1].to_digit(10) {
                out.push_str(params.get(d as usize).map(|s| s.as_str()).unwrap_or("vx_missing_parameter"));
                i += 2;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

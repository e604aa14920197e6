//! vx --text <src dir> <function> <out>: the string a function without parameters evaluates to
//! vx <src dir> <prelude> <overlay> <out.rs> <out.json> [--probe] [--skip KEY]...
mod emit;
mod load;
mod lower;
mod macros;
mod overlay;
mod resolve;
use serde_json::json;
use std::path::Path;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 5 && a[1] == "--text" {
        std::process::exit(match load::load(Path::new(&a[2])).ok().and_then(|k| load::text_of(&k, &a[3])) {
            Some(t) => {
                std::fs::write(&a[4], t).unwrap();
                0
            }
            None => 1,
        });
    }
    if a.len() < 6 {
        eprintln!("vx <src dir> <prelude> <overlay> <out.rs> <out.json> [--probe] [--skip KEY]...");
        std::process::exit(2);
    }
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || run(a)).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn run(a: Vec<String>) -> i32 {
    let probe = a.iter().any(|x| x == "--probe");
    let r = (|| -> Result<(String, serde_json::Value), String> {
        let mut k = load::load(Path::new(&a[1]))?;
        let mut o = overlay::Overlay::default();
        overlay::load(Path::new(&a[3]), &mut o, false)?;
        load::load_harness(&mut k, &o.harness)?;
        load::fix_impls(&mut k);
        let prelude = std::fs::read_to_string(&a[2]).map_err(|e| e.to_string())?;
        // functions the verifier cannot process: their contract is kept, their body left out (undecided)
        let skip: Vec<&String> = a.windows(2).filter(|w| w[0] == "--skip").map(|w| &w[1]).collect();
        for f in o.fns.iter_mut() {
            if skip.contains(&&f.key) {
                f.imported = true;
            }
        }
        let (text, rep) = emit::emit(&mut k, &o, &prelude, probe);
        let fns: Vec<_> = rep
            .fns
            .iter()
            .map(|f| {
                json!({"key": f.key, "props": f.props, "file": f.file, "line": f.line, "from": f.from, "to": f.to,
                       "loops": f.loops, "inlined": f.inlined, "calls": f.calls, "desugared": f.desugared, "imported": f.imported})
            })
            .collect();
        let j = json!({
            "functions": fns,
            "unsupported": rep.errors.iter().map(|e| format!("{}: {}", e.0, e.1)).collect::<Vec<_>>(),
            "lost": rep.lost, "types": rep.types, "dropped": k.dropped, "files": k.files,
        });
        Ok((text, j))
    })();
    match r {
        Ok((t, j)) => {
            std::fs::write(&a[4], t).unwrap();
            std::fs::write(&a[5], serde_json::to_string_pretty(&j).unwrap()).unwrap();
            0
        }
        Err(e) => {
            std::fs::write(&a[5], serde_json::to_string(&json!({"fatal": e})).unwrap()).unwrap();
            eprintln!("{}", e);
            1
        }
    }
}

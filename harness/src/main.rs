mod core;
mod gen_text;
mod wtree;
mod probe;
mod layout_model;
mod css_colors;
mod css_gen;
mod props;
mod app;
mod pty;
use crate::core::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| props::all().into_iter().find(|p| p.id == id);
    let code = match cmd {
        "run" => {
            let p = find(&a[2]).expect("unknown property");
            let known = load_known(&a[4], p.id);
            drive(&p, &a[3], &known)
        }
        "worker" => {
            let p = find(&a[2]).unwrap();
            worker(&p, a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5], &a[6], a[7].parse().unwrap(), a[8].parse().unwrap())
        }
        "case" => {
            install_hook();
            let p = find(&a[2]).expect("unknown property");
            let mut obs = Obs::default();
            match run_case(&p, env_seed(), a[3].parse().unwrap(), env_thorough(), &mut obs) {
                Ok(()) => { eprintln!("case ok; events {:?}", obs.counters); 0 }
                Err((m, t)) => { eprintln!("{}\nFAIL: {m}", t.join("\n")); 1 }
            }
        }
        "app" => app::child(&a[2..]),
        "list" => { for p in props::all() { println!("{}", p.id); } 0 }
        _ => { eprintln!("usage"); 2 }
    };
    std::process::exit(code);
}

/// known_findings.txt lines: `known: property=<id> sig=<sig> <what>`
fn load_known(path: &str, id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(path).unwrap_or_default();
    s.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (pid, rest) = l.split_once(' ')?;
        let rest = rest.strip_prefix("sig=")?;
        let (sig, what) = rest.split_once(' ')?;
        (pid == id).then(|| (sig.to_string(), what.to_string()))
    }).collect()
}

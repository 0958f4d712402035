#![allow(unexpected_cfgs)]
#[macro_use]
mod ctx;
mod codec;
mod items;
mod msgs;
mod mutate;
mod json;
mod refc;
mod net;
mod props;
mod runner;
mod seams;
mod src;

use runner::*;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let get = |k: &str| args.iter().rposition(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str| get(k).and_then(|s| s.parse::<u64>().ok());
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok())).unwrap_or(1);
    let root = get("--root").unwrap_or("/verif".into());
    let find = |id: &str| match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("ksim: no property {id}");
            std::process::exit(3);
        }
    };
    let code = match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("check"), Some(id)) => check(
            find(id),
            &Opts {
                tier,
                seed,
                runs: num("--runs"),
                secs: num("--secs"),
                workers: num("--workers").unwrap_or(8),
                evidence: get("--evidence").unwrap_or(format!("{root}/evidence/{id}.json")),
                replays: get("--replays").unwrap_or(format!("{root}/replays")),
                findings: get("--findings").unwrap_or(format!("{root}/KNOWN_FINDINGS")),
            },
        ),
        (Some("replay"), Some(path)) => replay(&props, path),
        (Some("trace"), Some(id)) => trace(find(id), seed, num("--run").unwrap_or(0), tier == "thorough"),
        (Some("determinism"), Some(id)) => {
            determinism(find(id), seed, num("--runs").unwrap_or(50), num("--times").unwrap_or(3))
        }
        (Some("list"), _) => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("ksim check|trace|determinism <property> [--tier t] [--seed n] [--runs n] [--secs n] [--workers n] | replay <file> | list");
            3
        }
    };
    std::process::exit(code);
}

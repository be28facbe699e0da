mod alloc;
mod cont;
mod exif;
mod gen;
mod iohook;
mod mutate;
mod props;
mod rng;
mod run;
mod tagtable;

use run::*;
use std::path::PathBuf;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let p = props::find(&a[2]).expect("unknown property");
            let wa = WorkerArgs {
                seed: a[3].parse().unwrap(),
                tier: if a[4] == "quick" { Tier::Quick } else { Tier::Thorough },
                start: a[5].parse().unwrap(),
                step: a[6].parse().unwrap(),
                end: a[7].parse().unwrap(),
                dir: PathBuf::from(&a[8]),
                wall_cap_s: a[9].parse().unwrap(),
                verbose: a[10] == "1",
            };
            worker(&p, &wa)
        }
        Some("check") => {
            let p = props::find(&a[2]).expect("unknown property");
            let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
            let tier = get("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let seed = get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
            let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
            let ca = CheckArgs {
                seed,
                tier,
                only: get("--only").and_then(|s| s.parse().ok()),
                jobs: get("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
                verif: PathBuf::from(get("--verif").unwrap_or("/verif".into())),
                cases: get("--cases").and_then(|s| s.parse().ok()),
                verbose: a.iter().any(|x| x == "-v"),
                wall_cap_s: get("--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 240 } else { 780 }),
            };
            std::env::set_var("LX_VERIF", &ca.verif);
            check(&p, &ca)
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: lx check <property> [--tier quick|thorough] [--seed N] [--only CASE] [-v]");
            64
        }
    };
    std::process::exit(code);
}

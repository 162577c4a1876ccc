use azv::engine::*;
use azv::{alloc, props};
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}"));
    let env_seed = || std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            run_property(find(&a[2]), Tier::parse(&tier), env_seed())
        }
        Some("worker") => {
            alloc::set_cap(6 << 30);
            install_panic_hook();
            let only = a.get(8).map(|x| (x.parse().unwrap(), a[9].parse().unwrap()));
            worker(find(&a[2]), Tier::parse(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), &PathBuf::from(&a[7]), only)
        }
        Some("replay") => {
            install_panic_hook();
            replay(&props, &PathBuf::from(&a[2]))
        }
        Some("corpus") => {
            azv::write_corpus(&PathBuf::from(&a[2]), a[3].parse().unwrap(), env_seed());
            0
        }
        Some("wrap") => {
            // A file found by coverage-guided search becomes a replay of C08's part "raw".
            let bytes = std::fs::read(&a[2]).expect("reading the input");
            let v = Violation { property: "C08".into(), part: "raw".into(), index: 0, message: "found by coverage-guided search".into(), case: serde_json::to_value(azv::data::Hex(bytes)).unwrap(), shrunk: true, shrink_steps: 0 };
            std::fs::write(&a[3], serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
            0
        }
        Some("list") => {
            for p in &props {
                for x in (p.parts)() {
                    println!("{} {} quick={} thorough={}", p.id, x.name(), x.cases(Tier::Quick), x.cases(Tier::Thorough));
                }
            }
            0
        }
        _ => {
            eprintln!("usage: azv run <ID> [quick|thorough] | replay <file> | list");
            64
        }
    };
    std::process::exit(code);
}

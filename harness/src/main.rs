use hpp_verif::props;
use hpp_verif::runner::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static Prop {
        match props::all().into_iter().find(|p| p.id == id) {
            Some(p) => Box::leak(Box::new(p)),
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            }
        }
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        Some("run") => {
            let env = |k: &str| std::env::var(k).ok();
            let o = Opts {
                tier: a.get(3).cloned().or(env("VERIF_TIER")).filter(|t| t == "thorough").unwrap_or("quick".into()),
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                verif: PathBuf::from(env("VERIF_DIR").unwrap_or("/verif".into())),
                cases: env("VERIF_CASES").and_then(|s| s.parse().ok()),
            };
            supervise(find(&a[2]), &o)
        }
        Some("worker") => {
            worker(find(&a[2]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[3] == "thorough", PathBuf::from(&a[7]));
            0
        }
        Some(m @ ("eval" | "show" | "known")) => {
            let (name, c) = load_cur(&a[3]).expect("case file");
            eval_one(find(&a[2]), name, c, PathBuf::from(&a[4]), m == "show", m == "known", a[5] == "thorough")
        }
        Some("replay") => {
            let Replay { id, pinned, choices: c, tier, history, seed } = load_replay(&a[2]).expect("replay file");
            let dir = std::env::temp_dir().join(format!("hpp-verif.replay.{}", std::process::id()));
            std::fs::create_dir_all(&dir).unwrap();
            let known = pinned.starts_with("known:");
            let name = pinned.trim_start_matches("known:").to_string();
            let r = if history.is_empty() {
                eval_one(find(&id), name, c, dir.clone(), true, known, tier == "thorough")
            } else {
                replay_history(find(&id), &history, seed, &tier, &dir)
            };
            let _ = std::fs::remove_dir_all(dir);
            r
        }
        _ => {
            eprintln!("usage: hpp-verif run ID [quick|thorough] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

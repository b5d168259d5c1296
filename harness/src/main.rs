#[macro_use]
extern crate htrpc;

mod app;
mod clock;
mod crash;
mod dynty;
mod exec;
mod explore;
mod http;
mod net;
mod props;

use explore::{Family, Violation};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    /// Picks a parameter by tier.
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Known {
    property: String,
    family: String,
    case: String,
    message: String,
    what: String,
}
fn load_known() -> Vec<Known> {
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() {
            // finding: property=<id> family=<family> case=<regex-free substring> message=<substring> what=<text>
            if let Some(l) = l.strip_prefix("finding: ") {
                let get = |k: &str| -> String {
                    l.split('\t')
                        .find_map(|p| p.strip_prefix(&format!("{}=", k)))
                        .unwrap_or("")
                        .to_string()
                };
                out.push(Known {
                    property: get("property"),
                    family: get("family"),
                    case: get("case"),
                    message: get("message"),
                    what: get("what"),
                });
            }
        }
    }
    out
}

fn write_replay(prop: &str, tier: Tier, v: &Violation, notes: &[String]) -> PathBuf {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", prop));
    let j = serde_json::json!({
        "property": prop,
        "tier": format!("{:?}", tier).to_lowercase(),
        "family": v.family,
        "index": v.index,
        "case": v.case,
        "choices": v.choices,
        "message": v.message,
        "trace": notes,
        "replay_cmd": format!("./check.sh {} --replay replay/{}.json", prop, prop),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1)
}

fn replay(prop: &str, file: &Path) -> i32 {
    let j: serde_json::Value =
        serde_json::from_str(&std::fs::read_to_string(file).expect("read")).expect("json");
    let tier = if j["tier"] == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let p = props::find(prop).expect("property");
    let families = (p.families)(tier);
    let f = families
        .iter()
        .find(|f| f.name == j["family"].as_str().unwrap_or(""))
        .expect("family");
    let choices: Vec<u16> = j["choices"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u16).collect())
        .unwrap_or_default();
    let index = j["index"].as_u64().unwrap_or(0) as usize;
    let f = f.clone();
    let r = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || explore::run_one(&f, index, &choices, true))
        .unwrap()
        .join()
        .unwrap();
    for n in &r.notes {
        println!("{}", n);
    }
    match r.result {
        Ok(()) => {
            println!("replay: property held");
            0
        }
        Err(e) => {
            println!("replay: {}", e);
            println!("VIOLATION property={} replay={}", prop, file.display());
            1
        }
    }
}

fn run_in_thread(f: &Family, index: usize, choices: &[u16]) -> explore::RunResult {
    let f = f.clone();
    let c = choices.to_vec();
    std::thread::Builder::new()
        .name("mc-replay".into())
        .stack_size(512 << 20)
        .spawn(move || explore::run_one(&f, index, &c, true))
        .unwrap()
        .join()
        .unwrap()
}

fn check(prop: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let p = props::find(prop).expect("unknown property");
    let only = std::env::var("MC_FAMILY").ok();
    let families: Vec<Family> = (p.families)(tier)
        .into_iter()
        .filter(|f| only.as_ref().map_or(true, |o| f.name.contains(o.as_str())))
        .collect();
    let known = load_known();
    let is_known = |v: &Violation| -> Option<String> {
        known
            .iter()
            .find(|k| {
                k.property == prop
                    && k.family == v.family
                    && v.case.contains(&k.case)
                    && v.message.contains(&k.message)
            })
            .map(|k| k.what.clone())
    };
    let on_hang = |v: Violation| {
        let path = write_replay(prop, tier, &v, &[]);
        println!("{}: {} [{}] {}", prop, v.family, v.case, v.message);
        println!("VIOLATION property={} replay={}", prop, path.display());
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    };
    let deadline = Duration::from_secs(
        std::env::var("MC_DEADLINE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(tier.pick(600, 3600)),
    );
    let (stats, violations, known_hit) = explore::explore(
        &families,
        deadline,
        Duration::from_secs(60),
        &is_known,
        &on_hang,
    );
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", prop, k);
    }
    let mut replayed = 0;
    let mut reported = 0;
    let keep = std::env::var_os("MC_KEEP_GOING").is_some();
    for v in violations.iter().take(if keep { 2000 } else { 1 }) {
        let f = families.iter().find(|f| f.name == v.family).unwrap();
        let r = run_in_thread(f, v.index, &v.choices);
        let same = r.result.is_err();
        replayed += same as u32;
        let path = write_replay(prop, tier, v, &r.notes);
        println!("{}: {} [{}] {}", prop, v.family, v.case, v.message);
        if !same {
            println!("{}: note: a replay of this choice sequence did not fail again", prop);
        }
        println!("VIOLATION property={} replay={}", prop, path.display());
        reported += 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let evidence = serde_json::json!({
        "property": prop,
        "tier": format!("{:?}", tier).to_lowercase(),
        "seed": seed(),
        "level": "model_checking",
        "coverage": {
            "states": stats.states,
            "transitions": stats.transitions,
            "traces_validated_against_impl": stats.executions,
            "choice_points": stats.choice_points,
            "max_deviations_used": stats.max_deviations,
            "families": stats.per_family.iter().map(|(n, c, b, e)| serde_json::json!({
                "name": n, "cases": c, "deviation_bound": b, "executions": e
            })).collect::<Vec<_>>(),
            "samples": stats.samples,
            "exhaustive": stats.complete && violations.is_empty(),
            "rule": "every case of every family is executed on the real code, with every choice sequence of at most deviation_bound deviations from the default answers; states are distinct fingerprints of network, clock, run queues and handler log after each step; every execution is an execution of the implementation itself",
            "known_findings_hit": known_hit,
            "replayed_violations": replayed,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations.len(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", prop)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{} {:?}: {} families, {} executions, {} transitions, {} states, {} choice points, complete={}, {:.1}s",
        prop,
        tier,
        families.len(),
        stats.executions,
        stats.transitions,
        stats.states,
        stats.choice_points,
        stats.complete,
        wall
    );
    if std::env::var_os("MC_STATS").is_some() {
        for (n, c, b, e) in &stats.per_family {
            println!("   {:40} cases={} bound={} executions={}", n, c, b, e);
        }
    }
    if reported > 0 {
        1
    } else {
        0
    }
}

fn main() {
    explore::install_panic_hook();
    crash::install();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    if props::find(&prop).is_none() {
        eprintln!("usage: mc <property> [--tier quick|thorough] [--replay FILE]");
        std::process::exit(2);
    }
    let mut tier = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = if args.get(i + 1).map_or(false, |t| t == "thorough") {
                    Tier::Thorough
                } else {
                    Tier::Quick
                };
                i += 1;
            }
            "--replay" => {
                let code = replay(&prop, Path::new(&args[i + 1]));
                std::process::exit(code);
            }
            _ => {}
        }
        i += 1;
    }
    let code = check(&prop, tier);
    std::process::exit(code);
}

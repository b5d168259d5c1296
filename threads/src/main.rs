//! Explores the schedules of real threads which run htrpc's server and clients (property C21).
mod app;
mod world;

use app::Case;
use std::collections::HashSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}
#[derive(Default)]
struct Total {
    executions: u64,
    transitions: u64,
    states: HashSet<String>,
    per_case: Vec<u64>,
    samples: Vec<String>,
    violation: Option<(usize, Vec<usize>, String, Vec<String>)>,
    complete: bool,
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = "C21";
    let thorough = match args.iter().position(|a| a == "--tier") {
        Some(i) => args.get(i + 1).map_or(false, |t| t == "thorough"),
        None => std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
    };
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(&args[i + 1]).expect("read")).expect("json");
        let case = app::cases(j["tier"] == "thorough").swap_remove(j["index"].as_u64().unwrap() as usize);
        let choices: Vec<usize> =
            j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let (o, r) = app::Machine::new().execute(&case, &choices);
        o.trace.iter().for_each(|l| println!("{}", l));
        match r {
            Ok(()) => println!("replay: property held"),
            Err(e) => {
                println!("replay: {}", e);
                println!("VIOLATION property={} replay={}", prop, args[i + 1]);
                std::process::exit(1);
            }
        }
        std::process::exit(0);
    }

    let t0 = Instant::now();
    let deadline = Duration::from_secs(if thorough { 840 } else { 300 });
    let only = std::env::var("MC_FAMILY").ok();
    let cases: Arc<Vec<Case>> = Arc::new(app::cases(thorough));
    let skip: Vec<bool> =
        cases.iter().map(|c| only.as_ref().map_or(false, |o| !c.family.contains(o.as_str()))).collect();
    // A stateless depth-first search; prefixes of choices which are still to be explored.
    let todo: Arc<Mutex<(Vec<(usize, Vec<usize>)>, usize)>> = Arc::new(Mutex::new((
        (0..cases.len()).rev().filter(|i| !skip[*i]).map(|i| (i, Vec::new())).collect(),
        0,
    )));
    let total = Arc::new(Mutex::new(Total { per_case: vec![0; cases.len()], complete: true, ..Total::default() }));
    let stop = Arc::new(AtomicBool::new(false));
    let workers: Vec<_> = (0..24)
        .map(|_| {
            let (cases, todo, total, stop) = (Arc::clone(&cases), Arc::clone(&todo), Arc::clone(&total), Arc::clone(&stop));
            std::thread::spawn(move || {
                let mut machine = app::Machine::new();
                while !stop.load(Ordering::SeqCst) {
                    let next = {
                        let mut t = todo.lock().unwrap();
                        match t.0.pop() {
                            Some(n) => {
                                t.1 += 1;
                                Some(n)
                            }
                            None if t.1 == 0 => break,
                            None => None,
                        }
                    };
                    let Some((i, prefix)) = next else {
                        std::thread::sleep(Duration::from_millis(1));
                        continue;
                    };
                    let (mut o, mut r) = machine.execute(&cases[i], &prefix);
                    if r.is_err() && !o.certain {
                        // A failure which might come from the load of the system has to repeat itself.
                        let mut again = None;
                        for _ in 0..3 {
                            machine = app::Machine::new();
                            let (o2, r2) = machine.execute(&cases[i], &prefix);
                            if r2.is_err() {
                                again = None;
                                break;
                            }
                            again = Some((o2, r2));
                        }
                        if let Some(x) = again {
                            (o, r) = x;
                        }
                    }
                    {
                        let mut t = total.lock().unwrap();
                        t.executions += 1;
                        t.transitions += o.widths.len() as u64;
                        t.per_case[i] += 1;
                        for s in &o.states {
                            t.states.insert(format!("{} {:?}", i, s));
                        }
                        if t.per_case[i] == 1 && t.samples.len() < 12 {
                            t.samples.push(format!("{:?}: {}", cases[i], o.trace.join("; ")));
                        }
                        if let Err(m) = r {
                            let mut choices = prefix.clone();
                            choices.resize(o.widths.len(), 0);
                            if t.violation.is_none() {
                                t.violation = Some((i, choices, m, o.trace.clone()));
                            }
                            stop.store(true, Ordering::SeqCst);
                        }
                        if t0.elapsed() > deadline {
                            t.complete = false;
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    let mut t = todo.lock().unwrap();
                    for at in prefix.len()..o.widths.len() {
                        for c in 1..o.widths[at] {
                            let mut p = prefix.clone();
                            p.resize(at, 0);
                            p.push(c);
                            t.0.push((i, p));
                        }
                    }
                    t.1 -= 1;
                }
            })
        })
        .collect();
    for w in workers {
        w.join().expect("worker");
    }
    let t = total.lock().unwrap();
    let tier = if thorough { "thorough" } else { "quick" };
    let mut code = 0;
    if let Some((i, choices, message, trace)) = &t.violation {
        // Some more tries, because a replay is a fresh world.
        let again = (0..3).any(|_| app::Machine::new().execute(&cases[*i], choices).1.is_err());
        let dir = root().join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join("C21.json");
        let j = serde_json::json!({
            "property": prop, "tier": tier, "family": cases[*i].family, "index": i,
            "case": format!("{:?}", cases[*i]), "choices": choices, "message": message, "trace": trace,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        println!("{}: {:?} {}", prop, cases[*i], message);
        if !again {
            println!("{}: note: a replay of this choice sequence did not fail again", prop);
        }
        println!("VIOLATION property={} replay={}", prop, path.display());
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut families: Vec<(&str, u64, u64)> = Vec::new();
    for (c, n) in cases.iter().zip(&t.per_case) {
        match families.iter_mut().find(|f| f.0 == c.family) {
            Some(f) => {
                f.1 += 1;
                f.2 += n;
            }
            None => families.push((c.family, 1, *n)),
        }
    }
    let evidence = serde_json::json!({
        "property": prop, "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": t.states.len(),
            "transitions": t.transitions,
            "traces_validated_against_impl": t.executions,
            "families": families.iter().map(|f| serde_json::json!({"name": f.0, "cases": f.1, "executions": f.2})).collect::<Vec<_>>(),
            "samples": t.samples,
            "exhaustive": t.complete && t.violation.is_none(),
            "rule": "every order in which the threads can pass the gates in the application's code, for every case; states are the distinct positions of the threads; every execution is an execution of the implementation with real threads, mio and fibers over loopback sockets",
        },
        "assumptions": [
            "threads interleave at the boundaries of the application's code (handlers, serializers, bodies, futures)",
            "the executor gives every connection (or call) a thread of its own",
        ],
        "wall_s": wall,
        "violations": t.violation.is_some() as u32,
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join("C21.json"), serde_json::to_string_pretty(&evidence).unwrap() + "\n").expect("write evidence");
    println!(
        "{} {}: {} families, {} executions, {} transitions, {} states, complete={}, {:.1}s",
        prop, tier, families.len(), t.executions, t.transitions, t.states.len(), t.complete, wall
    );
    if std::env::var_os("MC_STATS").is_some() {
        for f in &families {
            println!("   {:40} cases={} executions={}", f.0, f.1, f.2);
        }
        if std::env::var_os("MC_CASES").is_some() {
            for (c, n) in cases.iter().zip(&t.per_case) {
                println!("   {} {:?}", n, c);
            }
        }
    }
    std::process::exit(code);
}

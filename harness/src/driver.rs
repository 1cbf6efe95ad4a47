//! Command line, replay, evidence.
use crate::{engine, rt};
use std::time::{Duration, Instant};

pub fn main(plans: fn(&str) -> Option<Vec<engine::Plan>>) {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().unwrap_or_else(|| {
        eprintln!("usage: obv2-pbt <PROPERTY> [quick|thorough] [--replay FILE] [--evidence FILE] [--replay-dir DIR]");
        std::process::exit(2)
    });
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut replay = None;
    let mut evidence = None;
    let mut replay_dir = "/verif/replays".to_string();
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "quick" => thorough = false,
            "thorough" => thorough = true,
            "--replay" => {
                i += 1;
                replay = args.get(i).cloned()
            }
            "--evidence" => {
                i += 1;
                evidence = args.get(i).cloned()
            }
            "--replay-dir" => {
                i += 1;
                replay_dir = args[i].clone()
            }
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2)
            }
        }
        i += 1;
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    rt::init();
    let plans = match plans(&prop) {
        Some(p) => p,
        None => {
            eprintln!("no check for property {}", prop);
            std::process::exit(2)
        }
    };
    if let Some(f) = replay {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("replay json");
        let name = v["plan"].as_str().unwrap().to_string();
        let case: engine::Case = v["case"].as_array().unwrap().iter().map(|r| r.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect()).collect();
        let plan = plans.iter().find(|p| p.name == name).expect("plan of the replay file");
        let mut info = engine::Info::default();
        match (plan.run)(&case, &mut info, true) {
            Ok(()) => println!("replay: property held"),
            Err(v) => {
                println!("replay: {}\n{}", v.kind, v.detail);
                println!("VIOLATION property={} replay={}", prop, f);
                std::process::exit(1)
            }
        }
        return;
    }
    let t = Instant::now();
    let cap = std::env::var("VERIF_CAP_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
    let rep = engine::search(&prop, &plans, seed, thorough, Duration::from_secs(cap), &|plan, case| {
        let v = engine::Violation { kind: "hang".into(), detail: "a case does not end".into() };
        let path = write_replay(&replay_dir, &prop, plan, case, &v);
        println!("VIOLATION property={} replay={}", prop, path);
        std::process::exit(1)
    });
    let mut ev = serde_json::json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": rep.evaluations,
            "distinct_nontrivial": rep.distinct,
            "rule": rep.rules.join("; "),
            "samples": rep.samples,
            "plans": rep.plans,
            "counters": rep.counters,
        },
        "wall_s": t.elapsed().as_secs_f64(),
        "violations": [],
    });
    println!("{}: {} cases, {} distinct non-trivial, {:.1}s", prop, rep.evaluations, rep.distinct, t.elapsed().as_secs_f64());
    for p in &rep.plans {
        println!("  {}", p);
    }
    if std::env::var("VERIF_SHOW").is_ok() {
        for (k, v) in &rep.counters {
            println!("  {:40} {}", k, v);
        }
    }
    let mut code = 0;
    if let Some((plan, case, v)) = &rep.failure {
        let path = write_replay(&replay_dir, &prop, plan, case, v);
        println!("{}\n{}", v.kind, v.detail);
        println!("VIOLATION property={} replay={}", prop, path);
        ev["violations"] = serde_json::json!([{"kind": v.kind, "detail": v.detail, "replay": path}]);
        code = 1;
    }
    if let Some(f) = evidence {
        if let Some(d) = std::path::Path::new(&f).parent() {
            std::fs::create_dir_all(d).ok();
        }
        std::fs::write(&f, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    std::process::exit(code);
}

fn write_replay(dir: &str, prop: &str, plan: &str, case: &engine::Case, v: &engine::Violation) -> String {
    let path = format!("{}/{}.json", dir, prop);
    std::fs::create_dir_all(dir).ok();
    let body = serde_json::json!({"property": prop, "plan": plan, "kind": v.kind, "detail": v.detail, "case": case});
    std::fs::write(&path, serde_json::to_string(&body).unwrap()).expect("write replay");
    path
}

#![allow(dead_code)]
mod entropy;
mod fw;
mod models;
mod mods;
mod num;
mod params;
mod props;
mod reg;
mod registry;
mod serve;
use fw::*;
use serde_json::{json, Value};
use std::path::PathBuf;

fn verif() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}
fn known() -> Vec<Value> {
    let p = verif().join("known_findings.json");
    let s = std::fs::read_to_string(&p).unwrap_or_else(|_| "{\"entries\":[]}".into());
    let v: Value = serde_json::from_str(&s).expect("known_findings.json");
    v["entries"].as_array().cloned().unwrap_or_default()
}
fn die(m: String) -> ! {
    eprintln!("ERROR: {m}");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let flag = |f: &str| args.iter().any(|a| a == f);
    let opt = |f: &str| args.iter().position(|a| a == f).and_then(|i| args.get(i + 1).cloned());
    install_panic_hook();
    let seed = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = flag("--thorough");
    let limit: u64 = opt("--limit").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6000 } else { 800 });
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("ERROR: time limit of {limit} s reached");
        std::process::exit(2);
    });
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for id in props::ids() {
                let ctx = Ctx { id: id.into(), seed, thorough, verbose: false };
                let d = props::get(id, &ctx);
                println!("{id} {} jobs, {} cases", d.jobs.len(), d.jobs.iter().map(|j| j.cases as u64).sum::<u64>());
            }
        }
        Some("run") => {
            let id = args.get(1).cloned().unwrap_or_else(|| die("no property".into()));
            let ctx = Ctx { id: id.clone(), seed, thorough, verbose: flag("--verbose") };
            run(&ctx, opt("--only"), opt("--cases").and_then(|s| s.parse().ok()));
        }
        Some("serve") => serve::serve(),
        Some("history") => serve::history(),
        Some("replay") => {
            let path = args.get(1).cloned().unwrap_or_else(|| die("no file".into()));
            let s = std::fs::read_to_string(&path).unwrap_or_else(|e| die(format!("{path}: {e}")));
            let v: Value = serde_json::from_str(&s).unwrap_or_else(|e| die(format!("{path}: {e}")));
            let id = v["property"].as_str().unwrap_or_else(|| die("no property in the replay file".into())).to_string();
            let ctx = Ctx { id: id.clone(), seed: v["seed"].as_u64().unwrap_or(seed), thorough: v["tier"] == "thorough", verbose: true };
            let d = props::get(&id, &ctx);
            let label = v["check"].as_str().unwrap_or("");
            let j = d.jobs.iter().find(|j| j.label == label).unwrap_or_else(|| die(format!("no check {label}")));
            let input: Vec<f64> = j.dims.iter().map(|d| v["input"][d.name].as_f64().unwrap_or_else(|| die(format!("no input {}", d.name)))).collect();
            println!("replaying {id} / {label} at {}", v["input"]);
            match guarded(|| (j.f)(&input)) {
                Ok(Out::Fail(m)) => {
                    println!("{m}");
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
                Err(m) => {
                    println!("panic: {m}");
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
                Ok(Out::Skip) => println!("outside the domain"),
                Ok(Out::Ok(c, r)) => println!("holds ({c}; worst error/tolerance {r:.3})"),
            }
        }
        _ => die("usage: harness run ID [--thorough] [--verbose] [--seed N] [--only SUBSTR] | replay FILE | list".into()),
    }
}

fn run(ctx: &Ctx, only: Option<String>, cases: Option<u32>) {
    let t0 = std::time::Instant::now();
    let id = &ctx.id;
    let mut d = props::get(id, ctx);
    if let Some(o) = &only {
        d.jobs.retain(|j| j.label.contains(o.as_str()));
    }
    if let Some(n) = cases {
        for j in d.jobs.iter_mut() {
            j.cases = n;
        }
    }
    {
        let mut seen = std::collections::HashSet::new();
        for j in &d.jobs {
            assert!(seen.insert(j.label.clone()), "duplicate label {}", j.label);
            let mut s2 = std::collections::HashSet::new();
            for x in &j.dims {
                assert!(s2.insert(x.name), "duplicate dimension {} in {}", x.name, j.label);
            }
        }
    }
    let rep = run_jobs(ctx, &d.jobs);
    let kn: Vec<Value> = known().into_iter().filter(|e| e["property"] == json!(id) && e["status"] == "known").collect();
    let rdir = verif().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut violations = vec![];
    let mut known_hit = vec![];
    for (i, f) in rep.failures.iter().enumerate() {
        let j = d.jobs.iter().find(|j| j.label == f.label).unwrap();
        // a known finding is identified by its own probe check, whose inputs are fixed
        if let Some(e) = kn.iter().find(|e| e["check"] == json!(f.label) && f.label.starts_with("probe:")) {
            println!("KNOWN-FINDING: property={id} {}", e["what"].as_str().unwrap_or(""));
            known_hit.push(f.label.clone());
            continue;
        }
        let path = rdir.join(format!("{id}-{}-{i}.json", std::process::id()));
        let v = json!({"property": id, "check": f.label, "input": named(j, &f.input), "message": f.msg, "seed": ctx.seed,
                       "tier": if ctx.thorough {"thorough"} else {"quick"}, "how": "/verif/check.sh --replay <this file>"});
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap_or_else(|e| die(format!("{e}")));
        if violations.len() < 40 {
            println!("{} at {}: {}", f.label, named(j, &f.input), f.msg);
            println!("VIOLATION property={id} replay={}", path.display());
        }
        violations.push(json!({"check": f.label, "input": named(j, &f.input), "message": f.msg, "replay": path.to_string_lossy()}));
    }
    let wall = t0.elapsed().as_secs_f64();
    let nt = rep.evidence["distinct_nontrivial"].as_u64().unwrap_or(0);
    if only.is_none() && cases.is_none() {
        let ev = json!({
            "property": id, "tier": if ctx.thorough {"thorough"} else {"quick"}, "seed": ctx.seed, "level": "exploration",
            "coverage": {
                "evaluations": rep.evidence["evaluations"], "distinct_nontrivial": nt, "rule": d.rule,
                "samples": rep.evidence["samples"], "per_check": rep.evidence["per_check"], "known_findings_reproduced": known_hit, "violations": violations,
            },
            "wall_s": wall, "violations": violations.len(),
        });
        let edir = verif().join("evidence");
        let _ = std::fs::create_dir_all(&edir);
        std::fs::write(edir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap_or_else(|e| die(format!("{e}")));
    }
    println!("{id}: {} evaluations, {nt} distinct non-trivial, {} checks, {} violations, {wall:.1} s", rep.evidence["evaluations"], d.jobs.len(), violations.len());
    if !violations.is_empty() {
        std::process::exit(1);
    }
    if nt == 0 {
        die("nothing non-trivial was generated".into());
    }
}

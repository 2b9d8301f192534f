mod cfg;
mod choice;
mod earley;
mod engine;
mod gen;
mod lalr;
mod machine;
mod props;
mod shrink;
mod spec;

use engine::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::time::Instant;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    message: String,
    job: Job,
    source: Vec<String>,
    cases: Vec<String>,
    observed: Vec<String>,
}

fn describe(env: &Env, prop: &dyn Prop, job: &Job, fail: &Fail) -> Replay {
    let units = prop.units(job);
    let cases = prop.cases(job);
    let observed = match observe(env, prop, &[job.clone()], 1) {
        Ok(o) => o[0].units.iter().map(|u| format!("{:?}", u)).chain(o[0].cases.iter().map(|c| c.clone().unwrap_or_else(|| "-".into()))).collect(),
        Err(e) => vec![e],
    };
    Replay {
        property: prop.id().into(),
        message: fail.msg.clone(),
        job: job.clone(),
        source: units.iter().map(|u| u.src.clone()).collect(),
        cases: cases.iter().map(|c| c.line(0)).collect(),
        observed,
    }
}

/// Findings recorded instead of repaired: `finding: property=<id> <substring of the message>`.
fn known(env: &Env, id: &str) -> Vec<String> {
    let t = std::fs::read_to_string(env.root.join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| l.split_once(' '))
        .filter(|(p, _)| *p == id)
        .map(|(_, m)| m.trim().to_string())
        .collect()
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(prop) = props::find(id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let prop = &*prop;
    let env = Env::load();
    let b = prop.budget();
    let n = match std::env::var("PV_JOBS").ok().and_then(|s| s.parse().ok()) {
        Some(n) => n,
        None => {
            if tier == "thorough" {
                b.thorough
            } else {
                b.quick
            }
        }
    };
    let run = explore(&env, prop, seed, n, if tier == "quick" { 520 } else { u64::MAX / 8 });
    let wall_explore = t0.elapsed().as_secs_f64();
    let known = known(&env, id);
    let mut code = 0;
    let mut violations = 0;
    let mut hits = 0;
    let mut shown = std::collections::HashSet::new();
    for (k, f) in run.found.iter().enumerate() {
        if let Some(m) = known.iter().find(|m| f.fail.msg.contains(m.as_str())) {
            hits += 1;
            if shown.insert(m.clone()) {
                println!("KNOWN-FINDING: property={} {}", id, m);
            }
            continue;
        }
        violations += 1;
        code = 1;
        if violations > 2 {
            continue;
        }
        let (job, fail) = if violations == 1 && std::env::var("PV_NOSHRINK").is_err() {
            shrink::shrink(&env, prop, f.job.clone(), f.fail.clone(), 60)
        } else {
            (f.job.clone(), f.fail.clone())
        };
        let r = describe(&env, prop, &job, &fail);
        let dir = env.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", id, seed, f.idx));
        std::fs::write(&path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        println!("--- {} job {} ({} of {} found): {}", id, f.idx, k + 1, run.found.len(), fail.msg.lines().map(|l| cut(l)).collect::<Vec<_>>().join("\n"));
        if violations == 1 {
            for s in r.source.iter().take(2) {
                s.split("\nuse self::").next().unwrap().lines().take(40).for_each(|l| println!("{}", cut(l)));
            }
            r.cases.iter().take(4).for_each(|c| println!("case: {}", cut(c)));
            r.observed.iter().take(6).for_each(|c| println!("observed: {}", cut(c)));
        }
        println!("VIOLATION property={} replay={}", id, path.display());
    }
    let mut errors = run.errors.clone();
    if run.cut {
        println!("the time ran out after {} of {} specifications", run.generated, n);
    }
    if code == 0 && !run.cut && tier == "quick" && std::env::var("PV_JOBS").is_err() {
        for (k, v) in prop.floors() {
            let c = if k == "distinct" { run.tally.distinct.len() as u64 } else { run.tally.counters.get(k).copied().unwrap_or(0) };
            if c < v {
                errors.push(format!("only {} {:?}, expected at least {}", c, k, v));
            }
        }
    }
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": run.tally.evals,
            "distinct_nontrivial": run.tally.distinct.len(),
            "rule": prop.rule(),
            "samples": run.tally.samples,
            "specifications_generated": run.generated,
            "time_ran_out": run.cut,
            "classes": run.tally.counters,
            "known_finding_hits": hits,
            "explore_wall_s": wall_explore,
        },
        "assumptions": ["rustc and the sandbox's std behave as documented", "the reference oracles in harness/src (Earley, LALR, driver model) are right; they are cross-checked by `pv selftest`"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let dir = env.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    println!(
        "{} {} seed {}: {} specifications, {} cases, {} distinct non-trivial, {:.1}s",
        id,
        tier,
        seed,
        run.generated,
        run.tally.evals,
        run.tally.distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    for (k, v) in &run.tally.counters {
        println!("  {:<44} {}", k, v);
    }
    for e in &errors {
        eprintln!("ERROR {}: {}", id, e);
    }
    if code == 0 && !errors.is_empty() {
        code = 2;
    }
    code
}

fn cut(s: &str) -> String {
    if s.len() <= 1000 {
        return s.into();
    }
    s.chars().take(1000).collect::<String>() + " ..."
}
fn replay(file: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay format");
    let prop = props::find(&r.property).expect("property");
    let env = Env::load();
    let obs = observe(&env, &*prop, &[r.job.clone()], 1).expect("observe");
    for s in prop.units(&r.job) {
        println!("{}", s.src);
    }
    for (c, o) in prop.cases(&r.job).iter().zip(&obs[0].cases) {
        println!("case: {}\n   -> {}", c.line(0), o.as_deref().unwrap_or("-"));
    }
    println!("{:?}", obs[0].units);
    match prop.judge(&r.job, &obs[0], &mut Tally::default()) {
        Ok(()) => {
            println!("replay passes");
            0
        }
        Err(f) => {
            println!("{}\nVIOLATION property={} replay={}", f.msg, r.property, file);
            1
        }
    }
}

/// prints a generated specification
fn show(id: &str, seed: u64, idx: u64) {
    let prop = props::find(id).unwrap();
    let mut s = choice::Src::new(prop.id(), seed, idx);
    match prop.gen(&mut s, idx) {
        None => println!("gave up"),
        Some(j) => {
            for u in prop.units(&j) {
                println!("{}", u.src);
            }
            println!("kind {} nums {:?}", j.kind, j.nums);
            for c in prop.cases(&j) {
                println!("{}", c.line(0));
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || match a.get(1).map(|s| s.as_str()) {
            Some("check") => check(&a[2], a.get(3).map_or("quick", |s| s)),
            Some("replay") => replay(&a[2]),
            Some("show") => {
                show(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
                0
            }
            Some("selftest") => props::selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(3000)),
            _ => {
                eprintln!("usage: pv check ID TIER | replay FILE | show ID SEED IDX | selftest [N]");
                2
            }
        })
        .unwrap()
        .join();
    std::process::exit(code.unwrap_or(2));
}

//! Command line, evidence and violation reports.
use std::sync::atomic::AtomicBool;
use std::sync::Mutex;
use std::time::Instant;
use crate::util::*;

pub fn verif_dir() -> String {
    std::env::var("JMTMC_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn report_violation(ctx: &Ctx, v: &Violation) {
    let dir = format!("{}/evidence/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", ctx.prop);
    let j = serde_json::json!({
        "property": ctx.prop,
        "tier": if ctx.thorough() { "thorough" } else { "quick" },
        "family": v.family,
        "case": v.case,
        "message": v.msg,
        "history": v.detail,
        "replay_cmd": format!("./check {} --replay {}", ctx.prop, path),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    println!("violated in {} case {}: {}", v.family, v.case, v.msg);
    if !v.detail.is_empty() {
        let mut d = v.detail.clone();
        if d.len() > 3000 {
            let mut n = 3000;
            while !d.is_char_boundary(n) {
                n -= 1;
            }
            d.truncate(n);
        }
        println!("  after {d}");
    }
    println!("VIOLATION property={} replay={}", ctx.prop, path);
}

pub fn main_with(run: impl Fn(&str, &Ctx) -> Option<Info>) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut replay = None;
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = if args[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick };
                i += 1;
            }
            "--replay" => {
                let t = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                let j: serde_json::Value = serde_json::from_str(&t).expect("replay file");
                replay = Some((
                    j["family"].as_str().unwrap().to_string(),
                    j["case"].as_u64().unwrap() as usize,
                ));
                if j["tier"] == "thorough" {
                    tier = Tier::Thorough;
                }
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            x => panic!("unknown argument {x}"),
        }
        i += 1;
    }
    // capturing backtraces would dominate the running time
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    install_panic_hook();
    let ctx = Ctx {
        prop: prop.clone(),
        tier,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4),
        replay,
        total: Mutex::new(Stats::default()),
        viol: Mutex::new(None),
        stop: AtomicBool::new(false),
        cut: AtomicBool::new(false),
        samples: Mutex::new(vec![]),
        families: Mutex::new(vec![]),
        notes: Mutex::new(vec![]),
        start: Instant::now(),
        only,
        part: Mutex::new(""),
    };
    let info = match run(&prop, &ctx) {
        Some(i) => i,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2);
        }
    };
    let viol = ctx.viol.lock().unwrap().take();
    if ctx.replay.is_some() {
        match viol {
            Some(v) => {
                report_violation(&ctx, &v);
                std::process::exit(1)
            }
            None => {
                println!("replayed case holds");
                std::process::exit(0)
            }
        }
    }
    let st = std::mem::take(&mut *ctx.total.lock().unwrap());
    let g = |k: &str| st.c.get(k).copied().unwrap_or(0);
    let wall = ctx.start.elapsed().as_secs_f64();
    let fams: Vec<_> = ctx
        .families
        .lock()
        .unwrap()
        .iter()
        .map(|(n, c, s)| serde_json::json!({"family": n, "cases": c, "seconds": (s * 100.0).round() / 100.0}))
        .collect();
    let cut = ctx.cut.load(std::sync::atomic::Ordering::SeqCst);
    let mut cov = serde_json::json!({
        "states": st.states.len(),
        "transitions": g("transitions"),
        "traces_validated_against_impl": g("traces"),
        "evaluations": g("evaluations"),
        "distinct_nontrivial": g("nontrivial"),
        "rule": info.rule,
        "samples": *ctx.samples.lock().unwrap(),
        "exhaustive": viol.is_none() && !cut,
        "families": fams,
        "counters": st.c,
    });
    if info.level == "model_checking" {
        cov.as_object_mut().unwrap().remove("distinct_nontrivial");
    }
    let ev = serde_json::json!({
        "property": prop,
        "tier": if ctx.thorough() { "thorough" } else { "quick" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
        "level": info.level,
        "coverage": cov,
        "assumptions": info.assumptions,
        "wall_s": wall,
        "violations": viol.is_some() as u64,
    });
    if ctx.only.is_none() {
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{dir}/{prop}.json"),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence file");
    }
    if std::env::var("JMTMC_VERBOSE").is_ok() {
        println!("  {:?}", st.c);
    }
    let mut known: Vec<String> = st.known.clone();
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    match viol {
        Some(v) => {
            report_violation(&ctx, &v);
            std::process::exit(1)
        }
        None => {
            if cut {
                println!("{prop}: not everything was explored, the time ran out");
            }
            println!(
                "{prop}: held on {} cases, {} transitions, {} states, {} evaluations in {wall:.1} s",
                g("cases"),
                g("transitions"),
                st.states.len(),
                g("evaluations"),
            );
        }
    }
}

pub struct Info {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}
pub fn mc(rule: &'static str) -> Info {
    Info {
        level: "model_checking",
        rule,
        assumptions: vec![
            "SHA-256 (and the second hash function used) has no collisions among the explored inputs",
            "versions are committed contiguously, each after the previous one is stored",
        ],
    }
}

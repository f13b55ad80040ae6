//! Bounded exhaustive exploration of rust-minisign's behaviour; see ../DESIGN.md.
#![allow(clippy::type_complexity)]
mod checks;
mod conc;
mod leak;
mod machine;
mod engine;
mod env;
mod field;
mod refm;
mod tables;

use engine::*;
#[global_allocator]
static ALLOC: conc::Alloc = conc::Alloc;
use serde_json::{json, Value};
use std::os::unix::process::ExitStatusExt;
use std::process::{exit, Command, Stdio};
use std::sync::Arc;
use std::time::{Duration, Instant};

const VERIF: &str = "/verif";

fn find(id: &str) -> CheckDef {
    checks::all().into_iter().find(|c| c.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); exit(2) })
}

/// (known keys, fixed lines) for a property from KNOWN_FINDINGS.txt
fn known_keys(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{VERIF}/KNOWN_FINDINGS.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let r = l.strip_prefix("known: ")?.strip_prefix(&format!("property={id} "))?;
        let r = r.strip_prefix("key=")?;
        let (k, m) = r.split_once(' ')?;
        Some((k.to_string(), m.to_string()))
    }).collect()
}

fn tier_cfg(tier: &str) -> Cfg {
    Cfg { thorough: tier == "thorough", seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1) }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["selftest"] => match refm::selftest() { Ok(()) => println!("reference model: ok"), Err(e) => { println!("reference model broken: {e}"); exit(2) } },
        ["search"] => tables::search(),
        ["list"] => for c in checks::all() { println!("{}", c.id) },
        ["check", id, tier] => check(id, tier),
        ["worker", id, tier, result, slots] => worker(id, tier, result, slots),
        ["case", id, tier, spec] => case(id, tier, spec),
        ["server"] => conc::serve(),
        ["effects", spec, ..] => checks::effects::child(spec),
        ["replay", file] => replay(file),
        _ => { eprintln!("usage: mc check ID quick|thorough | replay FILE | selftest | list"); exit(2) }
    }
}

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: 20 << 30, rlim_max: 20 << 30 };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &z) };
}

fn picks_json(c: &[Pick]) -> Value { Value::Array(c.iter().map(|p| json!([p.n, p.c])).collect()) }

fn worker(id: &str, tier: &str, result: &str, slots: &str) {
    limit_memory();
    install_panic_hook();
    let def = find(id);
    let cfg = tier_cfg(tier);
    let slots = map_slots(slots);
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    let budget: u64 = std::env::var("MC_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(if cfg.thorough { 6 * 3600 } else { 400 });
    let keys = known_keys(id);
    let known = |k: &str| keys.iter().any(|x| x.0 == k);
    let result_path = result.to_string();
    {
        let rp = result_path.clone();
        HUNG.set(Arc::new(move |p, c| {
            std::fs::write(&rp, json!({"hung": {"part": p, "choices": c}}).to_string()).ok();
            unsafe { libc::_exit(3) }
        }));
    }
    let parts = match std::panic::catch_unwind(|| (def.parts)(&cfg)) {
        Ok(p) => p,
        Err(_) => {
            let (f, l, m) = last_panic().unwrap_or_default();
            std::fs::write(&result_path, json!({"error": format!("building fixtures panicked at {f}:{l}: {m}"), "fixture_panic": !harness_file(&f)}).to_string()).ok();
            exit(0)
        }
    };
    let only = std::env::var("MC_PART").ok();
    let parts: Vec<Part> = parts.into_iter().filter(|p| only.as_ref().map_or(true, |o| p.name.contains(o.as_str()))).collect();
    let ex = Explorer { parts: &parts, slots, threads, deadline: Instant::now() + Duration::from_secs(budget), known: &known, keep_going: std::env::var("MC_KEEP").is_ok() };
    let (reports, found, out) = ex.run();
    let mut o = json!({
        "parts": reports.iter().map(|r| json!({
            "name": r.name, "executions": r.stats.execs, "nodes": r.stats.nodes, "choices": r.stats.choices,
            "evaluations": r.stats.evals, "distinct": r.distinct, "complete": r.complete, "wall_s": (r.wall * 100.0).round() / 100.0,
            "max_depth": r.stats.max_depth, "deviation_bound": if r.bound > 1000 { json!(null) } else { json!(r.bound) },
            "by_deviations": r.stats.devs, "samples": r.stats.samples.iter().take(8).collect::<Vec<_>>(),
            "hits": r.stats.hits,
        })).collect::<Vec<_>>(),
        "found": found.iter().map(|f| json!({"part": parts[f.part].name, "key": f.fail.key, "msg": f.fail.msg, "choices": picks_json(&f.choices), "case": describe(&f.choices)})).collect::<Vec<_>>(),
    });
    o["extra"] = json!(*EXTRA.lock().unwrap());
    match out {
        Outcome::Done => {}
        Outcome::Error(e) => { o["error"] = json!(e); }
        Outcome::Hung { part, choices } => { o["hung"] = json!({"part": part, "choices": choices}); }
    }
    std::fs::write(&result_path, o.to_string()).expect("result");
    unsafe { libc::_exit(0) }
}

/// Run one case alone: exit 0 ok, 1 violation, 2 error.
fn case(id: &str, tier: &str, spec: &str) {
    limit_memory();
    install_panic_hook();
    let def = find(id);
    let v: Value = serde_json::from_str(spec).expect("spec");
    let parts = (def.parts)(&tier_cfg(tier));
    let p = match v["part"].as_u64() { Some(i) => &parts[i as usize], None => parts.iter().find(|p| Some(p.name.as_str()) == v["part"].as_str()).expect("part") };
    let choices: Vec<(u32, u32)> = v["choices"].as_array().unwrap().iter().map(|x| (x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap() as u32)).collect();
    let saved = unsafe { libc::dup(1) };
    {
        unsafe { let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY); libc::dup2(n, 1); libc::dup2(n, 2); }
    }
    let d = run_case(p, choices, true, None);
    unsafe { libc::dup2(saved, 1); }
    println!("part: {}", p.name);
    for t in &d.trace { println!("  {} = {} of {}{}", t.label, t.c, t.n, if t.dev && t.c != 0 { "   (deviation)" } else { "" }); }
    for n in &d.notes { println!("  note: {n}"); }
    match d.verdict {
        Verdict::Ok => { println!("verdict: ok"); exit(0) }
        Verdict::Violation(f) => { println!("verdict: VIOLATION [{}] {}", f.key, f.msg); exit(1) }
        Verdict::Error(e) => { println!("verdict: harness error: {e}"); exit(2) }
    }
}

pub enum CaseEnd { Ok, Violation, Error, Crash(String), Hang }
pub fn run_case_process(id: &str, tier: &str, spec: &Value, limit: u64) -> CaseEnd {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["case", id, tier, &spec.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            return match (st.code(), st.signal()) {
                (Some(0), _) => CaseEnd::Ok,
                (Some(1), _) => CaseEnd::Violation,
                (_, Some(s)) => CaseEnd::Crash(format!("killed by signal {s}")),
                (Some(101), _) | (Some(134), _) => CaseEnd::Crash("aborted".into()),
                _ => CaseEnd::Error,
            };
        }
        if t0.elapsed() > Duration::from_secs(limit) { c.kill().ok(); c.wait().ok(); return CaseEnd::Hang; }
        std::thread::sleep(Duration::from_millis(10));
    }
}

enum Run { Result(Value), Crashed { how: String, cases: Vec<(usize, Vec<(u32, u32)>)>, err: String } }
fn run_worker(id: &str, tier: &str, limit: u64) -> Run {
    let base = format!("{VERIF}/replays/.run-{}-{}", id, std::process::id());
    let (res, slots, errf) = (format!("{base}.json"), format!("{base}.slots"), format!("{base}.err"));
    for f in [&res, &slots] { std::fs::remove_file(f).ok(); }
    let ef = std::fs::File::create(&errf).expect("err file");
    let mut c = Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, tier, &res, &slots])
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(ef).spawn().expect("spawn");
    let t0 = Instant::now();
    let mut timed_out = false;
    let st = loop {
        if let Some(st) = c.try_wait().unwrap() { break st; }
        if t0.elapsed() > Duration::from_secs(limit) { timed_out = true; c.kill().ok(); break c.wait().unwrap(); }
        std::thread::sleep(Duration::from_millis(5));
    };
    let v = std::fs::read_to_string(&res).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok());
    let cases = if v.is_none() && std::path::Path::new(&slots).exists() { running_cases(&map_slots(&slots)).into_iter().map(|(p, _, c)| (p, c)).collect() } else { vec![] };
    let err = std::fs::read_to_string(&errf).unwrap_or_default().chars().take(2000).collect();
    for f in [&res, &slots, &errf] { std::fs::remove_file(f).ok(); }
    match v {
        Some(v) => Run::Result(v),
        None => Run::Crashed { how: if timed_out { "timed out".into() } else { format!("{st}") }, cases, err },
    }
}

fn write_replay(id: &str, tier: &str, v: &Value) -> String {
    let p = format!("{VERIF}/replays/{id}-{}.json", std::process::id());
    let mut v = v.clone();
    v["property"] = json!(id);
    v["tier"] = json!(tier);
    v["seed"] = json!(tier_cfg(tier).seed);
    v["how"] = json!("bin/mc replay <this file> (after the check's build step)");
    std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).expect("replay");
    p
}

fn violation(id: &str, tier: &str, v: Value, msg: &str) -> String {
    let p = write_replay(id, tier, &v);
    println!("{msg}");
    println!("VIOLATION property={id} replay={p}");
    p
}

fn check(id: &str, tier: &str) {
    let t0 = Instant::now();
    let def = find(id);
    let cfg = tier_cfg(tier);
    std::fs::create_dir_all(format!("{VERIF}/replays")).ok();
    std::fs::create_dir_all(format!("{VERIF}/evidence")).ok();
    if let Err(e) = refm::selftest() { println!("reference model self-test failed: {e}"); exit(2) }
    let keys = known_keys(id);
    let limit = if cfg.thorough { 7 * 3600 } else { 520 };
    let mut last = String::new();
    for attempt in 0..3 {
        let run = run_worker(id, tier, limit);
        let v = match run {
            Run::Crashed { how, cases, err } => {
                for (p, c) in &cases {
                    let spec = json!({"part": p, "choices": c});
                    let end = run_case_process(id, tier, &spec, 60);
                    let what = match end { CaseEnd::Crash(w) => w, CaseEnd::Violation => "violation".into(), CaseEnd::Hang => "hang".into(), _ => continue };
                    write_evidence(&def, &cfg, tier, &json!({"parts": []}), 1, t0, &[]);
                    violation(id, tier, spec, &format!("the process died ({how}; alone: {what}) {err}"));
                    exit(1)
                }
                if last == "crash" && !cases.is_empty() {
                    write_evidence(&def, &cfg, tier, &json!({"parts": []}), 1, t0, &[]);
                    violation(id, tier, json!({"whole": true, "candidates": cases}), &format!("the process died repeatedly ({how}) {err}"));
                    exit(1)
                }
                println!("attempt {attempt}: worker died: {how} {err}");
                last = "crash".into();
                continue;
            }
            Run::Result(v) => v,
        };
        if let Some(h) = v.get("hung") {
            let spec = json!({"part": h["part"], "choices": h["choices"]});
            match run_case_process(id, tier, &spec, 60) {
                CaseEnd::Ok | CaseEnd::Error if last != "hang" => { println!("attempt {attempt}: a case exceeded its time limit but not when run alone"); last = "hang".into(); continue; }
                CaseEnd::Error => { println!("harness error replaying a hung case"); exit(2) }
                CaseEnd::Ok => { println!("cases exceed their time limit under load"); exit(2) }
                _ => {
                    write_evidence(&def, &cfg, tier, &json!({"parts": []}), 1, t0, &[]);
                    violation(id, tier, spec, "an operation did not terminate within its time limit");
                    exit(1)
                }
            }
        }
        if let Some(e) = v.get("error") {
            if v["fixture_panic"].as_bool() == Some(true) {
                write_evidence(&def, &cfg, tier, &json!({"parts": []}), 1, t0, &[]);
                violation(id, tier, json!({"whole": true}), &format!("{e}"));
                exit(1)
            }
            println!("attempt {attempt}: {e}");
            last = "error".into();
            continue;
        }
        let empty = vec![];
        let found = v["found"].as_array().unwrap_or(&empty);
        let mut unlisted = vec![];
        let mut listed: Vec<String> = vec![];
        for f in found {
            match keys.iter().find(|k| Some(k.0.as_str()) == f["key"].as_str()) {
                Some((k, m)) => if !listed.contains(k) { listed.push(k.clone()); println!("KNOWN-FINDING: property={id} {m}"); },
                None => unlisted.push(f.clone()),
            }
        }
        if std::env::var("MC_KEEP").is_ok() {
            for f in &unlisted { println!("-- [{}] {} : {} {}", f["part"], f["key"], f["msg"], f["case"]); }
            for p in v["parts"].as_array().unwrap() { println!("{} hits={}", p["name"], p["hits"]); }
        }
        if unlisted.is_empty() {
            write_evidence(&def, &cfg, tier, &v, 0, t0, &listed);
            summary(&v);
            println!("OK property={id} ({tier}, {:.1}s)", t0.elapsed().as_secs_f64());
            exit(0)
        }
        // confirm
        unlisted.sort_by_key(|f| f["choices"].as_array().map_or(0, |c| c.iter().filter(|x| x[1] != 0).count()));
        for f in &unlisted {
            let spec = json!({"part": f["part"], "choices": f["choices"]});
            let again = (0..2).all(|_| !matches!(run_case_process(id, tier, &spec, 120), CaseEnd::Ok | CaseEnd::Error));
            if again {
                write_evidence(&def, &cfg, tier, &v, 1, t0, &listed);
                violation(id, tier, json!({"part": f["part"], "choices": f["choices"], "key": f["key"], "message": f["msg"], "case": f["case"]}), &format!("[{}] {} {}", f["part"].as_str().unwrap_or(""), f["key"].as_str().unwrap_or(""), f["msg"].as_str().unwrap_or("")));
                exit(1)
            }
        }
        let f = &unlisted[0];
        if last == "history" {
            write_evidence(&def, &cfg, tier, &v, 1, t0, &listed);
            violation(id, tier, json!({"whole": true, "part": f["part"], "choices": f["choices"], "key": f["key"], "message": f["msg"], "case": f["case"]}),
                &format!("[{}] {} {} (depends on what ran before it in the same process)", f["part"].as_str().unwrap_or(""), f["key"].as_str().unwrap_or(""), f["msg"].as_str().unwrap_or("")));
            exit(1)
        }
        println!("attempt {attempt}: [{}] {} {} did not recur when run alone; running the whole check again", f["part"], f["key"], f["msg"]);
        last = "history".into();
    }
    println!("no verdict");
    exit(2)
}

fn sum(v: &Value, k: &str) -> u64 { v["parts"].as_array().map_or(0, |a| a.iter().map(|p| p[k].as_u64().unwrap_or(0)).sum()) }

fn summary(v: &Value) {
    for p in v["parts"].as_array().unwrap() {
        println!("  {:<28} {:>8} executions {:>9} evaluations {:>8} distinct  depth {:>3}  bound {}  {}  {}s",
            p["name"].as_str().unwrap(), p["executions"], p["evaluations"], p["distinct"], p["max_depth"], p["deviation_bound"], if p["complete"].as_bool().unwrap() { "complete" } else { "CAPPED" }, p["wall_s"]);
    }
}

fn write_evidence(def: &CheckDef, cfg: &Cfg, tier: &str, v: &Value, violations: u32, t0: Instant, listed: &[String]) {
    let empty = vec![];
    let parts = v["parts"].as_array().unwrap_or(&empty);
    let samples: Vec<Value> = parts.iter().flat_map(|p| p["samples"].as_array().unwrap_or(&empty).iter().skip(1).take(2).map(|s| json!({"part": p["name"], "choices": s})).collect::<Vec<_>>()).collect();
    let complete = !parts.is_empty() && parts.iter().all(|p| p["complete"].as_bool().unwrap_or(false));
    let mut assumptions: Vec<Value> = def.assumptions.iter().map(|s| json!(s)).collect();
    assumptions.push(json!("the reference model (mc/src/refm.rs: RFC 7693, RFC 8032 via curve25519-dalek, RFC 7914, the Minisign format), self-tested against published vectors on every run"));
    assumptions.push(json!("getrandom, rpassword and scrypt are replaced by API-compatible stand-ins in /verif/stubs"));
    let ev = json!({
        "property": def.id, "tier": tier, "seed": cfg.seed, "level": def.level,
        "coverage": {
            "evaluations": sum(v, "evaluations"),
            "distinct_nontrivial": sum(v, "distinct"),
            "rule": def.rule,
            "samples": samples,
            "states": sum(v, "nodes"),
            "transitions": sum(v, "choices"),
            "traces_validated_against_impl": sum(v, "executions"),
            "exhaustive": complete,
            "explanation": "states: distinct nodes of the choice tree visited; transitions: choice steps executed; traces_validated_against_impl: complete executions, each run on the real compiled library and compared with the reference model or invariant; distinct_nontrivial: distinct fingerprints (situation, verdict) among the evaluations.",
            "parts": parts.iter().map(|p| { let mut p = p.clone(); if let Some(o) = p.as_object_mut() { o.remove("samples"); } p }).collect::<Vec<_>>(),
            "known_findings": listed,
            "further_figures": v["extra"],
        },
        "assumptions": assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 10.0).round() / 10.0,
        "violations": violations,
    });
    std::fs::write(format!("{VERIF}/evidence/{}.json", def.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").expect("evidence");
}

fn replay(file: &str) {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let (id, tier) = (v["property"].as_str().unwrap(), v["tier"].as_str().unwrap());
    if v["whole"].as_bool() == Some(true) {
        println!("this violation depends on the whole history: rerunning the check");
        std::env::set_var("VERIF_SEED", v["seed"].to_string());
        return check(id, tier);
    }
    let st = Command::new(std::env::current_exe().unwrap())
        .env("VERIF_SEED", v["seed"].to_string())
        .args(["case", id, tier, &json!({"part": v["part"], "choices": v["choices"]}).to_string()])
        .status().expect("spawn");
    exit(st.code().unwrap_or(1))
}

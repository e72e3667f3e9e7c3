//! Supervisor, worker and replay commands.
use crate::fw::{self, Ctx, Failure, Outcome, Property};
use crate::{guard, known, props};
use model::tape::{self, Tape};
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

pub const CASE_CPU_S: f64 = 60.0;

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .map_or(1, |v| v as u64)
}
fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn main(args: &[String]) -> i32 {
    fw::install_panic_hook();
    match args.iter().map(String::as_str).collect::<Vec<_>>().as_slice() {
        ["run", id] => supervise(id),
        ["worker", id, out, slots] => worker(id, out, slots),
        ["replay", file] => replay(file),
        ["known", name] => known::probe(name),
        ["prebuild"] => props::prebuild(),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: bnfcheck run ID | replay FILE | list");
            2
        }
    }
}

/// Without serde_json's nesting limit: deeply bracketed grammars make deeply nested cases.
fn read_json(text: &str) -> Option<Value> {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_str(text);
    d.disable_recursion_limit();
    Value::deserialize(&mut d).ok()
}

fn find(id: &str) -> Option<Property> {
    props::all().into_iter().find(|p| p.id == id)
}

fn worker(id: &str, out: &str, slots: &str) -> i32 {
    let Some(p) = find(id) else { return 2 };
    let f = std::fs::OpenOptions::new().write(true).open(slots).ok();
    guard::watchdog(CASE_CPU_S);
    let o = fw::run_all(&p, seed(), thorough(), f.as_ref());
    let v = json!({
        "evaluations": o.evaluations,
        "discarded": o.discarded,
        "distinct": o.keys.len(),
        "labels": o.labels,
        "samples": pick_samples(&o),
        "peak_case_bytes": guard::PEAK.load(std::sync::atomic::Ordering::Relaxed),
        "failure": o.failure.as_ref().map(failure_json),
    });
    if std::fs::write(out, v.to_string()).is_err() {
        return 2;
    }
    0
}

fn pick_samples(o: &Outcome) -> Vec<Value> {
    let mut by: std::collections::BTreeMap<String, Vec<&Value>> = Default::default();
    for s in &o.samples {
        by.entry(s["mode"].to_string()).or_default().push(s);
    }
    by.values_mut()
        .flat_map(|v| {
            v.sort_by_key(|s| s.to_string());
            v.iter().take(2).map(|s| (*s).clone()).collect::<Vec<_>>()
        })
        .collect()
}

fn failure_json(f: &Failure) -> Value {
    json!({"mode": f.mode, "index": f.idx, "case": f.case, "message": f.message,
           "tape_before_shrinking": f.shrunk_from, "tape_after_shrinking": f.shrunk_to})
}

/// Exit codes: 0 holds, 1 violated (message on stdout), 77/78/signals as from the guard.
fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let Some(v) = read_json(&text) else {
        eprintln!("not JSON: {file}");
        return 2;
    };
    let id = v["property"].as_str().unwrap_or_default().to_string();
    let mode = v["mode"].as_str().unwrap_or_default().to_string();
    if let Some(f) = props::special_replay(&id) {
        return f(&v);
    }
    if mode == "probe" {
        return known::probe(v["case"].as_str().unwrap_or_default());
    }
    let Some(p) = find(&id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    if let Ok(l) = std::env::var("VERIF_CASE_CPU") {
        guard::watchdog(l.parse().unwrap_or(CASE_CPU_S));
    } else {
        guard::watchdog(CASE_CPU_S);
    }
    let r = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            fw::TIDS[0].store(
                unsafe { libc::syscall(libc::SYS_gettid) } as usize,
                std::sync::atomic::Ordering::Relaxed,
            );
            fw::SLOTS[0].store(1, std::sync::atomic::Ordering::Relaxed);
            let Some(m) = p.modes.iter().find(|m| m.name() == mode) else {
                return Err(format!("no mode {mode}"));
            };
            let mut c = Ctx::default();
            Ok(m.run_json(v["case"].clone(), &mut c))
        })
        .expect("thread")
        .join();
    match r {
        Ok(Ok(Ok(()))) => {
            println!("holds");
            0
        }
        Ok(Ok(Err(e))) => {
            println!("violated: {e}");
            1
        }
        Ok(Err(e)) => {
            eprintln!("{e}");
            2
        }
        Err(_) => 2,
    }
}

#[derive(Debug, PartialEq, Clone)]
enum Ending {
    Ok,
    Violated(String),
    Alloc,
    Cpu,
    Signal(i32),
    Error(i32),
}

fn run_case(exe: &Path, file: &Path) -> Ending {
    use std::os::unix::process::ExitStatusExt;
    let Ok(o) = Command::new(exe)
        .args(["replay", &file.to_string_lossy()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
    else {
        return Ending::Error(-1);
    };
    match (o.status.code(), o.status.signal()) {
        (Some(0), _) => Ending::Ok,
        (Some(1), _) => Ending::Violated(String::from_utf8_lossy(&o.stdout).trim().to_string()),
        (Some(guard::EXIT_ALLOC), _) => Ending::Alloc,
        (Some(guard::EXIT_CPU), _) => Ending::Cpu,
        (_, Some(s)) => Ending::Signal(s),
        (c, _) => Ending::Error(c.unwrap_or(-1)),
    }
}

fn describe(e: &Ending) -> String {
    match e {
        Ending::Ok => "holds".into(),
        Ending::Violated(m) => m.clone(),
        Ending::Alloc => format!(
            "the call did not finish: it allocated more than {} MB for this small case",
            guard::LIMIT.load(std::sync::atomic::Ordering::Relaxed) >> 20
        ),
        Ending::Cpu => format!("the call did not finish within {CASE_CPU_S} s of CPU time, twice, in separate processes"),
        Ending::Signal(s) => format!("the process died with signal {s} (stack overflow or abort)"),
        Ending::Error(c) => format!("check error, exit code {c}"),
    }
}

pub fn write_replay(id: &str, f: &Value) -> PathBuf {
    let dir = verif_dir().join("evidence").join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}.json", seed()));
    let mut v = f.clone();
    v["property"] = json!(id);
    v["seed"] = json!(seed());
    v["replay_with"] = json!(format!("./check.sh replay {}", path.display()));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
    path
}

pub fn write_evidence(id: &str, ev: &Value) -> bool {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_string_pretty(ev).unwrap_or_default(),
    )
    .is_ok()
}

fn supervise(id: &str) -> i32 {
    let started = Instant::now();
    if let Some(f) = props::special(id) {
        return f(seed(), thorough());
    }
    let Some(p) = find(id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let exe = std::env::current_exe().expect("own path");
    let tmp = std::env::temp_dir().join(format!("bnfcheck-{id}-{}", std::process::id()));
    if std::fs::create_dir_all(&tmp).is_err() {
        return 2;
    }
    let out = tmp.join("out.json");
    let slots = tmp.join("slots");
    let _ = std::fs::write(&slots, [0u8; fw::SHARDS * 8]);
    let status = Command::new(&exe)
        .args(["worker", id, &out.to_string_lossy(), &slots.to_string_lossy()])
        .stdin(Stdio::null())
        .status();
    let result = std::fs::read_to_string(&out)
        .ok()
        .and_then(|s| read_json(&s));
    let mut failure: Option<Value> = None;
    let mut cov = json!({});
    let mut error = None;
    match (status, result) {
        (Ok(s), Some(v)) if s.success() => {
            if !v["failure"].is_null() {
                failure = Some(v["failure"].clone());
            }
            cov = v;
        }
        (Ok(s), _) => {
            // the worker died: find the case that does it
            use std::os::unix::process::ExitStatusExt;
            eprintln!(
                "worker ended abnormally (exit {:?}, signal {:?}); looking for the case",
                s.code(),
                s.signal()
            );
            let raw = std::fs::read(&slots).unwrap_or_default();
            let mut found = None;
            for ch in raw.chunks_exact(8) {
                let slot = u64::from_le_bytes(ch.try_into().expect("8 bytes"));
                if slot == 0 {
                    continue;
                }
                let (mi, idx) = (((slot - 1) >> 40) as usize, (slot - 1) & ((1 << 40) - 1));
                let Some(m) = p.modes.get(mi) else { continue };
                let mut t = Tape::random(fw::case_seed(seed(), p.id, m.name(), idx));
                let case = m.case_json(&mut t);
                let file = tmp.join("case.json");
                let body = json!({"property": id, "mode": m.name(), "case": case});
                let _ = std::fs::write(&file, body.to_string());
                let e = run_case(&exe, &file);
                if !matches!(e, Ending::Ok | Ending::Error(_)) {
                    found = Some((mi, idx, t.into_used(), body, e));
                    break;
                }
            }
            match found {
                None => error = Some("worker died and no case reproduces it".to_string()),
                Some((mi, idx, used, mut body, e)) => {
                    let m = &p.modes[mi];
                    let from = used.len();
                    let mut to = from;
                    let mut msg = describe(&e);
                    if e != Ending::Cpu {
                        let t0 = Instant::now();
                        let best = tape::shrink(used, 300, |cand| {
                            if t0.elapsed().as_secs() > 90 {
                                return None;
                            }
                            let mut t = Tape::replay(cand.to_vec());
                            let case = m.case_json(&mut t);
                            let file = tmp.join("case.json");
                            let b = json!({"property": id, "mode": m.name(), "case": case});
                            let _ = std::fs::write(&file, b.to_string());
                            let r = run_case(&exe, &file);
                            if matches!(r, Ending::Ok | Ending::Error(_) | Ending::Cpu) {
                                None
                            } else {
                                msg = describe(&r);
                                body = b;
                                Some(t.into_used())
                            }
                        });
                        to = best.len();
                    }
                    failure = Some(json!({"mode": m.name(), "index": idx, "case": body["case"], "message": msg,
                        "tape_before_shrinking": from, "tape_after_shrinking": to}));
                }
            }
        }
        (Err(e), _) => error = Some(format!("cannot start worker: {e}")),
    }
    let _ = std::fs::remove_dir_all(&tmp);
    if let Some(e) = error {
        eprintln!("error: {e}");
        return 2;
    }
    let (mut known_lines, known_violation) = known::run(id, &exe);
    known_lines.sort();
    for l in &known_lines {
        println!("{l}");
    }
    if failure.is_none()
        && let Some(k) = known_violation
    {
        failure = Some(k);
    }
    let violated = failure.is_some();
    let ev = json!({
        "property": id,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": cov["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": cov["distinct"].as_u64().unwrap_or(0),
            "discarded": cov["discarded"].as_u64().unwrap_or(0),
            "rule": p.rule,
            "classes": cov["labels"],
            "peak_case_bytes": cov["peak_case_bytes"],
            "known_findings_confirmed": known_lines.len(),
            "samples": cov["samples"].as_array().cloned().unwrap_or_default(),
        },
        "assumptions": p.assumptions,
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": u64::from(violated),
    });
    if !write_evidence(id, &ev) {
        eprintln!("cannot write evidence");
        return 2;
    }
    finish(id, failure, &cov, started)
}

pub fn finish(id: &str, failure: Option<Value>, cov: &Value, started: Instant) -> i32 {
    match failure {
        Some(f) => {
            let path = write_replay(id, &f);
            println!("{}", f["message"].as_str().unwrap_or_default());
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
        None => {
            println!(
                "{id} held on {} cases ({} distinct non-trivial) in {:.1} s",
                cov["evaluations"],
                cov["distinct"],
                started.elapsed().as_secs_f64()
            );
            0
        }
    }
}

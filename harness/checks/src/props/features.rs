//! C24: the same generated cases observed by builds with different features and profiles.
use crate::run;
use crate::tool::{self, Ended};
use model::hash_of;
use model::tape;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

struct Config {
    name: &'static str,
    release: bool,
    features: &'static str,
}
const CONFIGS: [Config; 5] = [
    Config {
        name: "A",
        release: true,
        features: "ABNF,serde",
    },
    Config {
        name: "B",
        release: false,
        features: "ABNF,serde",
    },
    Config {
        name: "C",
        release: true,
        features: "",
    },
    Config {
        name: "D",
        release: true,
        features: "ABNF,serde,tracing,unstable",
    },
    Config {
        name: "E",
        release: false,
        features: "serde,tracing",
    },
];

/// One way of running a build: the last one also installs a subscriber for the traces.
struct Variant {
    config: usize,
    subscribe: bool,
}
const VARIANTS: [Variant; 6] = [
    Variant { config: 0, subscribe: false },
    Variant { config: 1, subscribe: false },
    Variant { config: 2, subscribe: false },
    Variant { config: 3, subscribe: false },
    Variant { config: 3, subscribe: true },
    Variant { config: 4, subscribe: false },
];

fn label(v: &Variant) -> String {
    let c = &CONFIGS[v.config];
    format!(
        "{} build, features [{}]{}",
        if c.release { "optimised" } else { "debug" },
        c.features,
        if v.subscribe { " with a trace subscriber" } else { "" }
    )
}

fn exe(c: &Config) -> PathBuf {
    run::verif_dir()
        .join("build/c24")
        .join(c.name)
        .join(if c.release { "release" } else { "debug" })
        .join("digest")
}

/// Build every configuration from /repo's tree. Err((violation, message)).
pub fn build() -> Result<(), (bool, String)> {
    let dir = run::verif_dir();
    let _lock = tool::lock(&dir.join("build"));
    let mut out = Ok(());
    for c in &CONFIGS {
        let target = dir.join("build/c24").join(c.name);
        let mut args: Vec<String> = vec!["--features".into(), c.features.into()];
        if c.release {
            args.push("--release".into());
        }
        let r = tool::cargo_build(&dir.join("digest"), &target, c.release, &args);
        if let Err(log) = r {
            let bnf = log.contains("could not compile `bnf`");
            out = Err((
                bnf,
                format!(
                    "the library does not build in the {} configuration with features [{}]:\n{log}",
                    if c.release { "release" } else { "debug" },
                    c.features
                ),
            ));
        }
    }
    out
}

fn digest(v: &Variant, args: &[String], limit: u64) -> Ended {
    let mut c = Command::new(exe(&CONFIGS[v.config]));
    c.args(args);
    c.env_remove("RUST_LOG");
    if v.subscribe {
        c.env("DIGEST_SUBSCRIBE", "1");
    }
    tool::run(&mut c, Duration::from_secs(limit))
}

fn batch(v: &Variant, seed: u64, from: u64, to: u64, limit: u64) -> Ended {
    digest(v, &["batch".into(), seed.to_string(), from.to_string(), to.to_string()], limit)
}

/// (draws, observations); an abnormal end counts as an observation.
fn observe(v: &Variant, seed: u64, index: u64, draws: Option<&[u64]>) -> (Option<Vec<u64>>, String) {
    let mut a = vec!["case".to_string(), seed.to_string(), index.to_string()];
    if let Some(d) = draws {
        a.push(d.iter().map(u64::to_string).collect::<Vec<_>>().join(","));
    }
    match digest(v, &a, 60) {
        Ended::Ok(s) => {
            let (first, rest) = s.split_once('\n').unwrap_or(("", ""));
            (
                Some(first.split(',').filter_map(|x| x.parse().ok()).collect()),
                rest.to_string(),
            )
        }
        e => (None, format!("ended abnormally: {e:?}")),
    }
}

fn difference(a: &str, b: &str) -> String {
    let la: Vec<&str> = a.lines().collect();
    let lb: Vec<&str> = b.lines().collect();
    for i in 0..la.len().max(lb.len()) {
        let (x, y) = (la.get(i).unwrap_or(&"(nothing)"), lb.get(i).unwrap_or(&"(nothing)"));
        if x != y {
            let cut = |s: &str| s.chars().take(600).collect::<String>();
            return format!("line {i}: {} / {}", cut(x), cut(y));
        }
    }
    String::new()
}

/// The two variants disagree on these draws, reproducibly.
fn disagree(w: &Variant, seed: u64, index: u64, draws: Option<&[u64]>) -> Option<(Vec<u64>, String, String)> {
    let (da, a) = observe(&VARIANTS[0], seed, index, draws);
    let (db, b) = observe(w, seed, index, draws);
    if a == b {
        return None;
    }
    let (_, a2) = observe(&VARIANTS[0], seed, index, draws);
    let (_, b2) = observe(w, seed, index, draws);
    if a2 != a || b2 != b {
        return None;
    }
    da.or(db).map(|d| (d, a, b))
}

fn report(vi: usize, draws: &[u64], a: &str, b: &str, from: usize) -> Value {
    json!({
        "mode": "builds",
        "case": {"variant": vi, "draws": draws},
        "message": format!("{} and {} disagree: {}", label(&VARIANTS[0]), label(&VARIANTS[vi]), difference(a, b)),
        "observed_first": a, "observed_second": b,
        "tape_before_shrinking": from, "tape_after_shrinking": draws.len(),
    })
}

pub fn check(seed: u64, thorough: bool) -> i32 {
    let started = Instant::now();
    match build() {
        Ok(()) => {}
        Err((true, m)) => {
            return conclude(
                Some(json!({"mode": "build", "case": Value::Null, "message": m})),
                json!({"evaluations": CONFIGS.len(), "distinct": 0, "samples": []}),
                seed,
                thorough,
                started,
            );
        }
        Err((false, m)) => {
            eprintln!("{m}");
            return 2;
        }
    }
    let (chunk, chunks) = if thorough { (40_000, 30) } else { (20_000, 1) };
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut cases = 0u64;
    let mut runs = 0u64;
    let mut failure = None;
    'outer: for k in 0..chunks {
        let (from, to) = (k * chunk, (k + 1) * chunk);
        let outs: Vec<Ended> = VARIANTS.iter().map(|v| batch(v, seed, from, to, 240)).collect();
        let Some(reference) = outs.iter().find_map(|o| if let Ended::Ok(s) = o { Some(s) } else { None }) else {
            eprintln!("no build gets through the cases: {:?}", outs.first());
            return 2;
        };
        for l in reference.lines() {
            let mut it = l.split(' ');
            let (Some(_), Some(h), Some(len)) = (it.next(), it.next(), it.next()) else { continue };
            cases += 1;
            if len.parse::<usize>().unwrap_or(0) > 200 {
                hashes.insert(hash_of(h));
            }
        }
        for (vi, o) in outs.iter().enumerate() {
            runs += 1;
            let suspects: Vec<u64> = match o {
                Ended::Ok(s) if s == reference => continue,
                Ended::Ok(s) => reference
                    .lines()
                    .zip(s.lines())
                    .filter(|(a, b)| a != b)
                    .filter_map(|(a, _)| a.split(' ').next().and_then(|i| i.parse().ok()))
                    .take(20)
                    .collect(),
                _ => {
                    // find the case that ends this build
                    let (mut lo, mut hi) = (from, to);
                    while hi - lo > 1 {
                        let mid = lo + (hi - lo) / 2;
                        if matches!(batch(&VARIANTS[vi], seed, lo, mid, 60), Ended::Ok(_)) {
                            lo = mid;
                        } else {
                            hi = mid;
                        }
                    }
                    vec![lo]
                }
            };
            // variant 0 is the yardstick; when it is the odd one out, compare it with another
            let w = if vi == 0 { 1 } else { vi };
            for i in suspects {
                if let Some((draws, a, b)) = disagree(&VARIANTS[w], seed, i, None) {
                    failure = Some(minimise(w, seed, draws, a, b));
                    break 'outer;
                }
            }
        }
    }
    let samples: Vec<Value> = [0u64, 1, 2]
        .iter()
        .map(|i| {
            let (_, o) = observe(&VARIANTS[0], seed, *i, None);
            json!({"case": i, "observed": o.chars().take(900).collect::<String>()})
        })
        .collect();
    conclude(
        failure,
        json!({"evaluations": cases, "distinct": hashes.len(), "samples": samples, "runs": runs,
               "builds": VARIANTS.iter().map(label).collect::<Vec<_>>()}),
        seed,
        thorough,
        started,
    )
}

fn minimise(w: usize, seed: u64, draws: Vec<u64>, a: String, b: String) -> Value {
    let from = draws.len();
    let t0 = Instant::now();
    let mut best = (draws.clone(), a, b);
    let _ = tape::shrink(draws, 600, |cand| {
        if t0.elapsed().as_secs() > 60 {
            return None;
        }
        let (d, a, b) = disagree(&VARIANTS[w], seed, 0, Some(cand))?;
        best = (d.clone(), a, b);
        Some(d)
    });
    report(w, &best.0, &best.1, &best.2, from)
}

fn conclude(failure: Option<Value>, cov: Value, seed: u64, thorough: bool, started: Instant) -> i32 {
    let ev = json!({
        "property": "C24",
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cov["evaluations"], "distinct_nontrivial": cov["distinct"],
            "rule": "generated texts and grammars read, printed, validated, parsed, generated from with every strategy, edited and rendered by five builds (six runs) of the library; full observations compared case by case. Non-trivial: more than 200 bytes observed; distinct by the observations",
            "runs": cov["runs"], "builds": cov["builds"], "samples": cov["samples"],
        },
        "assumptions": ["parse error messages and the order of names in a validation error are not compared"],
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": u64::from(failure.is_some()),
    });
    if !run::write_evidence("C24", &ev) {
        eprintln!("cannot write evidence");
        return 2;
    }
    run::finish("C24", failure, &cov, started)
}

pub fn replay(v: &Value) -> i32 {
    if let Err((bug, m)) = build() {
        println!("{m}");
        return if bug { 1 } else { 2 };
    }
    let vi = v["case"]["variant"].as_u64().unwrap_or(1) as usize;
    let draws: Vec<u64> = v["case"]["draws"]
        .as_array()
        .map(|a| a.iter().filter_map(Value::as_u64).collect())
        .unwrap_or_default();
    match disagree(&VARIANTS[vi.min(VARIANTS.len() - 1)], 0, 0, Some(&draws)) {
        Some((_, a, b)) => {
            println!("violated: {}", difference(&a, &b));
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

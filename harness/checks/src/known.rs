//! Genuine defects that are recorded rather than repaired: each is one specific input, probed in a
//! process of its own. Probes listed in known_findings.txt print a KNOWN-FINDING line while they
//! fail; a probe that fails and is not listed is a violation.
use crate::tool::{self, Ended};
use crate::{guard, run};
use bnf::{DepthBounded, Grammar, Production};
use serde_json::{Value, json};
use std::path::Path;
use std::process::Command;
use std::sync::atomic::Ordering;
use std::time::Duration;

struct Probe {
    name: &'static str,
    property: &'static str,
    test: fn() -> Result<(), String>,
}

const PROBES: [Probe; 4] = [
    Probe {
        name: "cyclic-reject",
        property: "C02",
        test: cyclic_reject,
    },
    Probe {
        name: "deep-groups",
        property: "C08",
        test: deep_groups,
    },
    Probe {
        name: "split-rule",
        property: "C13",
        test: split_rule,
    },
    Probe {
        name: "depth-bounded-escape",
        property: "C13",
        test: depth_bounded_escape,
    },
];

fn cyclic_reject() -> Result<(), String> {
    let g: Grammar = "<s> ::= <a> 'x'\n<a> ::= <a> | 'z'".parse().map_err(|e| format!("{e}"))?;
    let p = g.build_parser().map_err(|e| format!("{e}"))?;
    match p.parse_input("z").next() {
        None => Ok(()),
        Some(t) => Err(format!("a tree for an underivable input: {t}")),
    }
}

fn deep_groups() -> Result<(), String> {
    let text = format!("<s> ::= {}'x'{}", "(".repeat(100_000), ")".repeat(100_000));
    let _ = text.parse::<Grammar>();
    Ok(())
}

fn split_rule() -> Result<(), String> {
    let mut g = Grammar::new();
    for t in ["<s> ::= <s>", "<s> ::= 'x'"] {
        g.add_production(t.parse::<Production>().map_err(|e| format!("{e}"))?);
    }
    match g.generate() {
        Ok(s) if s == "x" => Ok(()),
        r => Err(format!("{r:?}")),
    }
}

fn depth_bounded_escape() -> Result<(), String> {
    let g: Grammar = "<s> ::= <a> | <s> <s> <s>\n<a> ::= 'x'".parse().map_err(|e| format!("{e}"))?;
    let mut s = DepthBounded::from_seed(1, [3; 32]);
    g.generate_seeded_with_strategy(&mut s).map(|_| ()).map_err(|e| format!("{e}"))
}

/// Exit 0: the property holds on this input.
pub fn probe(name: &str) -> i32 {
    let Some(p) = PROBES.iter().find(|p| p.name == name) else { return 2 };
    guard::LIMIT.store(1 << 30, Ordering::Relaxed);
    let test = p.test;
    let r = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            guard::begin();
            test()
        })
        .expect("thread")
        .join();
    match r {
        Ok(Ok(())) => 0,
        Ok(Err(e)) => {
            println!("{e}");
            1
        }
        Err(_) => 3,
    }
}

fn listed(property: &str, name: &str) -> Option<String> {
    let text = std::fs::read_to_string(run::verif_dir().join("known_findings.txt")).ok()?;
    let head = format!("known: property={property} probe={name} ");
    text.lines().find_map(|l| l.strip_prefix(&head).map(str::to_string))
}

/// KNOWN-FINDING lines, and a violation when a probe fails that is not listed.
pub fn run(id: &str, exe: &Path) -> (Vec<String>, Option<Value>) {
    let mut lines = vec![];
    let mut violation = None;
    for p in PROBES.iter().filter(|p| p.property == id) {
        let e = tool::run(Command::new(exe).args(["known", p.name]), Duration::from_secs(60));
        let how = match e {
            Ended::Ok(_) => continue,
            Ended::NotStarted(_) | Ended::Exit(2) => {
                eprintln!("probe {} could not run", p.name);
                continue;
            }
            Ended::Exit(guard::EXIT_ALLOC) | Ended::Timeout => "does not end".to_string(),
            Ended::Signal(_) => "overflows the stack".to_string(),
            Ended::Exit(c) => format!("fails (exit {c})"),
        };
        match listed(id, p.name) {
            Some(what) => lines.push(format!("KNOWN-FINDING: property={id} {what} [{how}]")),
            None => {
                violation = Some(json!({"mode": "probe", "case": p.name,
                    "message": format!("probe {} {how}, and it is not a listed finding", p.name)}));
            }
        }
    }
    (lines, violation)
}

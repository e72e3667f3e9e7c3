//! C23: generated macro invocations compiled into one program, whose values are compared with
//! the model and with reading the equivalent text.
use crate::run;
use crate::tool::{self, Ended};
use model::ast::*;
use model::gener;
use model::hash_of;
use model::tape::{Tape, mix};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write;
use std::path::PathBuf;
use std::process::Command;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Tok {
    /// `<name>`
    N(String),
    /// literal source and the text it stands for
    T(String, String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Rule {
    lhs: String,
    alts: Vec<Vec<Tok>>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Term,
    Expression,
    Production,
    Grammar,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    rules: Vec<Rule>,
    trailing: bool,
    /// layout between tokens, cycled through
    gaps: Vec<String>,
    /// `[ ]`, `{ }` or `( )` around the macro's argument
    bracket: u8,
}

const NAMES: [&str; 24] = [
    "s", "a", "b", "c", "x1", "_u", "__anon0", "fn", "type", "match", "prods", "exprs", "expressions", "productions",
    "last_exprs", "vec", "Term", "Grammar", "String", "true", "été", "日本", "ident", "self",
];

fn name(t: &mut Tape) -> String {
    (*t.pick(&NAMES)).to_string()
}

fn literal(t: &mut Tape) -> Tok {
    match t.weighted(&[10, 6, 4, 2, 2, 1]) {
        0 => {
            let v = (*t.pick(&["x", "y", "z", "", "+", "ab", "<a>", "|", ";"])).to_string();
            Tok::T(format!("{v:?}"), v)
        }
        1 => {
            let v = gener::quotable(t, 8, 3);
            Tok::T(format!("{v:?}"), v)
        }
        2 => {
            let v: String = gener::quotable(t, 8, 3).replace('\r', "");
            let h = "#".repeat(v.matches('#').count() + 1);
            if v.contains('\n') || h.len() > 200 {
                Tok::T(format!("{v:?}"), v)
            } else {
                Tok::T(format!("r{h}\"{v}\"{h}"), v)
            }
        }
        3 => {
            let c = *t.pick(&gener::ODD);
            Tok::T(format!("{c:?}"), c.to_string())
        }
        4 => {
            let v = *t.pick(&[0u32, 1, 7, 42, 100, 2_000_000_000]);
            Tok::T(format!("{v}"), v.to_string())
        }
        _ => {
            // an escape that Debug would not choose
            let (s, v) = *t.pick(&[("\"\\x41\"", "A"), ("\"\\u{3b1}b\"", "αb"), ("\"a\\tb\"", "a\tb"), ("\"\\\\\"", "\\")]);
            Tok::T(s.to_string(), v.to_string())
        }
    }
}

fn tok(t: &mut Tape) -> Tok {
    if t.chance(1, 2) { Tok::N(name(t)) } else { literal(t) }
}

fn alt(t: &mut Tape) -> Vec<Tok> {
    let empty = t.chance(1, 10);
    t.list(usize::from(!empty), 7, 1, |t, _| tok(t))
}

fn make(t: &mut Tape) -> Case {
    let kind = [Kind::Term, Kind::Expression, Kind::Production, Kind::Grammar][t.weighted(&[1, 2, 4, 6])];
    let rules = match kind {
        Kind::Term => vec![Rule {
            lhs: String::new(),
            // a bare word is a terminal in term!
            alts: vec![vec![if t.chance(1, 4) {
                let w = *t.pick(&["x", "abc", "_u", "été", "If", "prods"]);
                Tok::T(w.to_string(), w.to_string())
            } else {
                tok(t)
            }]],
        }],
        Kind::Expression => vec![Rule {
            lhs: String::new(),
            alts: vec![t.list(1, 12, 3, |t, _| tok(t))],
        }],
        Kind::Production => vec![Rule {
            lhs: name(t),
            alts: t.list(1, 6, 2, |t, _| alt(t)),
        }],
        Kind::Grammar => t.list(0, 6, 3, |t, _| Rule {
            lhs: name(t),
            alts: t.list(1, 4, 1, |t, _| alt(t)),
        }),
    };
    Case {
        kind,
        trailing: kind == Kind::Grammar && !rules.is_empty() && t.chance(1, 2),
        rules,
        gaps: t.list(1, 4, 1, |t, _| (*t.pick(&[" ", "  ", "\t", " /* | ; <x> */ "])).to_string()),
        bracket: t.below(3) as u8,
    }
}

impl Case {
    fn source(&self) -> String {
        let mut toks: Vec<String> = vec![];
        for (i, r) in self.rules.iter().enumerate() {
            if i > 0 {
                toks.push(";".into());
            }
            if matches!(self.kind, Kind::Production | Kind::Grammar) {
                toks.push(format!("<{}>", r.lhs));
                toks.push("::=".into());
            }
            for (j, a) in r.alts.iter().enumerate() {
                if j > 0 {
                    toks.push("|".into());
                }
                for x in a {
                    toks.push(match x {
                        Tok::N(s) => format!("<{s}>"),
                        Tok::T(src, _) => src.clone(),
                    });
                }
            }
        }
        if self.trailing {
            toks.push(";".into());
        }
        let mut body = String::new();
        for (k, x) in toks.iter().enumerate() {
            if k > 0 {
                body.push_str(self.gaps.get(k % self.gaps.len().max(1)).map_or(" ", String::as_str));
            }
            body.push_str(x);
        }
        let name = match self.kind {
            Kind::Term => "term",
            Kind::Expression => "expression",
            Kind::Production => "production",
            Kind::Grammar => "grammar",
        };
        match self.bracket {
            0 => format!("bnf::{name}!({body})"),
            1 => format!("bnf::{name}![{body}]"),
            _ => format!("bnf::{name}!{{{body}}}"),
        }
    }
    fn prods(&self) -> Vec<MProd> {
        self.rules
            .iter()
            .map(|r| MProd {
                lhs: n(&r.lhs),
                alts: r
                    .alts
                    .iter()
                    .map(|a| {
                        a.iter()
                            .map(|x| match x {
                                Tok::N(s) => n(s),
                                Tok::T(_, v) => t(v),
                            })
                            .collect()
                    })
                    .collect(),
            })
            .collect()
    }
    /// The equivalent text, where there is one.
    fn text(&self) -> Option<String> {
        let p = self.prods();
        if p.is_empty() || p.iter().any(|p| p.alts.iter().any(Vec::is_empty)) {
            return None;
        }
        let e = |a: &MExpr| a.iter().map(MTerm::render).collect::<Vec<_>>().join(" ");
        Some(match self.kind {
            Kind::Term | Kind::Expression => e(&p[0].alts[0]),
            _ => bnf_text(&MGrammar { prods: p }),
        })
    }
    /// What the program prints for it.
    fn expected(&self) -> String {
        let e = |a: &MExpr| {
            a.iter()
                .map(|x| match x {
                    MTerm::N(s) => format!("N{s:?}"),
                    MTerm::T(s) => format!("T{s:?}"),
                })
                .collect::<Vec<_>>()
                .join(" ")
        };
        let p = self.prods();
        let body = match self.kind {
            Kind::Term | Kind::Expression => e(&p[0].alts[0]),
            _ => p
                .iter()
                .map(|p| {
                    format!(
                        "N{:?} = {}",
                        p.lhs.text(),
                        p.alts.iter().map(|a| format!("[{}]", e(a))).collect::<Vec<_>>().join("")
                    )
                })
                .collect::<Vec<_>>()
                .join("; "),
        };
        format!("{body}{}", if self.text().is_some() { " same" } else { "" })
    }
    fn size(&self) -> usize {
        self.source().len() + self.rules.len() * 4
    }
    /// Cases one step smaller.
    fn smaller(&self) -> Vec<Case> {
        let mut v = vec![];
        let mut push = |c: Case| {
            if c.size() < self.size() {
                v.push(c);
            }
        };
        let edit = |f: &dyn Fn(&mut Case)| {
            let mut c = self.clone();
            f(&mut c);
            c
        };
        push(edit(&|c| c.trailing = false));
        push(edit(&|c| c.gaps = vec![" ".into()]));
        push(edit(&|c| c.bracket = 0));
        for i in 0..self.rules.len() {
            if self.kind == Kind::Grammar {
                push(edit(&|c| {
                    c.rules.remove(i);
                    c.trailing &= !c.rules.is_empty();
                }));
            }
            for j in 0..self.rules[i].alts.len() {
                if self.rules[i].alts.len() > 1 {
                    push(edit(&|c| {
                        c.rules[i].alts.remove(j);
                    }));
                }
                for k in 0..self.rules[i].alts[j].len() {
                    if self.kind != Kind::Term && (self.rules[i].alts[j].len() > 1 || self.kind != Kind::Expression) {
                        push(edit(&|c| {
                            c.rules[i].alts[j].remove(k);
                        }));
                    }
                    push(edit(&|c| {
                        c.rules[i].alts[j][k] = match &self.rules[i].alts[j][k] {
                            Tok::N(_) => Tok::N("a".into()),
                            Tok::T(..) => Tok::T("\"x\"".into(), "x".into()),
                        }
                    }));
                }
            }
            if self.rules[i].lhs.len() > 1 {
                push(edit(&|c| c.rules[i].lhs = "s".into()));
            }
        }
        v.sort_by_key(Case::size);
        v
    }
}

const PRELUDE: &str = r#"#![recursion_limit = "2048"]
#![allow(warnings, text_direction_codepoint_in_literal)]
fn t(x: &bnf::Term) -> String {
    match x {
        bnf::Term::Terminal(s) => format!("T{s:?}"),
        bnf::Term::Nonterminal(s) => format!("N{s:?}"),
    }
}
fn e(x: &bnf::Expression) -> String {
    x.terms_iter().map(t).collect::<Vec<_>>().join(" ")
}
fn p(x: &bnf::Production) -> String {
    format!("{} = {}", t(&x.lhs), x.rhs_iter().map(|a| format!("[{}]", e(a))).collect::<String>())
}
fn g(x: &bnf::Grammar) -> String {
    x.productions_iter().map(p).collect::<Vec<_>>().join("; ")
}
fn same<T: std::str::FromStr + PartialEq>(x: &T, text: &str) -> &'static str {
    if text.is_empty() { "" } else if text.parse::<T>().is_ok_and(|y| y == *x) { " same" } else { " DIFFERS" }
}
"#;

fn dir() -> PathBuf {
    run::verif_dir().join("build/macros")
}

fn program(cases: &[Case]) -> String {
    let mut s = PRELUDE.to_string();
    for (i, c) in cases.iter().enumerate() {
        let d = match c.kind {
            Kind::Term => "t",
            Kind::Expression => "e",
            Kind::Production => "p",
            Kind::Grammar => "g",
        };
        let _ = writeln!(
            s,
            "fn c{i}() -> String {{ let v = {}; format!(\"{{}}{{}}\", {d}(&v), same(&v, {:?})) }}",
            c.source(),
            c.text().unwrap_or_default()
        );
    }
    s.push_str("fn main() {\n");
    for i in 0..cases.len() {
        let _ = writeln!(
            s,
            "println!(\"{i} {{}}\", std::panic::catch_unwind(c{i}).unwrap_or_else(|_| \"PANIC\".into()));"
        );
    }
    s.push_str("}\n");
    s
}

fn first_line() -> usize {
    PRELUDE.lines().count() + 1
}

/// Index of each failing case with what went wrong.
fn evaluate(cases: &[Case]) -> Result<BTreeMap<usize, String>, String> {
    let d = dir();
    let _lock = tool::lock(&run::verif_dir().join("build"));
    std::fs::create_dir_all(d.join("src")).map_err(|e| e.to_string())?;
    let write = |rel: &str, body: &str| std::fs::write(d.join(rel), body).map_err(|e| e.to_string());
    write(
        "Cargo.toml",
        "[package]\nname = \"macros\"\nversion = \"0.1.0\"\nedition = \"2024\"\n\n[workspace]\n\n[dependencies]\nbnf = { path = \"/repo\", default-features = false }\n\n[profile.dev]\ndebug = false\nincremental = false\n",
    )?;
    if let Ok(lock) = std::fs::read(run::verif_dir().join("digest/Cargo.lock")) {
        // pins the versions that are cached; cargo drops what is not needed
        if !d.join("Cargo.lock").exists() {
            let _ = std::fs::write(d.join("Cargo.lock"), lock);
        }
    }
    write("src/main.rs", &program(cases))?;
    let target = d.join("target");
    let r = tool::cargo_build(&d, &target, false, &["--message-format".into(), "short".into()]);
    let mut bad = BTreeMap::new();
    if let Err(log) = r {
        for l in log.lines() {
            let Some(rest) = l.strip_prefix("src/main.rs:") else { continue };
            let Some((line, msg)) = rest.split_once(':') else { continue };
            let Ok(line) = line.parse::<usize>() else { continue };
            if let Some(i) = line.checked_sub(first_line())
                && i < cases.len()
                && msg.contains("error")
            {
                bad.entry(i).or_insert_with(|| format!("does not compile: {msg}"));
            }
        }
        return if bad.is_empty() { Err(log) } else { Ok(bad) };
    }
    let out = match tool::run(&mut Command::new(target.join("debug/macros")), Duration::from_secs(120)) {
        Ended::Ok(s) => s,
        e => return Err(format!("the program ended abnormally: {e:?}")),
    };
    let lines: Vec<&str> = out.lines().collect();
    for (i, c) in cases.iter().enumerate() {
        let got = lines.get(i).and_then(|l| l.split_once(' ')).map_or("", |x| x.1);
        let want = c.expected();
        if got != want {
            bad.insert(i, format!("builds\n  {got}\ninstead of\n  {want}"));
        }
    }
    Ok(bad)
}

pub fn build() -> Result<(), String> {
    evaluate(&[]).map(|_| ())
}

fn failing(c: &Case, msg: &str, from: usize) -> Value {
    json!({"mode": "macros", "case": c, "message": format!("{} {msg}", c.source()),
           "size_before_shrinking": from, "size_after_shrinking": c.size()})
}

pub fn check(seed: u64, thorough: bool) -> i32 {
    let started = Instant::now();
    let (batches, per) = if thorough { (24u64, 600u64) } else { (2, 600) };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut labels: BTreeMap<&str, u64> = BTreeMap::new();
    let mut evaluations = 0;
    let mut samples = vec![];
    let mut failure = None;
    for b in 0..batches {
        let cases: Vec<Case> = (0..per)
            .map(|i| make(&mut Tape::random(mix(seed ^ 0xC23) ^ mix(b * per + i))))
            .collect();
        for c in &cases {
            evaluations += 1;
            *labels
                .entry(match c.kind {
                    Kind::Term => "term!",
                    Kind::Expression => "expression!",
                    Kind::Production => "production!",
                    Kind::Grammar => "grammar!",
                })
                .or_default() += 1;
            if c.rules.len() > 1 || c.rules.iter().any(|r| r.alts.len() > 1) {
                *labels.entry("several rules or alternatives").or_default() += 1;
            }
            if c.text().is_some() {
                *labels.entry("compared with the text as well").or_default() += 1;
            }
            if c.rules.iter().flat_map(|r| r.alts.iter().flatten()).count() >= 2 {
                seen.insert(hash_of(c));
            }
        }
        if b == 0 {
            samples = cases.iter().filter(|c| c.rules.len() > 1).take(4).map(|c| json!(c.source())).collect();
        }
        let bad = match evaluate(&cases) {
            Ok(b) => b,
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        };
        if let Some((i, m)) = bad.iter().min_by_key(|(i, _)| cases[**i].size()) {
            let from = cases[*i].size();
            let (mut best, mut msg) = (cases[*i].clone(), m.clone());
            for _ in 0..15 {
                if started.elapsed().as_secs() > 240 {
                    break;
                }
                let cand = best.smaller();
                let Ok(bad) = evaluate(&cand) else { break };
                let Some((i, m)) = bad.into_iter().next() else { break };
                best = cand[i].clone();
                msg = m;
            }
            failure = Some(failing(&best, &msg, from));
            break;
        }
    }
    let ev = json!({
        "property": "C23",
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": seen.len(),
            "rule": "generated invocations of the four macros (names incl. keywords and Unicode, string, raw, char and integer literals, empty alternatives, trailing semicolon, three kinds of brackets, comments between tokens) compiled against the library; each value compared with the model and, where the text exists, with reading it. Non-trivial: at least two terms",
            "classes": labels, "samples": samples,
        },
        "assumptions": ["invocations are compiled with a raised recursion_limit"],
        "wall_s": started.elapsed().as_secs_f64(),
        "violations": u64::from(failure.is_some()),
    });
    if !run::write_evidence("C23", &ev) {
        return 2;
    }
    run::finish("C23", failure, &json!({"evaluations": evaluations, "distinct": seen.len()}), started)
}

pub fn replay(v: &Value) -> i32 {
    let Ok(c) = serde_json::from_value::<Case>(v["case"].clone()) else {
        eprintln!("unreadable case");
        return 2;
    };
    match evaluate(std::slice::from_ref(&c)) {
        Ok(b) if b.is_empty() => {
            println!("holds");
            0
        }
        Ok(b) => {
            println!("violated: {} {}", c.source(), b.values().next().map_or("", String::as_str));
            1
        }
        Err(e) => {
            eprintln!("{e}");
            2
        }
    }
}

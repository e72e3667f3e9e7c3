//! Prints what the library makes of generated cases, for comparison between builds with different
//! features and profiles. The cases depend on the seed only.
//!   digest batch SEED FROM TO      one line "index hash length" per case
//!   digest case SEED INDEX TAPE?   the draws made, then everything observed for one case
//!                                  (TAPE: comma-separated draws)
//! With DIGEST_SUBSCRIBE set (feature tracing), a subscriber formats every event and span.
use bnf::rand::SeedableRng;
use bnf::rand::rngs::StdRng;
use bnf::{
    BNF, CoverageGuided, DepthBounded, Error, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Term, Weighted,
};
use model::ast::*;
use model::extend::{self, XOpts};
use model::gener::{self, Opts};
use model::hash_of;
use model::oracle::{Analyser, Flat};
use model::tape::{Tape, mix};
use std::fmt::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

struct Capped<S> {
    inner: S,
    left: usize,
}
impl<S: GenerationStrategy> GenerationStrategy for Capped<S> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        self.left = self.left.checked_sub(1)?;
        self.inner.choose(p, depth)
    }
}

fn kind(e: &Error) -> &'static str {
    match e {
        Error::ParseError(_) => "parse error",
        Error::GenerateError(_) => "generate error",
        Error::ValidationError(_) => "validation error",
        _ => "other error",
    }
}
fn show<T: std::fmt::Debug>(r: &Result<T, Error>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        // which undefined nonterminals a validation error lists first is left open
        Err(Error::GenerateError(e)) => format!("generate error {e}"),
        Err(e) => kind(e).to_string(),
    }
}
fn guarded(out: &mut String, what: &str, f: impl FnOnce(&mut String)) {
    let _ = write!(out, "{what}: ");
    let mut s = String::new();
    if catch_unwind(AssertUnwindSafe(|| f(&mut s))).is_err() {
        s.push_str("PANIC");
    }
    out.push_str(&s);
    out.push('\n');
}

fn seed32(s: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (k, ch) in out.chunks_exact_mut(8).enumerate() {
        ch.copy_from_slice(&mix(s ^ (k as u64) << 56).to_le_bytes());
    }
    out
}

fn term(t: &MTerm) -> Term {
    match t {
        MTerm::T(s) => Term::Terminal(s.clone()),
        MTerm::N(s) => Term::Nonterminal(s.clone()),
    }
}
fn build(g: &MGrammar) -> Grammar {
    Grammar::from_parts(
        g.prods
            .iter()
            .map(|p| {
                Production::from_parts(
                    term(&p.lhs),
                    p.alts.iter().map(|a| Expression::from_parts(a.iter().map(term).collect())).collect(),
                )
            })
            .collect(),
    )
}
fn unbuild(g: &Grammar) -> MGrammar {
    let un = |t: &Term| match t {
        Term::Terminal(s) => MTerm::T(s.clone()),
        Term::Nonterminal(s) => MTerm::N(s.clone()),
    };
    MGrammar {
        prods: g
            .productions_iter()
            .map(|p| MProd {
                lhs: un(&p.lhs),
                alts: p.rhs_iter().map(|e| e.terms_iter().map(un).collect()).collect(),
            })
            .collect(),
    }
}

fn reading(t: &mut Tape, out: &mut String) {
    let odd = t.chance(1, 3);
    let x = extend::xgrammar(
        t,
        &XOpts {
            max_nts: 4,
            max_depth: 2,
            abnf_names: false,
            odd,
            incr: true,
            group_pct: 20,
        },
    );
    let tame = t.chance(1, 4);
    let mut text = extend::spell(t, extend::BNF, &x, tame);
    if t.chance(1, 3) {
        text = gener::mangle(t, &text);
    }
    let _ = writeln!(out, "text: {text:?}");
    guarded(out, "explicit BNF", |o| o.push_str(&show(&Grammar::parse_from::<BNF>(&text))));
    if text.starts_with('<') {
        guarded(out, "detected", |o| o.push_str(&show(&text.parse::<Grammar>())));
    }
    guarded(out, "production", |o| o.push_str(&show(&text.parse::<Production>())));
    guarded(out, "expression", |o| o.push_str(&show(&text.parse::<Expression>())));
    guarded(out, "term", |o| o.push_str(&show(&text.parse::<Term>())));
    if let Ok(Ok(g)) = catch_unwind(|| Grammar::parse_from::<BNF>(&text)) {
        using(t, &g, out);
    }
}

fn using(t: &mut Tape, g: &Grammar, out: &mut String) {
    guarded(out, "printed", |o| {
        let _ = write!(o, "{g}");
    });
    guarded(out, "debug", |o| {
        let _ = write!(o, "{g:?}");
    });
    guarded(out, "validate", |o| o.push_str(&show(&g.validate())));
    guarded(out, "build", |o| o.push_str(&show(&g.build_parser().map(|_| ()))));
    let m = unbuild(g);
    for _ in 0..2 {
        let Some(start) = m.nonterminals().first().map(|s| (*s).to_string()) else { break };
        let input = gener::input_for(t, &m, &start, 14);
        let flat = Flat::new(&m);
        let Some(h) = m.prods.first().and_then(|p| flat.head(&p.lhs)) else { break };
        let a = Analyser::new(&flat, &input).analyse(h);
        let _ = writeln!(out, "input: {input:?}");
        if a.cyclic || a.items > 4000 || a.trees > 200 {
            continue;
        }
        guarded(out, "trees", |o| {
            if let Ok(p) = g.build_parser() {
                for tree in p.parse_input(&input).take(12) {
                    let _ = write!(o, "{tree}{}", tree.mermaid());
                }
            }
        });
        guarded(out, "deprecated", |o| {
            #[allow(deprecated)]
            let n = g.parse_input(&input).count();
            let _ = write!(o, "{n}");
        });
    }
    let s = t.draw(1 << 32);
    let seed = seed32(s);
    let d = t.below(4);
    guarded(out, "random walk", |o| generate(g, RandomWalk::from_seed(seed), o));
    guarded(out, "depth bounded", |o| generate(g, DepthBounded::from_seed(d, seed), o));
    guarded(out, "coverage guided", |o| generate(g, CoverageGuided::from_seed(seed), o));
    let w = [0u32, 1, 3, 1000, u32::MAX];
    let (a, b) = (*t.pick(&w), *t.pick(&w));
    guarded(out, "weighted", |o| generate(g, Weighted::from_seed(a, b, seed), o));
    guarded(out, "default coverage", |o| generate(g, CoverageGuided::new(), o));
    guarded(out, "default weighted", |o| generate(g, Weighted::new(a, b), o));
    let tame = m.prods.iter().all(|p| {
        let k = p.alts.iter().flatten().filter(|x| matches!(x, MTerm::N(_))).count();
        4 * k <= 3 * p.alts.len()
    });
    if tame {
        guarded(out, "seeded", |o| {
            let mut rng = StdRng::from_seed(seed);
            for _ in 0..3 {
                let _ = write!(o, "{} ", show(&g.generate_seeded(&mut rng)));
                let _ = write!(o, "{} ", show(&g.generate_seeded_callback(&mut rng, |_, _| true)));
            }
        });
    }
}

fn generate<S: GenerationStrategy>(g: &Grammar, inner: S, o: &mut String) {
    let mut s = Capped { inner, left: 0 };
    for _ in 0..3 {
        s.left = 200;
        let _ = write!(o, "{} ", show(&g.generate_seeded_with_strategy(&mut s)));
    }
    s.left = 200;
    let calls = std::cell::Cell::new(0);
    let r = g.generate_seeded_callback_with_strategy(
        |n, t| {
            calls.set(calls.get() + 1);
            hash_of(&(n, t)) % 8 != 0
        },
        &mut s,
    );
    let _ = write!(o, "{} after {} callbacks", show(&r), calls.get());
}

fn editing(t: &mut Tape, g: &mut Grammar, out: &mut String) {
    let terms = [term(&n("s")), term(&n("a")), term(&model::ast::t("x"))];
    guarded(out, "edited", |o| {
        for _ in 0..t.range(0, 6) {
            let k = t.below(3);
            let x = terms[t.below(3)].clone();
            if let Some(p) = g.productions_iter_mut().nth(k) {
                match t.below(4) {
                    0 => p.add_to_rhs(x.clone() + x),
                    1 => {
                        if let Some(e) = p.rhs_iter_mut().next() {
                            e.add_term(x);
                        }
                    }
                    2 => {
                        if let Some(e) = p.rhs_iter_mut().last() {
                            let _ = write!(o, "{:?} ", e.remove_term(&x));
                        }
                    }
                    _ => {
                        let e = p.rhs_iter().next().cloned();
                        let _ = write!(o, "{:?} ", e.and_then(|e| p.remove_from_rhs(&e)));
                    }
                }
            }
        }
        let _ = write!(o, "{g}");
    });
}

fn observe(t: &mut Tape) -> String {
    let mut out = String::new();
    match t.below(3) {
        0 => reading(t, &mut out),
        1 => {
            let m = gener::random_grammar(
                t,
                &Opts {
                    undefined: 30,
                    unproductive: 30,
                    ..Opts::default()
                },
            );
            let mut g = build(&m);
            using(t, &g, &mut out);
            editing(t, &mut g, &mut out);
            using(t, &g, &mut out);
        }
        _ => {
            let mut m = gener::template_grammar(t);
            match t.below(6) {
                1 => m.prods.clear(),
                2 => m.prods[0].alts.clear(),
                3 => m.prods[0].lhs = MTerm::T("t".into()),
                _ => {}
            }
            let mut g = build(&m);
            using(t, &g, &mut out);
            editing(t, &mut g, &mut out);
        }
    }
    out
}

#[cfg(feature = "tracing")]
mod subscriber {
    use std::fmt::{Debug, Write};
    use std::sync::atomic::{AtomicU64, Ordering};
    use tracing::field::{Field, Visit};
    use tracing::span::{Attributes, Id, Record};

    /// Enables everything and formats it, as a logging application would.
    pub struct Sink;
    struct Text(String);
    impl Visit for Text {
        fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
            let _ = write!(self.0, "{f}={v:?}");
        }
    }
    impl tracing::Subscriber for Sink {
        fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
            true
        }
        fn new_span(&self, a: &Attributes<'_>) -> Id {
            static NEXT: AtomicU64 = AtomicU64::new(1);
            a.record(&mut Text(String::new()));
            Id::from_u64(NEXT.fetch_add(1, Ordering::Relaxed))
        }
        fn record(&self, _: &Id, r: &Record<'_>) {
            r.record(&mut Text(String::new()));
        }
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, e: &tracing::Event<'_>) {
            let mut t = Text(String::new());
            e.record(&mut t);
            std::hint::black_box(t.0.len());
        }
        fn enter(&self, _: &Id) {}
        fn exit(&self, _: &Id) {}
    }
}

fn tape(seed: u64, index: u64) -> Tape {
    Tape::random(mix(seed ^ 0xC24) ^ mix(index))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(feature = "tracing")]
    if std::env::var_os("DIGEST_SUBSCRIBE").is_some() {
        let _ = tracing::subscriber::set_global_default(subscriber::Sink);
    }
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a.get(1).map(String::as_str) {
        Some("batch") => {
            let (seed, from, to) = (num(2), num(3), num(4));
            let lines: Vec<Vec<(u64, u64, usize)>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..8u64)
                    .map(|k| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || {
                                (from + k..to)
                                    .step_by(8)
                                    .map(|i| {
                                        let o = observe(&mut tape(seed, i));
                                        (i, hash_of(&o), o.len())
                                    })
                                    .collect()
                            })
                            .expect("thread")
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("thread")).collect()
            });
            let mut all: Vec<_> = lines.concat();
            all.sort_unstable();
            let mut out = String::new();
            for (i, h, l) in all {
                let _ = writeln!(out, "{i} {h:016x} {l}");
            }
            print!("{out}");
        }
        Some("case") => {
            let mut t = match a.get(4) {
                Some(d) => Tape::replay(d.split(',').filter_map(|x| x.parse().ok()).collect()),
                None => tape(num(2), num(3)),
            };
            let o = observe(&mut t);
            let used: Vec<String> = t.into_used().iter().map(u64::to_string).collect();
            println!("{}", used.join(","));
            print!("{o}");
        }
        _ => std::process::exit(2),
    }
}

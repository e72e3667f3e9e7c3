//! C12-C18: sentence generation and its strategies.
use crate::bridge;
use crate::fw::{CheckResult, Ctx, Property, mode};
use crate::guard;
use bnf::rand::SeedableRng;
use bnf::rand::rngs::StdRng;
use bnf::{
    CoverageGuided, DepthBounded, Error, Expression, GenerationStrategy, Grammar, Production, RandomWalk, Weighted,
};
use model::ast::*;
use model::gener::{self, Opts};
use model::genmodel::{self, Facts, Run, Step};
use model::hash_of;
use model::oracle::{Flat, recognise};
use model::tape::{Tape, mix};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

pub fn seed32(s: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for (k, ch) in out.chunks_exact_mut(8).enumerate() {
        ch.copy_from_slice(&mix(s ^ (k as u64) << 56).to_le_bytes());
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Random,
    Depth(usize),
    Coverage,
    Weighted(u32, u32),
}

/// One of the library's strategies behind a common type.
pub enum Strat {
    R(RandomWalk),
    D(DepthBounded),
    C(CoverageGuided),
    W(Weighted),
}
impl Strat {
    pub fn new(k: Kind, seed: u64) -> Self {
        let s = seed32(seed);
        match k {
            Kind::Random => Strat::R(RandomWalk::from_seed(s)),
            Kind::Depth(d) => Strat::D(DepthBounded::from_seed(d, s)),
            Kind::Coverage => Strat::C(CoverageGuided::from_seed(s)),
            Kind::Weighted(r, n) => Strat::W(Weighted::from_seed(r, n, s)),
        }
    }
    /// The constructors without a seed.
    pub fn unseeded(k: Kind) -> Self {
        match k {
            Kind::Random => Strat::R(RandomWalk::default()),
            Kind::Depth(d) => Strat::D(DepthBounded::new(d)),
            Kind::Coverage => Strat::C(CoverageGuided::new()),
            Kind::Weighted(r, n) => Strat::W(Weighted::new(r, n)),
        }
    }
}
impl GenerationStrategy for Strat {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        match self {
            Strat::R(s) => s.choose(p, depth),
            Strat::D(s) => s.choose(p, depth),
            Strat::C(s) => s.choose(p, depth),
            Strat::W(s) => s.choose(p, depth),
        }
    }
}

/// Index of the production, by identity if it is the grammar's own, else by value.
fn prod_index(g: &Grammar, p: &Production) -> Option<usize> {
    g.productions_iter()
        .position(|q| std::ptr::eq(q, p))
        .or_else(|| g.productions_iter().position(|q| q == p))
}
fn alt_index(p: &Production, e: &Expression) -> Option<usize> {
    p.rhs_iter()
        .position(|q| std::ptr::eq(q, e))
        .or_else(|| p.rhs_iter().position(|q| q == e))
}

/// Wraps a strategy: records what it was asked and answered, and declines once it has been asked
/// `limit` times (random walks over some grammars grow without bound).
pub struct Recorder<'a, S> {
    pub inner: S,
    pub g: &'a Grammar,
    pub log: Vec<(usize, usize, Option<usize>)>,
    pub limit: usize,
    pub tripped: bool,
    pub fault: Option<String>,
}
impl<'a, S> Recorder<'a, S> {
    pub fn new(inner: S, g: &'a Grammar, limit: usize) -> Self {
        Recorder {
            inner,
            g,
            log: vec![],
            limit,
            tripped: false,
            fault: None,
        }
    }
}
impl<S: GenerationStrategy> GenerationStrategy for Recorder<'_, S> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let Some(i) = prod_index(self.g, p) else {
            self.fault = Some(format!("strategy asked about {p}, which is not a production of the grammar"));
            return None;
        };
        if self.log.len() >= self.limit {
            self.tripped = true;
            self.log.push((i, depth, None));
            return None;
        }
        let e = self.inner.choose(p, depth);
        let a = e.and_then(|e| alt_index(p, e));
        if e.is_some() && a.is_none() {
            self.fault = Some(format!("the strategy picked something that is no alternative of {p}"));
        }
        self.log.push((i, depth, a));
        e
    }
}

fn tt(s: &str) -> MTerm {
    MTerm::T(s.to_string())
}

fn is_generate_error(e: &Error) -> bool {
    matches!(e, Error::GenerateError(_))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct GenCase {
    pub grammar: MGrammar,
    pub kind: Kind,
    pub seed: u64,
    pub calls: usize,
}

fn kind(t: &mut Tape) -> Kind {
    match t.weighted(&[3, 3, 3, 3]) {
        0 => Kind::Random,
        1 => Kind::Depth(t.range(0, 5)),
        2 => Kind::Coverage,
        _ => {
            let w = [1u32, 0, 2, 5, 100, u32::MAX];
            Kind::Weighted(*t.pick(&w), *t.pick(&w))
        }
    }
}

pub fn gen_grammar(t: &mut Tape) -> MGrammar {
    let undefined = *t.pick(&[0u64, 0, 50]);
    let unproductive = *t.pick(&[0u64, 0, 60]);
    let odd = t.chance(1, 5);
    let mut g = match t.weighted(&[10, 4, 1]) {
        0 => gener::random_grammar(
            t,
            &Opts {
                undefined,
                unproductive,
                odd,
                ..Opts::default()
            },
        ),
        1 => gener::template_grammar(t),
        _ => gener::big_grammar(t),
    };
    match t.below(40) {
        1 => {
            // a production without alternatives
            let i = t.below(g.prods.len());
            g.prods[i].alts.clear();
        }
        2 => {
            // only an alternative without terms
            let i = t.below(g.prods.len());
            g.prods[i].alts = vec![vec![]];
        }
        3 => {
            let i = t.below(g.prods.len());
            let s = g.prods[i].lhs.text().to_string();
            g.prods[i].lhs = MTerm::T(s);
        }
        4 => {
            let i = t.below(g.prods.len());
            let s = g.prods[i].lhs.clone();
            let at = t.below(g.prods.len() + 1);
            g.prods.insert(at, MProd { lhs: s, alts: vec![vec![MTerm::T("dup".into())]] });
        }
        5 => g.prods.truncate(t.below(2)),
        _ => {}
    }
    g
}

fn gen_case(t: &mut Tape) -> GenCase {
    let grammar = gen_grammar(t);
    GenCase {
        grammar,
        kind: kind(t),
        seed: t.draw(u64::MAX),
        calls: t.range(1, 3),
    }
}

/// The grammar in which an undefined nonterminal is the terminal `<name>`.
fn printed(g: &MGrammar) -> MGrammar {
    let und: HashSet<String> = g.undefined().iter().map(|s| (*s).to_string()).collect();
    let mut out = g.clone();
    for p in &mut out.prods {
        for x in p.alts.iter_mut().flatten() {
            if let MTerm::N(s) = x
                && und.contains(s)
            {
                *x = MTerm::T(format!("<{s}>"));
            }
        }
    }
    out
}

const STEPS: usize = 300;

/// What the recorded answers make of the grammar, by the reference model.
fn replay(g: &MGrammar, f: &Facts, log: &[(usize, usize, Option<usize>)]) -> (Result<String, ()>, Vec<Step>) {
    let mut k = 0;
    let mut run = Run {
        g,
        facts: f,
        log: vec![],
        max_steps: 4 * log.len() + 10,
    };
    let r = run.start(
        &mut |i, _| {
            let a = log.get(k).and_then(|(j, _, a)| if *j == i { *a } else { None });
            k += 1;
            a
        },
        &mut |_, _| true,
    );
    (r, run.log)
}

// ---------- C12 ----------

fn check_sentence(g: &MGrammar, gr: &Grammar, s: &str, ctx: &mut Ctx) -> CheckResult {
    if s.len() > 600 {
        ctx.label("long sentence, only compared with its expansion");
        return Ok(());
    }
    let pg = printed(g);
    let start = pg.prods[0].lhs.clone();
    let member = guard::uncounted(|| {
        let f = Flat::new(&pg);
        f.head(&start).is_some_and(|h| recognise(&f, h, s))
    });
    if !member {
        return Err(format!("generated {s:?}, which the grammar does not derive:\n{}", bnf_text(g)));
    }
    if g.undefined().is_empty() && s.len() <= 60 {
        let a = super::parse::analyse(g, &start, s);
        if !a.cyclic && a.items < 6000 {
            ctx.label("parsed back");
            let p = gr.build_parser().map_err(|e| format!("valid grammar refused: {e}"))?;
            if p.parse_input(s).next().is_none() {
                return Err(format!("generated {s:?} does not parse with its own grammar:\n{}", bnf_text(g)));
            }
        }
    }
    Ok(())
}

fn c12(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let f = genmodel::facts(&c.grammar);
    let mut rec = Recorder::new(Strat::new(c.kind, c.seed), &g, STEPS);
    for _ in 0..c.calls {
        rec.log.clear();
        rec.tripped = false;
        let r = g.generate_seeded_with_strategy(&mut rec);
        if let Some(e) = rec.fault {
            return Err(e);
        }
        let Ok(s) = r else {
            ctx.label_if(rec.tripped, "cut off after 300 choices");
            continue;
        };
        ctx.label("sentences");
        ctx.label(match c.kind {
            Kind::Random => "random walk",
            Kind::Depth(_) => "depth bounded",
            Kind::Coverage => "coverage guided",
            Kind::Weighted(..) => "weighted",
        });
        let und = c.grammar.undefined();
        ctx.label_if(und.iter().any(|u| s.contains(&format!("<{u}>"))), "with undefined nonterminals");
        ctx.label_if(!s.is_ascii(), "non-ASCII");
        check_sentence(&c.grammar, &g, &s, ctx)?;
        let want = replay(&c.grammar, &f, &rec.log).0;
        if want.as_ref() != Ok(&s) {
            return Err(format!(
                "the chosen alternatives spell {want:?} but generation returned {s:?} for\n{}",
                bnf_text(&c.grammar)
            ));
        }
        if rec.log.len() > 1 {
            ctx.nontrivial(hash_of(&(c, rec.log.len())));
        }
        ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "sentence": s, "choices": rec.log.len()}));
    }
    Ok(())
}

/// Sentences generated under a callback that turns texts down (a bounded number of times).
fn c12_callback(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let mut rec = Recorder::new(Strat::new(c.kind, c.seed), &g, STEPS);
    let quota = 1 + (c.seed % 9) as usize;
    for call in 0..c.calls {
        rec.log.clear();
        rec.tripped = false;
        let turned_down = std::cell::Cell::new(0usize);
        let f = |name: &str, text: &str| {
            let bad = turned_down.get() < quota && hash_of(&(name, text, turned_down.get(), c.seed, call)) % 3 == 0;
            if bad {
                turned_down.set(turned_down.get() + 1);
            }
            !bad
        };
        let r = g.generate_seeded_callback_with_strategy(f, &mut rec);
        if let Some(e) = rec.fault {
            return Err(e);
        }
        let mut out = vec![("generate_seeded_callback_with_strategy", r)];
        if tame(&c.grammar) {
            turned_down.set(0);
            let mut rng = StdRng::from_seed(seed32(c.seed));
            out.push(("generate_seeded_callback", g.generate_seeded_callback(&mut rng, f)));
            turned_down.set(0);
            out.push(("generate_callback", g.generate_callback(f)));
        }
        for (what, r) in out {
            match r {
                Ok(s) => {
                    ctx.label(what);
                    check_sentence(&c.grammar, &g, &s, ctx).map_err(|e| format!("{what}: {e}"))?;
                    ctx.label_if(turned_down.get() > 0, "after texts were turned down");
                    if turned_down.get() > 0 {
                        ctx.nontrivial(hash_of(c));
                    }
                }
                Err(e) if is_generate_error(&e) => ctx.label("generation error"),
                Err(e) => return Err(format!("{what}: not a generation error: {e}")),
            }
        }
    }
    Ok(())
}

/// Is a uniform random walk over this grammar sure to stay small? (Every rule expands to less than
/// one nonterminal on average, or there is no recursion at all and little branching.)
fn tame(g: &MGrammar) -> bool {
    g.prods.iter().all(|p| {
        let k = p.alts.iter().flatten().filter(|x| matches!(x, MTerm::N(_))).count();
        p.alts.is_empty() || 4 * k <= 3 * p.alts.len()
    })
}

/// Entry points without a strategy (two of them draw from the system's randomness).
fn c12_plain(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let mut out = vec![];
    let mut rng = StdRng::from_seed(seed32(c.seed));
    // the seeded entry points draw from the same walk; make sure it stays small
    if !tame(&c.grammar) {
        ctx.discard();
        return Ok(());
    }
    for _ in 0..c.calls {
        out.push(("generate", g.generate()));
        out.push(("generate_callback", g.generate_callback(|_, _| true)));
        out.push(("generate_seeded", g.generate_seeded(&mut rng)));
        out.push(("generate_seeded_callback", g.generate_seeded_callback(&mut rng, |_, _| true)));
        let mut s = Strat::unseeded(if matches!(c.kind, Kind::Depth(_)) { Kind::Depth(2) } else { Kind::Random });
        out.push(("with_strategy", g.generate_seeded_with_strategy(&mut s)));
    }
    for (what, r) in out {
        match r {
            Ok(s) => {
                ctx.label(what);
                check_sentence(&c.grammar, &g, &s, ctx).map_err(|e| format!("{what}: {e}"))?;
                ctx.nontrivial(hash_of(c));
            }
            Err(e) if is_generate_error(&e) => ctx.label("generation error"),
            Err(e) => return Err(format!("{what}: not a generation error: {e}")),
        }
    }
    Ok(())
}

fn tame_case(t: &mut Tape) -> GenCase {
    let grammar = loop {
        let g = gen_grammar(t);
        if tame(&g) || g.prods.is_empty() {
            break g;
        }
        // more ways out
        let mut g = g;
        for p in &mut g.prods {
            let k = p.alts.iter().flatten().filter(|x| matches!(x, MTerm::N(_))).count();
            let need = (4 * k).div_ceil(3).saturating_sub(p.alts.len());
            for i in 0..need {
                let at = t.below(p.alts.len() + 1);
                p.alts.insert(at, vec![MTerm::T(format!("{i}"))]);
            }
        }
        break g;
    };
    GenCase {
        grammar,
        kind: kind(t),
        seed: t.draw(u64::MAX),
        calls: t.range(1, 2),
    }
}

/// Rules that lead on into themselves most of the time: expansions nested thousands deep.
fn deep_gen_case(t: &mut Tape) -> GenCase {
    let c = |t: &mut Tape| tt(t.pick::<&str>(&["a", "é", "(", "", "xy"]));
    let mut rec = vec![c(t)];
    rec.push(n("s"));
    rec.push(c(t));
    let mut alts = vec![rec, vec![tt("c")]];
    if t.chance(1, 2) {
        alts.push(vec![c(t), n("b"), tt("!")]);
    }
    if t.chance(1, 2) {
        alts.reverse();
    }
    let prods = vec![prod("s", alts), prod("b", vec![vec![tt("b"), n("s"), tt(";")], vec![tt("q")]])];
    let depth = *t.pick(&[64usize, 128, 200, 256, 300, 500, 600, 1000, 1024, 1500, 2500]);
    GenCase {
        grammar: MGrammar { prods },
        kind: Kind::Weighted(8 * depth as u32, 1),
        seed: t.draw(u64::MAX),
        calls: depth,
    }
}

/// Follows the inner strategy until the given depth, then takes the first way out.
struct Until {
    inner: Strat,
    depth: usize,
}
impl GenerationStrategy for Until {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        if depth < self.depth {
            return self.inner.choose(p, depth);
        }
        p.rhs_iter().find(|e| e.terms_iter().all(|t| matches!(t, bnf::Term::Terminal(_))))
    }
}

fn c12_deep(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let f = genmodel::facts(&c.grammar);
    let inner = Until { inner: Strat::new(c.kind, c.seed), depth: c.calls };
    let mut rec = Recorder::new(inner, &g, 10_000);
    for _ in 0..3 {
        rec.log.clear();
        let s = g.generate_seeded_with_strategy(&mut rec).map_err(|e| format!("{e} for\n{}", bnf_text(&c.grammar)))?;
        if let Some(e) = rec.fault {
            return Err(e);
        }
        let deepest = rec.log.iter().map(|l| l.1).max().unwrap_or(0);
        let want = replay(&c.grammar, &f, &rec.log).0;
        if want.as_ref() != Ok(&s) {
            return Err(format!(
                "the alternatives chosen, nested {deepest} deep, spell a sentence of {:?} bytes but generation returned another of {} bytes for\n{}",
                want.map(|w| w.len()),
                s.len(),
                bnf_text(&c.grammar)
            ));
        }
        ctx.label_if(deepest > 250, "nested over 250 deep");
        ctx.label_if(deepest > 1000, "nested over 1000 deep");
        if deepest > 50 {
            ctx.nontrivial(hash_of(&(c, s)));
        }
    }
    Ok(())
}

fn either_case(t: &mut Tape) -> GenCase {
    if t.chance(1, 2) { tame_case(t) } else { gen_case(t) }
}

// ---------- C13 ----------

/// Grammars in which rules often cannot finish.
fn hard_case(t: &mut Tape) -> GenCase {
    let k = t.range(1, 6);
    let name = |i: usize| gener::PLAIN[i].to_string();
    let prods = (0..k)
        .map(|i| {
            let alts = t.list(1, 3, 1, |t, _| {
                t.list(1, 3, 1, |t, _| {
                    if t.chance(1, 2) {
                        let j = t.below(k + usize::from(k < 13));
                        MTerm::N(if j == k { "undef".into() } else { name(j) })
                    } else {
                        MTerm::T((*t.pick(&["a", "", "b"])).to_string())
                    }
                })
            });
            let mut alts = alts;
            if t.chance(1, 16) {
                // the interesting alternative behind many that do not finish by themselves
                let more = *t.pick(&[8usize, 16, 17, 32, 33, 64, 65, 130]);
                let e = vec![MTerm::N(name(t.below(k)))];
                alts.splice(0..0, std::iter::repeat_n(e, more));
            }
            match t.below(14) {
                1 => alts.clear(),
                2 => alts = vec![vec![]],
                3 => alts.push(vec![]),
                _ => {}
            }
            prod(&name(i), alts)
        })
        .collect();
    let mut grammar = MGrammar { prods };
    if t.chance(1, 12) {
        let at = t.below(grammar.prods.len() + 1);
        let lhs = if t.chance(1, 2) { MTerm::T("a".into()) } else { MTerm::N(name(t.below(k))) };
        grammar.prods.insert(
            at,
            MProd {
                lhs,
                alts: vec![vec![MTerm::T("dup".into())]],
            },
        );
    }
    if t.chance(1, 60) {
        grammar.prods.clear();
    }
    GenCase {
        grammar,
        kind: kind(t),
        seed: t.draw(u64::MAX),
        calls: t.range(1, 2),
    }
}

fn large_hard(t: &mut Tape) -> GenCase {
    let mut grammar = gener::large_grammar(t);
    match t.below(5) {
        0 => {
            // one rule cannot finish
            let i = t.below(grammar.prods.len());
            let lhs = grammar.prods[i].lhs.clone();
            grammar.prods[i].alts = vec![vec![lhs]];
        }
        1 => grammar.prods.reverse(),
        2 => {
            // a way in from a new start
            let i = t.below(grammar.prods.len());
            let lhs = grammar.prods[i].lhs.clone();
            grammar.prods.insert(0, prod("zz", vec![vec![tt("z"), lhs]]));
        }
        _ => {}
    }
    GenCase {
        grammar,
        kind: kind(t),
        seed: t.draw(u64::MAX),
        calls: 1,
    }
}

/// Nonterminals whose own later productions matter (listed as a known finding of C13).
fn split_rules(g: &MGrammar) -> bool {
    let mut seen = HashSet::new();
    g.prods.iter().any(|p| !seen.insert(&p.lhs))
}

fn c13(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let f = genmodel::facts(&c.grammar);
    let mut rec = Recorder::new(Strat::new(c.kind, c.seed), &g, 2000);
    let start_ok = match c.grammar.prods.first() {
        Some(MProd { lhs: MTerm::N(s), .. }) => f.productive.contains(s),
        _ => false,
    };
    let stuck = |nt: &String| {
        f.endless.contains(nt) || f.first.get(nt).is_some_and(|i| genmodel::no_choice(&c.grammar.prods[*i]))
    };
    let sure = start_ok && !f.reachable.iter().any(stuck);
    let split = split_rules(&c.grammar);
    for _ in 0..c.calls {
        rec.log.clear();
        rec.tripped = false;
        let r = g.generate_seeded_with_strategy(&mut rec);
        if let Err(e) = &r
            && !is_generate_error(e)
        {
            return Err(format!("not a generation error: {e} for\n{}", bnf_text(&c.grammar)));
        }
        if let Some(e) = rec.fault {
            return Err(e);
        }
        if let Err(e) = &r {
            // the text of an error is free, but it has one
            if e.to_string().is_empty() {
                return Err("error without a text".into());
            }
        }
        let entered = rec.log.iter().position(|(i, _, _)| {
            let l = c.grammar.prods[*i].lhs.text();
            f.endless.contains(l)
        });
        if rec.tripped && let Some(k) = entered && rec.log.len() > k + 1000 {
            return Err(format!(
                "expansion entered <{}>, which can never finish, and went on for {} choices without an error:\n{}",
                c.grammar.prods[rec.log[k].0].lhs.text(),
                rec.log.len() - k,
                bnf_text(&c.grammar)
            ));
        }
        if !start_ok {
            ctx.label("start cannot be generated");
            if let Ok(s) = &r {
                return Err(format!("returned {s:?} although the start rule reaches no terminal state:\n{}", bnf_text(&c.grammar)));
            }
            ctx.nontrivial(hash_of(&c.grammar));
            continue;
        }
        if sure {
            ctx.label("every rule can finish");
            match &r {
                Ok(_) => ctx.nontrivial(hash_of(c)),
                Err(_) if rec.tripped => ctx.label("grew over 2000 choices (cut off)"),
                Err(e) => {
                    return Err(format!(
                        "{e}, although every reachable nonterminal can be expanded to finite text:\n{}",
                        bnf_text(&c.grammar)
                    ));
                }
            }
            continue;
        }
        if rec.tripped {
            ctx.label("grew over 2000 choices (cut off)");
            continue;
        }
        if split {
            ctx.label("split rules (either outcome)");
            continue;
        }
        // some reachable rule cannot finish: error exactly if the expansion entered one
        let (want, _) = replay(&c.grammar, &f, &rec.log);
        ctx.label(if want.is_ok() { "around the rule that cannot finish" } else { "into the rule that cannot finish" });
        ctx.nontrivial(hash_of(c));
        match (&want, &r) {
            (Ok(w), Ok(s)) if w == s => {}
            (Err(()), Err(_)) => {}
            _ => {
                return Err(format!(
                    "the chosen alternatives give {want:?} but generation returned {r:?} for\n{}",
                    bnf_text(&c.grammar)
                ));
            }
        }
    }
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "sure": sure}));
    Ok(())
}

/// Entry points without strategy on grammars whose start (or every expansion) cannot finish.
fn c13_plain(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let f = genmodel::facts(&c.grammar);
    let g = bridge::grammar(&c.grammar);
    let start_ok = match c.grammar.prods.first() {
        Some(MProd { lhs: MTerm::N(s), .. }) => f.productive.contains(s),
        _ => false,
    };
    let stuck = |nt: &String| {
        f.endless.contains(nt) || f.first.get(nt).is_some_and(|i| genmodel::no_choice(&c.grammar.prods[*i]))
    };
    let sure = start_ok && !f.reachable.iter().any(stuck);
    if start_ok && !tame(&c.grammar) {
        ctx.discard();
        return Ok(());
    }
    let mut rng = StdRng::from_seed(seed32(c.seed));
    let all = [
        ("generate", g.generate()),
        ("generate_callback", g.generate_callback(|_, _| true)),
        ("generate_seeded", g.generate_seeded(&mut rng)),
        ("generate_seeded_callback", g.generate_seeded_callback(&mut rng, |_, _| true)),
    ];
    for (what, r) in all {
        match r {
            Ok(s) if !start_ok => {
                return Err(format!("{what} returned {s:?} although the start reaches no terminal state:\n{}", bnf_text(&c.grammar)));
            }
            Err(e) if sure => {
                return Err(format!("{what}: {e}, although everything reachable can finish:\n{}", bnf_text(&c.grammar)));
            }
            Err(e) if !is_generate_error(&e) => return Err(format!("{what}: not a generation error: {e}")),
            Ok(_) => ctx.label("sentence"),
            Err(_) => ctx.label("generation error"),
        }
    }
    ctx.nontrivial(hash_of(&c.grammar));
    Ok(())
}

// ---------- C14 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SameCase {
    pub grammar: MGrammar,
    pub kind: Kind,
    pub seed: u64,
    /// what happens before each call: 0 nothing, 1 clone, 2 re-read, 3 serde, 4 rebuilt
    pub via: Vec<u8>,
    pub reject: u64,
}

fn same_case(t: &mut Tape) -> SameCase {
    SameCase {
        grammar: gen_grammar(t),
        kind: kind(t),
        seed: t.draw(u64::MAX),
        via: t.list(1, 5, 2, |t, _| t.below(5) as u8),
        reject: t.draw(8),
    }
}

/// Thousands of choices from one strategy.
fn long_same(t: &mut Tape) -> SameCase {
    let mut c = same_case(t);
    c.grammar = match t.below(3) {
        0 => tame_case(t).grammar,
        1 => MGrammar {
            prods: vec![
                prod("s", vec![vec![n("b"), n("b"), n("b"), n("b"), n("b"), n("b")]]),
                prod("b", vec![vec![tt("0")], vec![tt("1")], vec![tt("2"), n("c")]]),
                prod("c", vec![vec![tt("x")], vec![tt("y")]]),
            ],
        },
        _ => MGrammar {
            prods: vec![
                prod("s", vec![vec![n("s"), n("b")], vec![n("b")], vec![n("b"), n("b")]]),
                prod("b", vec![vec![tt("0")], vec![tt("1")]]),
            ],
        },
    };
    let calls = *t.pick(&[300usize, 1000, 3000]);
    let often = t.chance(1, 2);
    c.via = (0..calls).map(|i| if often || i % 64 == 63 { (i % 5) as u8 } else { 0 }).collect();
    c
}

fn variant(g: &Grammar, m: &MGrammar, via: u8) -> Grammar {
    match via {
        1 => g.clone(),
        2 => g.to_string().parse().ok().filter(|h: &Grammar| h == g).unwrap_or_else(|| g.clone()),
        3 => serde_json::from_str(&serde_json::to_string(g).expect("JSON")).expect("JSON back"),
        _ => bridge::grammar(m),
    }
}

type Seq = Vec<Result<String, String>>;

/// Declines after `limit` choices, so that growth stays bounded, in the same way for each side.
struct Capped<S> {
    inner: S,
    left: usize,
}
impl<S: GenerationStrategy> GenerationStrategy for Capped<S> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        self.left = self.left.checked_sub(1)?;
        self.inner.choose(p, depth)
    }
}

fn sequence(c: &SameCase, base: &Grammar, vary: bool, callback: bool) -> Seq {
    let mut s = Capped {
        inner: Strat::new(c.kind, c.seed),
        left: 0,
    };
    let mut out = vec![];
    let reject = |n: &str, t: &str| c.reject == 0 || hash_of(&(n, t, c.reject)) % 16 != 0;
    for via in &c.via {
        s.left = 400;
        let own;
        let g = if vary && *via > 0 {
            own = variant(base, &c.grammar, *via);
            &own
        } else {
            base
        };
        let r = if callback {
            g.generate_seeded_callback_with_strategy(reject, &mut s)
        } else if c.reject == 0 {
            g.generate_seeded_with_strategy(&mut s)
        } else {
            g.generate_seeded_callback_with_strategy(reject, &mut s)
        };
        out.push(r.map_err(|e| if is_generate_error(&e) { "error".into() } else { e.to_string() }));
    }
    out
}

fn c14(c: &SameCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let a = sequence(c, &g, false, false);
    for (what, b) in [
        ("the same call again", sequence(c, &g, false, false)),
        ("an equal grammar", sequence(c, &g, true, false)),
        ("the callback variant", sequence(c, &g, false, true)),
    ] {
        if a != b {
            return Err(format!(
                "seeded generation differs: {a:?} at first but {b:?} for {what}, {:?} on\n{}",
                c.kind,
                bnf_text(&c.grammar)
            ));
        }
    }
    ctx.label_if(a.iter().any(Result::is_ok), "sentences");
    ctx.label_if(c.via.contains(&2), "re-read");
    ctx.label_if(c.via.contains(&3), "deserialised");
    if a.iter().any(|r| r.as_ref().is_ok_and(|s| s.len() > 2)) {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "results": format!("{a:?}")}));
    Ok(())
}

/// The seeded entry points without a strategy: sequences over one generator.
fn c14_plain(c: &SameCase, ctx: &mut Ctx) -> CheckResult {
    if !tame(&c.grammar) {
        ctx.discard();
        return Ok(());
    }
    let g = bridge::grammar(&c.grammar);
    let run = |vary: bool, callback: bool| -> (Seq, u64) {
        let mut rng = StdRng::from_seed(seed32(c.seed));
        let mut out = vec![];
        for via in &c.via {
            let own;
            let h = if vary && *via > 0 {
                own = variant(&g, &c.grammar, *via);
                &own
            } else {
                &g
            };
            let r = if callback {
                h.generate_seeded_callback(&mut rng, |_, _| true)
            } else {
                h.generate_seeded(&mut rng)
            };
            out.push(r.map_err(|e| e.to_string()));
        }
        use bnf::rand::RngCore;
        (out, rng.next_u64())
    };
    let a = run(false, false);
    for (what, b) in [
        ("the same calls again", run(false, false)),
        ("equal grammars", run(true, false)),
        ("the callback variant", run(false, true)),
        ("the callback variant on equal grammars", run(true, true)),
    ] {
        if a.0 != b.0 {
            return Err(format!("{:?} at first but {:?} for {what} with the same seed on\n{}", a.0, b.0, bnf_text(&c.grammar)));
        }
        if a.1 != b.1 {
            return Err(format!("the generator is left in another state after {what} on\n{}", bnf_text(&c.grammar)));
        }
    }
    if a.0.iter().any(Result::is_ok) {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

fn tame_same(t: &mut Tape) -> SameCase {
    let c = tame_case(t);
    SameCase {
        grammar: c.grammar,
        kind: Kind::Random,
        seed: c.seed,
        via: t.list(1, 6, 2, |t, _| t.below(5) as u8),
        reject: 0,
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DistCase {
    pub alts: usize,
    pub nested: bool,
    pub seed: u64,
    pub entry: u8,
}
fn dist_case(t: &mut Tape) -> DistCase {
    DistCase {
        alts: t.range(2, 6),
        nested: t.chance(1, 2),
        seed: t.draw(u64::MAX),
        entry: t.below(6) as u8,
    }
}

/// Kullback-Leibler divergence of Bernoulli(a) from Bernoulli(p).
fn kl(a: f64, p: f64) -> f64 {
    let part = |x: f64, y: f64| if x <= 0.0 { 0.0 } else { x * (x / y).ln() };
    part(a, p) + part(1.0 - a, 1.0 - p)
}
/// Is a count of `k` out of `n` incompatible with probability `p`? By the Chernoff bound a correct
/// implementation is accused with probability below e^-30 per count.
fn improbable(k: usize, n: usize, p: f64) -> bool {
    if p <= 0.0 {
        return k > 0;
    }
    if p >= 1.0 {
        return k < n;
    }
    n as f64 * kl(k as f64 / n as f64, p) > 30.0
}

const DRAWS: usize = 3000;

/// The entry points without a strategy choose like the uniform random strategy.
fn c14_uniform(c: &DistCase, ctx: &mut Ctx) -> CheckResult {
    let leaf = |i: usize| MTerm::T(format!("{i}"));
    let mut prods = vec![prod("s", (0..c.alts).map(|i| vec![if c.nested { n(&format!("n{i}")) } else { leaf(i) }]).collect())];
    if c.nested {
        prods.extend((0..c.alts).map(|i| prod(&format!("n{i}"), vec![vec![leaf(i)], vec![leaf(i), MTerm::T("'".into())]])));
    }
    let m = MGrammar { prods };
    let g = bridge::grammar(&m);
    let mut rng = StdRng::from_seed(seed32(c.seed));
    let mut walk = RandomWalk::from_seed(seed32(c.seed));
    let mut count: HashMap<String, usize> = HashMap::new();
    let mut pairs: HashMap<(String, String), usize> = HashMap::new();
    let mut last: Option<String> = None;
    let kinds = if c.nested { 2 * c.alts } else { c.alts };
    for k in 0..DRAWS {
        let r = match c.entry {
            0 => g.generate_seeded(&mut rng),
            1 => g.generate_seeded_callback(&mut rng, |_, _| true),
            2 => g.generate(),
            3 => g.generate_callback(|_, _| true),
            4 => g.generate_seeded_with_strategy(&mut walk),
            _ => {
                let mut r = StdRng::from_seed(seed32(c.seed.wrapping_add(k as u64)));
                g.generate_seeded(&mut r)
            }
        };
        let s = r.map_err(|e| format!("{e} for\n{}", bnf_text(&m)))?;
        *count.entry(s.clone()).or_insert(0) += 1;
        if let Some(l) = last.replace(s.clone()) {
            *pairs.entry((l, s)).or_insert(0) += 1;
        }
    }
    let p = 1.0 / kinds as f64;
    if count.len() > kinds {
        return Err(format!("unexpected sentences {count:?}"));
    }
    let all: Vec<String> = m
        .prods
        .iter()
        .skip(usize::from(c.nested))
        .flat_map(|p| &p.alts)
        .map(|a| a.iter().map(|x| x.text().to_string()).collect())
        .collect();
    for s in &all {
        let k = count.get(s).copied().unwrap_or(0);
        if improbable(k, DRAWS, p) {
            return Err(format!("{s:?} came up {k} times out of {DRAWS} instead of about {:.0}", DRAWS as f64 * p));
        }
        for s2 in &all {
            let k = pairs.get(&(s.clone(), s2.clone())).copied().unwrap_or(0);
            // overlapping pairs of independent draws: two interleaved sets of independent pairs
            if improbable(k, 2 * (DRAWS - 1), p * p / 2.0) && improbable(k, DRAWS - 1, p * p) && k > DRAWS / 50 {
                return Err(format!("{s:?} was followed by {s2:?} {k} times out of {}", DRAWS - 1));
            }
        }
    }
    ctx.nontrivial(hash_of(c));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct MassCase {
    pub grammar: MGrammar,
    pub seed: u64,
    pub entry: u8,
}

/// A grammar with a way out everywhere, below a chain of rules without a choice.
fn mass_case(t: &mut Tape) -> MassCase {
    let mut grammar = tame_case(t).grammar;
    let chain = *t.pick(&[0usize, 0, 0, 0, 1, 3, 10, 30, 70]);
    if let Some(MProd { lhs: MTerm::N(s), .. }) = grammar.prods.first().cloned() {
        let name = |i: usize| if i == chain { n(&s) } else { n(&format!("chain-{i}")) };
        for i in (0..chain).rev() {
            grammar.prods.insert(
                0,
                MProd {
                    lhs: name(i),
                    alts: vec![vec![name(i + 1)]],
                },
            );
        }
    }
    MassCase {
        grammar,
        seed: t.draw(u64::MAX),
        entry: t.below(6) as u8,
    }
}

/// Probability of each sentence under uniform choices, as far as `steps` expansions reach, most
/// probable first, and the probability that is left.
fn masses(g: &MGrammar, f: &genmodel::Facts, steps: usize) -> (HashMap<String, f64>, f64) {
    use std::collections::BTreeMap;
    let Some(MProd { lhs: MTerm::N(s), .. }) = g.prods.first() else {
        return (HashMap::new(), 1.0);
    };
    // (probability, text so far, terms to come in reverse)
    let mut open: BTreeMap<(std::cmp::Reverse<u64>, usize), (f64, String, Vec<&MTerm>)> = BTreeMap::new();
    let start = MTerm::N(s.clone());
    open.insert((std::cmp::Reverse(u64::MAX), 0), (1.0, String::new(), vec![&start]));
    let mut out: HashMap<String, f64> = HashMap::new();
    let mut left = 1.0;
    let mut serial = 0;
    for _ in 0..steps {
        let Some((_, (p, mut text, mut todo))) = open.pop_first() else {
            break;
        };
        let mut next = None;
        while let Some(x) = todo.pop() {
            match x {
                MTerm::T(s) => text.push_str(s),
                MTerm::N(m) => match f.first.get(m) {
                    None => text.push_str(&format!("<{m}>")),
                    Some(i) => {
                        next = Some(*i);
                        break;
                    }
                },
            }
        }
        match next {
            None => {
                *out.entry(text).or_insert(0.0) += p;
                left -= p;
            }
            Some(i) => {
                let alts = &g.prods[i].alts;
                let q = p / alts.len() as f64;
                for a in alts {
                    let mut rest = todo.clone();
                    rest.extend(a.iter().rev());
                    serial += 1;
                    open.insert((std::cmp::Reverse((q * 1e18) as u64), serial), (q, text.clone(), rest));
                }
            }
        }
        if left < 1e-4 {
            break;
        }
    }
    (out, left.max(0.0))
}

/// Sentences of the entry points without a strategy come up as often as uniform choices make them.
fn c14_masses(c: &MassCase, ctx: &mut Ctx) -> CheckResult {
    let f = genmodel::facts(&c.grammar);
    let firsts: HashSet<&str> = c.grammar.prods.iter().map(|p| p.lhs.text()).collect();
    let sure = firsts.len() == c.grammar.prods.len()
        && matches!(c.grammar.prods.first(), Some(MProd { lhs: MTerm::N(s), .. }) if f.productive.contains(s))
        && f.reachable
            .iter()
            .all(|m| !f.endless.contains(m) && f.first.get(m).is_none_or(|i| !genmodel::no_choice(&c.grammar.prods[*i])));
    if !sure || !tame_body(&c.grammar) {
        ctx.discard();
        return Ok(());
    }
    let (mass, left) = masses(&c.grammar, &f, 3000);
    if mass.len() < 2 {
        ctx.discard();
        return Ok(());
    }
    const N: usize = 500;
    let g = bridge::grammar(&c.grammar);
    let mut rng = StdRng::from_seed(seed32(c.seed));
    let mut walk = RandomWalk::from_seed(seed32(c.seed));
    let mut count: HashMap<String, usize> = HashMap::new();
    for k in 0..N {
        let r = match c.entry {
            0 => g.generate_seeded(&mut rng),
            1 => g.generate_seeded_callback(&mut rng, |_, _| true),
            2 => g.generate(),
            3 => g.generate_callback(|_, _| true),
            4 => g.generate_seeded_with_strategy(&mut walk),
            _ => g.generate_seeded(&mut StdRng::from_seed(seed32(c.seed.wrapping_add(k as u64)))),
        };
        let s = r.map_err(|e| format!("{e} for\n{}", bnf_text(&c.grammar)))?;
        *count.entry(s).or_insert(0) += 1;
    }
    let mut beyond = 0;
    for (s, k) in &count {
        if !mass.contains_key(s) {
            beyond += k;
        }
    }
    let (mut all, mut seen) = (vec![("other sentences".to_string(), 0.0, beyond)], 0);
    for (s, p) in &mass {
        let k = count.get(s).copied().unwrap_or(0);
        seen += usize::from(k > 0);
        all.push((s.clone(), *p, k));
    }
    for (s, p, k) in all {
        let a = k as f64 / N as f64;
        let (lo, hi) = (p, (p + left).min(1.0));
        let wrong = (a < lo && improbable(k, N, lo)) || (a > hi && improbable(k, N, hi.max(1e-12)));
        if wrong {
            return Err(format!(
                "{s:?} came up {k} times out of {N}; uniform choices make its probability {lo:.5} to {hi:.5} on\n{}",
                bnf_text(&c.grammar)
            ));
        }
    }
    ctx.label_if(left < 0.01, "all sentences counted");
    ctx.label_if(c.grammar.prods.len() > 60, "below a long chain");
    if seen > 1 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

/// As `tame`, leaving out the chain of rules without a choice.
fn tame_body(g: &MGrammar) -> bool {
    tame(&MGrammar {
        prods: g.prods.iter().filter(|p| !p.lhs.text().starts_with("chain-")).cloned().collect(),
    })
}

// ---------- C15 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ScriptCase {
    pub grammar: MGrammar,
    /// choices, then falling back to the alternative that ends soonest
    pub picks: Vec<u32>,
    /// the n-th question is declined
    pub decline: Option<usize>,
    /// verdicts: false where listed (n-th callback)
    pub reject: Vec<usize>,
    /// names that are rejected the first k times
    pub reject_name: Option<(String, usize)>,
}

fn script_case(t: &mut Tape) -> ScriptCase {
    let grammar = gen_grammar(t);
    let names: Vec<String> = grammar.nonterminals().iter().map(|s| (*s).to_string()).collect();
    ScriptCase {
        picks: t.script(60, 10),
        decline: t.chance(1, 5).then(|| t.below(20)),
        reject: t.list(0, 6, 1, |t, _| t.below(30)),
        reject_name: (!names.is_empty() && t.chance(1, 3)).then(|| {
            let times = if t.chance(1, 40) { *t.pick(&[10usize, 33, 100, 256, 300, 1030]) } else { t.range(1, 4) };
            (t.pick(&names).clone(), times)
        }),
        grammar,
    }
}

/// Per production, the alternative with the lowest derivation (over first productions).
fn way_out(g: &MGrammar, f: &Facts) -> Vec<Option<usize>> {
    let mut h: HashMap<&str, usize> = HashMap::new();
    let mut best: Vec<Option<usize>> = vec![None; g.prods.len()];
    loop {
        let mut ch = false;
        for (l, i) in &f.first {
            for (k, a) in g.prods[*i].alts.iter().enumerate() {
                let mut m = 0;
                let ok = a.iter().all(|x| match x {
                    MTerm::N(s) if f.first.contains_key(s) => h.get(s.as_str()).is_some_and(|v| {
                        m = m.max(*v + 1);
                        true
                    }),
                    _ => true,
                });
                if ok && h.get(l.as_str()).is_none_or(|v| *v > m) {
                    h.insert(l, m);
                    best[*i] = Some(k);
                    ch = true;
                }
            }
        }
        if !ch {
            return best;
        }
    }
}

struct Scripted<'a> {
    c: &'a ScriptCase,
    out: &'a [Option<usize>],
    asked: usize,
}
impl Scripted<'_> {
    fn answer(&mut self, i: usize) -> Option<usize> {
        let k = self.asked;
        self.asked += 1;
        if self.c.decline == Some(k) || k > 4000 {
            return None;
        }
        let len = self.c.grammar.prods[i].alts.len();
        match self.c.picks.get(k) {
            Some(p) => Some(*p as usize % len),
            None => Some(self.out[i].unwrap_or(0)),
        }
    }
}

struct UserStrategy<'a> {
    script: Scripted<'a>,
    g: &'a Grammar,
    log: &'a RefCell<Vec<Step>>,
    fault: Option<String>,
}
impl GenerationStrategy for UserStrategy<'_> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        let Some(i) = prod_index(self.g, p) else {
            self.fault = Some(format!("the strategy is asked about {p}, not a production of the grammar"));
            return None;
        };
        self.log.borrow_mut().push(Step::Ask(i, depth));
        let a = self.script.answer(i)?;
        p.rhs_iter().nth(a)
    }
}

struct Verdicts<'a> {
    c: &'a ScriptCase,
    told: usize,
    named: usize,
}
impl Verdicts<'_> {
    fn ask(&mut self, name: &str) -> bool {
        let k = self.told;
        self.told += 1;
        if self.c.reject.contains(&k) {
            return false;
        }
        if let Some((n, times)) = &self.c.reject_name
            && n == name
            && self.named < *times
        {
            self.named += 1;
            return false;
        }
        true
    }
}

fn c15(c: &ScriptCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    let f = genmodel::facts(&c.grammar);
    let out = way_out(&c.grammar, &f);
    let mut run = Run {
        g: &c.grammar,
        facts: &f,
        log: vec![],
        max_steps: 100_000,
    };
    let mut script = Scripted { c, out: &out, asked: 0 };
    let mut v = Verdicts { c, told: 0, named: 0 };
    let want = run.start(&mut |i, _| script.answer(i), &mut |n, _| v.ask(n));
    let want_log = run.log;
    let log = RefCell::new(vec![]);
    let verdicts = RefCell::new(Verdicts { c, told: 0, named: 0 });
    let mut user = UserStrategy {
        script: Scripted { c, out: &out, asked: 0 },
        g: &g,
        log: &log,
        fault: None,
    };
    let got = g.generate_seeded_callback_with_strategy(
        |n, t| {
            log.borrow_mut().push(Step::Tell(n.into(), t.into()));
            verdicts.borrow_mut().ask(n)
        },
        &mut user,
    );
    let declined = script.asked > 0 && (c.decline.is_some_and(|d| d < script.asked) || script.asked > 4000);
    if let Some(e) = user.fault {
        return Err(e);
    }
    let log = log.into_inner();
    let show = |l: &[Step]| {
        let mut s: Vec<String> = l.iter().take(40).map(|s| format!("{s:?}")).collect();
        if l.len() > 40 {
            s.push(format!("... {} more", l.len() - 40));
        }
        s.join(", ")
    };
    match (&want, &got) {
        (Ok(w), Ok(s)) if w == s => {}
        (Err(()), Err(e)) if is_generate_error(e) => {}
        _ => {
            return Err(format!(
                "generation returned {got:?} instead of {want:?}; asked {}\nfor\n{}",
                show(&log),
                bnf_text(&c.grammar)
            ));
        }
    }
    // when a rule cannot be expanded, how soon that is noticed is left open
    let exact = want.is_ok() || declined;
    if (exact && log != want_log) || !log.starts_with(&want_log) {
        let k = log.iter().zip(&want_log).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "the strategy and callback were asked\n{}\ninstead of\n{}\n(first difference at {k}) for\n{}",
            show(&log),
            show(&want_log),
            bnf_text(&c.grammar)
        ));
    }
    ctx.label_if(want.is_ok(), "sentences");
    ctx.label_if(declined, "declined");
    ctx.label_if(verdicts.borrow().told > 0 && want_log.len() > 2 * 3 && v.named > 0, "rejected by name");
    ctx.label_if(c.reject.iter().any(|k| *k < v.told), "rejected by position");
    let deepest = want_log.iter().map(|s| if let Step::Ask(_, d) = s { *d } else { 0 }).max().unwrap_or(0);
    ctx.label_if(deepest >= 3, "nested three deep or more");
    if want_log.len() > 2 {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "result": format!("{want:?}"), "steps": want_log.len()}));
    Ok(())
}

// ---------- C16 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ChooseCase {
    pub prod: MProd,
    pub depth: usize,
    pub max: usize,
    pub seed: u64,
    /// set the field after construction
    pub set: bool,
    /// 0: one seeded strategy; 1: one without a seed; 2: a new one without a seed for each draw
    #[serde(default)]
    pub unseeded: u8,
}

fn choose_prod(t: &mut Tape, max_alts: usize) -> MProd {
    let pool = ["s", "a", "s", "s2"];
    let mut seen: Vec<MExpr> = vec![];
    let alts = t.list(1, max_alts, 3, |t, i| {
        let terminal_only = t.chance(1, 2);
        let mut e: MExpr = t.list(0, 4, 1, |t, _| {
            if terminal_only || t.chance(1, 3) {
                MTerm::T((*t.pick(&["x", "", "s", "<s>", "é"])).to_string())
            } else {
                MTerm::N((*t.pick(&pool)).to_string())
            }
        });
        if t.chance(1, 12) {
            // far apart
            let pad = *t.pick(&[6usize, 9, 13, 17, 33, 65, 130, 257]);
            let at = *t.pick(&[0, e.len()]);
            e.splice(at..at, std::iter::repeat_n(MTerm::T("p".into()), pad));
        }
        // told apart by value too
        if seen.contains(&e) {
            e.push(MTerm::T(format!("{i}")));
        }
        seen.push(e.clone());
        e
    });
    MProd { lhs: n("s"), alts }
}

/// Hundreds of alternatives.
fn wide_prod(t: &mut Tape) -> MProd {
    let k = *t.pick(&[33usize, 65, 100, 129, 255, 256, 257, 300]);
    let style = t.below(3);
    let alts = (0..k)
        .map(|i| {
            let mut e = vec![MTerm::T(format!("{i}"))];
            let with = match style {
                0 => i + 1 < k,
                1 => i > 0,
                _ => t.chance(1, 2),
            };
            if with {
                e.push(MTerm::N((*t.pick(&["s", "a"])).to_string()));
            }
            e
        })
        .collect();
    MProd { lhs: n("s"), alts }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct BoundHistory {
    pub prods: Vec<MProd>,
    pub max: usize,
    pub seed: u64,
    /// production, depth, draws, and a new maximum set before
    pub steps: Vec<(usize, usize, usize, Option<usize>)>,
}

/// One strategy asked about productions that are easily confused: same name, as many alternatives,
/// the same alternatives in another order.
fn history_case(t: &mut Tape) -> BoundHistory {
    let first = choose_prod(t, 6);
    let mut prods = vec![first];
    for _ in 0..t.range(1, 3) {
        let mut q = prods[0].clone();
        match t.below(5) {
            0 => q.alts.reverse(),
            1 => {
                let k = t.below(q.alts.len());
                q.alts.rotate_left(k);
            }
            2 => {
                for (i, a) in q.alts.iter_mut().enumerate() {
                    for x in a.iter_mut() {
                        if t.chance(1, 2) {
                            *x = if matches!(x, MTerm::T(_)) { n("s") } else { MTerm::T("x".into()) };
                        }
                    }
                    a.push(MTerm::T(format!("{i}")));
                }
            }
            3 => q = choose_prod(t, 6),
            _ => {
                q.lhs = n("t");
                let k = t.below(q.alts.len());
                q.alts.rotate_left(k);
            }
        }
        prods.push(q);
    }
    let max = t.range(0, 3);
    let np = prods.len();
    BoundHistory {
        max,
        seed: t.draw(u64::MAX),
        steps: t.list(1, 40, 8, |t, _| {
            (t.below(np), t.range(0, 5), t.range(1, 4), t.chance(1, 10).then(|| t.range(0, 4)))
        }),
        prods,
    }
}

fn c16_history(c: &BoundHistory, ctx: &mut Ctx) -> CheckResult {
    let ps: Vec<Production> = c.prods.iter().map(bridge::production).collect();
    let only: Vec<Vec<bool>> = c
        .prods
        .iter()
        .map(|p| p.alts.iter().map(|a| a.iter().all(|x| matches!(x, MTerm::T(_)))).collect())
        .collect();
    let mut s = DepthBounded::from_seed(c.max, seed32(c.seed));
    let ask = |s: &mut DepthBounded, j: usize, depth: usize| -> Result<usize, String> {
        let p = &ps[j];
        let Some(e) = s.choose(p, depth) else {
            return Err(format!("declined at depth {depth} of {} on {p}", s.max_depth));
        };
        let Some(i) = alt_index(p, e) else {
            return Err(format!("picked {e}, no alternative of {p}"));
        };
        if depth >= s.max_depth && only[j].contains(&true) && !only[j][i] {
            return Err(format!(
                "picked {e} at depth {depth} with maximum {} although {p} has alternatives made only of terminals",
                s.max_depth
            ));
        }
        Ok(i)
    };
    for (j, depth, draws, set) in &c.steps {
        if let Some(m) = set {
            s.max_depth = *m;
        }
        for _ in 0..*draws {
            ask(&mut s, *j, *depth)?;
        }
        ctx.label(if *depth >= s.max_depth { "at the bound" } else { "below the bound" });
    }
    // whatever came before, everything is within reach below the bound
    s.max_depth = c.max + 1;
    for (j, o) in only.iter().enumerate() {
        let mut seen = vec![false; o.len()];
        for _ in 0..60 * o.len() {
            seen[ask(&mut s, j, c.max)?] = true;
        }
        if let Some(i) = seen.iter().position(|b| !b) {
            return Err(format!("never picked alternative {i} of {} below the maximum, after a history", ps[j]));
        }
    }
    if c.steps.len() > 2 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

fn choose_case(t: &mut Tape) -> ChooseCase {
    let max = *t.pick(&[3usize, 0, 1, 2, 10, 255, 256, 1 << 32, usize::MAX]);
    let depth = match t.below(6) {
        0 => max,
        1 => max.saturating_sub(1),
        2 => max.saturating_add(1),
        3 => t.below(6),
        4 => max.saturating_add(t.below(1000)),
        _ => *t.pick(&[0usize, 1, 256, 1 << 32, usize::MAX]),
    };
    ChooseCase {
        prod: if t.chance(1, 60) { wide_prod(t) } else { choose_prod(t, 8) },
        depth,
        max,
        seed: t.draw(u64::MAX),
        set: t.chance(1, 4),
        unseeded: t.below(8).saturating_sub(5) as u8,
    }
}

fn c16(c: &ChooseCase, ctx: &mut Ctx) -> CheckResult {
    let p = bridge::production(&c.prod);
    let mk = || {
        let m = if c.set { 7 } else { c.max };
        let mut s = if c.unseeded > 0 {
            DepthBounded::new(m)
        } else {
            DepthBounded::from_seed(m, seed32(c.seed))
        };
        if c.set {
            s.max_depth = c.max;
        }
        s
    };
    let mut s = mk();
    ctx.label_if(c.unseeded > 0, "without a seed");
    let only: Vec<bool> = c.prod.alts.iter().map(|a| a.iter().all(|x| matches!(x, MTerm::T(_)))).collect();
    let any = only.iter().any(|b| *b);
    let k = c.prod.alts.len();
    let mut seen = vec![false; k];
    let draws = 60 * k;
    for _ in 0..draws {
        if c.unseeded == 2 {
            s = mk();
        }
        let Some(e) = s.choose(&p, c.depth) else {
            return Err(format!("declined at depth {} of {} on {p}", c.depth, c.max));
        };
        let Some(i) = alt_index(&p, e) else {
            return Err(format!("picked {e}, no alternative of {p}"));
        };
        if c.depth >= c.max && any && !only[i] {
            return Err(format!("picked {e} at depth {} with maximum {} although {p} has alternatives made only of terminals", c.depth, c.max));
        }
        seen[i] = true;
    }
    if c.depth < c.max {
        ctx.label("below the bound");
        if let Some(i) = seen.iter().position(|b| !b) {
            return Err(format!(
                "never picked alternative {i} of {p} in {draws} draws at depth {} below the maximum {}",
                c.depth, c.max
            ));
        }
    } else {
        ctx.label(if any { "at the bound, with a terminal-only alternative" } else { "at the bound, without" });
    }
    ctx.label_if(c.depth == c.max, "exactly at the bound");
    if k > 1 {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"production": p.to_string(), "depth": c.depth, "max": c.max}));
    Ok(())
}

fn bounded_case(t: &mut Tape) -> GenCase {
    let mut g = match t.below(3) {
        0 => gener::template_grammar(t),
        _ => gener::random_grammar(t, &Opts::default()),
    };
    for p in &mut g.prods {
        if !p.alts.iter().any(|a| !a.is_empty() && a.iter().all(|x| matches!(x, MTerm::T(_)))) {
            let at = t.below(p.alts.len() + 1);
            p.alts.insert(at, vec![MTerm::T("t".into())]);
        }
    }
    GenCase {
        grammar: g,
        kind: Kind::Depth(t.range(0, 5)),
        seed: t.draw(u64::MAX),
        calls: t.range(1, 4),
    }
}

fn c16_run(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let Kind::Depth(max) = c.kind else { return Ok(()) };
    let g = bridge::grammar(&c.grammar);
    let mut rec = Recorder::new(Strat::new(c.kind, c.seed), &g, 20_000);
    for _ in 0..c.calls {
        rec.log.clear();
        let r = g.generate_seeded_with_strategy(&mut rec);
        if let Some(e) = rec.fault {
            return Err(e);
        }
        if rec.tripped {
            ctx.label("over 20000 choices (cut off)");
        } else if let Err(e) = r {
            return Err(format!("{e} for\n{}", bnf_text(&c.grammar)));
        }
        let deepest = rec.log.iter().map(|x| x.1).max().unwrap_or(0);
        if deepest > max {
            return Err(format!("a nonterminal was expanded at depth {deepest}, bound {max}:\n{}", bnf_text(&c.grammar)));
        }
        ctx.label_if(deepest == max && max > 0, "reached the bound");
        if rec.log.len() > 1 {
            ctx.nontrivial(hash_of(c));
        }
    }
    Ok(())
}

// ---------- C17 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CoverCase {
    /// grammars used one after the other (dropped before the next), all sharing one strategy
    pub grammars: Vec<MGrammar>,
    pub seed: Option<u64>,
    /// per grammar: which production to ask about (direct), or a whole generation (the highest)
    pub steps: Vec<Vec<u8>>,
}

/// Grammars in turn may share the names of their rules, the number of alternatives, and some rules
/// altogether; no two productions of a case are equal.
fn cover_case(t: &mut Tape) -> CoverCase {
    let seed = (!t.chance(1, 8)).then(|| t.draw(u64::MAX));
    let k = t.range(1, 4);
    let shared_names = t.chance(1, 2);
    let same_size = t.chance(1, 3).then(|| *t.pick(&[3usize, 2, 5]));
    let large = t.chance(1, 40);
    let mut grammars: Vec<MGrammar> = vec![];
    let mut steps = vec![];
    for j in 0..k {
        if j > 0 && t.chance(1, 8) {
            // the same grammar once more: what was covered stays covered
            let g = grammars[t.below(j)].clone();
            let np = g.prods.len();
            grammars.push(g);
            steps.push(t.list(1, 60, 20, |t, _| t.below(np + 1) as u8));
            continue;
        }
        let np = t.range(1, 4);
        let split = t.chance(1, 6);
        let name = |i: usize| {
            // a split rule: two productions of one name
            let i = if split { i / 2 } else { i };
            if shared_names { format!("n{i}") } else { format!("g{j}n{i}") }
        };
        // alternatives of productions with equal names differ in one place only
        let style = t.below(3);
        let prods: Vec<MProd> = (0..np)
            .map(|i| {
                let size = same_size.unwrap_or_else(|| {
                    if large { *t.pick(&[256usize, 257, 300, 129]) } else { *t.pick(&[3usize, 1, 2, 4, 5, 9, 33, 70]) }
                });
                let odd = t.below(size);
                let alts = (0..size)
                    .map(|a| {
                        let text = match style {
                            0 => format!("{a}.{j}.{i}"),
                            1 if a == odd => format!("{a}.{j}.{i}"),
                            1 => format!("{a}"),
                            _ if a == odd => format!("{a}{}", " ".repeat(1 + 4 * j + i)),
                            _ => format!("{a}"),
                        };
                        let mut e = vec![MTerm::T(text)];
                        // only later rules, so that generation always ends quickly
                        let later = if split { (i / 2 + 1) * 2 } else { i + 1 };
                        if later < np && t.chance(1, 3) {
                            e.push(n(&name(t.range(later, np - 1))));
                        }
                        if later < np && t.chance(1, 6) {
                            e.insert(0, n(&name(t.range(later, np - 1))));
                        }
                        e
                    })
                    .collect();
                prod(&name(i), alts)
            })
            .collect();
        grammars.push(MGrammar { prods });
        let len = if large { 1200 } else { *t.pick(&[10usize, 40, 150]) };
        let avg = if large { 500 } else { 20 };
        steps.push(t.list(1, len, avg, |t, _| t.below(np + 1) as u8));
    }
    CoverCase { grammars, seed, steps }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ManyCase {
    pub prods: usize,
    pub alts: usize,
    pub seed: u64,
    /// visits go round the productions in turn (0) or at random
    pub order: u64,
    /// 0 all in one grammar, else one grammar per so many productions
    pub per: usize,
    /// different productions that print the same
    #[serde(default)]
    pub alike: bool,
}
/// Few productions, printing alike.
fn alike_prods(t: &mut Tape) -> ManyCase {
    let alts = t.range(2, 7);
    ManyCase {
        prods: t.range(2, (1 << alts).min(40)),
        alts,
        alike: true,
        ..many_prods(t)
    }
}
fn many_prods(t: &mut Tape) -> ManyCase {
    ManyCase {
        prods: *t.pick(&[33usize, 65, 100, 129, 257, 300, 520, 1030]),
        alts: *t.pick(&[2usize, 3, 4, 5]),
        seed: t.draw(u64::MAX),
        order: if t.chance(1, 2) { 0 } else { t.draw(u64::MAX) },
        per: *t.pick(&[0usize, 0, 1, 7, 64]),
        alike: false,
    }
}
/// One strategy visiting many productions.
fn c17_many(c: &ManyCase, ctx: &mut Ctx) -> CheckResult {
    let mut s = CoverageGuided::from_seed(seed32(c.seed));
    let make = |i: usize| {
        if c.alike {
            let alt = |a: usize| match i >> a & 1 {
                0 => vec![n(&format!("a{a}")), n("b")],
                _ => vec![n(&format!("a{a}> <b"))],
            };
            return bridge::production(&prod("s", (0..c.alts).map(alt).collect()));
        }
        let alts = (0..c.alts).map(|a| vec![tt(&format!("{i}.{a}"))]).collect();
        bridge::production(&prod(&format!("n{}", if c.order % 3 == 1 { 0 } else { i }), alts))
    };
    let all: Vec<Production> = (0..c.prods).map(make).collect();
    let mut seen: Vec<HashSet<usize>> = vec![HashSet::new(); c.prods];
    let mut t = Tape::random(c.order);
    for v in 0..c.prods * (c.alts + 1) {
        let i = if c.order == 0 { v % c.prods } else { t.below(c.prods) };
        let own;
        let p = if c.per > 0 && i % c.per == 0 {
            own = make(i);
            &own
        } else {
            &all[i]
        };
        let e = s.choose(p, v % 9).ok_or_else(|| format!("declined on {p}"))?;
        let a = alt_index(p, e).ok_or("picked something that is no alternative")?;
        if !seen[i].insert(a) && seen[i].len() < c.alts {
            return Err(format!(
                "visit {v} over {} productions: alternative {a} of {p} picked again with only {} tried",
                c.prods,
                seen[i].len()
            ));
        }
    }
    ctx.label_if(seen.iter().all(|s| s.len() == c.alts), "all productions fully covered");
    ctx.nontrivial(hash_of(c));
    Ok(())
}

fn c17(c: &CoverCase, ctx: &mut Ctx) -> CheckResult {
    let mut s = match c.seed {
        Some(x) => CoverageGuided::from_seed(seed32(x)),
        None => CoverageGuided::new(),
    };
    let mut complete = false;
    // what was picked, by the production's value
    let mut all: HashMap<&MProd, (HashSet<usize>, usize)> = HashMap::new();
    for (j, m) in c.grammars.iter().enumerate() {
        let g = bridge::grammar(m);
        for step in &c.steps[j] {
            let i = *step as usize;
            let log: Vec<(usize, usize, Option<usize>)>;
            if let Some(p) = g.productions_iter().nth(i) {
                let e = s.choose(p, *step as usize % 7).ok_or_else(|| format!("declined on {p}"))?;
                log = vec![(i, 0, alt_index(p, e))];
            } else {
                let mut rec = Recorder::new(ByRef(&mut s), &g, 100_000);
                g.generate_seeded_with_strategy(&mut rec)
                    .map_err(|e| format!("{e} for\n{}", bnf_text(m)))?;
                if let Some(e) = rec.fault {
                    return Err(e);
                }
                log = rec.log;
                ctx.label("whole generations");
            }
            for (i, _, a) in log {
                let k = m.prods[i].alts.len();
                let Some(a) = a else {
                    return Err(format!("picked something that is no alternative of <{}>", m.prods[i].lhs.text()));
                };
                let (seen, visits) = all.entry(&m.prods[i]).or_default();
                *visits += 1;
                let new = seen.insert(a);
                if !new && seen.len() < k {
                    return Err(format!(
                        "visit {visits} to a production with {k} alternatives picked alternative {a} again with only {} tried: <{}> of grammar {j}",
                        seen.len(),
                        m.prods[i].lhs.text()
                    ));
                }
                complete |= k > 1 && seen.len() == k;
            }
        }
    }
    ctx.label_if(c.grammars.len() > 1, "several grammars in turn");
    ctx.label_if(complete, "a production fully covered");
    if c.steps.iter().map(Vec::len).sum::<usize>() > 3 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

struct ByRef<'a, S>(&'a mut S);
impl<S: GenerationStrategy> GenerationStrategy for ByRef<'_, S> {
    fn choose<'p>(&mut self, p: &'p Production, depth: usize) -> Option<&'p Expression> {
        self.0.choose(p, depth)
    }
}
// ---------- C18 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WeightCase {
    pub prod: MProd,
    /// None: the uniform strategy
    pub weights: Option<(u32, u32)>,
    pub seed: u64,
    /// one strategy drawn from many times, or a fresh seed for each draw
    pub fresh: bool,
    pub set: bool,
    pub depth: usize,
    /// constructed without a seed
    #[serde(default)]
    pub unseeded: bool,
}

fn weight_case(t: &mut Tape) -> WeightCase {
    let w = [
        1u32,
        0,
        2,
        3,
        5,
        10,
        100,
        1000,
        65_535,
        65_536,
        1 << 31,
        u32::MAX / 2,
        u32::MAX - 1,
        u32::MAX,
    ];
    let weights = (!t.chance(1, 4)).then(|| {
        if t.chance(1, 4) {
            let a = t.draw(1 << 32) as u32;
            let b = t.draw(1 << 32) as u32;
            (a, b)
        } else {
            let a = if t.chance(1, 6) { 0 } else { *t.pick(&w) };
            let b = if t.chance(1, 6) { 0 } else { *t.pick(&w) };
            (a, b)
        }
    });
    let max = *t.pick(&[4usize, 8, 12]);
    WeightCase {
        prod: choose_prod(t, max),
        weights,
        seed: t.draw(u64::MAX),
        fresh: t.chance(1, 4),
        set: t.chance(1, 6),
        depth: t.below(4),
        unseeded: t.chance(1, 4),
    }
}

fn c18(c: &WeightCase, ctx: &mut Ctx) -> CheckResult {
    let p = bridge::production(&c.prod);
    let k = c.prod.alts.len();
    let w: Vec<f64> = match c.weights {
        None => vec![1.0; k],
        Some((r, nr)) => {
            let w: Vec<f64> = c
                .prod
                .alts
                .iter()
                .map(|a| f64::from(if a.contains(&c.prod.lhs) { r } else { nr }))
                .collect();
            if w.iter().all(|x| *x == 0.0) { vec![1.0; k] } else { w }
        }
    };
    let total: f64 = w.iter().sum();
    // only the uniform strategy promises fresh randomness for each instance without a seed
    let fresh = c.fresh && !(c.unseeded && c.weights.is_some());
    let mk = |seed: u64| match c.weights {
        None if c.unseeded => Strat::unseeded(Kind::Random),
        Some((r, nr)) if c.unseeded && c.set => {
            let mut s = Weighted::default();
            s.recursive_weight = r;
            s.non_recursive_weight = nr;
            Strat::W(s)
        }
        Some((r, nr)) if c.unseeded => Strat::unseeded(Kind::Weighted(r, nr)),
        None => Strat::new(Kind::Random, seed),
        Some((r, nr)) if c.set => {
            let mut s = Weighted::from_seed(1, 1, seed32(seed));
            s.recursive_weight = r;
            s.non_recursive_weight = nr;
            Strat::W(s)
        }
        Some((r, nr)) => Strat::new(Kind::Weighted(r, nr), seed),
    };
    let mut s = mk(c.seed);
    let mut count = vec![0usize; k];
    let mut pairs: HashMap<(usize, usize), usize> = HashMap::new();
    let mut last = None;
    let draws = if fresh { 1500 } else { 2500 };
    for j in 0..draws {
        if fresh {
            s = mk(mix(c.seed).wrapping_add(j as u64));
        }
        let e = s.choose(&p, c.depth).ok_or_else(|| format!("declined on {p}"))?;
        let i = alt_index(&p, e).ok_or_else(|| format!("picked {e}, no alternative of {p}"))?;
        count[i] += 1;
        if let Some(l) = last.replace(i) {
            *pairs.entry((l, i)).or_insert(0) += 1;
        }
    }
    for i in 0..k {
        let q = w[i] / total;
        if improbable(count[i], draws, q) {
            return Err(format!(
                "alternative {i} of {p} was picked {} times out of {draws} instead of about {:.1} (weights {:?}, counts {count:?})",
                count[i],
                draws as f64 * q,
                c.weights
            ));
        }
        // successive draws are independent: of the draws after i, a share q2 is i2
        for i2 in 0..k {
            let q2 = w[i2] / total;
            let after = count[i].saturating_sub(usize::from(last == Some(i)));
            let both = pairs.get(&(i, i2)).copied().unwrap_or(0);
            if after > 0 && improbable(both, after, q2) {
                return Err(format!(
                    "after alternative {i} of {p}, alternative {i2} was picked {both} times out of {after} instead of a share of {q2:.3}"
                ));
            }
        }
    }
    ctx.label_if(c.unseeded, "without a seed");
    ctx.label(if c.weights.is_none() { "uniform" } else { "weighted" });
    if let Some((r, nr)) = c.weights {
        ctx.label_if(r == 0 || nr == 0, "a zero weight");
        ctx.label_if(r == 0 && nr == 0, "all weights zero");
        ctx.label_if(total > f64::from(u32::MAX), "total over u32");
        ctx.label_if(w.iter().any(|x| *x != w[0]), "different weights in one production");
    }
    ctx.label_if(c.fresh, "a fresh seed for each draw");
    if k > 1 {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"production": p.to_string(), "weights": c.weights, "counts": count}));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct WideCase {
    /// per production: alternatives, every how manyth is recursive
    pub sizes: Vec<(usize, usize)>,
    pub weights: Option<(u32, u32)>,
    pub seed: u64,
}

fn wide_case(t: &mut Tape) -> WideCase {
    WideCase {
        sizes: t.list(1, 3, 1, |t, _| {
            (*t.pick(&[3usize, 5, 7, 10, 50, 100, 200, 255, 256, 257, 300]), *t.pick(&[2usize, 3, 7]))
        }),
        weights: (!t.chance(1, 3)).then(|| {
            let w = [1u32, 2, 3, 10, 16_777_215, 1 << 31, u32::MAX, 0];
            (*t.pick(&w), *t.pick(&w))
        }),
        seed: t.draw(u64::MAX),
    }
}

/// Many draws over several productions in turn, judged as a whole by the chi-square statistic: it
/// sees a bias spread over many alternatives, which no single count gives away.
fn c18_wide(c: &WideCase, ctx: &mut Ctx) -> CheckResult {
    let mp: Vec<MProd> = c
        .sizes
        .iter()
        .enumerate()
        .map(|(j, (k, every))| {
            let lhs = format!("s{j}");
            let alts = (0..*k)
                .map(|i| {
                    let mut e = vec![MTerm::T(format!("{i}"))];
                    if i % every == 0 {
                        e.push(n(&lhs));
                    }
                    e
                })
                .collect();
            prod(&lhs, alts)
        })
        .collect();
    let ps: Vec<Production> = mp.iter().map(bridge::production).collect();
    let mut s = Strat::new(c.weights.map_or(Kind::Random, |(r, nr)| Kind::Weighted(r, nr)), c.seed);
    let rounds = 60_000 / ps.len();
    let mut count: Vec<Vec<u32>> = ps.iter().map(|p| vec![0; p.len()]).collect();
    let mut state = c.seed;
    for r in 0..rounds * ps.len() {
        state = mix(state);
        // in turn at first, then in any order
        let j = if r < rounds { r % ps.len() } else { (state % ps.len() as u64) as usize };
        let e = s.choose(&ps[j], r % 3).ok_or_else(|| format!("declined on {}", ps[j]))?;
        let i = ps[j].rhs_iter().position(|q| std::ptr::eq(q, e)).or_else(|| alt_index(&ps[j], e));
        let i = i.ok_or_else(|| format!("picked {e}, no alternative of {}", ps[j]))?;
        count[j][i] += 1;
    }
    for (j, (k, every)) in c.sizes.iter().enumerate() {
        let w: Vec<f64> = (0..*k)
            .map(|i| c.weights.map_or(1.0, |(r, nr)| f64::from(if i % every == 0 { r } else { nr })))
            .collect();
        let w = if w.iter().all(|x| *x == 0.0) { vec![1.0; *k] } else { w };
        let total: f64 = w.iter().sum();
        let draws: u32 = count[j].iter().sum();
        let (mut x2, mut cells) = (0.0, 0);
        let (mut low, mut low_count) = (0.0, 0.0);
        for i in 0..*k {
            let e = f64::from(draws) * w[i] / total;
            let o = f64::from(count[j][i]);
            if e == 0.0 && o > 0.0 {
                return Err(format!("alternative {i} of weight 0 was picked {o} times (weights {:?}, {k} alternatives)", c.weights));
            }
            if improbable(count[j][i] as usize, draws as usize, w[i] / total) {
                return Err(format!(
                    "alternative {i} of {k} was picked {o} times out of {draws} instead of about {e:.1} (weights {:?})",
                    c.weights
                ));
            }
            if e < 10.0 {
                low += e;
                low_count += o;
            } else {
                x2 += (o - e) * (o - e) / e;
                cells += 1;
            }
        }
        if low >= 10.0 {
            x2 += (low_count - low) * (low_count - low) / low;
            cells += 1;
        }
        if cells > 1 {
            // the cube root of chi-square over its degrees of freedom is close to normal
            let df = f64::from(cells - 1);
            let v = 2.0 / (9.0 * df);
            let z = ((x2 / df).cbrt() - (1.0 - v)) / v.sqrt();
            if z > 7.0 {
                return Err(format!(
                    "{draws} draws from {k} alternatives do not follow the weights {:?}: chi-square {x2:.0} with {df} degrees of freedom; counts {:?}",
                    c.weights, count[j]
                ));
            }
            ctx.label("chi-square judged");
        }
    }
    ctx.label_if(ps.len() > 1, "several productions in turn");
    ctx.nontrivial(hash_of(c));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FineCase {
    pub kind: Kind,
    pub size: usize,
    pub seed: u64,
}

fn fine_case(t: &mut Tape) -> FineCase {
    FineCase {
        kind: match t.below(4) {
            0 | 1 => Kind::Random,
            2 => Kind::Weighted(1, *t.pick(&[1u32, 2, 3, 5])),
            _ => Kind::Weighted(0, 0),
        },
        size: *t.pick(&[3usize, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 17, 20, 24, 26, 30, 48, 60, 100, 200]),
        seed: t.draw(u64::MAX),
    }
}

/// So many draws that a bias of a few percent shows.
fn c18_fine(c: &FineCase, ctx: &mut Ctx) -> CheckResult {
    const DRAWS: usize = 600_000;
    let m = prod(
        "s",
        (0..c.size).map(|i| if i % 4 == 1 { vec![t_num(i), n("s")] } else { vec![t_num(i)] }).collect(),
    );
    let p = bridge::production(&m);
    let at: Vec<*const Expression> = p.rhs_iter().map(|e| e as *const Expression).collect();
    let mut s = Strat::new(c.kind, c.seed);
    let mut count = vec![0u32; c.size];
    for _ in 0..DRAWS {
        let e = s.choose(&p, 1).ok_or("declined")? as *const Expression;
        // alternatives lie side by side
        let i = (e as usize).wrapping_sub(at[0] as usize) / size_of::<Expression>();
        let i = if at.get(i) == Some(&e) { Some(i) } else { at.iter().position(|q| *q == e) };
        count[i.ok_or("picked something that is no alternative")?] += 1;
    }
    let w: Vec<f64> = m
        .alts
        .iter()
        .map(|a| match c.kind {
            Kind::Weighted(r, nr) if (r, nr) != (0, 0) => f64::from(if a.contains(&m.lhs) { r } else { nr }),
            _ => 1.0,
        })
        .collect();
    let total: f64 = w.iter().sum();
    let x2: f64 = (0..c.size)
        .map(|i| {
            let e = DRAWS as f64 * w[i] / total;
            (f64::from(count[i]) - e).powi(2) / e
        })
        .sum();
    let df = (c.size - 1) as f64;
    let v = 2.0 / (9.0 * df);
    let z = ((x2 / df).cbrt() - (1.0 - v)) / v.sqrt();
    ctx.nontrivial(hash_of(c));
    ctx.label("chi-square judged");
    if z > 7.0 {
        return Err(format!(
            "{DRAWS} draws from {} alternatives by {:?} do not follow the promised probabilities: chi-square {x2:.0} with {df} degrees of freedom; counts {count:?}",
            c.size, c.kind
        ));
    }
    Ok(())
}

fn t_num(i: usize) -> MTerm {
    MTerm::T(format!("{i}"))
}

/// End to end: with only one kind of alternative weighted, whole generations show it.
fn c18_run(c: &GenCase, ctx: &mut Ctx) -> CheckResult {
    let Kind::Weighted(r, nr) = c.kind else { return Ok(()) };
    let g = bridge::grammar(&c.grammar);
    let mut rec = Recorder::new(Strat::new(c.kind, c.seed), &g, STEPS);
    for _ in 0..c.calls {
        rec.log.clear();
        rec.tripped = false;
        let _ = g.generate_seeded_with_strategy(&mut rec);
        if let Some(e) = rec.fault {
            return Err(e);
        }
        for (i, _, a) in &rec.log {
            let Some(a) = a else { continue };
            let p = &c.grammar.prods[*i];
            let weight = |a: &MExpr| if a.contains(&p.lhs) { r } else { nr };
            if weight(&p.alts[*a]) == 0 && p.alts.iter().any(|a| weight(a) > 0) {
                return Err(format!(
                    "picked alternative {a} of weight 0 in {} with weights {r}, {nr}",
                    bnf_text(&MGrammar { prods: vec![p.clone()] })
                ));
            }
            ctx.label_if(weight(&p.alts[*a]) == 0, "all weights zero");
        }
        if rec.log.len() > 1 {
            ctx.nontrivial(hash_of(c));
        }
    }
    Ok(())
}

fn weighted_run_case(t: &mut Tape) -> GenCase {
    let mut c = gen_case(t);
    let w = [0u32, 1, 5, u32::MAX];
    c.kind = Kind::Weighted(*t.pick(&w), *t.pick(&w));
    c
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C12",
            rule: "random, template and large grammars (undefined names, empty or missing alternatives, terminal left-hand sides, repeated left-hand sides, odd characters) x the four strategies x seeds, over several calls, choices recorded; the four entry points without a strategy; and callbacks that turn texts down up to nine times. Non-trivial: at least two choices made",
            assumptions: &[
                "runs are cut off after 300 choices (random walks over some grammars grow without bound)",
                "entry points without strategy are run only on grammars whose uniform walk stays small",
            ],
            modes: vec![
                mode("strategies", 60_000, 1_500_000, gen_case, c12),
                mode("entry-points", 12_000, 300_000, tame_case, c12_plain),
                mode("deep", 400, 6_000, deep_gen_case, c12_deep),
                mode("callbacks", 30_000, 600_000, either_case, c12_callback),
            ],
        },
        Property {
            id: "C13",
            rule: "grammars dense in rules that cannot finish, undefined names, missing alternatives x strategies x seeds; outcome compared with the fixpoint facts of the grammar and the recorded choices. Non-trivial: outcome decided by the oracle",
            assumptions: &["expansions still going after 2000 choices without entering a rule that cannot finish are not judged"],
            modes: vec![
                mode("unfinishable", 200_000, 1_500_000, hard_case, c13),
                mode("mixed", 60_000, 600_000, gen_case, c13),
                mode("large", 300, 5_000, large_hard, c13),
                mode("entry-points", 20_000, 300_000, hard_case, c13_plain),
            ],
        },
        Property {
            id: "C14",
            rule: "sequences of seeded calls repeated on the same grammar, on clones, re-read and deserialised copies, with and without callback; and frequency of sentences from the entry points without a strategy, against the probability each sentence has under uniform choices (recursive grammars, below chains of up to 70 rules). Non-trivial: a sentence of more than two bytes (plain: any sentence)",
            assumptions: &["frequencies are judged by the Chernoff bound at e^-30 per count"],
            modes: vec![
                mode("sequences", 80_000, 600_000, same_case, c14),
                mode("entry-points", 12_000, 200_000, tame_same, c14_plain),
                mode("long", 160, 2_000, long_same, c14),
                mode("uniform", 64, 1000, dist_case, c14_uniform),
                mode("masses", 1000, 20_000, mass_case, c14_masses),
            ],
        },
        Property {
            id: "C15",
            rule: "grammars x scripted user strategies (choices, declining at some question) x scripted callback verdicts; the sequence of questions (production, depth) and callbacks (name, text) and the result compared with a reference interpreter. Non-trivial: more than two questions and callbacks",
            assumptions: &["how soon an error about a rule that cannot be expanded is raised is left open"],
            modes: vec![mode("scripted", 300_000, 3_000_000, script_case, c15)],
        },
        Property {
            id: "C16",
            rule: "productions x depth x maximum depth (around and far from the bound), many draws each from one strategy with or without a seed or from new ones without a seed, up to 300 alternatives; histories of one strategy over productions that are easily confused (same name, same size, reordered) with changing depth and maximum; and whole generations over grammars in which every rule has a terminal-only alternative. Non-trivial: at least two alternatives (histories: three steps, runs: two choices)",
            assumptions: &["an alternative is taken never to be picked after 60 draws per alternative"],
            modes: vec![
                mode("choose", 400_000, 1_500_000, choose_case, c16),
                mode("histories", 500_000, 1_500_000, history_case, c16_history),
                mode("runs", 400_000, 1_200_000, bounded_case, c16_run),
            ],
        },
        Property {
            id: "C17",
            rule: "histories of direct questions and whole generations over one to four grammars in turn (each dropped before the next), sharing one strategy, with rules of the same name and size or split rules in some, and up to 300 alternatives; up to 1030 productions in turn, and productions that differ but print the same; per production (by value) the set of picked alternatives is kept. Non-trivial: more than three steps",
            assumptions: &["equal productions of different grammars count as one production"],
            modes: vec![
                mode("histories", 120_000, 600_000, cover_case, c17),
                mode("many", 4_000, 20_000, many_prods, c17_many),
                mode("look-alikes", 16_000, 60_000, alike_prods, c17_many),
            ],
        },
        Property {
            id: "C18",
            rule: "productions x weights (zero, small, huge) x seeds: 2500 draws from one strategy or 1500 fresh seeds (or instances without a seed); counts and successive pairs against the promised probabilities; 60000 draws over up to three productions in turn with up to 300 alternatives, judged by chi-square; 600000 draws from one production, likewise; zero weights also over whole generations. Non-trivial: at least two alternatives",
            assumptions: &["counts are judged by the Chernoff bound at e^-30 each, so a sound implementation is accused with negligible probability; chi-square at seven standard deviations"],
            modes: vec![
                mode("choose", 32_000, 200_000, weight_case, c18),
                mode("fine", 320, 2_000, fine_case, c18_fine),
                mode("wide", 960, 6_000, wide_case, c18_wide),
                mode("runs", 40_000, 300_000, weighted_run_case, c18_run),
            ],
        },
    ]
}

//! C07-C11, C25: reading and printing grammar text.
use crate::bridge;
use crate::fw::{CheckResult, Ctx, Property, mode};
use crate::guard;
use bnf::{ABNF, BNF, Error, Expression, Format, Grammar, Production, Term};
use model::ast::*;
use model::extend::{self, Notation, Spell, XExpr, XGrammar, XOpts, XProd, XTerm};
use model::gener::{self, Opts};
use model::hash_of;
use model::oracle::{Flat, recognise};
use model::reader::{Reader, looks_bnf};
use model::tape::Tape;
use serde::{Deserialize, Serialize};

fn must<T>(r: Result<T, Error>, what: &str, text: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what} rejects well-formed text: {e}\ntext: {text:?}"))
}

fn differ(what: &str, text: &str, got: &MGrammar, want: &MGrammar) -> String {
    format!(
        "{what} read {text:?}\nas\n{}instead of\n{}",
        bnf_text(got),
        bnf_text(want)
    )
}

/// Does the plain grammar `m`, as read, mean the extended grammar `x`? Exact for plain text; for
/// groups the expected shape is tried first, and only a difference in the language (or in the
/// written rules' order, or a captured name) is reported.
pub fn same_meaning(x: &XGrammar, m: &MGrammar) -> CheckResult {
    if let Some(p) = x.to_plain() {
        return if p == *m {
            Ok(())
        } else {
            Err(format!("read as\n{}instead of\n{}", bnf_text(m), bnf_text(&p)))
        };
    }
    let Err(shape) = extend::check_lowering(x, m) else {
        return Ok(());
    };
    guard::uncounted(|| {
        let names = x.names();
        let written: Vec<&str> = x.prods.iter().map(|p| p.lhs.as_str()).collect();
        let kept: Vec<&str> = m
            .prods
            .iter()
            .map(|p| p.lhs.text())
            .filter(|l| names.iter().any(|n| n == l))
            .collect();
        if written != kept || m.prods.first().map(|p| p.lhs.text()) != written.first().copied() {
            return Err(format!("{shape}\nread as\n{}", bnf_text(m)));
        }
        let own = extend::lower(x, &names);
        for u in m.undefined() {
            if !names.iter().any(|n| n == u) {
                return Err(format!("generated <{u}> has no production; {shape}"));
            }
        }
        let (fo, fm) = (Flat::new(&own), Flat::new(m));
        let mut t = Tape::random(hash_of(x));
        // A library that lowers groups in another way takes this path for every text: the time
        // spent here is bounded, after which fewer sentences are compared.
        static SPENT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let started = std::time::Instant::now();
        let before = SPENT.load(std::sync::atomic::Ordering::Relaxed);
        let samples = match before {
            0..150_000_000 => 160,
            150_000_000..400_000_000 => 24,
            _ => 4,
        };
        let spend = || {
            SPENT.fetch_add(started.elapsed().as_micros() as u64, std::sync::atomic::Ordering::Relaxed);
        };
        for name in own.nonterminals().iter().filter(|n| names.iter().any(|k| k == *n)) {
            let (Some(so), Some(sm)) = (fo.head(&n(name)), fm.head(&n(name))) else {
                return Err(format!("<{name}> lost; {shape}"));
            };
            for k in 0..samples {
                if samples < 160 && started.elapsed().as_millis() > 20 {
                    break;
                }
                let from = if k % 2 == 0 { &own } else { m };
                let budget = t.range(0, 14);
                let Some(mut s) = gener::sentence(&mut t, from, name, budget, 60) else { continue };
                if k % 5 == 4 {
                    let a = gener::terminals_of(from);
                    s = gener::mutate(&mut t, &s, &a);
                }
                let (a, b) = (recognise(&fo, so, &s), recognise(&fm, sm, &s));
                if a != b {
                    return Err(format!(
                        "{s:?} is {}derivable from <{name}> in the text but {}in the grammar read as\n{}({shape})",
                        if a { "" } else { "not " },
                        if b { "is " } else { "not " },
                        bnf_text(m)
                    ));
                }
            }
        }
        spend();
        Ok(())
    })
}

// ---------- C07 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TextCase {
    pub grammar: XGrammar,
    pub text: String,
}

fn readable_grammar(t: &mut Tape) -> MGrammar {
    match t.weighted(&[6, 6, 2]) {
        0 => gener::random_grammar(
            t,
            &Opts {
                empty_alts: false,
                undefined: 20,
                ..Opts::default()
            },
        ),
        1 => gener::random_grammar(
            t,
            &Opts {
                empty_alts: false,
                odd: true,
                undefined: 20,
                ..Opts::default()
            },
        ),
        _ => gener::big_grammar(t),
    }
}

fn fix_quotes(g: &mut MGrammar) {
    for p in &mut g.prods {
        for x in p.alts.iter_mut().flatten() {
            if let MTerm::T(s) = x
                && s.contains('\'')
                && s.contains('"')
            {
                *s = s.replace('"', "");
            }
        }
    }
}

fn plain_text(t: &mut Tape) -> TextCase {
    let mut g = readable_grammar(t);
    fix_quotes(&mut g);
    let grammar = XGrammar::plain(&g);
    let tame = t.chance(1, 12);
    let text = extend::spell(t, extend::BNF, &grammar, tame);
    TextCase { grammar, text }
}

fn large_text(t: &mut Tape) -> TextCase {
    let grammar = XGrammar::plain(&gener::large_grammar(t));
    let tame = t.chance(1, 2);
    // a long gap before, after or amid the productions
    let k = *t.pick(&[0usize, 0, 300, 1000, 5000, 70_000]);
    let unit = *t.pick(&[" ", "\n", "; x\n", "\r\n", "\t;\n", "\u{3000}"]);
    let gap = unit.repeat(k);
    let at = t.below(grammar.prods.len() + 1);
    let mut text = String::new();
    for (i, part) in [&grammar.prods[..at], &grammar.prods[at..]].into_iter().enumerate() {
        if !part.is_empty() {
            text.push_str(&extend::spell(t, extend::BNF, &XGrammar { prods: part.to_vec() }, tame));
            text.push('\n');
        }
        if i == 0 {
            text.push_str(&gap);
        }
    }
    TextCase { grammar, text }
}

fn c07(c: &TextCase, ctx: &mut Ctx) -> CheckResult {
    let want = c.grammar.to_plain().expect("plain");
    let g1 = must(c.text.parse::<Grammar>(), "str::parse", &c.text)?;
    let g2 = must(Grammar::parse_from::<BNF>(&c.text), "parse_from::<BNF>", &c.text)?;
    for (what, g) in [("str::parse", &g1), ("parse_from::<BNF>", &g2)] {
        let m = bridge::un_grammar(g);
        if m != want {
            return Err(differ(what, &c.text, &m, &want));
        }
        if *g != bridge::grammar(&want) {
            return Err(format!("{what}: value differs from the one built by hand for {:?}", c.text));
        }
    }
    ctx.label_if(c.text.contains(';'), "comments");
    ctx.label_if(!c.text.is_ascii(), "non-ASCII");
    ctx.label_if(c.text.contains(['(', '[']), "brackets in quotes, names or comments");
    ctx.label_if(want.prods.len() == 1, "single production");
    if c.text.len() > 12 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Part {
    Prod(MProd),
    Expr(MExpr),
    Term(MTerm),
}
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PartCase {
    pub part: Part,
    pub text: String,
}

fn x_of(m: &MTerm) -> XTerm {
    match m {
        MTerm::T(s) => XTerm::T(s.clone()),
        MTerm::N(s) => XTerm::N(s.clone()),
    }
}

fn part_case(t: &mut Tape) -> PartCase {
    let mut g = readable_grammar(t);
    fix_quotes(&mut g);
    let p = t.pick(&g.prods).clone();
    let kind = t.below(3);
    let mut s = Spell::new(extend::BNF, t, false);
    let part = match kind {
        0 => {
            let x = XGrammar::plain(&MGrammar { prods: vec![p.clone()] });
            s.production(&x.prods[0]);
            Part::Prod(p)
        }
        1 => {
            let e = p.alts[0].clone();
            let x: XExpr = e.iter().map(x_of).collect();
            s.expr(&x);
            Part::Expr(e)
        }
        _ => {
            let m = p.alts[0][0].clone();
            s.term(&x_of(&m));
            Part::Term(m)
        }
    };
    let mut text = s.out;
    let tail = extend::gap(t, false, false);
    text.push_str(&tail);
    PartCase { part, text }
}

fn c07_part(c: &PartCase, ctx: &mut Ctx) -> CheckResult {
    let text = &c.text;
    let ok = match &c.part {
        Part::Prod(p) => {
            let v = must(text.parse::<Production>(), "Production::from_str", text)?;
            bridge::un_production(&v) == *p && v == bridge::production(p)
        }
        Part::Expr(e) => {
            let v = must(text.parse::<Expression>(), "Expression::from_str", text)?;
            bridge::un_expr(&v) == *e && v == bridge::expr(e)
        }
        Part::Term(m) => {
            let v = must(text.parse::<Term>(), "Term::from_str", text)?;
            bridge::un_term(&v) == *m && v == bridge::term(m)
        }
    };
    ctx.label(match c.part {
        Part::Prod(_) => "production",
        Part::Expr(_) => "expression",
        Part::Term(_) => "term",
    });
    if text.len() > 4 {
        ctx.nontrivial(hash_of(c));
    }
    if ok {
        Ok(())
    } else {
        Err(format!("{text:?} is read as something else than {:?}", c.part))
    }
}

// ---------- C08 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SoupCase {
    pub text: String,
}

fn small_x(t: &mut Tape, abnf: bool) -> XGrammar {
    let odd = !abnf && t.chance(1, 4);
    extend::xgrammar(
        t,
        &XOpts {
            max_nts: 3,
            max_depth: 2,
            abnf_names: abnf,
            odd,
            incr: true,
            group_pct: 15,
        },
    )
}

fn soup(t: &mut Tape) -> SoupCase {
    let text = match t.weighted(&[8, 5, 2]) {
        0 => {
            let abnf = t.chance(1, 2);
            let g = small_x(t, abnf);
            let tame = t.chance(1, 2);
            let s = extend::spell(t, if abnf { extend::ABNF } else { extend::BNF }, &g, tame);
            gener::mangle(t, &s)
        }
        1 => t.list(0, 24, 8, |t, _| *t.pick(&gener::TOKENS)).concat(),
        _ => gener::odd_string(t, 30, 10, &[]),
    };
    SoupCase { text }
}

/// Compare one reading with the reference reader.
pub fn judge(
    what: &str,
    text: &str,
    got: Result<Grammar, Error>,
    want: Option<XGrammar>,
    ctx: &mut Ctx,
) -> CheckResult {
    match (got, want) {
        (Ok(g), Some(x)) => {
            ctx.label("accepted");
            same_meaning(&x, &bridge::un_grammar(&g)).map_err(|e| format!("{what} of {text:?}: {e}"))
        }
        (Ok(g), None) => Err(format!(
            "{what} accepts malformed text {text:?} as\n{}",
            bnf_text(&bridge::un_grammar(&g))
        )),
        (Err(e), Some(x)) => Err(format!("{what} rejects well-formed text {text:?}: {e}\nmeaning {x:?}")),
        (Err(Error::ParseError(_)), None) => {
            ctx.label("rejected");
            Ok(())
        }
        (Err(e), None) => Err(format!("{what} of {text:?} fails with something else than a parse error: {e:?}")),
    }
}

fn single(what: &str, text: &str, err: &Error) -> CheckResult {
    if matches!(err, Error::ParseError(_)) {
        Ok(())
    } else {
        Err(format!("{what} of {text:?} fails with something else than a parse error: {err:?}"))
    }
}

fn c08(c: &SoupCase, ctx: &mut Ctx) -> CheckResult {
    let text = c.text.as_str();
    let as_bnf = Reader::new(text, extend::BNF, true).grammar();
    let as_abnf = Reader::new(text, extend::ABNF, true).grammar();
    let auto = if looks_bnf(text) { as_bnf.clone() } else { as_abnf.clone() };
    judge("parse_from::<BNF>", text, Grammar::parse_from::<BNF>(text), as_bnf, ctx)?;
    judge("parse_from::<ABNF>", text, Grammar::parse_from::<ABNF>(text), as_abnf, ctx)?;
    judge("str::parse", text, text.parse::<Grammar>(), auto, ctx)?;
    parts(text, ctx)?;
    if text.len() > 2 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

fn parts(text: &str, ctx: &mut Ctx) -> CheckResult {
    let want = Reader::new(text, extend::BNF, false).whole_production();
    match (text.parse::<Production>(), want) {
        (Ok(p), Some(w)) => {
            ctx.label("production accepted");
            let w = XGrammar { prods: vec![w] }.to_plain().expect("plain");
            if bridge::un_production(&p) != w.prods[0] {
                return Err(format!("Production::from_str reads {text:?} as {p}"));
            }
        }
        (Err(e), None) => single("Production::from_str", text, &e)?,
        (a, b) => return Err(format!("Production::from_str of {text:?}: {a:?}, expected {b:?}")),
    }
    let want = Reader::new(text, extend::BNF, false).whole_expr();
    match (text.parse::<Expression>(), want) {
        (Ok(p), Some(w)) => {
            ctx.label("expression accepted");
            if bridge::un_expr(&p).iter().map(x_of).collect::<Vec<_>>() != w {
                return Err(format!("Expression::from_str reads {text:?} as {p}"));
            }
        }
        (Err(e), None) => single("Expression::from_str", text, &e)?,
        (a, b) => return Err(format!("Expression::from_str of {text:?}: {a:?}, expected {b:?}")),
    }
    let want = Reader::new(text, extend::BNF, false).whole_term();
    match (text.parse::<Term>(), want) {
        (Ok(p), Some(w)) => {
            ctx.label("term accepted");
            if bridge::un_term(&p) != w {
                return Err(format!("Term::from_str reads {text:?} as {p}"));
            }
        }
        (Err(e), None) => single("Term::from_str", text, &e)?,
        (a, b) => return Err(format!("Term::from_str of {text:?}: {a:?}, expected {b:?}")),
    }
    Ok(())
}

/// Short texts for the single-value readers, where acceptance is common.
fn part_soup(t: &mut Tape) -> SoupCase {
    let c = part_case(t);
    let text = if t.chance(1, 2) { gener::mangle(t, &c.text) } else { t.list(0, 8, 3, |t, _| *t.pick(&gener::TOKENS)).concat() };
    SoupCase { text }
}

/// Texts of a few tokens over a small alphabet: nearly every such text turns up.
fn short_soup(t: &mut Tape) -> SoupCase {
    const BITS: [&str; 18] = [
        "<a>", "a", "::=", "=", "=/", "|", "/", "'x'", "\"y\"", "(", ")", "[", "]", "\n", ";", "'", "<", " ",
    ];
    let head = *t.pick(&["", "", "<a>::=", "a=", "<a>::='x'", "a='x'", "<a>::=<a>|", "a=("]);
    let n = t.below(6);
    let mut text = String::from(head);
    for _ in 0..n {
        text.push_str(t.pick::<&str>(&BITS));
    }
    SoupCase { text }
}

fn c08_parts(c: &SoupCase, ctx: &mut Ctx) -> CheckResult {
    parts(&c.text, ctx)?;
    if c.text.len() > 1 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

/// Long and repetitive texts: many rules, many alternatives, moderately deep or unbalanced brackets.
fn long_soup(t: &mut Tape) -> SoupCase {
    let k = *t.pick(&[10usize, 40, 100, 200]);
    let body = match t.below(7) {
        0 => format!("<s> ::= {}'a'{}", "(".repeat(k), ")".repeat(k)),
        1 => format!("<s> ::= {}'a'{}", "[".repeat(k), "]".repeat(t.below(k + 2))),
        2 => format!("<s> ::= {}'a'", "(".repeat(k)),
        3 => (0..k).map(|i| format!("<n{i}> ::= 'x' | <n{}>\n", i + 1)).collect(),
        4 => format!("s = {}'z'", "'x' / ".repeat(k)),
        5 => format!("{}<s> ::= 'a'", "; comment ' ( [\n".repeat(k)),
        _ => format!("s = {}'a'{}", "( ".repeat(k), " )".repeat(k)),
    };
    let text = if t.chance(1, 3) { gener::mangle(t, &body) } else { body };
    SoupCase { text }
}

// ---------- C09 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct GroupCase {
    pub grammar: XGrammar,
    pub abnf: bool,
    pub text: String,
    pub samples: u64,
}

fn group_case(t: &mut Tape) -> GroupCase {
    let abnf = t.chance(1, 3);
    let odd = !abnf && t.chance(1, 5);
    let grammar = extend::xgrammar(
        t,
        &XOpts {
            max_nts: 4,
            max_depth: 3,
            abnf_names: abnf,
            odd,
            incr: true,
            group_pct: 35,
        },
    );
    let tame = t.chance(1, 6);
    let text = extend::spell(t, if abnf { extend::ABNF } else { extend::BNF }, &grammar, tame);
    GroupCase {
        grammar,
        abnf,
        text,
        samples: t.draw(1 << 32),
    }
}

/// Hundreds of groups side by side, with names like the generated ones written here and there.
fn many_case(t: &mut Tape) -> GroupCase {
    let k = *t.pick(&[90usize, 101, 128, 255, 257, 300, 600, 1001]);
    let abnf = t.chance(1, 3);
    let taken: Vec<usize> = (0..t.below(6)).map(|_| t.below(k + 2)).collect();
    let term = |t: &mut Tape, i: usize| -> XTerm {
        if !abnf && !taken.is_empty() && t.chance(1, 20) {
            return XTerm::N(format!("__anon{}", t.pick(&taken)));
        }
        XTerm::T(format!("{}", i % 10))
    };
    let mut prods = vec![];
    let per = *t.pick(&[1usize, 10, 2000]);
    let mut alts: Vec<XExpr> = vec![];
    for i in 0..k {
        let inner = vec![vec![term(t, i)], vec![term(t, i + 1), term(t, i)]];
        let group = if t.chance(1, 2) { XTerm::O(inner) } else { XTerm::G(inner) };
        if alts.is_empty() || t.chance(1, 3) {
            alts.push(vec![]);
        }
        alts.last_mut().expect("alternative").push(group);
        if (i + 1) % per == 0 || i + 1 == k {
            let lhs = format!("r{}", prods.len());
            prods.push(XProd { lhs, alts: std::mem::take(&mut alts), incr: false });
        }
    }
    if !abnf {
        for a in &taken {
            let alts = vec![vec![XTerm::T("taken".into())]];
            prods.push(XProd { lhs: format!("__anon{a}"), alts, incr: false });
        }
    }
    let grammar = XGrammar { prods };
    let text = extend::spell(t, if abnf { extend::ABNF } else { extend::BNF }, &grammar, true);
    GroupCase { grammar, abnf, text, samples: 0 }
}

fn deep_case(t: &mut Tape) -> GroupCase {
    let depth = *t.pick(&[5usize, 12, 30, 60, 64, 65, 100, 128, 150, 200]);
    let grammar = extend::deep_group(t, depth);
    let abnf = t.chance(1, 2);
    let text = extend::spell(t, if abnf { extend::ABNF } else { extend::BNF }, &grammar, true);
    GroupCase {
        grammar,
        abnf,
        text,
        samples: 0,
    }
}

/// Names of the form the library generates, defined and referred to in all places.
fn anon_case(t: &mut Tape) -> GroupCase {
    let mut c = group_case(t);
    fn rename(e: &mut XExpr, t: &mut Tape) {
        for x in e {
            match x {
                XTerm::T(_) => {}
                XTerm::N(s) => {
                    if t.chance(1, 2) {
                        *s = format!("__anon{}", t.below(4));
                    }
                }
                XTerm::G(a) | XTerm::O(a) => a.iter_mut().for_each(|e| rename(e, t)),
            }
        }
    }
    for p in &mut c.grammar.prods {
        if t.chance(1, 2) {
            p.lhs = format!("__anon{}", t.below(4));
        }
        p.alts.iter_mut().for_each(|e| rename(e, t));
    }
    c.abnf = false;
    c.text = extend::spell(t, extend::BNF, &c.grammar, true);
    c
}

fn c09(c: &GroupCase, ctx: &mut Ctx) -> CheckResult {
    let g = if c.abnf {
        must(Grammar::parse_from::<ABNF>(&c.text), "parse_from::<ABNF>", &c.text)?
    } else {
        must(Grammar::parse_from::<BNF>(&c.text), "parse_from::<BNF>", &c.text)?
    };
    let auto = must(c.text.parse::<Grammar>(), "str::parse", &c.text)?;
    if auto != g {
        return Err(format!("str::parse and parse_from differ on {:?}", c.text));
    }
    let m = bridge::un_grammar(&g);
    same_meaning(&c.grammar, &m).map_err(|e| format!("{:?}: {e}", c.text))?;
    let groups = c.grammar.groups();
    ctx.label_if(c.abnf, "ABNF");
    ctx.label_if(c.grammar.nesting() > 1, "nested");
    ctx.label_if(c.grammar.nesting() > 50, "nested over 50 deep");
    ctx.label_if(c.grammar.names().iter().any(|s| s.starts_with("__anon")), "written __anon names");
    ctx.add("groups", groups as u64);
    if groups > 0 {
        ctx.nontrivial(hash_of(&c.text));
    }
    // the library's own parser accepts exactly what the text denotes
    if c.samples != 0 && m.undefined().is_empty() {
        let own = extend::lower(&c.grammar, &c.grammar.names());
        let f = Flat::new(&own);
        if guard::uncounted(|| model::oracle::grammar_cyclic(&f)) {
            return Ok(());
        }
        let start = c.grammar.prods[0].lhs.clone();
        let s0 = f.head(&n(&start)).expect("start");
        let mut t = Tape::random(c.samples);
        let parser = g.build_parser().map_err(|e| e.to_string())?;
        for _ in 0..3 {
            let input = gener::input_for(&mut t, &own, &start, 10);
            let a = super::parse::analyse(&own, &n(&start), &input);
            if a.cyclic || a.items > 3000 {
                continue;
            }
            let want = recognise(&f, s0, &input);
            let got = parser.parse_input(&input).next().is_some();
            ctx.add("inputs parsed", 1);
            if want != got {
                return Err(format!(
                    "{input:?} is {}denoted by {:?} but parsing it {}",
                    if want { "" } else { "not " },
                    c.text,
                    if got { "succeeds" } else { "fails" }
                ));
            }
        }
    }
    Ok(())
}

// ---------- C10 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DualCase {
    pub grammar: XGrammar,
    pub abnf: String,
    pub bnf: String,
}

fn dual_case(t: &mut Tape) -> DualCase {
    let group_pct = *t.pick(&[0u64, 0, 25]);
    let grammar = extend::xgrammar(
        t,
        &XOpts {
            max_nts: 5,
            max_depth: 2,
            abnf_names: true,
            odd: false,
            incr: true,
            group_pct,
        },
    );
    let tame = t.chance(1, 6);
    let abnf = extend::spell(t, extend::ABNF, &grammar, tame);
    let bnf = extend::spell(t, extend::BNF, &grammar, tame);
    DualCase { grammar, abnf, bnf }
}

fn large_dual(t: &mut Tape) -> DualCase {
    let grammar = XGrammar::plain(&gener::large_grammar(t));
    let tame = t.chance(1, 2);
    let abnf = extend::spell(t, extend::ABNF, &grammar, tame);
    let bnf = extend::spell(t, extend::BNF, &grammar, tame);
    DualCase { grammar, abnf, bnf }
}

fn c10(c: &DualCase, ctx: &mut Ctx) -> CheckResult {
    let a = must(Grammar::parse_from::<ABNF>(&c.abnf), "parse_from::<ABNF>", &c.abnf)?;
    let b = must(Grammar::parse_from::<BNF>(&c.bnf), "parse_from::<BNF>", &c.bnf)?;
    let aa = must(c.abnf.parse::<Grammar>(), "str::parse", &c.abnf)?;
    let bb = must(c.bnf.parse::<Grammar>(), "str::parse", &c.bnf)?;
    let all = [("ABNF", &a), ("detected ABNF", &aa), ("detected BNF", &bb)];
    for (what, g) in all {
        if *g != b {
            return Err(format!(
                "{what} text {:?}\nreads as\n{g}but its BNF spelling\n{}\nreads as\n{b}",
                if what == "detected BNF" { &c.bnf } else { &c.abnf },
                c.bnf
            ));
        }
    }
    same_meaning(&c.grammar, &bridge::un_grammar(&a)).map_err(|e| format!("{:?}: {e}", c.abnf))?;
    let incr = c.grammar.prods.iter().any(|p| p.incr);
    ctx.label_if(incr, "incremental alternatives");
    ctx.label_if(c.grammar.groups() > 0, "groups");
    if c.abnf.len() > 8 {
        ctx.nontrivial(hash_of(c));
    }
    // a continued rule derives what each of its parts derives
    if incr && c.grammar.undefined_names().is_empty() {
        let own = extend::lower(&c.grammar, &c.grammar.names());
        let parser = a.build_parser().map_err(|e| e.to_string())?;
        for p in c.grammar.prods.iter().filter(|p| p.incr) {
            let start = n(&p.lhs);
            let probe = bridge::term(&start);
            let mut t = Tape::random(hash_of(&c.abnf));
            for alt in &p.alts {
                // a sentence of just this alternative
                let one = XGrammar {
                    prods: std::iter::once(XProd {
                        lhs: "\u{2}probe".into(),
                        alts: vec![alt.clone()],
                        incr: false,
                    })
                    .chain(c.grammar.prods.iter().cloned())
                    .collect(),
                };
                let low = extend::lower(&one, &one.names());
                let Some(s) = gener::sentence(&mut t, &low, "\u{2}probe", 4, 12) else { continue };
                let an = super::parse::analyse(&own, &start, &s);
                if an.cyclic || an.items > 3000 {
                    continue;
                }
                ctx.add("continued sentences parsed", 1);
                if parser.parse_input_starting_with(&s, &probe).next().is_none() {
                    return Err(format!("{s:?} of the continued rule {} is not parsed in {:?}", p.lhs, c.abnf));
                }
            }
        }
    }
    Ok(())
}

// ---------- C11 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PrintCase {
    pub grammar: MGrammar,
}

fn print_case(t: &mut Tape) -> PrintCase {
    let mut g = readable_grammar(t);
    fix_quotes(&mut g);
    PrintCase { grammar: g }
}

fn large_print(t: &mut Tape) -> PrintCase {
    PrintCase { grammar: gener::large_grammar(t) }
}

fn reread<T: std::str::FromStr<Err = Error> + std::fmt::Display + PartialEq>(v: &T, what: &str) -> CheckResult {
    let text = v.to_string();
    match text.parse::<T>() {
        Ok(w) if w == *v => {
            let again = w.to_string();
            if again == text {
                Ok(())
            } else {
                Err(format!("{what}: equal values print differently: {text:?} and {again:?}"))
            }
        }
        Ok(w) => Err(format!("{what}: {text:?} reads back as {:?}", w.to_string())),
        Err(e) => Err(format!("{what}: printed text {text:?} is rejected: {e}")),
    }
}

fn round_trip(g: &Grammar, what: &str) -> CheckResult {
    reread(g, what)?;
    let text = g.to_string();
    match Grammar::parse_from::<BNF>(&text) {
        Ok(w) if w == *g => Ok(()),
        Ok(w) => Err(format!("{what}: {text:?} reads back as {w}")),
        Err(e) => Err(format!("{what}: printed text {text:?} is rejected: {e}")),
    }
}

fn c11(c: &PrintCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    round_trip(&g, "grammar")?;
    for p in g.productions_iter() {
        reread(p, "production")?;
        reread(&p.lhs, "term")?;
        for e in p.rhs_iter() {
            reread(e, "expression")?;
            for x in e.terms_iter() {
                reread(x, "term")?;
            }
        }
    }
    ctx.label_if(c.grammar.terms().any(|x| x.text().contains(['\'', '"'])), "quotes in terms");
    ctx.label_if(c.grammar.prods.iter().any(|p| p.lhs.text().contains(['(', '[', ';', '\n'])), "odd names");
    if c.grammar.terms().count() > 1 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

fn c11_read(c: &GroupCase, ctx: &mut Ctx) -> CheckResult {
    if c.abnf && c.grammar.names().iter().any(|s| s.contains('>')) {
        ctx.discard();
        return Ok(());
    }
    let g = if c.abnf { Grammar::parse_from::<ABNF>(&c.text) } else { Grammar::parse_from::<BNF>(&c.text) };
    let g = must(g, "parse_from", &c.text)?;
    round_trip(&g, "grammar with groups")?;
    if c.grammar.groups() > 0 {
        ctx.nontrivial(hash_of(&c.text));
    }
    Ok(())
}

// ---------- C25 ----------

/// A user-defined format. `Format` has only static functions, so the one type reads the current
/// thread's choice.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Fmt {
    delim: Option<(char, char)>,
    /// index into SEPS
    sep: usize,
    alt: char,
    /// declares its opening delimiter as production start character
    start: bool,
}

const SEPS: [&str; 22] = [
    "->", "::=", "=", ":=", "=>", "→", ":", "==", "..", "::", ":==", "is", "<-", "-->", "~", "|=", "/=", "=:", "≡≡", "&&&",
    "::==", "-",
];
const ALTS: [char; 20] = [
    '|', '/', ',', '=', '¦', '!', '+', ':', '-', '>', '~', '&', '#', 'é', 'v', '日', '.', '0', '^', '<',
];
const DELIMS: [(char, char); 18] = [
    ('{', '}'), ('<', '>'), ('«', '»'), ('%', '%'), ('$', ';'), ('`', '`'), ('|', '|'), ('/', '/'), ('日', '本'), ('@', ' '),
    ('#', '\n'), ('a', 'z'), ('=', '='), (':', ':'), ('<', ':'), ('{', '|'), ('😀', '😀'), ('.', '='),
];

thread_local! {
    static CURRENT: std::cell::Cell<Fmt> = const { std::cell::Cell::new(Fmt { delim: None, sep: 0, alt: '|', start: false }) };
}
struct Dynamic;
impl Format for Dynamic {
    fn nonterminal_delimiter() -> Option<(char, char)> {
        CURRENT.get().delim
    }
    fn production_separator() -> &'static str {
        SEPS[CURRENT.get().sep]
    }
    fn alternative_separator() -> char {
        CURRENT.get().alt
    }
    fn production_start_char() -> Option<char> {
        let f = CURRENT.get();
        f.delim.filter(|_| f.start).map(|d| d.0)
    }
}

impl Fmt {
    fn notation(self) -> Notation {
        Notation {
            delim: self.delim,
            sep: SEPS[self.sep],
            alt: self.alt,
        }
    }
    /// Its tokens can be told apart in well-formed text with names that do not spell a separator.
    fn usable(self) -> bool {
        let sep = SEPS[self.sep];
        let mut chars = sep.chars();
        let (first, second) = (chars.next(), chars.next());
        if first == Some(self.alt) {
            // the rest of the separator must not be able to follow the alternative separator
            match (second, self.delim) {
                (None, _) => return false,
                (Some(c), Some((a, _))) if a == c => return false,
                (Some(c), None) if c.is_alphabetic() => return false,
                (Some(c), _) if "'\"([;".contains(c) || c.is_whitespace() => return false,
                _ => {}
            }
        }
        match self.delim {
            Some((a, _)) => a != self.alt && !(sep.starts_with(a) && second.is_none()),
            None => !self.alt.is_alphabetic() && !sep.starts_with(char::is_alphabetic),
        }
    }
    /// A name in this format that begins like the production separator.
    fn confusing(self, name: &str) -> bool {
        self.delim.is_some_and(|(a, b)| {
            let (whole, sep) = (format!("{a}{name}{b}"), SEPS[self.sep]);
            whole.starts_with(sep) || sep.starts_with(&whole)
        })
    }
    /// No two of its tokens can be taken for one another.
    fn sound(self) -> bool {
        let sep = SEPS[self.sep];
        if sep.contains(self.alt) {
            return false;
        }
        match self.delim {
            Some((a, _)) => a != self.alt && !sep.starts_with(a),
            None => !self.alt.is_alphabetic() && !sep.starts_with(char::is_alphabetic),
        }
    }
}

fn fmt(t: &mut Tape) -> Fmt {
    for _ in 0..8 {
        let f = Fmt {
            delim: if t.chance(2, 5) { None } else { Some(*t.pick(&DELIMS)) },
            sep: t.below(SEPS.len()),
            alt: *t.pick(&ALTS),
            start: t.chance(1, 2),
        };
        if f.usable() {
            return f;
        }
    }
    Fmt {
        delim: Some(('{', '}')),
        sep: 0,
        alt: ',',
        start: false,
    }
}

fn parse_format(f: Fmt, text: &str) -> Result<Grammar, Error> {
    CURRENT.set(f);
    Grammar::parse_from::<Dynamic>(text)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FormatCase {
    pub format: Fmt,
    pub grammar: XGrammar,
    pub text: String,
    pub bnf: String,
}

fn format_case(t: &mut Tape) -> FormatCase {
    let format = fmt(t);
    format_case_in(t, format)
}

fn format_case_in(t: &mut Tape, format: Fmt) -> FormatCase {
    let not = format.notation();
    let group_pct = *t.pick(&[0u64, 20]);
    let abnf_names = not.delim.is_none() || t.chance(1, 3);
    let mut grammar = extend::xgrammar(
        t,
        &XOpts {
            max_nts: 4,
            max_depth: 2,
            abnf_names,
            odd: false,
            incr: true,
            group_pct,
        },
    );
    if let Some((_, end)) = not.delim {
        // odd names without the closing delimiter
        let names = grammar.names();
        let new = gener::names(t, names.len(), |t| {
            let s = if t.chance(1, 2) {
                (*t.pick(&gener::PLAIN)).to_string()
            } else {
                gener::odd_string(t, 8, 2, &[end, '>'])
            };
            if format.confusing(&s) || s.contains(end) { format!("x{}", t.below(9)) } else { s }
        });
        let map: std::collections::HashMap<&String, &String> = names.iter().zip(&new).collect();
        fn walk(e: &mut XExpr, map: &std::collections::HashMap<&String, &String>) {
            for x in e {
                match x {
                    XTerm::T(_) => {}
                    XTerm::N(s) => *s = map[&*s].clone(),
                    XTerm::G(a) | XTerm::O(a) => a.iter_mut().for_each(|e| walk(e, map)),
                }
            }
        }
        for p in &mut grammar.prods {
            p.lhs = map[&p.lhs].clone();
            p.alts.iter_mut().for_each(|e| walk(e, &map));
        }
    }
    let tame = t.chance(1, 6);
    let text = extend::spell(t, not, &grammar, tame);
    let bnf = extend::spell(t, extend::BNF, &grammar, true);
    FormatCase {
        format,
        grammar,
        text,
        bnf,
    }
}

fn large_format(t: &mut Tape) -> FormatCase {
    let mut format = fmt(t);
    if let Some((a, b)) = format.delim
        && (a.is_ascii_alphanumeric() || b.is_ascii_alphanumeric())
    {
        format.delim = Some(('{', '}'));
    }
    if !format.sound() {
        format = Fmt { delim: Some(('{', '}')), sep: 0, alt: ',', start: true };
    }
    let grammar = XGrammar::plain(&gener::large_grammar(t));
    let text = extend::spell(t, format.notation(), &grammar, true);
    let bnf = extend::spell(t, extend::BNF, &grammar, true);
    FormatCase { format, grammar, text, bnf }
}

fn c25(c: &FormatCase, ctx: &mut Ctx) -> CheckResult {
    let what = format!("format {:?}", c.format.notation());
    let g = must(parse_format(c.format, &c.text), &what, &c.text)?;
    let b = must(Grammar::parse_from::<BNF>(&c.bnf), "parse_from::<BNF>", &c.bnf)?;
    same_meaning(&c.grammar, &bridge::un_grammar(&g)).map_err(|e| format!("{what}, {:?}: {e}", c.text))?;
    if g != b {
        return Err(format!("{what}: {:?} reads as\n{g}but as BNF {:?}\n{b}", c.text, c.bnf));
    }
    ctx.label(match c.format.delim {
        None => "bare names",
        Some((a, b)) if a == b => "same delimiter on both sides",
        Some(_) => "delimited names",
    });
    ctx.label_if(c.format.start && c.format.delim.is_some(), "with production start character");
    ctx.label_if(!c.grammar.is_plain(), "with groups");
    if c.text.len() > 8 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct FormatSoup {
    pub format: Fmt,
    pub text: String,
}

fn format_soup(t: &mut Tape) -> FormatSoup {
    let mut format = fmt(t);
    if !format.sound() {
        format.delim = Some(('{', '}'));
        format.alt = ',';
    }
    let c = format_case_in(t, format);
    let text = gener::mangle(t, &c.text);
    FormatSoup { format, text }
}

fn c25_soup(c: &FormatSoup, ctx: &mut Ctx) -> CheckResult {
    let want = Reader::new(&c.text, c.format.notation(), true).grammar();
    let what = format!("format {:?}", c.format.notation());
    judge(&what, &c.text, parse_format(c.format, &c.text), want, ctx)?;
    if c.text.len() > 2 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C07",
            rule: "grammars with odd names and terminals spelled in BNF with random layout (Unicode whitespace, comments, both quotes, shared lines), read back and compared with the grammar spelled; likewise single productions, expressions, terms. Non-trivial: text longer than 12 (parts: 4) bytes",
            assumptions: &["names without '>' and terminals without both quotes (others cannot be written)"],
            modes: vec![
                mode("grammar", 900_000, 4_000_000, plain_text, c07),
                mode("part", 900_000, 4_000_000, part_case, c07_part),
                mode("large", 900, 5_000, large_text, c07),
            ],
        },
        Property {
            id: "C08",
            rule: "mangled well-formed BNF/ABNF text, token soup, arbitrary strings and long or deeply bracketed text; acceptance and meaning compared with an independent reference reader, for BNF, ABNF, detected format, production, expression and term. Non-trivial: text longer than 2 bytes",
            assumptions: &["bracket nesting up to 200 (deeper nesting: see the known finding)"],
            modes: vec![
                mode("mangled", 2_100_000, 10_000_000, soup, c08),
                mode("parts", 1_200_000, 4_000_000, part_soup, c08_parts),
                mode("short", 1_500_000, 10_000_000, short_soup, c08),
                mode("long", 6_000, 20_000, long_soup, c08),
            ],
        },
        Property {
            id: "C09",
            rule: "extended grammars with nested groups, optionals and names resembling generated ones, spelled in BNF or ABNF; the plain grammar read compared with an independent lowering (shape, else language on sampled sentences), and sampled inputs parsed. Non-trivial: at least one group",
            assumptions: &["bracket nesting up to 200"],
            modes: vec![
                mode("groups", 160_000, 2_500_000, group_case, c09),
                mode("anon-names", 80_000, 1_000_000, anon_case, c09),
                mode("deep", 1_500, 10_000, deep_case, c09),
                mode("many", 300, 5_000, many_case, c09),
            ],
        },
        Property {
            id: "C10",
            rule: "grammars with names valid in both notations, incremental alternatives and groups, spelled in ABNF and in BNF with independent layouts; the four readings (explicit and detected) compared with each other and with the grammar spelled; sentences of continued rules parsed. Non-trivial: text longer than 8 bytes",
            assumptions: &["names start with a letter and contain no whitespace, ')', ']' or '>'"],
            modes: vec![
                mode("dual", 400_000, 5_000_000, dual_case, c10),
                mode("large", 300, 5_000, large_dual, c10),
            ],
        },
        Property {
            id: "C11",
            rule: "hand-built values over odd names and terminals, and grammars read from text with groups; printed, read back (detected and explicit BNF) and compared, then printed again. Non-trivial: more than one term, or a group",
            assumptions: &["alternatives have at least one term, productions at least one alternative and a nonterminal left-hand side (others have no BNF spelling)"],
            modes: vec![
                mode("built", 300_000, 4_000_000, print_case, c11),
                mode("read", 120_000, 2_000_000, group_case, c11_read),
                mode("large", 300, 5_000, large_print, c11),
            ],
        },
        Property {
            id: "C25",
            rule: "generated user-defined formats (19 kinds of delimiters or none x 22 production x 20 alternative separators, with or without start character, where the tokens cannot be confused) x extended grammars spelled in them with random layout, compared with the BNF reading and the grammar spelled; mangled text compared with the reference reader. Non-trivial: text longer than 8 bytes (2 when mangled)",
            assumptions: &["formats whose delimiters and separators do not clash with quotes, brackets or each other"],
            modes: vec![
                mode("spelled", 900_000, 4_000_000, format_case, c25),
                mode("large", 900, 5_000, large_format, c25),
                mode("mangled", 900_000, 4_000_000, format_soup, c25_soup),
            ],
        },
    ]
}

//! C01-C06: parsing.
use crate::bridge;
use crate::guard;
use crate::fw::{CheckResult, Ctx, Property, mode};
use bnf::{Error, ParseTree};
use model::ast::*;
use model::gener::{self, Opts};
use model::hash_of;
use model::oracle::{Analyser, Analysis, Flat, ORDERS, breadth_first, recognise};
use model::tape::Tape;
use model::tree::Tree;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ParseCase {
    pub grammar: MGrammar,
    /// None: the default start (first production)
    pub start: Option<MTerm>,
    pub input: String,
}

impl ParseCase {
    pub fn start(&self) -> MTerm {
        self.start
            .clone()
            .unwrap_or_else(|| self.grammar.prods[0].lhs.clone())
    }
}

pub fn analyse(g: &MGrammar, start: &MTerm, input: &str) -> Analysis {
    guard::uncounted(|| {
        let f = Flat::new(g);
        match f.head(start) {
            Some(s) => Analyser::new(&f, input).analyse(s),
            None => Analysis {
                items: 0,
                ..Analysis::default()
            },
        }
    })
}

/// Does a fair breadth-first search reach `k` trees within a moderate number of steps? (Infinite
/// ambiguity can make even the first trees exponentially far away.)
pub fn near(g: &MGrammar, start: &MTerm, input: &str, k: usize) -> bool {
    guard::uncounted(|| {
        let f = Flat::new(g);
        let Some(s) = f.head(start) else { return false };
        (0..ORDERS).all(|o| {
            let mut n = 0;
            breadth_first(o, &f, s, input, 2000, |_| {
                n += 1;
                n < k
            })
            .1
        })
    })
}

/// Calls `f` with the tree iterator of a freshly built parser.
pub fn with_trees<R>(
    g: &MGrammar,
    start: Option<&MTerm>,
    input: &str,
    f: impl FnOnce(&mut dyn Iterator<Item = ParseTree>) -> R,
) -> Result<R, String> {
    let gr = bridge::grammar(g);
    let st = start.map(bridge::term);
    let parser = gr
        .build_parser()
        .map_err(|e| format!("build_parser failed on a valid grammar: {e}"))?;
    Ok(match &st {
        Some(s) => f(&mut parser.parse_input_starting_with(input, s)),
        None => f(&mut parser.parse_input(input)),
    })
}

fn small_case_from(t: &mut Tape, g: MGrammar, max_len: usize) -> ParseCase {
    let nts: Vec<String> = g.nonterminals().iter().map(|s| (*s).to_string()).collect();
    let explicit = t.chance(1, 4);
    let from = if explicit { t.pick(&nts).clone() } else { nts[0].clone() };
    let input = gener::input_for(t, &g, &from, max_len);
    ParseCase {
        grammar: g,
        start: explicit.then(|| MTerm::N(from)),
        input,
    }
}

pub fn small_case(t: &mut Tape) -> ParseCase {
    let g = gener::parse_grammar(t);
    let max = *t.pick(&[10usize, 16, 24]);
    small_case_from(t, g, max)
}

/// Start symbols outside the ordinary: unknown nonterminals, terminals, terminal left-hand sides.
fn odd_start_case(t: &mut Tape) -> ParseCase {
    let mut g = gener::parse_grammar(t);
    if t.chance(1, 3) {
        let alpha = gener::terminals_of(&g);
        let a = t.pick(&alpha).clone();
        let alts = vec![vec![MTerm::T(t.pick(&alpha).clone())]];
        let at = t.below(g.prods.len() + 1);
        g.prods.insert(
            at,
            MProd {
                lhs: MTerm::T(a),
                alts,
            },
        );
    }
    let alpha = gener::terminals_of(&g);
    // productions without alternatives, of a name of their own or of another rule
    if t.chance(1, 3) {
        let name = match t.below(3) {
            0 => "none".to_string(),
            _ => g.prods[t.below(g.prods.len())].lhs.text().to_string(),
        };
        let at = if t.chance(1, 2) { 0 } else { t.below(g.prods.len() + 1) };
        g.prods.insert(at, prod(&name, vec![]));
    }
    let start = match t.below(6) {
        0 => Some(MTerm::T(t.pick(&alpha).clone())),
        1 => Some(n("nosuch")),
        2 => Some(g.prods[t.below(g.prods.len())].lhs.clone()),
        3 => Some(MTerm::T(g.prods[0].lhs.text().to_string())),
        _ => None,
    };
    let input = if t.chance(1, 2) {
        t.pick(&alpha).clone()
    } else {
        gener::input_for(t, &g, g.nonterminals().first().copied().unwrap_or("s"), 12)
    };
    ParseCase {
        grammar: g,
        start,
        input,
    }
}

pub fn odd_case(t: &mut Tape) -> ParseCase {
    let g = gener::random_grammar(
        t,
        &Opts {
            odd: true,
            max_nts: 4,
            ..Opts::default()
        },
    );
    small_case_from(t, g, 60)
}

fn big_case(t: &mut Tape) -> ParseCase {
    let g = gener::big_grammar(t);
    let from = g.prods[0].lhs.text().to_string();
    let mut input = gener::sentence(t, &g, &from, 400, 20_000).unwrap_or_default();
    let mutated = t.chance(1, 3);
    if mutated {
        let a = gener::terminals_of(&g);
        input = gener::mutate(t, &input, &a);
    }
    ParseCase {
        grammar: g,
        start: None,
        input,
    }
}

/// Long inputs over grammars whose chart stays small.
fn long_case(t: &mut Tape) -> ParseCase {
    let w = t.pick(&["a", "é", "ab", "日", "😀"]).to_string();
    let len = *t.pick(&[20usize, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513]);
    let scale = *t.pick(&[1usize, 1, 1, 3]);
    let (prods, input): (Vec<MProd>, String) = match t.below(7) {
        0 => (
            vec![prod("s", vec![vec![n("s"), t_(&w)], vec![t_(&w)]])],
            w.repeat(len * scale),
        ),
        1 => (
            vec![
                prod("s", vec![vec![n("s"), t_(","), n("i")], vec![n("i")]]),
                prod("i", vec![vec![t_(&w)], vec![t_("xy")], vec![t_("x")]]),
            ],
            (0..len)
                .map(|i| if i % 5 == 3 { "xy".to_string() } else { w.clone() })
                .collect::<Vec<_>>()
                .join(","),
        ),
        2 => (
            vec![prod("s", vec![vec![t_(&w), n("s")], vec![t_(&w)]])],
            w.repeat(len.min(200)),
        ),
        3 => (
            vec![prod("s", vec![vec![t_("("), n("s"), t_(")")], vec![t_(&w)]])],
            format!("{}{w}{}", "(".repeat(len), ")".repeat(len)),
        ),
        4 => (
            vec![
                prod("s", vec![vec![n("s"), n("l")], vec![n("l")]]),
                prod("l", vec![vec![n("ws"), t_("\n")]]),
                prod("ws", vec![vec![n("ws"), t_(&w)], vec![t_(&w)]]),
            ],
            format!("{}\n", w.repeat(1 + len % 7)).repeat(len / 4 + 1),
        ),
        5 => (
            vec![prod("s", vec![vec![t_(&w.repeat(len)), n("e")]]), prod("e", vec![vec![t_("!")], vec![t_("?")]])],
            format!("{}!", w.repeat(len)),
        ),
        _ => (
            vec![
                prod("s", vec![vec![n("e"), n("s"), t_(&w)], vec![t_("0")]]),
                prod("e", vec![vec![t_("")]]),
            ],
            format!("0{}", w.repeat(len)),
        ),
    };
    let g = MGrammar { prods };
    let input = match t.below(4) {
        0 => {
            let mut s = input;
            s.pop();
            s
        }
        1 => format!("{input}{w}"),
        2 => {
            let a = gener::terminals_of(&g);
            gener::mutate(t, &input, &a)
        }
        _ => input,
    };
    ParseCase {
        grammar: g,
        start: None,
        input,
    }
}

fn t_(s: &str) -> MTerm {
    t(s)
}

/// Positions beyond what 8, 16 or 17 bits hold, over few terminals.
fn huge_case(t: &mut Tape) -> ParseCase {
    let unit = t.pick(&["x", "é", "ab"]).to_string();
    let len = *t.pick(&[255usize, 256, 257, 512, 32_768, 65_535, 65_536, 65_537, 131_072]);
    let mut w: String = unit.repeat(len / unit.len());
    while w.len() < len {
        w.push('.');
    }
    let k = t.range(1, if len > 40_000 { 3 } else { 6 });
    let (prods, input): (Vec<MProd>, String) = match t.below(5) {
        0 => (vec![prod("s", vec![vec![t_(&w), n("s")], vec![t_("q")]])], format!("{}q", w.repeat(k))),
        1 => (vec![prod("s", vec![vec![n("s"), t_(&w)], vec![t_("q")]])], format!("q{}", w.repeat(k))),
        2 => (
            vec![
                prod("s", vec![vec![n("s"), n("a"), t_(&w)], vec![n("a"), t_(&w)], vec![n("a")]]),
                prod("a", vec![vec![t_("p")], vec![t_("q")], vec![t_("")]]),
            ],
            (0..k).map(|i| format!("{}{w}", if i % 2 == 0 { "p" } else { "" })).collect::<String>(),
        ),
        3 => (
            vec![prod("s", vec![vec![t_(&w), n("s"), t_(&w)], vec![t_("q")], vec![t_("p")]])],
            format!("{}p{}", w.repeat(k), w.repeat(k)),
        ),
        _ => (
            vec![
                prod("s", vec![vec![n("a"), n("b"), n("a")]]),
                prod("b", vec![vec![t_(&w)], vec![t_(&w), n("b")]]),
                prod("a", vec![vec![t_("q")], vec![t_("pq")], vec![t_("")]]),
            ],
            format!("q{}pq", w.repeat(k)),
        ),
    };
    let g = MGrammar { prods };
    let input = match t.below(6) {
        0 => {
            let mut s = input;
            s.pop();
            s
        }
        1 => format!("{input}{unit}"),
        2 => format!("{unit}{input}"),
        _ => input,
    };
    ParseCase {
        grammar: g,
        start: None,
        input,
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DeepCase {
    pub shape: u8,
    pub depth: usize,
    /// 0: as derived, otherwise shortened, extended or with a wrong ending
    pub spoil: u8,
}
/// Inputs with one derivation (or none), many thousand levels deep.
fn deep_case(t: &mut Tape) -> DeepCase {
    let depth = match t.below(3) {
        0 => t.range(1, 3_000),
        1 => *t.pick(&[1_000usize, 1_025, 2_050, 4_097, 5_001, 8_193, 10_001, 16_385]),
        _ => t.range(3_000, 24_000),
    };
    DeepCase {
        shape: t.below(6) as u8,
        depth,
        spoil: t.below(8).saturating_sub(4) as u8,
    }
}
impl DeepCase {
    fn build(&self) -> ParseCase {
        let d = self.depth;
        let (prods, input) = match self.shape {
            0 => (vec![prod("s", vec![vec![n("s"), t_("a")], vec![t_("b")]])], format!("b{}", "a".repeat(d))),
            1 => (vec![prod("s", vec![vec![t_("a"), n("s")], vec![t_("b")]])], format!("{}b", "a".repeat(d))),
            2 => (
                vec![prod("s", vec![vec![t_("("), n("s"), t_(")")], vec![t_("x")]])],
                format!("{}x{}", "(".repeat(d), ")".repeat(d)),
            ),
            3 => {
                let mut prods: Vec<MProd> = (0..d).map(|i| prod(&format!("n{i}"), vec![vec![n(&format!("n{}", i + 1))]])).collect();
                prods.push(prod(&format!("n{d}"), vec![vec![t_("z")]]));
                (prods, "z".to_string())
            }
            4 => (
                vec![
                    prod("s", vec![vec![t_("é"), n("t")], vec![t_("x")]]),
                    prod("t", vec![vec![t_("b"), n("s")], vec![t_("y")]]),
                ],
                format!("{}{}", "éb".repeat(d / 2), if d % 2 == 0 { "x" } else { "éy" }),
            ),
            _ => (
                vec![
                    prod("s", vec![vec![n("s"), n("sep"), n("i")], vec![n("i")]]),
                    prod("sep", vec![vec![t_(",")], vec![t_(";")]]),
                    prod("i", vec![vec![t_("1")], vec![t_("2")]]),
                ],
                format!("1{}", ",2;1".repeat(d / 4 + 1)),
            ),
        };
        let input = match self.spoil {
            1 => input.chars().skip(1).collect(),
            2 => format!("{input}?"),
            3 => {
                let mut s = input;
                s.pop();
                s.push('?');
                s
            }
            _ => input,
        };
        ParseCase { grammar: MGrammar { prods }, start: None, input }
    }
    /// Is the input still derivable? (losing the first of a run leaves a shorter run in shape 1 only)
    fn member(&self) -> bool {
        self.spoil == 0 || (self.spoil == 1 && self.shape == 1)
    }
}
fn c01_deep(c: &DeepCase, ctx: &mut Ctx) -> CheckResult {
    let p = c.build();
    check_trees_valid(&p, &p.start(), 3, ctx).map_err(|e| brief(&e))
}
fn c02_deep(c: &DeepCase, ctx: &mut Ctx) -> CheckResult {
    compare_membership(&c.build(), c.member(), ctx).map_err(|e| brief(&e))
}
fn c03_deep(c: &DeepCase, ctx: &mut Ctx) -> CheckResult {
    let p = c.build();
    let k = with_trees(&p.grammar, None, &p.input, |it| it.take(3).count())?;
    ctx.nontrivial(hash_of(c));
    ctx.note(|| json!(c));
    if k == usize::from(c.member()) {
        return Ok(());
    }
    Err(format!("{k} trees instead of {} for {c:?}", usize::from(c.member())))
}
fn brief(e: &str) -> String {
    if e.len() < 600 { e.to_string() } else { format!("{} ...", e.chars().take(500).collect::<String>()) }
}

const MAX_ITEMS: u64 = 20_000;

// ---------- C01 ----------

fn c01(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let start = c.start();
    let a = analyse(&c.grammar, &start, &c.input);
    let limit = if a.root_cyclic && near(&c.grammar, &start, &c.input, 6) {
        ctx.label("infinitely ambiguous: first 6 trees");
        6
    } else if a.cyclic || a.items > MAX_ITEMS {
        ctx.discard();
        return Ok(());
    } else {
        300
    };
    check_trees_valid(c, &start, limit, ctx)
}

fn check_trees_valid(c: &ParseCase, start: &MTerm, limit: usize, ctx: &mut Ctx) -> CheckResult {
    let trees: Vec<Tree> = with_trees(&c.grammar, c.start.as_ref(), &c.input, |it| {
        it.take(limit).map(|x| bridge::un_tree(&x)).collect()
    })?;
    let mut depth = 0;
    for x in &trees {
        x.check(&c.grammar, start, &c.input)?;
        depth = depth.max(x.depth());
    }
    ctx.label_if(trees.len() > 1, "ambiguous");
    ctx.label_if(c.start.is_some(), "explicit start");
    ctx.label_if(depth > 6, "depth > 6");
    ctx.label_if(trees.is_empty(), "rejected input");
    if trees.len() > 1 || depth >= 3 {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "trees": trees.len()}));
    Ok(())
}

fn c01_big(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    check_trees_valid(c, &c.start(), 3, ctx)
}

// ---------- C02 ----------

fn c02(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let start = c.start();
    let a = analyse(&c.grammar, &start, &c.input);
    if a.items > MAX_ITEMS && !(a.root_cyclic && near(&c.grammar, &start, &c.input, 1)) {
        ctx.discard();
        return Ok(());
    }
    if c.input.len() <= 24 {
        let f = Flat::new(&c.grammar);
        let other = f.head(&start).is_some_and(|s| recognise(&f, s, &c.input));
        assert_eq!(other, a.member, "the two oracles disagree");
    }
    compare_membership(c, a.member, ctx)
}

fn compare_membership(c: &ParseCase, member: bool, ctx: &mut Ctx) -> CheckResult {
    let got = with_trees(&c.grammar, c.start.as_ref(), &c.input, |it| it.next().is_some())?;
    ctx.label(if member { "member" } else { "not a member" });
    if c.input.len() > 1 || c.grammar.prods.len() > 1 {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "member": member}));
    if got && !member {
        return Err(format!(
            "input {:?} is accepted but not derivable from {} in\n{}",
            c.input,
            c.start().render(),
            bnf_text(&c.grammar)
        ));
    }
    if !got && member {
        return Err(format!(
            "input {:?} is derivable from {} but yields no parse tree in\n{}",
            c.input,
            c.start().render(),
            bnf_text(&c.grammar)
        ));
    }
    Ok(())
}

fn c02_big(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let f = Flat::new(&c.grammar);
    let member = f.head(&c.start()).is_some_and(|s| recognise(&f, s, &c.input));
    compare_membership(c, member, ctx)
}

// ---------- C03 ----------

fn multiset(v: impl Iterator<Item = Tree>) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x.canon()).or_insert(0) += 1;
    }
    m
}

fn c03(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let start = c.start();
    let f = Flat::new(&c.grammar);
    let Some(s) = f.head(&start) else {
        let k = with_trees(&c.grammar, c.start.as_ref(), &c.input, |it| it.count())?;
        return if k == 0 { Ok(()) } else { Err(format!("{k} trees from a start symbol without production")) };
    };
    let (an, a) = guard::uncounted(|| {
        let mut an = Analyser::new(&f, &c.input);
        let a = an.analyse(s);
        (an, a)
    });
    if a.cyclic || a.items > MAX_ITEMS || a.trees > 1500 {
        ctx.discard();
        ctx.label_if(a.cyclic, "skipped: cyclic");
        ctx.label_if(!a.cyclic, "skipped: too ambiguous");
        return Ok(());
    }
    let want = guard::uncounted(|| an.enumerate((s, 0, c.input.len()), &mut vec![], &mut 20_000))
        .map(|v| if a.member { v } else { vec![] });
    let limit = a.trees as usize + 50;
    let (got, after) = with_trees(&c.grammar, c.start.as_ref(), &c.input, |it| {
        let got: Vec<Tree> = it.take(limit).map(|x| bridge::un_tree(&x)).collect();
        let after = got.len() < limit && (0..4).any(|_| it.next().is_some());
        (got, after)
    })?;
    ctx.label_if(a.trees > 1, "ambiguous");
    ctx.label_if(a.trees > 20, "more than 20 derivations");
    ctx.label_if(a.trees == 0, "no derivation");
    ctx.add("derivations compared", a.trees);
    if a.trees > 1 || (a.trees == 0 && a.items > 12) {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "derivations": a.trees, "items": a.items}));
    if got.len() as u64 != a.trees {
        return Err(format!(
            "{} trees yielded, {} derivations exist, for input {:?} from {} in\n{}",
            if got.len() == limit { "at least ".to_string() + &limit.to_string() } else { got.len().to_string() },
            a.trees,
            c.input,
            start.render(),
            bnf_text(&c.grammar)
        ));
    }
    if after {
        return Err("the iterator yields again after having ended".into());
    }
    ctx.label_if(want.is_none(), "only counted");
    if let Some(want) = want {
        let (w, g) = (multiset(want.into_iter()), multiset(got.into_iter()));
        if w != g {
            let missing = w.iter().find(|(k, v)| g.get(*k) != Some(v));
            let extra = g.iter().find(|(k, v)| w.get(*k) != Some(v));
            return Err(format!(
                "derivations differ; expected/missing {missing:?}, yielded {extra:?}, for input {:?} in\n{}",
                c.input,
                bnf_text(&c.grammar)
            ));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct CountCase {
    pub shape: usize,
    pub size: usize,
    pub words: Vec<String>,
    /// a rejected variant of the input
    pub spoil: bool,
}

fn count_case(t: &mut Tape) -> CountCase {
    let shape = t.below(9);
    CountCase {
        shape,
        size: t.range(1, 14),
        words: t.pick(&[["a", "b"], ["é", "a"], ["ab", "b"], ["x", "\u{1f980}"]]).iter().map(|s| s.to_string()).collect(),
        spoil: t.chance(1, 10),
    }
}

fn binomial(n: u64, k: u64) -> u64 {
    (0..k.min(n - k)).fold(1, |acc, i| acc * (n - i) / (i + 1))
}

/// Inputs with known, large numbers of derivations: the exact count of distinct valid trees.
fn c03_count(c: &CountCase, ctx: &mut Ctx) -> CheckResult {
    let (a, b) = (c.words[0].as_str(), c.words[1].as_str());
    let z = c.size;
    let (prods, input, want): (Vec<MProd>, String, u64) = match c.shape {
        0 => {
            // binary bracketings: Catalan numbers
            let k = z.min(9);
            (
                vec![prod("s", vec![vec![n("s"), n("s")], vec![t_(a)]])],
                a.repeat(k),
                binomial(2 * (k as u64 - 1), k as u64 - 1) / k as u64,
            )
        }
        1 => {
            // two readings of each letter
            let k = z.min(12);
            (
                vec![
                    prod("s", vec![vec![n("x"), n("s")], vec![n("x")]]),
                    prod("x", vec![vec![n("l")], vec![n("r")]]),
                    prod("l", vec![vec![t_(a)]]),
                    prod("r", vec![vec![t_(a)]]),
                ],
                a.repeat(k),
                1 << k,
            )
        }
        2 => {
            // many alternatives through many names
            let k = 100 * z;
            let mut v = vec![prod("s", (0..k).map(|i| vec![n(&format!("n{i}"))]).collect())];
            v.extend((0..k).map(|i| prod(&format!("n{i}"), vec![vec![t_(a)]])));
            (v, a.into(), k as u64)
        }
        3 => {
            // which of the optional words are present
            let k = z / 2;
            (
                vec![prod("s", vec![vec![n("o"); z]]), prod("o", vec![vec![t_(a)], vec![t_("")]])],
                a.repeat(k),
                binomial(z as u64, k as u64),
            )
        }
        4 => {
            // where the first part ends
            let k = 15 * z;
            (
                vec![prod("s", vec![vec![n("l"), n("l")]]), prod("l", vec![vec![t_(a), n("l")], vec![t_("")]])],
                a.repeat(k),
                k as u64 + 1,
            )
        }
        5 => {
            // one reading of a long input
            let k = 40 * z;
            (
                vec![prod("s", vec![vec![t_(a), n("s"), t_(b)], vec![t_(a), t_(b)]])],
                a.repeat(k) + &b.repeat(k),
                1,
            )
        }
        6 => {
            // compositions: how the input splits into blocks of one and two words
            let k = z;
            let mut f = (1u64, 1u64);
            for _ in 1..k {
                f = (f.1, f.0 + f.1);
            }
            (
                vec![prod("s", vec![vec![n("b"), n("s")], vec![n("b")]]), prod("b", vec![vec![t_(a)], vec![t_(a), t_(a)]])],
                a.repeat(k),
                f.1,
            )
        }
        7 => {
            // operators of one strength, left and right operands free
            let k = z.min(7);
            (
                vec![prod("e", vec![vec![n("e"), t_(b), n("e")], vec![t_("1")]])],
                vec!["1"; k + 1].join(b),
                binomial(2 * k as u64, k as u64) / (k as u64 + 1),
            )
        }
        _ => {
            // equal alternatives of several depths
            let k = z.min(9);
            let mut v: Vec<MProd> = (0..k).map(|i| prod(&format!("d{i}"), vec![vec![n(&format!("d{}", i + 1))], vec![n("q"), n(&format!("d{}", i + 1))]])).collect();
            v.push(prod(&format!("d{k}"), vec![vec![t_(a)]]));
            v.push(prod("q", vec![vec![t_("")]]));
            (v, a.into(), 1 << k)
        }
    };
    let g = MGrammar { prods };
    let start = g.prods[0].lhs.clone();
    let (input, want) = if c.spoil { (format!("{input}?"), 0) } else { (input, want) };
    let r = with_trees(&g, None, &input, |it| -> Result<u64, String> {
        let mut seen = std::collections::HashSet::new();
        let mut k = 0;
        while let Some(x) = it.next() {
            let x = bridge::un_tree(&x);
            if k % 16 == 0 || k + 4 > want {
                x.check(&g, &start, &input)?;
            }
            if !seen.insert(x.digest()) {
                return Err(format!("tree {k} was delivered before"));
            }
            k += 1;
            if k > want {
                return Err(format!("more than {want} trees"));
            }
        }
        Ok(k)
    })?;
    let context = |e: String| format!("{e}\ninput of {} bytes in\n{}", input.len(), bnf_text(&g));
    let k = r.map_err(context)?;
    ctx.add("derivations compared", want);
    ctx.label_if(want > 500, "over 500 derivations");
    ctx.label_if(input.len() > 300, "input over 300 bytes");
    if want != 1 || input.len() > 100 {
        ctx.nontrivial(hash_of(c));
    }
    if k != want {
        return Err(context(format!("{k} trees yielded, {want} derivations exist")));
    }
    Ok(())
}

// ---------- C04 ----------

/// Grammars with self-derivation, without duplicate alternatives.
fn cyclic_case(t: &mut Tape) -> ParseCase {
    let mut g = match t.weighted(&[6, 6]) {
        0 => {
            let a = t.pick(&["a", "é", "ab"]).to_string();
            let b = t.pick(&["b", "ba", ""]).to_string();
            let x = t_(&a);
            let y = t_(&b);
            let prods = match t.below(9) {
                0 => vec![prod("s", vec![vec![n("s")], vec![x]])],
                1 => vec![prod("s", vec![vec![x], vec![n("s")]])],
                2 => vec![
                    prod("s", vec![vec![n("a")], vec![x.clone()]]),
                    prod("a", vec![vec![n("s")], vec![x, y]]),
                ],
                3 => vec![
                    prod("s", vec![vec![n("a"), x.clone()]]),
                    prod("a", vec![vec![n("a")], vec![x], vec![y]]),
                ],
                4 => vec![
                    prod("s", vec![vec![n("s"), n("e")], vec![x]]),
                    prod("e", vec![vec![t_("")]]),
                ],
                5 => vec![
                    prod("s", vec![vec![n("e"), n("s")], vec![x]]),
                    prod("e", vec![vec![t_("")]]),
                ],
                6 => vec![
                    prod("s", vec![vec![x.clone(), n("a"), x]]),
                    prod("a", vec![vec![n("b")], vec![y.clone()]]),
                    prod("b", vec![vec![n("a")], vec![y, n("a")]]),
                ],
                7 => vec![prod("s", vec![vec![n("s"), n("s")], vec![x], vec![t_("")]])],
                _ => vec![
                    prod("s", vec![vec![n("a")]]),
                    prod("a", vec![vec![n("b")], vec![x.clone(), n("s")]]),
                    prod("b", vec![vec![n("c")], vec![x]]),
                    prod("c", vec![vec![n("a")], vec![y]]),
                ],
            };
            MGrammar { prods }
        }
        _ => {
            let mut g = gener::random_grammar(
                t,
                &Opts {
                    max_nts: 4,
                    max_alts: 3,
                    max_terms: 2,
                    split: false,
                    empty_alts: false,
                    ..Opts::default()
                },
            );
            // close a cycle
            let k = g.prods.len();
            let i = t.below(k);
            let j = t.below(k);
            let li = g.prods[i].lhs.clone();
            let lj = g.prods[j].lhs.clone();
            g.prods[i].alts.push(vec![lj]);
            if i != j {
                g.prods[j].alts.push(vec![li]);
            }
            g
        }
    };
    for p in &mut g.prods {
        let mut seen: Vec<MExpr> = vec![];
        p.alts.retain(|a| {
            let fresh = !seen.contains(a);
            seen.push(a.clone());
            fresh
        });
    }
    small_case_from(t, g, 6)
}

fn c04(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let start = c.start();
    let f = Flat::new(&c.grammar);
    let Some(s) = f.head(&start) else {
        ctx.discard();
        return Ok(());
    };
    let (an, a) = guard::uncounted(|| {
        let mut an = Analyser::new(&f, &c.input);
        let a = an.analyse(s);
        (an, a)
    });
    if !a.root_cyclic {
        ctx.discard();
        return Ok(());
    }
    const K: usize = 40;
    // trees of a fair search: how many until all derivations without repetition have been met
    let (simple, needed, reach) = guard::uncounted(|| {
        let simple = an.enumerate((s, 0, c.input.len()), &mut vec![], &mut 3000);
        let mut left: Vec<String> = match simple {
            Some(v) if v.len() <= 12 => v.iter().map(Tree::canon).collect(),
            _ => vec![],
        };
        let simple = std::mem::take(&mut left);
        let mut needed = Some(0);
        let mut reach = usize::MAX;
        for o in 0..ORDERS {
            let mut left = simple.clone();
            let mut n = 0usize;
            let mut here = None;
            breadth_first(o, &f, s, &c.input, 3000, |x| {
                n += 1;
                let x_size = x.size();
                let key = x.canon();
                left.retain(|l| *l != key);
                if left.is_empty() && here.is_none() {
                    here = Some(n);
                }
                n < 130 && x_size < 2000
            });
            needed = needed.zip(here).map(|(a, b): (usize, usize)| a.max(b));
            reach = reach.min(n);
        }
        (simple, needed, reach)
    });
    // leave other fair orders room
    let needed = needed.filter(|n| n * 3 <= reach);
    let simple = if needed.is_some() { simple } else { vec![] };
    let k_min = K.min(reach / 3);
    let max = needed.map_or(k_min, |n| n * 3).max(k_min);
    if k_min == 0 {
        ctx.discard();
        return Ok(());
    }
    let mut missing: Vec<String> = simple.clone();
    let res = with_trees(&c.grammar, c.start.as_ref(), &c.input, |it| {
        let mut seen: std::collections::HashSet<String> = Default::default();
        let mut k = 0;
        while k < max && (k < k_min || !missing.is_empty()) {
            let Some(x) = it.next() else {
                return Err(format!(
                    "the iterator ended after {k} trees although the input has infinitely many derivations"
                ));
            };
            let x = bridge::un_tree(&x);
            x.check(&c.grammar, &start, &c.input)?;
            let key = x.canon();
            if let Some(p) = missing.iter().position(|m| *m == key) {
                missing.swap_remove(p);
            }
            if !seen.insert(key.clone()) {
                return Err(format!("tree {k} was delivered before: {key}"));
            }
            k += 1;
        }
        Ok(k)
    })?;
    let k = res.map_err(|e| format!("{e}\ninput {:?} in\n{}", c.input, bnf_text(&c.grammar)))?;
    ctx.label_if(!simple.is_empty() && k > needed.unwrap_or(0).max(k_min), "reference order faster");
    ctx.nontrivial(hash_of(c));
    ctx.add("trees inspected", k as u64);
    ctx.label_if(!simple.is_empty(), "all non-repeating derivations awaited");
    ctx.label_if(k > K, "more than 40 trees needed");
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "trees inspected": k}));
    if !missing.is_empty() {
        return Err(format!(
            "derivation {} not delivered among the first {k} trees of input {:?} in\n{}",
            missing[0],
            c.input,
            bnf_text(&c.grammar)
        ));
    }
    Ok(())
}

/// Many trees of one input: the iterator never ends and never repeats itself.
fn many_case(t: &mut Tape) -> ManyCase {
    ManyCase {
        shape: t.below(8),
        word: t.pick(&["a", "é", "ab"]).to_string(),
        trees: *t.pick(&[300usize, 700, 1500, 3000, 5200]),
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct ManyCase {
    pub shape: usize,
    pub word: String,
    pub trees: usize,
}

fn c04_many(c: &ManyCase, ctx: &mut Ctx) -> CheckResult {
    let x = t_(&c.word);
    let (prods, input) = match c.shape {
        0 => (vec![prod("s", vec![vec![n("s")], vec![x]])], c.word.clone()),
        1 => (vec![prod("s", vec![vec![x], vec![n("s")]])], c.word.clone()),
        2 => (
            vec![prod("s", vec![vec![n("a")], vec![x.clone()]]), prod("a", vec![vec![n("s")], vec![x]])],
            c.word.clone(),
        ),
        3 => (
            vec![prod("s", vec![vec![n("a"), x]]), prod("a", vec![vec![n("a")], vec![t_("")]])],
            c.word.clone(),
        ),
        4 => (
            vec![prod("s", vec![vec![n("s"), n("e")], vec![x]]), prod("e", vec![vec![t_("")]])],
            c.word.clone(),
        ),
        5 => (
            vec![prod("s", vec![vec![n("e"), n("s")], vec![x]]), prod("e", vec![vec![t_("")]])],
            c.word.clone(),
        ),
        6 => (vec![prod("s", vec![vec![n("s"), n("s")], vec![x], vec![t_("")]])], c.word.clone()),
        _ => (
            vec![prod("s", vec![vec![x.clone(), n("a"), x]]), prod("a", vec![vec![n("b")], vec![t_("")]]), prod("b", vec![vec![n("a")]])],
            format!("{0}{0}", c.word),
        ),
    };
    let g = MGrammar { prods };
    let start = g.prods[0].lhs.clone();
    let want = if c.shape == 6 { c.trees.min(1500) } else { c.trees };
    let r = with_trees(&g, None, &input, |it| -> CheckResult {
        let mut seen: std::collections::HashSet<u64> = Default::default();
        for k in 0..want {
            let Some(x) = it.next() else {
                return Err(format!("the iterator ended after {k} trees although the input has infinitely many derivations"));
            };
            let x = bridge::un_tree(&x);
            if k % 64 == 0 || k + 8 > want {
                x.check(&g, &start, &input)?;
            }
            if !seen.insert(x.digest()) {
                return Err(format!("tree {k} was delivered before"));
            }
        }
        Ok(())
    })?;
    ctx.add("trees inspected", want as u64);
    ctx.nontrivial(hash_of(c));
    r.map_err(|e| format!("{e}\ninput {input:?} in\n{}", bnf_text(&g)))
}

// ---------- C05 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LongHistory {
    pub grammar: MGrammar,
    pub requests: Vec<(Option<MTerm>, String)>,
    pub rounds: usize,
    pub held: usize,
    pub seed: u64,
}

fn long_history(t: &mut Tape) -> LongHistory {
    let g = gener::parse_grammar(t);
    let nts: Vec<String> = g.nonterminals().iter().map(|s| (*s).to_string()).collect();
    let requests = t.list(1, 4, 2, |t, _| {
        let explicit = t.chance(1, 3);
        let from = if explicit { t.pick(&nts).clone() } else { nts[0].clone() };
        let input = gener::input_for(t, &g, &from, 6);
        (explicit.then(|| MTerm::N(from)), input)
    });
    LongHistory {
        grammar: g,
        requests,
        rounds: *t.pick(&[100usize, 300, 1100, 5000]),
        held: *t.pick(&[0usize, 1, 20, 300]),
        seed: t.draw(u64::MAX),
    }
}

fn tm(s: &str) -> MTerm {
    t(s)
}

/// Inputs that are easily taken for each other (equal but for blanks, case, order, or one place far
/// behind), asked in turn.
fn confusable_history(t: &mut Tape) -> LongHistory {
    let size = *t.pick(&[3usize, 10, 20, 40, 70, 140, 280]);
    let (g, base) = match t.below(4) {
        0 => {
            let g = MGrammar {
                prods: vec![prod("s", vec![vec![tm("a"), n("s")], vec![tm("b")], vec![tm("c"), n("s")]])],
            };
            let mut b: String = (0..size).map(|_| *t.pick(&['a', 'c'])).collect();
            b.push('b');
            (g, b)
        }
        1 => {
            let g = MGrammar {
                prods: vec![prod("s", vec![vec![tm("("), n("s"), tm(")")], vec![tm("x")], vec![tm("y")]])],
            };
            (g, format!("{}x{}", "(".repeat(size / 2), ")".repeat(size / 2)))
        }
        2 => {
            let g = MGrammar {
                prods: vec![
                    prod("s", vec![vec![n("s"), n("w")], vec![n("w")]]),
                    prod("w", vec![vec![tm("ab")], vec![tm("é")], vec![tm("Ab")]]),
                ],
            };
            let b = (0..size / 2).map(|_| *t.pick(&["ab", "é", "Ab"])).collect();
            (g, b)
        }
        _ => {
            let g = gener::parse_grammar(t);
            let from = g.prods[0].lhs.text().to_string();
            let b = gener::sentence(t, &g, &from, 20, 40).unwrap_or_default();
            (g, b)
        }
    };
    let mut requests = vec![(None, base.clone())];
    for _ in 0..t.range(1, 5) {
        let mut cs: Vec<char> = base.chars().collect();
        let k = t.below(cs.len() + 1);
        match t.below(9) {
            0 => cs.push(' '),
            1 => cs.insert(0, ' '),
            2 => cs.reverse(),
            3 => cs = cs.iter().flat_map(|c| c.to_uppercase()).collect(),
            4 if cs.len() > 1 => {
                let j = t.below(cs.len());
                let i = k.min(cs.len() - 1);
                cs.swap(i, j);
            }
            5 if !cs.is_empty() => {
                // one character changed to another of the text
                let c = *t.pick(&cs);
                let i = k.min(cs.len() - 1);
                cs[i] = c;
            }
            6 if !cs.is_empty() => {
                cs.pop();
                cs.push(*t.pick(&['a', 'c', 'x', 'z', ')']));
            }
            7 if !cs.is_empty() => {
                cs.remove(k.min(cs.len() - 1));
            }
            _ => cs.insert(k, *t.pick(&['a', 'x', 'b', '\0'])),
        }
        requests.push((None, cs.into_iter().collect()));
    }
    LongHistory {
        grammar: g,
        requests,
        rounds: *t.pick(&[10usize, 30, 60]),
        held: *t.pick(&[0usize, 1, 3]),
        seed: t.draw(u64::MAX),
    }
}

/// One parser answering thousands of requests, with up to hundreds of iterators left open.
fn c05_long(c: &LongHistory, ctx: &mut Ctx) -> CheckResult {
    const CAP: usize = 5;
    let mut expected: Vec<Option<Vec<Tree>>> = vec![];
    for (st, input) in &c.requests {
        let s = st.clone().unwrap_or_else(|| c.grammar.prods[0].lhs.clone());
        let a = analyse(&c.grammar, &s, input);
        if a.cyclic || a.items > if c.rounds > 60 { 150 } else { 20_000 } || a.trees > 50 && c.rounds <= 60 {
            expected.push(None);
            continue;
        }
        expected.push(Some(with_trees(&c.grammar, st.as_ref(), input, |it| {
            it.take(CAP).map(|x| bridge::un_tree(&x)).collect()
        })?));
    }
    let usable: Vec<usize> = (0..c.requests.len()).filter(|i| expected[*i].is_some()).collect();
    if usable.is_empty() {
        ctx.discard();
        return Ok(());
    }
    let gr = bridge::grammar(&c.grammar);
    let starts: Vec<Option<bnf::Term>> = c.requests.iter().map(|(s, _)| s.as_ref().map(bridge::term)).collect();
    let inputs: Vec<String> = c.requests.iter().map(|(_, i)| i.clone()).collect();
    let parser = gr.build_parser().map_err(|e| e.to_string())?;
    type It<'a> = Box<dyn Iterator<Item = ParseTree<'a>> + 'a>;
    let mut held: std::collections::VecDeque<(usize, It, usize)> = Default::default();
    let mut state = c.seed;
    for round in 0..c.rounds {
        state = model::tape::mix(state);
        let r = usable[(state % usable.len() as u64) as usize];
        let want = expected[r].as_ref().expect("usable");
        let mut it: It = match &starts[r] {
            Some(s) => Box::new(parser.parse_input_starting_with(&inputs[r], s)),
            None => Box::new(parser.parse_input(&inputs[r])),
        };
        let take = if state & 0x300 == 0 { 1 } else { CAP };
        for k in 0..take {
            let got = it.next().map(|x| bridge::un_tree(&x));
            if got.as_ref() != want.get(k) {
                return Err(format!(
                    "request {round}: tree {k} for {:?} is {:?} here, {:?} from a fresh parser, in\n{}",
                    c.requests[r],
                    got.map(|x| x.canon()),
                    want.get(k).map(Tree::canon),
                    bnf_text(&c.grammar)
                ));
            }
            if got.is_none() {
                break;
            }
        }
        if take == 1 && c.held > 0 {
            held.push_back((r, it, 1));
            if held.len() > c.held {
                // finish one that has waited long
                let (r, mut it, k) = held.pop_front().expect("held");
                let want = expected[r].as_ref().expect("usable");
                let got = it.next().map(|x| bridge::un_tree(&x));
                if k < want.len() && got.as_ref() != want.get(k) || want.len() < CAP && k >= want.len() && got.is_some() {
                    return Err(format!(
                        "round {round}: an iterator left open yields {:?}, expected {:?}",
                        got.map(|x| x.canon()),
                        want.get(k).map(Tree::canon)
                    ));
                }
            }
        }
    }
    ctx.label_if(c.rounds > 1000, "over a thousand requests");
    ctx.label_if(held.len() > 100, "over a hundred iterators open");
    ctx.add("requests", c.rounds as u64);
    ctx.nontrivial(hash_of(c));
    Ok(())
}

/// The memory of inputs and start symbols is reused between requests. Needs parsers that accept
/// inputs living shorter than they do; left out of the build where they do not.
#[cfg(feature = "short-lived")]
fn c05_reuse(c: &LongHistory, ctx: &mut Ctx) -> CheckResult {
    fn ask<'g>(p: &'g bnf::GrammarParser<'g>, s: &'g str, t: Option<&'g bnf::Term>, cap: usize) -> Vec<Tree> {
        match t {
            Some(t) => p.parse_input_starting_with(s, t).take(cap).map(|x| bridge::un_tree(&x)).collect(),
            None => p.parse_input(s).take(cap).map(|x| bridge::un_tree(&x)).collect(),
        }
    }
    const CAP: usize = 5;
    let mut expected: Vec<Vec<Tree>> = vec![];
    let mut usable = vec![];
    for (i, (st, input)) in c.requests.iter().enumerate() {
        let s = st.clone().unwrap_or_else(|| c.grammar.prods[0].lhs.clone());
        let a = analyse(&c.grammar, &s, input);
        if a.cyclic || a.items > 300 {
            expected.push(vec![]);
            continue;
        }
        usable.push(i);
        expected.push(with_trees(&c.grammar, st.as_ref(), input, |it| {
            it.take(CAP).map(|x| bridge::un_tree(&x)).collect()
        })?);
    }
    if usable.len() < 2 {
        ctx.discard();
        return Ok(());
    }
    let gr = bridge::grammar(&c.grammar);
    let parser = gr.build_parser().map_err(|e| e.to_string())?;
    let mut buffer = String::with_capacity(4096);
    let mut term = Box::new(bridge::term(&c.grammar.prods[0].lhs));
    let mut state = c.seed;
    for round in 0..c.rounds.min(40) {
        state = model::tape::mix(state);
        let r = usable[(state % usable.len() as u64) as usize];
        let (st, input) = &c.requests[r];
        buffer.clear();
        buffer.push_str(input);
        if let Some(s) = st {
            *term = bridge::term(s);
        }
        let got = ask(&parser, &buffer, st.as_ref().map(|_| &*term), CAP);
        if got != expected[r] {
            return Err(format!(
                "request {round}: {:?} from reused memory yields {:?}, {:?} from a fresh parser, in\n{}",
                c.requests[r],
                got.iter().map(Tree::canon).collect::<Vec<_>>(),
                expected[r].iter().map(Tree::canon).collect::<Vec<_>>(),
                bnf_text(&c.grammar)
            ));
        }
    }
    let lens: std::collections::HashSet<usize> = usable.iter().map(|i| c.requests[*i].1.len()).collect();
    ctx.label_if(lens.len() < usable.len(), "different inputs of one length");
    ctx.nontrivial(hash_of(c));
    Ok(())
}
#[cfg(not(feature = "short-lived"))]
fn c05_reuse(_: &LongHistory, ctx: &mut Ctx) -> CheckResult {
    ctx.discard();
    Ok(())
}

/// Requests that often have the same length and the same or different starts.
fn reuse_history(t: &mut Tape) -> LongHistory {
    let g = gener::parse_grammar(t);
    let nts: Vec<String> = g.nonterminals().iter().map(|s| (*s).to_string()).collect();
    let mut requests: Vec<(Option<MTerm>, String)> = t.list(2, 6, 3, |t, _| {
        let explicit = t.chance(1, 2);
        let from = if explicit { t.pick(&nts).clone() } else { nts[0].clone() };
        let input = gener::input_for(t, &g, &from, 6);
        (explicit.then(|| MTerm::N(from)), input)
    });
    for i in 0..requests.len() {
        if t.chance(1, 2) {
            // the same bytes in another order, or from another start
            let (st, input) = requests[i].clone();
            let mut chars: Vec<char> = input.chars().collect();
            match t.below(3) {
                0 => chars.reverse(),
                1 if !chars.is_empty() => {
                    let j = t.below(chars.len());
                    if chars[j].is_ascii() {
                        chars[j] = *t.pick(&['a', 'b', 'c', '1']);
                    }
                }
                _ => {}
            }
            let st = if t.chance(1, 3) { Some(MTerm::N(t.pick(&nts).clone())) } else { st };
            requests.push((st, chars.into_iter().collect()));
        }
    }
    LongHistory {
        grammar: g,
        requests,
        rounds: t.range(4, 40),
        held: 0,
        seed: t.draw(u64::MAX),
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HistoryCase {
    pub grammar: MGrammar,
    pub requests: Vec<(Option<MTerm>, String)>,
    /// (kind, a, b)
    pub ops: Vec<(u8, u32, u32)>,
}

fn history_case(t: &mut Tape) -> HistoryCase {
    let g = gener::parse_grammar(t);
    let nts: Vec<String> = g.nonterminals().iter().map(|s| (*s).to_string()).collect();
    let requests = t.list(1, 5, 2, |t, _| {
        let explicit = t.chance(1, 2);
        let from = if explicit { t.pick(&nts).clone() } else { nts[0].clone() };
        let input = gener::input_for(t, &g, &from, 10);
        (explicit.then(|| MTerm::N(from)), input)
    });
    let ops = t.list(1, 60, 14, |t, _| {
        (
            t.weighted(&[6, 10, 2, 2, 1]) as u8,
            t.draw(1 << 12) as u32,
            t.draw(1 << 12) as u32,
        )
    });
    HistoryCase {
        grammar: g,
        requests,
        ops,
    }
}

#[allow(deprecated)]
fn c05(c: &HistoryCase, ctx: &mut Ctx) -> CheckResult {
    const CAP: usize = 40;
    let mut expected: Vec<Option<Vec<Tree>>> = vec![];
    for (st, input) in &c.requests {
        let s = st.clone().unwrap_or_else(|| c.grammar.prods[0].lhs.clone());
        let a = analyse(&c.grammar, &s, input);
        if a.items > 4000 && !(a.root_cyclic && near(&c.grammar, &s, input, 6)) {
            expected.push(None);
            continue;
        }
        let cap = if a.root_cyclic { 6 } else { CAP };
        // a fresh grammar and parser for each request
        let v: Vec<Tree> = with_trees(&c.grammar, st.as_ref(), input, |it| {
            it.take(cap).map(|x| bridge::un_tree(&x)).collect()
        })?;
        expected.push(Some(v));
    }
    let usable: Vec<usize> = (0..c.requests.len()).filter(|i| expected[*i].is_some()).collect();
    if usable.is_empty() {
        ctx.discard();
        return Ok(());
    }
    let gr = bridge::grammar(&c.grammar);
    let equal = gr.clone();
    let starts: Vec<Option<bnf::Term>> = c
        .requests
        .iter()
        .map(|(s, _)| s.as_ref().map(bridge::term))
        .collect();
    let inputs: Vec<String> = c.requests.iter().map(|(_, i)| i.clone()).collect();
    let parser = gr.build_parser().map_err(|e| e.to_string())?;
    let parser2 = equal.build_parser().map_err(|e| e.to_string())?;
    let cap_of = |r: usize| expected[r].as_ref().map_or(0, Vec::len);
    type It<'a> = Box<dyn Iterator<Item = ParseTree<'a>> + 'a>;
    let mut open: Vec<(usize, usize, It, bool)> = vec![];
    let mut advanced = 0;
    let mut interleaved = false;
    let mut last: Option<usize> = None;
    let mut serial = 0usize;
    let mut ids: Vec<usize> = vec![];
    let step = |slot: &mut (usize, usize, It, bool)| -> CheckResult {
        let (r, k, it, _) = slot;
        let want = expected[*r].as_ref().expect("usable");
        // sequences cut at the cap are only compared up to it
        let cut = *k >= want.len() && (want.len() == CAP || want.len() == 6);
        if cut {
            return Ok(());
        }
        let got = it.next().map(|x| bridge::un_tree(&x));
        if got.as_ref() != want.get(*k) {
            return Err(format!(
                "tree {k} of request {r} ({:?}) is {:?} here, {:?} from a fresh parser",
                c.requests[*r],
                got.map(|x| x.canon()),
                want.get(*k).map(Tree::canon)
            ));
        }
        *k += 1;
        Ok(())
    };
    for (kind, a, b) in &c.ops {
        match kind {
            0 => {
                let r = usable[*a as usize % usable.len()];
                let st = &starts[r];
                let input = inputs[r].as_str();
                let it: It = match (b % 4, st) {
                    (0 | 3, Some(s)) => Box::new(parser.parse_input_starting_with(input, s)),
                    (0 | 3, None) => Box::new(parser.parse_input(input)),
                    (1, Some(s)) => Box::new(gr.parse_input_starting_with(input, s)),
                    (1, None) => Box::new(gr.parse_input(input)),
                    (_, Some(s)) => Box::new(parser2.parse_input_starting_with(input, s)),
                    (_, None) => Box::new(parser2.parse_input(input)),
                };
                open.push((r, 0, it, b % 4 == 1));
                ids.push(serial);
                serial += 1;
            }
            1 if !open.is_empty() => {
                let i = *a as usize % open.len();
                if last.is_some_and(|l| l != ids[i]) && open[i].1 > 0 {
                    interleaved = true;
                }
                last = Some(ids[i]);
                step(&mut open[i])?;
                advanced += 1;
            }
            2 if !open.is_empty() => {
                let i = *a as usize % open.len();
                for _ in 0..cap_of(open[i].0) + 2 {
                    step(&mut open[i])?;
                    advanced += 1;
                }
                last = Some(ids[i]);
            }
            3 if !open.is_empty() => {
                let i = *a as usize % open.len();
                drop(open.remove(i));
                ids.remove(i);
            }
            4 => {
                // a request answered in one go
                let r = usable[*a as usize % usable.len()];
                let input = inputs[r].as_str();
                let mut slot: (usize, usize, It, bool) = (
                    r,
                    0,
                    match &starts[r] {
                        Some(s) => Box::new(parser.parse_input_starting_with(input, s)),
                        None => Box::new(parser.parse_input(input)),
                    },
                    false,
                );
                for _ in 0..cap_of(r) + 1 {
                    step(&mut slot)?;
                }
            }
            _ => {}
        }
    }
    ctx.label_if(interleaved, "interleaved iterators");
    ctx.label_if(open.iter().any(|o| o.3), "deprecated entry point");
    ctx.add("steps compared", advanced);
    if interleaved || advanced > 4 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

// ---------- C06 ----------

fn validate_case(t: &mut Tape) -> ParseCase {
    let big = t.chance(1, 20);
    let mut g = if big {
        let mut g = gener::big_grammar(t);
        if t.chance(1, 2) {
            let i = t.below(g.prods.len());
            g.prods.remove(i);
        }
        g
    } else {
        let odd = t.chance(1, 4);
        gener::random_grammar(
            t,
            &Opts {
                undefined: 50,
                odd,
                ..Opts::default()
            },
        )
    };
    match t.below(8) {
        // no alternatives at all
        1 => {
            let i = t.below(g.prods.len().max(1));
            if let Some(p) = g.prods.get_mut(i) {
                p.alts.clear();
            }
        }
        2 => {
            let alts = t.list(0, 2, 1, |_, _| vec![n("s")]);
            let at = t.below(g.prods.len() + 1);
            let lhs = MTerm::T((*t.pick(&["a", "s", "u"])).to_string());
            g.prods.insert(at, MProd { lhs, alts });
        }
        3 => {
            // a rule whose only mention is itself, defined without alternatives elsewhere
            g.prods.push(prod("u", vec![]));
        }
        4 => {
            if t.chance(1, 6) {
                g.prods.clear();
            }
        }
        5 => {
            let i = t.below(g.prods.len().max(1));
            if i < g.prods.len() && g.prods.len() > 1 {
                g.prods.remove(i);
            }
        }
        _ => {}
    }
    let from = g.nonterminals().first().map_or("s".to_string(), |s| (*s).to_string());
    let input = gener::input_for(t, &g, &from, 10);
    ParseCase {
        grammar: g,
        start: None,
        input,
    }
}

/// Grammars of hundreds to thousands of productions, alternatives or terms, with at most one
/// reference to an undefined nonterminal somewhere.
fn validate_large(t: &mut Tape) -> ParseCase {
    let mut g = gener::large_grammar(t);
    match t.below(6) {
        0 | 1 => {
            // one term anywhere becomes an undefined name (perhaps one that resembles a defined one)
            let i = t.below(g.prods.len());
            let p = &mut g.prods[i];
            let j = t.below(p.alts.len());
            let e = &mut p.alts[j];
            let l = p.lhs.text().to_string();
            let names = [format!("{l}x"), format!("{l} "), l.to_uppercase() + "X", "missing".into()];
            let u = n(t.pick(&names));
            if e.is_empty() || t.chance(1, 2) {
                let k = t.below(e.len() + 1);
                e.insert(k, u);
            } else {
                let k = t.below(e.len());
                e[k] = u;
            }
        }
        2 => {
            // a definition goes missing
            if g.prods.len() > 1 {
                let i = t.below(g.prods.len());
                g.prods.remove(i);
            }
        }
        3 => {
            // a definition becomes a terminal of the same spelling
            let i = t.below(g.prods.len());
            let l = g.prods[i].lhs.text().to_string();
            g.prods[i].lhs = t_(&l);
        }
        4 => g.prods.reverse(),
        _ => {}
    }
    ParseCase {
        grammar: g,
        start: None,
        input: "?".into(),
    }
}

fn c06_large(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let gr = bridge::grammar(&c.grammar);
    let undefined = c.grammar.undefined();
    ctx.label(if undefined.is_empty() { "valid" } else { "invalid" });
    ctx.nontrivial(hash_of(c));
    for (what, r) in [("validate", gr.validate()), ("build_parser", gr.build_parser().map(|_| ()))] {
        match r {
            Ok(()) if undefined.is_empty() => {}
            Err(Error::ValidationError(m)) if undefined.iter().any(|u| m.contains(&format!("<{u}>"))) => {}
            r => {
                return Err(format!(
                    "{what} says {r:?} for a grammar of {} productions with undefined {undefined:?}",
                    c.grammar.prods.len()
                ));
            }
        }
    }
    Ok(())
}

#[allow(deprecated)]
fn c06(c: &ParseCase, ctx: &mut Ctx) -> CheckResult {
    let gr = bridge::grammar(&c.grammar);
    let undefined = c.grammar.undefined();
    let empty = c.grammar.prods.is_empty();
    let valid = !empty && undefined.is_empty();
    let report = |what: &str, r: Result<(), Error>| -> CheckResult {
        match r {
            Ok(()) if valid => Ok(()),
            Ok(()) => Err(format!(
                "{what} accepts a grammar {}",
                if empty { "without productions".to_string() } else { format!("with undefined {undefined:?}") }
            )),
            Err(e) if valid => Err(format!("{what} rejects a valid grammar: {e}")),
            Err(Error::ValidationError(m)) => {
                if !empty && !undefined.iter().any(|u| m.contains(&format!("<{u}>"))) {
                    Err(format!("{what}: message {m:?} names none of the undefined {undefined:?}"))
                } else {
                    Ok(())
                }
            }
            Err(e) => Err(format!("{what}: not a validation error: {e:?}")),
        }
    };
    let with_text = |e: String| format!("{e}\n{}", bnf_text(&c.grammar));
    report("validate", gr.validate()).map_err(with_text)?;
    report("build_parser", gr.build_parser().map(|_| ())).map_err(with_text)?;
    report("GrammarParser::new", bnf::GrammarParser::new(&gr).map(|_| ())).map_err(with_text)?;
    ctx.label(if valid { "valid" } else { "invalid" });
    ctx.label_if(c.grammar.prods.iter().any(|p| p.alts.is_empty()), "production without alternatives");
    ctx.nontrivial(hash_of(c));
    ctx.note(|| json!({"bnf": bnf_text(&c.grammar), "valid": valid}));
    if empty {
        return Ok(());
    }
    // the deprecated functions do not validate
    let start = c.start();
    let a = analyse(&c.grammar, &start, &c.input);
    if a.cyclic || a.items > 5000 || a.trees > 300 {
        ctx.label("parse part skipped");
        return Ok(());
    }
    let trees: Vec<Tree> = gr
        .parse_input(&c.input)
        .take(a.trees as usize + 5)
        .map(|x| bridge::un_tree(&x))
        .collect();
    let st = bridge::term(&start);
    let trees2: Vec<Tree> = gr
        .parse_input_starting_with(&c.input, &st)
        .take(a.trees as usize + 5)
        .map(|x| bridge::un_tree(&x))
        .collect();
    for (what, v) in [("parse_input", &trees), ("parse_input_starting_with", &trees2)] {
        if v.len() as u64 != a.trees {
            return Err(with_text(format!(
                "deprecated {what} yields {} trees for {:?}, expected {}",
                v.len(),
                c.input,
                a.trees
            )));
        }
        for x in v {
            x.check(&c.grammar, &start, &c.input).map_err(with_text)?;
        }
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "random and template grammars (recursive, ambiguous, nullable, multi-byte, large) x derived, mutated and assembled inputs; every tree checked node by node against the grammar and its leaves against the input. Non-trivial: more than one tree, or a tree of depth >= 3",
            assumptions: &["inputs whose parse enumerates more than 20000 partial derivations, and cyclic grammars on inputs without infinite ambiguity, are left out", "of more than 300 trees only the first 300 are checked"],
            modes: vec![
                mode("small", 400_000, 4_000_000, small_case, c01),
                mode("odd-text", 60_000, 800_000, odd_case, c01),
                mode("odd-start", 40_000, 600_000, odd_start_case, c01),
                mode("big", 5_000, 40_000, big_case, c01_big),
                mode("long", 800, 8_000, long_case, c01_big),
                mode("huge", 150, 2_000, huge_case, c01_big),
                mode("deep", 120, 2_000, deep_case, c01_deep),
            ],
        },
        Property {
            id: "C02",
            rule: "random, template, large grammars and long inputs; acceptance compared with two independent membership oracles (set-based recogniser, least-fixpoint chart). Non-trivial: more than one rule or an input longer than one byte",
            assumptions: &["cyclic grammars are only used with inputs that are infinitely ambiguous (otherwise see the known finding)", "inputs whose parse enumerates more than 20000 partial derivations are left out"],
            modes: vec![
                mode("small", 500_000, 6_000_000, small_case, c02),
                mode("odd-text", 60_000, 800_000, odd_case, c02),
                mode("odd-start", 40_000, 600_000, odd_start_case, c02),
                mode("big", 5_000, 40_000, big_case, c02_big),
                mode("long", 1_000, 10_000, long_case, c02_big),
                mode("huge", 150, 2_000, huge_case, c02_big),
                mode("deep", 120, 2_000, deep_case, c02_deep),
            ],
        },
        Property {
            id: "C03",
            rule: "random and template grammars without self-derivation x inputs; the multiset of trees compared with an independent enumeration of all derivations, then the ended iterator polled again. Non-trivial: more than one derivation, or none after a search of more than 12 partial derivations",
            assumptions: &["at most 1500 derivations and 20000 partial derivations per input"],
            modes: vec![
                mode("small", 500_000, 5_000_000, small_case, c03),
                mode("odd-start", 30_000, 400_000, odd_start_case, c03),
                mode("odd-text", 60_000, 800_000, odd_case, c03),
                mode("counted", 400, 4_000, count_case, c03_count),
                mode("deep", 120, 2_000, deep_case, c03_deep),
            ],
        },
        Property {
            id: "C04",
            rule: "grammars with unit and nullable self-derivation x inputs with infinitely many derivations; the first 40 (up to 1500) trees are checked for validity and distinctness, and all derivations without a repeated span on a path must be among them when there are at most 12; for simple shapes thousands of trees are taken. Non-trivial: every case with infinite ambiguity",
            assumptions: &["alternatives of a rule are distinct"],
            modes: vec![
                mode("cyclic", 8_000, 200_000, cyclic_case, c04),
                mode("many", 40, 400, many_case, c04_many),
            ],
        },
        Property {
            id: "C05",
            rule: "histories of opening, advancing, exhausting and dropping parse iterators for several requests on one parser (plus deprecated entry points and a parser of an equal grammar), each yielded tree compared with the sequence of a fresh parser; and up to 5000 requests on one parser with up to 300 iterators left open. Non-trivial: iterators interleaved or more than 4 steps",
            assumptions: &["sequences are compared up to 40 trees (6 when infinitely ambiguous)"],
            modes: vec![
                mode("histories", 300_000, 4_000_000, history_case, c05),
                mode("long", 1_500, 20_000, long_history, c05_long),
                mode("confusable", 4_000, 60_000, confusable_history, c05_long),
                mode("reused-memory", 40_000, 500_000, reuse_history, c05_reuse),
            ],
        },
        Property {
            id: "C06",
            rule: "grammars with and without undefined nonterminals, productions without alternatives, terminal left-hand sides, no productions; validate, build_parser and GrammarParser::new compared with the definition, deprecated parsing compared with the derivation oracle. Non-trivial: every case (both verdicts counted)",
            assumptions: &["the deprecated functions are not called on a grammar without productions (documented to require one)"],
            modes: vec![
                mode("grammars", 1_000_000, 6_000_000, validate_case, c06),
                mode("large", 1_200, 8_000, validate_large, c06_large),
            ],
        },
    ]
}

//! Generators of grammars, names, terminals and inputs. All choices come from the tape.
use crate::ast::*;
use crate::tape::Tape;
use std::collections::HashMap;

pub const PLAIN: [&str; 14] = [
    "s", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
];

/// Characters with a meaning somewhere in the notations or renderings, plus odd Unicode.
pub const ODD: [char; 84] = [
    'a', 'b', 'z', 'A', '0', '9', ' ', '\t', '\n', '\r', '\'', '"', '<', '>', '(', ')', '[', ']',
    '{', '}', '|', '/', ':', '=', ';', ',', '.', '-', '_', '&', '#', '\\', '`', '~', '!', '?', '*',
    '+', '^', '%', '$', '@', '\u{0}', '\u{1b}', '\u{7f}', '\u{a0}', '\u{2028}', '\u{200b}', '\u{feff}',
    '\u{301}', 'é', 'ß', 'İ', 'ñ', '日', '本', 'Ω', '\u{85}', '😀', '\u{10ffff}', '\u{1}', '\u{4}', '\u{8}', '\u{b}', '\u{c}',
    '\u{1a}', '\u{1c}', '\u{1f}', '\u{ad}', '\u{37e}', '\u{2029}', '\u{180e}', '\u{ff1b}', '\u{ff5c}', '\u{ff1d}', '‹', '›', '“',
    '”', '‘', '’', '\u{2060}', '\u{fffd}', '\u{e000}',
];

pub fn odd_string(t: &mut Tape, max: usize, avg: u64, deny: &[char]) -> String {
    let chars: Vec<char> = ODD.iter().copied().filter(|c| !deny.contains(c)).collect();
    match t.weighted(&[30, 6, 2, 2]) {
        0 => t
            .list(0, max, avg, |t, _| {
                if t.chance(1, 16) {
                    let c = char::from_u32(t.draw(0x180) as u32).unwrap_or('a');
                    if !deny.contains(&c) {
                        return c;
                    }
                }
                *t.pick(&chars)
            })
            .into_iter()
            .collect(),
        1 => {
            // words of the notation itself
            let words = [
                "::=", "=", "=/", "::=|", "|", "/", "//", "<a>", "<", ">", "''", "\"\"", "(", ")", "[", "]",
                "; c", ";", "__anon0", "__anon1", "\r\n", " ", "()", "[]", "-->", "#35;", "#", "&amp;", "\\n",
                "flowchart TD", "└── ", "│   ", "\u{3000}", "a", "s",
            ];
            let s: String = t
                .list(1, 5, 1, |t, _| *t.pick(&words))
                .into_iter()
                .collect();
            s.chars().filter(|c| !deny.contains(c)).collect()
        }
        2 => {
            // long
            let len = *t.pick(&[17usize, 33, 64, 127, 128, 129, 255, 256, 257, 300, 1000]);
            let c = *t.pick(&chars);
            let mut s: String = std::iter::repeat_n(c, len).collect();
            // something else at an end
            if t.chance(1, 2) {
                let d = *t.pick(&chars);
                let at = if t.chance(1, 4) { 0 } else { s.len() };
                s.insert(at, d);
            }
            s
        }
        _ => {
            // any scalar value
            let s: String = t
                .list(1, 6, 2, |t, _| {
                    let end = *t.pick(&[0x11_0000u64, 0x80, 0x100, 0x3100]);
                    char::from_u32(t.draw(end) as u32).unwrap_or('\u{fffd}')
                })
                .into_iter()
                .collect();
            s.chars().filter(|c| !deny.contains(c)).collect()
        }
    }
}

/// A terminal text that can be written between quotes: not both quote kinds.
pub fn quotable(t: &mut Tape, max: usize, avg: u64) -> String {
    let s = odd_string(t, max, avg, &[]);
    if s.contains('\'') && s.contains('"') {
        s.replace('"', "")
    } else {
        s
    }
}

pub fn bnf_name(t: &mut Tape) -> String {
    match t.weighted(&[8, 6, 1]) {
        0 => (*t.pick(&PLAIN)).to_string(),
        1 => odd_string(t, 12, 3, &['>']),
        _ => (*t.pick(&["", "__anon0", "__anon1", "__anon2", "__anon10", "__anon", "__anon00", "-", "0"]))
            .to_string(),
    }
}

/// A name usable in both notations: starts with a letter, no whitespace, `>`, `)` or `]`.
pub fn abnf_name(t: &mut Tape) -> String {
    match t.weighted(&[10, 3, 1]) {
        0 => (*t.pick(&PLAIN)).to_string(),
        1 => {
            let mut first = *t.pick(&['a', 'Z', 'é', '日', 'Ω', 'x']);
            if t.chance(1, 8) {
                first = char::from_u32(t.draw(0x600) as u32).filter(|c| c.is_alphabetic()).unwrap_or(first);
            }
            let rest: String = odd_string(t, 8, 2, &['>', ')', ']'])
                .chars()
                .filter(|c| !c.is_whitespace())
                .collect();
            format!("{first}{rest}")
        }
        _ => (*t.pick(&["rule-name", "a.b", "x_1", "ALPHA", "a=b", "a/b", "a;b", "q'", "q\"", "a(b", "a[b", "a<b"]))
            .to_string(),
    }
}

/// Distinct names.
pub fn names(t: &mut Tape, k: usize, mut f: impl FnMut(&mut Tape) -> String) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for i in 0..k {
        let mut s = f(t);
        if out.contains(&s) {
            s = format!("{}{i}", PLAIN[i % PLAIN.len()]);
            while out.contains(&s) {
                s.push('_');
            }
        }
        out.push(s);
    }
    out
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub max_nts: usize,
    pub max_alts: usize,
    pub max_terms: usize,
    /// alternatives without any term (only hand-built values have them)
    pub empty_alts: bool,
    /// production split over several productions of the same left-hand side
    pub split: bool,
    /// out of 100: chance of using nonterminals without production
    pub undefined: u64,
    /// odd names and terminals
    pub odd: bool,
    /// out of 100: chance that unproductive rules are left as they are
    pub unproductive: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_nts: 6,
            max_alts: 4,
            max_terms: 4,
            empty_alts: true,
            split: true,
            undefined: 0,
            odd: false,
            unproductive: 15,
        }
    }
}

pub fn alphabet(t: &mut Tape, odd: bool) -> Vec<String> {
    let sets: [&[&str]; 14] = [
        &["a"],
        &["a", "b"],
        &["a", "b", ""],
        &["a", "aa", "ab", "b", "ba"],
        &["a", "b", "c", "d"],
        &["x", "y", "(", ")", "+", "*"],
        &["é", "e\u{301}", "e", "日", "日本"],
        &["😀", "😀😀", "\u{1f468}\u{200d}\u{1f469}", "\u{200d}", ""],
        &["if", "i", "f", "then", "the", "n", " "],
        &["0", "1", "10", "01", "-"],
        &["", "\n", "\r\n", "\n", "\t", " "],
        &["begin", "end", "Begin", "x", " ", "BEGIN"],
        &["straße", "strasse", "Straße", "ſ", "s", "K", "\u{212a}"],
        &["keyword", "key", "word", "keywords", "k", "y"],
    ];
    let mut v: Vec<String> = t
        .pick(&sets)
        .iter()
        .map(|s| (*s).to_string())
        .collect();
    if odd || t.chance(1, 8) {
        let extra = t.list(1, 3, 1, |t, _| quotable(t, 6, 2));
        v.extend(extra);
    }
    v
}

fn term(t: &mut Tape, names: &[String], alpha: &[String], nt_pct: u64) -> MTerm {
    if t.chance(nt_pct, 100) {
        MTerm::N(t.pick(names).clone())
    } else {
        MTerm::T(t.pick(alpha).clone())
    }
}

/// Which symbols can derive some finite string (undefined ones cannot).
pub fn productive(g: &MGrammar) -> Vec<String> {
    let mut ok: Vec<String> = vec![];
    loop {
        let mut ch = false;
        for p in &g.prods {
            if let MTerm::N(l) = &p.lhs
                && !ok.contains(l)
                && p.alts.iter().any(|a| {
                    a.iter().all(|x| match x {
                        MTerm::T(_) => true,
                        MTerm::N(m) => ok.contains(m),
                    })
                })
            {
                ok.push(l.clone());
                ch = true;
            }
        }
        if !ch {
            return ok;
        }
    }
}

/// An unstructured random grammar.
pub fn random_grammar(t: &mut Tape, o: &Opts) -> MGrammar {
    let k = t.range(1, o.max_nts.max(1));
    let nm = if o.odd {
        names(t, k, bnf_name)
    } else if t.chance(1, 10) {
        names(t, k, abnf_name)
    } else {
        PLAIN[..k.min(PLAIN.len())]
            .iter()
            .map(|s| (*s).to_string())
            .chain((PLAIN.len()..k).map(|i| format!("n{i}")))
            .collect()
    };
    let alpha = alphabet(t, o.odd);
    let mut refs = nm.clone();
    if o.undefined > 0 && t.chance(o.undefined, 100) {
        let u = t.list(1, 3, 1, |t, _| {
            if o.odd { bnf_name(t) } else { (*t.pick(&["u", "v", "w"])).to_string() }
        });
        refs.extend(u);
    }
    let nt_pct = *t.pick(&[45u64, 30, 60, 75]);
    // now and then long alternatives, made mostly of what may be empty
    let long = t.chance(1, 8);
    let (max_terms, avg) = if long { (o.max_terms.max(9), 4) } else { (o.max_terms, 1) };
    let mut prods: Vec<MProd> = nm
        .iter()
        .map(|name| {
            let alts = t.list(1, o.max_alts, 1, |t, _| {
                let min = usize::from(!(o.empty_alts && t.chance(1, 12)));
                if min == 0 {
                    vec![]
                } else {
                    t.list(1, max_terms, avg, |t, _| term(t, &refs, &alpha, nt_pct))
                }
            });
            prod(name, alts)
        })
        .collect();
    // mostly repair unproductive rules so that inputs reach deep
    if !t.chance(o.unproductive, 100) {
        let fix: Vec<MExpr> = prods
            .iter()
            .map(|_| vec![MTerm::T(t.pick(&alpha).clone())])
            .collect();
        loop {
            let ok = productive(&MGrammar { prods: prods.clone() });
            let Some(i) = prods.iter().position(|p| !ok.contains(&p.lhs.text().to_string())) else {
                break;
            };
            let at = t.below(prods[i].alts.len() + 1);
            let f = fix[i].clone();
            prods[i].alts.insert(at, f);
        }
    }
    if long {
        for p in &mut prods {
            if t.chance(1, 2) {
                let at = t.below(p.alts.len() + 1);
                p.alts.insert(at, vec![MTerm::T(String::new())]);
            }
        }
    }
    if o.split && t.chance(1, 6) {
        // continue a rule in a later production
        let i = t.below(prods.len());
        let lhs = prods[i].lhs.text().to_string();
        let alts = t.list(1, 2, 1, |t, _| {
            t.list(1, o.max_terms, 1, |t, _| term(t, &refs, &alpha, nt_pct))
        });
        let at = t.range(i + 1, prods.len());
        prods.insert(at, prod(&lhs, alts));
    }
    if t.chance(1, 12) {
        // duplicate an alternative
        let i = t.below(prods.len());
        if !prods[i].alts.is_empty() {
            let j = t.below(prods[i].alts.len());
            let a = prods[i].alts[j].clone();
            prods[i].alts.push(a);
        }
    }
    MGrammar { prods }
}

fn tt(s: &str) -> MTerm {
    t(s)
}

/// Hand-picked shapes with generated parameters: classic hard cases for chart parsers.
pub fn template_grammar(tp: &mut Tape) -> MGrammar {
    let a = alphabet(tp, false);
    let x = tt(&tp.pick(&a).clone());
    let y = tt(&tp.pick(&a).clone());
    let z = tt(&tp.pick(&a).clone());
    let prods = match tp.below(29) {
        0 => vec![prod("s", vec![vec![n("s"), x.clone()], vec![x]])],
        1 => vec![prod("s", vec![vec![x.clone(), n("s")], vec![y]])],
        2 => vec![prod("s", vec![vec![n("s"), n("s")], vec![x]])],
        3 => vec![prod("s", vec![vec![n("s"), y, n("s")], vec![x]])],
        // hidden left recursion
        4 => vec![
            prod("s", vec![vec![n("e"), n("s"), x.clone()], vec![y]]),
            prod("e", vec![vec![tt("")], vec![z]]),
        ],
        // nullable sandwich
        5 => vec![
            prod("s", vec![vec![n("e"), n("a"), n("e")]]),
            prod("a", vec![vec![x.clone(), n("e")], vec![n("e"), x]]),
            prod("e", vec![vec![tt("")]]),
        ],
        // mutual recursion
        6 => vec![
            prod("s", vec![vec![n("a"), x.clone()], vec![y.clone()]]),
            prod("a", vec![vec![n("s"), y], vec![x]]),
        ],
        // palindromes
        7 => vec![prod(
            "s",
            vec![
                vec![x.clone(), n("s"), x.clone()],
                vec![y.clone(), n("s"), y.clone()],
                vec![x],
                vec![y],
                vec![tt("")],
            ],
        )],
        // dangling else
        8 => vec![
            prod(
                "s",
                vec![
                    vec![x.clone(), n("s")],
                    vec![x, n("s"), y, n("s")],
                    vec![z],
                ],
            ),
        ],
        // a^n b^n
        9 => vec![prod("s", vec![vec![x.clone(), n("s"), y.clone()], vec![x, y]])],
        // chain of unit rules
        10 => {
            let k = tp.range(1, 12);
            let mut v = vec![];
            for i in 0..k {
                v.push(prod(&format!("n{i}"), vec![vec![n(&format!("n{}", i + 1))]]));
            }
            v.push(prod(&format!("n{k}"), vec![vec![x], vec![y]]));
            v
        }
        // diamond: two ways through
        11 => vec![
            prod("s", vec![vec![n("a")], vec![n("b")]]),
            prod("a", vec![vec![n("c")]]),
            prod("b", vec![vec![n("c")]]),
            prod("c", vec![vec![x], vec![y]]),
        ],
        // many nullable in a row
        12 => {
            let k = tp.range(1, 6);
            let mut v = vec![prod("s", vec![vec![n("e"); k]])];
            v.push(prod("e", vec![vec![x], vec![tt("")]]));
            v
        }
        // separator list
        13 => vec![
            prod("s", vec![vec![n("i")], vec![n("s"), y, n("i")]]),
            prod("i", vec![vec![x], vec![z]]),
        ],
        // classical precedence
        14 => vec![
            prod("s", vec![vec![n("s"), tt("+"), n("f")], vec![n("f")]]),
            prod("f", vec![vec![n("f"), tt("*"), n("p")], vec![n("p")]]),
            prod("p", vec![vec![tt("("), n("s"), tt(")")], vec![tt("x")]]),
        ],
        // empty right-hand sides (hand-built)
        15 => vec![
            prod("s", vec![vec![n("e"), x, n("e")], vec![]]),
            prod("e", vec![vec![]]),
        ],
        // split rule, rules after use
        16 => vec![
            prod("s", vec![vec![n("a"), n("a")]]),
            prod("a", vec![vec![x]]),
            prod("a", vec![vec![y], vec![z]]),
        ],
        // the same nonterminal at one position with different spans
        17 => vec![
            prod("s", vec![vec![n("a"), n("a"), n("a")]]),
            prod("a", vec![vec![x.clone()], vec![x.clone(), x], vec![tt("")]]),
        ],
        // right recursion through two rules
        18 => vec![
            prod("s", vec![vec![x, n("a")], vec![y.clone()]]),
            prod("a", vec![vec![n("s")], vec![z, n("s"), y]]),
        ],
        // ambiguity two levels deep
        19 => vec![
            prod("s", vec![vec![n("a"), n("s")], vec![n("a")]]),
            prod("a", vec![vec![x.clone()], vec![n("b")]]),
            prod("b", vec![vec![x], vec![y]]),
        ],
        // shared prefix alternatives of growing length
        20 => {
            let k = tp.range(2, 6);
            vec![prod(
                "s",
                (1..=k)
                    .map(|i| std::iter::repeat_n(x.clone(), i).collect())
                    .chain([vec![x.clone(), n("s")]])
                    .collect(),
            )]
        }
        // many ways to derive nothing
        21 => {
            let k = tp.range(2, 30);
            let m = tp.range(1, 2);
            let mut first: Vec<MTerm> = vec![n("v"); m];
            first.insert(tp.below(m + 1), x);
            let mut v = vec![
                prod("s", vec![first]),
                prod("v", (0..k).map(|i| vec![n(&format!("e{i}"))]).collect()),
            ];
            v.extend((0..k).map(|i| prod(&format!("e{i}"), vec![vec![tt("")]])));
            v
        }
        // many ways to derive the same text
        22 => {
            let k = tp.range(2, 40);
            let mut v = vec![
                prod("s", vec![vec![n("v"), y.clone()], vec![y, n("v")]]),
                prod("v", (0..k).map(|i| vec![n(&format!("e{i}"))]).collect()),
            ];
            v.extend((0..k).map(|i| prod(&format!("e{i}"), vec![vec![x.clone()]])));
            v
        }
        // a nullable first used after it has been completed at the same place
        23 => vec![
            prod("s", vec![vec![n("e"), n("a")], vec![n("a"), n("e")]]),
            prod("a", vec![vec![n("e"), n("e"), x.clone()], vec![x, n("e")]]),
            prod("e", vec![vec![n("f"), n("f")], vec![y]]),
            prod("f", vec![vec![tt("")], vec![z]]),
        ],
        // three alternatives sharing a middle
        24 => vec![
            prod("s", vec![vec![n("a"), n("m"), n("b")], vec![n("m"), n("b")], vec![n("a"), n("m")]]),
            prod("a", vec![vec![x.clone()], vec![x.clone(), x.clone()]]),
            prod("b", vec![vec![y.clone()], vec![x.clone(), y]]),
            prod("m", vec![vec![x.clone(), n("m")], vec![x], vec![z]]),
        ],
        // a row of optional parts, further down, with something after it
        25 => {
            let k = tp.range(2, 9);
            let mut row: MExpr = (0..k).map(|_| n(*tp.pick(&["o", "o", "q"]))).collect();
            if tp.chance(1, 2) {
                let at = tp.below(row.len() + 1);
                row.insert(at, z.clone());
            }
            let mut v = vec![
                prod("s", vec![if tp.chance(1, 2) { vec![n("a")] } else { vec![n("a"), z] }]),
                prod("a", vec![row]),
                prod("o", vec![vec![x], vec![tt("")]]),
                prod("q", vec![vec![y], vec![n("o")]]),
            ];
            if tp.chance(1, 2) {
                v[2].alts.swap(0, 1);
            }
            v
        }
        // optional parts nested in optional parts
        26 => {
            let k = tp.range(1, 4);
            let mut v = vec![prod("s", vec![vec![n("e0"), x, n("e0")]])];
            for i in 0..k {
                let next = if i + 1 == k { y.clone() } else { n(&format!("e{}", i + 1)) };
                v.push(prod(&format!("e{i}"), vec![vec![next, z.clone()], vec![tt("")]]));
            }
            v
        }
        // terminals that are prefixes and suffixes of one another, in a row
        27 => vec![
            prod("s", vec![vec![n("w"), n("s")], vec![n("w")]]),
            prod(
                "w",
                {
                    let k = tp.range(2, 6);
                    (1..=k).map(|i| vec![tt(&"ab".repeat(i)[..2 * i - i % 2])]).collect()
                },
            ),
        ],
        // duplicate alternatives
        _ => vec![
            prod("s", vec![vec![n("a")], vec![n("a")], vec![n("a"), n("s")]]),
            prod("a", vec![vec![x.clone()], vec![x], vec![y]]),
        ],
    };
    MGrammar { prods }
}

/// Wide or deep grammars that cross usual size thresholds.
pub fn big_grammar(t: &mut Tape) -> MGrammar {
    let size = *t.pick(&[8usize, 16, 17, 32, 33, 40, 64, 65, 100, 128, 129, 200, 256, 257, 300]);
    let w = t.pick(&["a", "é", "ab", "日"]).to_string();
    let prods = match t.below(7) {
        // many alternatives of one rule
        0 => vec![prod(
            "s",
            (0..size).map(|i| vec![tt(&format!("{w}{i};"))]).collect(),
        )],
        // a long chain of rules
        1 => (0..size)
            .map(|i| {
                prod(
                    &format!("n{i}"),
                    if i + 1 == size {
                        vec![vec![tt(&w)]]
                    } else {
                        vec![vec![n(&format!("n{}", i + 1))]]
                    },
                )
            })
            .collect(),
        // many rules used side by side
        2 => {
            let mut v = vec![prod("s", vec![(0..size).map(|i| n(&format!("n{i}"))).collect()])];
            v.extend((0..size).map(|i| prod(&format!("n{i}"), vec![vec![tt(if i % 3 == 0 { &w } else { "b" })]])));
            v
        }
        // a long alternative of terminals
        3 => vec![prod("s", vec![(0..size).map(|i| tt(if i % 2 == 0 { &w } else { "-" })).collect()])],
        // nested brackets
        4 => {
            let mut v = vec![];
            for i in 0..size {
                v.push(prod(
                    &format!("n{i}"),
                    if i + 1 == size {
                        vec![vec![tt(&w)]]
                    } else {
                        vec![vec![tt("("), n(&format!("n{}", i + 1)), tt(")")]]
                    },
                ));
            }
            v
        }
        // many rules behind one choice, keywords as terminals
        5 => {
            let mut v = vec![prod("s", (0..size).map(|i| vec![n(&format!("n{i}")), tt(".")]).collect())];
            v.extend((0..size).map(|i| prod(&format!("n{i}"), vec![vec![tt(&format!("k{i}"))]])));
            v
        }
        // long terminal texts
        _ => vec![
            prod("s", vec![vec![n("a"), n("b")], vec![n("b"), n("a")]]),
            prod("a", vec![vec![tt(&w.repeat(size))]]),
            prod("b", vec![vec![tt(&format!("{}x", w.repeat(size)))]]),
        ],
    };
    MGrammar { prods }
}

/// Grammars that are large in one respect: rules, alternatives, terms, length of names or terminals.
/// All names are usable in every notation, all terminals quotable, everything defined and finite.
pub fn large_grammar(t: &mut Tape) -> MGrammar {
    let size = *t.pick(&[400usize, 511, 513, 700, 1000, 1023, 1025, 1500, 2049, 3000]);
    let odd = |t: &mut Tape| -> String {
        let c = *t.pick(&ODD);
        if c == '"' { "\"".into() } else { c.to_string() }
    };
    let name = |i: usize| n(&format!("n{i}"));
    let head = |i: usize, alts: Vec<MExpr>| prod(&format!("n{i}"), alts);
    let shape = t.below(9);
    // the library's own search for finishing rules is cubic on shape 7
    let size = if shape == 7 { size.min(1025) } else { size };
    // beyond 16 bits where that is cheap
    let size = if matches!(shape, 0 | 3 | 4 | 5) && t.chance(1, 16) {
        *t.pick(&[65_535usize, 65_537, 66_000, 70_001])
    } else {
        size
    };
    let special = t.below(size);
    let prods = match shape {
        0 => vec![prod("s", (0..size).map(|i| vec![tt(&format!("{i};"))]).collect())],
        1 => (0..size)
            .map(|i| {
                let out = vec![tt(&format!("t{i}"))];
                head(i, if i + 1 < size { vec![vec![name(i + 1), tt("x")], out] } else { vec![out] })
            })
            .collect(),
        2 => {
            let mut v = vec![prod("s", vec![(0..size).map(name).collect()])];
            v.extend((0..size).map(|i| head(i, vec![vec![tt(&format!("{}", i % 7))], vec![tt("")]])));
            v
        }
        3 => {
            let mark = odd(t);
            let terms = (0..size).map(|i| tt(if i == special { &mark } else { ["a", "it's", "say \"x\"", ""][i % 4] }));
            vec![prod("s", vec![terms.collect()])]
        }
        4 => {
            let (a, b, c) = (odd(t), odd(t), odd(t));
            let text = format!("{a}{}{b}{}", "x".repeat(special), c.repeat(size - special));
            let text = if text.contains('\'') && text.contains('"') { text.replace('"', "") } else { text };
            vec![
                prod("s", vec![vec![tt(&text), n("a")], vec![tt(&text)]]),
                prod("a", vec![vec![tt(&text[text.chars().next().map_or(0, char::len_utf8)..])]]),
            ]
        }
        5 => {
            // long names with a long common beginning
            let long = |i: usize| format!("{}{i}", "é".repeat(size / 2));
            vec![
                prod(&long(1), vec![vec![n(&long(2)), n(&long(3))], vec![n(&long(22))]]),
                prod(&long(2), vec![vec![tt("two")]]),
                prod(&long(3), vec![vec![tt("three")]]),
                prod(&long(22), vec![vec![tt("twenty-two")]]),
            ]
        }
        6 => (0..size).map(|i| prod("s", vec![vec![tt(&format!("{i}"))], vec![tt("a"), tt(&format!("{i}"))]])).collect(),
        // each rule finishes only through the one after it
        7 => (0..size)
            .map(|i| head(i, vec![if i + 1 < size { vec![tt("("), name(i + 1)] } else { vec![tt(")")] }]))
            .collect(),
        // only one alternative of many leads out
        _ => vec![
            prod(
                "s",
                (0..size).map(|i| if i == special { vec![tt("out")] } else { vec![tt("x"), n("s"), n("a")] }).collect(),
            ),
            prod("a", vec![vec![tt("a")], vec![tt("b")]]),
        ],
    };
    MGrammar { prods }
}

pub fn parse_grammar(t: &mut Tape) -> MGrammar {
    match t.weighted(&[12, 8]) {
        0 => random_grammar(t, &Opts::default()),
        _ => template_grammar(t),
    }
}

/// Height of the shortest derivation of each nonterminal.
fn heights(g: &MGrammar) -> HashMap<String, usize> {
    let mut h: HashMap<String, usize> = HashMap::new();
    let alt_h = |h: &HashMap<String, usize>, a: &MExpr| -> Option<usize> {
        let mut m = 0;
        for x in a {
            if let MTerm::N(s) = x {
                m = m.max(*h.get(s)?);
            }
        }
        Some(m + 1)
    };
    loop {
        let mut ch = false;
        for p in &g.prods {
            let best = p.alts.iter().filter_map(|a| alt_h(&h, a)).min();
            if let (MTerm::N(l), Some(b)) = (&p.lhs, best) {
                let old = h.get(l).copied().unwrap_or(usize::MAX);
                if b < old {
                    h.insert(l.clone(), b);
                    ch = true;
                }
            }
        }
        if !ch {
            return h;
        }
    }
}

/// A random sentence derived from `start`, None if it derives nothing (or grew too long).
pub fn sentence(t: &mut Tape, g: &MGrammar, start: &str, budget: usize, max_len: usize) -> Option<String> {
    let h = heights(g);
    h.get(start)?;
    let mut by: HashMap<&str, Vec<&MExpr>> = HashMap::new();
    for p in &g.prods {
        if let MTerm::N(l) = &p.lhs {
            by.entry(l).or_default().extend(p.alts.iter());
        }
    }
    let alt_h = |a: &MExpr| -> Option<usize> {
        let mut m = 0;
        for x in a {
            if let MTerm::N(s) = x {
                m = m.max(*h.get(s)?);
            }
        }
        Some(m + 1)
    };
    let mut out = String::new();
    let mut left = budget;
    // explicit stack of terms still to expand
    let mut stack: Vec<MTerm> = vec![n(start)];
    let mut steps = 0;
    while let Some(x) = stack.pop() {
        steps += 1;
        if steps > 4000 + 20 * max_len {
            return None;
        }
        if out.len() > max_len || stack.len() > 4 * max_len + 64 {
            return None;
        }
        match x {
            MTerm::T(s) => {
                if out.len() + s.len() > max_len {
                    return None;
                }
                out.push_str(&s);
            }
            MTerm::N(s) => {
                let alts: Vec<&MExpr> = by[s.as_str()]
                    .iter()
                    .copied()
                    .filter(|a| alt_h(a).is_some())
                    .collect();
                let a = if left > 0 {
                    left -= 1;
                    *t.pick(&alts)
                } else {
                    alts.iter().copied().min_by_key(|a| alt_h(a)).expect("productive")
                };
                for y in a.iter().rev() {
                    stack.push(y.clone());
                }
            }
        }
    }
    Some(out)
}

pub fn mutate(t: &mut Tape, s: &str, alpha: &[String]) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..t.range(1, 3) {
        match t.below(8) {
            0 if !cs.is_empty() => {
                let i = t.below(cs.len());
                cs.remove(i);
            }
            5 if !cs.is_empty() => {
                // a character that only resembles the one there
                let i = t.below(cs.len());
                let c = cs[i];
                let flip: Vec<char> = if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
                let like = match t.below(4) {
                    0 | 1 if flip != [c] => flip,
                    2 => vec![char::from_u32(c as u32 + 256).unwrap_or('?')],
                    3 => vec![char::from_u32(c as u32 ^ 1).unwrap_or('?')],
                    _ => vec![c, '\u{301}'],
                };
                cs.splice(i..i + 1, like);
            }
            6 => {
                // something that a careless reader trims or skips
                let i = *t.pick(&[0, cs.len(), cs.len() / 2]);
                cs.insert(i, *t.pick(&[' ', '\n', '\u{0}', '\t', '\u{a0}', '\r', '\u{feff}']));
            }
            7 if !cs.is_empty() => {
                // all letters in the other case
                let up = t.chance(1, 2);
                let s: String = cs.iter().collect();
                cs = if up { s.to_uppercase() } else { s.to_lowercase() }.chars().collect();
            }
            1 => {
                let i = t.below(cs.len() + 1);
                let ins: Vec<char> = t.pick(alpha).chars().collect();
                cs.splice(i..i, ins);
            }
            2 if cs.len() > 1 => {
                let i = t.below(cs.len() - 1);
                cs.swap(i, i + 1);
            }
            3 => {
                let k = t.below(cs.len() + 1);
                cs.truncate(k);
            }
            _ => {
                let ins: Vec<char> = t.pick(alpha).chars().collect();
                cs.extend(ins);
            }
        }
    }
    cs.into_iter().collect()
}

pub fn terminals_of(g: &MGrammar) -> Vec<String> {
    let mut v: Vec<String> = g
        .terms()
        .filter_map(|x| match x {
            MTerm::T(s) => Some(s.clone()),
            MTerm::N(_) => None,
        })
        .collect();
    v.sort();
    v.dedup();
    if v.is_empty() {
        v.push("a".into());
    }
    v
}

/// An input for `g` from `start`: mostly derived, else mutated or assembled from its terminals.
pub fn input_for(t: &mut Tape, g: &MGrammar, start: &str, max_len: usize) -> String {
    let alpha = terminals_of(g);
    let soup = |t: &mut Tape| -> String {
        let v = t.list(0, max_len.min(12), 3, |t, _| t.pick(&alpha).clone());
        v.concat()
    };
    let kind = t.weighted(&[10, 4, 3]);
    let mut s = if kind == 2 {
        soup(t)
    } else {
        let budget = t.range(0, 14);
        match sentence(t, g, start, budget, max_len) {
            Some(s) => s,
            None => soup(t),
        }
    };
    if kind == 1 {
        s = mutate(t, &s, &alpha);
    }
    if s.len() > max_len {
        let mut k = max_len;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    s
}

// ---------- malformed text ----------

pub const TOKENS: [&str; 46] = [
    "<s>", "<a>", " ::= ", "::=", " | ", "|", "'a'", "\"b\"", "\n", " ", "(", ")", "[", "]", "'", "\"", "<", ">", ";",
    "; c\n", "=", "/", " = ", " / ", "s ", "a ", "s", "=/", "::=|", "''", "()", "[]", "\r\n", "\t", "\u{3000}", "é", "0",
    "<>", ":", ",", "{", "}", "*", "#", "%x41", "\\",
];

pub fn mangle(t: &mut Tape, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let marks = ['<', '>', '\'', '"', '(', ')', '[', ']', '|', '/', ':', '=', ';', '\n', '\r', ' ', 'a', 'é'];
    // sometimes any character: other brackets, controls, look-alikes
    let structural: Vec<char> = if t.chance(1, 4) { ODD.to_vec() } else { marks.to_vec() };
    for _ in 0..t.range(1, 3) {
        let len = cs.len();
        match t.below(8) {
            7 if cs.iter().any(|c| "<>()[]'\"|/=:;".contains(*c)) => {
                // a mark of the notation replaced by another character
                let at: Vec<usize> = (0..len).filter(|i| "<>()[]'\"|/=:;".contains(cs[*i])).collect();
                let i = *t.pick(&at);
                cs[i] = *t.pick(&ODD);
            }
            0 if len > 0 => {
                let i = t.below(len);
                cs.remove(i);
            }
            1 => {
                let i = t.below(len + 1);
                cs.insert(i, *t.pick(&structural));
            }
            2 if len > 0 => {
                let i = t.below(len);
                cs[i] = *t.pick(&structural);
            }
            3 => {
                let k = t.below(len + 1);
                cs.truncate(k);
            }
            4 if len > 1 => {
                let i = t.below(len - 1);
                cs.swap(i, i + 1);
            }
            5 => {
                let i = t.below(len + 1);
                let j = t.range(i, len);
                let part: Vec<char> = cs[i..j].to_vec();
                let at = t.below(len + 1);
                cs.splice(at..at, part);
            }
            _ => {
                let i = t.below(len + 1);
                let tok: Vec<char> = t.pick(&TOKENS).chars().collect();
                cs.splice(i..i, tok);
            }
        }
    }
    cs.into_iter().collect()
}

//! C21, C22: editing values and serialising them.
use crate::bridge;
use crate::fw::{CheckResult, Ctx, Property, mode};
use bnf::{Expression, Grammar, Production, Term};
use model::ast::*;
use model::gener::{self, Opts};
use model::hash_of;
use model::tape::Tape;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    // grammar
    AddProd(MProd),
    /// remove a copy of the k-th production, or this one
    RemoveProd(u16),
    RemoveOther(MProd),
    // production k
    AddAlt(u16, MExpr),
    RemoveAlt(u16, u16),
    RemoveOtherAlt(u16, MExpr),
    SetLhs(u16, MTerm),
    // expression j of production k
    AddTerm(u16, u16, MTerm),
    RemoveTerm(u16, u16, u16),
    RemoveOtherTerm(u16, u16, MTerm),
    SetTerm(u16, u16, u16, MTerm),
    // every term of the grammar at once, through the three nested mutable iterators
    MapAll(MTerm, MTerm),
    // replace whole elements through mutable iteration
    SetAlt(u16, u16, MExpr),
    SetProd(u16, MProd),
    SwapProds(u16, u16),
    CloneAndDiverge(u16),
    /// add an alternative (or a production) that prints like an existing one
    AddLike(u16, u16),
    AddLikeProd(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EditCase {
    pub start: MGrammar,
    pub ops: Vec<Op>,
}

fn small_term(t: &mut Tape) -> MTerm {
    let s = if t.chance(1, 6) {
        gener::odd_string(t, 5, 1, &[])
    } else {
        (*t.pick(&["a", "b", "", "s", "x'y", "é"])).to_string()
    };
    if t.chance(1, 2) { MTerm::N(s) } else { MTerm::T(s) }
}
fn small_expr(t: &mut Tape) -> MExpr {
    t.list(0, 4, 1, |t, _| small_term(t))
}
fn small_prod(t: &mut Tape) -> MProd {
    MProd {
        lhs: small_term(t),
        alts: t.list(0, 3, 1, |t, _| small_expr(t)),
    }
}
fn any_grammar(t: &mut Tape) -> MGrammar {
    match t.below(4) {
        0 => MGrammar {
            prods: t.list(0, 5, 2, |t, _| small_prod(t)),
        },
        1 => gener::random_grammar(
            t,
            &Opts {
                odd: true,
                undefined: 30,
                ..Opts::default()
            },
        ),
        2 => gener::random_grammar(t, &Opts::default()),
        _ => gener::template_grammar(t),
    }
}

fn edit_case(t: &mut Tape) -> EditCase {
    let start = MGrammar {
        prods: t.list(0, 4, 2, |t, _| small_prod(t)),
    };
    let max = *t.pick(&[6usize, 20, 60]);
    let ops = t.list(1, max, 15, |t, _| {
        let i = |t: &mut Tape| t.draw(1 << 12) as u16;
        match t.below(18) {
            16 => Op::AddLike(i(t), i(t)),
            17 => Op::AddLikeProd(i(t)),
            0 => Op::AddProd(small_prod(t)),
            1 => Op::RemoveProd(i(t)),
            2 => Op::RemoveOther(small_prod(t)),
            3 => Op::AddAlt(i(t), small_expr(t)),
            4 => Op::RemoveAlt(i(t), i(t)),
            5 => Op::RemoveOtherAlt(i(t), small_expr(t)),
            6 => Op::SetLhs(i(t), small_term(t)),
            7 => Op::AddTerm(i(t), i(t), small_term(t)),
            8 => Op::RemoveTerm(i(t), i(t), i(t)),
            9 => Op::RemoveOtherTerm(i(t), i(t), small_term(t)),
            10 => Op::SetTerm(i(t), i(t), i(t), small_term(t)),
            11 => Op::MapAll(small_term(t), small_term(t)),
            12 => Op::SetAlt(i(t), i(t), small_expr(t)),
            13 => Op::SetProd(i(t), small_prod(t)),
            14 => Op::SwapProds(i(t), i(t)),
            _ => Op::CloneAndDiverge(i(t)),
        }
    });
    EditCase { start, ops }
}

/// Edits of a large grammar.
fn large_edit(t: &mut Tape) -> EditCase {
    let mut c = edit_case(t);
    let mut start = gener::large_grammar(t);
    for _ in 0..t.below(4) {
        // equal elements far apart
        let i = t.below(start.prods.len());
        let p = start.prods[i].clone();
        start.prods.push(p);
        let i = t.below(start.prods.len());
        let alts = &mut start.prods[i].alts;
        let e = alts[t.below(alts.len())].clone();
        alts.push(e);
    }
    c.start = start;
    c.ops.truncate(25);
    c
}

fn at(k: u16, len: usize) -> Option<usize> {
    (len > 0).then(|| k as usize % len)
}

fn remove_first<T: PartialEq>(v: &mut Vec<T>, x: &T) -> Option<T> {
    v.iter().position(|y| y == x).map(|i| v.remove(i))
}

/// The library's grammar must show the model's content through every reading function.
fn agree(g: &Grammar, m: &MGrammar, after: &str) -> CheckResult {
    let got = bridge::un_grammar(g);
    if got != *m {
        return Err(format!("after {after} the grammar is\n{}instead of\n{}", bnf_text(&got), bnf_text(m)));
    }
    for (p, q) in g.productions_iter().zip(&m.prods) {
        if p.len() != q.alts.len() || p.is_empty() != q.alts.is_empty() {
            return Err(format!("after {after}: len/is_empty of {p} are {}/{}", p.len(), p.is_empty()));
        }
    }
    Ok(())
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn nth_prod(g: &mut Grammar, k: usize) -> &mut Production {
    g.productions_iter_mut().nth(k).expect("production")
}
fn nth_alt(p: &mut Production, k: usize) -> &mut Expression {
    p.rhs_iter_mut().nth(k).expect("alternative")
}

fn c21(c: &EditCase, ctx: &mut Ctx) -> CheckResult {
    let mut m = c.start.clone();
    let mut g = if c.start.prods.len() % 2 == 0 {
        bridge::grammar(&c.start)
    } else {
        // the same by adding piece by piece
        let mut g = Grammar::new();
        for p in &c.start.prods {
            let mut q = Production::new();
            q.lhs = bridge::term(&p.lhs);
            for a in &p.alts {
                let mut e = Expression::new();
                for x in a {
                    e.add_term(bridge::term(x));
                }
                q.add_to_rhs(e);
            }
            g.add_production(q);
        }
        g
    };
    agree(&g, &m, "building")?;
    let mut clones: Vec<(Grammar, MGrammar)> = vec![];
    let mut effective = 0;
    for op in &c.ops {
        let what = format!("{op:?}");
        let before = m.clone();
        let np = m.prods.len();
        match op {
            Op::AddProd(p) => {
                g.add_production(bridge::production(p));
                m.prods.push(p.clone());
            }
            Op::AddLike(k, j) => {
                let Some(k) = at(*k, np) else { continue };
                let Some(j) = at(*j, m.prods[k].alts.len()) else { continue };
                let e = print_alike(&m.prods[k].alts[j]);
                nth_prod(&mut g, k).add_to_rhs(bridge::expr(&e));
                m.prods[k].alts.push(e);
            }
            Op::AddLikeProd(k) => {
                let Some(k) = at(*k, np) else { continue };
                let mut p = m.prods[k].clone();
                p.alts = match &p.alts[..] {
                    [a, b, rest @ ..] if a.len() == 1 && b.len() == 1 => {
                        let one = MTerm::N(format!("{}> | <{}", a[0].text(), b[0].text()));
                        [vec![vec![one]], rest.to_vec()].concat()
                    }
                    alts => alts.iter().map(|a| print_alike(a)).collect(),
                };
                g.add_production(bridge::production(&p));
                m.prods.push(p);
            }
            Op::RemoveProd(_) | Op::RemoveOther(_) => {
                let p = match op {
                    Op::RemoveProd(k) => match at(*k, np) {
                        Some(k) => m.prods[k].clone(),
                        None => continue,
                    },
                    Op::RemoveOther(p) => p.clone(),
                    _ => unreachable!(),
                };
                let got = g.remove_production(&bridge::production(&p)).map(|p| bridge::un_production(&p));
                let pos = m.prods.iter().position(|q| *q == p);
                let want = remove_first(&mut m.prods, &p);
                if got != want {
                    return Err(format!("{what} returned {got:?} instead of {want:?}"));
                }
                if pos.is_some() {
                    // the order of the remaining productions is left open, the start rule is not
                    let now = bridge::un_grammar(&g);
                    let (mut a, mut b) = (now.prods.clone(), m.prods.clone());
                    a.sort();
                    b.sort();
                    if a != b {
                        return Err(format!("after {what} the productions are\n{}instead of (in any order)\n{}", bnf_text(&now), bnf_text(&m)));
                    }
                    if pos != Some(0) && now.prods.first() != before.prods.first() {
                        return Err(format!("{what} of production {pos:?} changed the start rule:\n{}from\n{}", bnf_text(&now), bnf_text(&before)));
                    }
                    m = now;
                }
            }
            Op::AddAlt(k, e) => {
                let Some(k) = at(*k, np) else { continue };
                nth_prod(&mut g, k).add_to_rhs(bridge::expr(e));
                m.prods[k].alts.push(e.clone());
            }
            Op::RemoveAlt(..) | Op::RemoveOtherAlt(..) => {
                let (k, e) = match op {
                    Op::RemoveAlt(k, j) => {
                        let Some(k) = at(*k, np) else { continue };
                        let Some(j) = at(*j, m.prods[k].alts.len()) else { continue };
                        (k, m.prods[k].alts[j].clone())
                    }
                    Op::RemoveOtherAlt(k, e) => {
                        let Some(k) = at(*k, np) else { continue };
                        (k, e.clone())
                    }
                    _ => unreachable!(),
                };
                let got = nth_prod(&mut g, k).remove_from_rhs(&bridge::expr(&e)).map(|e| bridge::un_expr(&e));
                let want = remove_first(&mut m.prods[k].alts, &e);
                if got != want {
                    return Err(format!("{what} returned {got:?} instead of {want:?}"));
                }
            }
            Op::SetLhs(k, x) => {
                let Some(k) = at(*k, np) else { continue };
                nth_prod(&mut g, k).lhs = bridge::term(x);
                m.prods[k].lhs = x.clone();
            }
            Op::AddTerm(k, j, x) => {
                let Some(k) = at(*k, np) else { continue };
                let Some(j) = at(*j, m.prods[k].alts.len()) else { continue };
                nth_alt(nth_prod(&mut g, k), j).add_term(bridge::term(x));
                m.prods[k].alts[j].push(x.clone());
            }
            Op::RemoveTerm(k, j, ..) | Op::RemoveOtherTerm(k, j, _) => {
                let Some(k) = at(*k, np) else { continue };
                let Some(j) = at(*j, m.prods[k].alts.len()) else { continue };
                let x = match op {
                    Op::RemoveTerm(_, _, i) => {
                        let Some(i) = at(*i, m.prods[k].alts[j].len()) else { continue };
                        m.prods[k].alts[j][i].clone()
                    }
                    Op::RemoveOtherTerm(_, _, x) => x.clone(),
                    _ => unreachable!(),
                };
                let got = nth_alt(nth_prod(&mut g, k), j).remove_term(&bridge::term(&x)).map(|x| bridge::un_term(&x));
                let want = remove_first(&mut m.prods[k].alts[j], &x);
                if got != want {
                    return Err(format!("{what} returned {got:?} instead of {want:?}"));
                }
            }
            Op::SetTerm(k, j, i, x) => {
                let Some(k) = at(*k, np) else { continue };
                let Some(j) = at(*j, m.prods[k].alts.len()) else { continue };
                let Some(i) = at(*i, m.prods[k].alts[j].len()) else { continue };
                let e = nth_alt(nth_prod(&mut g, k), j);
                *e.terms_iter_mut().nth(i).ok_or("term missing in mutable iteration")? = bridge::term(x);
                m.prods[k].alts[j][i] = x.clone();
            }
            Op::MapAll(a, b) => {
                let (ta, tb) = (bridge::term(a), bridge::term(b));
                for p in g.productions_iter_mut() {
                    for e in p.rhs_iter_mut() {
                        for x in e.terms_iter_mut() {
                            if *x == ta {
                                *x = tb.clone();
                            }
                        }
                    }
                }
                for x in m.prods.iter_mut().flat_map(|p| &mut p.alts).flatten() {
                    if x == a {
                        *x = b.clone();
                    }
                }
            }
            Op::SetAlt(k, j, e) => {
                let Some(k) = at(*k, np) else { continue };
                let Some(j) = at(*j, m.prods[k].alts.len()) else { continue };
                *nth_alt(nth_prod(&mut g, k), j) = bridge::expr(e);
                m.prods[k].alts[j] = e.clone();
            }
            Op::SetProd(k, p) => {
                let Some(k) = at(*k, np) else { continue };
                *nth_prod(&mut g, k) = bridge::production(p);
                m.prods[k] = p.clone();
            }
            Op::SwapProds(a, b) => {
                let (Some(a), Some(b)) = (at(*a, np), at(*b, np)) else { continue };
                if a == b {
                    continue;
                }
                let (a, b) = (a.min(b), a.max(b));
                let mut it = g.productions_iter_mut();
                let x = it.nth(a).ok_or("production missing")?;
                let y = it.nth(b - a - 1).ok_or("production missing")?;
                std::mem::swap(x, y);
                drop(it);
                m.prods.swap(a, b);
            }
            Op::CloneAndDiverge(_) => {
                clones.push((g.clone(), m.clone()));
                continue;
            }
        }
        if m != before {
            effective += 1;
        }
        agree(&g, &m, &what)?;
        let fresh = bridge::grammar(&m);
        if g != fresh || hash(&g) != hash(&fresh) {
            return Err(format!("after {what} the grammar is not equal to the same one built anew:\n{}", bnf_text(&m)));
        }
        let same = before == m;
        if (bridge::grammar(&before) == g) != same {
            return Err(format!("after {what} equality with the grammar before says {}:\n{}", !same, bnf_text(&m)));
        }
    }
    for (i, (g, m)) in clones.iter().enumerate() {
        agree(g, m, &format!("later edits, clone {i}"))?;
    }
    let fresh = bridge::grammar(&m);
    if g.to_string() != fresh.to_string() {
        return Err(format!("prints as\n{g}\ninstead of\n{fresh}"));
    }
    if g.validate().is_ok() != fresh.validate().is_ok() {
        return Err("validation depends on the history".into());
    }
    ctx.add("edits that changed something", effective);
    ctx.label_if(!clones.is_empty(), "with clones");
    if effective > 1 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct PlusCase {
    pub a: MExpr,
    pub b: MExpr,
    pub x: MTerm,
    pub y: MTerm,
}
fn plus_case(t: &mut Tape) -> PlusCase {
    PlusCase {
        a: small_expr(t),
        b: small_expr(t),
        x: small_term(t),
        y: small_term(t),
    }
}
fn c21_plus(c: &PlusCase, ctx: &mut Ctx) -> CheckResult {
    let (a, b, x, y) = (bridge::expr(&c.a), bridge::expr(&c.b), bridge::term(&c.x), bridge::term(&c.y));
    let ab: MExpr = c.a.iter().chain(&c.b).cloned().collect();
    let ax: MExpr = c.a.iter().cloned().chain([c.x.clone()]).collect();
    let xa: MExpr = std::iter::once(c.x.clone()).chain(c.a.iter().cloned()).collect();
    let cases: [(&str, Expression, Vec<&MExpr>); 7] = [
        ("Expression + Expression", a.clone() + b.clone(), vec![&ab]),
        ("&Expression + Expression", &a + b.clone(), vec![&ab]),
        ("Expression + Term", a.clone() + x.clone(), vec![&ax]),
        ("&Expression + Term", &a + x.clone(), vec![&ax]),
        // on which side a term added from the left ends up is left open
        ("Term + Expression", x.clone() + a.clone(), vec![&ax, &xa]),
        ("Term + &Expression", x.clone() + &a, vec![&ax, &xa]),
        ("Term + Term", x.clone() + y.clone(), vec![]),
    ];
    for (what, got, want) in &cases {
        let got = bridge::un_expr(got);
        let ok = if *what == "Term + Term" { got == [c.x.clone(), c.y.clone()] } else { want.iter().any(|w| **w == got) };
        if !ok {
            return Err(format!("{what} of {:?}, {:?}, {:?}, {:?} is {got:?}", c.a, c.b, c.x, c.y));
        }
    }
    if bridge::un_expr(&a) != c.a || bridge::un_expr(&b) != c.b {
        return Err(format!("+ changed its operand {a} or {b}"));
    }
    if (x == y) != (c.x == c.y) || (a == b) != (c.a == c.b) {
        return Err(format!("equality of {x:?}, {y:?} or {a:?}, {b:?} does not follow their content"));
    }
    if x == y && hash(&x) != hash(&y) || a == b && hash(&a) != hash(&b) {
        return Err("equal values with different hashes".into());
    }
    // ordering is total and consistent with equality
    if (x.cmp(&y) == std::cmp::Ordering::Equal) != (c.x == c.y) || x.cmp(&y) != y.cmp(&x).reverse() {
        return Err(format!("ordering of {x:?} and {y:?}"));
    }
    if (a.cmp(&b) == std::cmp::Ordering::Equal) != (c.a == c.b) || a.cmp(&b) != b.cmp(&a).reverse() {
        return Err(format!("ordering of {a:?} and {b:?}"));
    }
    if !c.a.is_empty() && !c.b.is_empty() {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct EqCase {
    pub a: MGrammar,
    pub b: MGrammar,
}
/// Two terms written as one that prints the same, or nearly.
fn run_together(a: &MTerm, b: &MTerm) -> MTerm {
    match (a, b) {
        (MTerm::N(a), MTerm::N(b)) => MTerm::N(format!("{a}> <{b}")),
        (MTerm::T(a), MTerm::T(b)) if a.contains('"') => MTerm::T(format!("{a}' '{b}")),
        (MTerm::T(a), MTerm::T(b)) => MTerm::T(format!("{a}\" \"{b}")),
        (MTerm::N(a), MTerm::T(b)) => MTerm::N(format!("{a}> '{b}'")),
        (MTerm::T(a), MTerm::N(b)) => MTerm::T(format!("{a}' <{b}>")),
    }
}

/// An alternative that prints like this one, if there is a simple one.
fn print_alike(e: &[MTerm]) -> MExpr {
    match e {
        [a, b, rest @ ..] => [&[run_together(a, b)], rest].concat(),
        [MTerm::N(s)] => vec![MTerm::T(format!("<{s}>"))],
        [MTerm::T(s)] => vec![MTerm::T(format!("{s} "))],
        [] => vec![MTerm::T(String::new())],
    }
}

/// A text that is easily taken for `s`.
fn like(t: &mut Tape, s: &str) -> String {
    match t.below(10) {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => format!("{s}\0"),
        5 => s.replace('é', "e\u{301}"),
        6 => s.chars().rev().collect(),
        7 => s.chars().skip(1).collect(),
        8 => format!("{s}{s}"),
        _ => format!("{s}\u{200b}"),
    }
}

/// Grammars that are easily taken for each other: the same printed text, or one detail changed anywhere.
fn like_case(t: &mut Tape) -> EqCase {
    let mut a = if t.chance(1, 8) { gener::large_grammar(t) } else { any_grammar(t) };
    let mut b = a.clone();
    let places: Vec<(usize, usize)> =
        a.prods.iter().enumerate().flat_map(|(i, p)| (0..p.alts.len()).map(move |j| (i, j))).collect();
    if places.is_empty() {
        return EqCase { a, b };
    }
    let (i, j) = *t.pick(&places);
    match t.below(6) {
        0 => {
            let (x, y) = (small_term(t), small_term(t));
            let at = t.below(a.prods[i].alts[j].len() + 1);
            b.prods[i].alts[j].insert(at, run_together(&x, &y));
            a.prods[i].alts[j].splice(at..at, [x, y]);
        }
        1 => {
            // two alternatives as one
            let (x, y) = (small_term(t), small_term(t));
            a.prods[i].alts.splice(j..j, [vec![x.clone()], vec![y.clone()]]);
            b.prods[i].alts.insert(j, vec![MTerm::N(format!("{}> | <{}", x.text(), y.text()))]);
        }
        2 | 3 if !a.prods[i].alts[j].is_empty() => {
            let k = t.below(a.prods[i].alts[j].len());
            b.prods[i].alts[j][k] = match &a.prods[i].alts[j][k] {
                MTerm::N(s) => MTerm::N(like(t, s)),
                MTerm::T(s) => MTerm::T(like(t, s)),
            };
        }
        4 => {
            // a term moved to the next alternative
            if let Some(x) = b.prods[i].alts[j].pop()
                && let Some(next) = b.prods[i].alts.get_mut(j + 1)
            {
                next.insert(0, x);
            }
        }
        _ => {
            // one production as two
            let rest = b.prods[i].alts.split_off(j);
            let lhs = b.prods[i].lhs.clone();
            b.prods.insert(i + 1, MProd { lhs, alts: rest });
        }
    }
    EqCase { a, b }
}

/// Nearly equal grammars.
fn eq_case(t: &mut Tape) -> EqCase {
    let a = any_grammar(t);
    let mut b = a.clone();
    if !b.prods.is_empty() && !t.chance(1, 5) {
        let k = t.below(b.prods.len());
        let p = &mut b.prods[k];
        match t.below(8) {
            0 => {
                p.lhs = match &p.lhs {
                    MTerm::T(s) => MTerm::N(s.clone()),
                    MTerm::N(s) => MTerm::T(s.clone()),
                }
            }
            1 => p.alts.push(vec![]),
            2 => p.alts.reverse(),
            3 if !p.alts.is_empty() => {
                let j = t.below(p.alts.len());
                p.alts[j].reverse();
            }
            4 if !p.alts.is_empty() => {
                let j = t.below(p.alts.len());
                p.alts[j].push(small_term(t));
            }
            5 => {
                let q = p.clone();
                b.prods.push(q);
            }
            6 => b.prods.reverse(),
            _ => {
                if let Some(x) = p.alts.iter_mut().flatten().next() {
                    *x = match x {
                        MTerm::T(s) => MTerm::N(s.clone()),
                        MTerm::N(s) => MTerm::T(s.clone()),
                    }
                }
            }
        }
    }
    EqCase { a, b }
}
fn c21_eq(c: &EqCase, ctx: &mut Ctx) -> CheckResult {
    let (a, b) = (bridge::grammar(&c.a), bridge::grammar(&c.b));
    let same = c.a == c.b;
    if (a == b) != same || (b == a) != same {
        return Err(format!("equality says {} for\n{}and\n{}", a == b, bnf_text(&c.a), bnf_text(&c.b)));
    }
    if same && hash(&a) != hash(&b) {
        return Err("equal grammars with different hashes".into());
    }
    for (p, q) in a.productions_iter().zip(b.productions_iter()) {
        let s = bridge::un_production(p) == bridge::un_production(q);
        if (p == q) != s {
            return Err(format!("equality says {} for {p:?} and {q:?}", p == q));
        }
        if s && hash(p) != hash(q) {
            return Err(format!("equal productions with different hashes: {p:?}"));
        }
        for (e, f) in p.rhs_iter().zip(q.rhs_iter()) {
            let s = bridge::un_expr(e) == bridge::un_expr(f);
            if (e == f) != s || (e.cmp(f) == std::cmp::Ordering::Equal) != s {
                return Err(format!("comparison says {} for {e:?} and {f:?}", e == f));
            }
        }
    }
    ctx.label(if same { "equal" } else { "different" });
    ctx.nontrivial(hash_of(c));
    Ok(())
}

// ---------- C22 ----------

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SerdeCase {
    pub grammar: MGrammar,
    pub input: String,
}
fn serde_case(t: &mut Tape) -> SerdeCase {
    let grammar = any_grammar(t);
    let from = grammar.nonterminals().first().copied().unwrap_or("s").to_string();
    let input = gener::input_for(t, &grammar, &from, 14);
    SerdeCase { grammar, input }
}

fn large_serde(t: &mut Tape) -> SerdeCase {
    let grammar = gener::large_grammar(t);
    SerdeCase { grammar, input: String::new() }
}

fn round<T: Serialize + DeserializeOwned + PartialEq + Debug + Display>(v: &T) -> CheckResult {
    let fail = |how: &str, e: String| format!("{how}: {e} for {v:?}");
    let mut all: Vec<(&str, T)> = vec![];
    let s = serde_json::to_string(v).map_err(|e| fail("to JSON", e.to_string()))?;
    all.push(("JSON", serde_json::from_str(&s).map_err(|e| fail("from JSON", e.to_string()))?));
    let s = serde_json::to_vec_pretty(v).map_err(|e| fail("to pretty JSON", e.to_string()))?;
    all.push(("pretty JSON", serde_json::from_reader(&s[..]).map_err(|e| fail("from JSON reader", e.to_string()))?));
    let j = serde_json::to_value(v).map_err(|e| fail("to JSON value", e.to_string()))?;
    all.push(("JSON value", serde_json::from_value(j).map_err(|e| fail("from JSON value", e.to_string()))?));
    let mut b = vec![];
    ciborium::into_writer(v, &mut b).map_err(|e| fail("to CBOR", e.to_string()))?;
    all.push(("CBOR", ciborium::from_reader(&b[..]).map_err(|e| fail("from CBOR", e.to_string()))?));
    let b = bincode::serialize(v).map_err(|e| fail("to bincode", e.to_string()))?;
    all.push(("bincode", bincode::deserialize(&b).map_err(|e| fail("from bincode", e.to_string()))?));
    for (how, w) in all {
        if w != *v {
            return Err(format!("{how} turned {v:?} into {w:?}"));
        }
        if w.to_string() != v.to_string() {
            return Err(format!("{how} changed the printed text of {v:?} to {w}"));
        }
    }
    Ok(())
}

fn c22(c: &SerdeCase, ctx: &mut Ctx) -> CheckResult {
    let g = bridge::grammar(&c.grammar);
    round(&g)?;
    if let Some(p) = g.productions_iter().next() {
        round(p)?;
        round(&p.lhs)?;
        if let Some(e) = p.rhs_iter().next() {
            round(e)?;
        }
    }
    let h: Grammar = serde_json::from_str(&serde_json::to_string(&g).expect("JSON")).expect("JSON back");
    if bridge::un_grammar(&h) != c.grammar {
        return Err(format!("deserialised as\n{h}\ninstead of\n{}", bnf_text(&c.grammar)));
    }
    // the same parses
    if g.validate().is_ok() != h.validate().is_ok() {
        return Err("validation differs after deserialising".into());
    }
    if let Some(MTerm::N(_)) = c.grammar.prods.first().map(|p| &p.lhs)
        && g.validate().is_ok()
    {
        let a = super::parse::analyse(&c.grammar, &c.grammar.prods[0].lhs, &c.input);
        if !a.cyclic && a.items < 3000 && a.trees < 100 {
            let (pg, ph) = (g.build_parser().map_err(|e| e.to_string())?, h.build_parser().map_err(|e| e.to_string())?);
            let tg: Vec<_> = pg.parse_input(&c.input).map(|t| bridge::un_tree(&t)).collect();
            let th: Vec<_> = ph.parse_input(&c.input).map(|t| bridge::un_tree(&t)).collect();
            if tg != th {
                return Err(format!("{:?} parses differently after deserialising\n{}", c.input, bnf_text(&c.grammar)));
            }
            ctx.label_if(!tg.is_empty(), "parsed");
        }
    }
    ctx.label_if(c.grammar.prods.is_empty(), "empty grammar");
    ctx.label_if(c.grammar.prods.iter().any(|p| p.alts.is_empty()), "production without alternatives");
    ctx.label_if(c.grammar.prods.iter().flat_map(|p| &p.alts).any(Vec::is_empty), "alternative without terms");
    if c.grammar.terms().count() > 1 {
        ctx.nontrivial(hash_of(c));
    }
    ctx.note(|| json!({"json": serde_json::to_value(&g).ok()}));
    Ok(())
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TermCase {
    pub term: MTerm,
    pub expr: MExpr,
}
fn term_case(t: &mut Tape) -> TermCase {
    let term = |t: &mut Tape| {
        let s = match t.below(3) {
            0 => gener::odd_string(t, 20, 5, &[]),
            1 => {
                let cs = t.list(0, 12, 4, |t, _| char::from_u32(t.draw(0x11_0000) as u32).unwrap_or('\0'));
                cs.into_iter().collect()
            }
            _ => (*t.pick(&["Terminal", "Nonterminal", "", "null", "{\"Terminal\":\"x\"}", "\u{feff}", "\0"])).to_string(),
        };
        if t.chance(1, 2) { MTerm::N(s) } else { MTerm::T(s) }
    };
    TermCase {
        term: term(t),
        expr: t.list(0, 6, 2, |t, _| term(t)),
    }
}
fn c22_terms(c: &TermCase, ctx: &mut Ctx) -> CheckResult {
    let term: Term = bridge::term(&c.term);
    round(&term)?;
    let e = bridge::expr(&c.expr);
    round(&e)?;
    round(&Production::from_parts(term, vec![e.clone(), Expression::new(), e]))?;
    ctx.nontrivial(hash_of(c));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C21",
            rule: "histories of up to 60 edits on a grammar (add, remove present or absent elements, nested mutable iteration, replacing, swapping, clones that diverge) against a nested-list model, all reading functions compared after each step; the + operators on random operands; equality, hashing and ordering on nearly equal values. Non-trivial: two edits that changed something (operators: both operands non-empty)",
            assumptions: &[
                "the order of productions after remove_production is left open except for the first",
                "on which side Term + Expression puts the term is left open",
            ],
            modes: vec![
                mode("histories", 600_000, 2_000_000, edit_case, c21),
                mode("large", 400, 3_000, large_edit, c21),
                mode("operators", 400_000, 2_000_000, plus_case, c21_plus),
                mode("equality", 400_000, 2_000_000, eq_case, c21_eq),
                mode("look-alikes", 200_000, 1_500_000, like_case, c21_eq),
            ],
        },
        Property {
            id: "C22",
            rule: "grammars (random, odd, degenerate: no productions, no alternatives, no terms, terminal left-hand sides) and terms over arbitrary characters, through JSON text, JSON values, CBOR and bincode and back; printed text and parses of the result compared. Non-trivial: more than one term",
            assumptions: &["JSON, CBOR and bincode stand for serde formats in general"],
            modes: vec![
                mode("grammars", 300_000, 1_500_000, serde_case, c22),
                mode("large", 600, 3_000, large_serde, c22),
                mode("terms", 600_000, 2_000_000, term_case, c22_terms),
            ],
        },
    ]
}

//! C19, C20: printed parse trees and Mermaid flowcharts.
use crate::bridge;
use crate::fw::{CheckResult, Ctx, Property, mode};
use bnf::{ParseTree, ParseTreeNode, Term};
use model::ast::*;
use model::gener;
use model::hash_of;
use model::tape::Tape;
use model::tree::{Node, Tree};
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::parse::{self, ParseCase};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    /// replace the leaf's text
    Text(u16, String),
    /// make this node a leaf
    Cut(u16, String),
    /// replace this node by a copy of the whole tree as it was before the edits
    Graft(u16),
    /// give this inner node another left-hand side
    Lhs(u16, u16),
    /// swap the first and last child
    Swap(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct TreeCase {
    pub parse: ParseCase,
    pub edits: Vec<Edit>,
}

const TEXTS: [&str; 14] = [
    "", "x", "\"", "#35;", "a;b", "&amp;", "<b>", "[\"]", "\\", "é日😀", "line\nbreak", "\r", "'", "::=",
];

fn edits(t: &mut Tape) -> Vec<Edit> {
    t.list(0, 6, 1, |t, _| {
        let at = t.draw(1 << 16) as u16;
        let text = if t.chance(1, 3) { gener::odd_string(t, 8, 3, &[]) } else { (*t.pick(&TEXTS)).to_string() };
        match t.below(5) {
            0 => Edit::Text(at, text),
            1 => Edit::Cut(at, text),
            2 => Edit::Graft(at),
            3 => Edit::Lhs(at, t.draw(1 << 16) as u16),
            _ => Edit::Swap(at),
        }
    })
}

fn tree_case(t: &mut Tape) -> TreeCase {
    let mut parse = match t.weighted(&[1, 1, 6]) {
        0 => parse::small_case(t),
        1 => parse::odd_case(t),
        _ => {
            // a sentence, so that most cases have a tree
            let odd = t.chance(1, 3);
            let g = if odd {
                gener::random_grammar(t, &gener::Opts { odd, ..gener::Opts::default() })
            } else {
                gener::parse_grammar(t)
            };
            let from = g.prods[0].lhs.text().to_string();
            let budget = t.range(2, 24);
            let input = gener::sentence(t, &g, &from, budget, 40).unwrap_or_default();
            ParseCase {
                grammar: g,
                start: None,
                input,
            }
        }
    };
    if t.chance(1, 10) {
        // a terminal as left-hand side (hand-built grammars), as the start
        let s = parse.grammar.prods[0].lhs.clone();
        parse.grammar.prods.push(MProd {
            lhs: MTerm::T("it's".into()),
            alts: vec![vec![s]],
        });
        parse.start = Some(MTerm::T("it's".into()));
    }
    TreeCase {
        parse,
        edits: edits(t),
    }
}

/// Deep or wide trees.
fn big_tree_case(t: &mut Tape) -> TreeCase {
    let k = *t.pick(&[10usize, 40, 100, 200, 500]);
    let (prods, input) = match t.below(4) {
        0 => (
            vec![prod("s", vec![vec![tt("("), n("s"), tt(")")], vec![tt("x")]])],
            format!("{}x{}", "(".repeat(k), ")".repeat(k)),
        ),
        1 => (vec![prod("s", vec![vec![n("s"), tt("a")], vec![tt("a")]])], "a".repeat(k)),
        2 => (
            vec![prod("s", vec![(0..k).map(|i| if i % 3 == 1 { n("x") } else { tt("y") }).collect()]), prod("x", vec![vec![tt("z"), tt("w")]])],
            (0..k).map(|i| if i % 3 == 1 { "zw" } else { "y" }).collect(),
        ),
        _ => (
            vec![
                prod("s", vec![vec![n("l"), n("s"), n("r")], vec![tt("m")]]),
                prod("l", vec![vec![tt("a"), tt("b")]]),
                prod("r", vec![vec![tt("c")]]),
            ],
            format!("{}m{}", "ab".repeat(k.min(60)), "c".repeat(k.min(60))),
        ),
    };
    let edits = edits(t);
    TreeCase {
        parse: ParseCase {
            grammar: MGrammar { prods },
            start: None,
            input,
        },
        edits,
    }
}
fn tt(s: &str) -> MTerm {
    t(s)
}

/// Path to the k-th node (preorder, modulo the number of nodes), as child indices.
fn path(tree: &Tree, k: u16) -> Vec<usize> {
    fn go(t: &Tree, left: &mut usize, at: &mut Vec<usize>) -> bool {
        if *left == 0 {
            return true;
        }
        *left -= 1;
        for (i, c) in t.kids.iter().enumerate() {
            at.push(i);
            match c {
                Node::Leaf(_) => {
                    if *left == 0 {
                        return true;
                    }
                    *left -= 1;
                }
                Node::Sub(s) => {
                    if go(s, left, at) {
                        return true;
                    }
                }
            }
            at.pop();
        }
        false
    }
    let mut left = k as usize % tree.size();
    let mut at = vec![];
    go(tree, &mut left, &mut at);
    at
}

fn node_mut<'a>(t: &'a mut Tree, path: &[usize]) -> Option<&'a mut Node> {
    let (first, rest) = path.split_first()?;
    let n = &mut t.kids[*first];
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        Node::Sub(s) => node_mut(s, rest),
        Node::Leaf(_) => None,
    }
}
fn real_node_mut<'a, 'g>(t: &'a mut ParseTree<'g>, path: &[usize]) -> Option<&'a mut ParseTreeNode<'g>> {
    let (first, rest) = path.split_first()?;
    let n = t.rhs_iter_mut().nth(*first)?;
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        ParseTreeNode::Nonterminal(s) => real_node_mut(s, rest),
        ParseTreeNode::Terminal(_) => None,
    }
}

/// Applies the edits to the library's tree and to the model's; both must end up the same.
fn apply<'g>(edits: &'g [Edit], heads: &'g [Term], real: &mut ParseTree<'g>, tree: &mut Tree) -> CheckResult {
    let (real0, tree0) = (real.clone(), tree.clone());
    for e in edits {
        let at = match e {
            Edit::Text(k, _) | Edit::Cut(k, _) | Edit::Graft(k) | Edit::Lhs(k, _) | Edit::Swap(k) => path(tree, *k),
        };
        if tree.size() > 4000 {
            break;
        }
        let (m, r) = (node_mut(tree, &at), real_node_mut(real, &at));
        match (m, r, e) {
            (Some(m @ Node::Leaf(_)), Some(r), Edit::Text(_, s)) | (Some(m), Some(r), Edit::Cut(_, s)) => {
                *m = Node::Leaf(s.clone());
                *r = ParseTreeNode::Terminal(s);
            }
            (Some(m), Some(r), Edit::Graft(_)) => {
                *m = Node::Sub(tree0.clone());
                *r = ParseTreeNode::Nonterminal(real0.clone());
            }
            (Some(Node::Sub(m)), Some(ParseTreeNode::Nonterminal(r)), Edit::Lhs(_, j)) => {
                let h = &heads[*j as usize % heads.len()];
                m.lhs = bridge::un_term(h);
                r.lhs = h;
            }
            (Some(Node::Sub(m)), Some(ParseTreeNode::Nonterminal(r)), Edit::Swap(_)) if m.kids.len() > 1 => {
                let last = m.kids.len() - 1;
                m.kids.swap(0, last);
                let mut it = r.rhs_iter_mut();
                let a = it.next().ok_or("first child missing")?;
                let b = it.last().ok_or("last child missing")?;
                std::mem::swap(a, b);
            }
            (None, None, Edit::Lhs(_, j)) => {
                let h = &heads[*j as usize % heads.len()];
                tree.lhs = bridge::un_term(h);
                real.lhs = h;
            }
            (None, Some(_), _) | (Some(_), None, _) => return Err(format!("no node at {at:?} of the tree")),
            _ => {}
        }
    }
    let got = bridge::un_tree(real);
    if got != *tree {
        return Err(format!("after {edits:?} the tree is\n{}\ninstead of\n{}", got.draw(), tree.draw()));
    }
    Ok(())
}

/// A small tree with copies of itself put in the place of its leaves again and again.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct HugeCase {
    pub parse: ParseCase,
    pub nodes: usize,
    /// graft at every leaf, or at the last leaf only (deep)
    pub everywhere: bool,
}
fn huge_case(t: &mut Tape) -> HugeCase {
    let parse = tree_case(t).parse;
    let nodes = *t.pick(&[3_000usize, 12_000, 40_000, 80_000]);
    let everywhere = t.chance(3, 4);
    HugeCase {
        parse,
        nodes: if everywhere { nodes } else { nodes / 40 },
        everywhere,
    }
}

fn fill<'g>(t: &mut ParseTree<'g>, with: &ParseTree<'g>, size: usize, left: &mut isize, everywhere: bool) {
    let n = t.rhs_iter().count();
    for (i, c) in t.rhs_iter_mut().enumerate() {
        if *left < 0 || (!everywhere && i + 1 < n) {
            continue;
        }
        match c {
            ParseTreeNode::Terminal(_) => {
                *c = ParseTreeNode::Nonterminal(with.clone());
                *left -= size as isize;
            }
            ParseTreeNode::Nonterminal(s) => fill(s, with, size, left, everywhere),
        }
    }
}

fn with_huge(c: &HugeCase, ctx: &mut Ctx, check: fn(&ParseTree, &Tree, &mut Ctx) -> CheckResult) -> CheckResult {
    let a = parse::analyse(&c.parse.grammar, &c.parse.start(), &c.parse.input);
    if a.items > 5_000 || a.cyclic {
        ctx.discard();
        return Ok(());
    }
    parse::with_trees(&c.parse.grammar, c.parse.start.as_ref(), &c.parse.input, |it| {
        let Some(mut real) = it.next() else {
            ctx.discard();
            return Ok(());
        };
        let mut size = bridge::un_tree(&real).size();
        for _ in 0..20 {
            let mut left = c.nodes.saturating_sub(size) as isize;
            // a drawing takes size x depth
            if size * bridge::un_tree(&real).depth() > 4_000_000 {
                break;
            }
            let by = real.clone();
            fill(&mut real, &by, size, &mut left, c.everywhere);
            let now = bridge::un_tree(&real).size();
            if now >= c.nodes || now == size {
                break;
            }
            size = now;
        }
        let tree = bridge::un_tree(&real);
        ctx.label_if(tree.size() > 2_000, "over 2000 nodes");
        ctx.label_if(tree.size() > 20_000, "over 20000 nodes");
        ctx.label_if(tree.depth() > 300, "over 300 deep");
        if tree.size() > 100 {
            ctx.nontrivial(hash_of(&tree));
        }
        check(&real, &tree, ctx).map_err(|e| e.chars().take(3_000).collect())
    })?
}

fn c19_huge(c: &HugeCase, ctx: &mut Ctx) -> CheckResult {
    with_huge(c, ctx, draw_check)
}
fn c20_huge(c: &HugeCase, ctx: &mut Ctx) -> CheckResult {
    with_huge(c, ctx, mermaid_check)
}

fn with_tree(c: &TreeCase, ctx: &mut Ctx, check: fn(&ParseTree, &Tree, &mut Ctx) -> CheckResult) -> CheckResult {
    // (the large cases are unambiguous and cheap to parse)
    if c.parse.input.len() <= 64 {
        let a = parse::analyse(&c.parse.grammar, &c.parse.start(), &c.parse.input);
        if a.items > 5_000 || a.cyclic {
            ctx.discard();
            return Ok(());
        }
    }
    // trees differ, so look at the last of a few
    let heads: Vec<Term> = c.parse.grammar.prods.iter().map(|p| bridge::term(&p.lhs)).collect();
    parse::with_trees(&c.parse.grammar, c.parse.start.as_ref(), &c.parse.input, |it| {
        for (k, real) in it.take(3).enumerate() {
            let tree = bridge::un_tree(&real);
            check(&real, &tree, ctx)?;
            let (mut r2, mut t2) = (real.clone(), tree.clone());
            apply(&c.edits, &heads, &mut r2, &mut t2)?;
            if !c.edits.is_empty() {
                check(&r2, &t2, ctx)?;
                ctx.label("edited trees");
                // the original is not affected by edits to its clone
                check(&real, &tree, ctx)?;
            }
            ctx.label("trees");
            ctx.label_if(t2.depth() > 60, "over 60 deep");
            ctx.label_if(t2.size() > 100, "over 100 nodes");
            ctx.label_if(real.lhs != &heads[0] && k == 0, "other root");
            if t2.size() > 3 {
                ctx.nontrivial(hash_of(&(k, &t2)));
            }
            ctx.note(|| json!({"drawing": t2.draw()}));
        }
        Ok(())
    })?
}

fn draw_check(real: &ParseTree, tree: &Tree, _: &mut Ctx) -> CheckResult {
    let got = real.to_string();
    let want = tree.draw();
    if got != want {
        return Err(format!("printed as\n{got}instead of\n{want}"));
    }
    Ok(())
}

fn c19(c: &TreeCase, ctx: &mut Ctx) -> CheckResult {
    with_tree(c, ctx, draw_check)
}

// ---------- C20 ----------

fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        match c {
            '#' => {
                let (code, tail) = rest[1..].split_once(';').ok_or_else(|| format!("'#' without an entity in {s:?}"))?;
                let v: u32 = code.parse().map_err(|_| format!("entity #{code}; in {s:?}"))?;
                out.push(char::from_u32(v).ok_or_else(|| format!("entity #{code}; in {s:?}"))?);
                rest = tail;
            }
            '"' | '&' | '<' | '>' | '[' | ']' | '\\' | ';' | '\n' | '\r' => {
                return Err(format!("raw {c:?} in label {s:?}"));
            }
            c => {
                out.push(c);
                rest = &rest[c.len_utf8()..];
            }
        }
    }
    Ok(out)
}

/// Only the listed characters become entities.
fn minimal(s: &str, label: &str) -> bool {
    let plain = |s: &str| -> String {
        s.chars().filter(|c| !"\"&#<>[]\\;\n\r".contains(*c)).collect()
    };
    // drop the entities from the escaped form
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('#') {
        out.push_str(&rest[..i]);
        let Some(j) = rest[i..].find(';') else { return false };
        rest = &rest[i + j + 1..];
    }
    out.push_str(rest);
    out == plain(label)
}

fn side(s: &str) -> Result<(usize, String), String> {
    let bad = || format!("not a node: {s:?}");
    let (num, rest) = s.trim().split_once('[').ok_or_else(bad)?;
    let label = rest
        .strip_prefix('"')
        .and_then(|r| r.strip_suffix("\"]"))
        .ok_or_else(bad)?;
    let num = num.trim().parse().map_err(|_| bad())?;
    let text = decode(label)?;
    if !minimal(label, &text) {
        return Err(format!("{label:?} escapes more than needed"));
    }
    Ok((num, text))
}

fn mermaid_check(real: &ParseTree, tree: &Tree, _: &mut Ctx) -> CheckResult {
    let got = real.mermaid().to_string();
    let want = tree.edges();
    let mut lines = got.lines();
    let head = lines.next().unwrap_or_default();
    if !head.starts_with("flowchart") {
        return Err(format!("does not start as a flowchart: {head:?}"));
    }
    let mut edges = vec![];
    for l in lines.filter(|l| !l.trim().is_empty()) {
        // a label cannot hold ']' or '"' raw, so the first such arrow separates the two nodes
        let (a, b) = l.split_once("\"] --> ").ok_or_else(|| format!("not an edge: {l:?}"))?;
        let (a, b) = (side(&format!("{a}\"]"))?, side(b)?);
        edges.push((a.0, a.1, b.0, b.1));
    }
    if edges != want {
        return Err(format!("mermaid\n{got}\nhas the edges {edges:?}\ninstead of {want:?}"));
    }
    Ok(())
}

fn c20(c: &TreeCase, ctx: &mut Ctx) -> CheckResult {
    with_tree(c, ctx, mermaid_check)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct LabelCase {
    pub text: String,
}
fn label_case(t: &mut Tape) -> LabelCase {
    let text = match t.below(3) {
        0 => gener::odd_string(t, 24, 6, &[]),
        1 => {
            let parts = t.list(0, 8, 3, |t, _| (*t.pick(&TEXTS)).to_string());
            parts.concat()
        }
        _ => {
            let cs = t.list(0, 20, 8, |t, _| char::from_u32(t.draw(0x11_0000) as u32).unwrap_or('"'));
            cs.into_iter().collect()
        }
    };
    LabelCase { text }
}
fn c20_label(c: &LabelCase, ctx: &mut Ctx) -> CheckResult {
    let e = bnf::escape_mermaid_label(&c.text);
    let d = decode(&e)?;
    if d != c.text {
        return Err(format!("{:?} is escaped as {e:?}, which decodes to {d:?}", c.text));
    }
    if !minimal(&e, &c.text) {
        return Err(format!("{:?} is escaped as {e:?}: other characters do not appear unchanged", c.text));
    }
    ctx.label_if(e != c.text, "with entities");
    if c.text.len() > 1 {
        ctx.nontrivial(hash_of(c));
    }
    Ok(())
}

/// Every character, alone and between others.
fn c20_chars(c: &u32, ctx: &mut Ctx) -> CheckResult {
    for v in (*c * 64)..(*c * 64 + 64) {
        let Some(ch) = char::from_u32(v) else { continue };
        ctx.add("characters", 1);
        for text in [format!("{ch}"), format!("a{ch}#"), format!("{ch}{ch};")] {
            c20_label(&LabelCase { text }, ctx)?;
        }
    }
    ctx.nontrivial(u64::from(*c));
    Ok(())
}
fn every_block(t: &mut Tape) -> u32 {
    // low code points first
    let b = t.below(0x11_0000 / 64) as u32;
    if t.chance(1, 3) { b % 8 } else { b }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C19",
            rule: "parse trees of random grammars (odd names and texts, several trees per input, terminal roots) and deep or wide ones, as parsed and after in-place edits (texts, cuts, grafts of whole trees, other left-hand sides, swaps), and filled with copies of themselves up to 80000 nodes, printed and compared with an independent drawing. Non-trivial: more than three nodes",
            assumptions: &["trees come from parsing, then edits; ParseTree values cannot be built otherwise"],
            modes: vec![
                mode("trees", 200_000, 1_500_000, tree_case, c19),
                mode("large", 2_000, 20_000, big_tree_case, c19),
                mode("huge", 150, 3_000, huge_case, c19_huge),
            ],
        },
        Property {
            id: "C20",
            rule: "the same trees rendered as Mermaid, parsed back into numbered labelled edges and compared with the tree's; labels over odd, structured and arbitrary strings, and blocks of 64 code points, escaped and decoded. Non-trivial: more than three nodes; labels of more than one byte",
            assumptions: &["entity codes are decimal, as Mermaid reads them"],
            modes: vec![
                mode("trees", 200_000, 1_500_000, tree_case, c20),
                mode("large", 2_000, 20_000, big_tree_case, c20),
                mode("huge", 150, 3_000, huge_case, c20_huge),
                mode("labels", 300_000, 4_000_000, label_case, c20_label),
                mode("characters", 6_000, 60_000, every_block, c20_chars),
            ],
        },
    ]
}

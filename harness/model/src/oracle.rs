//! Oracles for context-free derivation: membership, derivation counts, enumeration, cycles.
use crate::ast::{MGrammar, MTerm};
use crate::tree::{Node, Tree};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Sym {
    T(String),
    /// Index of the left-hand side symbol.
    N(usize),
    /// A nonterminal without production: derives nothing.
    U,
}

/// A grammar flattened to alternatives; left-hand sides may also be terminals (hand-built values),
/// which then are reachable only as explicit start symbols.
#[derive(Clone, Debug)]
pub struct Flat {
    pub heads: Vec<MTerm>,
    pub alts: Vec<(usize, Vec<Sym>)>,
    pub of: Vec<Vec<usize>>,
}

impl Flat {
    pub fn new(g: &MGrammar) -> Self {
        let mut heads: Vec<MTerm> = vec![];
        let mut idx: HashMap<&MTerm, usize> = HashMap::new();
        for p in &g.prods {
            idx.entry(&p.lhs).or_insert_with(|| {
                heads.push(p.lhs.clone());
                heads.len() - 1
            });
        }
        let mut alts = vec![];
        let mut of = vec![vec![]; heads.len()];
        for p in &g.prods {
            let h = idx[&p.lhs];
            for a in &p.alts {
                let syms = a
                    .iter()
                    .map(|s| match s {
                        MTerm::T(x) => Sym::T(x.clone()),
                        MTerm::N(_) => idx.get(s).map_or(Sym::U, |i| Sym::N(*i)),
                    })
                    .collect();
                of[h].push(alts.len());
                alts.push((h, syms));
            }
        }
        Flat { heads, alts, of }
    }
    pub fn head(&self, t: &MTerm) -> Option<usize> {
        self.heads.iter().position(|h| h == t)
    }
}

/// Set-based recogniser: which (symbol, origin) pairs complete at each position. Worklist per
/// position, with completed empty spans re-examined, so nullable rules need no special casing.
pub fn recognise(f: &Flat, start: usize, input: &str) -> bool {
    let n = input.len();
    type Item = (usize, usize, usize); // alternative, dot, origin
    let mut sets: Vec<Vec<Item>> = vec![vec![]; n + 1];
    let mut seen: Vec<HashSet<Item>> = vec![HashSet::new(); n + 1];
    // waiting[pos][sym] = items whose next symbol is sym at pos
    let mut waiting: Vec<HashMap<usize, Vec<Item>>> = vec![HashMap::new(); n + 1];
    for a in &f.of[start] {
        if seen[0].insert((*a, 0, 0)) {
            sets[0].push((*a, 0, 0));
        }
    }
    let mut accepted = false;
    for pos in 0..=n {
        if !input.is_char_boundary(pos) {
            continue;
        }
        let mut k = 0;
        // symbols completed over the empty span at this position
        let mut empty_done: HashSet<usize> = HashSet::new();
        while k < sets[pos].len() {
            let (a, d, o) = sets[pos][k];
            k += 1;
            let (h, syms) = &f.alts[a];
            match syms.get(d) {
                None => {
                    if *h == start && o == 0 && pos == n {
                        accepted = true;
                    }
                    if o == pos {
                        empty_done.insert(*h);
                    }
                    let parents: Vec<Item> = waiting[o].get(h).cloned().unwrap_or_default();
                    for (pa, pd, po) in parents {
                        if seen[pos].insert((pa, pd + 1, po)) {
                            sets[pos].push((pa, pd + 1, po));
                        }
                    }
                }
                Some(Sym::U) => {}
                Some(Sym::T(t)) => {
                    if input[pos..].starts_with(t.as_str()) {
                        let e = pos + t.len();
                        if seen[e].insert((a, d + 1, o)) {
                            sets[e].push((a, d + 1, o));
                        }
                    }
                }
                Some(Sym::N(m)) => {
                    waiting[pos].entry(*m).or_default().push((a, d, o));
                    for na in &f.of[*m] {
                        if seen[pos].insert((*na, 0, pos)) {
                            sets[pos].push((*na, 0, pos));
                        }
                    }
                    if empty_done.contains(m) && seen[pos].insert((a, d + 1, o)) {
                        sets[pos].push((a, d + 1, o));
                    }
                }
            }
        }
    }
    accepted
}

pub fn derives(g: &MGrammar, start: &MTerm, input: &str) -> bool {
    let f = Flat::new(g);
    f.head(start).is_some_and(|s| recognise(&f, s, input))
}

/// Second, unrelated membership oracle: least fixpoint of "symbol derives input[i..j]".
/// Slow; used to cross-check `recognise` and as the basis of counting.
pub struct Chart {
    pub n: usize,
    /// ends[sym][i] = sorted end positions
    pub ends: Vec<Vec<Vec<usize>>>,
}

fn step_sym(f: &Flat, ends: &[Vec<Vec<usize>>], s: &Sym, input: &str, at: usize) -> Vec<usize> {
    let _ = f;
    match s {
        Sym::U => vec![],
        Sym::T(t) => {
            if input[at..].starts_with(t.as_str()) {
                vec![at + t.len()]
            } else {
                vec![]
            }
        }
        Sym::N(m) => ends[*m][at].clone(),
    }
}

impl Chart {
    pub fn new(f: &Flat, input: &str) -> Self {
        let n = input.len();
        let mut ends = vec![vec![vec![]; n + 1]; f.heads.len()];
        for i in (0..=n).rev() {
            if !input.is_char_boundary(i) {
                continue;
            }
            loop {
                let mut changed = false;
                for (h, syms) in &f.alts {
                    let mut cur = vec![i];
                    for s in syms {
                        let mut nx: Vec<usize> = vec![];
                        for at in &cur {
                            nx.extend(step_sym(f, &ends, s, input, *at));
                        }
                        nx.sort_unstable();
                        nx.dedup();
                        cur = nx;
                        if cur.is_empty() {
                            break;
                        }
                    }
                    for e in cur {
                        let v: &mut Vec<usize> = &mut ends[*h][i];
                        if let Err(p) = v.binary_search(&e) {
                            v.insert(p, e);
                            changed = true;
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
        }
        Chart { n, ends }
    }
    pub fn has(&self, sym: usize, i: usize, j: usize) -> bool {
        self.ends[sym][i].binary_search(&j).is_ok()
    }
}

/// What parsing `input` from `start` involves.
#[derive(Clone, Debug, Default)]
pub struct Analysis {
    pub member: bool,
    /// Some span derivation met while parsing top-down can derive itself.
    pub cyclic: bool,
    /// ... and is part of the derivations of the whole input (infinitely many trees).
    pub root_cyclic: bool,
    /// Number of derivations (saturating; meaningful when not root_cyclic).
    pub trees: u64,
    /// Number of partial derivations a tree-enumerating parser has to consider (not cyclic).
    pub items: u64,
}

pub struct Analyser<'a> {
    pub f: &'a Flat,
    pub input: &'a str,
    pub chart: Chart,
    counts: HashMap<(usize, usize, usize), Option<u64>>,
    work: std::cell::Cell<u64>,
}

/// Steps an analysis may take; beyond that its case is not judged.
const MAX_WORK: u64 = 20_000_000;

impl<'a> Analyser<'a> {
    pub fn new(f: &'a Flat, input: &'a str) -> Self {
        Analyser {
            f,
            input,
            chart: Chart::new(f, input),
            counts: HashMap::new(),
            work: std::cell::Cell::new(0),
        }
    }

    fn step(&self, s: &Sym, at: usize) -> Vec<usize> {
        step_sym(self.f, &self.chart.ends, s, self.input, at)
    }

    fn exhausted(&self) -> bool {
        self.work.get() > MAX_WORK
    }

    /// For each k, the positions (in order) between syms[..k] and syms[k..] in derivations of
    /// input[i..j] from syms.
    fn alive(&self, syms: &[Sym], i: usize, j: usize) -> Vec<Vec<usize>> {
        let mut at: Vec<Vec<usize>> = vec![vec![i]];
        for s in syms {
            let mut nx: Vec<usize> = vec![];
            for a in at.last().expect("one at least") {
                nx.extend(self.step(s, *a).into_iter().filter(|e| *e <= j));
            }
            self.work.set(self.work.get() + nx.len() as u64 + 1);
            nx.sort_unstable();
            nx.dedup();
            at.push(nx);
        }
        at.last_mut().expect("one at least").retain(|e| *e == j);
        for k in (0..syms.len()).rev() {
            let (head, tail) = at.split_at_mut(k + 1);
            let after = &tail[0];
            head[k].retain(|a| !after.is_empty() && self.step(&syms[k], *a).iter().any(|e| after.binary_search(e).is_ok()));
        }
        at
    }

    /// Completed spans a derivation of (sym,i,j) uses directly.
    fn children(&self, (sym, i, j): (usize, usize, usize)) -> Vec<(usize, usize, usize)> {
        let mut out = vec![];
        for a in &self.f.of[sym] {
            let syms = &self.f.alts[*a].1;
            let alive = self.alive(syms, i, j);
            for (k, s) in syms.iter().enumerate() {
                if let Sym::N(m) = s {
                    for at in &alive[k] {
                        let ends = self.step(s, *at);
                        self.work.set(self.work.get() + ends.len() as u64);
                        out.extend(ends.into_iter().filter(|e| alive[k + 1].binary_search(e).is_ok()).map(|e| (*m, *at, e)));
                    }
                }
            }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// Does a cycle exist among the spans reachable from `roots`?
    fn reach_cycle(&self, roots: &[(usize, usize, usize)]) -> bool {
        let mut state: HashMap<(usize, usize, usize), u8> = HashMap::new();
        for r in roots {
            if state.contains_key(r) {
                continue;
            }
            // iterative DFS with explicit post-visit
            let mut stack = vec![(*r, None::<std::vec::IntoIter<(usize, usize, usize)>>)];
            while let Some((node, it)) = stack.last_mut() {
                if self.exhausted() {
                    return true;
                }
                if it.is_none() {
                    state.insert(*node, 1);
                    *it = Some(self.children(*node).into_iter());
                }
                match it.as_mut().expect("set").next() {
                    Some(c) => match state.get(&c) {
                        Some(1) => return true,
                        Some(_) => {}
                        None => stack.push((c, None)),
                    },
                    None => {
                        state.insert(*node, 2);
                        stack.pop();
                    }
                }
            }
        }
        false
    }

    /// Derivations of (sym,i,j); saturating. Only call when acyclic below.
    pub fn count(&mut self, key: (usize, usize, usize)) -> u64 {
        if let Some(c) = self.counts.get(&key) {
            return c.expect("no cycle below");
        }
        self.counts.insert(key, None);
        let (sym, i, j) = key;
        let mut total = 0u64;
        for a in self.f.of[sym].clone() {
            let syms = self.f.alts[a].1.clone();
            if self.exhausted() {
                break;
            }
            let alive = self.alive(&syms, i, j);
            let mut cur: BTreeMap<usize, u64> = BTreeMap::from([(i, 1)]);
            for (k, s) in syms.iter().enumerate() {
                let mut nx: BTreeMap<usize, u64> = BTreeMap::new();
                for (at, c) in cur {
                    for e in self.step(s, at) {
                        self.work.set(self.work.get() + 1);
                        if alive[k + 1].binary_search(&e).is_err() {
                            continue;
                        }
                        let w = match s {
                            Sym::N(m) => self.count((*m, at, e)),
                            _ => 1,
                        };
                        let slot = nx.entry(e).or_insert(0);
                        *slot = slot.saturating_add(c.saturating_mul(w));
                    }
                }
                cur = nx;
            }
            total = total.saturating_add(cur.get(&j).copied().unwrap_or(0));
        }
        self.counts.insert(key, Some(total));
        total
    }

    /// Symbols a top-down, left-to-right parser predicts: (sym, position).
    fn predicted(&self, start: usize) -> Vec<(usize, usize)> {
        let mut seen = HashSet::from([(start, 0usize)]);
        let mut work = vec![(start, 0usize)];
        let mut k = 0;
        while k < work.len() {
            let (sym, i) = work[k];
            k += 1;
            for a in &self.f.of[sym] {
                let mut cur = vec![i];
                for s in &self.f.alts[*a].1 {
                    let mut nx: Vec<usize> = vec![];
                    for at in &cur {
                        if let Sym::N(m) = s
                            && seen.insert((*m, *at))
                        {
                            work.push((*m, *at));
                        }
                        nx.extend(self.step(s, *at));
                    }
                    nx.sort_unstable();
                    nx.dedup();
                    cur = nx;
                }
            }
        }
        work
    }

    pub fn analyse(&mut self, start: usize) -> Analysis {
        let n = self.chart.n;
        let member = self.chart.has(start, 0, n);
        let predicted = self.predicted(start);
        let spans: Vec<(usize, usize, usize)> = predicted
            .iter()
            .flat_map(|(s, i)| {
                self.chart.ends[*s][*i]
                    .iter()
                    .map(move |e| (*s, *i, *e))
            })
            .collect();
        let cyclic = self.reach_cycle(&spans);
        let root_cyclic = member && self.reach_cycle(&[(start, 0, n)]);
        let mut out = Analysis {
            member,
            cyclic,
            root_cyclic,
            trees: 0,
            items: u64::MAX,
        };
        if !root_cyclic && member {
            out.trees = self.count((start, 0, n));
        }
        if !cyclic {
            let mut items = 0u64;
            for (s, i) in &predicted {
                for a in self.f.of[*s].clone() {
                    let syms = self.f.alts[a].1.clone();
                    items = items.saturating_add(1);
                    let mut cur: BTreeMap<usize, u64> = BTreeMap::from([(*i, 1)]);
                    for sy in &syms {
                        let mut nx: BTreeMap<usize, u64> = BTreeMap::new();
                        for (at, c) in cur {
                            for e in self.step(sy, at) {
                                let w = match sy {
                                    Sym::N(m) => self.count((*m, at, e)),
                                    _ => 1,
                                };
                                let slot = nx.entry(e).or_insert(0);
                                *slot = slot.saturating_add(c.saturating_mul(w));
                            }
                        }
                        for c in nx.values() {
                            items = items.saturating_add(*c);
                        }
                        cur = nx;
                    }
                }
            }
            out.items = items;
        }
        if self.exhausted() {
            // too much to say anything but whether the input is derivable
            out = Analysis { member, cyclic: true, root_cyclic: false, trees: 0, items: u64::MAX };
        }
        out
    }

    /// All derivation trees of (sym,i,j), equal alternatives counted separately. With
    /// `path`, derivations that repeat a span on a root-to-leaf path are left out (so the result
    /// is finite for cyclic grammars too). `budget` bounds the number of trees built; None if exceeded.
    pub fn enumerate(
        &self,
        key: (usize, usize, usize),
        path: &mut Vec<(usize, usize, usize)>,
        budget: &mut u64,
    ) -> Option<Vec<Tree>> {
        let (sym, i, j) = key;
        if path.contains(&key) {
            return Some(vec![]);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        path.push(key);
        let mut out = vec![];
        for a in &self.f.of[sym] {
            let syms = &self.f.alts[*a].1;
            let alive = self.alive(syms, i, j);
            let mut cur: Vec<(usize, Vec<Node>)> = vec![(i, vec![])];
            for (k, s) in syms.iter().enumerate() {
                let mut nx = vec![];
                for (at, kids) in cur {
                    for e in self.step(s, at) {
                        if alive[k + 1].binary_search(&e).is_err() {
                            continue;
                        }
                        let choices: Vec<Node> = match s {
                            Sym::T(t) => vec![Node::Leaf(t.clone())],
                            Sym::N(m) => match self.enumerate((*m, at, e), path, budget) {
                                Some(v) => v.into_iter().map(Node::Sub).collect(),
                                None => {
                                    path.pop();
                                    return None;
                                }
                            },
                            Sym::U => vec![],
                        };
                        for c in choices {
                            if *budget == 0 {
                                path.pop();
                                return None;
                            }
                            *budget -= 1;
                            let mut kk = kids.clone();
                            kk.push(c);
                            nx.push((e, kk));
                        }
                    }
                }
                cur = nx;
            }
            for (e, kids) in cur {
                if e == j {
                    out.push(Tree {
                        lhs: self.f.heads[sym].clone(),
                        kids,
                    });
                }
            }
        }
        path.pop();
        Some(out)
    }
}

/// Can some nonterminal derive itself alone (A =>+ A)?
pub fn grammar_cyclic(f: &Flat) -> bool {
    let m = f.heads.len();
    let mut nullable = vec![false; m];
    loop {
        let mut ch = false;
        for (h, syms) in &f.alts {
            if !nullable[*h]
                && syms.iter().all(|s| match s {
                    Sym::T(t) => t.is_empty(),
                    Sym::N(k) => nullable[*k],
                    Sym::U => false,
                })
            {
                nullable[*h] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut edge = vec![vec![false; m]; m];
    for (h, syms) in &f.alts {
        for (k, s) in syms.iter().enumerate() {
            if let Sym::N(x) = s {
                let rest_null = syms.iter().enumerate().all(|(q, s2)| {
                    q == k
                        || match s2 {
                            Sym::T(t) => t.is_empty(),
                            Sym::N(y) => nullable[*y],
                            Sym::U => false,
                        }
                });
                if rest_null {
                    edge[*h][*x] = true;
                }
            }
        }
    }
    for k in 0..m {
        for a in 0..m {
            if edge[a][k] {
                for b in 0..m {
                    if edge[k][b] {
                        edge[a][b] = true;
                    }
                }
            }
        }
    }
    (0..m).any(|a| edge[a][a])
}

/// Reference breadth-first enumeration of derivations, fair also under infinite ambiguity.
/// Stops after `max_pops` items or when `on_tree` returns false; returns the items popped and
/// whether `on_tree` ended it. `order` selects one of `ORDERS` fair orders.
pub const ORDERS: usize = 8;
pub fn breadth_first(
    order: usize,
    f: &Flat,
    start: usize,
    input: &str,
    max_pops: usize,
    mut on_tree: impl FnMut(Tree) -> bool,
) -> (usize, bool) {
    struct It {
        alt: usize,
        dot: usize,
        origin: usize,
        pos: usize,
        prev: usize,
        child: usize,
        top: bool,
    }
    const NONE: usize = usize::MAX;
    fn build(f: &Flat, items: &[It], mut id: usize) -> Tree {
        let (h, syms) = &f.alts[items[id].alt];
        let mut kids = vec![];
        while items[id].dot > 0 {
            let d = items[id].dot - 1;
            kids.push(match &syms[d] {
                Sym::T(t) => Node::Leaf(t.clone()),
                _ => Node::Sub(build(f, items, items[id].child)),
            });
            id = items[id].prev;
        }
        kids.reverse();
        Tree {
            lhs: f.heads[*h].clone(),
            kids,
        }
    }
    let mut items: Vec<It> = vec![];
    let mut predicted: HashSet<(usize, usize)> = HashSet::new();
    let mut waiting: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    let mut complete: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
    let (apart, reversed, eager) = (order & 1 == 1, order & 2 == 2, order & 4 == 4);
    let alts_of = |m: usize| -> Vec<usize> {
        let mut v = f.of[m].clone();
        if reversed {
            v.reverse();
        }
        v
    };
    // starting items may be shared with predicted ones or stay apart
    if !apart {
        predicted.insert((start, 0));
    }
    for a in &alts_of(start) {
        items.push(It { alt: *a, dot: 0, origin: 0, pos: 0, prev: NONE, child: NONE, top: true });
    }
    let mut k = 0;
    while k < items.len() {
        if k >= max_pops {
            return (k, false);
        }
        let id = k;
        k += 1;
        let (alt, dot, origin, pos, top) = {
            let i = &items[id];
            (i.alt, i.dot, i.origin, i.pos, i.top)
        };
        let (h, syms) = &f.alts[alt];
        match syms.get(dot) {
            Some(Sym::U) => {}
            Some(Sym::T(t)) => {
                if input[pos..].starts_with(t.as_str()) {
                    items.push(It { alt, dot: dot + 1, origin, pos: pos + t.len(), prev: id, child: NONE, top });
                }
            }
            Some(Sym::N(m)) => {
                waiting.entry((*m, pos)).or_default().push(id);
                if eager {
                    for c in complete.get(&(*m, pos)).cloned().unwrap_or_default() {
                        let e = items[c].pos;
                        items.push(It { alt, dot: dot + 1, origin, pos: e, prev: id, child: c, top });
                    }
                }
                if predicted.insert((*m, pos)) {
                    for a in &alts_of(*m) {
                        items.push(It { alt: *a, dot: 0, origin: pos, pos, prev: NONE, child: NONE, top: false });
                    }
                }
                if !eager {
                    for c in complete.get(&(*m, pos)).cloned().unwrap_or_default() {
                        let e = items[c].pos;
                        items.push(It { alt, dot: dot + 1, origin, pos: e, prev: id, child: c, top });
                    }
                }
            }
            None => {
                if top && pos == input.len() && !on_tree(build(f, &items, id)) {
                    return (k, true);
                }
                if top && apart {
                    continue;
                }
                complete.entry((*h, origin)).or_default().push(id);
                for w in waiting.get(&(*h, origin)).cloned().unwrap_or_default() {
                    let (wa, wd, wo, wt) = {
                        let i = &items[w];
                        (i.alt, i.dot, i.origin, i.top)
                    };
                    items.push(It { alt: wa, dot: wd + 1, origin: wo, pos, prev: w, child: id, top: wt });
                }
            }
        }
    }
    (k, false)
}

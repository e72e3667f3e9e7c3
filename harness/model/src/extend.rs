//! Extended grammars (groups, optionals, incremental alternatives), their spelling in a notation
//! with arbitrary layout, and their meaning.
use crate::ast::*;
use crate::gener;
use crate::tape::Tape;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum XTerm {
    T(String),
    N(String),
    /// ( alternatives )
    G(Vec<Vec<XTerm>>),
    /// [ alternatives ]
    O(Vec<Vec<XTerm>>),
}
pub type XExpr = Vec<XTerm>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct XProd {
    pub lhs: String,
    pub alts: Vec<XExpr>,
    /// written with the alternative separator right after the production separator (`=/`)
    pub incr: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, Default)]
pub struct XGrammar {
    pub prods: Vec<XProd>,
}

#[derive(Clone, Copy, Debug)]
pub struct Notation {
    pub delim: Option<(char, char)>,
    pub sep: &'static str,
    pub alt: char,
}
pub const BNF: Notation = Notation {
    delim: Some(('<', '>')),
    sep: "::=",
    alt: '|',
};
pub const ABNF: Notation = Notation {
    delim: None,
    sep: "=",
    alt: '/',
};

impl XTerm {
    pub fn is_plain(&self) -> bool {
        matches!(self, XTerm::T(_) | XTerm::N(_))
    }
}
impl XGrammar {
    pub fn plain(g: &MGrammar) -> XGrammar {
        XGrammar {
            prods: g
                .prods
                .iter()
                .map(|p| XProd {
                    lhs: p.lhs.text().to_string(),
                    alts: p
                        .alts
                        .iter()
                        .map(|a| {
                            a.iter()
                                .map(|x| match x {
                                    MTerm::T(s) => XTerm::T(s.clone()),
                                    MTerm::N(s) => XTerm::N(s.clone()),
                                })
                                .collect()
                        })
                        .collect(),
                    incr: false,
                })
                .collect(),
        }
    }
    pub fn is_plain(&self) -> bool {
        self.prods
            .iter()
            .all(|p| p.alts.iter().flatten().all(XTerm::is_plain))
    }
    /// The plain grammar, if there are no groups.
    pub fn to_plain(&self) -> Option<MGrammar> {
        self.is_plain().then(|| {
            let names = self.names();
            lower(self, &names)
        })
    }
    /// Every nonterminal name defined or referred to.
    pub fn names(&self) -> Vec<String> {
        fn walk(a: &[XExpr], v: &mut Vec<String>) {
            for x in a.iter().flatten() {
                match x {
                    XTerm::T(_) => {}
                    XTerm::N(s) => v.push(s.clone()),
                    XTerm::G(i) | XTerm::O(i) => walk(i, v),
                }
            }
        }
        let mut v = vec![];
        for p in &self.prods {
            v.push(p.lhs.clone());
            walk(&p.alts, &mut v);
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn undefined_names(&self) -> Vec<String> {
        self.names()
            .into_iter()
            .filter(|n| !self.prods.iter().any(|p| p.lhs == *n))
            .collect()
    }
    pub fn groups(&self) -> usize {
        fn walk(a: &[XExpr]) -> usize {
            a.iter()
                .flatten()
                .map(|x| match x {
                    XTerm::T(_) | XTerm::N(_) => 0,
                    XTerm::G(i) | XTerm::O(i) => 1 + walk(i),
                })
                .sum()
        }
        self.prods.iter().map(|p| walk(&p.alts)).sum()
    }
    pub fn nesting(&self) -> usize {
        fn walk(a: &[XExpr]) -> usize {
            a.iter()
                .flatten()
                .map(|x| match x {
                    XTerm::T(_) | XTerm::N(_) => 0,
                    XTerm::G(i) | XTerm::O(i) => 1 + walk(i),
                })
                .max()
                .unwrap_or(0)
        }
        self.prods.iter().map(|p| walk(&p.alts)).max().unwrap_or(0)
    }
}

/// Our own lowering: one new nonterminal per group, named apart from `taken`.
pub fn lower(x: &XGrammar, taken: &[String]) -> MGrammar {
    struct L<'a> {
        taken: &'a [String],
        k: usize,
        extra: Vec<MProd>,
    }
    impl L<'_> {
        fn expr(&mut self, e: &XExpr) -> MExpr {
            e.iter()
                .map(|x| match x {
                    XTerm::T(s) => MTerm::T(s.clone()),
                    XTerm::N(s) => MTerm::N(s.clone()),
                    XTerm::G(a) => self.group(a, false),
                    XTerm::O(a) => self.group(a, true),
                })
                .collect()
        }
        fn group(&mut self, a: &[XExpr], opt: bool) -> MTerm {
            let name = loop {
                let s = format!("\u{1}group{}", self.k);
                self.k += 1;
                if !self.taken.contains(&s) {
                    break s;
                }
            };
            let mut alts: Vec<MExpr> = a.iter().map(|e| self.expr(e)).collect();
            if opt {
                alts.push(vec![MTerm::T(String::new())]);
            }
            self.extra.push(prod(&name, alts));
            MTerm::N(name)
        }
    }
    let mut l = L {
        taken,
        k: 0,
        extra: vec![],
    };
    let mut prods: Vec<MProd> = x
        .prods
        .iter()
        .map(|p| {
            let alts = p.alts.iter().map(|e| l.expr(e)).collect();
            prod(&p.lhs, alts)
        })
        .collect();
    prods.extend(l.extra);
    MGrammar { prods }
}

/// Is `m` a faithful lowering of `x`: the written productions in order first to last, groups
/// replaced by nonterminals with fresh names whose single production holds the group's
/// alternatives (plus an empty-text alternative for optionals)?
pub fn check_lowering(x: &XGrammar, m: &MGrammar) -> Result<(), String> {
    let used = x.names();
    let mut fresh: HashMap<&str, &MProd> = HashMap::new();
    let mut kept: Vec<&MProd> = vec![];
    for p in &m.prods {
        let MTerm::N(l) = &p.lhs else {
            return Err(format!("terminal left-hand side {:?}", p.lhs));
        };
        if used.contains(l) {
            kept.push(p);
        } else if fresh.insert(l, p).is_some() {
            return Err(format!("generated nonterminal <{l}> is defined twice"));
        }
    }
    if kept.len() != x.prods.len() {
        return Err(format!(
            "{} written productions, {} in the grammar read",
            x.prods.len(),
            kept.len()
        ));
    }
    if let (Some(f), Some(w)) = (m.prods.first(), x.prods.first())
        && f.lhs.text() != w.lhs
    {
        return Err(format!("start rule is <{}>, not <{}>", f.lhs.text(), w.lhs));
    }
    let mut hit: Vec<&str> = vec![];
    for (w, p) in x.prods.iter().zip(&kept) {
        if p.lhs.text() != w.lhs {
            return Err(format!("production <{}> read as <{}>", w.lhs, p.lhs.text()));
        }
        alts_match(&w.alts, &p.alts, &fresh, &mut hit)
            .map_err(|e| format!("in production <{}>: {e}", w.lhs))?;
    }
    for f in fresh.keys() {
        if !hit.contains(f) {
            return Err(format!("<{f}> was added without being used for a group"));
        }
    }
    Ok(())
}

fn alts_match<'a>(
    w: &[XExpr],
    p: &'a [MExpr],
    fresh: &HashMap<&'a str, &'a MProd>,
    hit: &mut Vec<&'a str>,
) -> Result<(), String> {
    if w.len() != p.len() {
        return Err(format!("{} alternatives written, {} read", w.len(), p.len()));
    }
    for (a, b) in w.iter().zip(p) {
        if a.len() != b.len() {
            return Err(format!("alternative {a:?} read as {b:?}"));
        }
        for (s, r) in a.iter().zip(b) {
            match (s, r) {
                (XTerm::T(x), MTerm::T(y)) | (XTerm::N(x), MTerm::N(y)) if x == y => {}
                (XTerm::G(inner), MTerm::N(y)) => {
                    let (k, q) = fresh
                        .get_key_value(y.as_str())
                        .ok_or_else(|| format!("group read as <{y}>, a name of the text or undefined"))?;
                    hit.push(k);
                    alts_match(inner, &q.alts, fresh, hit)?;
                }
                (XTerm::O(inner), MTerm::N(y)) => {
                    let (k, q) = fresh
                        .get_key_value(y.as_str())
                        .ok_or_else(|| format!("optional read as <{y}>, a name of the text or undefined"))?;
                    hit.push(k);
                    let Some(pos) = q
                        .alts
                        .iter()
                        .rposition(|a| a.iter().all(|t| matches!(t, MTerm::T(s) if s.is_empty())))
                    else {
                        return Err(format!("optional <{y}> has no empty alternative"));
                    };
                    if pos + 1 == q.alts.len() {
                        alts_match(inner, &q.alts[..pos], fresh, hit)?;
                    } else {
                        return Err(format!("optional <{y}>: empty alternative is not the added one"));
                    }
                }
                _ => return Err(format!("{s:?} read as {r:?}")),
            }
        }
    }
    Ok(())
}

// ----- generation -----

pub struct XOpts {
    pub max_nts: usize,
    pub max_depth: usize,
    pub abnf_names: bool,
    pub odd: bool,
    pub incr: bool,
    pub group_pct: u64,
}

fn xexpr(t: &mut Tape, names: &[String], alpha: &[String], o: &XOpts, depth: usize) -> XExpr {
    t.list(1, 4, 1, |t, _| xterm(t, names, alpha, o, depth))
}
fn xterm(t: &mut Tape, names: &[String], alpha: &[String], o: &XOpts, depth: usize) -> XTerm {
    if depth < o.max_depth && t.chance(o.group_pct, 100) {
        let opt = t.chance(1, 2);
        let most = if t.chance(1, 6) { 9 } else { 3 };
        let alts = t.list(1, most, if most > 3 { 5 } else { 1 }, |t, _| xexpr(t, names, alpha, o, depth + 1));
        let mut x = if opt { XTerm::O(alts) } else { XTerm::G(alts) };
        // brackets directly around brackets
        while t.chance(1, 10) {
            x = if t.chance(1, 2) { XTerm::O(vec![vec![x]]) } else { XTerm::G(vec![vec![x]]) };
        }
        x
    } else if t.chance(2, 5) {
        XTerm::N(t.pick(names).clone())
    } else {
        XTerm::T(t.pick(alpha).clone())
    }
}

pub fn xgrammar(t: &mut Tape, o: &XOpts) -> XGrammar {
    let k = t.range(1, o.max_nts);
    let nm = if o.abnf_names {
        gener::names(t, k, gener::abnf_name)
    } else if o.odd {
        gener::names(t, k, gener::bnf_name)
    } else if t.chance(1, 3) {
        // names resembling generated ones
        gener::names(t, k, |t| format!("__anon{}", t.below(5)))
    } else {
        gener::PLAIN[..k].iter().map(|s| (*s).to_string()).collect()
    };
    let alpha = gener::alphabet(t, o.odd);
    let alpha: Vec<String> = alpha
        .into_iter()
        .filter(|s| !(s.contains('\'') && s.contains('"')))
        .collect();
    let mut refs = nm.clone();
    if t.chance(1, 6) {
        refs.push(if o.abnf_names { "undef".into() } else { format!("__anon{}", t.below(4)) });
    }
    let mut prods: Vec<XProd> = nm
        .iter()
        .map(|name| XProd {
            lhs: name.clone(),
            alts: t.list(1, 4, 1, |t, _| xexpr(t, &refs, &alpha, o, 0)),
            incr: false,
        })
        .collect();
    if o.incr && t.chance(1, 2) {
        for _ in 0..t.range(1, 2) {
            let i = t.below(nm.len());
            let at = t.range(1, prods.len());
            let alts = t.list(1, 3, 1, |t, _| xexpr(t, &refs, &alpha, o, 0));
            prods.insert(
                at,
                XProd {
                    lhs: nm[i].clone(),
                    alts,
                    incr: t.chance(2, 3),
                },
            );
        }
        if t.chance(1, 6) {
            prods[0].incr = true;
        }
    }
    XGrammar { prods }
}

/// Deeply nested groups: one chain of `depth` brackets.
pub fn deep_group(t: &mut Tape, depth: usize) -> XGrammar {
    let mut cur = vec![XTerm::T("a".into())];
    for i in 0..depth {
        let mut alts = vec![cur];
        if t.chance(1, 8) {
            alts.push(vec![XTerm::T(format!("{}", i % 10))]);
        }
        let inner = if t.chance(1, 2) { XTerm::O(alts) } else { XTerm::G(alts) };
        cur = vec![inner];
        if t.chance(1, 8) {
            cur.push(XTerm::T("b".into()));
        }
    }
    XGrammar {
        prods: vec![XProd {
            lhs: "s".into(),
            alts: vec![cur],
            incr: false,
        }],
    }
}

// ----- spelling -----

const SPACES: [&str; 12] = [
    " ", "\n", "\t", "  ", "\r\n", "\n\n", "\u{a0}", "\u{3000}", "\u{2003}", "\u{85}", "\u{b}", "\u{2028}",
];

fn comment_body(t: &mut Tape) -> String {
    let s = match t.weighted(&[4, 3, 1]) {
        0 => (*t.pick(&[" c", "", " don't", " say \"hi", " <x> ::= 'y'", " ( [", " | /", ";;;", " = 'q", " 日本"])).to_string(),
        1 => gener::odd_string(t, 10, 3, &['\n', '\r']),
        _ => "x".repeat(*t.pick(&[100usize, 300])),
    };
    s.chars().filter(|c| *c != '\n' && *c != '\r').collect()
}

/// Whitespace and comments; `need` = must start with whitespace.
pub fn gap(t: &mut Tape, tame: bool, need: bool) -> String {
    if tame {
        return " ".into();
    }
    let mut s = String::new();
    if need {
        s.push_str(t.pick(&SPACES));
    }
    match t.weighted(&[10, 3, 2, 1]) {
        0 => {
            if !need && t.chance(2, 3) {
                s.push(' ');
            }
        }
        1 => {
            let more = t.list(1, 4, 1, |t, _| *t.pick(&SPACES));
            s.push_str(&more.concat());
        }
        2 => {
            let k = if t.chance(1, 60) { t.range(3, 80) } else { t.range(1, 2) };
            for _ in 0..k {
                s.push(';');
                s.push_str(&comment_body(t));
                s.push_str(t.pick(&["\n", "\r", "\r\n", "\n "]));
            }
        }
        _ => {}
    }
    s
}

pub struct Spell<'a> {
    pub not: Notation,
    pub t: &'a mut Tape,
    pub tame: bool,
    pub out: String,
    /// the last token must be followed by whitespace (bare names)
    need: bool,
}

impl<'a> Spell<'a> {
    pub fn new(not: Notation, t: &'a mut Tape, tame: bool) -> Self {
        Spell {
            not,
            t,
            tame,
            out: String::new(),
            need: false,
        }
    }
    fn gap(&mut self) {
        let g = gap(self.t, self.tame, self.need);
        self.out.push_str(&g);
        self.need = false;
    }
    fn tok(&mut self, s: &str) {
        self.out.push_str(s);
    }
    fn name(&mut self, s: &str) {
        match self.not.delim {
            Some((a, b)) => {
                self.out.push(a);
                self.out.push_str(s);
                self.out.push(b);
            }
            None => {
                self.out.push_str(s);
                self.need = true;
            }
        }
    }
    fn terminal(&mut self, s: &str) {
        let q = if s.contains('\'') {
            '"'
        } else if s.contains('"') {
            '\''
        } else if self.tame || self.t.chance(1, 2) {
            '\''
        } else {
            '"'
        };
        self.out.push(q);
        self.out.push_str(s);
        self.out.push(q);
    }
    pub fn term(&mut self, x: &XTerm) {
        match x {
            XTerm::T(s) => self.terminal(s),
            XTerm::N(s) => self.name(s),
            XTerm::G(a) => {
                self.tok("(");
                self.bracket(a, ")");
            }
            XTerm::O(a) => {
                self.tok("[");
                self.bracket(a, "]");
            }
        }
    }
    fn bracket(&mut self, a: &[XExpr], close: &str) {
        if !self.tame && self.t.chance(1, 3) {
            self.gap();
        }
        self.alts(a);
        // a bare name ends at a closing bracket
        if !self.tame && self.t.chance(1, 2) {
            self.gap();
        }
        self.need = false;
        self.tok(close);
    }
    pub fn expr(&mut self, e: &XExpr) {
        for (i, x) in e.iter().enumerate() {
            if i > 0 {
                self.gap();
            }
            self.term(x);
        }
    }
    pub fn alts(&mut self, a: &[XExpr]) {
        for (i, e) in a.iter().enumerate() {
            if i > 0 {
                self.gap();
                let c = self.not.alt;
                self.out.push(c);
                self.gap();
            }
            self.expr(e);
        }
    }
    pub fn production(&mut self, p: &XProd) {
        self.name(&p.lhs);
        self.gap();
        let sep = self.not.sep;
        self.tok(sep);
        if p.incr {
            let c = self.not.alt;
            self.out.push(c);
        }
        self.gap();
        self.alts(&p.alts);
    }
    pub fn grammar(&mut self, g: &XGrammar) {
        if !self.tame && self.t.chance(1, 3) {
            self.gap();
        }
        for (i, p) in g.prods.iter().enumerate() {
            if i > 0 {
                if self.tame {
                    self.need = false;
                    self.tok("\n");
                } else if self.t.chance(3, 4) {
                    self.need = false;
                    self.tok("\n");
                    if self.t.chance(1, 3) {
                        self.gap();
                    }
                } else {
                    self.gap();
                }
            }
            self.production(p);
        }
        if !self.tame && self.t.chance(1, 3) {
            self.gap();
            if self.t.chance(1, 3) {
                // a comment ended by the end of the text
                self.tok(" ;");
                let b = comment_body(self.t);
                self.tok(&b);
            }
        }
    }
}

pub fn spell(t: &mut Tape, not: Notation, g: &XGrammar, tame: bool) -> String {
    let mut s = Spell::new(not, t, tame);
    s.grammar(g);
    s.out
}

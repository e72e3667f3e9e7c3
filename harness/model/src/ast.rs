//! Plain grammar model.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum MTerm {
    T(String),
    N(String),
}
pub type MExpr = Vec<MTerm>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct MProd {
    pub lhs: MTerm,
    pub alts: Vec<MExpr>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize, Default)]
pub struct MGrammar {
    pub prods: Vec<MProd>,
}

pub fn t(s: &str) -> MTerm {
    MTerm::T(s.to_string())
}
pub fn n(s: &str) -> MTerm {
    MTerm::N(s.to_string())
}
pub fn prod(lhs: &str, alts: Vec<MExpr>) -> MProd {
    MProd { lhs: n(lhs), alts }
}

impl MTerm {
    pub fn text(&self) -> &str {
        match self {
            MTerm::T(s) | MTerm::N(s) => s,
        }
    }
    /// Text the library documents for a term: `<name>`, or a quoted terminal.
    pub fn render(&self) -> String {
        match self {
            MTerm::N(s) => format!("<{s}>"),
            MTerm::T(s) if s.contains('\'') => format!("\"{s}\""),
            MTerm::T(s) => format!("'{s}'"),
        }
    }
}

/// Plain one-production-per-line BNF spelling (for reports; also valid BNF where representable).
pub fn bnf_text(g: &MGrammar) -> String {
    let mut out = String::new();
    for p in &g.prods {
        let alts: Vec<String> = p
            .alts
            .iter()
            .map(|a| a.iter().map(MTerm::render).collect::<Vec<_>>().join(" "))
            .collect();
        out.push_str(&format!("{} ::= {}\n", p.lhs.render(), alts.join(" | ")));
    }
    out
}

impl MGrammar {
    pub fn nonterminals(&self) -> Vec<&str> {
        let mut v: Vec<&str> = vec![];
        for p in &self.prods {
            if let MTerm::N(s) = &p.lhs
                && !v.contains(&s.as_str())
            {
                v.push(s);
            }
        }
        v
    }
    pub fn terms(&self) -> impl Iterator<Item = &MTerm> {
        self.prods.iter().flat_map(|p| p.alts.iter().flatten())
    }
    pub fn undefined(&self) -> Vec<&str> {
        let def = self.nonterminals();
        let mut v: Vec<&str> = vec![];
        for t in self.terms() {
            if let MTerm::N(s) = t
                && !def.contains(&s.as_str())
                && !v.contains(&s.as_str())
            {
                v.push(s);
            }
        }
        v
    }
}

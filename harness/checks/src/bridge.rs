//! Conversions between the model and the library's values (public API only).
use bnf::{Expression, Grammar, ParseTree, ParseTreeNode, Production, Term};
use model::ast::*;
use model::tree::{Node, Tree};

pub fn term(t: &MTerm) -> Term {
    match t {
        MTerm::T(s) => Term::Terminal(s.clone()),
        MTerm::N(s) => Term::Nonterminal(s.clone()),
    }
}
pub fn expr(e: &[MTerm]) -> Expression {
    Expression::from_parts(e.iter().map(term).collect())
}
pub fn production(p: &MProd) -> Production {
    Production::from_parts(term(&p.lhs), p.alts.iter().map(|a| expr(a)).collect())
}
pub fn grammar(g: &MGrammar) -> Grammar {
    Grammar::from_parts(g.prods.iter().map(production).collect())
}
pub fn un_term(t: &Term) -> MTerm {
    match t {
        Term::Terminal(s) => MTerm::T(s.clone()),
        Term::Nonterminal(s) => MTerm::N(s.clone()),
    }
}
pub fn un_expr(e: &Expression) -> MExpr {
    e.terms_iter().map(un_term).collect()
}
pub fn un_production(p: &Production) -> MProd {
    MProd {
        lhs: un_term(&p.lhs),
        alts: p.rhs_iter().map(un_expr).collect(),
    }
}
pub fn un_grammar(g: &Grammar) -> MGrammar {
    MGrammar {
        prods: g.productions_iter().map(un_production).collect(),
    }
}
pub fn un_tree(t: &ParseTree) -> Tree {
    Tree {
        lhs: un_term(t.lhs),
        kids: t
            .rhs_iter()
            .map(|k| match k {
                ParseTreeNode::Terminal(s) => Node::Leaf((*s).to_string()),
                ParseTreeNode::Nonterminal(s) => Node::Sub(un_tree(s)),
            })
            .collect(),
    }
}

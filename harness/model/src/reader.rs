//! Reference reader for grammar text: plain recursive descent over the documented notation.
use crate::ast::MTerm;
use crate::extend::{Notation, XExpr, XGrammar, XProd, XTerm};

pub struct Reader<'a> {
    text: &'a str,
    pos: usize,
    not: Notation,
    /// groups and optionals allowed
    groups: bool,
}

impl<'a> Reader<'a> {
    pub fn new(text: &'a str, not: Notation, groups: bool) -> Self {
        Reader {
            text,
            pos: 0,
            not,
            groups,
        }
    }
    fn rest(&self) -> &'a str {
        &self.text[self.pos..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn skip(&mut self) {
        loop {
            match self.peek() {
                Some(c) if c.is_whitespace() => self.pos += c.len_utf8(),
                Some(';') => {
                    while let Some(c) = self.peek() {
                        if c == '\n' || c == '\r' {
                            break;
                        }
                        self.pos += c.len_utf8();
                    }
                }
                _ => return,
            }
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.rest().starts_with(s) {
            self.pos += s.len();
            true
        } else {
            false
        }
    }
    fn eat_char(&mut self, c: char) -> bool {
        if self.peek() == Some(c) {
            self.pos += c.len_utf8();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> Option<String> {
        let start;
        let end;
        match self.not.delim {
            Some((a, b)) => {
                if !self.eat_char(a) {
                    return None;
                }
                start = self.pos;
                while self.peek()? != b {
                    self.pos += self.peek()?.len_utf8();
                }
                end = self.pos;
                self.pos += b.len_utf8();
            }
            None => {
                if !self.peek()?.is_alphabetic() {
                    return None;
                }
                start = self.pos;
                while let Some(c) = self.peek() {
                    if c.is_whitespace() || c == ')' || c == ']' {
                        break;
                    }
                    self.pos += c.len_utf8();
                }
                end = self.pos;
            }
        }
        let s = self.text[start..end].to_string();
        self.skip();
        Some(s)
    }
    fn term(&mut self) -> Option<XTerm> {
        let c = self.peek()?;
        let save = self.pos;
        if c == '"' || c == '\'' {
            self.pos += 1;
            let len = self.rest().find(c)?;
            let s = self.rest()[..len].to_string();
            self.pos += len + 1;
            self.skip();
            return Some(XTerm::T(s));
        }
        if let Some(n) = self.name() {
            return Some(XTerm::N(n));
        }
        self.pos = save;
        if self.groups && (c == '(' || c == '[') {
            self.pos += 1;
            self.skip();
            let alts = self.alts()?;
            if !self.eat(if c == '(' { ")" } else { "]" }) {
                return None;
            }
            self.skip();
            return Some(if c == '(' { XTerm::G(alts) } else { XTerm::O(alts) });
        }
        None
    }
    /// One or more terms; a term followed by the production separator belongs to the next rule.
    pub fn expr(&mut self) -> Option<XExpr> {
        let mut out = vec![];
        loop {
            let save = self.pos;
            match self.term() {
                Some(x) if !self.rest().starts_with(self.not.sep) => out.push(x),
                _ => {
                    self.pos = save;
                    break;
                }
            }
        }
        if out.is_empty() { None } else { Some(out) }
    }
    fn alts(&mut self) -> Option<Vec<XExpr>> {
        let mut out = vec![self.expr()?];
        while self.eat_char(self.not.alt) {
            self.skip();
            out.push(self.expr()?);
        }
        Some(out)
    }
    fn head(&mut self) -> Option<(String, bool)> {
        let n = self.name()?;
        if !self.eat(self.not.sep) {
            return None;
        }
        let incr = self.eat_char(self.not.alt);
        self.skip();
        Some((n, incr))
    }
    pub fn production(&mut self) -> Option<XProd> {
        let (lhs, incr) = self.head()?;
        let alts = self.alts()?;
        Some(XProd { lhs, alts, incr })
    }
    pub fn done(&self) -> bool {
        self.pos == self.text.len()
    }
    pub fn grammar(mut self) -> Option<XGrammar> {
        let mut prods = vec![];
        self.skip();
        loop {
            prods.push(self.production()?);
            self.skip();
            if self.done() {
                return Some(XGrammar { prods });
            }
        }
    }
    pub fn whole_production(mut self) -> Option<XProd> {
        let p = self.production()?;
        self.done().then_some(p)
    }
    pub fn whole_expr(mut self) -> Option<XExpr> {
        let e = self.expr()?;
        self.done().then_some(e)
    }
    pub fn whole_term(mut self) -> Option<MTerm> {
        let t = self.term()?;
        if !self.done() {
            return None;
        }
        match t {
            XTerm::T(s) => Some(MTerm::T(s)),
            XTerm::N(s) => Some(MTerm::N(s)),
            _ => None,
        }
    }
}

/// The first significant character decides: `<` means BNF.
pub fn looks_bnf(text: &str) -> bool {
    let mut r = Reader::new(text, crate::extend::BNF, true);
    r.skip();
    r.peek() == Some('<')
}

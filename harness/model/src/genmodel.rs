//! Reference model of sentence generation: expansion of the first production of each nonterminal,
//! driven by an explicit chooser, with callback verdicts.
use crate::ast::{MGrammar, MProd, MTerm};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    /// strategy asked about production (index) at depth
    Ask(usize, usize),
    /// callback asked about (name, text)
    Tell(String, String),
}

pub struct Facts {
    /// first production of each nonterminal
    pub first: HashMap<String, usize>,
    /// nonterminals that derive terminal text, using all productions
    pub productive: HashSet<String>,
    /// defined nonterminals whose first production can never be expanded to the end
    pub endless: HashSet<String>,
    /// nonterminals reachable from the start over first productions
    pub reachable: Vec<String>,
}

pub fn no_choice(p: &MProd) -> bool {
    p.alts.is_empty() || (p.alts.len() == 1 && p.alts[0].is_empty())
}

pub fn facts(g: &MGrammar) -> Facts {
    let mut first = HashMap::new();
    for (i, p) in g.prods.iter().enumerate() {
        if let MTerm::N(l) = &p.lhs {
            first.entry(l.clone()).or_insert(i);
        }
    }
    let productive: HashSet<String> = crate::gener::productive(g).into_iter().collect();
    let mut finishing: HashSet<String> = HashSet::new();
    loop {
        let mut ch = false;
        for (l, i) in &first {
            if finishing.contains(l) {
                continue;
            }
            let p = &g.prods[*i];
            let ok = no_choice(p)
                || p.alts.iter().any(|a| {
                    a.iter().all(|x| match x {
                        MTerm::T(_) => true,
                        MTerm::N(m) => !first.contains_key(m) || finishing.contains(m),
                    })
                });
            if ok {
                finishing.insert(l.clone());
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let endless = first
        .keys()
        .filter(|l| !finishing.contains(*l))
        .cloned()
        .collect();
    let mut reachable: Vec<String> = vec![];
    if let Some(MProd { lhs: MTerm::N(s), .. }) = g.prods.first() {
        reachable.push(s.clone());
        let mut k = 0;
        while k < reachable.len() {
            if let Some(i) = first.get(&reachable[k]) {
                for x in g.prods[*i].alts.iter().flatten() {
                    if let MTerm::N(m) = x
                        && !reachable.contains(m)
                    {
                        reachable.push(m.clone());
                    }
                }
            }
            k += 1;
        }
    }
    Facts {
        first,
        productive,
        endless,
        reachable,
    }
}

pub struct Run<'a> {
    pub g: &'a MGrammar,
    pub facts: &'a Facts,
    pub log: Vec<Step>,
    pub max_steps: usize,
}

impl Run<'_> {
    /// Ok(text), or Err(()) for a generation error.
    pub fn start(
        &mut self,
        choose: &mut dyn FnMut(usize, usize) -> Option<usize>,
        verdict: &mut dyn FnMut(&str, &str) -> bool,
    ) -> Result<String, ()> {
        let Some(p) = self.g.prods.first() else {
            return Err(());
        };
        let MTerm::N(s) = &p.lhs else {
            return Err(());
        };
        if !self.facts.productive.contains(s) {
            return Err(());
        }
        self.expand(s, 0, choose, verdict)
    }
    fn expand(
        &mut self,
        name: &str,
        depth: usize,
        choose: &mut dyn FnMut(usize, usize) -> Option<usize>,
        verdict: &mut dyn FnMut(&str, &str) -> bool,
    ) -> Result<String, ()> {
        let Some(&i) = self.facts.first.get(name) else {
            return Ok(format!("<{name}>"));
        };
        let p = &self.g.prods[i];
        loop {
            if no_choice(p) || self.facts.endless.contains(name) {
                return Err(());
            }
            self.log.push(Step::Ask(i, depth));
            assert!(self.log.len() <= self.max_steps, "model ran away");
            let a = choose(i, depth).ok_or(())?;
            let mut out = String::new();
            for x in &p.alts[a] {
                match x {
                    MTerm::T(s) => out.push_str(s),
                    MTerm::N(m) => out.push_str(&self.expand(m, depth + 1, choose, verdict)?),
                }
            }
            self.log.push(Step::Tell(name.to_string(), out.clone()));
            if verdict(name, &out) {
                return Ok(out);
            }
        }
    }
}

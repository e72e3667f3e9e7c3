//! Parse-tree model: validity, yield, canonical form, reference renderings.
use crate::ast::{MGrammar, MTerm};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Node {
    Leaf(String),
    Sub(Tree),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Tree {
    pub lhs: MTerm,
    pub kids: Vec<Node>,
}

impl Tree {
    pub fn yield_into(&self, out: &mut String) {
        for k in &self.kids {
            match k {
                Node::Leaf(s) => out.push_str(s),
                Node::Sub(t) => t.yield_into(out),
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.yield_into(&mut s);
        s
    }
    pub fn size(&self) -> usize {
        1 + self
            .kids
            .iter()
            .map(|k| match k {
                Node::Leaf(_) => 1,
                Node::Sub(t) => t.size(),
            })
            .sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self
            .kids
            .iter()
            .map(|k| match k {
                Node::Leaf(_) => 1,
                Node::Sub(t) => t.depth(),
            })
            .max()
            .unwrap_or(0)
    }
    pub fn digest(&self) -> u64 {
        crate::hash_of(self)
    }
    /// Unambiguous short form.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        s.push('(');
        s.push_str(&format!("{:?}", self.lhs));
        for k in &self.kids {
            s.push(' ');
            match k {
                Node::Leaf(l) => s.push_str(&format!("{l:?}")),
                Node::Sub(t) => t.canon_into(s),
            }
        }
        s.push(')');
    }

    /// Is this a derivation of `input` from `start` in `g`?
    pub fn check(&self, g: &MGrammar, start: &MTerm, input: &str) -> Result<(), String> {
        if &self.lhs != start {
            return Err(format!("tree is rooted at {:?}, not at {start:?}", self.lhs));
        }
        self.check_node(g)?;
        let y = self.text();
        if y != input {
            return Err(format!("tree spells {y:?}, not the input {input:?}"));
        }
        Ok(())
    }
    fn check_node(&self, g: &MGrammar) -> Result<(), String> {
        let fits = g
            .prods
            .iter()
            .filter(|p| p.lhs == self.lhs)
            .flat_map(|p| &p.alts)
            .any(|alt| {
                alt.len() == self.kids.len()
                    && alt.iter().zip(&self.kids).all(|(t, k)| match (t, k) {
                        (MTerm::T(a), Node::Leaf(b)) => a == b,
                        (MTerm::N(_), Node::Sub(s)) => &s.lhs == t,
                        _ => false,
                    })
            });
        if !fits {
            return Err(format!(
                "node {} with children {:?} matches no alternative of its left-hand side",
                self.lhs.render(),
                self.kids
                    .iter()
                    .map(|k| match k {
                        Node::Leaf(l) => format!("{l:?}"),
                        Node::Sub(t) => t.lhs.render(),
                    })
                    .collect::<Vec<_>>()
            ));
        }
        for k in &self.kids {
            if let Node::Sub(t) = k {
                t.check_node(g)?;
            }
        }
        Ok(())
    }

    /// Reference rendering of the documented tree drawing.
    pub fn draw(&self) -> String {
        let mut out = String::new();
        self.draw_into("", "", &mut out);
        out
    }
    fn draw_into(&self, own: &str, below: &str, out: &mut String) {
        out.push_str(own);
        out.push_str(&self.lhs.render());
        out.push_str(" ::=");
        for k in &self.kids {
            out.push(' ');
            match k {
                Node::Leaf(l) => {
                    out.push('"');
                    out.push_str(l);
                    out.push('"');
                }
                Node::Sub(t) => out.push_str(&t.lhs.render()),
            }
        }
        out.push('\n');
        for (i, k) in self.kids.iter().enumerate() {
            let last = i + 1 == self.kids.len();
            let head = format!("{below}{}", if last { "└── " } else { "├── " });
            let tail = format!("{below}{}", if last { "    " } else { "│   " });
            match k {
                Node::Leaf(l) => {
                    out.push_str(&head);
                    out.push('"');
                    out.push_str(l);
                    out.push_str("\"\n");
                }
                Node::Sub(t) => t.draw_into(&head, &tail, out),
            }
        }
    }

    /// Preorder edges `(parent number, parent label, child number, child label)`.
    pub fn edges(&self) -> Vec<(usize, String, usize, String)> {
        let mut out = vec![];
        let mut next = 1usize;
        self.edges_into(0, &mut next, &mut out);
        out
    }
    fn edges_into(
        &self,
        me: usize,
        next: &mut usize,
        out: &mut Vec<(usize, String, usize, String)>,
    ) {
        for k in &self.kids {
            let id = *next;
            *next += 1;
            match k {
                Node::Leaf(l) => out.push((me, self.lhs.text().into(), id, l.clone())),
                Node::Sub(t) => {
                    out.push((me, self.lhs.text().into(), id, t.lhs.text().into()));
                    t.edges_into(id, next, out);
                }
            }
        }
    }
}

//! A reference reification of nested statements, and collections.

use crate::{St, T, rdf, st};
use std::collections::HashSet;

/// Reference reification; new blank nodes have labels no input can have.
pub struct Reifier {
    next: usize,
    pub out: Vec<St>,
}

impl Default for Reifier {
    fn default() -> Self {
        Self::new()
    }
}

impl Reifier {
    pub fn new() -> Self {
        Self { next: 0, out: vec![] }
    }
    fn fresh(&mut self) -> T {
        self.next += 1;
        T::B(format!("~{}", self.next))
    }
    /// A whole graph without nested terms.
    pub fn graph(sts: &[St]) -> Vec<St> {
        let mut r = Self::new();
        for s in sts {
            let (sub, obj) = (r.term(&s.s), r.term(&s.o));
            r.out.push(st(sub, &s.p, obj));
        }
        r.out
    }
    pub fn statement(&mut self, s: &St) -> T {
        let node = self.fresh();
        let (sub, obj) = (self.term(&s.s), self.term(&s.o));
        self.out.push(st(node.clone(), &rdf("type"), T::I(rdf("Statement"))));
        self.out.push(st(node.clone(), &rdf("subject"), sub));
        self.out.push(st(node.clone(), &rdf("predicate"), T::I(s.p.clone())));
        self.out.push(st(node.clone(), &rdf("object"), obj));
        node
    }
    pub fn collection(&mut self, c: &[T]) -> T {
        let mut rest = T::I(rdf("nil"));
        for item in c.iter().rev() {
            let cell = self.fresh();
            let item = self.term(item);
            self.out.push(st(cell.clone(), &rdf("type"), T::I(rdf("List"))));
            self.out.push(st(cell.clone(), &rdf("first"), item));
            self.out.push(st(cell.clone(), &rdf("rest"), rest));
            rest = cell;
        }
        rest
    }
    pub fn term(&mut self, t: &T) -> T {
        match t {
            T::S(s) => self.statement(s),
            T::C(c) => self.collection(c),
            t => t.clone(),
        }
    }
}

pub fn labels(sts: &[St]) -> HashSet<String> {
    let mut v = HashSet::new();
    for s in sts {
        T::S(Box::new(s.clone())).walk(&mut |t| {
            if let T::B(b) = t {
                v.insert(b.clone());
            }
        });
    }
    v
}


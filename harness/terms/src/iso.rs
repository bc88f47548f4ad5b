//! Isomorphism of graphs, data sets, and anything else written as a multiset of token vectors,
//! under renaming of the tokens marked as variables (blank nodes).

use crate::{Lit, St, T};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Tok {
    /// A variable.
    V(String),
    /// A constant.
    K(String),
}

pub type Edge = Vec<Tok>;

/// The tokens of a term; `var` chooses which of the blank nodes, and IRIs, are variables.
pub fn tokens(t: &T, var: &dyn Fn(&T) -> bool, out: &mut Edge) {
    match t {
        T::B(b) if var(t) => out.push(Tok::V(format!("b{b}"))),
        T::I(i) if var(t) => out.push(Tok::V(format!("i{i}"))),
        T::B(b) => out.push(Tok::K(format!("_:{b}"))),
        T::I(i) => out.push(Tok::K(format!("<{i}>"))),
        T::L(Lit::Plain(l)) => out.push(Tok::K(format!("plain {l:?}"))),
        T::L(Lit::Lang(l, g)) => out.push(Tok::K(format!("lang {l:?}@{g}"))),
        T::L(Lit::Typed(l, d)) => out.push(Tok::K(format!("typed {l:?}^^{d}"))),
        T::C(c) => {
            out.push(Tok::K(format!("( {}", c.len())));
            c.iter().for_each(|t| tokens(t, var, out));
        }
        T::S(s) => {
            out.push(Tok::K("<<".into()));
            edge_into(s, var, out);
        }
    }
}

fn edge_into(s: &St, var: &dyn Fn(&T) -> bool, out: &mut Edge) {
    tokens(&s.s, var, out);
    out.push(Tok::K(s.p.clone()));
    tokens(&s.o, var, out);
}

pub fn edge(s: &St, var: &dyn Fn(&T) -> bool) -> Edge {
    let mut out = vec![];
    edge_into(s, var, &mut out);
    out
}

pub fn edges(sts: &[St], var: &dyn Fn(&T) -> bool) -> Vec<Edge> {
    sts.iter().map(|s| edge(s, var)).collect()
}

/// Are two sets of statements the same but for the labels of their blank nodes?
pub fn same(a: &[St], b: &[St]) -> bool {
    let var = |t: &T| matches!(t, T::B(_));
    iso(&edges(a, &var), &edges(b, &var)).is_some()
}

type Colors = HashMap<String, u64>;

fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

fn vars(e: &[Edge]) -> BTreeSet<&String> {
    e.iter()
        .flatten()
        .filter_map(|t| match t {
            Tok::V(v) => Some(v),
            _ => None,
        })
        .collect()
}

fn refine(e: &[Edge], mut c: Colors) -> Colors {
    let n = c.len();
    let mut classes = 0;
    for _ in 0..=n {
        let mut around: HashMap<&String, Vec<(u64, u64)>> = HashMap::new();
        for edge in e {
            // The edge with colours for its variables, and which of those are the same variable.
            let mut seen: Vec<&String> = vec![];
            let shape: Vec<u64> = edge
                .iter()
                .map(|t| match t {
                    Tok::K(k) => hash(&(0, k)),
                    Tok::V(v) => {
                        let i = seen.iter().position(|s| *s == v).unwrap_or_else(|| {
                            seen.push(v);
                            seen.len() - 1
                        });
                        hash(&(1, c[v], i))
                    }
                })
                .collect();
            let shape = hash(&shape);
            for (i, v) in seen.into_iter().enumerate() {
                around.entry(v).or_default().push((shape, i as u64));
            }
        }
        let mut next = Colors::new();
        for (v, color) in &c {
            let mut a = around.remove(v).unwrap_or_default();
            a.sort();
            next.insert(v.clone(), hash(&(color, a)));
        }
        c = next;
        let k = c.values().collect::<BTreeSet<_>>().len();
        if k == classes {
            break;
        }
        classes = k;
    }
    c
}

fn spectrum(c: &Colors) -> Vec<u64> {
    let mut v: Vec<u64> = c.values().copied().collect();
    v.sort();
    v
}

/// A renaming of the variables of `a` that makes it `b`, if there is one.
pub fn iso(a: &[Edge], b: &[Edge]) -> Option<BTreeMap<String, String>> {
    if a.len() != b.len() {
        return None;
    }
    let start = |e: &[Edge]| vars(e).into_iter().map(|v| (v.clone(), 0)).collect::<Colors>();
    let mut fuel = 20_000;
    search(a, b, start(a), start(b), &mut fuel)
}

fn search(
    a: &[Edge],
    b: &[Edge],
    ca: Colors,
    cb: Colors,
    fuel: &mut u32,
) -> Option<BTreeMap<String, String>> {
    if *fuel == 0 {
        panic!("isomorphism search is too large for the harness");
    }
    *fuel -= 1;
    let (ca, cb) = (refine(a, ca), refine(b, cb));
    if spectrum(&ca) != spectrum(&cb) {
        return None;
    }
    let mut by_color: BTreeMap<u64, Vec<&String>> = BTreeMap::new();
    for (v, c) in &ca {
        by_color.entry(*c).or_default().push(v);
    }
    match by_color.iter().find(|(_, vs)| vs.len() > 1) {
        None => {
            let back: HashMap<u64, &String> = cb.iter().map(|(v, c)| (*c, v)).collect();
            let map: BTreeMap<String, String> =
                ca.iter().map(|(v, c)| (v.clone(), back[c].clone())).collect();
            let mut image: Vec<Edge> = a
                .iter()
                .map(|e| {
                    e.iter()
                        .map(|t| match t {
                            Tok::V(v) => Tok::V(map[v].clone()),
                            k => k.clone(),
                        })
                        .collect()
                })
                .collect();
            let mut b = b.to_vec();
            image.sort();
            b.sort();
            (image == b).then_some(map)
        }
        Some((color, vs)) => {
            let mut va: Vec<&&String> = vs.iter().collect();
            va.sort();
            let pick = (*va[0]).clone();
            let mut candidates: Vec<String> =
                cb.iter().filter(|(_, c)| *c == color).map(|(v, _)| v.clone()).collect();
            candidates.sort();
            for other in candidates {
                let (mut ca, mut cb) = (ca.clone(), cb.clone());
                ca.insert(pick.clone(), 1);
                cb.insert(other, 1);
                if let Some(m) = search(a, b, ca, cb, fuel) {
                    return Some(m);
                }
            }
            None
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    use crate::{i, st};
    fn b(s: &str) -> T {
        T::B(s.into())
    }
    #[test]
    fn cycles() {
        let six: Vec<St> = (0..6).map(|n| st(b(&format!("a{n}")), "p", b(&format!("a{}", (n + 1) % 6)))).collect();
        let mut shifted: Vec<St> = (0..6).map(|n| st(b(&format!("z{}", (n * 5) % 6)), "p", b(&format!("z{}", ((n + 1) * 5) % 6)))).collect();
        assert!(same(&six, &shifted));
        let two: Vec<St> = (0..6).map(|n| st(b(&format!("a{n}")), "p", b(&format!("a{}", n / 3 * 3 + (n + 1) % 3)))).collect();
        assert!(!same(&six, &two));
        shifted[0].o = i("x");
        assert!(!same(&six, &shifted));
    }
}

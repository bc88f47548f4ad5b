//! C01 – C04: the graph as a container, its queries, skolemization, and simplification.

use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::features::*;
use rdftk_core::model::graph::Graph;
use rdftk_core::model::statement::{ObjectNode, Statement};
use rdftk_iri::{Iri, IriPrefixMap, Namespace};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashSet};
use std::str::FromStr;
pub use terms::reify::{Reifier, labels};
use terms::iso::{self, Tok};
use terms::{Lit, St, T, gens, make_all, of_graph, set, sorted, st};

// ------------------------------------------------------------------------------------------------
// C01
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Default,
    Unique,
    Named(T),
    UniqueNamed(T),
    FromVec(Vec<St>),
    FromIter(Vec<St>),
    FromOne(St),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(St),
    Extend(Vec<St>),
    /// Merge a graph that drops duplicates, or one that does not, with a name and mappings of its own.
    Merge(Vec<St>, bool, Option<T>, Option<u8>),
    MergeSelf,
    Remove(St),
    /// Remove one of the statements present.
    RemoveNth(usize),
    RemoveAllFor(T),
    RemoveAllForNth(usize),
    Dedup,
    Clear,
    WithStatements(Vec<St>),
    SetName(T),
    UnsetName,
    SetMappings(u8),
    WithMappings(u8),
    /// Carry on with a clone; the original must not change any more.
    Fork,
}

fn any_st() -> BoxedStrategy<St> {
    prop_oneof![5 => gens::dense_statement(), 1 => gens::statement(2)].boxed()
}

fn any_subject() -> BoxedStrategy<T> {
    prop_oneof![3 => gens::dense_statement().prop_map(|s| s.s), 1 => gens::subject(1)].boxed()
}

fn history() -> BoxedStrategy<(Start, Vec<Op>)> {
    let sts = || vec(any_st(), 0..5);
    let start = prop_oneof![
        2 => Just(Start::Default),
        2 => Just(Start::Unique),
        1 => gens::node().prop_map(Start::Named),
        1 => gens::node().prop_map(Start::UniqueNamed),
        1 => sts().prop_map(Start::FromVec),
        1 => sts().prop_map(Start::FromIter),
        1 => any_st().prop_map(Start::FromOne),
    ];
    let op = prop_oneof![
        8 => any_st().prop_map(Op::Insert),
        3 => sts().prop_map(Op::Extend),
        2 => (sts(), any::<bool>(), option::of(gens::node()), option::of(any::<u8>())).prop_map(|(s, u, n, m)| Op::Merge(s, u, n, m)),
        1 => Just(Op::MergeSelf),
        2 => any_st().prop_map(Op::Remove),
        3 => any::<usize>().prop_map(Op::RemoveNth),
        1 => any_subject().prop_map(Op::RemoveAllFor),
        2 => any::<usize>().prop_map(Op::RemoveAllForNth),
        2 => Just(Op::Dedup),
        1 => prop_oneof![3 => Just(Op::Fork), 1 => Just(Op::Clear)],
        1 => sts().prop_map(Op::WithStatements),
        1 => gens::node().prop_map(Op::SetName),
        1 => Just(Op::UnsetName),
        1 => any::<u8>().prop_map(Op::SetMappings),
        1 => any::<u8>().prop_map(Op::WithMappings),
    ];
    (start, vec(op, 0..14)).boxed()
}

/// As `history`, of more operations, on more statements.
fn long_history() -> BoxedStrategy<(Start, Vec<Op>)> {
    let start = prop_oneof![
        1 => Just(Start::Default),
        1 => Just(Start::Unique),
        1 => gens::large().prop_map(Start::FromVec),
        1 => gens::large().prop_map(Start::FromIter),
    ];
    let op = prop_oneof![
        12 => any_st().prop_map(Op::Insert),
        3 => gens::large().prop_map(Op::Extend),
        2 => (gens::large(), any::<bool>(), option::of(gens::node()), option::of(any::<u8>())).prop_map(|(s, u, n, m)| Op::Merge(s, u, n, m)),
        4 => any::<usize>().prop_map(Op::RemoveNth),
        2 => any_st().prop_map(Op::Remove),
        1 => any::<usize>().prop_map(Op::RemoveAllForNth),
        1 => Just(Op::Dedup),
        1 => Just(Op::Fork),
    ];
    prop_oneof![
        2 => (start.clone(), vec(op, 2..12)),
        1 => (start, vec(prop_oneof![
            12 => any_st().prop_map(Op::Insert),
            2 => any::<usize>().prop_map(Op::RemoveNth),
            1 => vec(any_st(), 0..5).prop_map(Op::Extend),
        ], 40..150)),
    ]
    .boxed()
}

pub fn mappings(n: u8) -> Result<IriPrefixMap, Fail> {
    let mut m = IriPrefixMap::default();
    let ns = Namespace::from_str(&format!("p{n}:")).map_err(|e| Fail::new(e.to_string()))?;
    m.insert(ns, terms::iri(&format!("http://example.org/{n}#"))?);
    Ok(m)
}

#[derive(Clone, Debug)]
pub struct Model {
    pub unique: bool,
    pub sts: Vec<St>,
    pub name: Option<T>,
    pub map: Option<u8>,
}

impl Model {
    pub fn add(&mut self, s: &St) {
        if !(self.unique && self.sts.contains(s)) {
            self.sts.push(s.clone());
        }
    }
}

pub fn agree(g: &Graph, m: &Model, at: &str) -> Result<(), Fail> {
    ensure_eq!(of_graph(g)?, sorted(m.sts.clone()), "statements {at}");
    ensure_eq!(g.len(), m.sts.len(), "len {at}");
    ensure_eq!(g.is_empty(), m.sts.is_empty(), "is_empty {at}");
    ensure_eq!(g.name().map(T::of_graph_name), m.name, "name {at}");
    ensure_eq!(g.is_named(), m.name.is_some(), "is_named {at}");
    ensure_eq!(
        g.supports_feature(&FEATURE_GRAPH_DUPLICATES),
        !m.unique,
        "supports_feature(FEATURE_GRAPH_DUPLICATES) {at}"
    );
    ensure!(g.supports_feature(&FEATURE_RDF_STAR), "FEATURE_RDF_STAR {at}");
    let want = match m.map {
        Some(n) => mappings(n)?,
        None => IriPrefixMap::default(),
    };
    ensure_eq!(g.prefix_mappings(), &want, "prefix mappings {at}");
    Ok(())
}

fn bag((start, ops): &(Start, Vec<Op>)) -> R {
    let mut m = Model { unique: false, sts: vec![], name: None, map: None };
    let mut g = match start {
        Start::Default => Graph::default(),
        Start::Unique => {
            m.unique = true;
            Graph::unique()
        }
        Start::Named(n) => {
            m.name = Some(n.clone());
            Graph::named(n.graph_name()?)
        }
        Start::UniqueNamed(n) => {
            m.unique = true;
            m.name = Some(n.clone());
            Graph::unique_named(n.graph_name()?)
        }
        Start::FromVec(v) => {
            m.sts = v.clone();
            Graph::from(make_all(v)?)
        }
        Start::FromIter(v) => {
            m.sts = v.clone();
            Graph::from_iter(make_all(v)?)
        }
        Start::FromOne(s) => {
            m.sts = vec![s.clone()];
            Graph::from(s.make()?)
        }
    };
    agree(&g, &m, "at the start")?;
    let mut forks: Vec<(Graph, Model)> = vec![];
    let mut interesting = 0;
    for (i, op) in ops.iter().enumerate() {
        let before = m.sts.clone();
        let at = format!("after operation {i} {op:?}");
        let remove = |g: &mut Graph, m: &mut Model, s: &St| -> Result<(), Fail> {
            g.remove(&s.make()?);
            m.sts.retain(|e| e != s);
            Ok(())
        };
        let remove_all = |g: &mut Graph, m: &mut Model, s: &T| -> Result<(), Fail> {
            let gone = g.remove_all_for(&s.subject()?);
            let gone = gone.iter().map(St::of).collect::<Result<Vec<_>, _>>()?;
            let (want, keep): (Vec<St>, Vec<St>) = m.sts.drain(..).partition(|e| e.s == *s);
            m.sts = keep;
            ensure_eq!(sorted(gone), sorted(want), "remove_all_for({s:?}) returned");
            Ok(())
        };
        match op {
            Op::Insert(s) => {
                g.insert(s.make()?);
                m.add(s);
            }
            Op::Extend(v) => {
                g.extend(make_all(v)?);
                v.iter().for_each(|s| m.add(s));
            }
            Op::Merge(v, unique, name, map) => {
                let mut o = if *unique { Graph::unique() } else { Graph::default() };
                let sts = if *unique { set(v) } else { v.clone() };
                let of = Model { unique: *unique, sts, name: name.clone(), map: *map };
                if let Some(name) = name {
                    o.set_name(name.graph_name()?);
                }
                if let Some(map) = map {
                    o.set_prefix_mappings(mappings(*map)?);
                }
                o.extend(make_all(v)?);
                g.merge(&o);
                agree(&o, &of, &format!("of the graph merged from {at}"))?;
                if *unique { set(v) } else { v.clone() }.iter().for_each(|s| m.add(s));
            }
            Op::MergeSelf => {
                let o = g.clone();
                g.merge(&o);
                for s in before.iter() {
                    m.add(s);
                }
            }
            Op::Remove(s) => remove(&mut g, &mut m, s)?,
            Op::RemoveNth(n) => {
                if !m.sts.is_empty() {
                    let s = m.sts[n % m.sts.len()].clone();
                    remove(&mut g, &mut m, &s)?;
                }
            }
            Op::RemoveAllFor(s) => remove_all(&mut g, &mut m, s)?,
            Op::RemoveAllForNth(n) => {
                if !m.sts.is_empty() {
                    let s = m.sts[n % m.sts.len()].s.clone();
                    remove_all(&mut g, &mut m, &s)?;
                }
            }
            Op::Dedup => {
                let gone = g.dedup();
                let gone = gone.iter().map(St::of).collect::<Result<Vec<_>, _>>()?;
                let mut want = vec![];
                let mut keep: Vec<St> = vec![];
                for s in m.sts.drain(..) {
                    if keep.contains(&s) { want.push(s) } else { keep.push(s) }
                }
                m.sts = keep;
                if !want.is_empty() {
                    label("dedup removes");
                }
                ensure_eq!(sorted(gone), sorted(want), "dedup returned {at}");
            }
            Op::Clear => {
                g.clear();
                m.sts.clear();
            }
            Op::WithStatements(v) => {
                g = g.with_statements(make_all(v)?);
                m.sts.clear();
                v.iter().for_each(|s| m.add(s));
            }
            Op::SetName(n) => {
                g.set_name(n.graph_name()?);
                m.name = Some(n.clone());
            }
            Op::UnsetName => {
                g.unset_name();
                m.name = None;
            }
            Op::SetMappings(n) => {
                g.set_prefix_mappings(mappings(*n)?);
                m.map = Some(*n);
            }
            Op::WithMappings(n) => {
                g = g.with_mappings(mappings(*n)?);
                m.map = Some(*n);
            }
            Op::Fork => {
                let copy = g.clone();
                forks.push((
                    std::mem::replace(&mut g, copy),
                    m.clone(),
                ));
            }
        }
        agree(&g, &m, &at)?;
        if m.sts.len() < before.len() || m.sts.len() != set(&m.sts).len() {
            interesting += 1;
        }
    }
    for (g, m) in &forks {
        agree(g, m, "of a graph cloned earlier")?;
    }
    Ok(interesting > 0)
}

// ------------------------------------------------------------------------------------------------
// C02
// ------------------------------------------------------------------------------------------------

type Query = (Vec<St>, bool, Vec<(Option<T>, Option<String>, Option<T>)>);

fn queries() -> BoxedStrategy<Query> {
    let probe = (
        option::of(any_subject()),
        option::of(gens::dense_statement().prop_map(|s| s.p)),
        option::of(any_st().prop_map(|s| s.o)),
    );
    (vec(any_st(), 0..10), any::<bool>(), vec(probe, 1..5)).boxed()
}

fn large_queries() -> BoxedStrategy<Query> {
    (prop_oneof![3 => gens::large(), 1 => gens::large_nested()], any::<bool>(), vec(any_st(), 0..5))
        .prop_map(|(mut sts, unique, more)| {
            sts.extend(more.clone());
            let probes = more.into_iter().map(|s| (Some(s.s), Some(s.p), Some(s.o))).collect();
            (sts, unique, probes)
        })
        .boxed()
}

fn data(s: impl IntoIterator<Item = impl std::borrow::Borrow<Statement>>) -> Result<Vec<St>, Fail> {
    Ok(sorted(s.into_iter().map(|s| St::of(s.borrow())).collect::<Result<_, _>>()?))
}

fn query((sts, unique, probes): &Query) -> R {
    let mut g = if *unique { Graph::unique() } else { Graph::default() };
    g.extend(make_all(sts)?);
    let all = set(sts);

    let subjects: BTreeSet<T> = all.iter().map(|s| s.s.clone()).collect();
    let got = |v: HashSet<&rdftk_core::model::statement::SubjectNode>| -> Result<BTreeSet<T>, Fail> {
        v.into_iter().map(T::of_subject).collect()
    };
    ensure_eq!(got(g.subjects())?, subjects, "subjects");
    ensure_eq!(
        got(g.blank_node_subjects())?,
        subjects.iter().filter(|s| matches!(s, T::B(_))).cloned().collect(),
        "blank_node_subjects"
    );
    ensure_eq!(
        got(g.node_subjects())?,
        subjects.iter().filter(|s| !matches!(s, T::B(_))).cloned().collect(),
        "node_subjects"
    );
    let iris = |v: HashSet<&Iri>| -> BTreeSet<String> { v.into_iter().map(terms::of_iri).collect() };
    ensure_eq!(iris(g.predicates()), all.iter().map(|s| s.p.clone()).collect(), "predicates");
    let objs =
        |v: HashSet<&ObjectNode>| -> Result<BTreeSet<T>, Fail> { v.into_iter().map(T::of_object).collect() };
    ensure_eq!(objs(g.objects())?, all.iter().map(|s| s.o.clone()).collect(), "objects");

    let mut hits = 0;
    let from_graph = all.iter().map(|s| (Some(s.s.clone()), Some(s.p.clone()), Some(s.o.clone())));
    // Ask for what is there, what is nearly there, and what was generated.
    let mut asked: Vec<_> = probes.clone();
    for (s, p, o) in from_graph {
        asked.push((s.clone(), p.clone(), o.clone()));
        asked.push((s.clone(), p.clone(), None));
        asked.push((None, p.clone(), o.clone()));
        if let Some((ps, pp, po)) = probes.first() {
            asked.push((s.clone(), p.clone(), po.clone()));
            asked.push((s, pp.clone(), o.clone()));
            asked.push((ps.clone(), p, o));
        }
    }
    for (s, p, o) in &asked {
        let sn = s.as_ref().map(T::subject).transpose()?;
        let pn = p.as_ref().map(|p| terms::iri(p)).transpose()?;
        let on = o.as_ref().map(T::object).transpose()?;
        let is = |e: &&St| {
            s.as_ref().is_none_or(|s| *s == e.s)
                && p.as_ref().is_none_or(|p| *p == e.p)
                && o.as_ref().is_none_or(|o| *o == e.o)
        };
        let want: Vec<St> = all.iter().filter(is).cloned().collect();
        let got = data(g.matches(sn.as_ref(), pn.as_ref(), on.as_ref()))?;
        ensure_eq!(got, want, "matches({s:?}, {p:?}, {o:?})");
        if !want.is_empty() && want.len() < all.len() {
            hits += 1;
        }
        if let Some(sn) = &sn {
            let there = all.iter().any(|e| Some(&e.s) == s.as_ref());
            ensure_eq!(g.contains_subject(sn), there, "contains_subject({s:?})");
            ensure_eq!(
                iris(g.predicates_for(sn)),
                all.iter().filter(|e| Some(&e.s) == s.as_ref()).map(|e| e.p.clone()).collect(),
                "predicates_for({s:?})"
            );
            if let Some(pn) = &pn {
                ensure_eq!(
                    objs(g.objects_for(sn, pn))?,
                    all.iter()
                        .filter(|e| Some(&e.s) == s.as_ref() && Some(&e.p) == p.as_ref())
                        .map(|e| e.o.clone())
                        .collect(),
                    "objects_for({s:?}, {p:?})"
                );
                if let Some(on) = &on {
                    ensure_eq!(g.contains_all(sn, pn, on), !want.is_empty(), "contains_all({s:?}, {p:?}, {o:?})");
                    let one = Statement::new(sn.clone(), pn.clone(), on.clone());
                    ensure_eq!(g.contains(&one), !want.is_empty(), "contains({one})");
                }
            }
        }
    }
    Ok(hits > 0)
}

// ------------------------------------------------------------------------------------------------
// C03
// ------------------------------------------------------------------------------------------------

type Skolem = (Vec<St>, bool, Option<T>, String, Option<u8>);

fn blanky() -> BoxedStrategy<St> {
    prop_oneof![2 => gens::statement(2), 2 => gens::dense_statement(), 1 => gens::flat_statement()].boxed()
}

fn skolems() -> BoxedStrategy<Skolem> {
    let base = prop_oneof![
        Just("https://example.com/me".to_string()),
        Just("http://example.org".to_string()),
        Just("http://example.org:8080/a/b/c?q=1#f".to_string()),
        Just("http://example.org/.well-known/genid/".to_string()),
    ];
    (vec(blanky(), 0..7), any::<bool>(), option::of(gens::node()), base, option::of(any::<u8>())).boxed()
}

fn large_skolems() -> BoxedStrategy<Skolem> {
    let base = prop_oneof![Just("https://example.com/me".to_string()), gens::long_iri()];
    (prop_oneof![3 => gens::large(), 1 => gens::large_nested()], any::<bool>(), option::of(gens::node()), base, option::of(any::<u8>())).boxed()
}

fn with_name(e: &mut Vec<iso::Edge>, name: Option<T>, var: &dyn Fn(&T) -> bool) {
    if let Some(n) = name {
        let mut edge = vec![Tok::K("name".into())];
        iso::tokens(&n, var, &mut edge);
        e.push(edge);
    }
}

fn has_blank(s: &St) -> bool {
    let mut b = false;
    T::S(Box::new(s.clone())).walk(&mut |t| b |= matches!(t, T::B(_)));
    b
}

pub fn build(sts: &[St], unique: bool, name: &Option<T>, map: &Option<u8>) -> Result<Graph, Fail> {
    let mut g = if unique { Graph::unique() } else { Graph::default() };
    if let Some(n) = name {
        g.set_name(n.graph_name()?);
    }
    if let Some(n) = map {
        g.set_prefix_mappings(mappings(*n)?);
    }
    g.extend(make_all(sts)?);
    Ok(g)
}

fn kept(g: &Graph, unique: bool, map: &Option<u8>) -> Result<(), Fail> {
    ensure_eq!(
        g.supports_feature(&FEATURE_GRAPH_DUPLICATES),
        !unique,
        "the treatment of duplicates by the new graph"
    );
    let want = map.map(mappings).transpose()?.unwrap_or_default();
    ensure_eq!(g.prefix_mappings(), &want, "prefix mappings of the new graph");
    Ok(())
}

fn skolem((sts, unique, name, base, map): &Skolem) -> R {
    let g = build(sts, *unique, name, map)?;
    let before = of_graph(&g)?;
    let base_iri = terms::iri(base).or_else(|_| Iri::from_str(base).map_err(|e| Fail::new(e.to_string())))?;
    let new = g.skolemize(&base_iri).map_err(|e| Fail::new(format!("skolemize: {e}")))?;
    ensure_eq!(of_graph(&g)?, before, "the graph skolemized");
    kept(&new, *unique, map)?;
    let after = of_graph(&new)?;
    if let Some(s) = after.iter().find(|s| has_blank(s)) {
        return Err(Fail::new(format!("a blank node is left in {s:?}")));
    }
    let authority: String = {
        let rest = base.split_once("://").unwrap();
        format!("{}://{}", rest.0, rest.1.split(['/', '?', '#']).next().unwrap())
    };
    let prefix = format!("{authority}/.well-known/genid/");
    let blank = |t: &T| matches!(t, T::B(_));
    let genid = |t: &T| matches!(t, T::I(i) if i.starts_with(&prefix) && i.len() > prefix.len());
    let mut a = iso::edges(&before, &blank);
    with_name(&mut a, name.clone(), &blank);
    let mut b = iso::edges(&after, &genid);
    with_name(&mut b, new.name().map(T::of_graph_name), &genid);
    ensure!(
        iso::iso(&a, &b).is_some(),
        "the result is not the graph with each blank node replaced by an IRI of its own below {prefix}: {after:?} name {:?}",
        new.name()
    );
    // There is nothing more to replace.
    let again = new.skolemize(&base_iri).map_err(|e| Fail::new(format!("skolemize: {e}")))?;
    ensure_eq!(of_graph(&again)?, after, "skolemize of the skolemized graph");
    ensure_eq!(again.name(), new.name(), "name after skolemize of the skolemized graph");
    Ok(before.iter().any(has_blank))
}

/// Two calls never use the same IRI for different graphs.
fn skolem_fresh((sts, unique, name, base, map): &Skolem) -> R {
    let g = build(sts, *unique, name, map)?;
    let base = Iri::from_str(base).map_err(|e| Fail::new(e.to_string()))?;
    let used = |g: &Graph| -> Result<BTreeSet<String>, Fail> {
        let mut v = BTreeSet::new();
        for s in of_graph(g)? {
            T::S(Box::new(s)).walk(&mut |t| {
                if let T::I(i) = t
                    && i.contains("/.well-known/genid/")
                {
                    v.insert(i.clone());
                }
            });
        }
        Ok(v)
    };
    let one = used(&g.skolemize(&base).map_err(|e| Fail::new(e.to_string()))?)?;
    let two = used(&g.skolemize(&base).map_err(|e| Fail::new(e.to_string()))?)?;
    ensure!(one.is_disjoint(&two), "both calls used {:?}", one.intersection(&two).next());
    ensure_eq!(one.len(), two.len(), "number of IRIs made");
    Ok(!one.is_empty())
}

// ------------------------------------------------------------------------------------------------
// C04
// ------------------------------------------------------------------------------------------------

fn nested() -> BoxedStrategy<Skolem> {
    let sts = prop_oneof![3 => gens::statement(2), 1 => gens::statement(3), 2 => gens::dense_statement()];
    (vec(sts, 0..5), any::<bool>(), option::of(gens::node()), Just(String::new()), option::of(any::<u8>())).boxed()
}

fn large_nested() -> BoxedStrategy<Skolem> {
    (gens::large_nested(), any::<bool>(), option::of(gens::node()), Just(String::new()), option::of(any::<u8>())).boxed()
}

fn simplify((sts, unique, name, _, map): &Skolem) -> R {
    let g = build(sts, *unique, name, map)?;
    let before = of_graph(&g)?;
    let new = g.simplify().map_err(|e| Fail::new(format!("simplify: {e}")))?;
    ensure_eq!(of_graph(&g)?, before, "the graph simplified");
    kept(&new, *unique, map)?;
    ensure_eq!(new.name(), g.name(), "name of the new graph");
    let after = of_graph(&new)?;
    if let Some(s) = after.iter().find(|s| !s.is_flat()) {
        return Err(Fail::new(format!("not simple: {s:?}")));
    }
    let mut r = Reifier::new();
    for s in &before {
        let (sub, obj) = (r.term(&s.s), r.term(&s.o));
        r.out.push(st(sub, &s.p, obj));
    }
    let want = if *unique { set(&r.out) } else { r.out };
    let old = labels(&before);
    let var = |t: &T| matches!(t, T::B(b) if !old.contains(b));
    ensure!(
        iso::iso(&iso::edges(&after, &var), &iso::edges(&want, &var)).is_some(),
        "the result is {after:?}, which is not, up to the labels of the new blank nodes, {:?}",
        sorted(want)
    );
    let again = new.simplify().map_err(|e| Fail::new(format!("simplify: {e}")))?;
    ensure_eq!(of_graph(&again)?, after, "simplify of the simplified graph");
    Ok(before.iter().any(|s| !s.is_flat()))
}

/// Long and deep structures.
fn big() -> BoxedStrategy<(u32, u32, u32)> {
    (0u32..40, 0u32..12, 0u32..12).boxed()
}

fn simplify_big((len, depth, subject_depth): &(u32, u32, u32)) -> R {
    let mut o = T::C((0..*len).map(|n| T::L(Lit::Plain(n.to_string()))).collect());
    for d in 0..*depth {
        o = match d % 3 {
            0 => T::C(vec![o, T::B("a".into())]),
            1 => T::S(Box::new(st(T::B("a".into()), gens::IRIS[0], o))),
            _ => T::C(vec![T::C(vec![]), T::C(vec![o])]),
        };
    }
    let mut s = T::B("a".into());
    for d in 0..*subject_depth {
        s = T::S(Box::new(st(s, gens::IRIS[(d % 3) as usize], T::B("b".into()))));
    }
    simplify(&(vec![st(s, gens::IRIS[1], o)], *depth % 2 == 0, None, String::new(), None))
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "Histories of up to 14 operations from any constructor, over a handful of terms so that statements repeat; compared with a list (or set) of plain-data statements after every operation. Non-trivial: some operation removed statements, or left duplicates. Large ones: of up to 150 operations, and on up to 330 statements.",
            assumptions: &["the fields of a statement read back through subject(), predicate(), object() are compared as data (C15 checks those accessors)"],
            facets: vec![Box::new(Gen { name: "history", quick: 200_000, thorough: 4_000_000, strategy: history, test: bag }), Box::new(Gen { name: "long", quick: 4_000, thorough: 40_000, strategy: long_history, test: bag })],
        },
        Property {
            id: "C02",
            rule: "Graphs of up to 9 statements over a handful of terms, asked for each statement present, each with one component replaced or left out, and for generated patterns; compared with filtering a list. Non-trivial: some pattern selects some, but not all, of the statements. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep.",
            assumptions: &[],
            facets: vec![Box::new(Gen { name: "queries", quick: 150_000, thorough: 2_000_000, strategy: queries, test: query }), Box::new(Gen { name: "large", quick: 1_200, thorough: 10_000, strategy: large_queries, test: query })],
        },
        Property {
            id: "C03",
            rule: "Graphs of up to 6 statements, nested to depth 2, named or not, against isomorphism with blank nodes of the input, and generated IRIs of the output, as the variables. Non-trivial: the input has a blank node. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep.",
            assumptions: &["generated IRIs end in a random UUID; collisions are not considered"],
            facets: vec![
                Box::new(Gen { name: "iso", quick: 125_000, thorough: 1_500_000, strategy: skolems, test: skolem }),
                Box::new(Gen { name: "fresh", quick: 20_000, thorough: 200_000, strategy: skolems, test: skolem_fresh }),
                Box::new(Gen { name: "large", quick: 3_200, thorough: 20_000, strategy: large_skolems, test: skolem }),
            ],
        },
        Property {
            id: "C04",
            rule: "Graphs of up to 4 statements, nested to depth 3, against an independent reification, up to the labels of the new blank nodes. Non-trivial: some statement is nested or has a collection. Large ones: of collections up to 320 members long, or 25 deep.",
            assumptions: &[],
            facets: vec![
                Box::new(Gen { name: "nested", quick: 75_000, thorough: 1_000_000, strategy: nested, test: simplify }),
                Box::new(Gen { name: "large", quick: 2_000, thorough: 20_000, strategy: large_nested, test: simplify }),
                Box::new(Gen { name: "big", quick: 2_000, thorough: 20_000, strategy: big, test: simplify_big }),
            ],
        },
    ]
}

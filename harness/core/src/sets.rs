//! C13: the data set as a map from graph names to graphs.

use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::{Fail, Gen, Property, R, ensure_eq};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::{Graph, GraphName};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use terms::{St, T, gens, of_graph, set, sorted};

use crate::graphs;

/// A graph: its name, its statements, whether it drops duplicates, and its prefix mappings.
type Named = (Option<T>, Vec<St>, bool, Option<u8>);

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Start {
    Empty,
    FromGraph(Named),
    FromVec(Vec<Named>),
    FromIter(Vec<Named>),
    FromMap(Vec<Named>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(Named),
    Extend(Vec<Named>),
    Remove(Option<T>),
    /// Insert a statement into the graph of that name, if it is there.
    Mutate(Option<T>, St),
    /// Change the graph of that name otherwise, if it is there.
    Change(Option<T>, Change),
    Clear,
    Fork,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    RemoveNth(usize),
    Dedup,
    Clear,
    Map(u8),
}

/// Names that look alike: a blank node, and an IRI, with the same text; and no name.
fn name() -> BoxedStrategy<Option<T>> {
    option::weighted(
        0.75,
        prop_oneof![
            4 => pbt::proptest::sample::select(vec![
                T::B("a".into()), T::B("b".into()), T::B("http".into()), T::I("http://example.org/a".into()),
                T::I("http://example.org/b".into()), T::I("http://example.org/a#b".into()), T::I("http://example.org/A".into()),
            ]),
            1 => gens::node(),
        ],
    )
    .boxed()
}

fn named() -> BoxedStrategy<Named> {
    (name(), vec(gens::dense_statement(), 0..3), any::<bool>(), option::of(any::<u8>())).boxed()
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        any::<usize>().prop_map(Change::RemoveNth),
        Just(Change::Dedup),
        Just(Change::Clear),
        any::<u8>().prop_map(Change::Map),
    ]
    .boxed()
}

fn history() -> BoxedStrategy<(Start, Vec<Op>)> {
    let many = || vec(named(), 0..4);
    let start = prop_oneof![
        2 => Just(Start::Empty),
        1 => named().prop_map(Start::FromGraph),
        1 => many().prop_map(Start::FromVec),
        1 => many().prop_map(Start::FromIter),
        1 => many().prop_map(Start::FromMap),
    ];
    let op = prop_oneof![
        6 => named().prop_map(Op::Insert),
        2 => many().prop_map(Op::Extend),
        4 => name().prop_map(Op::Remove),
        4 => (name(), gens::dense_statement()).prop_map(|(n, s)| Op::Mutate(n, s)),
        2 => (name(), change()).prop_map(|(n, c)| Op::Change(n, c)),
        1 => prop_oneof![Just(Op::Clear), Just(Op::Fork)],
    ];
    (start, vec(op, 0..12)).boxed()
}

/// As `history`, with more graphs, some of them large.
fn long_history() -> BoxedStrategy<(Start, Vec<Op>)> {
    let many = || {
        (10usize..60, any::<bool>(), vec(gens::dense_statement(), 0..2), vec(named(), 0..3), gens::large())
            .prop_map(|(n, blank, sts, mut more, large)| {
                let name = |k| if blank { T::B(format!("w{k}")) } else { T::I(format!("http://example.org/n{k}")) };
                let mut all: Vec<Named> = (0..n).map(|k| (Some(name(k)), sts.clone(), k % 3 == 0, (k % 4 == 0).then_some(k as u8))).collect();
                if let Some(m) = more.first_mut() {
                    m.1 = large;
                }
                all.extend(more);
                all
            })
    };
    let start = prop_oneof![
        1 => Just(Start::Empty),
        1 => many().prop_map(Start::FromVec),
        1 => many().prop_map(Start::FromIter),
        1 => many().prop_map(Start::FromMap),
    ];
    let some = || prop_oneof![
        1 => name(),
        2 => (0u8..60, any::<bool>()).prop_map(|(k, blank)| Some(if blank { T::B(format!("w{k}")) } else { T::I(format!("http://example.org/n{k}")) })),
    ];
    let op = prop_oneof![
        4 => (some(), vec(gens::dense_statement(), 0..3), any::<bool>(), option::of(any::<u8>())).prop_map(Op::Insert),
        2 => many().prop_map(Op::Extend),
        5 => some().prop_map(Op::Remove),
        4 => (some(), gens::dense_statement()).prop_map(|(n, s)| Op::Mutate(n, s)),
        2 => (some(), change()).prop_map(|(n, c)| Op::Change(n, c)),
        1 => Just(Op::Fork),
    ];
    (start, vec(op, 2..40)).boxed()
}

fn graph((name, sts, unique, map): &Named) -> Result<Graph, Fail> {
    graphs::build(sts, *unique, name, map)
}

fn model((name, sts, unique, map): &Named) -> graphs::Model {
    let sts = if *unique { set(sts) } else { sts.clone() };
    graphs::Model { unique: *unique, sts, name: name.clone(), map: *map }
}

fn key(n: &Option<T>) -> Result<Option<GraphName>, Fail> {
    n.as_ref().map(T::graph_name).transpose()
}

type Model = BTreeMap<Option<T>, graphs::Model>;

fn agree(d: &DataSet, m: &Model, asked: &[Option<T>], at: &str) -> Result<(), Fail> {
    ensure_eq!(d.len(), m.len(), "len {at}");
    ensure_eq!(d.is_empty(), m.is_empty(), "is_empty {at}");
    let mut got = BTreeMap::new();
    let mut n = 0;
    for g in d.graphs() {
        n += 1;
        got.insert(g.name().map(T::of_graph_name), of_graph(g)?);
    }
    let want: BTreeMap<Option<T>, Vec<St>> = m.iter().map(|(k, v)| (k.clone(), sorted(v.sts.clone()))).collect();
    ensure_eq!(got, want, "graphs {at}");
    ensure_eq!(n, m.len(), "number of graphs iterated {at}");
    ensure_eq!(d.has_default_graph(), m.contains_key(&None), "has_default_graph {at}");
    ensure_eq!(
        d.default_graph().map(of_graph).transpose()?,
        want.get(&None).cloned(),
        "default_graph {at}"
    );
    for k in asked.iter().chain(m.keys()) {
        let name = key(k)?;
        ensure_eq!(d.contains_graph(&name), m.contains_key(k), "contains_graph({k:?}) {at}");
        ensure_eq!(d.graph(&name).map(of_graph).transpose()?, want.get(k).cloned(), "graph({k:?}) {at}");
        if let Some(g) = d.graph(&name) {
            ensure_eq!(g.name().map(T::of_graph_name), *k, "name of graph({k:?}) {at}");
            graphs::agree(g, &m[k], &format!("of graph({k:?}) {at}"))?;
        }
        if let Some(name) = &name {
            ensure_eq!(d.has_graph_named(name), m.contains_key(k), "has_graph_named({k:?}) {at}");
            ensure_eq!(
                d.graph_named(name).map(of_graph).transpose()?,
                want.get(k).cloned(),
                "graph_named({k:?}) {at}"
            );
        }
    }
    Ok(())
}

fn map((start, ops): &(Start, Vec<Op>)) -> R {
    let mut m = Model::new();
    let graphs = |v: &[Named]| v.iter().map(graph).collect::<Result<Vec<_>, _>>();
    let mut d = match start {
        Start::Empty => DataSet::default(),
        Start::FromGraph(g) => {
            m.insert(g.0.clone(), model(g));
            DataSet::from(graph(g)?)
        }
        Start::FromVec(v) => {
            v.iter().for_each(|g| drop(m.insert(g.0.clone(), model(g))));
            DataSet::from(graphs(v)?)
        }
        Start::FromIter(v) => {
            v.iter().for_each(|g| drop(m.insert(g.0.clone(), model(g))));
            DataSet::from_iter(graphs(v)?)
        }
        Start::FromMap(v) => {
            v.iter().for_each(|g| drop(m.insert(g.0.clone(), model(g))));
            let mut h = HashMap::new();
            for g in graphs(v)? {
                h.insert(g.name().cloned(), g);
            }
            DataSet::from(h)
        }
    };
    let mut asked: Vec<Option<T>> = vec![None];
    for op in ops {
        match op {
            Op::Insert(g) => asked.push(g.0.clone()),
            Op::Remove(n) | Op::Mutate(n, _) | Op::Change(n, _) => asked.push(n.clone()),
            _ => {}
        }
    }
    agree(&d, &m, &asked, "at the start")?;
    let mut forks = vec![];
    let mut interesting = false;
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Insert(g) => {
                d.insert(graph(g)?);
                interesting |= m.insert(g.0.clone(), model(g)).is_some();
            }
            Op::Extend(v) => {
                d.extend(graphs(v)?);
                v.iter().for_each(|g| drop(m.insert(g.0.clone(), model(g))));
            }
            Op::Remove(n) => {
                d.remove(&key(n)?);
                interesting |= m.remove(n).is_some();
            }
            Op::Mutate(n, s) => {
                let g = d.graph_mut(&key(n)?);
                ensure_eq!(g.is_some(), m.contains_key(n), "graph_mut({n:?}) is Some");
                if let Some(g) = g {
                    g.insert(s.make()?);
                    m.get_mut(n).unwrap().add(s);
                    interesting = true;
                }
            }
            Op::Change(n, c) => {
                if let (Some(g), Some(m)) = (d.graph_mut(&key(n)?), m.get_mut(n)) {
                    interesting = true;
                    match c {
                        Change::RemoveNth(k) if !m.sts.is_empty() => {
                            let s = m.sts[k % m.sts.len()].clone();
                            g.remove(&s.make()?);
                            m.sts.retain(|e| *e != s);
                        }
                        Change::RemoveNth(_) => {}
                        Change::Dedup => {
                            g.dedup();
                            m.sts = set(&m.sts);
                        }
                        Change::Clear => {
                            g.clear();
                            m.sts.clear();
                        }
                        Change::Map(k) => {
                            g.set_prefix_mappings(graphs::mappings(*k)?);
                            m.map = Some(*k);
                        }
                    }
                }
            }
            Op::Clear => {
                d.clear();
                m.clear();
            }
            Op::Fork => {
                let copy = d.clone();
                forks.push((std::mem::replace(&mut d, copy), m.clone()));
            }
        }
        agree(&d, &m, &asked, &format!("after operation {i} {op:?}"))?;
    }
    for (d, m) in &forks {
        agree(d, m, &asked, "of a data set cloned earlier")?;
    }
    Ok(interesting)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C13",
        rule: "Histories of up to 12 operations from any constructor over a handful of names, compared with a map after every operation. Each graph is compared with its model too: statements, name, duplicates, prefix mappings. Non-trivial: some operation replaced, removed, or changed a graph. Large ones: of up to 40 operations on some 60 graphs.",
        assumptions: &["the name of a graph is not changed through graph_mut"],
        facets: vec![Box::new(Gen { name: "history", quick: 125_000, thorough: 2_000_000, strategy: history, test: map }), Box::new(Gen { name: "long", quick: 2_000, thorough: 20_000, strategy: long_history, test: map })],
    }]
}

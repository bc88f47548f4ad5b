//! W08: DOT.

use crate::lines::{blanks, err, graph};
use objio::ObjectWriter;
use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_io::dot::{DotOptions, DotWriter};
use rdftk_iri::{IriPrefixMap, Namespace};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::str::FromStr;
use terms::iso::{self, Edge, Tok};
use terms::reify::Reifier;
use terms::{St, T, gens, set};

// ------------------------------------------------------------------------------------------------
// Reference parser, of the part of DOT a writer may be expected to use
// ------------------------------------------------------------------------------------------------

#[derive(Debug, PartialEq)]
enum Token {
    /// An identifier; its escapes, but not those of quotes, are left.
    Id(String),
    Arrow,
    Punct(char),
}

fn tokens(text: &str) -> Result<Vec<Token>, String> {
    let mut out = vec![];
    let mut it = text.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            c if c.is_whitespace() => {}
            '"' => {
                let mut s = String::new();
                loop {
                    match it.next().ok_or("a string does not end")? {
                        '"' => break,
                        '\\' => {
                            s.push('\\');
                            s.push(it.next().ok_or("a string does not end")?);
                        }
                        c => s.push(c),
                    }
                }
                out.push(Token::Id(s));
            }
            '-' if it.peek() == Some(&'>') => {
                it.next();
                out.push(Token::Arrow);
            }
            '{' | '}' | '[' | ']' | '=' | ';' | ',' => out.push(Token::Punct(c)),
            c if c.is_alphanumeric() || c == '_' => {
                let mut s = String::from(c);
                while let Some(c) = it.next_if(|c| c.is_alphanumeric() || *c == '_') {
                    s.push(c);
                }
                out.push(Token::Id(s));
            }
            c => return Err(format!("unexpected {c:?}")),
        }
    }
    Ok(out)
}

type Attrs = BTreeMap<String, String>;

#[derive(Debug, Default)]
struct Dot {
    nodes: BTreeMap<String, Attrs>,
    edges: Vec<(String, String, String)>,
}

fn parse(text: &str) -> Result<Dot, String> {
    let t = tokens(text)?;
    let mut at = 0;
    let mut next = || {
        at += 1;
        t.get(at - 1).ok_or("the document does not end".to_string())
    };
    let mut dot = Dot::default();
    if next()? != &Token::Id("digraph".into()) {
        return Err("not a digraph".into());
    }
    loop {
        match next()? {
            Token::Id(_) => {}
            Token::Punct('{') => break,
            x => return Err(format!("unexpected {x:?}")),
        }
    }
    let mut here = next()?;
    loop {
        let id = match here {
            Token::Punct('}') => break,
            Token::Punct(';') => {
                here = next()?;
                continue;
            }
            Token::Id(id) => id,
            x => return Err(format!("unexpected {x:?}")),
        };
        here = next()?;
        let mut to = None;
        match here {
            Token::Punct('=') => {
                let Token::Id(_) = next()? else { return Err("no value".into()) };
                here = next()?;
                continue;
            }
            Token::Arrow => {
                let Token::Id(id) = next()? else { return Err("no end of an edge".into()) };
                to = Some(id);
                here = next()?;
            }
            _ => {}
        }
        let mut attrs = Attrs::new();
        if here == &Token::Punct('[') {
            loop {
                match next()? {
                    Token::Punct(']') => break,
                    Token::Punct(',') | Token::Punct(';') => {}
                    Token::Id(n) => {
                        let (Token::Punct('='), Token::Id(v)) = (next()?, next()?) else { return Err(format!("no value of {n}")) };
                        if attrs.insert(n.clone(), v.clone()).is_some() {
                            return Err(format!("{n} twice"));
                        }
                    }
                    x => return Err(format!("unexpected {x:?}")),
                }
            }
            here = next()?;
        }
        match to {
            Some(to) => {
                let l = attrs.remove("label").ok_or("an edge without a label")?;
                if !attrs.is_empty() {
                    return Err(format!("an edge has {attrs:?}"));
                }
                dot.edges.push((id.clone(), to.clone(), l));
            }
            None => {
                if dot.nodes.insert(id.clone(), attrs).is_some() {
                    return Err(format!("node {id} twice"));
                }
            }
        }
    }
    if at != t.len() {
        return Err("more after the graph".into());
    }
    Ok(dot)
}

/// The text of the label of a node of a shape.
fn plain(label: &str, shape: &str) -> Result<String, String> {
    let record = shape.ends_with("record");
    let mut out = String::new();
    let mut it = label.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' if record && it.peek().is_some_and(|c| "{}|<> ".contains(*c)) => out.push(it.next().unwrap()),
            '\\' => {
                out.push(c);
                out.extend(it.next());
            }
            '{' | '}' | '|' | '<' | '>' if record => return Err(format!("the label {label:?} has fields")),
            c => out.push(c),
        }
    }
    terms::unescape(&out).map_err(|e| format!("label {label:?}: {e}"))
}

// ------------------------------------------------------------------------------------------------
// Properties
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Options {
    /// Shape and color of blank nodes, IRIs, and literals.
    look: [(String, String); 3],
    labels: bool,
    prefix: String,
    /// By the setters, not the builder.
    set: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// Written one after the other by the same writer.
    graphs: Vec<(Vec<St>, bool)>,
    map: Vec<(String, String)>,
    options: Option<Options>,
}

const SHAPES: [&[&str]; 3] = [&["circle", "point"], &["ellipse", "box", "Mrecord"], &["record", "square", "plaintext"]];
const COLORS: &[&str] = &["red", "black", "green", "blue", "gold"];

fn options() -> BoxedStrategy<Options> {
    let look = |n: usize| (select(SHAPES[n]), select(COLORS)).prop_map(|(s, c)| (s.to_string(), c.to_string()));
    ((look(0), look(1), look(2)), any::<bool>(), select(&["node_", "n", "", "x y", "\u{e9}-", "node_1"][..]), any::<bool>())
        .prop_map(|((a, b, c), labels, prefix, set)| Options { look: [a, b, c], labels, prefix: prefix.into(), set })
        .boxed()
}

impl Options {
    fn usual() -> Self {
        let l = |s: &str, c: &str| (s.to_string(), c.to_string());
        Self { look: [l("circle", "green"), l("ellipse", "blue"), l("record", "black")], labels: false, prefix: "node_".into(), set: false }
    }
    fn make(&self) -> Result<DotOptions, Fail> {
        let [b, i, l] = self.look.clone();
        let mut o = DotOptions::default();
        if self.set {
            o.set_blank_shape(&b.0);
            o.set_blank_color(&b.1);
            o.set_iri_shape(&i.0);
            o.set_iri_color(&i.1);
            o.set_literal_shape(&l.0);
            o.set_literal_color(&l.1);
            o.set_blank_labels(self.labels);
            o.set_node_prefix(&self.prefix);
        } else {
            o = o
                .with_blank_shape(&b.0)
                .with_blank_color(&b.1)
                .with_iri_shape(&i.0)
                .with_iri_color(&i.1)
                .with_literal_shape(&l.0)
                .with_literal_color(&l.1)
                .with_blank_labels(self.labels)
                .with_node_prefix(&self.prefix);
        }
        let got = [
            (o.blank_shape().clone(), o.blank_color().clone()),
            (o.iri_shape().clone(), o.iri_color().clone()),
            (o.literal_shape().clone(), o.literal_color().clone()),
        ];
        ensure_eq!(got, self.look, "the options set");
        ensure_eq!((o.blank_labels(), o.node_prefix()), (self.labels, &self.prefix), "the options set");
        Ok(o)
    }
}

fn cases() -> BoxedStrategy<Case> {
    let st = prop_oneof![3 => gens::flat_statement(), 3 => gens::dense_statement(), 2 => blanks(), 1 => gens::statement(1)];
    let map = select(vec![
        vec![],
        vec![("ex", "http://example.org/"), ("n", "http://example.org/ns#")],
        vec![("", "http://example.org/ns#"), ("dc", "http://purl.org/dc/elements/1.1/")],
    ]);
    (vec((vec(st, 0..7), any::<bool>()), 1..3), map, option::of(options()))
        .prop_map(|(graphs, map, options)| Case { graphs, map: map.into_iter().map(|(p, n)| (p.into(), n.into())).collect(), options })
        .boxed()
}

fn large() -> BoxedStrategy<Case> {
    (vec((prop_oneof![3 => gens::large(), 1 => gens::large_nested()], any::<bool>()), 1..3), option::of(options()))
        .prop_map(|(graphs, options)| Case { graphs, map: vec![("ex".into(), "http://example.org/".into())], options })
        .boxed()
}

/// The prefixes of `IriPrefixMap::default`.
const USUAL: [(&str, &str); 4] = [
    ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
    ("rdfs", "http://www.w3.org/2000/01/rdf-schema#"),
    ("xsd", "http://www.w3.org/2001/XMLSchema#"),
    ("owl", "http://www.w3.org/2002/07/owl#"),
];

fn prefixes(map: &[(String, String)]) -> Result<IriPrefixMap, Fail> {
    let mut m = IriPrefixMap::default();
    for (p, n) in map {
        let ns = terms::iri(n)?;
        if p.is_empty() {
            m.set_default_namespace(ns);
        } else {
            m.insert(Namespace::from_str(&format!("{p}:")).map_err(err)?, ns);
        }
    }
    Ok(m)
}

/// The nodes of the graph, if the DOT has exactly them and its edges.
fn says(text: &str, sts: &[St], unique: bool, o: &Options, map: &[(String, String)]) -> Result<std::collections::BTreeSet<T>, Fail> {
    let dot = parse(&text).map_err(|e| Fail::new(format!("not DOT: {e}\n{text}")))?;

    let want = Reifier::graph(sts);
    let mut edges: Vec<Edge> = vec![];
    let var = |t: &T| Tok::V(format!("{t:?}"));
    let mut nodes = std::collections::BTreeSet::new();
    for s in set(&want) {
        edges.push(vec![var(&s.s), Tok::K(s.p.clone()), var(&s.o)]);
        nodes.insert(s.s);
        nodes.insert(s.o);
    }
    for n in &nodes {
        edges.push(vec![
            var(n),
            Tok::K(match n {
                T::B(_) => "blank".into(),
                T::I(i) => format!("iri {i}"),
                T::L(l) => format!("literal {:?}", l.text()),
                _ => unreachable!(),
            }),
        ]);
    }

    let mut got: Vec<Edge> = vec![];
    for (a, b, l) in &dot.edges {
        let l = plain(l, "").map_err(Fail::new)?;
        // A prefixed name is known by its prefix, as none is the scheme of an IRI used.
        let p = match l.split_once(':') {
            Some((p, n)) => match map.iter().map(|m| (&*m.0, &*m.1)).chain(USUAL).find(|m| m.0 == p) {
                // A character and its percent-encoded form are the same in an `Iri`.
                Some((_, ns)) => format!("{ns}{n}").parse::<rdftk_iri::Iri>().map(|i| terms::of_iri(&i)).map_err(|e| Fail::new(e.to_string()))?,
                None => l.clone(),
            },
            None => return Err(Fail::new(format!("the label {l:?} of an edge is no IRI in {text}"))),
        };
        ensure!(dot.nodes.contains_key(a) && dot.nodes.contains_key(b), "an edge is to no node in {text}");
        let e = vec![Tok::V(a.clone()), Tok::K(p), Tok::V(b.clone())];
        if !got.contains(&e) {
            got.push(e);
        }
    }
    if want.len() == sts.len() && sts.iter().all(St::is_flat) {
        let n = if unique { set(sts).len() } else { sts.len() };
        ensure_eq!(dot.edges.len(), n, "number of edges of {text}");
    }
    for (id, a) in &dot.nodes {
        ensure!(id.starts_with(&o.prefix), "node {id:?} without the prefix {:?} in {text}", o.prefix);
        let get = |n: &str| a.get(n).map(String::as_str).ok_or(Fail::new(format!("node {id} has no {n} in {text}")));
        let shape = get("shape")?;
        let kind = o.look.iter().position(|l| l.0 == shape).ok_or(Fail::new(format!("shape {shape:?} in {text}")))?;
        ensure_eq!(get("color")?, o.look[kind].1, "color of {id} in {text}");
        ensure!(a.keys().all(|k| ["shape", "color", "label"].contains(&k.as_str()) || kind == 1 && k == "URL"), "node {id} has {a:?} in {text}");
        let l = plain(get("label")?, shape).map_err(|e| Fail::new(format!("{e} in {text}")))?;
        got.push(vec![
            Tok::V(id.clone()),
            Tok::K(match kind {
                0 => {
                    ensure_eq!(l, if o.labels { id.clone() } else { String::new() }, "label of {id} in {text}");
                    "blank".into()
                }
                1 => {
                    let url = plain(get("URL")?, "").map_err(Fail::new)?;
                    ensure_eq!(url, l, "URL of {id} in {text}");
                    format!("iri {l}")
                }
                _ => format!("literal {l:?}"),
            }),
        ]);
    }
    ensure!(iso::iso(&got, &edges).is_some(), "DOT {text} has {got:?}\nwhich is not, up to node names, {edges:?}");
    Ok(nodes)
}

/// Does the DOT, written with the usual options, say this?
pub fn says_usual(text: &str, sts: &[St]) -> Result<(), Fail> {
    says(text, sts, false, &Options::usual(), &[]).map(drop)
}

fn written(c: &Case) -> R {
    let o = c.options.clone().unwrap_or_else(Options::usual);
    let w = match &c.options {
        None => DotWriter::default(),
        Some(o) if o.set => DotWriter::new(o.make()?),
        Some(o) => DotWriter::default().with_options(o.make()?),
    };
    let mut hard = false;
    for (sts, unique) in &c.graphs {
        let mut g = graph(sts, *unique)?;
        g.set_prefix_mappings(prefixes(&c.map)?);
        let text = w.write_to_string(&g).map_err(err)?;
        let nodes = says(&text, sts, *unique, &o, &c.map)?;
        hard |= nodes.len() > 3;
        if nodes.iter().any(|n| matches!(n, T::L(l) if l.text().contains(['"', '\\', '\n', '{', '|']))) {
            label("escaped");
        }
    }
    if c.graphs.len() > 1 {
        label("writer used again");
    }
    Ok(hard)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "W08",
        rule: "One or two graphs, some with nested statements and collections, written by one writer with the default, or other, options, and prefixes; the DOT is read by a parser of the language. Non-trivial: four nodes or more. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep.",
        assumptions: &["the shapes and colors given are identifiers of DOT", "the label of a literal is its text, escaped or not, as DOT and N-Triples share the escapes of quotes and backslashes"],
        facets: vec![Box::new(Gen { name: "graphs", quick: 200_000, thorough: 6_000_000, strategy: cases, test: written }), Box::new(Gen { name: "large", quick: 2_000, thorough: 20_000, strategy: large, test: written })],
    }]
}

//! W12: the options of the writers.

use crate::lines::err;
use objio::{HasOptions, ObjectWriter};
use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::graph::Graph;
use rdftk_io::dot::{DotOptions, DotWriter};
use rdftk_io::json::{JsonOptions, JsonWriter};
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use rdftk_io::xml::{XmlOptions, XmlWriter};
use rdftk_iri::{IriPrefixMap, Namespace};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;
use terms::{Lit, St, T, iri, make_all, rdf, st};

// ------------------------------------------------------------------------------------------------
// Turtle
// ------------------------------------------------------------------------------------------------

/// Something done to options; where there are two ways to do it, `with` tells which.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Base(String, bool),
    NoBase,
    Nest(bool, bool),
    Sparql(bool, bool),
    Intellij(bool, bool),
    TypeOnLine(bool),
    Convert(Option<String>),
    Indent(usize, bool),
    Padding(bool, bool),
    /// Go on with a clone.
    Clone,
    /// Go on with what a writer says its options are.
    Writer(bool),
}

/// What the options are, of which `None` is what they were before anything was set.
#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    base: Option<String>,
    convert: Option<String>,
    nest: Option<bool>,
    sparql: Option<bool>,
    intellij: Option<bool>,
    type_on_line: Option<bool>,
    indent: Option<usize>,
    padding: Option<bool>,
}

const SPACES: &[&str] = &["http://example.org/", "http://example.org/ns#", "http://other.org/x/", "urn:isbn:"];

fn op() -> BoxedStrategy<Op> {
    let space = || select(SPACES).prop_map(String::from);
    prop_oneof![
        3 => (space(), any::<bool>()).prop_map(|(s, w)| Op::Base(s, w)),
        1 => Just(Op::NoBase),
        2 => any::<(bool, bool)>().prop_map(|(b, w)| Op::Nest(b, w)),
        2 => any::<(bool, bool)>().prop_map(|(b, w)| Op::Sparql(b, w)),
        2 => any::<(bool, bool)>().prop_map(|(b, w)| Op::Intellij(b, w)),
        2 => any::<bool>().prop_map(Op::TypeOnLine),
        1 => option::weighted(0.7, space()).prop_map(Op::Convert),
        2 => (1usize..12, any::<bool>()).prop_map(|(n, w)| Op::Indent(n, w)),
        2 => any::<(bool, bool)>().prop_map(|(b, w)| Op::Padding(b, w)),
        1 => Just(Op::Clone),
        1 => any::<bool>().prop_map(Op::Writer),
    ]
    .boxed()
}

fn apply(o: TurtleWriterOptions, m: &mut Model, op: &Op) -> Result<TurtleWriterOptions, Fail> {
    let mut o = o;
    match op {
        Op::Base(b, with) => {
            m.base = Some(b.clone());
            if *with {
                return Ok(o.with_id_base(iri(b)?));
            }
            o.set_id_base(iri(b)?);
        }
        Op::NoBase => {
            m.base = None;
            o.unset_id_base();
        }
        Op::Nest(b, with) => {
            m.nest = Some(*b);
            match (*with, *b) {
                (true, true) => return Ok(o.with_nested_blank_nodes()),
                (true, false) => return Ok(o.without_nested_blank_nodes()),
                _ => o.set_nest_blank_nodes(*b),
            }
        }
        Op::Sparql(b, with) => {
            m.sparql = Some(*b);
            if *with && *b {
                return Ok(o.with_sparql_style());
            }
            o.set_use_sparql_style(*b);
        }
        Op::Intellij(b, with) => {
            m.intellij = Some(*b);
            if *with && *b {
                // This sets the indent too.
                o = o.with_intellij_style();
                m.indent = Some(o.indent_width());
                return Ok(o);
            }
            o.set_use_intellij_style(*b);
        }
        Op::TypeOnLine(b) => {
            m.type_on_line = Some(*b);
            o.set_place_type_on_subject_line(*b);
        }
        Op::Convert(c) => {
            m.convert = c.clone();
            match c {
                Some(c) => o.set_convert_to_id_base(iri(c)?),
                None => o.unset_convert_to_id_base(),
            }
        }
        Op::Indent(n, with) => {
            m.indent = Some(*n);
            if *with {
                return Ok(o.with_indent_width(*n));
            }
            o.set_indent_width(*n);
        }
        Op::Padding(b, with) => {
            m.padding = Some(*b);
            if *with {
                return Ok(o.with_predicate_padding(*b));
            }
            o.set_predicate_padding(*b);
        }
        Op::Clone => return Ok(o.clone()),
        Op::Writer(set) => {
            let mut w = TurtleWriter::default();
            if *set {
                w.set_options(o);
            } else {
                w = w.with_options(o);
            }
            return Ok(w.options().clone());
        }
    }
    Ok(o)
}

fn of(o: &TurtleWriterOptions) -> Model {
    Model {
        base: o.id_base().map(terms::of_iri),
        convert: o.convert_to_id_base().map(terms::of_iri),
        nest: Some(o.nest_blank_nodes()),
        sparql: Some(o.use_sparql_style()),
        intellij: Some(o.use_intellij_style()),
        type_on_line: Some(o.place_type_on_subject_line()),
        indent: Some(o.indent_width()),
        padding: Some(o.predicate_padding()),
    }
}

/// Options on which all this was done, checked at every step.
fn turtle_options(ops: &[Op]) -> Result<(TurtleWriterOptions, Model), Fail> {
    let mut o = TurtleWriterOptions::default();
    let mut m = of(&o);
    for (n, op) in ops.iter().enumerate() {
        o = apply(o, &mut m, op)?;
        ensure_eq!(of(&o), m, "options after {:?}", &ops[..=n]);
    }
    Ok((o, m))
}

const TYPES: &[&str] = &["http://example.org/T", "http://other.org/x/Kind"];
const VERBS: &[&str] = &[
    "http://example.org/p",
    "http://example.org/much-longer",
    "http://example.org/ns#a",
    "http://other.org/x/name",
    "http://www.w3.org/2000/01/rdf-schema#label",
    "http://www.w3.org/2000/01/rdf-schema#comment",
    "http://xmlns.com/foaf/0.1/homepage",
];
const NODES: &[&str] = &["http://example.org/s", "http://example.org/ns#t", "http://other.org/x/u", "urn:isbn:1"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Look {
    ops: Vec<Op>,
    prefixes: BTreeMap<String, String>,
    sts: Vec<St>,
}

fn prefixes() -> BoxedStrategy<BTreeMap<String, String>> {
    pbt::proptest::collection::btree_map(
        select(&["a", "ex", "rdf", "foaf"][..]).prop_map(String::from),
        select(&["http://example.org/", "http://example.org/ns#", "http://other.org/x/", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"][..]).prop_map(String::from),
        0..4,
    )
    .boxed()
}

fn map(p: &BTreeMap<String, String>) -> Result<(IriPrefixMap, usize), Fail> {
    let mut m = IriPrefixMap::empty();
    for (p, ns) in p {
        m.insert(Namespace::from_str(&format!("{p}:")).map_err(err)?, iri(ns)?);
    }
    let n = m.mappings().count();
    Ok((m, n))
}

/// One object for each subject and predicate, none of which is blank.
fn plain() -> BoxedStrategy<Vec<St>> {
    let object = prop_oneof![
        2 => select(NODES).prop_map(terms::i),
        2 => "[a-z ]{0,8}".prop_map(|t| T::L(Lit::Plain(t))),
        1 => "[a-z]{1,3}".prop_map(|t| T::L(Lit::Lang(t, "en".into()))),
    ];
    let other = (select(VERBS), object).prop_map(|(p, o)| (p.to_string(), o));
    let kind = select(TYPES).prop_map(|t| (rdf("type"), terms::i(t)));
    vec((select(NODES), prop_oneof![3 => other, 1 => kind]), 1..8)
        .prop_map(|v| {
            let mut seen = BTreeSet::new();
            v.into_iter()
                .filter(|(s, (p, _))| seen.insert((*s, p.clone())))
                .map(|(s, (p, o))| st(terms::i(s), &p, o))
                .collect()
        })
        .boxed()
}

fn looks() -> BoxedStrategy<Look> {
    (vec(op(), 0..7), prefixes(), plain()).prop_map(|(ops, prefixes, sts)| Look { ops, prefixes, sts }).boxed()
}

/// Check the directives at the top, and return the lines after them that are not empty.
fn below<'a>(text: &'a str, m: &Model, prefixes: usize) -> Result<Vec<&'a str>, Fail> {
    let sparql = m.sparql == Some(true) && m.intellij != Some(true);
    let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
    let heads: Vec<(&str, Option<&str>)> = if sparql { vec![("BASE", None), ("PREFIX", None)] } else { vec![("@base", Some(".")), ("@prefix", Some("."))] };
    let n = lines
        .iter()
        .take_while(|l| ["BASE", "PREFIX", "@base", "@prefix"].contains(&l.split_whitespace().next().unwrap_or_default()))
        .count();
    let bases = usize::from(m.base.is_some());
    ensure_eq!(n, bases + prefixes, "number of directives of\n{text}");
    for (at, line) in lines[..n].iter().enumerate() {
        let is_base = at < bases;
        let words: Vec<&str> = line.split_whitespace().collect();
        let (head, end) = heads[usize::from(!is_base)];
        ensure_eq!(words[0], head, "form of directive {at} of\n{text}");
        let args = if is_base { 1 } else { 2 };
        ensure_eq!(words.len(), 1 + args + end.iter().len(), "length of directive {at} of\n{text}");
        if let Some(end) = end {
            ensure_eq!(words[1 + args], end, "end of directive {at} of\n{text}");
        }
        if is_base {
            let b = m.base.clone().unwrap_or_default();
            ensure_eq!(words[1], format!("<{b}>"), "base of\n{text}");
        }
    }
    Ok(lines[n..].to_vec())
}

fn split_word(s: &str) -> (&str, &str) {
    s.split_at(s.find(' ').unwrap_or(s.len()))
}

fn spaces(s: &str) -> usize {
    s.len() - s.trim_start_matches(' ').len()
}

/// Check the lines of the statements.
fn body(lines: &[&str], m: &Model, sts: &[St], text: &str) -> Result<(), Fail> {
    let on_line = m.type_on_line == Some(true);
    let types = sts.iter().filter(|s| s.p == rdf("type")).count();
    let subjects: BTreeSet<_> = sts.iter().map(|s| &s.s).collect();
    let mut columns: Vec<BTreeSet<usize>> = vec![];
    let (mut of_subject, mut with_type, mut verbs) = (0, 0, 0);
    for line in lines {
        if !line.starts_with(' ') {
            of_subject += 1;
            columns.push(Default::default());
            let (_, rest) = split_word(line);
            if !rest.trim().is_empty() {
                with_type += 1;
                verbs += 1;
            }
        } else {
            verbs += 1;
            let indent = spaces(line);
            ensure_eq!(Some(indent), m.indent, "indent of {line:?} in\n{text}");
            let (verb, rest) = split_word(&line[indent..]);
            let gap = spaces(rest);
            if m.padding == Some(false) {
                ensure_eq!(gap, 1, "spaces after the predicate without padding, in {line:?} of\n{text}");
            }
            match columns.last_mut() {
                Some(c) => drop(c.insert(verb.chars().count() + gap)),
                None => return Err(Fail::new(format!("a predicate {verb} before any subject in\n{text}"))),
            }
        }
    }
    ensure_eq!(of_subject, subjects.len(), "number of lines that start with a subject in\n{text}");
    ensure_eq!(verbs, sts.len(), "number of predicates in\n{text}");
    ensure_eq!(with_type, if on_line { types } else { 0 }, "number of types on the line of the subject in\n{text}");
    if m.padding == Some(true) {
        ensure!(columns.iter().all(|c| c.len() < 2), "objects do not start in the same column, with padding, in\n{text}");
    }
    Ok(())
}

fn turtle(c: &Look) -> R {
    let (o, m) = turtle_options(&c.ops)?;
    let mut g = Graph::from(make_all(&c.sts)?);
    let (prefixes, n) = map(&c.prefixes)?;
    g.set_prefix_mappings(prefixes);
    let text = TurtleWriter::default().with_options(o).write_to_string(&g).map_err(err)?;
    // Conversion may make two subjects, or predicates, the same.
    let lines = below(&text, &m, n)?;
    if m.base.is_none() || m.convert.is_none() {
        body(&lines, &m, &c.sts, &text)?;
    }
    Ok(c.ops.len() > 1)
}

// ------------------------------------------------------------------------------------------------
// Nesting
// ------------------------------------------------------------------------------------------------

/// Trees: for each node the one its blank node is in the object of, if not the IRI of its tree.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Trees {
    parents: Vec<Option<usize>>,
    leaves: Vec<usize>,
    ops: Vec<Op>,
    striped: bool,
    pretty: bool,
}

fn trees() -> BoxedStrategy<Trees> {
    let parents = vec(option::weighted(0.7, any::<prop::sample::Index>()), 1..6)
        .prop_map(|v| v.iter().enumerate().map(|(n, p)| p.filter(|_| n > 0).map(|p| p.index(n))).collect::<Vec<_>>());
    (parents, vec(0usize..6, 0..4), vec(op(), 0..4), any::<bool>(), any::<bool>())
        .prop_map(|(parents, leaves, ops, striped, pretty)| Trees { parents, leaves, ops, striped, pretty })
        .boxed()
}

impl Trees {
    fn sts(&self) -> Vec<St> {
        let b = |n: usize| T::B(format!("b{n}"));
        let mut out: Vec<St> = vec![];
        for (n, p) in self.parents.iter().enumerate() {
            out.push(match p {
                Some(p) => st(b(*p), VERBS[n % 3], b(n)),
                None => st(terms::i(NODES[n % NODES.len()]), VERBS[n % 3], b(n)),
            });
        }
        for (n, l) in self.leaves.iter().enumerate() {
            out.push(st(b(l % self.parents.len()), VERBS[n % 3], T::L(Lit::Plain(format!("x{n}")))));
        }
        out
    }
}

fn nesting(c: &Trees) -> R {
    let sts = c.sts();
    let (o, m) = turtle_options(&c.ops)?;
    let g = Graph::from(make_all(&sts)?);
    let text = TurtleWriter::default().with_options(o).write_to_string(&g).map_err(err)?;
    let (nested, labels) = (text.matches('[').count(), text.matches("_:").count());
    if m.nest == Some(true) {
        ensure_eq!((nested, labels), (c.parents.len(), 0), "nested blank nodes, and labels, of blank nodes that are all in one object each, in\n{text}");
    } else {
        ensure_eq!(nested, 0, "nested blank nodes in\n{text}");
    }

    // The names are those used by the writer.
    let o = XmlOptions::default();
    let o = if c.striped { o.striped() } else { o.flat() };
    let w = XmlWriter::default().with_options(if c.pretty { o.pretty() } else { o.plain() });
    let text = w.write_to_string(&g).map_err(err)?;
    let levels = descriptions(&text)?;
    let inner = levels.iter().filter(|l| l.0 > 0).count();
    if c.striped {
        ensure!(levels.iter().all(|(n, about)| *about || *n > 0), "a blank node, that is in one object, at the top of\n{text}");
    } else {
        ensure_eq!(inner, 0, "subjects within others in flat\n{text}");
    }
    Ok(c.parents.iter().any(|p| p.is_some()))
}

/// For each description the number of those it is in, and if it is of an IRI.
fn descriptions(text: &str) -> Result<Vec<(usize, bool)>, Fail> {
    use xml::reader::{EventReader, XmlEvent};
    let (mut out, mut depth) = (vec![], 0);
    for e in EventReader::new(text.as_bytes()) {
        let is = |n: &xml::name::OwnedName| n.namespace.as_deref() == Some(terms::RDF) && n.local_name == "Description";
        match e.map_err(|e| Fail::new(format!("{e} in {text}")))? {
            XmlEvent::StartElement { name, attributes, .. } if is(&name) => {
                out.push((depth, attributes.iter().any(|a| a.name.local_name == "about")));
                depth += 1;
            }
            XmlEvent::EndElement { name } if is(&name) => depth -= 1,
            _ => {}
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// The others
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Others {
    sts: Vec<St>,
    ops: Vec<Op>,
    prefixes: BTreeMap<String, String>,
    name: Option<String>,
    /// Values given in turn to options that have two, and the way to do it.
    flags: Vec<(bool, bool)>,
    encodings: Vec<String>,
    /// Which option of DOT is set to what.
    dot: Vec<(usize, String, bool)>,
}

fn others() -> BoxedStrategy<Others> {
    (
        plain(),
        vec(op(), 0..4),
        prefixes(),
        option::weighted(0.7, select(NODES).prop_map(String::from)),
        vec(any::<(bool, bool)>(), 0..4),
        vec(select(&["utf-8", "UTF-8", "utf8", "us-ascii", "iso-8859-1"][..]).prop_map(String::from), 0..3),
        vec((0usize..8, select(&["box", "circle", "red", "x", "n_"][..]).prop_map(String::from), any::<bool>()), 0..8),
    )
        .prop_map(|(sts, ops, prefixes, name, flags, encodings, dot)| Others { sts, ops, prefixes, name, flags, encodings, dot })
        .boxed()
}

fn trig(c: &Others) -> Result<(), Fail> {
    let (o, m) = turtle_options(&c.ops)?;
    let mut o = TrigWriterOptions::from(o);
    let mut omit = o.omit_graph_keyword();
    ensure_eq!(of(o.as_ref()), m, "options of Turtle in those of TriG");
    for (b, with) in &c.flags {
        omit = *b;
        if *with {
            o = o.with_omit_graph_keyword(*b);
        } else {
            o.set_omit_graph_keyword(*b);
        }
        ensure_eq!(o.omit_graph_keyword(), omit, "keyword omitted after {:?}", c.flags);
        ensure_eq!(of(o.as_ref()), m, "options of Turtle in those of TriG");
    }
    let w = TrigWriter::default().with_options(o);
    ensure_eq!(w.options().omit_graph_keyword(), omit, "keyword omitted by the writer");
    ensure_eq!(of(w.options().as_ref()), m, "options of Turtle of the writer of TriG");
    let mut g = Graph::from(make_all(&c.sts)?);
    if let Some(n) = &c.name {
        g.set_name(terms::i(n).graph_name()?);
    }
    let (prefixes, n) = map(&c.prefixes)?;
    g.set_prefix_mappings(prefixes);
    let text = ObjectWriter::<Graph>::write_to_string(&w, &g).map_err(err)?;
    let lines = below(&text, &m, n)?;
    let first = lines.first().copied().unwrap_or_default();
    ensure!(first.ends_with('{') && lines.last().is_some_and(|l| *l == "}"), "the block in\n{text}");
    let words: Vec<&str> = first.trim_end_matches('{').split_whitespace().collect();
    let iri = c.name.as_ref().map(|n| format!("<{n}>"));
    let want: Vec<&str> = (!omit && iri.is_some()).then_some("GRAPH").into_iter().chain(iri.as_deref()).collect();
    ensure_eq!(words, want, "what is before the block in\n{text}");
    if m.base.is_none() || m.convert.is_none() {
        body(&lines[1..lines.len() - 1], &m, &c.sts, &text)?;
    }
    Ok(())
}

fn json(c: &Others, g: &Graph) -> Result<(), Fail> {
    let mut o = JsonOptions::default();
    let mut pretty = o.pretty_print();
    for (b, with) in &c.flags {
        pretty = *b;
        if *with {
            o = o.with_pretty_print(*b);
        } else {
            o.set_pretty_print(*b);
        }
        ensure_eq!(o.pretty_print(), pretty, "pretty after {:?}", c.flags);
    }
    let w = JsonWriter::default().with_options(o);
    ensure_eq!(w.options().pretty_print(), pretty, "options of the writer");
    let text = w.write_to_string(g).map_err(err)?;
    ensure_eq!(text.trim().lines().count() > 1, pretty && !c.sts.is_empty(), "more than one line, of JSON {text:?}");
    Ok(())
}

fn xml(c: &Others, g: &Graph) -> Result<(), Fail> {
    let mut o = XmlOptions::default();
    let (mut pretty, mut encoding) = (None, None);
    let mut encodings = c.encodings.iter();
    for (b, flat) in &c.flags {
        pretty = Some(*b);
        o = if *b { o.pretty() } else { o.plain() };
        // Other options do not undo the first.
        o = if *flat { o.flat() } else { o.striped() };
        if let Some(e) = encodings.next() {
            o = o.with_encoding(e);
            encoding = Some(e);
        }
    }
    let text = XmlWriter::default().with_options(o).write_to_string(g).map_err(err)?;
    let (head, rest) = text.split_once("?>").ok_or_else(|| Fail::new(format!("no declaration in {text}")))?;
    if let Some(e) = encoding {
        let words: Vec<String> = head.split_whitespace().map(|w| w.replace('\'', "\"")).collect();
        ensure!(words.contains(&format!("encoding=\"{e}\"")), "encoding {e:?} in {text}");
    }
    let lines = rest.trim().lines().count();
    match pretty {
        Some(true) => ensure!(lines > c.sts.len(), "every statement has a line of its own in pretty\n{text}"),
        Some(false) => ensure_eq!(lines, 1, "lines of plain\n{text}"),
        None => {}
    }
    Ok(())
}

fn dot(c: &Others) -> Result<(), Fail> {
    let of = |o: &DotOptions| {
        [
            o.blank_shape().clone(),
            o.blank_color().clone(),
            o.iri_shape().clone(),
            o.iri_color().clone(),
            o.literal_shape().clone(),
            o.literal_color().clone(),
            o.node_prefix().clone(),
            o.blank_labels().to_string(),
        ]
    };
    let mut o = DotOptions::default();
    let mut want = of(&o);
    for (n, to, with) in &c.dot {
        let labels = to.len() == 1;
        want[*n] = if *n == 7 { labels.to_string() } else { to.clone() };
        if *with {
            o = match n {
                0 => o.with_blank_shape(to),
                1 => o.with_blank_color(to),
                2 => o.with_iri_shape(to),
                3 => o.with_iri_color(to),
                4 => o.with_literal_shape(to),
                5 => o.with_literal_color(to),
                6 => o.with_node_prefix(to),
                _ => o.with_blank_labels(labels),
            };
        } else {
            match n {
                0 => o.set_blank_shape(to),
                1 => o.set_blank_color(to),
                2 => o.set_iri_shape(to),
                3 => o.set_iri_color(to),
                4 => o.set_literal_shape(to),
                5 => o.set_literal_color(to),
                6 => o.set_node_prefix(to),
                _ => o.set_blank_labels(labels),
            }
        }
        ensure_eq!(of(&o), want, "options of DOT after {:?}", c.dot);
    }
    let w = if c.ops.is_empty() { DotWriter::new(o) } else { DotWriter::default().with_options(o) };
    ensure_eq!(of(w.options()), want, "options of the writer of DOT");
    Ok(())
}

fn other(c: &Others) -> R {
    let g = Graph::from(make_all(&c.sts)?);
    trig(c)?;
    json(c, &g)?;
    xml(c, &g)?;
    dot(c)?;
    if c.name.is_some() {
        label("named graph");
    }
    Ok(c.ops.len() + c.flags.len() + c.dot.len() > 1)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "W12",
        rule: "Up to 7 changes of options by either of the ways to make them, with every option read after every change, and a graph written with the result: of statements with one object for each subject and predicate, and of blank nodes that are trees. Non-trivial: two or more changes; for trees, a blank node in the object of another.",
        assumptions: &["options that have no setter keep their default"],
        facets: vec![
            Box::new(Gen { name: "turtle", quick: 40_000, thorough: 1_500_000, strategy: looks, test: turtle }),
            Box::new(Gen { name: "nesting", quick: 20_000, thorough: 800_000, strategy: trees, test: nesting }),
            Box::new(Gen { name: "others", quick: 20_000, thorough: 800_000, strategy: others, test: other }),
        ],
    }]
}

//! W01, W02, W05: N-Triples and N-Quads.

use crate::dice::Dice;
use crate::refnt::{self, Quad};
use objio::{HasOptions, ObjectReader, ObjectWriter};
use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::data_set::DataSet;
use rdftk_core::model::graph::Graph;
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter, NTripleWriterOptions};
use std::collections::BTreeSet;
use terms::iso::{self, Edge, Tok};
use terms::reify::Reifier;
use terms::{Lit, St, T, gens, i, make_all, of_graph, set};

pub fn err(e: impl std::fmt::Display) -> Fail {
    Fail::new(e.to_string())
}

// ------------------------------------------------------------------------------------------------
// Comparison
// ------------------------------------------------------------------------------------------------

pub fn quad_edges(q: &[Quad]) -> Vec<Edge> {
    let var = |t: &T| matches!(t, T::B(_));
    let q: BTreeSet<&Quad> = q.iter().collect();
    q.into_iter()
        .map(|(s, g)| {
            let mut e = iso::edge(s, &var);
            match g {
                Some(g) => iso::tokens(g, &var, &mut e),
                None => e.push(Tok::K("default".into())),
            }
            e
        })
        .collect()
}

pub fn same_quads(got: &[Quad], want: &[Quad], what: &str) -> Result<(), Fail> {
    ensure!(
        iso::iso(&quad_edges(got), &quad_edges(want)).is_some(),
        "{what}: got {got:?}\nwhich is not, up to blank node labels, {want:?}"
    );
    Ok(())
}

pub fn same_graph(got: &[St], want: &[St], what: &str) -> Result<(), Fail> {
    let (got, want) = (set(got), set(want));
    ensure!(iso::same(&got, &want), "{what}: got {got:?}\nwhich is not, up to blank node labels, {want:?}");
    Ok(())
}

pub fn triples(q: Vec<Quad>) -> Vec<St> {
    q.into_iter().map(|q| q.0).collect()
}

pub fn of_data_set(d: &DataSet) -> Result<Vec<Quad>, Fail> {
    let mut out = vec![];
    for g in d.graphs() {
        let name = g.name().map(T::of_graph_name);
        out.extend(of_graph(g)?.into_iter().map(|s| (s, name.clone())));
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// Generators
// ------------------------------------------------------------------------------------------------

pub fn flat() -> BoxedStrategy<Vec<St>> {
    vec(prop_oneof![3 => gens::flat_statement(), 2 => gens::dense_statement(), 1 => blanks()], 0..8).boxed()
}

/// Statements mostly among a few blank nodes, so that they form chains, trees, and cycles.
pub fn blanks() -> BoxedStrategy<St> {
    let b = || pbt::proptest::sample::select(&["a", "b", "c", "d", "B1"][..]).prop_map(|b| T::B(b.into()));
    let p = pbt::proptest::sample::select(&gens::PREDICATES[..4]).prop_map(String::from);
    (prop_oneof![4 => b(), 1 => Just(i(gens::IRIS[0]))], p, prop_oneof![4 => b(), 1 => gens::literal().prop_map(T::L), 1 => Just(i(gens::IRIS[1]))])
        .prop_map(|(s, p, o)| St { s, p, o })
        .boxed()
}

pub fn nested() -> BoxedStrategy<Vec<St>> {
    vec(prop_oneof![3 => gens::statement(2), 1 => gens::flat_statement(), 1 => gens::dense_statement()], 0..4).boxed()
}

pub fn graph(sts: &[St], unique: bool) -> Result<Graph, Fail> {
    let mut g = if unique { Graph::unique() } else { Graph::default() };
    g.extend(make_all(sts)?);
    Ok(g)
}

/// Something to say about the data that makes a case count.
pub fn hard(sts: &[St]) -> bool {
    let mut yes = false;
    for s in sts {
        T::S(Box::new(s.clone())).walk(&mut |t| {
            yes |= match t {
                T::L(l) => !matches!(l, Lit::Plain(t) if t.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ')),
                T::B(_) => true,
                T::I(i) => i.contains(['{', '|', '^', '`', '\\', '\'']),
                _ => true,
            }
        });
    }
    yes
}

// ------------------------------------------------------------------------------------------------
// W01
// ------------------------------------------------------------------------------------------------

type Case = (Vec<St>, bool);

fn nt_text(g: &Graph) -> Result<String, Fail> {
    NTripleWriter::default().write_to_string(g).map_err(|e| Fail::new(format!("write: {e}")))
}

fn nt_round((sts, unique): &Case) -> R {
    let g = graph(sts, *unique)?;
    let before = of_graph(&g)?;
    let text = nt_text(&g)?;
    ensure_eq!(of_graph(&g)?, before, "the graph written");
    let want = Reifier::graph(sts);
    let got = triples(refnt::parse(&text, false).map_err(|e| Fail::new(format!("not N-Triples: {e}\n{text}")))?);
    same_graph(&got, &want, &format!("what N-Triples {text:?} says"))?;
    if sts.iter().all(St::is_flat) {
        // One line for each distinct statement.
        ensure_eq!(text.lines().count(), set(sts).len(), "number of lines of {text:?}");
    }
    let back = NTripleReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text:?}: {e}")))?;
    same_graph(&of_graph(&back)?, &want, &format!("read back from {text:?}"))?;
    ensure!(back.name().is_none(), "the graph read has a name");
    Ok(!sts.is_empty() && hard(sts))
}

/// The option to write literals without a type in another form says nothing of other literals.
fn nt_option((sts, unique): &Case) -> R {
    let sts: Vec<St> = sts.iter().filter(|s| !matches!(&s.o, T::L(Lit::Typed(..)))).cloned().collect();
    let g = graph(&sts, *unique)?;
    for force in [false, true] {
        let mut w = NTripleWriter::default();
        w.set_options(NTripleWriterOptions::default().force_string_literals(force));
        let text = w.write_to_string(&g).map_err(err)?;
        let got = refnt::parse(&text, false).map_err(|e| Fail::new(format!("not N-Triples: {e}\n{text}")))?;
        same_graph(&triples(got), &sts, &format!("what N-Triples {text:?} says"))?;
    }
    Ok(hard(&sts))
}

// ------------------------------------------------------------------------------------------------
// W02
// ------------------------------------------------------------------------------------------------

pub type Set = Vec<(Option<T>, Vec<St>)>;

pub fn names() -> BoxedStrategy<Option<T>> {
    option::weighted(
        0.75,
        prop_oneof![
            3 => pbt::proptest::sample::select(vec![T::B("a".into()), T::B("g".into()), i(gens::IRIS[0]), i(gens::IRIS[2]), i(gens::IRIS[11])]),
            1 => gens::node(),
        ],
    )
    .boxed()
}

pub fn data_sets() -> BoxedStrategy<Set> {
    vec((names(), flat()), 0..4).boxed()
}

fn nested_sets() -> BoxedStrategy<Set> {
    vec((names(), nested()), 1..4).boxed()
}

/// Large graphs, or many small ones.
pub fn large_sets() -> BoxedStrategy<Set> {
    prop_oneof![
        2 => vec((names(), prop_oneof![3 => gens::large(), 1 => gens::large_nested()]), 1..4),
        1 => (8usize..80, vec(gens::dense_statement(), 1..4), any::<bool>()).prop_map(|(n, sts, blank)| {
            let name = |k| if blank { T::B(format!("w{k}")) } else { i(&format!("http://example.org/g{k}")) };
            (0..n).map(|k| (Some(name(k)), sts.clone())).collect()
        }),
    ]
    .boxed()
}

/// The last of graphs with the same name is the one in the data set.
pub fn make_set(set: &Set) -> Result<(DataSet, Set), Fail> {
    let mut d = DataSet::default();
    let mut model: Set = vec![];
    for (name, sts) in set {
        let mut g = graph(sts, false)?;
        if let Some(n) = name {
            g.set_name(n.graph_name()?);
        }
        d.insert(g);
        model.retain(|(n, _)| n != name);
        model.push((name.clone(), sts.clone()));
    }
    Ok((d, model))
}

fn quads(model: &Set) -> Vec<Quad> {
    let mut r = Reifier::new();
    let mut out = vec![];
    for (name, sts) in model {
        for s in sts {
            let (sub, obj) = (r.term(&s.s), r.term(&s.o));
            r.out.push(terms::st(sub, &s.p, obj));
        }
        out.extend(r.out.drain(..).map(|s| (s, name.clone())));
    }
    out
}

fn nq_round(set: &Set) -> R {
    let (d, model) = make_set(set)?;
    let want = quads(&model);
    let w = NQuadWriter::default();
    let text = ObjectWriter::<DataSet>::write_to_string(&w, &d).map_err(err)?;
    let got = refnt::parse(&text, true).map_err(|e| Fail::new(format!("not N-Quads: {e}\n{text}")))?;
    same_quads(&got, &want, &format!("what N-Quads {text:?} says"))?;
    let back = NQuadReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text:?}: {e}")))?;
    same_quads(&of_data_set(&back)?, &want, &format!("read back from {text:?}"))?;
    let named: BTreeSet<_> = want.iter().map(|q| &q.1).collect();
    ensure_eq!(back.len(), named.len(), "number of graphs read back from {text:?}");
    // A graph by itself is written as in the data set.
    for (name, sts) in &model {
        let g = d.graph(&name.as_ref().map(T::graph_name).transpose()?).ok_or(Fail::new("graph lost"))?;
        let text = ObjectWriter::<Graph>::write_to_string(&w, g).map_err(err)?;
        let got = refnt::parse(&text, true).map_err(|e| Fail::new(format!("not N-Quads: {e}\n{text}")))?;
        same_quads(&got, &quads(&vec![(name.clone(), sts.clone())]), &format!("what N-Quads {text:?} says of one graph"))?;
    }
    label(if named.len() > 1 { "several graphs" } else { "one graph" });
    Ok(named.iter().any(|n| n.is_some()))
}

// ------------------------------------------------------------------------------------------------
// W05
// ------------------------------------------------------------------------------------------------

type Doc = (Vec<(St, Option<T>)>, u64);

pub fn docs() -> BoxedStrategy<Doc> {
    let st = prop_oneof![3 => gens::flat_statement(), 1 => gens::dense_statement()];
    let seed = prop_oneof![1 => Just(0u64), 9 => any::<u64>()];
    (vec((st, names()), 0..8), seed).boxed()
}

pub fn large_docs() -> BoxedStrategy<Doc> {
    named(gens::large())
}

pub fn huge_docs() -> BoxedStrategy<Doc> {
    named(gens::huge())
}

/// Statements spread over up to 40 graphs.
fn named(sts: BoxedStrategy<Vec<St>>) -> BoxedStrategy<Doc> {
    (sts, vec(names(), 1..40), any::<u64>())
        .prop_map(|(sts, names, seed)| {
            let n = names.len();
            (sts.into_iter().enumerate().map(|(k, s)| (s, names[k % n].clone())).collect(), seed)
        })
        .boxed()
}

fn read_nt((quads, seed): &Doc) -> R {
    let quads: Vec<Quad> = quads.iter().map(|(s, _)| (s.clone(), None)).collect();
    let text = refnt::write(&quads, &Dice::new(*seed));
    let want = triples(quads);
    // The reference parser reads what the reference serializer writes.
    let own = refnt::parse(&text, false).map_err(|e| Fail::new(format!("harness: {e}")))?;
    ensure_eq!(own, want.iter().map(|s| (s.clone(), None)).collect::<Vec<_>>(), "harness");
    let g = NTripleReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text:?}: {e}")))?;
    same_graph(&of_graph(&g)?, &want, &format!("read from {text:?}"))?;
    Ok(*seed != 0 && !want.is_empty())
}

fn read_nq((quads, seed): &Doc) -> R {
    let text = refnt::write(quads, &Dice::new(*seed));
    let own = refnt::parse(&text, true).map_err(|e| Fail::new(format!("harness: {e}")))?;
    ensure_eq!(&own, quads, "harness");
    let d = NQuadReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text:?}: {e}")))?;
    same_quads(&of_data_set(&d)?, quads, &format!("read from {text:?}"))?;
    Ok(*seed != 0 && quads.iter().any(|q| q.1.is_some()))
}

/// Every character as itself (where it can be) and escaped in both ways, in a string, and the
/// character escapes.
fn one_char(n: &u32) -> R {
    let Some(c) = char::from_u32(*n) else { return Ok(false) };
    let mut forms = vec![format!("\\U{n:08X}"), format!("\\U{n:08x}")];
    if *n <= 0xffff {
        forms.extend([format!("\\u{n:04X}"), format!("\\u{n:04x}")]);
    }
    if !matches!(c, '"' | '\\' | '\n' | '\r') {
        forms.push(c.to_string());
    }
    let echar = match c {
        '\t' => "\\t",
        '\u{8}' => "\\b",
        '\n' => "\\n",
        '\r' => "\\r",
        '\u{c}' => "\\f",
        '"' => "\\\"",
        '\'' => "\\'",
        '\\' => "\\\\",
        _ => "",
    };
    forms.extend((!echar.is_empty()).then(|| echar.to_string()));
    let text: String = forms.iter().enumerate().map(|(i, f)| format!("<x:s> <x:p{i}> \"a{f}b\" .\n")).collect();
    let g = NTripleReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text:?}: {e}")))?;
    let want: Vec<St> = (0..forms.len())
        .map(|i| terms::st(terms::i("x:s"), &format!("x:p{i}"), T::L(Lit::Plain(format!("a{c}b")))))
        .collect();
    ensure_eq!(of_graph(&g)?, set(&want), "read from {text:?}");
    // And written in some form that stands for it.
    let text = nt_text(&graph(&want[..1], false)?)?;
    let got = refnt::parse(&text, false).map_err(|e| Fail::new(format!("not N-Triples: {e}\n{text}")))?;
    ensure_eq!(triples(got), want[..1].to_vec(), "what {text:?} says");
    // Labels of blank nodes end where the grammar says.
    let doc = format!("_:a{c}z <x:p> <x:o> .");
    let own = refnt::parse(&doc, false);
    // Labels with ':' are of N-Triples only, those of rdftk are the ones of Turtle; and white
    // space where the line based languages have none is taken for a separator.
    if c != ':' && !matches!(c, '\n' | '\r' | '#') {
        let g = NTripleReader::default().read(&mut doc.as_bytes());
        match (&own, g) {
            (Ok(q), Ok(g)) => same_graph(&of_graph(&g)?, &triples(q.clone()), &format!("read from {doc:?}"))?,
            (Ok(_), Err(e)) => return Err(Fail::new(format!("read {doc:?}: {e}"))),
            (Err(e), Ok(_)) => return Err(Fail::new(format!("{doc:?} is read, but {e}"))),
            (Err(_), Err(_)) => {}
        }
    }
    Ok(true)
}

const FAULTS: &[(&str, &str)] = &[
    ("no '.'", "<x:s> <x:p> <x:o>"),
    ("no object", "<x:s> <x:p> ."),
    ("only a subject", "<x:s> ."),
    ("a literal as the subject", "\"s\" <x:p> <x:o> ."),
    ("a literal as the predicate", "<x:s> \"p\" <x:o> ."),
    ("a blank node as the predicate", "<x:s> _:p <x:o> ."),
    ("space in an IRI", "<x:s> <x:p> <x:o o> ."),
    ("an escaped space in an IRI reference that is not absolute", "<x:s> <x:p> <o> ."),
    ("a bracket in an IRI", "<x:s> <x:p> <x:o<o> ."),
    ("a brace in an IRI", "<x:s> <x:p> <x:{o}> ."),
    ("an ECHAR in an IRI", "<x:s> <x:p> <x:\\n> ."),
    ("an unknown escape", "<x:s> <x:p> \"\\a\" ."),
    ("an unknown escape", "<x:s> <x:p> \"\\x41\" ."),
    ("a short UCHAR", "<x:s> <x:p> \"\\u004\" ."),
    ("a short UCHAR", "<x:s> <x:p> \"\\U0000004\" ."),
    ("a UCHAR that is not hexadecimal", "<x:s> <x:p> \"\\u00G0\" ."),
    ("a UCHAR that is not a character", "<x:s> <x:p> \"\\uD800\" ."),
    ("a UCHAR that is not a character", "<x:s> <x:p> \"\\U00110000\" ."),
    ("a line break in a string", "<x:s> <x:p> \"a\nb\" ."),
    ("a string that does not end", "<x:s> <x:p> \"a ."),
    ("a string that does not end", "<x:s> <x:p> \"a\\\" ."),
    ("single quotes", "<x:s> <x:p> 'a' ."),
    ("long quotes", "<x:s> <x:p> \"\"\"a\"\"\" ."),
    ("language and data type", "<x:s> <x:p> \"a\"@en^^<x:t> ."),
    ("a language tag that is empty", "<x:s> <x:p> \"a\"@ ."),
    ("a language tag of digits", "<x:s> <x:p> \"a\"@1 ."),
    ("a data type that is not an IRI", "<x:s> <x:p> \"a\"^^_:b ."),
    ("an abbreviated data type", "<x:s> <x:p> \"a\"^^xsd:int ."),
    ("a bare number", "<x:s> <x:p> 1 ."),
    ("a bare boolean", "<x:s> <x:p> true ."),
    ("a prefixed name", "x:s <x:p> <x:o> ."),
    ("the keyword a", "<x:s> a <x:o> ."),
    ("a list of objects", "<x:s> <x:p> <x:o>, <x:q> ."),
    ("a list of predicates", "<x:s> <x:p> <x:o>; <x:q> <x:r> ."),
    ("an anonymous blank node", "<x:s> <x:p> [] ."),
    ("an anonymous blank node", "[] <x:p> <x:o> ."),
    ("an empty label", "_: <x:p> <x:o> ."),
    ("a label that starts with '-'", "_:-a <x:p> <x:o> ."),
    ("a label that starts with '.'", "_:.a <x:p> <x:o> ."),
    ("a directive", "@prefix x: <x:> ."),
    ("a second '.'", "<x:s> <x:p> <x:o> . ."),
    ("no brackets", "x:s x:p x:o ."),
    ("a graph in a graph", "<x:s> <x:p> <x:o> <x:g> <x:h> ."),
    ("a literal as the graph", "<x:s> <x:p> <x:o> \"g\" ."),
];

/// One faulty line anywhere in a document is an error, not a different graph.
fn faulty((quads, seed, fault, at): &(Vec<Quad>, u64, usize, usize)) -> R {
    let d = Dice::new(*seed);
    let mut parts: Vec<String> = quads.iter().map(|q| refnt::write(std::slice::from_ref(&(q.0.clone(), None)), &Dice::new(0))).collect();
    let (what, line) = FAULTS[fault % FAULTS.len()];
    parts.insert(at % (parts.len() + 1), format!("{line}{}", d.of(&["\n", "\r\n"])));
    let text = parts.concat();
    if let Ok(g) = NTripleReader::default().read(&mut text.as_bytes()) {
        return Err(Fail::new(format!("{what}, but {text:?} is read as {:?}", of_graph(&g)?)));
    }
    if let Ok(g) = NQuadReader::default().read(&mut text.as_bytes()) {
        return Err(Fail::new(format!("{what}, but {text:?} is read from N-Quads as {:?}", of_data_set(&g)?)));
    }
    // Not even with the graph named, in N-Triples.
    let text = "<x:s> <x:p> <x:o> <x:g> .";
    ensure!(NTripleReader::default().read(&mut text.as_bytes()).is_err(), "{text} is read from N-Triples");
    label(what);
    Ok(!quads.is_empty())
}

fn faults() -> BoxedStrategy<(Vec<Quad>, u64, usize, usize)> {
    (vec((gens::flat_statement(), Just(None)), 0..4), any::<u64>(), 0..FAULTS.len(), 0usize..5).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "W01",
            rule: "Graphs of up to 7 statements (flat, or up to 3 nested to depth 2) with hostile text, IRIs and labels, written; the text is read by a strict reference parser, and by the crate's reader. Non-trivial: something needs escaping, a type, a language, a label, or flattening. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["labels with ':' cannot be made"],
            facets: vec![
                Box::new(Gen { name: "flat", quick: 60_000, thorough: 1_000_000, strategy: || (flat(), any::<bool>()).boxed(), test: nt_round }),
                Box::new(Gen { name: "nested", quick: 20_000, thorough: 400_000, strategy: || (nested(), any::<bool>()).boxed(), test: nt_round }),
                Box::new(Gen { name: "large", quick: 1_600, thorough: 20_000, strategy: || (prop_oneof![3 => gens::large(), 1 => gens::large_nested()], any::<bool>()).boxed(), test: nt_round }),
                Box::new(Gen { name: "huge", quick: 60, thorough: 2_000, strategy: || (gens::huge(), any::<bool>()).boxed(), test: nt_round }),
                Box::new(Gen { name: "option", quick: 10_000, thorough: 100_000, strategy: || (flat(), any::<bool>()).boxed(), test: nt_option }),
            ],
        },
        Property {
            id: "W02",
            rule: "Data sets of up to 3 graphs, whose names may be blank nodes that also occur within, written and read as for W01, compared as quads; and each graph by itself. Non-trivial: some statement is in a named graph. Large ones: of graphs of up to 330 statements, and of up to 80 graphs. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["N-Quads cannot express empty graphs, or the number of copies of a statement"],
            facets: vec![
                Box::new(Gen { name: "flat", quick: 30_000, thorough: 500_000, strategy: data_sets, test: nq_round }),
                Box::new(Gen { name: "nested", quick: 10_000, thorough: 200_000, strategy: nested_sets, test: nq_round }),
                Box::new(Gen { name: "large", quick: 1_200, thorough: 10_000, strategy: large_sets, test: nq_round }),
                Box::new(Gen { name: "huge", quick: 60, thorough: 2_000, strategy: || (names(), gens::huge()).prop_map(|g| vec![g]).boxed(), test: nq_round }),
            ],
        },
        Property {
            id: "W05",
            rule: "Documents by a reference serializer in random style (escapes in any form, comments, blank lines, line ends, white space or none), every Unicode character in a string and a label (enumerated; a sample in the quick tier), and documents with one faulty line. Non-trivial: not in plain style, and not empty. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["white space and comments between the terms of a statement are not judged: the reader allows line breaks there"],
            facets: vec![
                Box::new(Gen { name: "N-Triples", quick: 40_000, thorough: 800_000, strategy: docs, test: read_nt }),
                Box::new(Gen { name: "N-Quads", quick: 30_000, thorough: 600_000, strategy: docs, test: read_nq }),
                Box::new(Gen { name: "large N-Triples", quick: 1_200, thorough: 10_000, strategy: large_docs, test: read_nt }),
                Box::new(Gen { name: "large N-Quads", quick: 1_200, thorough: 10_000, strategy: large_docs, test: read_nq }),
                Box::new(Gen { name: "huge N-Triples", quick: 60, thorough: 2_000, strategy: huge_docs, test: read_nt }),
                Box::new(Gen { name: "huge N-Quads", quick: 60, thorough: 2_000, strategy: huge_docs, test: read_nq }),
                Box::new(pbt::Enumerate {
                    name: "characters",
                    items: |thorough| {
                        Box::new((0..0x110000u32).filter(move |n| thorough || *n < 0x3200 || n % 97 == 0 || (0xd000..0xe010).contains(n) || (0xf800..0x10010).contains(n) || (0xeff00..0xf0010).contains(n)))
                    },
                    test: one_char,
                }),
                Box::new(Gen { name: "faults", quick: 20_000, thorough: 200_000, strategy: faults, test: faulty }),
            ],
        },
    ]
}

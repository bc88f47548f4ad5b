//! W04, W09: RDF/XML.

use crate::lines::{blanks, err, graph, hard, same_graph};
use crate::rdfxml::{self, Doc, Subj, Val, Xml, is_ncname, reserved, splits, xml_char};
use objio::{ObjectReader, ObjectWriter};
use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use serde::{Deserialize, Serialize};
use terms::reify::Reifier;
use terms::{Lit, RDF, St, T, gens, of_graph, rdf, st};
use xml::reader::{EventReader, ParserConfig, XmlEvent};

const XML: &str = "http://www.w3.org/XML/1998/namespace";

/// Can the IRI be written as the name of an element?
fn split(iri: &str) -> bool {
    !splits(iri).is_empty()
}

// ------------------------------------------------------------------------------------------------
// Reference reader, of what a writer may be expected to write
// ------------------------------------------------------------------------------------------------

struct Ref<'a> {
    events: EventReader<&'a [u8]>,
    next_blank: usize,
    out: Vec<St>,
    /// Values of rdf:nodeID that are not names.
    bad_ids: Vec<String>,
}

type Attrs = Vec<(Option<String>, String, String)>;

impl<'a> Ref<'a> {
    fn new(text: &'a str) -> Self {
        // The version in the declaration is not understood by all parsers; the content is the same.
        Self {
            events: EventReader::new_with_config(text.as_bytes(), ParserConfig::new().cdata_to_characters(true).whitespace_to_characters(true).ignore_comments(true)),
            next_blank: 0,
            out: vec![],
            bad_ids: vec![],
        }
    }
    fn next(&mut self) -> Result<XmlEvent, String> {
        self.events.next().map_err(|e| e.to_string())
    }
    fn start(e: XmlEvent) -> Result<Option<(String, String, Attrs)>, String> {
        match e {
            XmlEvent::StartElement { name, attributes, .. } => {
                let ns = name.namespace.ok_or("element in no namespace")?;
                let attrs = attributes.into_iter().map(|a| (a.name.namespace, a.name.local_name, a.value)).collect();
                Ok(Some((ns, name.local_name, attrs)))
            }
            XmlEvent::Characters(t) if t.trim_matches([' ', '\n', '\r', '\t']).is_empty() => Ok(None),
            e => Err(format!("unexpected {e:?}")),
        }
    }
    fn document(mut self) -> Result<(Vec<St>, Vec<String>), String> {
        match self.next()? {
            XmlEvent::StartDocument { .. } => {}
            e => return Err(format!("unexpected {e:?}")),
        }
        let Some((ns, name, attrs)) = Self::start(self.next()?)? else { return Err("text before rdf:RDF".into()) };
        if (ns.as_str(), name.as_str()) != (RDF, "RDF") || !attrs.is_empty() {
            return Err(format!("the document is {ns}{name} {attrs:?}"));
        }
        loop {
            match self.next()? {
                XmlEvent::EndElement { .. } => break,
                e => {
                    if let Some(s) = Self::start(e)? {
                        self.node(s)?;
                    }
                }
            }
        }
        match self.next()? {
            XmlEvent::EndDocument => Ok((self.out, self.bad_ids)),
            e => Err(format!("unexpected {e:?} at the end")),
        }
    }
    fn id(&mut self, v: String) -> T {
        if !is_ncname(&v) {
            self.bad_ids.push(v.clone());
        }
        T::B(v)
    }
    fn node(&mut self, (ns, name, attrs): (String, String, Attrs)) -> Result<T, String> {
        let mut subject = None;
        let mut more = vec![];
        for (ns, n, v) in attrs {
            match (ns.as_deref(), n.as_str()) {
                (Some(RDF), "about") if subject.is_none() => subject = Some(T::I(v)),
                (Some(RDF), "nodeID") if subject.is_none() => subject = Some(self.id(v)),
                (Some(XML), "lang") => return Err("xml:lang on a node".into()),
                (Some(RDF), "type") => more.push((rdf("type"), T::I(v))),
                (Some(ns), n) if !reserved(&format!("{ns}{n}")) => more.push((format!("{ns}{n}"), T::L(Lit::Plain(v)))),
                x => return Err(format!("attribute {x:?} on a node")),
            }
        }
        let subject = subject.unwrap_or_else(|| {
            self.next_blank += 1;
            T::B(format!("~{}", self.next_blank))
        });
        if (ns.as_str(), name.as_str()) != (RDF, "Description") {
            if reserved(&format!("{ns}{name}")) {
                return Err(format!("node element rdf:{name}"));
            }
            self.out.push(st(subject.clone(), &rdf("type"), T::I(format!("{ns}{name}"))));
        }
        self.out.extend(more.into_iter().map(|(p, o)| st(subject.clone(), &p, o)));
        loop {
            match self.next()? {
                XmlEvent::EndElement { .. } => return Ok(subject),
                e => {
                    if let Some((ns, name, attrs)) = Self::start(e)? {
                        self.property(&subject, format!("{ns}{name}"), attrs)?;
                    }
                }
            }
        }
    }
    fn property(&mut self, subject: &T, p: String, attrs: Attrs) -> Result<(), String> {
        if reserved(&p) {
            return Err(format!("property element {p}"));
        }
        let (mut object, mut lang, mut dt) = (None, None, None);
        for (ns, n, v) in attrs {
            match (ns.as_deref(), n.as_str()) {
                (Some(RDF), "resource") if object.is_none() => object = Some(T::I(v)),
                (Some(RDF), "nodeID") if object.is_none() => object = Some(self.id(v)),
                (Some(XML), "lang") => lang = Some(v),
                (Some(RDF), "datatype") => dt = Some(v),
                x => return Err(format!("attribute {x:?} on a property")),
            }
        }
        let mut text = String::new();
        let mut inner = None;
        loop {
            match self.next()? {
                XmlEvent::EndElement { .. } => break,
                XmlEvent::Characters(t) => text += &t,
                e => {
                    let start = Self::start(e)?.unwrap();
                    if inner.is_some() {
                        return Err("two nodes in a property".into());
                    }
                    inner = Some(self.node(start)?);
                }
            }
        }
        let blank_text = text.trim_matches([' ', '\n', '\r', '\t']).is_empty();
        let o = match (object, inner) {
            (Some(_), Some(_)) => return Err("two objects of a property".into()),
            (Some(o), None) | (None, Some(o)) => {
                if !blank_text || lang.is_some() || dt.is_some() {
                    return Err("a node and a literal".into());
                }
                o
            }
            (None, None) => T::L(match (lang, dt) {
                (None, None) => Lit::Plain(text),
                (Some(l), None) => Lit::Lang(text, l),
                (_, Some(d)) => Lit::Typed(text, d),
            }),
        };
        self.out.push(st(subject.clone(), &p, o));
        Ok(())
    }
}

/// The statements, read by the reference reader.
pub fn parse(text: &str) -> Result<Vec<St>, String> {
    Ref::new(text).document().map(|d| d.0)
}

/// Can the statement be written?
pub fn can(s: &St) -> bool {
    let text = match &s.o {
        T::L(Lit::Plain(t) | Lit::Lang(t, _) | Lit::Typed(t, _)) => t,
        _ => "",
    };
    split(&s.p) && !reserved(&s.p) && text.chars().all(xml_char)
}

// ------------------------------------------------------------------------------------------------
// W04
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Style {
    striped: bool,
    pretty: bool,
}

fn styles() -> BoxedStrategy<Style> {
    (any::<bool>(), any::<bool>()).prop_map(|(striped, pretty)| Style { striped, pretty }).boxed()
}

fn writer(s: &Style) -> XmlWriter {
    let o = XmlOptions::default();
    let o = if s.striped { o.striped() } else { o.flat() };
    XmlWriter::default().with_options(if s.pretty { o.pretty() } else { o.plain() })
}

fn clean(t: &mut T) {
    match t {
        T::L(Lit::Plain(t) | Lit::Lang(t, _) | Lit::Typed(t, _)) => t.retain(xml_char),
        T::C(c) => c.iter_mut().for_each(clean),
        T::S(s) => {
            clean(&mut s.s);
            clean(&mut s.o);
        }
        _ => {}
    }
}

/// Only with what RDF/XML can express; whether a predicate can be split is part of the check.
pub fn expressible(mut v: Vec<St>) -> Vec<St> {
    v.iter_mut().for_each(|s| {
        clean(&mut s.s);
        clean(&mut s.o);
    });
    v.retain(|s| {
        let mut ok = !reserved(&s.p);
        T::S(Box::new(s.clone())).walk(&mut |t| {
            if let T::S(s) = t {
                ok &= !reserved(&s.p);
            }
        });
        ok
    });
    v
}

fn predicates() -> BoxedStrategy<String> {
    prop_oneof![
        12 => select(gens::PREDICATES).prop_map(String::from),
        4 => "http://example.org/[a-z0-9._-]{0,3}[/#:?=]?[a-zA-Z_\u{e9}\u{4e2d}][a-z0-9._-]{0,3}"
            .prop_filter_map("normalised", |s| terms::iri(&s).is_ok().then_some(s)),
        1 => gens::iri_text(),
    ]
    .boxed()
}

fn xml_flat() -> BoxedStrategy<Vec<St>> {
    let any = (gens::node(), predicates(), gens::flat_object()).prop_map(|(s, p, o)| St { s, p, o });
    vec(prop_oneof![2 => any, 2 => gens::dense_statement(), 3 => blanks()], 0..8).prop_map(expressible).boxed()
}

/// Perhaps with what RDF/XML cannot express.
fn xml_any() -> BoxedStrategy<Vec<St>> {
    let p = prop_oneof![4 => predicates(), 1 => select(rdfxml::RESERVED).prop_map(rdf), 1 => select(&["type", "first", "_1", "value", "List", "Li", "abouts", "x"][..]).prop_map(rdf)];
    let any = (gens::node(), p, gens::flat_object()).prop_map(|(s, p, o)| St { s, p, o });
    vec(prop_oneof![2 => any, 2 => gens::dense_statement(), 1 => blanks()], 0..4).boxed()
}

fn xml_nested() -> BoxedStrategy<Vec<St>> {
    let any = (gens::subject(2), select(gens::PREDICATES).prop_map(String::from), gens::object(2)).prop_map(|(s, p, o)| St { s, p, o });
    vec(prop_oneof![2 => any, 1 => gens::dense_statement()], 0..4).prop_map(expressible).boxed()
}

fn read(text: &str) -> Result<Vec<St>, Fail> {
    let g = XmlReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text}: {e}")))?;
    of_graph(&g)
}

fn round((sts, style): &(Vec<St>, Style)) -> R {
    let g = graph(sts, false)?;
    let want = Reifier::graph(sts);
    let res = writer(style).write_to_string(&g);
    if let Some(bad) = want.iter().find(|s| !can(s)) {
        ensure!(res.is_err(), "{bad:?}, which XML cannot express, is written in {:?}", res.unwrap_or_default());
        label("not expressible");
        return Ok(true);
    }
    let text = res.map_err(err)?;
    let (got, _) = Ref::new(&text).document().map_err(|e| Fail::new(format!("not RDF/XML: {e}\n{text}")))?;
    same_graph(&got, &want, &format!("what RDF/XML {text} says"))?;
    ensure_eq!(got.len(), terms::set(&got).len(), "number of statements, each written once, of {text}");
    same_graph(&read(&text)?, &want, &format!("read back from {text}"))?;
    Ok(!sts.is_empty() && hard(sts))
}

fn node_ids((sts, style): &(Vec<St>, Style)) -> R {
    let text = writer(style).write_to_string(&graph(sts, false)?).map_err(err)?;
    let (_, bad) = Ref::new(&text).document().map_err(|e| Fail::new(format!("not RDF/XML: {e}\n{text}")))?;
    if !bad.is_empty() {
        return Err(Fail::sig("node-id-not-a-name", format!("the labels {bad:?}, which are not XML names, are values of rdf:nodeID: {text}")));
    }
    Ok(!sts.is_empty())
}

// ------------------------------------------------------------------------------------------------
// W09
// ------------------------------------------------------------------------------------------------

/// The content of an XML literal in a form in which prefixes do not matter.
fn literal_events(text: &str) -> Result<String, String> {
    let doc = format!("<r>{text}</r>");
    let r = EventReader::new_with_config(doc.as_bytes(), ParserConfig::new().cdata_to_characters(true).whitespace_to_characters(true));
    let mut stack: Vec<(Option<(String, Option<String>, Vec<(String, String)>)>, Vec<Xml>)> = vec![];
    for e in r {
        match e.map_err(|e| format!("{text:?} is not XML: {e}"))? {
            XmlEvent::StartElement { name, attributes, .. } => {
                let attrs = attributes.into_iter().map(|a| (a.name.to_string(), a.value)).collect();
                stack.push((Some((name.local_name, name.namespace, attrs)), vec![]));
            }
            XmlEvent::EndElement { .. } => {
                let (start, content) = stack.pop().unwrap();
                let (n, ns, a) = start.unwrap();
                match stack.last_mut() {
                    None => return Ok(rdfxml::xml_events(&content)),
                    Some(outer) => outer.1.push(Xml::Element(n, ns, a, content)),
                }
            }
            XmlEvent::Characters(t) => stack.last_mut().unwrap().1.push(Xml::Text(t)),
            XmlEvent::StartDocument { .. } | XmlEvent::EndDocument => {}
            e => return Err(format!("unexpected {e:?} in the XML literal {text:?}")),
        }
    }
    Err("no end".into())
}

/// The statements read, with XML literals in that form.
fn read_doc(text: &str) -> Result<Vec<St>, Fail> {
    let mut sts = read(text)?;
    for s in &mut sts {
        if let T::L(Lit::Typed(t, d)) = &mut s.o
            && *d == rdf("XMLLiteral")
            && let Ok(e) = literal_events(t)
        {
            *t = format!("{}{e}", rdfxml::XML_MARK);
        }
    }
    Ok(sts)
}

fn document(d: &Doc) -> R {
    let text = d.text();
    let want = normal(d.says());
    let got = normal(read_doc(&text)?);
    same_graph(&got, &want, &format!("read from {text}"))?;
    Ok(want.len() > 1)
}

/// A literal of type rdf:XMLLiteral written by rdf:datatype, in the same form.
fn normal(mut v: Vec<St>) -> Vec<St> {
    for s in &mut v {
        if let T::L(Lit::Typed(t, d)) = &mut s.o
            && *d == rdf("XMLLiteral")
            && !t.starts_with(rdfxml::XML_MARK)
            && let Ok(e) = literal_events(t)
        {
            *t = format!("{}{e}", rdfxml::XML_MARK);
        }
    }
    v
}

/// Documents the readers may not make a graph of.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faulty {
    doc: Doc,
    at: u32,
    fault: u8,
}

const FAULTS: &[(&str, &str)] = &[
    ("two nodes in a property", "<ex:p><rdf:Description/><rdf:Description/></ex:p>"),
    ("text and a node in a property", "<ex:p>text<rdf:Description/></ex:p>"),
    ("a node and text in a property", "<ex:p><rdf:Description/>text</ex:p>"),
    ("a node and CDATA in a property", "<ex:p><rdf:Description/><![CDATA[text]]></ex:p>"),
    ("text in an empty property", "<ex:p rdf:resource='http://example.org/'>text</ex:p>"),
    ("a node in an empty property", "<ex:p rdf:nodeID='a'><rdf:Description/></ex:p>"),
    ("text with property attributes", "<ex:p ex:q='a'>text</ex:p>"),
    ("text in a collection", "<ex:p rdf:parseType='Collection'>text<rdf:Description/></ex:p>"),
    ("relative IRI without a base", "<ex:p rdf:resource='a b'/>"),
    ("resource is no IRI", "<ex:p rdf:resource='http://[/'/>"),
    ("about is no IRI", "<ex:p><rdf:Description rdf:about='http://a b/'/></ex:p>"),
    ("data type is no IRI", "<ex:p rdf:datatype='int'>1</ex:p>"),
    ("type is no IRI", "<ex:p rdf:type='C'/>"),
    ("nodeID is no label", "<ex:p rdf:nodeID='a b'/>"),
    ("empty nodeID", "<ex:p><rdf:Description rdf:nodeID=''/></ex:p>"),
    ("language is no tag", "<ex:p xml:lang='not a tag'>a</ex:p>"),
    ("base is no IRI", "<ex:p><rdf:Description xml:base='/a'/></ex:p>"),
    ("undeclared prefix", "<nope:p>a</nope:p>"),
    ("undeclared prefix of an attribute", "<ex:p nope:a='b'/>"),
    ("mismatched end", "<ex:p>a</ex:q>"),
    ("no end", "<ex:p>a"),
    ("undefined entity", "<ex:p>&nope;</ex:p>"),
    ("unescaped <", "<ex:p>a < b</ex:p>"),
    ("unescaped &", "<ex:p>a & b</ex:p>"),
    ("attribute twice", "<ex:p ex:a='1' ex:a='2'/>"),
    ("attribute without quotes", "<ex:p ex:a=1/>"),
    ("unclosed comment", "<!-- <ex:p>a</ex:p>"),
    ("unclosed CDATA", "<ex:p><![CDATA[a</ex:p>"),
];

/// The document with, added to its first node, something that is not allowed; or cut short.
fn faulty(f: &Faulty) -> R {
    let text = f.doc.text();
    let text = match FAULTS.get(f.fault as usize) {
        Some((_, fault)) => {
            let node = format!(
                "<rdf:Description xmlns:rdf='{RDF}' xmlns:ex='http://example.org/' rdf:about='http://example.org/'>\n{fault}</rdf:Description>"
            );
            let end = text.rfind("</").unwrap();
            format!("{}{node}{}", &text[..end], &text[end..])
        }
        None => {
            // Anything of the document but all of it.
            let end = text.rfind("</").unwrap() + text[text.rfind("</").unwrap()..].find('>').unwrap();
            let mut n = 1 + f.at as usize % end;
            while !text.is_char_boundary(n) {
                n -= 1;
            }
            text[..n].to_string()
        }
    };
    let what = FAULTS.get(f.fault as usize).map_or("cut short", |f| f.0);
    if let Ok(g) = XmlReader::default().read(&mut text.as_bytes()) {
        return Err(Fail::new(format!("{what}: read as {:?} from {text}", of_graph(&g))));
    }
    label(what);
    Ok(true)
}

fn roots() -> Box<dyn Iterator<Item = String>> {
    let d = format!("<rdf:Description xmlns:rdf='{RDF}' xmlns:ex='http://example.org/' ex:p='a'/>");
    Box::new(
        vec![
            String::new(),
            " ".into(),
            "text".into(),
            "<RDF/>".into(),
            "<RDF xmlns='http://example.org/'/>".into(),
            format!("<rdf:rdf xmlns:rdf='{RDF}'>{d}</rdf:rdf>"),
            format!("<rdf:RDF>{d}</rdf:RDF>"),
            format!("<rdf:RDF xmlns:rdf='http://example.org/'>{d}</rdf:RDF>"),
            format!("<html><rdf:RDF xmlns:rdf='{RDF}'>{d}</rdf:RDF></html>"),
            format!("<rdf:RDF xmlns:rdf='{RDF}'>{d}</rdf:RDF><rdf:RDF xmlns:rdf='{RDF}'>{d}</rdf:RDF>"),
            format!("<rdf:RDF xmlns:rdf='{RDF}'>{d}</rdf:RDF>text"),
            format!("text<rdf:RDF xmlns:rdf='{RDF}'>{d}</rdf:RDF>"),
        ]
        .into_iter(),
    )
}

fn root(text: &String) -> R {
    if let Ok(g) = XmlReader::default().read(&mut text.as_bytes()) {
        return Err(Fail::new(format!("read as {:?} from {text}", of_graph(&g))));
    }
    Ok(true)
}

/// XML literals within which a prefix, or the default, has one meaning, then another.
fn literal_scopes(content: &String) -> R {
    let text = format!("<r:RDF xmlns:r='{RDF}' xmlns:ex='http://example.org/'><r:Description><ex:p r:parseType='Literal'>{content}</ex:p></r:Description></r:RDF>");
    let want = literal_events(content).map_err(Fail::new)?;
    let got = read_doc(&text)?;
    let want = T::L(Lit::Typed(format!("{}{want}", rdfxml::XML_MARK), rdf("XMLLiteral")));
    if got.len() == 1 && got[0].o != want {
        return Err(Fail::sig("xml-literal-scopes", format!("read {:?} from {text}", got[0].o)));
    }
    ensure!(got.len() == 1, "read {got:?} from {text}");
    Ok(true)
}

/// A named subject is the same node in every element it is given, and others are all different.
fn fresh(d: &Doc) -> R {
    let text = d.text();
    let (a, b) = (read(&text)?, read(&text)?);
    let labels = |v: &[St]| {
        let mut out = std::collections::BTreeSet::new();
        for s in v {
            T::S(Box::new(s.clone())).walk(&mut |t| {
                if let T::B(b) = t {
                    out.insert(b.clone());
                }
            });
        }
        out
    };
    let (a, b) = (labels(&a), labels(&b));
    let mut given = std::collections::BTreeSet::new();
    given_ids(d, &mut given);
    for l in a.intersection(&b) {
        ensure!(given.contains(l), "the blank node {l:?}, not named in the document, is in both graphs read from {text}");
    }
    Ok(!a.is_empty())
}

fn given_ids(d: &Doc, out: &mut std::collections::BTreeSet<String>) {
    fn subj(s: &Subj, out: &mut std::collections::BTreeSet<String>) {
        if let Subj::NodeId(b) = s {
            out.insert(b.clone());
        }
    }
    fn node(n: &rdfxml::Node, out: &mut std::collections::BTreeSet<String>) {
        subj(&n.subject, out);
        n.props.iter().for_each(|p| prop(p, out));
    }
    fn prop(p: &rdfxml::Prop, out: &mut std::collections::BTreeSet<String>) {
        match &p.val {
            Val::Ref(b) => {
                out.insert(b.clone());
            }
            Val::Node(n) => node(n, out),
            Val::Props(v) => v.iter().for_each(|p| prop(p, out)),
            Val::Items(v) => v.iter().for_each(|n| node(n, out)),
            Val::Attrs(s, ..) => subj(s, out),
            _ => {}
        }
    }
    d.nodes.iter().for_each(|n| node(n, out));
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "W04",
            rule: "Graphs as for W01, with many blank nodes that refer to each other, written in both styles and layouts, read by a reference reader and by the crate's; a predicate that cannot be the name of an element, or text with characters that XML cannot have, is an error. Non-trivial: something needs escaping, a type, a language, a label, or flattening. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["xml-rs, which the crate also uses, reads XML correctly", "literals have only characters of both versions of XML, and predicates are not the names of RDF/XML syntax"],
            facets: vec![
                Box::new(Gen { name: "flat", quick: 40_000, thorough: 800_000, strategy: || (xml_flat(), styles()).boxed(), test: round }),
                Box::new(Gen { name: "any", quick: 20_000, thorough: 400_000, strategy: || (xml_any(), styles()).boxed(), test: round }),
                Box::new(Gen { name: "nested", quick: 10_000, thorough: 200_000, strategy: || (xml_nested(), styles()).boxed(), test: round }),
                Box::new(Gen { name: "large", quick: 1_200, thorough: 10_000, strategy: || (prop_oneof![3 => gens::large(), 1 => gens::large_nested()].prop_map(expressible), styles()).boxed(), test: round }),
                Box::new(Gen { name: "huge", quick: 60, thorough: 1_000, strategy: || (gens::huge().prop_map(expressible), styles()).boxed(), test: round }),
                Box::new(Gen { name: "node ids", quick: 2_000, thorough: 20_000, strategy: || ((vec(blanks(), 0..6), vec(gens::flat_statement(), 0..4)).prop_map(|(mut a, b)| {
                    a.extend(b);
                    a.retain(|s| split(&s.p));
                    expressible(a)
                }), styles()).boxed(), test: node_ids }),
            ],
        },
        Property {
            id: "W09",
            rule: "Documents made of every form the specification has for nodes, properties, and literals, nested three deep, in varied layout, prefixes, quotes, character references, and comments; the statements each says are computed with it. Faulty documents are those with something not allowed added, or cut short. Non-trivial: more than one statement, or a fault. Large ones: of up to 80 elements beside one another, or 40 one within another. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["IRIs in documents are absolute, as the reader has no relative ones", "xml-rs, which the crate also uses, reads XML correctly"],
            facets: vec![
                Box::new(Gen { name: "documents", quick: 40_000, thorough: 800_000, strategy: rdfxml::doc, test: document }),
                Box::new(Gen { name: "large", quick: 2_000, thorough: 20_000, strategy: rdfxml::large_doc, test: document }),
                Box::new(Gen { name: "huge", quick: 60, thorough: 1_000, strategy: rdfxml::huge_doc, test: document }),
                Box::new(Gen {
                    name: "faulty",
                    quick: 10_000,
                    thorough: 100_000,
                    strategy: || (rdfxml::doc(), any::<u32>(), 0u8..FAULTS.len() as u8 + 6).prop_map(|(doc, at, fault)| Faulty { doc, at, fault }).boxed(),
                    test: faulty,
                }),
                Box::new(Enumerate { name: "roots", items: |_| roots(), test: root }),
                Box::new(Enumerate {
                    name: "literal scopes",
                    items: |_| {
                        Box::new(
                            ["<a xmlns='urn:x'><b xmlns=''/></a>", "<q:a xmlns:q='urn:x'><q:b xmlns:q='urn:y'><q:c xmlns:q='urn:x'/></q:b></q:a>"]
                                .into_iter()
                                .map(String::from),
                        )
                    },
                    test: literal_scopes,
                }),
                Box::new(Gen { name: "fresh", quick: 4_000, thorough: 40_000, strategy: rdfxml::doc, test: fresh }),
            ],
        },
    ]
}

//! Generated RDF/XML documents, with the statements they say by the RDF/XML specification.

use crate::dice::Dice;
use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::fmt::Write;
use terms::{Lit, RDF, St, T, gens, i, rdf, st};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Doc {
    pub base: Option<String>,
    pub lang: Option<String>,
    pub nodes: Vec<Node>,
    pub style: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Subj {
    Anon,
    About(String),
    NodeId(String),
    Id(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    pub subject: Subj,
    pub element: Option<String>,
    pub ty: Option<String>,
    pub attrs: Vec<(String, String)>,
    pub props: Vec<Prop>,
    pub base: Option<String>,
    pub lang: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prop {
    /// None for rdf:li.
    pub p: Option<String>,
    pub val: Val,
    pub id: Option<String>,
    pub base: Option<String>,
    pub lang: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Text(String, Option<String>),
    Resource(String),
    Ref(String),
    Node(Box<Node>),
    Props(Vec<Prop>),
    Items(Vec<Node>),
    /// An empty element with property attributes.
    Attrs(Subj, Option<String>, Vec<(String, String)>),
    Xml(Vec<Xml>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Xml {
    Text(String),
    /// Local name, namespace, attributes, and content.
    Element(String, Option<String>, Vec<(String, String)>, Vec<Xml>),
}

// ------------------------------------------------------------------------------------------------
// Generators
// ------------------------------------------------------------------------------------------------

const BASES: &[&str] = &["http://example.org/base", "http://example.org/base/", "http://example.org/b2#old", "urn:x:base"];
/// Names, and what they are in the fragment of an `Iri`.
const IDS: &[(&str, &str)] = &[("id1", "id1"), ("id2", "id2"), ("_x.y-z", "_x.y-z"), ("\u{e9}", "%C3%A9"), ("Z", "Z")];
const NODE_IDS: &[&str] = &["a", "b", "c", "x-y", "_u", "a.b", "\u{e9}", "\u{4e2d}1"];
const LANGS: &[&str] = &["en", "en-US", "de", ""];

pub fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}'
        | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}'
        | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}'
        | '\u{10000}'..='\u{effff}')
}
pub fn name_char(c: char) -> bool {
    name_start(c) || matches!(c, '-' | '.' | '0'..='9' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}
pub fn is_ncname(s: &str) -> bool {
    s.starts_with(name_start) && s.chars().all(name_char)
}
/// All the ways to write the IRI as the name of an element.
pub fn splits(iri: &str) -> Vec<(&str, &str)> {
    (1..iri.len()).filter(|n| iri.is_char_boundary(*n)).map(|n| iri.split_at(n)).filter(|(_, l)| is_ncname(l)).collect()
}
/// Names of the RDF namespace that are syntax, and so not the names of properties.
pub const RESERVED: &[&str] = &[
    "RDF", "ID", "about", "bagID", "parseType", "resource", "nodeID", "li", "aboutEach", "aboutEachPrefix",
    "Description", "datatype",
];
pub fn reserved(iri: &str) -> bool {
    iri.strip_prefix(RDF).is_some_and(|n| RESERVED.contains(&n))
}
/// Characters a document of either version of XML may have, written as they are or as references.
pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{7e}' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-z ]{0,4}".boxed(), 2 => gens::text()]
        .prop_map(|mut t| {
            t.retain(xml_char);
            t
        })
        .boxed()
}
fn iri() -> BoxedStrategy<String> {
    gens::iri_text()
}
/// The names that mean something to RDF/XML, in namespaces in which they do not.
fn look_alike() -> BoxedStrategy<String> {
    (
        select(&["http://example.org/ns#", "http://example.org/", "http://www.w3.org/2000/01/rdf-schema#", "http://example.org/1999/02/22-rdf-syntax-ns#", "http://www.w3.org/XML/1998/namespace/"][..]),
        select(&["about", "resource", "nodeID", "ID", "datatype", "parseType", "type", "li", "_1", "Description", "RDF", "lang", "base"][..]),
    )
        .prop_map(|(ns, n)| format!("{ns}{n}"))
        .boxed()
}
fn predicate() -> BoxedStrategy<String> {
    prop_oneof![
        1 => look_alike(),
        6 => select(gens::PREDICATES).prop_map(String::from),
        1 => select(vec!["http://example.org/%E5name".to_string(), "http://example.org/?q=a".into(), "http://example.org/ns'x".into(), "urn:a:b.c".into()]),
    ]
    .prop_filter_map("type as a property", |p| (!splits(&p).is_empty() && !reserved(&p)).then_some(p))
    .boxed()
}
fn class() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["http://xmlns.com/foaf/0.1/Person".to_string(), rdf("Seq"), "http://example.org/ns#Class".into(), "urn:x:C".into()]),
        1 => look_alike(),
    ]
    .boxed()
}
fn some<S: Strategy<Value = String> + 'static>(p: f64, s: S) -> BoxedStrategy<Option<String>> {
    option::weighted(p, s).boxed()
}
fn lang() -> BoxedStrategy<Option<String>> {
    some(0.15, select(LANGS).prop_map(String::from))
}
fn base() -> BoxedStrategy<Option<String>> {
    some(0.15, select(BASES).prop_map(String::from))
}
fn attrs(p: std::ops::Range<usize>) -> BoxedStrategy<Vec<(String, String)>> {
    vec((predicate().prop_filter_map("rdf:type", |p| (p != rdf("type")).then_some(p)), text()), p).boxed()
}
fn subj() -> BoxedStrategy<Subj> {
    prop_oneof![
        2 => Just(Subj::Anon),
        4 => iri().prop_map(Subj::About),
        2 => select(NODE_IDS).prop_map(|s| Subj::NodeId(s.into())),
        1 => select(IDS).prop_map(|s| Subj::Id(s.0.into())),
    ]
    .boxed()
}
fn xml_literal(depth: u32) -> BoxedStrategy<Vec<Xml>> {
    let leaf = prop_oneof![text().prop_map(Xml::Text)].boxed();
    if depth == 0 {
        return vec(leaf, 0..2).boxed();
    }
    let element = (
        select(&["em", "a", "b.c", "p"][..]),
        some(0.6, select(&["http://www.w3.org/1999/xhtml", "http://example.org/ns#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"][..]).prop_map(String::from)),
        vec((select(&["x", "y"][..]).prop_map(String::from), text()), 0..2),
        xml_literal(depth - 1),
    )
        .prop_map(|(n, ns, mut a, c)| {
            a.dedup_by(|a, b| a.0 == b.0);
            Xml::Element(n.into(), ns, a, c)
        });
    vec(prop_oneof![1 => leaf, 1 => element], 0..3).boxed()
}

fn val(depth: u32) -> BoxedStrategy<Val> {
    let leaf = prop_oneof![
        3 => text().prop_map(|t| Val::Text(t, None)),
        2 => (text(), gens::data_type_text()).prop_map(|(t, d)| Val::Text(t, Some(d))),
        2 => iri().prop_map(Val::Resource),
        2 => select(NODE_IDS).prop_map(|s| Val::Ref(s.into())),
        1 => attrs(0..3).prop_flat_map(|a| (attr_subject(), some(0.3, class()), Just(a))).prop_map(|(s, t, a)| Val::Attrs(s, t, a)),
        1 => xml_literal(2).prop_map(Val::Xml),
    ];
    if depth == 0 {
        return leaf.boxed();
    }
    prop_oneof![
        4 => leaf,
        2 => node(depth - 1).prop_map(|n| Val::Node(Box::new(n))),
        1 => vec(prop_(depth - 1), 0..3).prop_map(Val::Props),
        1 => vec(node(depth - 1), 0..4).prop_map(Val::Items),
    ]
    .boxed()
}
fn attr_subject() -> BoxedStrategy<Subj> {
    prop_oneof![
        2 => Just(Subj::Anon),
        1 => iri().prop_map(Subj::About),
        1 => select(NODE_IDS).prop_map(|s| Subj::NodeId(s.into())),
    ]
    .boxed()
}
fn prop_(depth: u32) -> BoxedStrategy<Prop> {
    (option::weighted(0.9, predicate()), val(depth), some(0.1, select(IDS).prop_map(|s| s.0.into())), base(), lang())
        .prop_map(|(p, val, id, base, lang)| Prop { p, val, id, base, lang })
        .boxed()
}
fn node(depth: u32) -> BoxedStrategy<Node> {
    (subj(), some(0.25, class()), some(0.15, prop_oneof![class(), iri()]), attrs(0..2), vec(prop_(depth), 0..3), base(), lang())
        .prop_map(|(subject, element, ty, attrs, props, base, lang)| Node { subject, element, ty, attrs, props, base, lang })
        .boxed()
}
pub fn doc() -> BoxedStrategy<Doc> {
    (some(0.6, select(BASES).prop_map(String::from)), lang(), vec(node(2), 0..4), any::<u64>())
        .prop_map(|(base, lang, nodes, style)| Doc { base, lang, nodes, style })
        .prop_map(tidy)
        .boxed()
}

/// As many elements as there are statements in a huge graph, or as much text.
pub fn huge_doc() -> BoxedStrategy<Doc> {
    (gens::huge(), any::<u64>())
        .prop_map(|(sts, style)| {
            let node = |s: St| {
                let subject = match s.s {
                    T::I(i) => Subj::About(i),
                    _ => Subj::Anon,
                };
                let val = match s.o {
                    T::I(i) => Val::Resource(i),
                    T::L(Lit::Plain(t) | Lit::Lang(t, _)) => Val::Text(t.chars().filter(|c| xml_char(*c)).collect(), None),
                    _ => Val::Text(String::new(), None),
                };
                let prop = Prop { p: Some(s.p), val, id: None, base: None, lang: None };
                Node { subject, element: None, ty: None, attrs: vec![], props: vec![prop], base: None, lang: None }
            };
            let nodes = sts.into_iter().filter(|s| !splits(&s.p).is_empty() && !reserved(&s.p)).map(node).collect();
            Doc { base: None, lang: None, nodes, style }
        })
        .prop_map(tidy)
        .boxed()
}

/// Many elements, and elements of many elements.
pub fn large_doc() -> BoxedStrategy<Doc> {
    let nodes = prop_oneof![
        2 => vec(node(1), 12..50),
        1 => (node(0), vec(prop_(0), 20..80)).prop_map(|(mut n, p)| {
            n.props = p;
            vec![n]
        }),
        1 => (node(0), vec(node(0), 20..80)).prop_map(|(mut n, items)| {
            n.props = vec![Prop { p: Some(gens::PREDICATES[1].into()), val: Val::Items(items), id: None, base: None, lang: None }];
            vec![n]
        }),
        1 => vec(node(0), 8..40).prop_map(|nodes| {
            // One within another.
            let mut it = nodes.into_iter();
            let mut inner = it.next().unwrap();
            for mut n in it {
                n.props.push(Prop { p: Some(gens::PREDICATES[1].into()), val: Val::Node(Box::new(inner)), id: None, base: None, lang: None });
                inner = n;
            }
            vec![inner]
        }),
    ];
    (some(0.6, select(BASES).prop_map(String::from)), lang(), nodes, any::<u64>())
        .prop_map(|(base, lang, nodes, style)| Doc { base, lang, nodes, style })
        .prop_map(tidy)
        .boxed()
}

/// Make valid what was generated: the values of rdf:ID are distinct, and used only where there is
/// a base, and the attributes of an element are distinct.
pub fn tidy(mut d: Doc) -> Doc {
    let mut t = Tidy(IDS.iter().map(|x| x.0).collect());
    let base = d.base.is_some();
    d.nodes.iter_mut().for_each(|n| t.node(n, base));
    d
}
struct Tidy(HashSet<&'static str>);
impl Tidy {
    fn id(&mut self, id: &str, base: bool) -> bool {
        base && self.0.remove(id)
    }
    fn attrs(a: &mut Vec<(String, String)>) {
        let mut seen = HashSet::new();
        a.retain(|(p, _)| seen.insert(p.clone()));
    }
    fn node(&mut self, n: &mut Node, base: bool) {
        let base = base || n.base.is_some();
        if let Subj::Id(id) = &n.subject
            && !self.id(id, base)
        {
            n.subject = Subj::Anon;
        }
        Self::attrs(&mut n.attrs);
        n.props.iter_mut().for_each(|p| self.prop(p, base));
    }
    fn prop(&mut self, p: &mut Prop, base: bool) {
        let base = base || p.base.is_some();
        if let Some(id) = &p.id
            && !self.id(id, base)
        {
            p.id = None;
        }
        match &mut p.val {
            Val::Node(n) => self.node(n, base),
            Val::Items(v) => v.iter_mut().for_each(|n| self.node(n, base)),
            Val::Props(v) => v.iter_mut().for_each(|p| self.prop(p, base)),
            Val::Attrs(_, _, a) => Self::attrs(a),
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------
// What a document says
// ------------------------------------------------------------------------------------------------

/// The text of an XML literal stands for itself in a marked literal, as its form may vary.
pub const XML_MARK: &str = "\u{1}XML:";

pub struct Says {
    pub out: Vec<St>,
    blanks: usize,
}

#[derive(Clone)]
struct Scope<'a> {
    base: Option<&'a str>,
    lang: Option<&'a str>,
}
impl<'a> Scope<'a> {
    fn with(&self, base: &'a Option<String>, lang: &'a Option<String>) -> Self {
        Self {
            base: base.as_deref().or(self.base),
            lang: match lang.as_deref() {
                None => self.lang,
                Some("") => None,
                l => l,
            },
        }
    }
    fn id(&self, id: &str) -> T {
        let base = self.base.expect("rdf:ID in the scope of a base");
        let base = base.split('#').next().unwrap();
        T::I(format!("{base}#{}", IDS.iter().find(|x| x.0 == id).unwrap().1))
    }
    fn text(&self, t: &str) -> T {
        T::L(match self.lang {
            Some(l) => Lit::Lang(t.into(), l.into()),
            None => Lit::Plain(t.into()),
        })
    }
}

impl Doc {
    pub fn says(&self) -> Vec<St> {
        let mut s = Says { out: vec![], blanks: 0 };
        let scope = Scope { base: None, lang: None }.with(&self.base, &self.lang);
        for n in &self.nodes {
            s.node(n, &scope);
        }
        s.out
    }
}
impl Says {
    fn fresh(&mut self) -> T {
        self.blanks += 1;
        T::B(format!("~{}", self.blanks))
    }
    fn subject(&mut self, s: &Subj, scope: &Scope) -> T {
        match s {
            Subj::Anon => self.fresh(),
            Subj::About(s) => i(s),
            Subj::NodeId(b) => T::B(b.clone()),
            Subj::Id(id) => scope.id(id),
        }
    }
    fn attrs(&mut self, s: &T, ty: &Option<String>, attrs: &[(String, String)], scope: &Scope) {
        if let Some(t) = ty {
            self.out.push(st(s.clone(), &rdf("type"), i(t)));
        }
        for (p, v) in attrs {
            self.out.push(st(s.clone(), p, scope.text(v)));
        }
    }
    fn node(&mut self, n: &Node, outer: &Scope) -> T {
        let scope = outer.with(&n.base, &n.lang);
        let s = self.subject(&n.subject, &scope);
        if let Some(t) = &n.element {
            self.out.push(st(s.clone(), &rdf("type"), i(t)));
        }
        self.attrs(&s, &n.ty, &n.attrs, &scope);
        self.props(&s, &n.props, &scope);
        s
    }
    fn props(&mut self, s: &T, props: &[Prop], scope: &Scope) {
        let mut li = 0;
        for p in props {
            let name = p.p.clone().unwrap_or_else(|| {
                li += 1;
                rdf(&format!("_{li}"))
            });
            let scope = scope.with(&p.base, &p.lang);
            let o = self.val(&p.val, &scope);
            self.out.push(st(s.clone(), &name, o.clone()));
            if let Some(id) = &p.id {
                let r = scope.id(id);
                self.out.push(st(r.clone(), &rdf("type"), T::I(rdf("Statement"))));
                self.out.push(st(r.clone(), &rdf("subject"), s.clone()));
                self.out.push(st(r.clone(), &rdf("predicate"), i(&name)));
                self.out.push(st(r, &rdf("object"), o));
            }
        }
    }
    fn val(&mut self, v: &Val, scope: &Scope) -> T {
        match v {
            Val::Text(t, None) => scope.text(t),
            Val::Text(t, Some(d)) => T::L(Lit::Typed(t.clone(), d.clone())),
            Val::Resource(s) => i(s),
            Val::Ref(b) => T::B(b.clone()),
            Val::Node(n) => self.node(n, scope),
            Val::Props(p) => {
                let s = self.fresh();
                self.props(&s, p, scope);
                s
            }
            Val::Items(v) => {
                let items: Vec<T> = v.iter().map(|n| self.node(n, scope)).collect();
                let mut cells = vec![];
                let mut n = self.blanks;
                let first = gens::list_statements(
                    &items,
                    &mut || {
                        n += 1;
                        T::B(format!("~{n}"))
                    },
                    &mut cells,
                );
                self.blanks = n;
                self.out.extend(cells);
                first
            }
            Val::Attrs(s, t, a) => {
                if matches!(s, Subj::Anon) && t.is_none() && a.is_empty() {
                    return scope.text("");
                }
                let s = self.subject(s, scope);
                self.attrs(&s, t, a, scope);
                s
            }
            Val::Xml(x) => T::L(Lit::Typed(format!("{XML_MARK}{}", xml_events(x)), rdf("XMLLiteral"))),
        }
    }
}

/// A form of XML content in which prefixes do not matter.
pub fn xml_events(x: &[Xml]) -> String {
    fn go(x: &[Xml], out: &mut Vec<String>) {
        for x in x {
            match x {
                Xml::Text(t) => match out.last_mut() {
                    Some(l) if l.starts_with('"') => l.push_str(t),
                    _ if t.is_empty() => {}
                    _ => out.push(format!("\"{t}")),
                },
                Xml::Element(n, ns, a, c) => {
                    let mut a = a.clone();
                    a.sort();
                    out.push(format!("<{} {n} {a:?}", ns.as_deref().unwrap_or("")));
                    go(c, out);
                    out.push("/".into());
                }
            }
        }
    }
    let mut out = vec![];
    go(x, &mut out);
    format!("{out:?}")
}

// ------------------------------------------------------------------------------------------------
// As text
// ------------------------------------------------------------------------------------------------

pub fn attr_text(t: &str, d: &Dice, quote: char) -> String {
    let mut out = String::new();
    for c in t.chars() {
        match c {
            '<' => out += "&lt;",
            '&' => out += d.of(&["&amp;", "&#38;", "&#x26;"]),
            c if c == quote => out += if c == '"' { "&quot;" } else { "&apos;" },
            '\t' | '\n' | '\r' | '\u{85}' | '\u{2028}' => write!(out, "&#{};", c as u32).unwrap(),
            c if d.once_in(12) => write!(out, "&#x{:X};", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out
}

fn content(t: &str, d: &Dice) -> String {
    let mut out = String::new();
    if !t.is_empty() && !t.contains("]]>") && !t.contains(['\r', '\u{85}', '\u{2028}']) && d.once_in(6) {
        return format!("<![CDATA[{t}]]>");
    }
    for c in t.chars() {
        match c {
            '<' => out += d.of(&["&lt;", "&#60;", "<![CDATA[<]]>"]),
            '&' => out += d.of(&["&amp;", "&#38;", "<![CDATA[&]]>"]),
            '>' => out += d.of(&["&gt;", "&#x3e;"]),
            '"' => out += d.of(&["\"", "&quot;"]),
            '\'' => out += d.of(&["'", "&apos;"]),
            '\r' | '\u{85}' | '\u{2028}' => write!(out, "&#{};", c as u32).unwrap(),
            c if d.once_in(20) => write!(out, "&#{};", c as u32).unwrap(),
            c => out.push(c),
        }
        if d.once_in(40) {
            out += d.of(&["<!-- no > text -->", "<?pi data?>"]);
        }
    }
    out
}

/// Declared in the document element; the prefix of the RDF namespace may differ.
const PREFIXES: &[(&str, &str)] = &[
    ("dc", "http://purl.org/dc/elements/1.1/"),
    ("foaf", "http://xmlns.com/foaf/0.1/"),
    ("rdfs", "http://www.w3.org/2000/01/rdf-schema#"),
    ("ns", "http://example.org/ns#"),
    ("ex", "http://example.org/"),
];

struct Write1<'a> {
    d: &'a Dice,
    out: String,
    /// The prefix of the RDF namespace.
    rdf: &'a str,
    /// No default namespaces, as XML literals have elements in no namespace.
    no_default: bool,
}

/// One start tag: the name and attributes, with the declarations they need.
struct Tag {
    name: String,
    attrs: Vec<(String, String)>,
    decls: Vec<(String, String)>,
}

impl Doc {
    pub fn text(&self) -> String {
        let d = Dice::new(self.style);
        let rdf = ["rdf", "r", "R-D.F"][d.pick(3)];
        let mut w = Write1 { d: &d, out: String::new(), rdf, no_default: self.nodes.iter().any(Node::has_bare_xml) };
        w.out += d.of(&["<?xml version=\"1.0\"?>\n", "", "<?xml version='1.0' encoding=\"utf-8\" standalone='yes' ?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- a comment -->\n"]);
        let mut tag = w.tag(RDF, "RDF");
        tag.decls.extend(PREFIXES.iter().map(|(p, n)| (p.to_string(), n.to_string())));
        tag.decls.push((rdf.into(), RDF.into()));
        w.scope(&mut tag, &self.base, &self.lang);
        w.open(&tag, false);
        for n in &self.nodes {
            w.space();
            w.node(n);
        }
        w.space();
        w.close(&tag);
        w.out += d.of(&["", "\n", "\n<!-- the end -->\n"]);
        w.out
    }
}

impl Node {
    fn has_bare_xml(&self) -> bool {
        self.props.iter().any(Prop::has_bare_xml)
    }
}
impl Prop {
    fn has_bare_xml(&self) -> bool {
        fn bare(x: &Xml) -> bool {
            matches!(x, Xml::Element(_, ns, _, c) if ns.is_none() || c.iter().any(bare))
        }
        match &self.val {
            Val::Xml(x) => x.iter().any(bare),
            Val::Node(n) => n.has_bare_xml(),
            Val::Items(v) => v.iter().any(Node::has_bare_xml),
            Val::Props(v) => v.iter().any(Prop::has_bare_xml),
            _ => false,
        }
    }
}

impl Write1<'_> {
    fn space(&mut self) {
        self.out += self.d.of(&["\n", "", "\n  ", " \t", "<!-- - -->", "\n<?pi?>", "\n<!-- <rdf:Description/> -->\n"]);
    }
    fn tag(&self, ns: &str, local: &str) -> Tag {
        let mut t = Tag { name: String::new(), attrs: vec![], decls: vec![] };
        t.name = self.qname(&mut t.decls, ns, local, true);
        t
    }
    /// A name, and maybe a declaration it needs, that is no conflict with those there are.
    fn qname(&self, decls: &mut Vec<(String, String)>, ns: &str, local: &str, element: bool) -> String {
        if let Some((p, _)) = decls.iter().find(|(p, n)| n == ns && (element || !p.is_empty())) {
            return if p.is_empty() { local.into() } else { format!("{p}:{local}") };
        }
        let known = if ns == RDF { Some(self.rdf) } else { PREFIXES.iter().find(|p| p.1 == ns).map(|p| p.0) };
        let free = |p: &str| !decls.iter().any(|(q, _)| p == q);
        match self.d.pick(4) {
            3 if element && !self.no_default && free("") => {
                decls.push((String::new(), ns.into()));
                local.into()
            }
            0 | 1 if known.is_some_and(free) => format!("{}:{local}", known.unwrap()),
            _ => {
                let p = ["q", "w", "_e-.1", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8"].into_iter().find(|p| free(p)).unwrap();
                decls.push((p.into(), ns.into()));
                format!("{p}:{local}")
            }
        }
    }
    fn attr(&self, t: &mut Tag, ns: &str, local: &str, value: &str) {
        let n = self.qname(&mut t.decls, ns, local, false);
        t.attrs.push((n, value.into()));
    }
    fn named(&self, iri: &str) -> (String, String) {
        let s = splits(iri);
        // First the longest name, which is the usual one.
        let (ns, l) = s[if self.d.once_in(4) { self.d.pick(s.len()) } else { 0 }];
        (ns.into(), l.into())
    }
    fn property_attrs(&self, t: &mut Tag, ty: &Option<String>, attrs: &[(String, String)]) {
        if let Some(ty) = ty {
            self.attr(t, RDF, "type", ty);
        }
        for (p, v) in attrs {
            let (ns, l) = self.named(p);
            self.attr(t, &ns, &l, v);
        }
    }
    fn scope(&self, t: &mut Tag, base: &Option<String>, lang: &Option<String>) {
        if let Some(b) = base {
            t.attrs.push(("xml:base".into(), b.clone()));
        }
        if let Some(l) = lang {
            t.attrs.push(("xml:lang".into(), l.clone()));
        }
    }
    fn open(&mut self, t: &Tag, empty: bool) {
        let mut all: Vec<(String, String)> = t
            .decls
            .iter()
            .map(|(p, n)| (if p.is_empty() { "xmlns".into() } else { format!("xmlns:{p}") }, n.clone()))
            .chain(t.attrs.iter().cloned())
            .collect();
        // In any order.
        for n in (1..all.len()).rev() {
            let m = self.d.pick(n + 1);
            if m > 0 {
                all.swap(n, m);
            }
        }
        write!(self.out, "<{}", t.name).unwrap();
        for (n, v) in all {
            let q = if self.d.once_in(3) { '\'' } else { '"' };
            self.out += self.d.of(&[" ", "\n  ", "\t"]);
            let eq = self.d.of(&["=", "=", " = "]);
            let v = attr_text(&v, self.d, q);
            write!(self.out, "{n}{eq}{q}{v}{q}").unwrap();
        }
        self.out += if self.d.once_in(6) { " " } else { "" };
        self.out += if empty { "/>" } else { ">" };
    }
    fn close(&mut self, t: &Tag) {
        write!(self.out, "</{}{}>", t.name, self.d.of(&["", "", " "])).unwrap();
    }
    /// An element with nothing in it.
    fn empty(&mut self, t: &Tag) {
        let short = !self.d.once_in(3);
        self.open(t, short);
        if !short {
            self.close(t);
        }
    }
    fn subject(&self, t: &mut Tag, s: &Subj, about: &str) {
        match s {
            Subj::Anon => {}
            Subj::About(s) => self.attr(t, RDF, about, s),
            Subj::NodeId(b) => self.attr(t, RDF, "nodeID", b),
            Subj::Id(id) => self.attr(t, RDF, "ID", id),
        }
    }
    fn node(&mut self, n: &Node) {
        let (ns, l) = match &n.element {
            Some(t) => self.named(t),
            None => (RDF.into(), "Description".into()),
        };
        let mut t = self.tag(&ns, &l);
        self.subject(&mut t, &n.subject, "about");
        self.property_attrs(&mut t, &n.ty, &n.attrs);
        self.scope(&mut t, &n.base, &n.lang);
        if n.props.is_empty() && !self.d.once_in(3) {
            return self.empty(&t);
        }
        self.open(&t, false);
        self.props(&n.props);
        self.close(&t);
    }
    fn props(&mut self, props: &[Prop]) {
        for p in props {
            self.space();
            self.prop(p);
        }
        self.space();
    }
    fn prop(&mut self, p: &Prop) {
        let (ns, l) = match &p.p {
            Some(p) => self.named(p),
            None => (RDF.into(), "li".into()),
        };
        let mut t = self.tag(&ns, &l);
        if let Some(id) = &p.id {
            self.attr(&mut t, RDF, "ID", id);
        }
        self.scope(&mut t, &p.base, &p.lang);
        match &p.val {
            Val::Text(text, ty) => {
                if let Some(ty) = ty {
                    self.attr(&mut t, RDF, "datatype", ty);
                }
                if text.is_empty() {
                    return self.empty(&t);
                }
                self.open(&t, false);
                self.out += &content(text, self.d);
            }
            Val::Resource(s) => {
                self.attr(&mut t, RDF, "resource", s);
                return self.empty(&t);
            }
            Val::Ref(b) => {
                self.attr(&mut t, RDF, "nodeID", b);
                return self.empty(&t);
            }
            Val::Attrs(s, ty, a) => {
                self.subject(&mut t, s, "resource");
                self.property_attrs(&mut t, ty, a);
                return self.empty(&t);
            }
            Val::Node(n) => {
                self.open(&t, false);
                self.space();
                self.node(n);
                self.space();
            }
            Val::Props(p) => {
                self.attr(&mut t, RDF, "parseType", "Resource");
                if p.is_empty() && self.d.once_in(2) {
                    return self.empty(&t);
                }
                self.open(&t, false);
                self.props(p);
            }
            Val::Items(v) => {
                self.attr(&mut t, RDF, "parseType", "Collection");
                self.open(&t, false);
                for n in v {
                    self.space();
                    self.node(n);
                }
                self.space();
            }
            Val::Xml(x) => {
                self.attr(&mut t, RDF, "parseType", ["Literal", "Literal", "Statement"][self.d.pick(3)]);
                self.open(&t, false);
                self.xml(x);
            }
        }
        self.close(&t);
    }
    fn xml(&mut self, x: &[Xml]) {
        for x in x {
            match x {
                Xml::Text(t) => {
                    // A comment is part of an XML literal.
                    let mut c = content(t, self.d);
                    for s in ["<!-- no > text -->", "<?pi data?>"] {
                        c = c.replace(s, "");
                    }
                    self.out += &c;
                }
                Xml::Element(n, ns, a, c) => {
                    // A prefix has the same meaning everywhere in a literal, see `literal_scopes`.
                    let mut t = match ns {
                        Some(ns) => {
                            let p = format!("l{}", ns.len());
                            Tag { name: format!("{p}:{n}"), attrs: vec![], decls: vec![(p, ns.clone())] }
                        }
                        None => Tag { name: n.clone(), attrs: vec![], decls: vec![] },
                    };
                    t.attrs.extend(a.iter().cloned());
                    self.open(&t, false);
                    self.xml(c);
                    self.close(&t);
                }
            }
        }
    }
}

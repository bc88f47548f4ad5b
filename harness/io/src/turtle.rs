//! W07: Turtle. The reader here is written from the recommendation.

use crate::lines::{Set, blanks, err, hard, make_set, same_graph, same_quads};
use crate::refnt::{Quad, pn_chars};
use objio::{HasOptions, ObjectWriter};
use pbt::proptest::collection::vec;
use pbt::proptest::option;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::graph::Graph;
use rdftk_io::trig::{TrigWriter, TrigWriterOptions};
use rdftk_io::turtle::{TurtleWriter, TurtleWriterOptions};
use rdftk_iri::{IriPrefixMap, Namespace};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::str::FromStr;
use terms::reify::Reifier;
use terms::{Lit, St, T, XSD, gens, iri, make_all, of_graph, rdf, set, st, unescape};

// ------------------------------------------------------------------------------------------------
// References (RFC 3986, section 5)
// ------------------------------------------------------------------------------------------------

struct Parts<'a> {
    scheme: Option<&'a str>,
    authority: Option<&'a str>,
    path: &'a str,
    query: Option<&'a str>,
    fragment: Option<&'a str>,
}

/// The expression of appendix B.
fn parts(s: &str) -> Parts<'_> {
    let (s, fragment) = match s.split_once('#') {
        Some((s, f)) => (s, Some(f)),
        None => (s, None),
    };
    let (s, query) = match s.split_once('?') {
        Some((s, q)) => (s, Some(q)),
        None => (s, None),
    };
    let (scheme, s) = match s.split_once(':') {
        Some((scheme, rest)) if !scheme.is_empty() && !scheme.contains('/') => (Some(scheme), rest),
        _ => (None, s),
    };
    let (authority, path) = match s.strip_prefix("//") {
        Some(s) => {
            let end = s.find('/').unwrap_or(s.len());
            (Some(&s[..end]), &s[end..])
        }
        None => (None, s),
    };
    Parts { scheme, authority, path, query, fragment }
}

fn no_dots(path: &str) -> String {
    let mut input = path.to_string();
    let mut out = String::new();
    while !input.is_empty() {
        if input.starts_with("../") {
            input.drain(..3);
        } else if input.starts_with("./") || input.starts_with("/./") {
            input.drain(..2);
        } else if input == "/." {
            input = "/".into();
        } else if input.starts_with("/../") || input == "/.." {
            input = if input.len() == 3 { "/".into() } else { input[3..].into() };
            out.truncate(out.rfind('/').unwrap_or(0));
        } else if input == "." || input == ".." {
            input.clear();
        } else {
            let end = input[1..].find('/').map_or(input.len(), |e| e + 1);
            out.push_str(&input[..end]);
            input.drain(..end);
        }
    }
    out
}

fn resolve(base: Option<&str>, reference: &str) -> Result<String, String> {
    let r = parts(reference);
    let (scheme, authority, path, query);
    if let Some(s) = r.scheme {
        // Kept as it is; IRIs with a scheme are not resolved against anything.
        let _ = s;
        return Ok(reference.into());
    }
    let base = base.ok_or_else(|| format!("relative reference {reference:?} without a base"))?;
    let b = parts(base);
    scheme = b.scheme.ok_or("relative base")?;
    if r.authority.is_some() {
        (authority, path, query) = (r.authority, no_dots(r.path), r.query);
    } else {
        authority = b.authority;
        if r.path.is_empty() {
            path = b.path.to_string();
            query = r.query.or(b.query);
        } else {
            query = r.query;
            path = if r.path.starts_with('/') {
                no_dots(r.path)
            } else if b.authority.is_some() && b.path.is_empty() {
                no_dots(&format!("/{}", r.path))
            } else {
                let dir = b.path.rfind('/').map_or("", |e| &b.path[..=e]);
                no_dots(&format!("{dir}{}", r.path))
            };
        }
    }
    let mut out = format!("{scheme}:");
    if let Some(a) = authority {
        out += &format!("//{a}");
    }
    out += &path;
    if let Some(q) = query {
        out += &format!("?{q}");
    }
    if let Some(f) = r.fragment {
        out += &format!("#{f}");
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// Reader
// ------------------------------------------------------------------------------------------------

struct P<'a> {
    rest: &'a str,
    base: Option<String>,
    prefixes: BTreeMap<String, String>,
    next_blank: usize,
    out: Vec<St>,
}

/// As `pn_chars`, without `_`, digits, and so on.
fn pn_chars_base(c: char) -> bool {
    crate::refnt::pn_chars_u(c) && c != '_'
}

type Res<V> = Result<V, String>;

impl<'a> P<'a> {
    fn new(rest: &'a str) -> Self {
        Self { rest, base: None, prefixes: Default::default(), next_blank: 0, out: vec![] }
    }
    fn ws(&mut self) {
        loop {
            self.rest = self.rest.trim_start_matches([' ', '\t', '\r', '\n']);
            if !self.rest.starts_with('#') {
                return;
            }
            let end = self.rest.find(['\r', '\n']).unwrap_or(self.rest.len());
            self.rest = &self.rest[end..];
        }
    }
    /// White space, if any, and then this.
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        match self.rest.strip_prefix(s) {
            Some(r) => {
                self.rest = r;
                true
            }
            None => false,
        }
    }
    fn must(&mut self, s: &str) -> Res<()> {
        if self.eat(s) { Ok(()) } else { Err(format!("no {s:?} at {:?}", self.here())) }
    }
    fn here(&self) -> String {
        self.rest.chars().take(30).collect()
    }
    fn peek(&self) -> Option<char> {
        self.rest.chars().next()
    }
    fn fresh(&mut self) -> T {
        self.next_blank += 1;
        T::B(format!("~{}", self.next_blank))
    }

    fn document(mut self) -> Res<Vec<St>> {
        loop {
            self.ws();
            if self.rest.is_empty() {
                return Ok(self.out);
            }
            if !self.directive()? {
                self.triples()?;
                self.must(".")?;
            }
        }
    }
    /// Statements in graphs, and the names of all graphs, as they come.
    fn trig(mut self) -> Res<(Vec<Quad>, Vec<Option<T>>)> {
        let (mut quads, mut names) = (vec![], vec![]);
        loop {
            self.ws();
            if self.rest.is_empty() {
                return Ok((quads, names));
            }
            if self.directive()? {
                continue;
            }
            let name = if self.keyword("GRAPH") {
                self.ws();
                if self.rest.starts_with('{') {
                    return Err("GRAPH without a name".into());
                }
                Some(self.node()?)
            } else if self.rest.starts_with('{') {
                None
            } else {
                let s = self.node()?;
                self.ws();
                if !self.rest.starts_with('{') {
                    self.predicates(&s)?;
                    self.must(".")?;
                    quads.extend(self.out.drain(..).map(|s| (s, None)));
                    continue;
                }
                Some(s)
            };
            self.must("{")?;
            while !self.eat("}") {
                self.triples()?;
                if !self.eat(".") {
                    self.must("}")?;
                    break;
                }
            }
            quads.extend(self.out.drain(..).map(|s| (s, name.clone())));
            names.push(name);
        }
    }
    fn directive(&mut self) -> Res<bool> {
        {
            if self.eat("@prefix") {
                self.prefix()?;
                self.must(".")?;
            } else if self.eat("@base") {
                let i = self.iri_ref()?;
                self.base = Some(i);
                self.must(".")?;
            } else if self.keyword("PREFIX") {
                self.prefix()?;
            } else if self.keyword("BASE") {
                let i = self.iri_ref()?;
                self.base = Some(i);
            } else {
                return Ok(false);
            }
            Ok(true)
        }
    }
    fn node(&mut self) -> Res<T> {
        Ok(match self.blank_label()? {
            Some(b) => b,
            None => T::I(self.iri()?),
        })
    }
    fn keyword(&mut self, k: &str) -> bool {
        let yes = self.rest.get(..k.len()).is_some_and(|w| w.eq_ignore_ascii_case(k))
            && self.rest[k.len()..].starts_with([' ', '\t', '\r', '\n', '#', '<']);
        if yes {
            self.rest = &self.rest[k.len()..];
        }
        yes
    }
    fn prefix(&mut self) -> Res<()> {
        self.ws();
        let p = self.pname_ns()?;
        let i = self.iri_ref()?;
        self.prefixes.insert(p, i);
        Ok(())
    }
    fn pname_ns(&mut self) -> Res<String> {
        let end = self.rest.find(':').ok_or_else(|| format!("no prefix at {:?}", self.here()))?;
        let p = &self.rest[..end];
        let ok = p.is_empty()
            || p.starts_with(pn_chars_base) && !p.ends_with('.') && p.chars().all(|c| pn_chars(c) || c == '.');
        if !ok {
            return Err(format!("prefix {p:?}"));
        }
        self.rest = &self.rest[end + 1..];
        Ok(p.into())
    }
    fn iri_ref(&mut self) -> Res<String> {
        self.must("<")?;
        let end = self.rest.find('>').ok_or("no end of IRI")?;
        let raw = &self.rest[..end];
        self.rest = &self.rest[end + 1..];
        if let Some(c) = raw.chars().find(|c| *c <= ' ' || "<\"{}|^`".contains(*c)) {
            return Err(format!("{c:?} in IRI {raw:?}"));
        }
        let mut left = raw;
        while let Some(at) = left.find('\\') {
            if !left[at + 1..].starts_with(['u', 'U']) {
                return Err(format!("escape in IRI {raw:?}"));
            }
            left = &left[at + 2..];
        }
        resolve(self.base.as_deref(), &unescape(raw)?)
    }
    /// PN_LOCAL, the longest.
    fn local(&mut self) -> Res<String> {
        let mut out = String::new();
        let (mut dots, mut at_dots) = (0, self.rest);
        while let Some(c) = self.peek() {
            let first = out.is_empty();
            let n = c.len_utf8();
            match c {
                '%' => {
                    if self.rest.len() < 3 || !self.rest.as_bytes()[1..3].iter().all(u8::is_ascii_hexdigit) {
                        return Err(format!("% at {:?}", self.here()));
                    }
                    out += &self.rest[..3];
                    self.rest = &self.rest[3..];
                    dots = 0;
                }
                '\\' => {
                    let e = self.rest[1..].chars().next().unwrap_or(' ');
                    if !"_~.-!$&'()*+,;=/?#@%".contains(e) {
                        return Err(format!("escape at {:?}", self.here()));
                    }
                    out.push(e);
                    self.rest = &self.rest[2..];
                    dots = 0;
                }
                '.' if !first => {
                    if dots == 0 {
                        at_dots = self.rest;
                    }
                    dots += 1;
                    out.push('.');
                    self.rest = &self.rest[1..];
                }
                c if c == ':' || c == '_' || c.is_ascii_digit() || pn_chars_base(c) || (!first && pn_chars(c)) => {
                    out.push(c);
                    self.rest = &self.rest[n..];
                    dots = 0;
                }
                _ => break,
            }
        }
        if dots > 0 {
            // Not the last character of a name.
            out.truncate(out.len() - dots);
            self.rest = at_dots;
        }
        Ok(out)
    }
    fn iri(&mut self) -> Res<String> {
        self.ws();
        let text = if self.rest.starts_with('<') {
            self.iri_ref()?
        } else {
            let p = self.pname_ns()?;
            let ns = self.prefixes.get(&p).cloned().ok_or_else(|| format!("prefix {p:?} is not declared"))?;
            format!("{ns}{}", self.local()?)
        };
        // A character and its percent-encoded form are the same in an `Iri`.
        rdftk_iri::Iri::from_str(&text).map(|i| terms::of_iri(&i)).map_err(|e| format!("IRI {text:?}: {e}"))
    }
    fn blank_label(&mut self) -> Res<Option<T>> {
        if !self.eat("_:") {
            return Ok(None);
        }
        let end = self.rest.find(|c| !(pn_chars(c) || c == '.')).unwrap_or(self.rest.len());
        let l = self.rest[..end].trim_end_matches('.');
        if !l.starts_with(|c: char| pn_chars_base(c) || c == '_' || c.is_ascii_digit()) {
            return Err(format!("label at {:?}", self.here()));
        }
        self.rest = &self.rest[l.len()..];
        Ok(Some(T::B(l.into())))
    }

    fn triples(&mut self) -> Res<()> {
        self.ws();
        match self.peek() {
            Some('[') => {
                let (s, full) = self.property_list()?;
                self.ws();
                if !full || !self.rest.starts_with('.') {
                    self.predicates(&s)?;
                }
                Ok(())
            }
            Some('(') => Err("a collection is a subject".into()),
            _ => {
                let s = self.node()?;
                self.predicates(&s)
            }
        }
    }
    /// A new node, and whether anything is said of it.
    fn property_list(&mut self) -> Res<(T, bool)> {
        self.must("[")?;
        let b = self.fresh();
        if self.eat("]") {
            return Ok((b, false));
        }
        self.predicates(&b)?;
        self.must("]")?;
        Ok((b, true))
    }
    fn predicates(&mut self, s: &T) -> Res<()> {
        loop {
            self.ws();
            let p = if self.rest.starts_with('a') && self.rest[1..].starts_with([' ', '\t', '\r', '\n', '<', '"', '[', '(', '_']) {
                self.rest = &self.rest[1..];
                rdf("type")
            } else {
                self.iri()?
            };
            loop {
                let o = self.object()?;
                self.out.push(st(s.clone(), &p, o));
                if !self.eat(",") {
                    break;
                }
            }
            if !self.eat(";") {
                return Ok(());
            }
            while self.eat(";") {}
            self.ws();
            if self.rest.starts_with(['.', ']']) {
                return Ok(());
            }
        }
    }
    fn object(&mut self) -> Res<T> {
        self.ws();
        match self.peek() {
            Some('[') => Ok(self.property_list()?.0),
            Some('(') => {
                self.must("(")?;
                let mut all = vec![];
                while !self.eat(")") {
                    all.push(self.object()?);
                }
                Ok(T::C(all))
            }
            Some('"' | '\'') => self.string().map(T::L),
            Some('+' | '-' | '.' | '0'..='9') => self.number().map(T::L),
            _ => {
                for b in ["true", "false"] {
                    if self.rest.starts_with(b) && !self.rest[b.len()..].starts_with(|c| pn_chars(c) || c == ':') {
                        self.rest = &self.rest[b.len()..];
                        return Ok(T::L(Lit::Typed(b.into(), format!("{XSD}boolean"))));
                    }
                }
                self.node()
            }
        }
    }
    fn number(&mut self) -> Res<Lit> {
        let all = self.rest;
        let b = all.as_bytes();
        let digits = |mut at: usize| {
            while b.get(at).is_some_and(u8::is_ascii_digit) {
                at += 1;
            }
            at
        };
        let start = usize::from(matches!(b[0], b'+' | b'-'));
        let int = digits(start);
        let frac = if b.get(int) == Some(&b'.') { digits(int + 1) } else { int };
        // A dot at the end is of a number only if an exponent follows.
        let exponent = |at: usize| {
            if !matches!(b.get(at), Some(b'e' | b'E')) {
                return None;
            }
            let at = at + 1 + usize::from(matches!(b.get(at + 1), Some(b'+' | b'-')));
            Some(digits(at)).filter(|e| *e > at)
        };
        let digits_seen = int > start || frac > int + 1;
        let (end, t) = match exponent(frac).filter(|_| digits_seen) {
            Some(end) => (end, "double"),
            None if frac > int + 1 => (frac, "decimal"),
            None if int > start => (int, "integer"),
            None => return Err(format!("number at {:?}", self.here())),
        };
        self.rest = &all[end..];
        Ok(Lit::Typed(all[..end].into(), format!("{XSD}{t}")))
    }
    fn string(&mut self) -> Res<Lit> {
        let q = self.peek().unwrap();
        let long: String = [q; 3].iter().collect();
        let (delimiter, is_long) = if self.rest.starts_with(&long) { (long, true) } else { (q.to_string(), false) };
        self.rest = &self.rest[delimiter.len()..];
        let mut raw = String::new();
        loop {
            if self.rest.starts_with(&delimiter) {
                self.rest = &self.rest[delimiter.len()..];
                break;
            }
            let c = self.peek().ok_or("no end of string")?;
            self.rest = &self.rest[c.len_utf8()..];
            match c {
                '\\' => {
                    let c = self.peek().ok_or("no end of string")?;
                    raw.push('\\');
                    raw.push(c);
                    self.rest = &self.rest[c.len_utf8()..];
                }
                '\n' | '\r' if !is_long => return Err("end of line in a string".into()),
                // As the function for escapes takes the strings of N-Triples only.
                '\n' => raw += "\\n",
                '\r' => raw += "\\r",
                '"' => raw += "\\\"",
                c => raw.push(c),
            }
        }
        let text = unescape(&raw)?;
        if let Some(r) = self.rest.strip_prefix('@') {
            let end = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(r.len());
            let l = &r[..end];
            let mut tags = l.split('-');
            let first = tags.next().unwrap_or("");
            if first.is_empty() || !first.bytes().all(|b| b.is_ascii_alphabetic()) || tags.any(str::is_empty) {
                return Err(format!("language {l:?}"));
            }
            self.rest = &r[end..];
            return Ok(Lit::Lang(text, l.into()));
        }
        if self.rest.starts_with("^^") {
            self.rest = &self.rest[2..];
            return Ok(Lit::Typed(text, self.iri()?));
        }
        Ok(Lit::Plain(text))
    }
}

/// With collections as the statements they stand for, in Turtle.
pub fn flatten(sts: Vec<St>) -> Vec<St> {
    fn term(t: T, n: &mut usize, out: &mut Vec<St>) -> T {
        let T::C(items) = t else { return t };
        let items: Vec<T> = items.into_iter().map(|t| term(t, n, out)).collect();
        let mut fresh = || {
            *n += 1;
            T::B(format!("~~{n}"))
        };
        gens::list_statements(&items, &mut fresh, out)
    }
    let (mut n, mut out) = (0, vec![]);
    for s in sts {
        let o = term(s.o, &mut n, &mut out);
        out.push(St { o, ..s });
    }
    out
}

pub fn parse_trig(text: &str) -> Res<(Vec<Quad>, Vec<Option<T>>)> {
    P::new(text).trig()
}

pub fn parse(text: &str) -> Res<Vec<St>> {
    P::new(text).document()
}

// ------------------------------------------------------------------------------------------------
// Cases
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Style {
    base: Option<String>,
    convert: Option<String>,
    nest: bool,
    sparql: bool,
    intellij: bool,
    type_on_line: bool,
    indent: usize,
    padding: bool,
    prefixes: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    sts: Vec<St>,
    style: Style,
}

const BASES: &[&str] = &[
    "http://example.org/",
    "http://example.org/ns#",
    "http://example.org/ns/",
    "http://example.org/a",
    "http://example.org/a#",
    "https://example.org:8080/x/y?q=1&r=2#",
    "https://example.org:8080/x/y?q=/",
    "http://example.org/p/#/",
    "http://example.org/x#y/",
    "http://other.org/x/",
    "urn:isbn:",
    "urn:example:a/",
    "mailto:me@example.org",
];

const NAMESPACES: &[&str] = &[
    "http://example.org/",
    "http://example.org/ns#",
    "http://example.org/ns/",
    "http://example.org/a#",
    "http://example.org/a",
    "http://example.org/?q={a|b}^`c#",
    "http://purl.org/dc/elements/1.1/",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "http://www.w3.org/2001/XMLSchema#",
    "http://www.w3.org/2000/01/rdf-schema#",
    "urn:isbn:",
    "http://other.org/x/",
];

fn styles() -> BoxedStrategy<Style> {
    let prefix = prop_oneof![1 => Just(String::new()), 6 => select(&["a", "b", "rdf", "ex", "E-x", "a.b", "\u{e9}", "true", "xsd"][..]).prop_map(String::from)];
    let prefixes = vec((prefix, select(NAMESPACES).prop_map(String::from)), 0..5);
    let flags = (any::<bool>(), prop::bool::weighted(0.2), prop::bool::weighted(0.2), prop::bool::weighted(0.2), any::<bool>());
    (
        option::weighted(0.5, select(BASES).prop_map(String::from)),
        option::weighted(0.15, select(NAMESPACES).prop_map(String::from)),
        flags,
        prop_oneof![3 => Just(4), 2 => 1usize..9, 1 => Just(0)],
        prefixes,
    )
        .prop_map(|(base, convert, (nest, sparql, intellij, type_on_line, padding), indent, prefixes)| Style {
            base,
            convert,
            nest,
            sparql,
            intellij,
            type_on_line,
            indent,
            padding,
            prefixes,
        })
        .boxed()
}

/// What is special in Turtle: predicates in groups, names and references of every shape, numbers.
fn special() -> BoxedStrategy<St> {
    let name = || {
        prop_oneof![
            4 => select(&["a", "b", "name", "a.b", "a.", "a:b", "a/b", "1a", "-a", "", "%41", "%E9", "\u{e9}", "true", "a(b)", "x~y", "a?b", "?q", "?", "#f", "//a", "a%20b", "_1"][..]).prop_map(String::from),
            1 => "[a-z0-9A-Z_.:/?#%~!$&'()*+,;=@-]{0,5}",
        ]
    };
    let any = move || {
        (prop_oneof![3 => select(NAMESPACES), 2 => select(BASES)], name())
            .prop_filter_map("normalised", |(ns, n)| Some(format!("{ns}{n}")).filter(|s| iri(s).is_ok()))
    };
    let verb = select(vec![
        rdf("type"),
        "http://www.w3.org/2000/01/rdf-schema#subClassOf".into(),
        "http://www.w3.org/2000/01/rdf-schema#label".into(),
        "http://www.w3.org/2000/01/rdf-schema#comment".into(),
        "http://www.w3.org/2004/02/skos/core#prefLabel".into(),
        "http://purl.org/dc/elements/1.1/title".into(),
        "http://www.w3.org/2002/07/owl#equivalentClass".into(),
    ]);
    let number = (
        prop_oneof!["[+-]?[0-9]{0,2}(\\.[0-9]{0,2})?([eE][+-]?[0-9]{0,2})?", select(&["true", "false", "TRUE", "INF", "-INF", "NaN", "1e", "e1", ".e1", "1.", "", " 1"][..]).prop_map(String::from)],
        select(&["decimal", "double", "integer", "boolean", "float", "int", "string"][..]),
    )
        .prop_map(|(t, d)| T::L(Lit::Typed(t, format!("{XSD}{d}"))));
    let node = || prop_oneof![any().prop_map(T::I), select(&["a", "b", "c"][..]).prop_map(|b| T::B(b.into()))];
    (node(), prop_oneof![1 => verb, 1 => any()], prop_oneof![2 => node(), 1 => number]).prop_map(|(s, p, o)| St { s, p, o }).boxed()
}

fn flat() -> BoxedStrategy<Vec<St>> {
    vec(prop_oneof![2 => gens::flat_statement(), 2 => gens::dense_statement(), 2 => blanks(), 3 => special()], 0..9).boxed()
}

/// Collections, of blank nodes mostly.
fn lists() -> BoxedStrategy<St> {
    let b = || select(&["a", "b", "c", "d"][..]).prop_map(|b| T::B(b.into()));
    let member = prop_oneof![3 => b(), 1 => gens::near_literal().prop_map(T::L), 1 => Just(T::I(gens::IRIS[0].into()))];
    let list = member.prop_recursive(2, 8, 3, |m| vec(m, 0..3).prop_map(T::C).boxed());
    (prop_oneof![2 => b(), 1 => Just(T::I(gens::IRIS[1].into()))], select(&gens::PREDICATES[..3]).prop_map(String::from), list)
        .prop_map(|(s, p, o)| St { s, p, o })
        .boxed()
}

fn nested() -> BoxedStrategy<Vec<St>> {
    vec(prop_oneof![2 => gens::statement(2), 1 => gens::dense_statement(), 2 => lists(), 1 => blanks()], 0..6).boxed()
}

fn cases(sts: BoxedStrategy<Vec<St>>) -> BoxedStrategy<Case> {
    (sts, styles()).prop_map(|(sts, style)| Case { sts, style }).boxed()
}

// ------------------------------------------------------------------------------------------------
// The property
// ------------------------------------------------------------------------------------------------

fn options(s: &Style) -> Result<TurtleWriterOptions, Fail> {
    let mut o = TurtleWriterOptions::default().with_predicate_padding(s.padding);
    // A width of zero may be refused.
    match pbt::no_panic(|| TurtleWriterOptions::default().with_indent_width(s.indent)) {
        Ok(set) => o = o.with_indent_width(set.indent_width()),
        Err(_) if s.indent == 0 => {}
        Err(e) => return Err(Fail::new(format!("indent of {}: {e}", s.indent))),
    }
    if let Some(b) = &s.base {
        o = o.with_id_base(iri(b)?);
    }
    if s.sparql {
        o = o.with_sparql_style();
    }
    if s.intellij {
        let n = o.indent_width();
        o = o.with_intellij_style();
        o.set_indent_width(n);
    }
    if !s.nest {
        o = o.without_nested_blank_nodes();
    }
    o.set_place_type_on_subject_line(s.type_on_line);
    if let Some(c) = &s.convert {
        o.set_convert_to_id_base(iri(c)?);
    }
    Ok(o)
}

fn map(s: &Style) -> Result<IriPrefixMap, Fail> {
    let mut m = IriPrefixMap::empty();
    for (p, ns) in &s.prefixes {
        if p.is_empty() {
            m.set_default_namespace(iri(ns)?);
        } else {
            m.insert(Namespace::from_str(&format!("{p}:")).map_err(err)?, iri(ns)?);
        }
    }
    Ok(m)
}

fn has_statement(t: &T) -> bool {
    let mut yes = false;
    t.walk(&mut |t| yes |= matches!(t, T::S(_)));
    yes
}

fn map_iris(t: &mut T, f: &dyn Fn(&mut String)) {
    match t {
        T::I(i) => f(i),
        T::L(Lit::Typed(_, d)) => f(d),
        T::C(c) => c.iter_mut().for_each(|t| map_iris(t, f)),
        _ => {}
    }
}

/// What the text has to say.
fn expected(c: &Case) -> Vec<St> {
    expected_of(&c.sts, &c.style, &mut Reifier::new())
}

fn expected_of(sts: &[St], style: &Style, r: &mut Reifier) -> Vec<St> {
    for s in sts {
        if has_statement(&s.s) || has_statement(&s.o) {
            let (sub, obj) = (r.term(&s.s), r.term(&s.o));
            r.out.push(st(sub, &s.p, obj));
        } else {
            r.out.push(s.clone());
        }
    }
    let mut out = std::mem::take(&mut r.out);
    if let (Some(base), Some(from)) = (&style.base, &style.convert) {
        let f = |i: &mut String| {
            if let Some(rest) = i.strip_prefix(from.as_str()) {
                *i = format!("{base}{rest}");
                if let Ok(n) = rdftk_iri::Iri::from_str(i) {
                    *i = terms::of_iri(&n);
                }
            }
        };
        for s in &mut out {
            map_iris(&mut s.s, &f);
            f(&mut s.p);
            map_iris(&mut s.o, &f);
        }
    }
    out
}

/// Numbers, booleans, and strings in XSD types may be in a short form; conversions then have no say.
fn unclear(style: &Style) -> bool {
    style.base.is_some() && style.convert.as_deref().is_some_and(|f| XSD.starts_with(f))
}

fn round(c: &Case) -> R {
    if unclear(&c.style) {
        return Ok(false);
    }
    let mut g = Graph::from(make_all(&c.sts)?);
    g.set_prefix_mappings(map(&c.style)?);
    let before = of_graph(&g)?;
    let w = TurtleWriter::default().with_options(options(&c.style)?);
    let want = expected(c);
    let converted = c.style.base.is_some() && c.style.convert.is_some();
    for n in 0..2 {
        let text = w.write_to_string(&g).map_err(err)?;
        let got = parse(&text).map_err(|e| Fail::new(format!("not Turtle: {e}\n{text}")))?;
        same_graph(&got, &want, &format!("what Turtle says, written {}\n{text}\n", ["first", "again"][n]))?;
        if !converted {
            ensure_eq!(got.len(), set(&got).len(), "number of statements, each written once, of {text}");
        }
        if c.style.base.is_none() {
            ensure!(!text.lines().any(|l| l.starts_with("@base") || l.starts_with("BASE")), "base without the option: {text}");
        }
        if got.iter().any(|s| matches!(&s.o, T::B(b) if b.starts_with('~'))) {
            label("nested");
            ensure!(c.style.nest, "blank nodes are nested without the option: {text}");
        }
    }
    ensure_eq!(of_graph(&g)?, before, "the graph written");
    Ok(!c.sts.is_empty() && hard(&c.sts))
}

// ------------------------------------------------------------------------------------------------
// W11
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TrigCase {
    graphs: Set,
    style: Style,
    omit: bool,
}

fn trig_cases(sts: fn() -> BoxedStrategy<Vec<St>>) -> BoxedStrategy<TrigCase> {
    let name = option::weighted(0.75, prop_oneof![
        3 => select(vec![T::B("a".into()), T::B("b".into()), T::B("g".into()), terms::i(gens::IRIS[0]), terms::i(gens::IRIS[11])]),
        1 => gens::node(),
    ]);
    (vec((name, sts()), 0..4), styles(), any::<bool>())
        .prop_map(|(graphs, mut style, omit)| {
            // Names of graphs are not converted.
            style.convert = None;
            TrigCase { graphs, style, omit }
        })
        .boxed()
}

fn large() -> BoxedStrategy<Vec<St>> {
    prop_oneof![3 => gens::large(), 1 => gens::large_nested(), 1 => vec(prop_oneof![1 => blanks(), 2 => special(), 1 => lists()], 15..60)].boxed()
}

fn huge_graph() -> BoxedStrategy<TrigCase> {
    (crate::lines::names(), gens::huge(), styles(), any::<bool>()).prop_map(|(name, sts, style, omit)| TrigCase { graphs: vec![(name, sts)], style, omit }).boxed()
}

fn many_graphs() -> BoxedStrategy<TrigCase> {
    (crate::lines::large_sets(), styles(), any::<bool>())
        .prop_map(|(graphs, mut style, omit)| {
            style.convert = None;
            TrigCase { graphs, style, omit }
        })
        .boxed()
}

/// Documents written one after another by the same writer, some to a stream that fails.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sequence {
    style: Style,
    trig: bool,
    /// Each with the part of it after which the stream fails, if it does.
    documents: Vec<(Vec<St>, Option<u16>)>,
    seed: u64,
}

pub fn sequences() -> BoxedStrategy<Sequence> {
    let sts = || prop_oneof![3 => small(6), 2 => nested(), 1 => flat()];
    (styles(), any::<bool>(), vec((sts(), option::weighted(0.5, any::<u16>())), 2..6), any::<u64>())
        .prop_map(|(mut style, trig, documents, seed)| {
            style.convert = None;
            Sequence { style, trig, documents, seed }
        })
        .boxed()
}

/// What each says does not depend on what was written before, or was not because the stream failed.
pub fn in_sequence(c: &Sequence) -> R {
    let turtle = || -> Result<_, Fail> { Ok(TurtleWriter::default().with_options(options(&c.style)?)) };
    let trig = || -> Result<_, Fail> { Ok(TrigWriter::default().with_options(TrigWriterOptions::from(options(&c.style)?))) };
    let (one, other) = (turtle()?, trig()?);
    let mut failed = false;
    let mut after = false;
    for (n, (sts, fails)) in c.documents.iter().enumerate() {
        let mut g = Graph::from(make_all(sts)?);
        g.set_prefix_mappings(map(&c.style)?);
        if let Some(at) = fails {
            let whole = if c.trig { trig()?.write_to_string(&g) } else { turtle()?.write_to_string(&g) }.map_err(err)?;
            // The order may be another the next time, but the length is not far from this.
            let mut rough = crate::robust::Rough::new(c.seed ^ n as u64, &[], Some(whole.len() * *at as usize / 65536));
            let r = if c.trig { other.write(&mut rough, &g) } else { one.write(&mut rough, &g) };
            ensure!(r.is_err() == rough.failed, "{r:?}, and the stream failed: {}", rough.failed);
            failed |= rough.failed;
        } else {
            let text = if c.trig { other.write_to_string(&g) } else { one.write_to_string(&g) }.map_err(err)?;
            let (got, wrong) = if c.trig {
                let q = parse_trig(&text).map_err(|e| Fail::new(format!("document {n} is not TriG: {e}\n{text}")))?.0;
                let wrong = q.iter().any(|q| q.1.is_some());
                (q.into_iter().map(|q| q.0).collect(), wrong)
            } else {
                (parse(&text).map_err(|e| Fail::new(format!("document {n} is not Turtle: {e}\n{text}")))?, false)
            };
            ensure!(!wrong, "document {n} has a named graph: {text}");
            let want = expected(&Case { sts: sts.clone(), style: c.style.clone() });
            same_graph(&got, &want, &format!("what document {n}, of one writer, says\n{text}\n"))?;
            after |= failed && !sts.is_empty();
        }
    }
    if after {
        label("after a failure");
    }
    Ok(after)
}

fn small(n: usize) -> BoxedStrategy<Vec<St>> {
    vec(prop_oneof![2 => gens::dense_statement(), 3 => blanks(), 1 => special(), 1 => lists()], 0..n).boxed()
}

fn trig_round(c: &TrigCase) -> R {
    let (mut d, model) = make_set(&c.graphs)?;
    let names: Vec<Option<T>> = model.iter().map(|(n, _)| n.clone()).collect();
    for n in &names {
        let n = n.as_ref().map(|n| n.graph_name()).transpose()?;
        if let Some(g) = d.graph_mut(&n) {
            g.set_prefix_mappings(map(&c.style)?);
        }
    }
    let mut w = TrigWriter::default();
    w.set_options(TrigWriterOptions::from(options(&c.style)?).with_omit_graph_keyword(c.omit));
    let mut r = Reifier::new();
    let mut want: Vec<Quad> = vec![];
    for (n, sts) in &model {
        want.extend(expected_of(sts, &c.style, &mut r).into_iter().map(|s| (s, n.clone())));
    }
    let check = |text: &str, want: &[Quad], names: &[Option<T>]| -> Result<(), Fail> {
        let (got, mut all) = parse_trig(text).map_err(|e| Fail::new(format!("not TriG: {e}\n{text}")))?;
        same_quads(&got, want, &format!("what TriG says\n{text}\n"))?;
        let distinct: std::collections::BTreeSet<_> = got.iter().collect();
        ensure_eq!(got.len(), distinct.len(), "number of statements, each written once, of {text}");
        let mut names = names.to_vec();
        // The default graph need not be there if it is empty.
        all.retain(|n| n.is_some());
        names.retain(|n| n.is_some());
        all.sort();
        names.sort();
        ensure_eq!(all, names, "names of the graphs of {text}");
        ensure!(!c.omit || !text.lines().any(|l| l.starts_with("GRAPH ")), "keyword without the option: {text}");
        Ok(())
    };
    let text = w.write_to_string(&d).map_err(err)?;
    check(&text, &want, &names)?;
    for n in &names {
        let key = n.as_ref().map(|n| n.graph_name()).transpose()?;
        let g = d.graph(&key).ok_or_else(|| Fail::new(format!("no graph {n:?}")))?;
        let text = w.write_to_string(g).map_err(err)?;
        let want: Vec<Quad> = want.iter().filter(|q| q.1 == *n).cloned().collect();
        check(&text, &want, &[n.clone()])?;
    }
    Ok(want.iter().any(|q| q.1.is_some()))
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "W07",
        rule: "Graphs of up to 8 statements (flat, or nested to depth 2) under random writer options and prefix maps, written twice; the text is read by a reader of its own, written from the recommendation, and has to say the same statements, each once. Non-trivial: at least one statement, and a term that needs escaping, a type, a language, a label, or nesting. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
        assumptions: &["the crate's own Turtle reader is not implemented", "a character and its percent-encoded form are the same in an Iri"],
        facets: vec![
            Box::new(Gen { name: "flat", quick: 40_000, thorough: 1_500_000, strategy: || cases(flat()), test: round }),
            Box::new(Gen { name: "nested", quick: 30_000, thorough: 1_000_000, strategy: || cases(nested()), test: round }),
            Box::new(Gen { name: "large", quick: 1_600, thorough: 20_000, strategy: || cases(large()), test: round }),
            Box::new(Gen { name: "huge", quick: 60, thorough: 1_000, strategy: || cases(gens::huge()), test: round }),
        ],
    },
    Property {
        id: "W11",
        rule: "Data sets of up to 3 graphs, whose names may be blank nodes that also occur within, under random options and prefix maps; the text is read by a reader of its own, and has to say the same quads, each once; and each graph by itself. Non-trivial: some statement is in a named graph. Large ones: of graphs of up to 330 statements, and of up to 80 graphs. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
        assumptions: &["the crate's own TriG reader is not implemented", "blank nodes in the statements of a data set are the same in all its graphs"],
        facets: vec![
            Box::new(Gen { name: "dense", quick: 30_000, thorough: 1_000_000, strategy: || trig_cases(|| small(5)), test: trig_round }),
            Box::new(Gen { name: "flat", quick: 10_000, thorough: 300_000, strategy: || trig_cases(flat), test: trig_round }),
            Box::new(Gen { name: "nested", quick: 10_000, thorough: 300_000, strategy: || trig_cases(nested), test: trig_round }),
            Box::new(Gen { name: "large", quick: 800, thorough: 10_000, strategy: || trig_cases(large), test: trig_round }),
            Box::new(Gen { name: "many", quick: 800, thorough: 10_000, strategy: many_graphs, test: trig_round }),
            Box::new(Gen { name: "huge", quick: 40, thorough: 1_000, strategy: huge_graph, test: trig_round }),
        ],
    }]
}

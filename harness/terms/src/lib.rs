//! Plain-data RDF terms with generators, conversions to and from rdftk_core, and graph
//! isomorphism. Comparisons are made on this data, never with rdftk_core's own `==`.

pub mod gens;
pub mod iso;
pub mod reify;

use pbt::Fail;
use rdftk_core::model::graph::{Graph, GraphName};
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_core::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
use rdftk_iri::Iri;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Lit {
    Plain(String),
    Lang(String, String),
    /// Text, and the IRI of the data type.
    Typed(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum T {
    B(String),
    I(String),
    L(Lit),
    C(Vec<T>),
    S(Box<St>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct St {
    pub s: T,
    pub p: String,
    pub o: T,
}

pub fn i(s: &str) -> T {
    T::I(s.to_string())
}
pub fn rdf(n: &str) -> String {
    format!("{RDF}{n}")
}
pub fn st(s: T, p: &str, o: T) -> St {
    St { s, p: p.to_string(), o }
}

/// The data types rdftk_core has a name for, with their IRIs from the specifications.
pub fn data_types() -> Vec<(DataType, String)> {
    let x = |n: &str| format!("{XSD}{n}");
    vec![
        (DataType::Iri, x("anyURI")),
        (DataType::Base64Binary, x("base64Binary")),
        (DataType::Boolean, x("boolean")),
        (DataType::Date, x("date")),
        (DataType::DateTime, x("dateTime")),
        (DataType::Decimal, x("decimal")),
        (DataType::Double, x("double")),
        (DataType::Duration, x("duration")),
        (DataType::Float, x("float")),
        (DataType::HexBinary, x("hexBinary")),
        (DataType::QName, x("QName")),
        (DataType::String, x("string")),
        (DataType::Time, x("time")),
        (DataType::Long, x("long")),
        (DataType::Int, x("int")),
        (DataType::Short, x("short")),
        (DataType::Byte, x("byte")),
        (DataType::UnsignedLong, x("unsignedLong")),
        (DataType::UnsignedInt, x("unsignedInt")),
        (DataType::UnsignedShort, x("unsignedShort")),
        (DataType::UnsignedByte, x("unsignedByte")),
        (DataType::Language, x("language")),
        (DataType::Name, x("Name")),
        (DataType::XmlLiteral, format!("{RDF}XMLLiteral")),
    ]
}

// ------------------------------------------------------------------------------------------------
// To rdftk
// ------------------------------------------------------------------------------------------------

pub fn iri(s: &str) -> Result<Iri, Fail> {
    let i = Iri::from_str(s).map_err(|e| Fail::new(format!("IRI {s:?} is rejected: {e}")))?;
    // All the IRIs generated are in the form an `Iri` keeps.
    if AsRef::<str>::as_ref(&i) != s {
        return Err(Fail::new(format!("IRI {s:?} is read as {i}")));
    }
    Ok(i)
}

pub fn blank(s: &str) -> Result<BlankNode, Fail> {
    BlankNode::from_str(s).map_err(|e| Fail::new(format!("generated label {s:?} is rejected: {e}")))
}

pub fn data_type(s: &str) -> Result<DataType, Fail> {
    match data_types().into_iter().find(|(_, i)| i == s) {
        Some((d, _)) => Ok(d),
        None => Ok(DataType::Other(iri(s)?)),
    }
}

impl Lit {
    pub fn make(&self) -> Result<Literal, Fail> {
        Ok(match self {
            Lit::Plain(t) => Literal::plain(t),
            Lit::Lang(t, l) => Literal::with_language(
                t,
                LanguageTag::from_str(l).map_err(|e| Fail::new(format!("language {l}: {e}")))?,
            ),
            Lit::Typed(t, d) => Literal::with_data_type(t, data_type(d)?),
        })
    }
    pub fn of(l: &Literal) -> Result<Lit, Fail> {
        let t = unescape(l.lexical_form()).map_err(|e| {
            Fail::new(format!("lexical form {:?} is not an N-Triples string: {e}", l.lexical_form()))
        })?;
        Ok(match (l.data_type(), l.language()) {
            (None, None) => Lit::Plain(t),
            (None, Some(l)) => Lit::Lang(t, l.to_string()),
            (Some(d), None) => Lit::Typed(t, of_data_type(d)),
            (Some(_), Some(_)) => return Err(Fail::new("literal with both data type and language")),
        })
    }
    pub fn text(&self) -> &str {
        match self {
            Lit::Plain(t) | Lit::Lang(t, _) | Lit::Typed(t, _) => t,
        }
    }
}

pub fn of_data_type(d: &DataType) -> String {
    match d {
        DataType::Other(i) => of_iri(i),
        d => data_types().into_iter().find(|(e, _)| e == d).map(|(_, i)| i).unwrap(),
    }
}

pub fn of_iri(i: &Iri) -> String {
    AsRef::<str>::as_ref(i).to_string()
}

pub fn of_blank(b: &BlankNode) -> String {
    AsRef::<str>::as_ref(b).to_string()
}

impl T {
    pub fn subject(&self) -> Result<SubjectNode, Fail> {
        Ok(match self {
            T::B(b) => blank(b)?.into(),
            T::I(i) => iri(i)?.into(),
            T::S(s) => s.make()?.into(),
            _ => return Err(Fail::new("not a subject")),
        })
    }
    pub fn object(&self) -> Result<ObjectNode, Fail> {
        Ok(match self {
            T::B(b) => blank(b)?.into(),
            T::I(i) => iri(i)?.into(),
            T::L(l) => l.make()?.into(),
            T::C(c) => {
                Collection::from(c.iter().map(|o| o.object()).collect::<Result<Vec<_>, _>>()?).into()
            }
            T::S(s) => s.make()?.into(),
        })
    }
    pub fn graph_name(&self) -> Result<GraphName, Fail> {
        Ok(match self {
            T::B(b) => blank(b)?.into(),
            T::I(i) => iri(i)?.into(),
            _ => return Err(Fail::new("not a graph name")),
        })
    }
    pub fn of_subject(s: &SubjectNode) -> Result<T, Fail> {
        Ok(match s {
            SubjectNode::Blank(b) => T::B(of_blank(b)),
            SubjectNode::Resource(i) => T::I(of_iri(i)),
            SubjectNode::Statement(s) => T::S(Box::new(St::of(s)?)),
        })
    }
    pub fn of_object(o: &ObjectNode) -> Result<T, Fail> {
        Ok(match o {
            ObjectNode::Blank(b) => T::B(of_blank(b)),
            ObjectNode::Resource(i) => T::I(of_iri(i)),
            ObjectNode::Literal(l) => T::L(Lit::of(l)?),
            ObjectNode::Collection(c) => {
                T::C(c.iter().map(T::of_object).collect::<Result<_, _>>()?)
            }
            ObjectNode::Statement(s) => T::S(Box::new(St::of(s)?)),
        })
    }
    pub fn of_graph_name(n: &GraphName) -> T {
        match n {
            GraphName::BNode(b) => T::B(of_blank(b)),
            GraphName::Iri(i) => T::I(of_iri(i)),
        }
    }
    pub fn is_flat(&self) -> bool {
        !matches!(self, T::C(_) | T::S(_))
    }
    /// Visit this term and every term within it.
    pub fn walk(&self, f: &mut dyn FnMut(&T)) {
        f(self);
        match self {
            T::C(c) => c.iter().for_each(|t| t.walk(f)),
            T::S(s) => {
                s.s.walk(f);
                s.o.walk(f);
            }
            _ => {}
        }
    }
}

impl St {
    pub fn make(&self) -> Result<Statement, Fail> {
        Ok(Statement::new(self.s.subject()?, iri(&self.p)?, self.o.object()?))
    }
    pub fn of(s: &Statement) -> Result<St, Fail> {
        Ok(St {
            s: T::of_subject(s.subject())?,
            p: of_iri(s.predicate()),
            o: T::of_object(s.object())?,
        })
    }
    pub fn is_flat(&self) -> bool {
        self.s.is_flat() && self.o.is_flat()
    }
}

pub fn make_all(sts: &[St]) -> Result<Vec<Statement>, Fail> {
    sts.iter().map(St::make).collect()
}

/// The statements of a graph, in order of their data.
pub fn of_graph(g: &Graph) -> Result<Vec<St>, Fail> {
    let mut v = g.statements().map(St::of).collect::<Result<Vec<_>, _>>()?;
    v.sort();
    Ok(v)
}

pub fn sorted(mut v: Vec<St>) -> Vec<St> {
    v.sort();
    v
}
pub fn set(v: &[St]) -> Vec<St> {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v
}

/// Replace the escapes of an N-Triples STRING_LITERAL_QUOTE body, by that grammar; an error if it
/// is not one.
pub fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                let e = it.next().ok_or("trailing backslash")?;
                out.push(match e {
                    't' => '\t',
                    'b' => '\u{8}',
                    'n' => '\n',
                    'r' => '\r',
                    'f' => '\u{c}',
                    '"' => '"',
                    '\'' => '\'',
                    '\\' => '\\',
                    'u' | 'U' => {
                        let h: String = it.by_ref().take(if e == 'u' { 4 } else { 8 }).collect();
                        if h.len() != if e == 'u' { 4 } else { 8 }
                            || !h.bytes().all(|b| b.is_ascii_hexdigit())
                        {
                            return Err(format!("bad UCHAR {h:?}"));
                        }
                        u32::from_str_radix(&h, 16)
                            .ok()
                            .and_then(char::from_u32)
                            .ok_or(format!("UCHAR {h:?} is not a character"))?
                    }
                    e => return Err(format!("unknown escape \\{e}")),
                });
            }
            '"' | '\n' | '\r' => return Err(format!("unescaped {c:?}")),
            c => out.push(c),
        }
    }
    Ok(out)
}

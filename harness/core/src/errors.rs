//! C16: errors.

use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::error::*;
use rdftk_core::model::literal::{LanguageTag, Literal};
use rdftk_core::model::statement::BlankNode;
use rdftk_iri::{Iri, Name};
use serde::{Deserialize, Serialize};
use std::error::Error as StdError;
use std::fmt;
use std::str::FromStr;
use terms::{Lit, XSD, data_types, gens};

/// An error of each kind, from its parts.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum E {
    Tokenizer(String, String),
    Expected(String, String),
    Unexpected(String, String, Vec<String>),
    Unreachable(String, String),
    FromStr(String, String),
    Coercion(String, String),
    Hex(String, usize),
    Blank(String),
    EmptyQName,
    QName(String),
    Provider(String, String),
    Match,
    Absolute(String),
    State,
    RdfStar(String),
    Formulae(String),
    Results(String),
    Unknown(String),
    UnknownFrom(String),
    UnknownString(String),
    Borrow,
    Io(u8, String),
    Iri(String),
    Url(String),
    Language(String),
    Name(String),
    IriName(String),
    Utf8(Vec<u8>),
    Base64(String),
}

#[derive(Clone, Debug)]
struct Plain(String, Option<Box<Plain>>);
impl fmt::Display for Plain {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl StdError for Plain {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.1.as_deref().map(|e| e as &(dyn StdError + 'static))
    }
}

const KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::Other,
];

/// What is expected of one error.
struct Want {
    /// The texts it has to mention.
    mentions: Vec<String>,
    /// The message of its source; `None` if it has none.
    source: Option<String>,
    /// `true` if it is made as it should be.
    variant: bool,
}

impl E {
    fn make(&self) -> Option<(Error, Want)> {
        let s = |s: &str| s.to_string();
        let plain = |error: Error, mentions: Vec<String>, variant: bool| Some((error, Want { mentions, source: None, variant }));
        let wraps = |error: Error, source: String, variant: bool| {
            Some((error, Want { mentions: vec![source.clone()], source: Some(source), variant }))
        };
        match self {
            E::Tokenizer(a, b) => plain(
                Error::Tokenizer { representation: s(a), source: Box::new(Plain(s(b), None)) },
                vec![s(a), s(b)],
                true,
            ),
            E::Expected(a, b) => plain(Error::ParserExpected { rule_fn: s(a), expecting: s(b) }, vec![s(a), s(b)], true),
            E::Unexpected(a, b, c) => {
                let mut all = vec![s(a), s(b)];
                all.extend(c.clone());
                plain(Error::ParserUnexpected { rule_fn: s(a), given: s(b), expecting: c.clone() }, all, true)
            }
            E::Unreachable(a, b) => plain(Error::ParserUnreachable { rule_fn: s(a), given: s(b) }, vec![s(a), s(b)], true),
            E::FromStr(a, b) => {
                let e = invalid_from_str_error(a, b.as_str());
                let v = matches!(&e, Error::InvalidFromStr { value, name } if value == a && name == b);
                plain(e, vec![s(a), s(b)], v)
            }
            E::Coercion(a, b) => plain(
                Error::InvalidLiteralTypeCooercion { from_type: s(a), to_type: s(b) },
                vec![s(a), s(b)],
                true,
            ),
            E::Hex(a, n) => plain(Error::HexDecoder { value: s(a), index: *n }, vec![s(a), n.to_string()], true),
            E::Blank(a) => {
                let e = invalid_blank_node_name_error(a);
                let v = matches!(&e, Error::InvalidBlankNodeName { name } if name == a);
                plain(e, vec![s(a)], v)
            }
            E::EmptyQName => plain(empty_qname_error(), vec![], matches!(empty_qname_error(), Error::EmptyQName)),
            E::QName(a) => {
                let e = invalid_qname_error(a);
                let v = matches!(&e, Error::InvalidQName { name } if name == a);
                plain(e, vec![s(a)], v)
            }
            E::Provider(a, b) => {
                let e = provider_mismatch_error(a, b.as_str());
                let v = matches!(&e, Error::ProviderMismatch { lhs, rhs } if lhs == a && rhs == b);
                plain(e, vec![s(a), s(b)], v)
            }
            E::Match => plain(invalid_match_error(), vec![], matches!(invalid_match_error(), Error::InvalidMatch)),
            E::Absolute(a) => {
                let e = absolute_iri_expected_error(a);
                let v = matches!(&e, Error::AbsoluteIriExpected { uri } if uri == a);
                plain(e, vec![s(a)], v)
            }
            E::State => plain(invalid_state_error(), vec![], matches!(invalid_state_error(), Error::InvalidState)),
            E::RdfStar(a) => {
                let e = rdf_star_not_supported_error(a);
                let v = matches!(&e, Error::RdfStarNotSupported { representation } if representation == a);
                plain(e, vec![s(a)], v)
            }
            E::Formulae(a) => {
                let e = formulae_not_supported_error(a);
                let v = matches!(&e, Error::FormulaeNotSupported { representation } if representation == a);
                plain(e, vec![s(a)], v)
            }
            E::Results(a) => {
                let e = query_results_format_error(a);
                let v = matches!(&e, Error::QueryResultsFormat { representation } if representation == a);
                plain(e, vec![s(a)], v)
            }
            E::Unknown(a) => {
                let e = unknown_error(Plain(s(a), None));
                let v = matches!(&e, Error::Unknown(m) if m == a);
                plain(e, vec![s(a)], v)
            }
            E::UnknownFrom(a) => {
                let e = unknown_error_from(a);
                let v = matches!(&e, Error::Unknown(m) if m == a);
                plain(e, vec![s(a)], v)
            }
            E::UnknownString(a) => {
                let e = Error::from(s(a));
                let v = matches!(&e, Error::Unknown(m) if m == a);
                plain(e, vec![s(a)], v)
            }
            E::Borrow => {
                let cell = std::cell::RefCell::new(0);
                let guard = cell.borrow_mut();
                let inner = cell.try_borrow().err()?;
                drop(guard);
                let text = inner.to_string();
                let e = Error::from(inner);
                let v = matches!(e, Error::Borrow(_));
                wraps(e, text, v)
            }
            E::Io(k, m) => {
                let kind = KINDS[*k as usize % KINDS.len()];
                let inner = std::io::Error::new(kind, m.as_str());
                let text = inner.to_string();
                let e = Error::from(inner);
                let v = matches!(&e, Error::Io(i) if i.kind() == kind);
                wraps(e, text, v)
            }
            E::Iri(a) => {
                let inner = rdftk_iri::Error::from(Iri::from_str(a).err()?);
                let text = inner.to_string();
                let e = Error::from(inner);
                let v = matches!(e, Error::Iri(rdftk_iri::Error::Url(_)));
                wraps(e, text, v)
            }
            E::Url(a) => {
                let inner = Iri::from_str(a).err()?;
                let text = rdftk_iri::Error::from(inner).to_string();
                let e = Error::from(inner);
                let v = matches!(e, Error::Iri(rdftk_iri::Error::Url(_)));
                wraps(e, text, v)
            }
            E::Language(a) => {
                // Parsed, and then checked; both fail with the same type.
                let inner = match LanguageTag::from_str(a) {
                    Err(inner) => inner,
                    Ok(_) => return None,
                };
                let text = inner.to_string();
                let e: Error = inner.into();
                let v = matches!(e, Error::LanguageTag(_));
                wraps(e, text, v)
            }
            E::Name(a) => {
                let inner = Name::from_str(a).err()?;
                let text = inner.to_string();
                let e = Error::from(inner);
                let v = matches!(e, Error::Name(_));
                wraps(e, text, v)
            }
            E::IriName(a) => {
                let inner = rdftk_iri::Error::from(Name::from_str(a).err()?);
                let text = inner.to_string();
                let e = Error::from(inner);
                let v = matches!(e, Error::Iri(rdftk_iri::Error::Name(_)));
                wraps(e, text, v)
            }
            E::Utf8(b) => {
                let inner = String::from_utf8(b.clone()).err()?;
                let text = inner.to_string();
                let e = Error::from(inner);
                let v = matches!(e, Error::Utf8(_));
                wraps(e, text, v)
            }
            E::Base64(t) => {
                // The decoder is not among our own dependencies: have a literal decoded.
                let l = Lit::Typed(t.clone(), format!("{XSD}base64Binary")).make().ok()?;
                let e = Vec::<u8>::try_from(l).err()?;
                let text = e.source()?.to_string();
                let v = matches!(e, Error::Base64Decoder(_));
                wraps(e, text, v)
            }
        }
    }
}

fn word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[A-Za-z][A-Za-z0-9:/#._-]{0,12}",
        2 => gens::text(),
        1 => Just(String::new()),
    ]
    .boxed()
}

fn error() -> BoxedStrategy<E> {
    let w = word;
    let bad_iri = || select(vec!["", "no scheme", "http://[", "http://", "://x", "http://a:b:c/", "/relative"]).prop_map(String::from);
    prop_oneof![
        (w(), w()).prop_map(|(a, b)| E::Tokenizer(a, b)),
        (w(), w()).prop_map(|(a, b)| E::Expected(a, b)),
        (w(), w(), vec(w(), 0..4)).prop_map(|(a, b, c)| E::Unexpected(a, b, c)),
        (w(), w()).prop_map(|(a, b)| E::Unreachable(a, b)),
        (w(), w()).prop_map(|(a, b)| E::FromStr(a, b)),
        (w(), w()).prop_map(|(a, b)| E::Coercion(a, b)),
        (w(), 0usize..10_000).prop_map(|(a, n)| E::Hex(a, n)),
        w().prop_map(E::Blank),
        Just(E::EmptyQName),
        w().prop_map(E::QName),
        (w(), w()).prop_map(|(a, b)| E::Provider(a, b)),
        Just(E::Match),
        w().prop_map(E::Absolute),
        Just(E::State),
        w().prop_map(E::RdfStar),
        w().prop_map(E::Formulae),
        w().prop_map(E::Results),
        w().prop_map(E::Unknown),
        w().prop_map(E::UnknownFrom),
        w().prop_map(E::UnknownString),
        Just(E::Borrow),
        (any::<u8>(), w()).prop_map(|(k, m)| E::Io(k, m)),
        bad_iri().prop_map(E::Iri),
        bad_iri().prop_map(E::Url),
        prop_oneof![Just(String::new()), "[a-z]{9,12}", "[a-z0-9-]{0,6}", "-[a-z]{2}"].prop_map(E::Language),
        word().prop_map(E::Name),
        word().prop_map(E::IriName),
        vec(prop_oneof![3 => 0x20u8..0x7f, 2 => 0x80u8..=0xff], 0..6).prop_map(E::Utf8),
        "[A-Za-z0-9+/=!-]{0,9}".prop_map(E::Base64),
    ]
    .boxed()
}

/// `text` as it is, or as it is displayed for debugging.
fn mentions(message: &str, text: &str) -> bool {
    let quoted = format!("{text:?}");
    message.contains(text) || message.contains(&quoted[1..quoted.len() - 1])
}

/// The numbered messages, each on its line, and nothing else but blank lines at the end.
fn trace(e: &(dyn StdError + 'static), chain: &[String]) -> std::result::Result<(), Fail> {
    let got = error_trace(e);
    let mut want = String::new();
    for (i, m) in chain.iter().enumerate() {
        want.push_str(&format!("{}. {m}\n", i + 1));
    }
    let rest = got.strip_prefix(want.as_str());
    ensure!(
        rest.is_some_and(|r| r.chars().all(|c| c == '\n')),
        "the trace of {e:?} is {got:?}; expected {want:?}"
    );
    Ok(())
}

fn messages(e: &E) -> R {
    let Some((error, want)) = e.make() else {
        label("no error");
        return Ok(false);
    };
    ensure!(want.variant, "{e:?} is made into {error:?}");
    let text = error.to_string();
    ensure!(!text.is_empty(), "{error:?} has no message");
    for m in &want.mentions {
        ensure!(mentions(&text, m), "the message of {error:?} does not mention {m:?}: {text:?}");
    }
    // Its causes.
    let source = error.source().map(|s| s.to_string());
    match e {
        // May lead to its cause, or only mention it.
        E::Tokenizer(_, cause) => ensure!(source.is_none() || source.as_ref() == Some(cause), "the source of {error:?} is {source:?}"),
        _ => ensure_eq!(source, want.source, "the source of {error:?}"),
    }
    let mut chain = vec![text];
    let mut at: Option<&(dyn StdError + 'static)> = error.source();
    while let Some(s) = at {
        chain.push(s.to_string());
        at = s.source();
    }
    trace(&error, &chain)?;
    let n = chain.len();
    label(if n > 2 { "a chain of three or more" } else if n == 2 { "a cause" } else { "no cause" });
    // As the result of something.
    let result: rdftk_core::error::Result<()> = error.into();
    ensure_eq!(result.err().map(|e| e.to_string()), Some(chain[0].clone()), "made into a result");
    Ok(!want.mentions.is_empty())
}

fn chains(messages: &Vec<String>) -> R {
    let mut e = None;
    for m in messages.iter().rev() {
        e = Some(Box::new(Plain(m.clone(), e)));
    }
    let Some(e) = e else { return Ok(false) };
    trace(&*e, messages)?;
    Ok(messages.len() > 1)
}

// ------------------------------------------------------------------------------------------------

/// What is refused, and what is said about it.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Refused {
    Blank(String),
    /// Pairs of characters, apart or not.
    Hex(Vec<String>, bool),
    Bytes(String, String),
    Iri(String, String),
}

fn refused() -> BoxedStrategy<Refused> {
    let ty = || prop_oneof![4 => select(data_types()).prop_map(|(_, i)| i), 1 => gens::iri_text()];
    prop_oneof![
        1 => prop_oneof![gens::text(), "[a-z.: -]{0,5}"].prop_map(Refused::Blank),
        2 => (vec("[0-9a-fA-F]{2}", 0..5), "[0-9a-f][g-zG-Z./:@`-]|[g-zG-Z./:@`-][0-9a-f]", vec("[0-9a-z]{2}", 0..3), any::<bool>())
            .prop_map(|(mut a, b, c, d)| { a.push(b); a.extend(c); Refused::Hex(a, d) }),
        1 => (gens::text(), ty()).prop_map(|(a, b)| Refused::Bytes(a, b)),
        1 => (gens::text(), ty()).prop_map(|(a, b)| Refused::Iri(a, b)),
    ]
    .boxed()
}

fn typed(text: &str, ty: &str) -> std::result::Result<(Literal, String), Fail> {
    let l = Lit::Typed(text.into(), ty.into()).make()?;
    let shown = l.data_type().map(|d| d.to_string()).unwrap_or_default();
    Ok((l, shown))
}

fn reports(r: &Refused) -> R {
    match r {
        Refused::Blank(t) => match BlankNode::from_str(t) {
            Ok(_) => return Ok(false),
            Err(Error::InvalidBlankNodeName { name }) => ensure_eq!(name, *t, "the name reported"),
            Err(e) => return Err(Fail::new(format!("the label {t:?} is refused with {e:?}"))),
        },
        Refused::Hex(pairs, apart) => {
            let Some(bad) = pairs.iter().position(|p| !p.bytes().all(|b| b.is_ascii_hexdigit())) else { return Ok(false) };
            let (l, _) = typed(&pairs.join(if *apart { " " } else { "" }), &format!("{XSD}hexBinary"))?;
            match Vec::<u8>::try_from(l) {
                Err(Error::HexDecoder { value, index }) => {
                    ensure_eq!(value, pairs[bad], "the pair of digits reported for {pairs:?}");
                    ensure_eq!(index, bad, "the place reported for {pairs:?}");
                }
                other => return Err(Fail::new(format!("{pairs:?} decoded is {other:?}"))),
            }
        }
        Refused::Bytes(t, ty) => {
            if ty.ends_with("hexBinary") || ty.ends_with("base64Binary") {
                return Ok(false);
            }
            let (l, shown) = typed(t, ty)?;
            match Vec::<u8>::try_from(l) {
                Err(Error::InvalidLiteralTypeCooercion { from_type, to_type }) => {
                    ensure_eq!(from_type, shown, "the type reported");
                    ensure!(!to_type.is_empty() && to_type != shown, "the type wanted is reported as {to_type:?}");
                }
                other => return Err(Fail::new(format!("bytes of a literal of type <{ty}>: {other:?}"))),
            }
        }
        Refused::Iri(t, ty) => {
            if *ty == format!("{XSD}anyURI") {
                return Ok(false);
            }
            let (l, shown) = typed(t, ty)?;
            let (_, wanted) = typed("", &format!("{XSD}anyURI"))?;
            match Iri::try_from(l) {
                Err(Error::InvalidLiteralTypeCooercion { from_type, to_type }) => {
                    ensure_eq!(from_type, shown, "the type reported");
                    ensure_eq!(to_type, wanted, "the type wanted");
                }
                other => return Err(Fail::new(format!("IRI of a literal of type <{ty}>: {other:?}"))),
            }
        }
    }
    Ok(true)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C16",
        rule: "Errors of every kind, made of texts that may be empty or need quoting; chains of up to 7 causes; labels, hex texts and literals that are refused. Non-trivial: something to mention; more than one cause; refused.",
        assumptions: &["how a message is worded is free; an error of a tokenizer may lead to its cause or only mention it"],
        facets: vec![
            Box::new(Gen { name: "messages", quick: 150_000, thorough: 1_500_000, strategy: error, test: messages }),
            Box::new(Gen { name: "chains", quick: 30_000, thorough: 300_000, strategy: || vec(word(), 1..8).boxed(), test: chains }),
            Box::new(Gen { name: "refused", quick: 150_000, thorough: 1_500_000, strategy: refused, test: reports }),
        ],
    }]
}

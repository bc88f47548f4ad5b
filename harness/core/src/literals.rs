//! C09 – C12: literals.

use crate::nodes::show_lit;
use chrono::TimeDelta;
use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
use rdftk_iri::{Iri, LocalName, Name};
use rust_decimal::Decimal;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use std::time::Duration;
use terms::{Lit, T, XSD, data_types, gens, unescape};

// ------------------------------------------------------------------------------------------------
// C09
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Native {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    /// Bits.
    F32(u32),
    F64(u64),
    Str(String),
    String(String),
    Dur(u64, u32),
    Chrono(i64, i32),
    Iri(String),
    Name(String),
    LocalName(String),
    Lang(String),
    /// Number, and scale.
    Decimal(i64, u32),
}

fn local_name() -> BoxedStrategy<String> {
    // Not too long, and never with a reserved character that needs escaping.
    ("[a-z]{0,3}", "[A-Za-z_][A-Za-z0-9_-]{0,4}").prop_map(|(p, n)| format!("{p}:{n}")).boxed()
}

fn native() -> BoxedStrategy<Native> {
    let f64s = prop_oneof![
        any::<u64>(),
        select(vec![
            0f64, -0.0, 1.0, -1.5, 0.1, 1e21, 1e-7, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE,
            5e-324, 123456789.125, f64::EPSILON,
        ])
        .prop_map(f64::to_bits),
        (-1000i32..1000).prop_map(|n| (n as f64 / 8.0).to_bits()),
        Just(f64::NAN.to_bits()),
    ];
    let f32s = prop_oneof![
        any::<u32>(),
        select(vec![0f32, -0.0, 1.0, 0.1, 16777216.0, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, 1e-45]).prop_map(f32::to_bits),
    ];
    let nanos = prop_oneof![
        Just(0u32), Just(1), Just(999_999_999), Just(500_000_000), Just(10_000_000), 0u32..1_000_000_000
    ];
    prop_oneof![
        any::<bool>().prop_map(Native::Bool),
        any::<i8>().prop_map(Native::I8),
        any::<i16>().prop_map(Native::I16),
        any::<i32>().prop_map(Native::I32),
        prop_oneof![any::<i64>(), Just(i64::MIN), Just(i64::MAX), -9i64..9].prop_map(Native::I64),
        any::<u8>().prop_map(Native::U8),
        any::<u16>().prop_map(Native::U16),
        any::<u32>().prop_map(Native::U32),
        prop_oneof![any::<u64>(), Just(u64::MAX), 0u64..9].prop_map(Native::U64),
        f32s.prop_map(Native::F32),
        f64s.prop_map(Native::F64),
        gens::text().prop_map(Native::Str),
        gens::text().prop_map(Native::String),
        (prop_oneof![0u64..100_000, any::<u64>()], nanos.clone()).prop_map(|(s, n)| Native::Dur(s, n)),
        (prop_oneof![-100_000i64..100_000, -9_000_000_000_000i64..9_000_000_000_000], nanos)
            .prop_map(|(s, n)| Native::Chrono(s, n as i32)),
        gens::iri_text().prop_map(Native::Iri),
        "[A-Za-z_][A-Za-z0-9_-]{0,6}".prop_map(Native::Name),
        local_name().prop_map(Native::LocalName),
        select(gens::LANGS).prop_map(|l| Native::Lang(l.into())),
        (prop_oneof![any::<i64>(), -1000i64..1000], 0u32..29).prop_map(|(n, s)| Native::Decimal(n, s)),
    ]
    .boxed()
}

fn chrono_of(s: i64, n: i32) -> TimeDelta {
    TimeDelta::new(s, n as u32).unwrap()
}

/// The nanoseconds of an xsd:duration without years or months.
fn duration_nanos(t: &str) -> Option<i128> {
    let (sign, t) = match t.strip_prefix('-') {
        Some(t) => (-1, t),
        None => (1, t),
    };
    let t = t.strip_prefix('P')?;
    let (days, time) = match t.split_once('T') {
        Some((d, t)) => (d, t),
        None => (t, ""),
    };
    if t.is_empty() || t.ends_with('T') {
        return None;
    }
    let mut total: i128 = 0;
    if !days.is_empty() {
        total += days.strip_suffix('D')?.parse::<i128>().ok()? * 86_400_000_000_000;
    }
    let mut rest = time;
    for (unit, scale) in [('H', 3600), ('M', 60)] {
        if let Some((n, r)) = rest.split_once(unit) {
            total += n.parse::<i128>().ok()? * scale * 1_000_000_000;
            rest = r;
        }
    }
    if !rest.is_empty() {
        let s = rest.strip_suffix('S')?;
        let (whole, frac) = s.split_once('.').unwrap_or((s, ""));
        if !whole.bytes().all(|b| b.is_ascii_digit()) || whole.is_empty() || !frac.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        if s.contains('.') && frac.is_empty() {
            return None;
        }
        total += whole.parse::<i128>().ok()? * 1_000_000_000;
        total += format!("{:0<9}", frac).get(..9)?.parse::<i128>().ok()?;
    }
    Some(sign * total)
}

/// xsd:double, and xsd:float: a decimal with an optional exponent, or INF, -INF, NaN.
fn xsd_float(t: &str) -> Option<String> {
    match t {
        "INF" => Some("inf".into()),
        "-INF" => Some("-inf".into()),
        "NaN" => Some("NaN".into()),
        t => t.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b)).then(|| t.to_string()),
    }
}

impl Native {
    fn make(&self) -> Result<Literal, Fail> {
        let bad = |e: String| Fail::new(format!("generated {self:?} is rejected: {e}"));
        Ok(match self {
            Native::Bool(v) => (*v).into(),
            Native::I8(v) => (*v).into(),
            Native::I16(v) => (*v).into(),
            Native::I32(v) => (*v).into(),
            Native::I64(v) => (*v).into(),
            Native::U8(v) => (*v).into(),
            Native::U16(v) => (*v).into(),
            Native::U32(v) => (*v).into(),
            Native::U64(v) => (*v).into(),
            Native::F32(v) => f32::from_bits(*v).into(),
            Native::F64(v) => f64::from_bits(*v).into(),
            Native::Str(v) => v.as_str().into(),
            Native::String(v) => v.clone().into(),
            Native::Dur(s, n) => Duration::new(*s, *n).into(),
            Native::Chrono(s, n) => chrono_of(*s, *n).into(),
            Native::Iri(v) => terms::iri(v)?.into(),
            Native::Name(v) => Name::from_str(v).map_err(|e| bad(e.to_string()))?.into(),
            Native::LocalName(v) => LocalName::from_str(v).map_err(|e| bad(e.to_string()))?.into(),
            Native::Lang(v) => LanguageTag::from_str(v).map_err(|e| bad(e.to_string()))?.into(),
            Native::Decimal(n, s) => Decimal::new(*n, *s).into(),
        })
    }
    /// The conversion from a reference, where there is one.
    fn by_reference(&self) -> Result<Literal, Fail> {
        let bad = |e: String| Fail::new(format!("generated {self:?} is rejected: {e}"));
        Ok(match self {
            Native::Dur(s, n) => (&Duration::new(*s, *n)).into(),
            Native::Chrono(s, n) => (&chrono_of(*s, *n)).into(),
            Native::Iri(v) => (&terms::iri(v)?).into(),
            Native::Name(v) => (&Name::from_str(v).map_err(|e| bad(e.to_string()))?).into(),
            Native::LocalName(v) => (&LocalName::from_str(v).map_err(|e| bad(e.to_string()))?).into(),
            Native::Decimal(n, s) => (&Decimal::new(*n, *s)).into(),
            _ => self.make()?,
        })
    }
    /// The type rdftk gives it.
    fn data_type(&self) -> &'static str {
        match self {
            Native::Bool(_) => "boolean",
            Native::I8(_) => "byte",
            Native::I16(_) => "short",
            Native::I32(_) => "int",
            Native::I64(_) => "long",
            Native::U8(_) => "unsignedByte",
            Native::U16(_) => "unsignedShort",
            Native::U32(_) => "unsignedInt",
            Native::U64(_) => "unsignedLong",
            Native::F32(_) => "float",
            Native::F64(_) => "double",
            Native::Str(_) | Native::String(_) => "string",
            Native::Dur(..) | Native::Chrono(..) => "duration",
            Native::Iri(_) => "anyURI",
            Native::Name(_) => "Name",
            Native::LocalName(_) => "QName",
            Native::Lang(_) => "language",
            Native::Decimal(..) => "decimal",
        }
    }
    /// Does the text stand for this value, by the rules of XML Schema?
    fn is(&self, t: &str) -> bool {
        match self {
            Native::Bool(v) => t == if *v { "true" } else { "false" },
            Native::I8(v) => t.parse() == Ok(*v),
            Native::I16(v) => t.parse() == Ok(*v),
            Native::I32(v) => t.parse() == Ok(*v),
            Native::I64(v) => t.parse() == Ok(*v),
            Native::U8(v) => t.parse() == Ok(*v),
            Native::U16(v) => t.parse() == Ok(*v),
            Native::U32(v) => t.parse() == Ok(*v),
            Native::U64(v) => t.parse() == Ok(*v),
            Native::F32(v) => xsd_float(t).and_then(|t| t.parse::<f32>().ok()).is_some_and(|f| {
                f.to_bits() == *v || f.is_nan() && f32::from_bits(*v).is_nan()
            }),
            Native::F64(v) => xsd_float(t).and_then(|t| t.parse::<f64>().ok()).is_some_and(|f| {
                f.to_bits() == *v || f.is_nan() && f64::from_bits(*v).is_nan()
            }),
            Native::Str(v) | Native::String(v) | Native::Iri(v) | Native::Name(v) | Native::LocalName(v) | Native::Lang(v) => t == v,
            Native::Dur(s, n) => duration_nanos(t) == Some(*s as i128 * 1_000_000_000 + *n as i128),
            Native::Chrono(s, n) => duration_nanos(t) == Some(*s as i128 * 1_000_000_000 + *n as i128),
            Native::Decimal(n, s) => {
                t.bytes().all(|b| b.is_ascii_digit() || b == b'-' || b == b'.')
                    && Decimal::from_str(t).is_ok_and(|d| d == Decimal::new(*n, *s))
            }
        }
    }
    /// What `literal == self` answers.
    fn eq(&self, l: &Literal) -> Result<bool, Fail> {
        let bad = |e: String| Fail::new(format!("generated {self:?} is rejected: {e}"));
        Ok(match self {
            Native::Bool(v) => l == v,
            Native::I8(v) => l == v,
            Native::I16(v) => l == v,
            Native::I32(v) => l == v,
            Native::I64(v) => l == v,
            Native::U8(v) => l == v,
            Native::U16(v) => l == v,
            Native::U32(v) => l == v,
            Native::U64(v) => l == v,
            Native::F32(v) => *l == f32::from_bits(*v),
            Native::F64(v) => *l == f64::from_bits(*v),
            Native::Str(v) => l == v.as_str(),
            Native::String(v) => l == v,
            Native::Dur(s, n) => *l == Duration::new(*s, *n),
            Native::Chrono(s, n) => *l == chrono_of(*s, *n),
            Native::Iri(v) => *l == terms::iri(v)?,
            Native::Name(v) => *l == Name::from_str(v).map_err(|e| bad(e.to_string()))?,
            Native::LocalName(v) => *l == LocalName::from_str(v).map_err(|e| bad(e.to_string()))?,
            Native::Lang(v) => *l == LanguageTag::from_str(v).map_err(|e| bad(e.to_string()))?,
            Native::Decimal(n, s) => *l == Decimal::new(*n, *s),
        })
    }
}

fn natives() -> BoxedStrategy<(Native, Native, String)> {
    prop_oneof![
        3 => (native(), native(), gens::data_type_text()),
        1 => (native(), gens::data_type_text()).prop_map(|(n, d)| (n.clone(), n, d)),
        // The same number as different types.
        2 => (0u8..100, 0usize..8, 0usize..8, gens::data_type_text()).prop_map(|(v, a, b, d)| {
            let n = |k| match k {
                0 => Native::I8(v as i8),
                1 => Native::I16(v as i16),
                2 => Native::I32(v as i32),
                3 => Native::I64(v as i64),
                4 => Native::U8(v),
                5 => Native::U16(v as u16),
                6 => Native::U32(v as u32),
                _ => Native::U64(v as u64),
            };
            (n(a), n(b), d)
        }),
    ]
    .boxed()
}

fn convert((a, b, d): &(Native, Native, String)) -> R {
    let l = a.make()?;
    let got = Lit::of(&l)?;
    let want_type = format!("{XSD}{}", a.data_type());
    match &got {
        Lit::Typed(t, dt) => {
            ensure_eq!(*dt, want_type, "data type of the literal of {a:?}");
            ensure!(a.is(t), "the literal of {a:?} is {t:?}, which is not that value");
        }
        other => return Err(Fail::new(format!("the literal of {a:?} is {other:?}"))),
    }
    ensure!(l.has_data_type() && !l.has_language(), "the literal of {a:?} has no data type, or has a language");
    ensure_eq!(l.unescaped(), got.text(), "unescaped of the literal of {a:?}");
    ensure!(a.eq(&l)?, "{l:?} == {a:?} is false");
    ensure_eq!(a.make()?, l, "{a:?} converted twice");
    ensure_eq!(a.by_reference()?, l, "{a:?} converted by reference");
    // Equal to another value only if that is the same value.
    if a.data_type() == b.data_type() {
        ensure_eq!(b.eq(&l)?, b.is(got.text()), "{l:?} == {b:?}");
    } else {
        ensure!(!b.eq(&l)?, "{l:?} == {b:?}, of another type");
    }
    // Nor is the same text as another type.
    let other = Lit::Typed(got.text().into(), d.clone()).make()?;
    ensure_eq!(a.eq(&other)?, *d == want_type, "{other:?} == {a:?}");
    let tagged = Literal::with_language(got.text(), LanguageTag::from_str("en").unwrap());
    if !matches!(a, Native::Str(_) | Native::String(_)) {
        ensure!(!a.eq(&Literal::plain(got.text()))?, "the plain literal {:?} == {a:?}", got.text());
        ensure!(!a.eq(&tagged)?, "{tagged} == {a:?}");
    } else {
        ensure!(a.eq(&Literal::plain(got.text()))?, "the plain literal {:?} is not == {a:?}", got.text());
    }
    // Back again, where there is a way.
    let iri = Iri::try_from(l.clone());
    match a {
        Native::Iri(v) => match iri {
            Ok(i) => ensure_eq!(terms::of_iri(&i), *v, "the IRI of {l}"),
            Err(e) => return Err(Fail::new(format!("the literal of {a:?} is not an IRI: {e}"))),
        },
        _ => ensure!(iri.is_err(), "{l:#} is converted to an IRI"),
    }
    ensure!(Vec::<u8>::try_from(l.clone()).is_err(), "{l:#} is converted to bytes");
    ensure!(Iri::try_from(Literal::plain("http://example.org/")).is_err(), "a plain literal is converted to an IRI");
    ensure!(Vec::<u8>::try_from(Literal::plain(got.text())).is_err(), "a plain literal is converted to bytes");
    ensure!(Vec::<u8>::try_from(tagged).is_err(), "a literal with a language is converted to bytes");
    // Any text may be given the type of IRIs.
    let typed = Lit::Typed(got.text().into(), format!("{XSD}anyURI")).make()?;
    let want = Iri::from_str(got.text()).ok();
    let made = pbt::no_panic(|| Iri::try_from(typed).ok()).map_err(|e| Fail::new(format!("the IRI of {:?}: {e}", got.text())))?;
    ensure_eq!(made, want, "the IRI of {:?}", got.text());
    Ok(true)
}

// ------------------------------------------------------------------------------------------------
// C10
// ------------------------------------------------------------------------------------------------

fn base64(v: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in v.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            out.push(if i <= c.len() { A[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    out
}

fn bytes((v, flips): &(Vec<u8>, Vec<bool>)) -> R {
    let hex: String = v.iter().map(|b| format!("{b:02X}")).collect();
    let l = Literal::hex_encoded(v);
    ensure_eq!(Lit::of(&l)?, Lit::Typed(hex.clone(), format!("{XSD}hexBinary")), "hex_encoded");
    ensure_eq!(Vec::<u8>::try_from(l).ok(), Some(v.clone()), "the bytes of {hex:?}");
    // XML Schema allows either case.
    let mixed: String = hex
        .chars()
        .enumerate()
        .map(|(i, c)| if flips.get(i % flips.len().max(1)) == Some(&true) { c.to_ascii_lowercase() } else { c })
        .collect();
    let l = Literal::with_data_type(&mixed, DataType::HexBinary);
    ensure_eq!(Vec::<u8>::try_from(l).ok(), Some(v.clone()), "the bytes of {mixed:?}");
    let l = Literal::base64_encoded(v);
    ensure_eq!(Lit::of(&l)?, Lit::Typed(base64(v), format!("{XSD}base64Binary")), "base64_encoded");
    ensure_eq!(Vec::<u8>::try_from(l).ok(), Some(v.clone()), "the bytes of {:?}", base64(v));
    Ok(!v.is_empty())
}

fn not_bytes((text, dt): &(String, String)) -> R {
    let l = Lit::Typed(text.clone(), dt.clone()).make()?;
    let got = pbt::no_panic(|| Vec::<u8>::try_from(l)).map_err(Fail::new)?;
    let hex = *dt == format!("{XSD}hexBinary");
    let b64 = *dt == format!("{XSD}base64Binary");
    match got {
        Err(_) => {
            if hex {
                ensure!(
                    text.len() % 2 != 0 || !text.bytes().all(|b| b.is_ascii_hexdigit()),
                    "{text:?} is not decoded"
                );
            }
        }
        Ok(v) => {
            ensure!(hex || b64, "{text:?} of type {dt} is converted to bytes");
            if hex {
                let digits: String = text.chars().filter(|c| *c != ' ').collect();
                ensure_eq!(
                    v.iter().map(|b| format!("{b:02x}")).collect::<String>(),
                    digits.to_lowercase(),
                    "the bytes of {text:?}"
                );
            } else {
                ensure_eq!(base64(&v), *text, "the bytes of {text:?} as base64");
            }
        }
    }
    Ok(hex || b64)
}

// ------------------------------------------------------------------------------------------------
// C11
// ------------------------------------------------------------------------------------------------

fn type_iri(s: &String) -> R {
    let i = terms::iri(s)?;
    let d = DataType::from(i.clone());
    ensure_eq!(terms::of_iri(d.as_iri()), *s, "the IRI of DataType::from(<{s}>)");
    let known = data_types().into_iter().find(|(_, k)| k == s);
    match &known {
        Some((k, _)) => {
            ensure_eq!(d, *k, "DataType::from(<{s}>)");
            let (prefix, name) = match s.strip_prefix(XSD) {
                Some(n) => ("xsd", n),
                None => ("rdf", s.strip_prefix(terms::RDF).unwrap()),
            };
            ensure_eq!(d.to_string(), format!("{prefix}:{name}"), "data type as displayed");
        }
        None => {
            ensure_eq!(d, DataType::Other(i.clone()), "DataType::from(<{s}>)");
            ensure_eq!(d.to_string(), *s, "data type as displayed");
        }
    }
    let l = Literal::with_data_type_iri("1", i);
    ensure_eq!(l.data_type(), Some(&d), "data type of with_data_type_iri");
    ensure_eq!(l, Literal::with_data_type("1", d), "with_data_type_iri");
    Ok(known.is_some())
}

fn near_types() -> BoxedStrategy<String> {
    let names: Vec<String> = data_types().into_iter().map(|(_, i)| i).collect();
    let known = select(names);
    prop_oneof![
        3 => known.clone(),
        1 => gens::data_type_text(),
        // A known name in another namespace, case, or with something added.
        1 => known.clone().prop_map(|i| i.replace("XMLSchema", "xmlschema")),
        1 => known.clone().prop_map(|i| if i.starts_with(XSD) { i.replace(XSD, terms::RDF) } else { i.replace(terms::RDF, XSD) }),
        1 => (known.clone(), "[a-zA-Z]{1,2}").prop_map(|(i, s)| i + &s),
        1 => known.prop_map(|i| { let (n, l) = i.split_once('#').unwrap(); format!("{n}#{}", l.to_lowercase()) }),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------
// C12
// ------------------------------------------------------------------------------------------------

/// The literal production of N-Triples.
pub fn parse_literal(t: &str) -> Result<Lit, String> {
    let rest = t.strip_prefix('"').ok_or("no opening quote")?;
    let mut end = None;
    let mut esc = false;
    for (i, c) in rest.char_indices() {
        match c {
            _ if esc => esc = false,
            '\\' => esc = true,
            '"' => {
                end = Some(i);
                break;
            }
            _ => {}
        }
    }
    let end = end.ok_or("no closing quote")?;
    let text = unescape(&rest[..end])?;
    let tail = &rest[end + 1..];
    if tail.is_empty() {
        return Ok(Lit::Plain(text));
    }
    if let Some(l) = tail.strip_prefix('@') {
        let ok = l.split('-').enumerate().all(|(i, p)| {
            !p.is_empty() && p.bytes().all(|b| b.is_ascii_alphabetic() || i > 0 && b.is_ascii_digit())
        });
        return if ok { Ok(Lit::Lang(text, l.into())) } else { Err(format!("language {l:?}")) };
    }
    match tail.strip_prefix("^^<").and_then(|d| d.strip_suffix('>')) {
        Some(d) if !d.contains(['<', '>', '"']) => Ok(Lit::Typed(text, d.into())),
        _ => Err(format!("tail {tail:?}")),
    }
}

fn alternate(l: &Lit) -> R {
    let made = l.make()?;
    let shown = format!("{made:#}");
    match parse_literal(&shown) {
        Ok(got) => ensure_eq!(got, *l, "{shown} read as N-Triples"),
        Err(e) => return Err(Fail::new(format!("{{:#}} of {l:?} is {shown}, which is not N-Triples: {e}"))),
    }
    ensure_eq!(Lit::of(&made)?, *l, "the parts of the literal");
    ensure_eq!(made.unescaped(), l.text(), "unescaped");
    ensure!(
        !made.lexical_form().contains(['\n', '\r']),
        "the lexical form {:?} is more than one line",
        made.lexical_form()
    );
    ensure_eq!(made.has_data_type(), matches!(l, Lit::Typed(..)), "has_data_type");
    ensure_eq!(made.has_language(), matches!(l, Lit::Lang(..)), "has_language");
    // By default, plain literals, and those with a language, are the same.
    if !matches!(l, Lit::Typed(..)) {
        ensure_eq!(made.to_string(), shown, "as displayed");
    }
    let special = show_lit(&Lit::Plain(l.text().into()), true).len() != l.text().len() + 2 || !l.text().is_ascii();
    if special {
        label("needs escapes, or not ASCII");
    }
    // Making a literal from one's lexical form again escapes it again.
    let twice = Literal::plain(made.lexical_form());
    ensure_eq!(twice.unescaped(), *made.lexical_form(), "the text of a literal made from a lexical form");
    Ok(special)
}

fn every_char(c: &u32) -> R {
    match char::from_u32(*c) {
        None => Ok(false),
        Some(c) => {
            alternate(&Lit::Plain(format!("{c}0{c}")))?;
            ensure_eq!(Lit::of(&T::L(Lit::Plain(c.into())).object()?.as_literal().unwrap().clone())?, Lit::Plain(c.into()), "{c:?}");
            Ok(true)
        }
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            rule: "Values of every type with a conversion, boundary values among them, against the lexical rules of XML Schema; each literal compared with another value, and each value with the same text as another type. Every case is non-trivial.",
            assumptions: &["all bit patterns of NaN are one value"],
            facets: vec![Box::new(Gen { name: "convert", quick: 500_000, thorough: 6_000_000, strategy: natives, test: convert })],
        },
        Property {
            id: "C10",
            rule: "Byte strings up to 40 long, against an independent encoder; texts that are, or nearly are, encodings. Non-trivial: not empty; a binary type. Large ones: byte strings up to 9,000 long.",
            assumptions: &[],
            facets: vec![
                Box::new(Gen { name: "bytes", quick: 200_000, thorough: 2_000_000, strategy: || (vec(any::<u8>(), 0..40), vec(any::<bool>(), 1..7)).boxed(), test: bytes }),
                Box::new(Gen { name: "long", quick: 4_000, thorough: 20_000, strategy: || (prop_oneof![vec(any::<u8>(), 40..400), vec(any::<u8>(), 400..9000)], vec(any::<bool>(), 1..7)).boxed(), test: bytes }),
                Box::new(Gen { name: "texts", quick: 200_000, thorough: 2_000_000, strategy: || {
                    let text = prop_oneof!["[0-9a-fA-F]{0,8}", "[0-9a-gG-H ]{0,8}", "[A-Za-z0-9+/]{0,8}={0,2}", gens::text(), "[0-9a-f]{1,3}\u{e9}[0-9a-f]{0,2}"];
                    let dt = prop_oneof![4 => select(vec![format!("{XSD}hexBinary"), format!("{XSD}base64Binary")]), 1 => gens::data_type_text()];
                    (text, dt).boxed()
                }, test: not_bytes }),
            ],
        },
        Property {
            id: "C11",
            rule: "Every known data type, and IRIs that are nearly one, or not one. Non-trivial: a known one.",
            assumptions: &[],
            facets: vec![
                Box::new(Enumerate { name: "known", items: |_| Box::new(data_types().into_iter().map(|(_, i)| i)), test: type_iri }),
                Box::new(Gen { name: "near", quick: 100_000, thorough: 500_000, strategy: near_types, test: type_iri }),
            ],
        },
        Property {
            id: "C12",
            rule: "Literals of quotes, backslashes, control characters, and text that looks like escapes, against a parser of the N-Triples literal production. Non-trivial: something has to be escaped, or is not ASCII. Every Unicode scalar value is also tried (one in 16 above U+3000 in the quick tier).",
            assumptions: &[],
            facets: vec![
                Box::new(Gen { name: "alternate", quick: 300_000, thorough: 4_000_000, strategy: gens::literal, test: alternate }),
                Box::new(Enumerate { name: "characters", items: |thorough| {
                    Box::new((0..0x110000u32).filter(move |c| thorough || *c < 0x3000 || c % 16 == 0))
                }, test: every_char }),
            ],
        },
    ]
}

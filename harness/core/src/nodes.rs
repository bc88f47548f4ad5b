//! C05 – C08, C15: reification of single terms, comparison, display, blank nodes, accessors.

use crate::grammar;
use crate::graphs::{Reifier, labels};
use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::features::*;
use rdftk_core::model::graph::GraphName;
use rdftk_core::model::statement::*;
use rdftk_iri::{Iri, Name};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::str::FromStr;
use std::sync::Arc;
use terms::iso::{self, Tok};
use terms::{Lit, RDF, St, T, XSD, gens, rdf, st};

// ------------------------------------------------------------------------------------------------
// C05
// ------------------------------------------------------------------------------------------------

fn same_rooted(got: (&SubjectNode, &[Statement]), want: (T, Vec<St>), input: &[St]) -> Result<(), Fail> {
    let old = labels(input);
    let var = |t: &T| matches!(t, T::B(b) if !old.contains(b));
    let rooted = |root: &T, sts: &[St]| {
        let mut e = iso::edges(sts, &var);
        let mut edge = vec![Tok::K("root".into())];
        iso::tokens(root, &var, &mut edge);
        e.push(edge);
        e
    };
    let sts = got.1.iter().map(St::of).collect::<Result<Vec<_>, _>>()?;
    let root = T::of_subject(got.0)?;
    ensure!(
        iso::iso(&rooted(&root, &sts), &rooted(&want.0, &want.1)).is_some(),
        "reify returned {root:?} and {sts:?}; expected, up to new labels, {want:?}"
    );
    Ok(())
}

fn reify_statement(s: &St) -> R {
    let made = s.make()?;
    let (root, sts) = made.reify().map_err(|e| Fail::new(format!("reify: {e}")))?;
    let mut r = Reifier::new();
    let want = r.statement(s);
    same_rooted((&root, &sts), (want, r.out), std::slice::from_ref(s))?;
    ensure_eq!(
        made.is_nested(),
        matches!(s.s, T::S(_)) || matches!(s.o, T::S(_)),
        "is_nested of {made}"
    );
    for st in &sts {
        ensure!(!st.is_nested(), "{st} is nested");
    }
    Ok(!s.is_flat())
}

fn reify_collection(c: &Vec<T>) -> R {
    let made = Collection::from(c.iter().map(T::object).collect::<Result<Vec<_>, _>>()?);
    ensure_eq!(made.len(), c.len(), "len");
    ensure_eq!(made.is_empty(), c.is_empty(), "is_empty");
    let (root, sts) = made.reify().map_err(|e| Fail::new(format!("reify: {e}")))?;
    let mut r = Reifier::new();
    let want = r.collection(c);
    same_rooted((&root, &sts), (want, r.out), &[st(T::B("a".into()), "", T::C(c.clone()))])?;
    if c.is_empty() {
        ensure_eq!(T::of_subject(&root)?, T::I(rdf("nil")), "the empty collection");
    }
    Ok(c.len() > 1)
}

// ------------------------------------------------------------------------------------------------
// C06
// ------------------------------------------------------------------------------------------------

fn hash<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

/// `==`, hashes, and the order agree with one another, and `==` with the data.
fn coherent<V: Ord + Hash + std::fmt::Debug, D: PartialEq>(v: &[V], d: &[D]) -> Result<(), Fail> {
    for i in 0..v.len() {
        for j in 0..v.len() {
            let (a, b) = (&v[i], &v[j]);
            let c = a.cmp(b);
            ensure_eq!(a == b, d[i] == d[j], "{a:?} == {b:?}");
            ensure_eq!(c == Ordering::Equal, a == b, "{a:?} cmp {b:?} is Equal");
            ensure_eq!(b.cmp(a), c.reverse(), "{b:?} cmp {a:?}");
            ensure_eq!(a.partial_cmp(b), Some(c), "{a:?} partial_cmp {b:?}");
            if a == b {
                ensure_eq!(hash(a), hash(b), "hashes of {a:?} and {b:?}");
            }
            for k in v {
                if c != Ordering::Greater && b.cmp(k) != Ordering::Greater {
                    ensure!(a.cmp(k) != Ordering::Greater, "{a:?} <= {b:?} <= {k:?}, but not {a:?} <= {k:?}");
                }
            }
        }
    }
    Ok(())
}

fn near_object() -> BoxedStrategy<T> {
    prop_oneof![
        3 => gens::near_literal().prop_map(T::L),
        3 => gens::dense_statement().prop_map(|s| s.o),
        1 => vec(gens::dense_statement().prop_map(|s| s.o), 0..3).prop_map(T::C),
        1 => vec(gens::dense_statement().prop_map(|s| T::S(Box::new(s))), 0..2).prop_map(T::C),
        1 => gens::dense_statement().prop_map(|s| T::S(Box::new(s))),
        1 => gens::object(2),
    ]
    .boxed()
}

fn near_subject() -> BoxedStrategy<T> {
    prop_oneof![
        3 => gens::dense_statement().prop_map(|s| s.s),
        1 => gens::dense_statement().prop_map(|s| T::S(Box::new(s))),
        1 => gens::subject(2),
    ]
    .boxed()
}

fn near_statement() -> BoxedStrategy<St> {
    (near_subject(), gens::dense_statement(), near_object())
        .prop_map(|(s, d, o)| St { s, p: d.p, o })
        .boxed()
}

/// A statement, and others that share some of its components.
fn variations() -> BoxedStrategy<Vec<St>> {
    (near_statement(), vec((near_statement(), 0u8..8), 1..6))
        .prop_map(|(a, others)| {
            let mut v: Vec<St> = others
                .into_iter()
                .map(|(b, keep)| St {
                    s: if keep & 1 != 0 { a.s.clone() } else { b.s },
                    p: if keep & 2 != 0 { a.p.clone() } else { b.p },
                    o: if keep & 4 != 0 { a.o.clone() } else { b.o },
                })
                .collect();
            v.push(a);
            v
        })
        .boxed()
}

fn some_equal<D: PartialEq>(d: &[D]) -> bool {
    (0..d.len()).any(|i| (0..i).any(|j| d[i] == d[j]))
}

fn order_objects(d: &Vec<T>) -> R {
    let v = d.iter().map(T::object).collect::<Result<Vec<_>, _>>()?;
    coherent(&v, d)?;
    let rank = |t: &T| match t {
        T::B(_) => 0,
        T::I(_) => 1,
        T::L(_) => 2,
        T::C(_) => 3,
        T::S(_) => 4,
    };
    for (a, x) in v.iter().zip(d) {
        for (b, y) in v.iter().zip(d) {
            if rank(x) != rank(y) {
                ensure_eq!(a.cmp(b), rank(x).cmp(&rank(y)), "the order of {a} and {b}, which differ in kind");
            }
        }
    }
    let lits: Vec<&Lit> = d.iter().filter_map(|t| if let T::L(l) = t { Some(l) } else { None }).collect();
    coherent(&lits.iter().map(|l| l.make()).collect::<Result<Vec<_>, _>>()?, &lits)?;
    // A literal is the same however it was made.
    for l in lits {
        if let Lit::Typed(t, i) = l {
            let other = rdftk_core::model::literal::Literal::with_data_type_iri(t, terms::iri(i)?);
            ensure_eq!(other, l.make()?, "with_data_type_iri({t:?}, {i})");
            ensure_eq!(hash(&other), hash(&l.make()?), "hash of with_data_type_iri({t:?}, {i})");
        }
    }
    Ok(some_equal(d))
}

fn order_subjects(d: &Vec<T>) -> R {
    let v = d.iter().map(T::subject).collect::<Result<Vec<_>, _>>()?;
    coherent(&v, d)?;
    let names: Vec<T> = d.iter().filter(|t| !matches!(t, T::S(_))).cloned().collect();
    let made = names.iter().map(T::graph_name).collect::<Result<Vec<GraphName>, _>>()?;
    for (a, x) in made.iter().zip(&names) {
        for (b, y) in made.iter().zip(&names) {
            ensure_eq!(a == b, x == y, "{a} == {b}");
            if a == b {
                ensure_eq!(hash(a), hash(b), "hashes of {a} and {b}");
            }
        }
    }
    Ok(some_equal(d))
}

fn order_statements(d: &Vec<St>) -> R {
    let v = d.iter().map(St::make).collect::<Result<Vec<_>, _>>()?;
    coherent(&v, d)?;
    for a in &v {
        for b in &v {
            let want = a
                .subject()
                .cmp(b.subject())
                .then_with(|| a.predicate().cmp(b.predicate()))
                .then_with(|| a.object().cmp(b.object()));
            ensure_eq!(a.cmp(b), want, "the order of {a} and {b}");
        }
    }
    Ok(some_equal(d))
}

// ------------------------------------------------------------------------------------------------
// C07
// ------------------------------------------------------------------------------------------------

fn bare(d: &str) -> bool {
    d.strip_prefix(XSD).is_some_and(|n| {
        [
            "boolean", "long", "int", "short", "byte", "unsignedLong", "unsignedInt",
            "unsignedShort", "unsignedByte", "float", "double", "decimal",
        ]
        .contains(&n)
    })
}

fn escape(t: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '\t' => o += "\\t",
            '\u{8}' => o += "\\b",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\u{c}' => o += "\\f",
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c => o.push(c),
        }
    }
    o
}

pub fn show_lit(l: &Lit, alternate: bool) -> String {
    match l {
        Lit::Plain(t) => format!("\"{}\"", escape(t)),
        Lit::Lang(t, g) => format!("\"{}\"@{g}", escape(t)),
        Lit::Typed(t, d) if !alternate && bare(d) => escape(t),
        Lit::Typed(t, d) if !alternate && *d == format!("{XSD}anyURI") => format!("<{}>", escape(t)),
        Lit::Typed(t, d) => format!("\"{}\"^^<{d}>", escape(t)),
    }
}

fn show(t: &T, alternate: bool) -> String {
    match t {
        T::B(b) => format!("_:{b}"),
        T::I(i) => format!("<{i}>"),
        T::L(l) => show_lit(l, alternate),
        T::C(c) => format!("( {} )", c.iter().map(|t| show(t, false)).collect::<Vec<_>>().join(" ")),
        T::S(s) => format!("<< {} >>", show_st(s)),
    }
}

fn show_st(s: &St) -> String {
    format!("{} <{}> {}", show(&s.s, false), s.p, show(&s.o, false))
}

/// Control characters without an escape of their own may be written as themselves or as \u.
fn printable(s: &St) -> St {
    fn clean(t: &str) -> String {
        t.chars().filter(|c| !c.is_control() || "\t\n\r\u{8}\u{c}".contains(*c)).collect()
    }
    fn lit(l: &Lit) -> Lit {
        match l {
            Lit::Plain(t) => Lit::Plain(clean(t)),
            Lit::Lang(t, g) => Lit::Lang(clean(t), g.clone()),
            Lit::Typed(t, g) => Lit::Typed(clean(t), g.clone()),
        }
    }
    fn term(t: &T) -> T {
        match t {
            T::L(l) => T::L(lit(l)),
            T::C(c) => T::C(c.iter().map(term).collect()),
            T::S(s) => T::S(Box::new(printable(s))),
            t => t.clone(),
        }
    }
    St { s: term(&s.s), p: s.p.clone(), o: term(&s.o) }
}

fn display(s: &St) -> R {
    let s = &printable(s);
    let made = s.make()?;
    ensure_eq!(made.to_string(), show_st(s), "statement as displayed");
    ensure_eq!(made.subject().to_string(), show(&s.s, false), "subject as displayed");
    ensure_eq!(made.predicate().to_string(), format!("<{}>", s.p), "predicate as displayed");
    ensure_eq!(made.object().to_string(), show(&s.o, false), "object as displayed");
    ensure_eq!(format!("{:#}", made.object()), show(&s.o, true), "object as displayed by {{:#}}");
    match &s.o {
        T::L(l) => {
            ensure_eq!(l.make()?.to_string(), show_lit(l, false), "literal as displayed");
            ensure_eq!(format!("{:#}", l.make()?), show_lit(l, true), "literal as displayed by {{:#}}");
        }
        T::C(_) => {
            ensure_eq!(made.object().as_collection().unwrap().to_string(), show(&s.o, false), "collection as displayed");
        }
        _ => {}
    }
    if let Ok(n) = s.s.graph_name() {
        ensure_eq!(n.to_string(), show(&s.s, false), "graph name as displayed");
    }
    Ok(!s.is_flat() || matches!(s.o, T::L(_)))
}

// ------------------------------------------------------------------------------------------------
// C08
// ------------------------------------------------------------------------------------------------

fn label_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => pbt::proptest::sample::select("abzAZ09_.-:\u{b7}\u{e9}\u{d7}\u{300}\u{203f}\u{4e2d} %\\/#\u{2c0}\u{10ffff}\u{10000}".chars().collect::<Vec<_>>()),
        1 => any::<char>(),
    ]
    .boxed()
}

fn label_text() -> BoxedStrategy<String> {
    prop_oneof![
        5 => vec(label_char(), 0..6).prop_map(|v| v.into_iter().collect::<String>()),
        2 => gens::label(),
        2 => vec(label_char(), 0..5).prop_map(|v| format!("_:{}", v.into_iter().collect::<String>())),
    ]
    .boxed()
}

fn valid_label(s: &str) -> bool {
    let v: Vec<char> = s.chars().collect();
    match v.as_slice() {
        [] => false,
        [first, rest @ ..] => {
            (grammar::chars_u(*first) || first.is_ascii_digit())
                && rest.iter().all(|c| grammar::pn_chars(*c) || *c == '.')
                && rest.last() != Some(&'.')
        }
    }
}

fn blank_label(s: &String) -> R {
    let bare = s.strip_prefix("_:").unwrap_or(s);
    let want = valid_label(bare);
    label(if want { "valid" } else { "invalid" });
    ensure_eq!(BlankNode::is_valid_str(s), want, "is_valid_str({s:?})");
    let parsed = BlankNode::from_str(s);
    ensure_eq!(parsed.is_ok(), want, "from_str({s:?}) is Ok");
    ensure_eq!(GraphName::blank_named(s).is_ok(), want, "GraphName::blank_named({s:?}) is Ok");
    let Ok(b) = parsed else { return Ok(false) };
    ensure_eq!(AsRef::<str>::as_ref(&b), bare, "label of {s:?}");
    ensure_eq!(b.to_string(), bare, "{s:?} as displayed");
    ensure_eq!(String::from(&b), bare, "String::from");
    ensure_eq!(String::from(b.clone()), bare, "String::from");
    // A label has the form of a local name.
    let name = Name::from_str(bare).map_err(|e| Fail::new(format!("{bare:?} is not a name: {e}")))?;
    ensure_eq!(BlankNode::from(&name), b, "blank node labelled with the name {name}");
    ensure_eq!(BlankNode::from(name), b, "blank node labelled with the name {bare}");
    let node = SubjectNode::from(&b).to_string();
    ensure_eq!(node, format!("_:{bare}"), "subject of {s:?} as displayed");
    ensure_eq!(ObjectNode::from(&b).to_string(), node, "object of {s:?} as displayed");
    ensure_eq!(GraphName::from(&b).to_string(), node, "graph name of {s:?} as displayed");
    let name = GraphName::blank_named(s).unwrap();
    ensure!(name.is_blank() && !name.is_iri() && name.as_iri().is_none(), "{name} is not blank");
    ensure_eq!(name.as_blank(), Some(&b), "as_blank");
    for back in [b.to_string(), node] {
        match BlankNode::from_str(&back) {
            Ok(c) => ensure_eq!(c, b, "{back:?} parsed again"),
            Err(e) => return Err(Fail::new(format!("{back:?} is rejected: {e}"))),
        }
    }
    Ok(true)
}

/// What each process of `generate_processes` does.
pub fn produce(input: &str) {
    for i in 0..input.parse::<usize>().unwrap() {
        println!("{}", if i % 3 == 0 { GraphName::blank().as_blank().unwrap().clone() } else { BlankNode::generate() });
    }
}

/// Labels made by several runs of a program, whose documents may be merged later.
fn generate_processes((processes, each): &(u8, u8)) -> R {
    let mut seen = HashSet::new();
    for b in pbt::produced(*processes as usize, &each.to_string())? {
        ensure!(seen.insert(b.clone()), "label {b} was generated twice by {processes} processes");
    }
    ensure_eq!(seen.len(), *processes as usize * *each as usize, "number of labels");
    Ok(true)
}

fn generate((threads, each): &(u8, u16)) -> R {
    let all: Vec<Vec<BlankNode>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..*threads)
            .map(|n| {
                s.spawn(move || {
                    (0..*each)
                        .map(|i| match (n as u16 + i) % 3 {
                            0 => GraphName::blank().as_blank().unwrap().clone(),
                            _ => BlankNode::generate(),
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut seen = HashSet::new();
    for b in all.into_iter().flatten() {
        let s = b.to_string();
        ensure!(valid_label(&s), "generated label {s:?} is not valid");
        ensure_eq!(BlankNode::from_str(&s).ok(), Some(b), "generated label {s:?} parsed");
        // Nobody writes a label like this by hand.
        ensure!(!gens::LABELS.contains(&s.as_str()) && s.len() > 8, "generated label {s:?} may be in use");
        ensure!(seen.insert(s.clone()), "generated label {s:?} twice");
    }
    Ok(*threads > 1 && *each > 1)
}

// ------------------------------------------------------------------------------------------------
// C15
// ------------------------------------------------------------------------------------------------

fn accessors((a, b): &(St, St)) -> R {
    let (s, p, o) = (a.s.subject()?, terms::iri(&a.p)?, a.o.object()?);
    let x = Statement::new(s.clone(), p.clone(), o.clone());
    ensure_eq!(St::of(&x)?, *a, "Statement::new");
    ensure_eq!(St::of(&Statement::rdf_type(s.clone(), o.clone()))?, st(a.s.clone(), &rdf("type"), a.o.clone()), "Statement::rdf_type");
    // Setting one component leaves the others.
    let mut y = x.clone();
    y.set_subject(b.s.subject()?);
    ensure_eq!(St::of(&y)?, st(b.s.clone(), &a.p, a.o.clone()), "set_subject");
    y.set_predicate(terms::iri(&b.p)?);
    ensure_eq!(St::of(&y)?, st(b.s.clone(), &b.p, a.o.clone()), "set_predicate");
    y.set_object(b.o.object()?);
    ensure_eq!(St::of(&y)?, *b, "set_object");
    ensure_eq!(St::of(&x)?, *a, "the statement cloned from");
    ensure!(x.supports_feature(&FEATURE_RDF_STAR) && x.supports_feature(&FEATURE_STMT_OBJECT_COLLECTIONS), "features of a statement");
    ensure!(!x.supports_feature(&FEATURE_STMT_SUBJECT_COLLECTIONS) && !x.supports_feature(&FEATURE_GRAPH_DUPLICATES), "features of a statement");

    // Subjects.
    for (t, other) in [(&a.s, &b.s), (&b.s, &a.s)] {
        let n = t.subject()?;
        ensure_eq!(n.is_blank(), matches!(t, T::B(_)), "is_blank of {n}");
        ensure_eq!(n.is_resource(), matches!(t, T::I(_)), "is_resource of {n}");
        ensure_eq!(n.is_statement(), matches!(t, T::S(_)), "is_statement of {n}");
        ensure_eq!(n.as_blank().is_some(), n.is_blank(), "as_blank of {n}");
        ensure_eq!(n.as_resource().is_some(), n.is_resource(), "as_resource of {n}");
        ensure_eq!(n.as_statement().is_some(), n.is_statement(), "as_statement of {n}");
        ensure_eq!(T::of_object(&n.to_object())?, *t, "to_object");
        ensure_eq!(n.to_object().to_subject(), Some(n.clone()), "to_object, and back, of {n}");
        ensure!(n.supports_feature(&FEATURE_RDF_STAR) && !n.supports_feature(&FEATURE_STMT_SUBJECT_COLLECTIONS), "features of a subject");
        match other {
            T::B(v) => ensure_eq!(n == terms::blank(v)?, t == other, "{n} == _:{v}"),
            T::I(v) => ensure_eq!(n == terms::iri(v)?, t == other, "{n} == <{v}>"),
            T::S(v) => {
                ensure_eq!(n == v.make()?, t == other, "{n} == {v:?}");
                ensure_eq!(n == Arc::new(v.make()?), t == other, "{n} == {v:?}");
            }
            _ => {}
        }
    }
    // Objects.
    for (t, other) in [(&a.o, &b.o), (&b.o, &a.o), (&a.o, &a.o), (&a.o, &b.s), (&a.s, &b.o)] {
        let n = t.object()?;
        ensure_eq!(n.is_blank(), matches!(t, T::B(_)), "is_blank of {n}");
        ensure_eq!(n.is_resource(), matches!(t, T::I(_)), "is_resource of {n}");
        ensure_eq!(n.is_literal(), matches!(t, T::L(_)), "is_literal of {n}");
        ensure_eq!(n.is_collection(), matches!(t, T::C(_)), "is_collection of {n}");
        ensure_eq!(n.is_statement(), matches!(t, T::S(_)), "is_statement of {n}");
        ensure_eq!(n.as_blank().is_some(), n.is_blank(), "as_blank of {n}");
        ensure_eq!(n.as_resource().is_some(), n.is_resource(), "as_resource of {n}");
        ensure_eq!(n.as_literal().is_some(), n.is_literal(), "as_literal of {n}");
        ensure_eq!(n.as_collection().is_some(), n.is_collection(), "as_collection of {n}");
        ensure_eq!(n.as_statement().is_some(), n.is_statement(), "as_statement of {n}");
        match n.to_subject() {
            Some(s) => ensure_eq!(T::of_subject(&s)?, *t, "to_subject"),
            None => ensure!(matches!(t, T::L(_) | T::C(_)), "to_subject of {n} is None"),
        }
        ensure!(n.supports_feature(&FEATURE_RDF_STAR) && n.supports_feature(&FEATURE_STMT_OBJECT_COLLECTIONS), "features of an object");
        match other {
            T::B(v) => {
                let v = terms::blank(v)?;
                ensure_eq!(n == v, t == other, "{n} == _:{v}");
                let c = Collection::from(&v);
                ensure_eq!(T::of_object(&c.into())?, T::C(vec![other.clone()]), "Collection::from");
            }
            T::I(v) => {
                let v = terms::iri(v)?;
                ensure_eq!(n == v, t == other, "{n} == {v}");
                ensure_eq!(T::of_object(&Collection::from(&v).into())?, T::C(vec![other.clone()]), "Collection::from");
                let g = GraphName::from(&v);
                ensure!(g.is_iri() && !g.is_blank() && g.as_blank().is_none() && g.as_iri() == Some(&v), "{g} is not an IRI");
                ensure_eq!(GraphName::named(v.clone()), g, "GraphName::named");
            }
            T::L(v) => {
                let v = v.make()?;
                ensure_eq!(n == v, t == other, "{n} == {v}");
                ensure_eq!(T::of_object(&Collection::from(&v).into())?, T::C(vec![other.clone()]), "Collection::from");
            }
            T::C(v) => {
                let c = Collection::from(v.iter().map(T::object).collect::<Result<Vec<_>, _>>()?);
                ensure_eq!(n == c, t == other, "{n} == {c}");
                let back: Vec<ObjectNode> = c.clone().into();
                ensure_eq!(back.iter().map(T::of_object).collect::<Result<Vec<_>, _>>()?, *v, "the items of {c}");
                ensure_eq!(back.into_iter().collect::<Collection>(), c, "from_iter");
            }
            T::S(v) => {
                ensure_eq!(n == v.make()?, t == other, "{n} == {v:?}");
                ensure_eq!(n == Arc::new(v.make()?), t == other, "{n} == {v:?}");
                ensure_eq!(T::of_object(&Collection::from(&v.make()?).into())?, T::C(vec![other.clone()]), "Collection::from");
            }
        }
    }
    ensure_eq!(T::of_object(&Collection::from(&o).into())?, T::C(vec![a.o.clone()]), "Collection::from");
    ensure!(Collection::nil().is_empty() && Collection::nil().len() == 0, "nil is not empty");
    Ok(true)
}

fn pair() -> BoxedStrategy<(St, St)> {
    prop_oneof![
        2 => (near_statement(), near_statement()),
        1 => (gens::statement(2), gens::statement(2)),
        1 => near_statement().prop_map(|s| (s.clone(), s)),
    ]
    .boxed()
}

fn is_object(n: impl Into<ObjectNode>, want: &T) -> Result<(), Fail> {
    let n = n.into();
    ensure_eq!(T::of_object(&n)?, *want, "converted to an object");
    ensure_eq!(n, want.object()?, "converted to an object");
    Ok(())
}

fn is_subject(n: impl Into<SubjectNode>, want: &T) -> Result<(), Fail> {
    let n = n.into();
    ensure_eq!(T::of_subject(&n)?, *want, "converted to a subject");
    ensure_eq!(n, want.subject()?, "converted to a subject");
    Ok(())
}

fn is_single(c: impl Into<Collection>, want: &T) -> Result<(), Fail> {
    let c = c.into();
    ensure_eq!(c.len(), 1, "length of a collection made of one item");
    let items: Vec<&ObjectNode> = c.iter().collect();
    ensure_eq!(items.len(), 1, "items of a collection made of one item");
    ensure_eq!(T::of_object(items[0])?, *want, "the item of a collection");
    Ok(())
}

fn is_graph_name(g: impl Into<GraphName>, want: &T) -> Result<(), Fail> {
    let g = g.into();
    ensure_eq!(T::of_graph_name(&g), *want, "converted to a graph name");
    ensure_eq!(g, want.graph_name()?, "converted to a graph name");
    Ok(())
}

/// Every way to make a node, by value and by reference.
fn conversions(t: &T) -> R {
    let o = t.object()?;
    is_object(&o, t)?;
    is_single(o.clone(), t)?;
    is_single(&o, t)?;
    match t {
        T::B(v) => {
            let b = terms::blank(v)?;
            let name = rdftk_iri::Name::from_str(v).map_err(|e| Fail::new(format!("label {v:?} is not a name: {e}")))?;
            for made in [BlankNode::from(name.clone()), BlankNode::from(&name)] {
                ensure_eq!(made, b, "the blank node of the name {v:?}");
            }
            ensure_eq!(b.to_qname().to_string(), format!("_:{v}"), "to_qname of the blank node {v:?}");
            is_object(b.clone(), t)?;
            is_object(&b, t)?;
            is_object(name.clone(), t)?;
            is_object(&name, t)?;
            is_subject(b.clone(), t)?;
            is_subject(&b, t)?;
            is_subject(name.clone(), t)?;
            is_subject(&name, t)?;
            is_single(b.clone(), t)?;
            is_single(&b, t)?;
            is_single(name.clone(), t)?;
            is_single(&name, t)?;
            is_graph_name(b.clone(), t)?;
            is_graph_name(&b, t)?;
            is_graph_name(name.clone(), t)?;
            is_graph_name(&name, t)?;
        }
        T::I(v) => {
            let i = terms::iri(v)?;
            is_object(i.clone(), t)?;
            is_object(&i, t)?;
            is_subject(i.clone(), t)?;
            is_subject(&i, t)?;
            is_single(i.clone(), t)?;
            is_single(&i, t)?;
            is_graph_name(i.clone(), t)?;
            is_graph_name(&i, t)?;
        }
        T::L(v) => {
            let l = v.make()?;
            is_object(l.clone(), t)?;
            is_object(&l, t)?;
            is_single(l.clone(), t)?;
            is_single(&l, t)?;
        }
        T::C(v) => {
            let c = Collection::from(v.iter().map(T::object).collect::<Result<Vec<_>, _>>()?);
            is_object(c.clone(), t)?;
            is_object(&c, t)?;
        }
        T::S(v) => {
            let s = v.make()?;
            let a = Arc::new(s.clone());
            is_object(s.clone(), t)?;
            is_object(&s, t)?;
            is_object(a.clone(), t)?;
            is_object(&a, t)?;
            is_subject(s.clone(), t)?;
            is_subject(&s, t)?;
            is_subject(a.clone(), t)?;
            is_subject(&a, t)?;
            is_single(s.clone(), t)?;
            is_single(&s, t)?;
            is_single(a.clone(), t)?;
            is_single(&a, t)?;
        }
    }
    if let Some(n) = o.to_subject() {
        is_subject(&n, t)?;
        match t {
            T::S(_) => {
                // There is no such graph name.
                if let Err(e) = pbt::no_panic(|| GraphName::from(n)) {
                    return Err(Fail::sig("statement-as-graph-name", format!("the graph name of {t:?}: {e}")));
                }
                return Err(Fail::new(format!("there is a graph name of {t:?}")));
            }
            _ => is_graph_name(n, t)?,
        }
    }
    Ok(true)
}

/// Every feature, of every kind of thing that has features.
fn features(_: &u8) -> R {
    let all: Vec<&Iri> = vec![
        &FEATURE_COMBINED_DEFAULT, &FEATURE_STMT_SUBJECT_COLLECTIONS, &FEATURE_STMT_OBJECT_COLLECTIONS,
        &FEATURE_GRAPH_ALLOWS_NAMED, &FEATURE_GRAPH_DUPLICATES, &FEATURE_RDF_STAR, &FEATURE_N3_FORMULAE,
        &FEATURE_IDX_SUBJECT, &FEATURE_IDX_PREDICATE, &FEATURE_IDX_OBJECT, &FEATURE_IDX_SUBJECT_PREDICATE,
        &FEATURE_IDX_SUBJECT_PREDICATE_OBJECT, &FEATURE_IDX_SUBJECT_OBJECT, &FEATURE_IDX_PREDICATE_OBJECT,
        &FEATURE_IDX_GRAPH, &FEATURE_IDX_SUBJECT_GRAPH, &FEATURE_IDX_PREDICATE_GRAPH, &FEATURE_IDX_OBJECT_GRAPH,
        &FEATURE_IDX_SUBJECT_PREDICATE_GRAPH, &FEATURE_IDX_SUBJECT_PREDICATE_OBJECT_GRAPH,
        &FEATURE_IDX_SUBJECT_OBJECT_GRAPH, &FEATURE_IDX_PREDICATE_OBJECT_GRAPH,
    ];
    let distinct: HashSet<&str> = all.iter().map(|i| AsRef::<str>::as_ref(*i)).collect();
    ensure_eq!(distinct.len(), all.len(), "number of distinct feature IRIs");
    Ok(true)
}

pub fn properties() -> Vec<Property> {
    let _ = RDF;
    vec![
        Property {
            id: "C05",
            rule: "Statements nested to depth 3, and collections of up to 6 items nested to depth 2, against an independent reification, up to the labels of the new blank nodes. Non-trivial: nested, or more than one item. Large ones: up to 320 members long, or 25 deep.",
            assumptions: &[],
            facets: vec![
                Box::new(Gen { name: "statement", quick: 60_000, thorough: 800_000, strategy: || prop_oneof![2 => gens::statement(2), 1 => gens::statement(3)].boxed(), test: reify_statement }),
                Box::new(Gen { name: "collection", quick: 60_000, thorough: 800_000, strategy: || vec(gens::object(2), 0..6).boxed(), test: reify_collection }),
                Box::new(Gen { name: "large", quick: 2_000, thorough: 20_000, strategy: || prop_oneof![vec(gens::object(1), 15..120), vec(gens::flat_object(), 250..320), vec(gens::large_object(), 1..3)].boxed(), test: reify_collection }),
            ],
        },
        Property {
            id: "C06",
            rule: "Up to 6 terms at a time that differ in one respect only, all pairs and triples. Non-trivial: two of them are equal.",
            assumptions: &[],
            facets: vec![
                Box::new(Gen { name: "objects", quick: 75_000, thorough: 800_000, strategy: || vec(near_object(), 2..7).boxed(), test: order_objects }),
                Box::new(Gen { name: "subjects", quick: 50_000, thorough: 500_000, strategy: || vec(near_subject(), 2..7).boxed(), test: order_subjects }),
                Box::new(Gen { name: "statements", quick: 50_000, thorough: 500_000, strategy: variations, test: order_statements }),
            ],
        },
        Property {
            id: "C07",
            rule: "Statements nested to depth 2 against an independent printer; control characters that have no escape of their own are left out. Non-trivial: nested, or the object is a literal.",
            assumptions: &[],
            facets: vec![Box::new(Gen { name: "display", quick: 150_000, thorough: 1_500_000, strategy: || prop_oneof![gens::statement(2), gens::flat_statement()].boxed(), test: display })],
        },
        Property {
            id: "C08",
            rule: "Labels from characters at the edges of the grammar's classes, with and without '_:', against the BLANK_NODE_LABEL production; labels generated by up to 8 threads at once, and by up to 4 processes. Non-trivial: a valid label; more than one thread.",
            assumptions: &["the production is that of Turtle 1.1; N-Triples also allows ':'"],
            facets: vec![
                Box::new(Gen { name: "labels", quick: 300_000, thorough: 4_000_000, strategy: label_text, test: blank_label }),
                Box::new(Gen { name: "generate", quick: 1_000, thorough: 5_000, strategy: || (1u8..9, 0u16..400).boxed(), test: generate }),
                Box::new(Gen { name: "processes", quick: 30, thorough: 2_000, strategy: || (2u8..5, 1u8..60).boxed(), test: generate_processes }),
            ],
        },
        Property {
            id: "C15",
            rule: "Pairs of statements, equal, nearly equal, or nested to depth 2: every accessor, conversion, and comparison between a node and what it may hold; a term at a time: every conversion into it, by value and by reference. Every case is non-trivial.",
            assumptions: &[],
            facets: vec![
                Box::new(Gen { name: "accessors", quick: 100_000, thorough: 1_000_000, strategy: pair, test: accessors }),
                Box::new(Gen { name: "conversions", quick: 100_000, thorough: 1_000_000, strategy: || prop_oneof![3 => near_object(), 2 => near_subject(), 1 => gens::object(2)].boxed(), test: conversions }),
                Box::new(Enumerate { name: "features", items: |_| Box::new([0u8].into_iter()), test: features }),
            ],
        },
    ]
}

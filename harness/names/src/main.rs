//! V02: the vocabularies of rdftk_names.

mod table;

use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_iri::{Iri, IriPrefixMap, LocalName, Name, Namespace};
use std::str::FromStr;
use std::sync::LazyLock;

type Term = (&'static str, &'static str, fn() -> &'static Iri, fn() -> &'static str, fn() -> &'static str);

pub struct Entry {
    module: &'static str,
    prefix: &'static str,
    namespace: &'static str,
    default_prefix: fn() -> &'static Name,
    ns: fn() -> &'static Iri,
    ns_str: fn() -> &'static str,
    terms: Vec<Term>,
}

static ALL: LazyLock<Vec<Entry>> = LazyLock::new(|| {
    let mut all = table::all();
    all.extend(mine());
    all
});

/// Names the crate offers in a namespace that does not define them: the IRI it gives is recognised
/// and reported under this signature, anything else for that name is an ordinary violation.
const UNDEFINED: &[(&str, &str)] = &[
    ("xsd", "ns"),
    ("owl", "version"),
    ("rdfs", "lang_string"),
    ("rdfs", "html_literal"),
    ("rdfs", "xml_literal"),
    ("rdfs", "property"),
    ("rdfs", "value"),
];

// Namespaces made by the macro here, with the sorts of names a user may have.
macro_rules! own {
    ($out:ident, $m:ident, $prefix:literal, $ns:literal, { $($f:ident $s:ident $q:ident $name:literal),* $(,)? }) => {
        mod $m {
            rdftk_names::namespace! { $prefix, $ns, { $($f, $name),* } }
        }
        fn $out() -> Entry {
            Entry {
                module: stringify!($m), prefix: $prefix, namespace: $ns,
                default_prefix: || $m::default_prefix(), ns: || $m::namespace(), ns_str: || $m::namespace_str(),
                terms: vec![$((stringify!($f), $name, || $m::$f(), || $m::$s(), || $m::$q())),*],
            }
        }
    };
}
own!(own1, ends_in_slash, "p", "http://example.com/schema/", { foo foo_str foo_qname "foo", bar bar_str bar_qname "Bar" });
own!(own2, ends_in_hash, "p-2.x", "http://example.com/schema#", { foo foo_str foo_qname "foo", x1 x1_str x1_qname "1st", dash dash_str dash_qname "a-b.c" });
own!(own3, with_query, "q", "http://example.com/schema?v=1#", { foo foo_str foo_qname "foo" });
own!(own4, urn, "u", "urn:example:schema#", { foo foo_str foo_qname "foo", foo2 foo2_str foo2_qname "foo2", same same_str same_qname "Foo" });
own!(own5, other_scheme, "h", "heep://schema/com/p#", { foo foo_str foo_qname "Foo" });

fn mine() -> Vec<Entry> {
    vec![own1(), own2(), own3(), own4(), own5()]
}

fn txt(i: &Iri) -> String {
    AsRef::<str>::as_ref(i).to_string()
}

fn head(m: &usize) -> R {
    let e = &ALL[*m];
    ensure_eq!((e.ns_str)(), e.namespace, "{}::namespace_str()", e.module);
    ensure_eq!(txt((e.ns)()), e.namespace, "{}::namespace()", e.module);
    ensure_eq!(AsRef::<str>::as_ref((e.default_prefix)()), e.prefix, "{}::default_prefix()", e.module);
    Ok(true)
}

fn term(&(m, t): &(usize, usize)) -> R {
    let e = &ALL[m];
    let (f, name, iri, str, qname) = &e.terms[t];
    ensure_eq!(txt(iri()), format!("{}{name}", e.namespace), "{}::{f}()", e.module);
    ensure_eq!(str(), *name, "{}::{f}_str()", e.module);
    ensure_eq!(qname(), format!("{}:{name}", e.prefix), "{}::{f}_qname()", e.module);
    // The same value at every call.
    ensure!(std::ptr::eq(iri(), iri()) && iri() == iri(), "{}::{f}() differs between calls", e.module);
    ensure_eq!(iri(), &Iri::from_str(&format!("{}{name}", e.namespace)).map_err(|e| Fail::new(e.to_string()))?, "{}::{f}() as an IRI", e.module);
    if UNDEFINED.contains(&(e.module, f)) {
        return Err(Fail::sig(
            format!("{}::{f}", e.module),
            format!("{}::{f}() is {}, a name that vocabulary does not define", e.module, iri()),
        ));
    }
    Ok(true)
}

fn member(n: &usize) -> R {
    let i = rdftk_names::rdf::member(*n);
    ensure_eq!(txt(&i), format!("http://www.w3.org/1999/02/22-rdf-syntax-ns#_{n}"), "rdf::member({n})");
    ensure_eq!(rdftk_names::rdf::member_qname(*n), format!("rdf:_{n}"), "rdf::member_qname({n})");
    Ok(*n > 9)
}

/// The qualified names of several vocabularies and their IRIs are translations of each other in
/// a prefix map of the vocabularies' own prefixes.
fn mapped((modules, terms): &(Vec<usize>, Vec<(usize, usize)>)) -> R {
    let err = |e: &dyn std::fmt::Display| Fail::new(e.to_string());
    let mut map = IriPrefixMap::empty();
    let mut declared: Vec<usize> = vec![];
    for m in modules {
        let e = &ALL[*m];
        if declared.iter().any(|d| ALL[*d].prefix == e.prefix) {
            continue;
        }
        declared.push(*m);
        map.insert(Namespace::new_named((e.default_prefix)()).map_err(|e| err(&e))?, (e.ns)().clone());
    }
    let mut hit = 0;
    for (m, t) in terms {
        let m = modules[m % modules.len()];
        let e = &ALL[m];
        let (f, _, iri, str, qname) = &e.terms[t % e.terms.len()];
        let name = LocalName::from_str(qname()).map_err(|e| err(&e))?;
        ensure_eq!(AsRef::<str>::as_ref(name.name()), str(), "name in {}::{f}_qname()", e.module);
        if !declared.contains(&m) {
            continue;
        }
        hit += 1;
        ensure_eq!(
            map.expand(&name).as_ref().map(txt),
            Some(txt(iri())),
            "expansion of {}::{f}_qname()",
            e.module
        );
        ensure_eq!(
            map.compress(iri()).map(|n| n.to_string()),
            Some(qname().to_string()),
            "short form of {}::{f}()",
            e.module
        );
        // Two vocabularies never give the same IRI.
        for other in declared.iter().filter(|o| **o != m) {
            for (g, _, i, ..) in &ALL[*other].terms {
                ensure!(i() != iri(), "{}::{f}() == {}::{g}()", e.module, ALL[*other].module);
            }
        }
        label(e.module);
    }
    Ok(hit > 1)
}

fn main() {
    pbt::main_with(vec![Property {
        id: "V02",
        rule: "All modules and all their terms, and namespaces declared here with the macro, are enumerated (every case counts) against a table written from the vocabularies; container member numbers over the whole of usize (non-trivial: several digits); random selections of vocabularies with their names looked up in a prefix map (non-trivial: at least two names).",
        assumptions: &["the table in harness/names/src/table.rs is what the vocabularies define"],
        facets: vec![
            Box::new(Enumerate { name: "modules", items: |_| Box::new(0..ALL.len()), test: head }),
            Box::new(Enumerate {
                name: "terms",
                items: |_| Box::new((0..ALL.len()).flat_map(|m| (0..ALL[m].terms.len()).map(move |t| (m, t)))),
                test: term,
            }),
            Box::new(Gen {
                name: "member",
                quick: 50_000,
                thorough: 2_000_000,
                strategy: || prop_oneof![0..20usize, any::<usize>(), (0..64u32).prop_map(|b| 1usize << b), Just(usize::MAX)].boxed(),
                test: member,
            }),
            Box::new(Gen {
                name: "prefix map",
                quick: 20_000,
                thorough: 400_000,
                strategy: || (vec(0..ALL.len(), 1..8), vec((any::<usize>(), any::<usize>()), 1..8)).boxed(),
                test: mapped,
            }),
        ],
    }])
}

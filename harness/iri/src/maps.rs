//! M01..M05, S01, V01: prefix maps, serialised forms and the bundled vocabularies.

use crate::gens::*;
use crate::grammar::pct;
use crate::iris::{iri, stable};
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label};
use proptest::prelude::*;
use proptest::sample::select;
use rdftk_iri::vocab::*;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName};
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use url::Url;

fn ns(p: &str) -> Result<Namespace, Fail> {
    Namespace::from_str(&format!("{p}:")).map_err(|e| Fail::new(e.to_string()))
}
fn nm(n: &str) -> Result<Name, Fail> {
    Name::from_str(n).map_err(|e| Fail::new(e.to_string()))
}
fn txt(i: &Iri) -> String {
    AsRef::<str>::as_ref(i).to_string()
}

pub fn vocabularies() -> Vec<Vocabulary> {
    vec![
        VOCABULARY_CAL,
        VOCABULARY_DBPEDIA,
        VOCABULARY_DC_ELEMENTS,
        VOCABULARY_DC_TERMS,
        VOCABULARY_DOAP,
        VOCABULARY_FOAF,
        VOCABULARY_GEO_NAMES,
        VOCABULARY_ISO_SKOS,
        VOCABULARY_OPEN_GIS,
        VOCABULARY_ORG,
        VOCABULARY_OWL,
        VOCABULARY_RDF,
        VOCABULARY_RDF_SCHEMA,
        VOCABULARY_SIOC,
        VOCABULARY_SKOS,
        VOCABULARY_SKOS_XL,
        VOCABULARY_VANN,
        VOCABULARY_VOID,
        VOCABULARY_WOT,
        VOCABULARY_XML,
        VOCABULARY_XML_SCHEMA,
    ]
}

// --- reference model ----------------------------------------------------------------------------

/// One-to-one association of prefix texts (without separator) and IRI texts; the latest wins.
#[derive(Clone, Default, PartialEq, Debug)]
struct Model(Vec<(String, String)>);

impl Model {
    fn put(&mut self, p: &str, i: &str) {
        let i = Url::parse(i).unwrap().to_string();
        self.0.retain(|(q, j)| q != p && *j != i);
        self.0.push((p.into(), i));
    }
    fn del(&mut self, p: &str) {
        self.0.retain(|(q, _)| q != p);
    }
    fn get(&self, p: &str) -> Option<&str> {
        self.0.iter().find(|(q, _)| q == p).map(|x| x.1.as_str())
    }
    fn rev(&self, i: &str) -> Option<&str> {
        self.0.iter().find(|(_, j)| j == i).map(|x| x.0.as_str())
    }
    fn standard() -> Self {
        let mut m = Model::default();
        for p in ["rdf", "rdfs", "xsd", "owl"] {
            m.put(p, VOCABS.iter().find(|v| v.0 == p).unwrap().1);
        }
        m
    }
    fn common() -> Self {
        let mut m = Model::standard();
        for p in ["dcterms", "skos", "void"] {
            m.put(p, VOCABS.iter().find(|v| v.0 == p).unwrap().1);
        }
        m
    }
}

/// Everything observable about a map agrees with the model; probes cover absent keys too.
fn agree(map: &IriPrefixMap, model: &Model, prefixes: &[String], iris: &[String]) -> Result<(), Fail> {
    ensure_eq!(map.len(), model.0.len(), "number of mappings");
    ensure_eq!(map.is_empty(), model.0.is_empty(), "emptiness");
    let mut want = model.0.clone();
    want.sort();
    let mut got: Vec<(String, String)> = map
        .mappings()
        .map(|(p, i)| (p.name_string().unwrap_or("").to_string(), txt(i)))
        .collect();
    got.sort();
    ensure_eq!(got, want, "mappings listed");
    let mut got: Vec<String> =
        map.prefixes().map(|p| p.name_string().unwrap_or("").to_string()).collect();
    got.sort();
    ensure_eq!(got, want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), "prefixes listed");
    let mut got: Vec<String> = map.iris().map(txt).collect();
    got.sort();
    let mut wi: Vec<String> = want.iter().map(|x| x.1.clone()).collect();
    wi.sort();
    ensure_eq!(got, wi, "namespaces listed");
    for p in prefixes {
        ensure_eq!(map.get_namespace(&ns(p)?).map(txt), model.get(p).map(String::from), "namespace of prefix {p:?}");
    }
    for (p, i) in &want {
        ensure_eq!(map.get_namespace(&ns(p)?).map(txt).as_ref(), Some(i), "namespace of prefix {p:?}");
    }
    for i in iris {
        let i = iri(i)?;
        ensure_eq!(
            map.get_prefix(&i).map(|p| p.name_string().unwrap_or("").to_string()),
            model.rev(&txt(&i)).map(String::from),
            "prefix of namespace {i}"
        );
    }
    ensure_eq!(map.get_default_namespace().map(txt), model.get("").map(String::from), "default namespace");
    Ok(())
}

// --- M01 ----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Insert(String, String),
    With(String, String),
    SetDefault(String),
    WithDefault(String),
    RemoveDefault,
    Remove(String),
    Clear,
    Vocab(u8),
    WithVocab(u8),
    /// Mutate a clone; the original must not change.
    CloneInsert(String, String),
    CloneClear,
    /// Replace by the value read back from JSON.
    Json,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    start: u8,
    ops: Vec<Op>,
}

fn pool_prefix() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec!["", "a", "b", "c", "rdf", "owl", "rdfs", "xsd", "A", "a.b", "skos"]).prop_map(String::from),
        1 => prefix(),
    ]
    .boxed()
}

fn pool_iri() -> BoxedStrategy<String> {
    prop_oneof![
        8 => select(vec![
            "http://e/", "http://e/#", "http://e/a", "http://e/a#", "http://e/a/", "HTTP://E/a/", "urn:x:y",
            "http://www.w3.org/2002/07/owl#", "http://www.w3.org/1999/02/22-rdf-syntax-ns#", "http://e/?q#",
            "http://www.w3.org/2004/02/skos/core#",
        ])
        .prop_map(String::from),
        1 => namespace_text().prop_filter("an IRI", |t| stable(t).is_some()),
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (pool_prefix(), pool_iri()).prop_map(|(p, i)| Op::Insert(p, i)),
        2 => (pool_prefix(), pool_iri()).prop_map(|(p, i)| Op::With(p, i)),
        2 => pool_iri().prop_map(Op::SetDefault),
        1 => pool_iri().prop_map(Op::WithDefault),
        1 => Just(Op::RemoveDefault),
        3 => pool_prefix().prop_map(Op::Remove),
        1 => Just(Op::Clear),
        1 => (0..21u8).prop_map(Op::Vocab),
        1 => (0..21u8).prop_map(Op::WithVocab),
        1 => (pool_prefix(), pool_iri()).prop_map(|(p, i)| Op::CloneInsert(p, i)),
        1 => Just(Op::CloneClear),
        1 => Just(Op::Json),
    ]
    .boxed()
}

/// Many mappings.
fn wide_prefix() -> BoxedStrategy<String> {
    prop_oneof![6 => (0..60u8).prop_map(|k| format!("p{k}")), 1 => pool_prefix()].boxed()
}

fn wide_iri() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0..60u8).prop_map(|k| format!("http://e/{k}/")),
        2 => (0..60u8).prop_map(|k| format!("http://e/n{k}#")),
        1 => pool_iri(),
    ]
    .boxed()
}

fn long_history() -> BoxedStrategy<History> {
    let op = prop_oneof![
        20 => (wide_prefix(), wide_iri()).prop_map(|(p, i)| Op::Insert(p, i)),
        4 => (wide_prefix(), wide_iri()).prop_map(|(p, i)| Op::With(p, i)),
        4 => wide_prefix().prop_map(Op::Remove),
        2 => wide_iri().prop_map(Op::SetDefault),
        1 => Just(Op::RemoveDefault),
        1 => (0..21u8).prop_map(Op::Vocab),
        1 => (wide_prefix(), wide_iri()).prop_map(|(p, i)| Op::CloneInsert(p, i)),
        1 => Just(Op::Json),
    ];
    (0..3u8, prop::collection::vec(op, 40..150)).prop_map(|(start, ops)| History { start, ops }).boxed()
}

fn wide_content() -> BoxedStrategy<Content> {
    let all = (0..3u8, 100..300u16).prop_map(|(start, n)| (start, (0..n).map(|k| (format!("p{k}"), format!("http://e/{k}#"))).collect()));
    let some = (0..3u8, prop::collection::vec((wide_prefix(), prop_oneof![8 => wide_iri(), 1 => namespace_text().prop_filter("an IRI", |t| stable(t).is_some())]), 10..80));
    prop_oneof![1 => all, 6 => some].boxed()
}

fn start_map(k: u8) -> (IriPrefixMap, Model) {
    match k % 3 {
        0 => (IriPrefixMap::empty(), Model::default()),
        1 => (IriPrefixMap::default(), Model::standard()),
        _ => (IriPrefixMap::common(), Model::common()),
    }
}

fn history(h: &History) -> R {
    let (mut map, mut model) = start_map(h.start);
    let mut prefixes: Vec<String> =
        ["", "a", "b", "rdf", "owl", "zz"].iter().map(|s| s.to_string()).collect();
    let mut iris: Vec<String> =
        ["http://e/", "http://e/a#", "http://zz/", "urn:x:y"].iter().map(|s| s.to_string()).collect();
    let vocab = vocabularies();
    let mut replaced = false;
    agree(&map, &model, &prefixes, &iris)?;
    for (k, o) in h.ops.iter().enumerate() {
        let mut note = |p: &str, i: &str, m: &Model| {
            let t = Url::parse(i).unwrap().to_string();
            let by_p = m.get(p).is_some_and(|j| j != t);
            let by_i = m.rev(&t).is_some_and(|q| q != p);
            if by_p && by_i {
                label("insert replaces two mappings");
            } else if by_p {
                label("insert replaces by prefix");
            } else if by_i {
                label("insert replaces by namespace");
            }
            replaced |= by_p || by_i;
            prefixes.push(p.to_string());
            iris.push(i.to_string());
        };
        match o {
            Op::Insert(p, i) => {
                note(p, i, &model);
                map.insert(ns(p)?, iri(i)?);
                model.put(p, i);
            }
            Op::With(p, i) => {
                note(p, i, &model);
                map = map.with(ns(p)?, iri(i)?);
                model.put(p, i);
            }
            Op::SetDefault(i) => {
                note("", i, &model);
                map.set_default_namespace(iri(i)?);
                model.put("", i);
            }
            Op::WithDefault(i) => {
                note("", i, &model);
                map = map.with_default(iri(i)?);
                model.put("", i);
            }
            Op::RemoveDefault => {
                map.remove_default_namespace();
                model.del("");
            }
            Op::Remove(p) => {
                label(if model.get(p).is_some() { "remove present" } else { "remove absent" });
                map.remove(&ns(p)?);
                model.del(p);
            }
            Op::Clear => {
                map.clear();
                model = Model::default();
            }
            Op::Vocab(v) => {
                let v = &vocab[*v as usize % vocab.len()];
                note(v.prefix(), v.iri(), &model);
                map.insert_vocabulary(v);
                model.put(v.prefix(), v.iri());
            }
            Op::WithVocab(v) => {
                let v = &vocab[*v as usize % vocab.len()];
                note(v.prefix(), v.iri(), &model);
                map = map.with_vocabulary(v);
                model.put(v.prefix(), v.iri());
            }
            Op::CloneInsert(p, i) => {
                let mut c = map.clone();
                ensure!(c == map, "a clone differs from its original");
                c.insert(ns(p)?, iri(i)?);
                let mut m = model.clone();
                m.put(p, i);
                agree(&c, &m, &prefixes, &iris)?;
            }
            Op::CloneClear => {
                let mut c = map.clone();
                c.clear();
                agree(&c, &Model::default(), &prefixes, &iris)?;
            }
            Op::Json => {
                let j = serde_json::to_string(&map).map_err(|e| Fail::new(e.to_string()))?;
                let back: IriPrefixMap =
                    serde_json::from_str(&j).map_err(|e| Fail::new(format!("{j}: {e}")))?;
                ensure!(back == map, "map read back from {j} differs");
                map = back;
            }
        }
        agree(&map, &model, &prefixes, &iris)
            .map_err(|f| Fail::new(format!("after step {} ({o:?}): {}", k + 1, f.msg)))?;
    }
    // Equality is by content, not by history.
    let mut again = IriPrefixMap::empty();
    let mut sorted = model.0.clone();
    sorted.sort_by(|a, b| b.cmp(a));
    for (p, i) in &sorted {
        again.insert(ns(p)?, iri(i)?);
    }
    ensure!(again == map, "maps with the same mappings differ");
    if let Some((p, _)) = sorted.first() {
        again.remove(&ns(p)?);
        ensure!(again != map, "maps with different mappings are equal");
    }
    Ok(replaced)
}

fn m01() -> Property {
    Property {
        id: "M01",
        rule: "histories of 1-40 operations (insert, builder, default prefix, vocabulary, remove, clear, clone, JSON) over a small pool of prefixes and namespaces so that inserts collide, compared after every step with a list model; non-trivial = some insert replaced an existing mapping Large ones: of up to 150 operations with up to 120 mappings.",
        assumptions: &[],
        facets: vec![Box::new(Gen::<History> {
            name: "histories",
            quick: 320_000,
            thorough: 15_000_000,
            strategy: || {
                (0..3u8, prop::collection::vec(op(), 1..40))
                    .prop_map(|(start, ops)| History { start, ops })
                    .boxed()
            },
            test: history,
        }), Box::new(Gen::<History> { name: "long", quick: 3_000, thorough: 300_000, strategy: long_history, test: history })],
    }
}

// --- M02 ----------------------------------------------------------------------------------------

type Content = (u8, Vec<(String, String)>);

fn built(c: &Content) -> Result<(IriPrefixMap, Model), Fail> {
    let (mut map, mut model) = start_map(c.0);
    for (p, i) in &c.1 {
        map.insert(ns(p)?, iri(i)?);
        model.put(p, i);
    }
    Ok((map, model))
}

fn content() -> BoxedStrategy<Content> {
    (
        0..3u8,
        prop::collection::vec(
            (pool_prefix(), prop_oneof![2 => pool_iri(), 3 => namespace_text()]),
            0..6,
        ),
    )
        .prop_filter("stable IRIs", |c| c.1.iter().all(|x| stable(&x.1).is_some()))
        .boxed()
}

fn expand((c, p, n): &(Content, String, String)) -> R {
    let (map, model) = built(c)?;
    let mut keys: Vec<String> = model.0.iter().map(|x| x.0.clone()).collect();
    keys.push(p.clone());
    let mut expanded = false;
    for p in keys {
        let q = LocalName::new(ns(&p)?, nm(n)?);
        let got = map.expand(&q);
        match model.get(&p) {
            None => {
                ensure_eq!(got, None, "expansion of {q} with an unknown prefix");
                label("unknown prefix");
            }
            Some(i) => {
                let u = Url::parse(i).unwrap();
                let is_ns = match u.fragment() {
                    Some(f) => f.is_empty(),
                    None => u.query().is_none() && u.path().ends_with('/'),
                };
                if is_ns {
                    ensure_eq!(got.as_ref().map(txt), Some(format!("{i}{}", pct(n))), "expansion of {q}");
                    expanded = true;
                    label("expanded");
                } else if u.fragment().is_none() {
                    ensure_eq!(got, None, "expansion of {q} in <{i}>, which is not a namespace");
                    label("not a namespace");
                }
            }
        }
    }
    Ok(expanded)
}

fn m02() -> Property {
    Property {
        id: "M02",
        rule: "maps built from a standard start plus up to five generated mappings; a generated local name is expanded under every mapped prefix and one more; non-trivial = some expansion succeeded Large ones: of up to 300 mappings.",
        assumptions: &["mappings to IRIs with a non-empty fragment are not namespaces; expanding under them is unspecified and not checked"],
        facets: vec![Box::new(Gen::<(Content, String, String)> {
            name: "expand",
            quick: 480_000,
            thorough: 30_000_000,
            strategy: || (content(), pool_prefix(), prop_oneof![local(), ascii_local()]).boxed(),
            test: expand,
        }), Box::new(Gen::<(Content, String, String)> {
            name: "large",
            quick: 20_000,
            thorough: 500_000,
            strategy: || (wide_content(), wide_prefix(), prop_oneof![local(), ascii_local()]).boxed(),
            test: expand,
        })],
    }
}

// --- M03 ----------------------------------------------------------------------------------------

fn check_compress(map: &IriPrefixMap, model: &Model, i: &Iri) -> Result<bool, Fail> {
    let got = map.compress(i);
    let r = map.compress_to_iriref(i);
    match &got {
        Some(q) => {
            ensure_eq!(r, IriRef::PrefixedName(PrefixedName::Local(q.clone())), "reference form of {i}");
            ensure_eq!(map.expand(q), Some(i.clone()), "expansion of {q}, the short form of {i}");
            let p = q.namespace().name_string().unwrap_or("");
            ensure!(model.get(p).is_some(), "{i} shortened with unmapped prefix {p:?}");
            ensure_eq!(
                txt(i),
                format!("{}{}", model.get(p).unwrap(), pct(q.name().as_ref())),
                "namespace and name of short form {q}"
            );
            label("shortened");
        }
        None => {
            ensure_eq!(r, IriRef::Iri(i.clone()), "reference form of {i}");
            label("not shortened");
            if let Some((n, name)) = i.split() {
                ensure_eq!(model.rev(&txt(&n)), None, "{i} is {name} in mapped namespace {n} but is not shortened");
            }
        }
    }
    Ok(got.is_some())
}

fn compress((c, n, others): &(Content, String, Vec<String>)) -> R {
    let (map, model) = built(c)?;
    let mut some = false;
    for (p, i) in &model.0 {
        let nsi = iri(i)?;
        // The namespace itself, and text next to it.
        check_compress(&map, &model, &nsi)?;
        let u = Url::parse(i).unwrap();
        let is_ns = match u.fragment() {
            Some(f) => f.is_empty(),
            None => u.query().is_none() && u.path().ends_with('/'),
        };
        if !is_ns || u.fragment().is_some_and(|f| !f.is_empty()) {
            continue;
        }
        // Every name in a mapped namespace is shortened back to itself.
        let full = iri(&format!("{i}{}", pct(n)))?;
        let q = LocalName::new(ns(p)?, nm(n)?);
        ensure_eq!(map.compress(&full), Some(q.clone()), "short form of {full}");
        ensure_eq!(map.expand(&q), Some(full.clone()), "expansion of {q}");
        some |= check_compress(&map, &model, &full)?;
        for t in [format!("{i}{}/x", pct(n)), format!("{i}{}?q=1", pct(n)), format!("{i}-{n}")] {
            if stable(&t).is_some() {
                check_compress(&map, &model, &iri(&t)?)?;
            }
        }
    }
    for t in others {
        if stable(t).is_some() {
            check_compress(&map, &model, &iri(t)?)?;
        }
    }
    Ok(some)
}

fn m03() -> Property {
    Property {
        id: "M03",
        rule: "maps built from a standard start plus up to five generated mappings; IRIs made from each mapped namespace and a generated name, near misses of them, the namespaces themselves and unrelated IRIs are shortened and expanded back; non-trivial = some IRI was shortened Large ones: of up to 300 mappings.",
        assumptions: &[],
        facets: vec![Box::new(Gen::<(Content, String, Vec<String>)> {
            name: "compress",
            quick: 480_000,
            thorough: 30_000_000,
            strategy: || {
                (content(), prop_oneof![local(), ascii_local()], prop::collection::vec(iri_text(), 0..4))
                    .boxed()
            },
            test: compress,
        }), Box::new(Gen::<(Content, String, Vec<String>)> {
            name: "large",
            quick: 10_000,
            thorough: 300_000,
            strategy: || (wide_content(), prop_oneof![local(), ascii_local()], prop::collection::vec(iri_text(), 0..4)).boxed(),
            test: compress,
        })],
    }
}

// --- M04 ----------------------------------------------------------------------------------------

fn listing(c: &Content) -> R {
    let (map, model) = built(c)?;
    let s = map.to_string();
    let lines: Vec<&str> = s.lines().map(|l| l.trim_matches(' ')).filter(|l| !l.is_empty()).collect();
    ensure!(lines.len() == model.0.len() + 2, "{} lines for {} mappings: {s}", lines.len(), model.0.len());
    let mut body: Vec<Vec<&str>> =
        lines[1..lines.len() - 1].iter().map(|l| l.split(' ').filter(|w| !w.is_empty()).take(2).collect()).collect();
    body.sort();
    let mut want: Vec<[String; 2]> =
        model.0.iter().map(|(p, i)| [format!("{p}:"), format!("<{i}>")]).collect();
    want.sort();
    let got: Vec<[String; 2]> =
        body.iter().map(|v| [v[0].to_string(), v.get(1).unwrap_or(&"").to_string()]).collect();
    ensure_eq!(got, want, "printed mappings");
    Ok(!model.0.is_empty())
}

fn m04() -> Property {
    Property {
        id: "M04",
        rule: "maps built from a standard start plus up to five generated mappings are printed and the printed lines compared with the mappings; non-trivial = at least one mapping Large ones: of up to 300 mappings.",
        assumptions: &[],
        facets: vec![Box::new(Gen::<Content> {
            name: "listing",
            quick: 320_000,
            thorough: 10_000_000,
            strategy: || content(),
            test: listing,
        }), Box::new(Gen::<Content> { name: "large", quick: 10_000, thorough: 300_000, strategy: || wide_content(), test: listing })],
    }
}

// --- S01 ----------------------------------------------------------------------------------------

type Values = (String, String, String, Content);

fn rt<T>(v: &T) -> Result<serde_json::Value, Fail>
where
    T: Serialize + for<'de> Deserialize<'de> + PartialEq + std::fmt::Debug,
{
    let j = serde_json::to_string(v).map_err(|e| Fail::new(format!("{v:?}: {e}")))?;
    let back: T = serde_json::from_str(&j).map_err(|e| Fail::new(format!("{j}: {e}")))?;
    ensure_eq!(back, *v, "value read back from {j}");
    let val = serde_json::to_value(v).map_err(|e| Fail::new(e.to_string()))?;
    let back: T = serde_json::from_value(val.clone()).map_err(|e| Fail::new(format!("{val}: {e}")))?;
    ensure_eq!(back, *v, "value read back from {val}");
    Ok(val)
}

fn serialised((t, p, n, c): &Values) -> R {
    if stable(t).is_none() {
        return Ok(false);
    }
    let i = iri(t)?;
    let (nsv, nv) = (ns(p)?, nm(n)?);
    let q = LocalName::new(nsv.clone(), nv.clone());
    ensure_eq!(rt(&i)?, serde_json::json!(txt(&i)), "serialised IRI");
    ensure_eq!(rt(&nsv)?, serde_json::json!(format!("{p}:")), "serialised prefix");
    ensure_eq!(rt(&nv)?, serde_json::json!(n), "serialised name");
    rt(&q)?;
    rt(&PrefixedName::from(&nsv))?;
    rt(&PrefixedName::from(&q))?;
    rt(&IriRef::from(&i))?;
    rt(&IriRef::from(PrefixedName::from(&nsv)))?;
    rt(&IriRef::from(PrefixedName::from(&q)))?;
    let (map, model) = built(c)?;
    rt(&map)?;
    let back: IriPrefixMap =
        serde_json::from_str(&serde_json::to_string(&map).unwrap()).map_err(|e| Fail::new(e.to_string()))?;
    agree(&back, &model, &[p.clone()], &[t.clone()])?;
    // Distinct values have distinct serialised forms.
    let kinds: Vec<String> = [
        IriRef::from(&i),
        IriRef::from(PrefixedName::from(&nsv)),
        IriRef::from(PrefixedName::from(&q)),
    ]
    .iter()
    .map(|r| serde_json::to_string(r).unwrap())
    .collect();
    ensure!(
        kinds[0] != kinds[1] && kinds[1] != kinds[2] && kinds[0] != kinds[2],
        "different references share a serialised form: {kinds:?}"
    );
    Ok(true)
}

fn bad_json(s: &String) -> R {
    let j = serde_json::to_string(s).unwrap();
    let got = serde_json::from_str::<Iri>(&j);
    match (Url::parse(s), got) {
        (Ok(u), Ok(i)) => {
            ensure_eq!(txt(&i), u.to_string(), "IRI read from {j}");
            label("accepted");
            Ok(true)
        }
        (Err(_), Err(_)) => {
            label("rejected");
            Ok(true)
        }
        // The bracketed form may or may not be accepted from serialised data.
        (Err(_), Ok(i)) if s.starts_with('<') && s.ends_with('>') => {
            ensure_eq!(Some(&i), Iri::from_str(s).ok().as_ref(), "IRI read from {j}");
            Ok(true)
        }
        (a, b) => Err(Fail::new(format!("serialised IRI {j}: {b:?}, expected {a:?}"))),
    }
}

fn s01() -> Property {
    Property {
        id: "S01",
        rule: "one value of every serialisable type built from generated IRIs, prefixes, names and maps, written to JSON text and to a JSON value and read back; and valid or invalid IRI strings read from JSON; all cases with a stable IRI are non-trivial",
        assumptions: &["serialised data other than IRI strings is not validated on reading; only values the library wrote are read back"],
        facets: vec![
            Box::new(Gen::<Values> {
                name: "round_trip",
                quick: 240_000,
                thorough: 15_000_000,
                strategy: || {
                    (
                        prop_oneof![iri_text(), namespace_text()],
                        prop_oneof![4 => prefix(), 1 => Just(String::new())],
                        local(),
                        prop_oneof![40 => content(), 1 => wide_content()],
                    )
                        .boxed()
                },
                test: serialised,
            }),
            Box::new(Gen::<String> {
                name: "iri_strings",
                quick: 480_000,
                thorough: 20_000_000,
                strategy: || {
                    prop_oneof![iri_text(), mutate(iri_text()), any_text(), any_text().prop_map(|t| format!("<{t}>"))]
                        .boxed()
                },
                test: bad_json,
            }),
        ],
    }
}

// --- V01 ----------------------------------------------------------------------------------------

fn constants(k: &u8) -> R {
    let all = vocabularies();
    let v = &all[*k as usize];
    let (p, i) = VOCABS[*k as usize];
    ensure_eq!(v.prefix(), p, "prefix of the bundled vocabulary for {i}");
    // Documentation and constant disagree on the final '#' of the XML namespace; either is accepted.
    let i = if p == "xml" { v.iri().trim_end_matches('#').to_string() + "#" } else { v.iri().to_string() };
    ensure_eq!(i, VOCABS[*k as usize].1, "namespace of the bundled vocabulary {p}");
    ensure_eq!(v.prefix_as_namespace().as_ref(), format!("{p}:"), "prefix value of {p}");
    ensure_eq!(txt(&v.iri_as_iri()), v.iri(), "namespace value of {p}");
    for (j, w) in all.iter().enumerate() {
        ensure_eq!(
            (w.prefix() == v.prefix(), w.iri() == v.iri()),
            (j == *k as usize, j == *k as usize),
            "vocabularies {} and {} clash",
            v.prefix(),
            w.prefix()
        );
    }
    Ok(true)
}

fn use_vocab((k, n, m): &(u8, String, String)) -> R {
    let all = vocabularies();
    let v = &all[*k as usize % all.len()];
    if v.prefix() == "xml" && !v.iri().ends_with('#') {
        return Ok(false);
    }
    ensure!(v.iri_as_iri().looks_like_namespace(), "vocabulary {} is not a namespace", v.prefix());
    // All vocabularies together, and alone: same answers.
    let mut map = IriPrefixMap::empty();
    for w in &all {
        map.insert_vocabulary(w);
    }
    ensure_eq!(map.len(), all.len(), "vocabularies mapped together");
    let alone = IriPrefixMap::empty().with_vocabulary(v);
    let q = LocalName::new(v.prefix_as_namespace(), nm(n)?);
    let full = iri(&format!("{}{}", v.iri(), pct(n)))?;
    for (x, what) in [(&map, "all"), (&alone, "one")] {
        ensure_eq!(x.expand(&q), Some(full.clone()), "expansion of {q} with {what}");
        ensure_eq!(x.compress(&full), Some(q.clone()), "short form of {full} with {what}");
    }
    // User-defined vocabularies keep what they were given.
    let s: &'static str = Box::leak(m.clone().into_boxed_str());
    let d = Vocabulary::new(v.prefix(), v.iri());
    ensure_eq!(d.description(), None, "description never given");
    let e = d.with_description(s);
    ensure_eq!((e.prefix(), e.iri(), e.description()), (v.prefix(), v.iri(), Some(&s)), "described vocabulary");
    Ok(true)
}

/// A vocabulary of the program's own, which maps as its prefix and namespace would.
fn declared((p, i, d, n): &(String, String, String, String)) -> R {
    if stable(i).is_none() {
        return Ok(false);
    }
    let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
    let v = Vocabulary::new(leak(p), leak(i)).with_description(leak(d));
    ensure_eq!((v.prefix(), v.iri(), v.description().copied()), (p.as_str(), i.as_str(), Some(d.as_str())), "declared vocabulary");
    let (prefix, namespace) = (ns(p)?, iri(i)?);
    ensure_eq!(v.prefix_as_namespace(), prefix, "prefix value of {p}");
    ensure_eq!(v.prefix_as_namespace().as_ref(), format!("{p}:"), "prefix value of {p}");
    ensure_eq!(v.iri_as_iri(), namespace, "namespace value of {i}");
    ensure_eq!(txt(&v.iri_as_iri()), txt(&namespace), "text of the namespace {i}");
    let want = IriPrefixMap::empty().with(prefix.clone(), namespace.clone());
    let mut inserted = IriPrefixMap::common();
    let mut common = IriPrefixMap::common();
    inserted.insert_vocabulary(&v);
    common.insert(prefix.clone(), namespace);
    let q = LocalName::new(prefix, nm(n)?);
    for (got, want) in [(IriPrefixMap::empty().with_vocabulary(&v), want), (IriPrefixMap::common().with_vocabulary(&v), common.clone()), (inserted, common)] {
        let mut all: Vec<_> = got.mappings().map(|(p, i)| (p.to_string(), txt(i))).collect();
        let mut expected: Vec<_> = want.mappings().map(|(p, i)| (p.to_string(), txt(i))).collect();
        all.sort();
        expected.sort();
        ensure_eq!(all, expected, "mappings with the vocabulary {p} of {i}");
        let full = want.expand(&q);
        ensure_eq!(got.expand(&q), full, "expansion of {q} with the vocabulary of {i}");
        if let Some(full) = full {
            ensure_eq!(got.compress(&full), want.compress(&full), "short form of {full} with the vocabulary {p} of {i}");
        }
    }
    Ok(true)
}

fn v01() -> Property {
    Property {
        id: "V01",
        rule: "each of the 21 bundled vocabularies is compared with its published prefix and namespace (enumerated), and generated names are expanded and shortened in it; vocabularies declared with generated prefixes, namespaces and descriptions are compared with the mappings they stand for; all cases non-trivial",
        assumptions: &["the published namespaces are those listed in the crate documentation and the vocabularies' own specifications"],
        facets: vec![
            Box::new(Enumerate::<u8> {
                name: "constants",
                items: |_| Box::new(0..21u8),
                test: constants,
            }),
            Box::new(Enumerate::<u8> {
                name: "standard_maps",
                items: |_| Box::new(0..3u8),
                test: |k| {
                    let (map, model) = start_map(*k);
                    agree(&map, &model, &[], &[])?;
                    Ok(true)
                },
            }),
            Box::new(Gen::<(u8, String, String)> {
                name: "names",
                quick: 320_000,
                thorough: 10_000_000,
                strategy: || (0..21u8, prop_oneof![local(), ascii_local()], any_text()).boxed(),
                test: use_vocab,
            }),
            Box::new(Gen::<(String, String, String, String)> {
                name: "declared",
                quick: 160_000,
                thorough: 2_000_000,
                strategy: || (prefix(), namespace_text(), any_text(), prop_oneof![local(), ascii_local()]).boxed(),
                test: declared,
            }),
        ],
    }
}

pub fn properties() -> Vec<Property> {
    vec![m01(), m02(), m03(), m04(), s01(), v01()]
}

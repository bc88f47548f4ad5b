//! I01..I07: absolute IRIs.

use crate::gens::*;
use crate::grammar::{pct, pn_local};
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label, no_panic};
use proptest::prelude::*;
use proptest::sample::select;
use rdftk_iri::{Iri, IriPrefixMap, IriRef, LocalName, Name, Namespace, PrefixedName};
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::str::FromStr;
use url::Url;

pub fn iri(s: &str) -> Result<Iri, Fail> {
    Iri::from_str(s).map_err(|e| Fail::new(format!("{s:?} does not parse: {e}")))
}

/// Texts that the URL standard itself does not read back to the same value are outside the domain
/// (decided with the `url` library alone, never with the code under test).
pub fn stable(s: &str) -> Option<Url> {
    let u = Url::parse(s).ok()?;
    (Url::parse(u.as_str()).ok().as_ref() == Some(&u)).then_some(u)
}

fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn classes(u: &Url) {
    label(if u.cannot_be_a_base() { "opaque" } else { "hierarchical" });
    label(match u.fragment() {
        None => "no fragment",
        Some("") => "empty fragment",
        Some(_) => "fragment",
    });
    if u.query().is_some() {
        label("query");
    }
}

// --- I01 ----------------------------------------------------------------------------------------

fn strip(s: &str) -> &str {
    let cs: Vec<char> = s.chars().collect();
    if cs.len() >= 2 && cs[0] == '<' && cs[cs.len() - 1] == '>' { &s[1..s.len() - 1] } else { s }
}

fn text_round_trip(s: &String) -> R {
    let want = Url::parse(strip(s));
    let got = Iri::from_str(s);
    let tried = Iri::try_from(s.as_str());
    match (want, got) {
        (Ok(u), Ok(i)) => {
            ensure_eq!(AsRef::<Url>::as_ref(&i), &u, "IRI parsed from {s:?}");
            ensure_eq!(tried.as_ref().ok(), Some(&i), "the two parsers on {s:?}");
            ensure_eq!(i.to_string(), format!("<{u}>"), "RDF form");
            ensure_eq!(format!("{i:#}"), u.to_string(), "bare form");
            ensure_eq!(AsRef::<str>::as_ref(&i), u.as_str(), "text view");
            ensure_eq!(IriRef::from(&i).to_string(), i.to_string(), "reference form");
            ensure_eq!(format!("{:#}", IriRef::from(&i)), format!("{i:#}"), "bare reference form");
            classes(&u);
            if stable(strip(s)).is_none() {
                label("url library not idempotent");
                return Ok(false);
            }
            ensure_eq!(iri(&i.to_string())?, i, "re-parsed RDF form");
            ensure_eq!(iri(&format!("{i:#}"))?, i, "re-parsed bare form");
            label("accepted");
            Ok(true)
        }
        (Err(a), Err(b)) => {
            ensure_eq!(b, a, "reason for rejecting {s:?}");
            ensure_eq!(tried.err(), Some(a), "the two parsers on {s:?}");
            label("rejected");
            Ok(!s.is_empty())
        }
        (Ok(_), Err(e)) => Err(Fail::new(format!("IRI {s:?} rejected: {e}"))),
        (Err(e), Ok(i)) => Err(Fail::new(format!("{s:?} accepted as {i}, should fail: {e}"))),
    }
}

fn i01() -> Property {
    Property {
        id: "I01",
        rule: "generated IRI texts of all component shapes (hierarchical, file, opaque; users, ports, queries, fragments, unicode, escapes), bare and bracketed, with unbalanced brackets and random edits; non-trivial = accepted IRIs and non-empty rejected text",
        assumptions: &["the url library is the reference for which bare texts are IRIs; texts it does not itself re-read to the same value are excluded"],
        facets: vec![
            Box::new(Gen::<String> {
                name: "valid",
                quick: 960_000,
                thorough: 60_000_000,
                strategy: || {
                    (iri_text(), 0..3u8)
                        .prop_map(|(t, b)| if b == 0 { format!("<{t}>") } else { t })
                        .boxed()
                },
                test: text_round_trip,
            }),
            Box::new(Gen::<String> {
                name: "near_misses",
                quick: 960_000,
                thorough: 60_000_000,
                strategy: || {
                    let w = (
                        prop_oneof![Just("<"), Just("<<"), Just(">"), Just("< "), Just(" "), Just("")],
                        prop_oneof![3 => iri_text(), 2 => mutate(iri_text()), 1 => any_text()],
                        prop_oneof![Just(">"), Just(">>"), Just("<"), Just(" >"), Just(" "), Just("")],
                    );
                    prop_oneof![
                        w.prop_map(|(a, t, b)| format!("{a}{t}{b}")),
                        mutate(iri_text()),
                        any_text()
                    ]
                    .boxed()
                },
                test: text_round_trip,
            }),
        ],
    }
}

// --- I02 ----------------------------------------------------------------------------------------

type Parts = (String, String, Option<String>, Option<String>, Option<u16>, Option<String>);

fn parts(u: &Url) -> Parts {
    (
        u.scheme().into(),
        u.username().into(),
        u.password().map(String::from),
        u.host_str().map(String::from),
        u.port(),
        u.query().map(String::from),
    )
}

fn no_frag(u: &Url) -> &str {
    u.as_str().split('#').next().unwrap()
}

fn unpct(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%'
            && let Some(h) = s.get(i + 1..i + 3)
            && let Ok(v) = u8::from_str_radix(h, 16)
        {
            out.push(v);
            i += 3;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

fn fragment_edit((t, f): &(String, String)) -> R {
    let Some(u) = stable(t) else { return Ok(false) };
    let i = iri(t)?;
    let before = i.to_string();
    let with = i.with_new_fragment(f);
    let empty = i.with_empty_fragment();
    let none = i.with_no_fragment();
    let no_frag_fn = no_frag(&u);
    for (x, what) in [(&with, "new"), (&empty, "empty"), (&none, "no")] {
        let v: &Url = x.as_ref();
        ensure_eq!(parts(v), parts(&u), "components of {t:?} with {what} fragment");
        ensure_eq!(no_frag(v), no_frag_fn, "text of {t:?} before the fragment, {what} fragment");
    }
    let wf = AsRef::<Url>::as_ref(&with).fragment();
    let clean: String = f.chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    ensure!(
        wf.map(unpct) == Some(unpct(&clean)),
        "fragment {f:?} became {wf:?}"
    );
    ensure_eq!(AsRef::<Url>::as_ref(&empty).fragment(), Some(""), "empty fragment of {t:?}");
    ensure_eq!(AsRef::<Url>::as_ref(&none).fragment(), None, "absent fragment of {t:?}");
    ensure_eq!(empty.to_string(), format!("<{no_frag_fn}#>"), "empty fragment of {t:?}");
    ensure_eq!(none.to_string(), format!("<{no_frag_fn}>"), "absent fragment of {t:?}");
    // Later edits win; edits to the same component commute with being repeated.
    ensure_eq!(with.with_no_fragment(), none, "removing a replaced fragment");
    ensure_eq!(with.with_empty_fragment(), empty, "emptying a replaced fragment");
    ensure_eq!(empty.with_new_fragment(f), with, "replacing an empty fragment");
    ensure_eq!(none.with_new_fragment(f), with, "replacing an absent fragment");
    ensure_eq!(none.with_no_fragment(), none, "removing twice");
    ensure_eq!(i.to_string(), before, "the original changed");
    if f.is_empty() {
        ensure_eq!(with, empty, "new fragment with empty text");
    }
    classes(&u);
    Ok(u.fragment() != Some(f.as_str()))
}

fn plain_path(p: &str) -> bool {
    p.starts_with('/')
        && !p.starts_with("//")
        && p.split('/').all(|s| {
            s != "." && s != ".." && s.chars().all(|c| c.is_ascii_alphanumeric() || "-_~.".contains(c))
        })
}

fn path_edit((t, p, q): &(String, String, String)) -> R {
    let Some(u) = stable(t) else { return Ok(false) };
    let i = iri(t)?;
    let before = i.to_string();
    let with = i.with_new_path(p);
    let v: &Url = with.as_ref();
    ensure_eq!(parts(v), parts(&u), "components of {t:?} with path {p:?}");
    ensure_eq!(v.fragment(), u.fragment(), "fragment of {t:?} with path {p:?}");
    // Differential against the URL standard's own path setter.
    let mut w = u.clone();
    w.set_path(p);
    ensure_eq!(v, &w, "path {p:?} of {t:?}");
    if !u.cannot_be_a_base() && plain_path(p) {
        ensure_eq!(v.path(), p.as_str(), "path of {t:?}");
        // Without a server an empty path would turn the IRI into an opaque one.
        if u.has_host() {
            ensure_eq!(i.with_new_path(q).with_new_path(p), with, "the later path wins on {t:?}");
        }
        label("plain path");
    }
    ensure_eq!(i.to_string(), before, "the original changed");
    classes(&u);
    Ok(u.path() != p)
}

fn i02() -> Property {
    Property {
        id: "I02",
        rule: "generated IRIs of all shapes with generated replacement paths and fragments (valid, odd, empty, arbitrary text); non-trivial = the replacement differs from the old component",
        assumptions: &["the url library's own component setters and getters are trusted"],
        facets: vec![
            Box::new(Gen::<(String, String)> {
                name: "fragment",
                quick: 800_000,
                thorough: 50_000_000,
                strategy: || {
                    let f = prop_oneof![
                        3 => local(),
                        2 => fragment().prop_map(|s| s.trim_start_matches('#').to_string()),
                        1 => any_text(),
                        1 => Just(String::new()),
                    ];
                    (iri_text(), f).boxed()
                },
                test: fragment_edit,
            }),
            Box::new(Gen::<(String, String, String)> {
                name: "path",
                quick: 800_000,
                thorough: 50_000_000,
                strategy: || {
                    let p = || {
                        prop_oneof![
                            3 => prop::collection::vec("[a-zA-Z0-9_.~-]{0,5}", 0..4)
                                .prop_map(|v| format!("/{}", v.join("/"))),
                            2 => path(),
                            1 => path().prop_map(|s| s.trim_start_matches('/').to_string()),
                            1 => any_text(),
                        ]
                    };
                    (iri_text(), p(), path()).boxed()
                },
                test: path_edit,
            }),
        ],
    }
}

// --- I03 ----------------------------------------------------------------------------------------

fn is_namespace(u: &Url) -> bool {
    match u.fragment() {
        Some(f) => f.is_empty(),
        None => u.query().is_none() && u.path().ends_with('/'),
    }
}

fn compose((t, n): &(String, String)) -> R {
    let Some(u) = stable(t) else { return Ok(false) };
    let i = iri(t)?;
    let name = Name::from_str(n).map_err(|e| Fail::new(e.to_string()))?;
    let ns = is_namespace(&u);
    // A slash-ended path with a non-empty fragment is left unspecified by the documentation.
    let unspecified =
        u.fragment().is_some_and(|f| !f.is_empty()) && u.path().ends_with('/') && u.query().is_none();
    if !unspecified {
        ensure_eq!(i.looks_like_namespace(), ns, "namespace test of {t:?}");
    }
    let made = i.make_name(name.clone());
    if ns {
        let Some(m) = made else {
            return Err(Fail::new(format!("no name {n:?} could be made in namespace {i}")));
        };
        ensure_eq!(AsRef::<str>::as_ref(&m), format!("{}{}", u.as_str(), pct(n)), "name {n:?} in namespace {i}");
        ensure_eq!(iri(&m.to_string())?, m, "re-parsed composed name");
        label(if n.is_ascii() { "ascii name" } else { "non-ascii name" });
        label(if u.fragment().is_some() { "hash namespace" } else { "slash namespace" });
        if u.cannot_be_a_base() {
            label("opaque namespace");
        }
        Ok(true)
    } else {
        if u.fragment().is_none() {
            ensure_eq!(made, None, "name made in {i}, which is not a namespace");
            label("refused");
        }
        Ok(u.fragment().is_none())
    }
}

fn i03() -> Property {
    Property {
        id: "I03",
        rule: "generated IRIs (mostly namespaces: slash-ended or empty-fragment, any scheme, also opaque) with generated valid local names; non-trivial = a name is composed or refused",
        assumptions: &["IRIs with a non-empty fragment are not namespaces; composing a name in them is unspecified and not checked"],
        facets: vec![Box::new(Gen::<(String, String)> {
            name: "compose",
            quick: 1_600_000,
            thorough: 80_000_000,
            strategy: || {
                (prop_oneof![3 => namespace_text(), 1 => iri_text()], prop_oneof![2 => local(), 1 => ascii_local()])
                    .boxed()
            },
            test: compose,
        })],
    }
}

// --- I04 ----------------------------------------------------------------------------------------

/// Reference decomposition on text: namespace text and name.
fn ref_split(u: &Url) -> Option<(String, String)> {
    let s = u.as_str();
    let cand = match u.fragment() {
        Some("") => return None,
        Some(f) => f,
        None if u.query().is_some() => return None,
        None => &u.path()[u.path().rfind('/')? + 1..],
    };
    let name = String::from_utf8(unpct(cand)).ok()?;
    (pn_local(&name) && pct(&name) == cand).then(|| (s[..s.len() - cand.len()].to_string(), name))
}

fn split(t: &String) -> R {
    let Some(u) = stable(t) else { return Ok(false) };
    let i = iri(t)?;
    let got = i.split();
    let want = ref_split(&u);
    ensure_eq!(i.namespace(), got.clone().map(|g| g.0), "namespace part of {i}");
    ensure_eq!(i.name(), got.clone().map(|g| g.1), "name part of {i}");
    classes(&u);
    match (&got, &want) {
        (Some((ns, n)), w) => {
            ensure!(pn_local(n.as_ref()), "{i} split into a bad name {n:?}");
            ensure!(ns.looks_like_namespace(), "{i} split into {ns}, which is not a namespace");
            ensure_eq!(ns.make_name(n.clone()), Some(i.clone()), "recomposed {i} from {ns} and {n}");
            let g = (AsRef::<str>::as_ref(ns).to_string(), n.to_string());
            ensure_eq!(Some(&g), w.as_ref(), "decomposition of {i}");
            label("split");
            Ok(true)
        }
        (None, None) => {
            label("no split");
            Ok(u.fragment() != None || u.path().len() > 1)
        }
        (None, Some(w)) => Err(Fail::new(format!("{i} not split, expected {w:?}"))),
    }
}

fn compose_split((t, n): &(String, String)) -> R {
    let Some(u) = stable(t) else { return Ok(false) };
    if !is_namespace(&u) {
        return Ok(false);
    }
    let i = iri(t)?;
    let name = Name::from_str(n).map_err(|e| Fail::new(e.to_string()))?;
    let Some(m) = i.make_name(name.clone()) else {
        return Err(Fail::new(format!("no name {n:?} could be made in {i}")));
    };
    ensure_eq!(m.split(), Some((i.clone(), name.clone())), "decomposition of {m} made from {i} and {n:?}");
    ensure_eq!(m.namespace(), Some(i), "namespace of {m}");
    ensure_eq!(m.name(), Some(name), "name of {m}");
    label(if n.is_ascii() { "ascii name" } else { "non-ascii name" });
    classes(&u);
    Ok(true)
}

fn i04() -> Property {
    Property {
        id: "I04",
        rule: "(a) IRIs of all shapes are decomposed and compared with a reference decomposition on text and recomposed; (b) generated namespaces and names are composed then decomposed; non-trivial = a decomposition exists, or is refused for an IRI with a path or fragment",
        assumptions: &["the url library's component getters are trusted"],
        facets: vec![
            Box::new(Gen::<String> {
                name: "split",
                quick: 1_200_000,
                thorough: 80_000_000,
                strategy: || iri_text(),
                test: split,
            }),
            Box::new(Gen::<(String, String)> {
                name: "compose_then_split",
                quick: 1_200_000,
                thorough: 80_000_000,
                strategy: || (namespace_text(), prop_oneof![2 => local(), 1 => ascii_local()]).boxed(),
                test: compose_split,
            }),
        ],
    }
}

// --- I05 ----------------------------------------------------------------------------------------

type Any = (String, String, String, String);

/// Every operation on every value: none may panic.
fn total((t, a, b, c): &Any) -> R {
    let mut nontrivial = false;
    macro_rules! op {
        ($what:literal, $e:expr) => {
            no_panic(|| $e).map_err(|p| Fail::new(format!("{} on {t:?} ({a:?}, {b:?}, {c:?}): {p}", $what)))?
        };
    }
    let parsed = op!("parse IRI", Iri::from_str(t).ok());
    let valid = op!("parse name", Name::from_str(a).ok());
    op!("parse prefix", Namespace::from_str(a).ok());
    op!("named prefix", Namespace::new_named(a.as_str()).ok());
    op!("parse qualified name", LocalName::from_str(a).ok());
    let unchecked_name = op!("unchecked name", Name::new_unchecked(b.as_str()));
    let unchecked_ns = op!("unchecked prefix", Namespace::new_unchecked(c.as_str()));
    let mut spaces = vec![unchecked_ns.clone()];
    let js = serde_json::to_string(c).unwrap();
    spaces.extend(op!("read prefix", serde_json::from_str::<Namespace>(&js).ok()));
    for ns in &spaces {
        op!("bare prefix", ns.name_string().map(str::len));
        op!("is default", ns.is_default());
        op!("prefix text", ns.to_string());
        let q = op!("qualify", ns.qualify(&unchecked_name));
        op!("curie", (q.as_curie(), q.to_string(), q.is_namespace_default()));
        op!("ref text", IriRef::from(PrefixedName::from(q.clone())).to_string());
    }
    if let Some(i) = parsed {
        nontrivial = true;
        label(if AsRef::<Url>::as_ref(&i).cannot_be_a_base() { "opaque" } else { "hierarchical" });
        op!("display", format!("{i} {i:#} {i:?}"));
        op!("split", i.split());
        op!("namespace", i.namespace());
        op!("name", i.name());
        op!("looks like namespace", i.looks_like_namespace());
        op!("new path", i.with_new_path(b));
        op!("new fragment", i.with_new_fragment(c));
        op!("empty fragment", i.with_empty_fragment());
        op!("no fragment", i.with_no_fragment());
        op!("genid", i.genid().is_ok());
        for n in valid.iter().chain([&unchecked_name]) {
            op!("make name", i.make_name(n.clone()));
        }
        let mut map = IriPrefixMap::common().with_default(i.clone());
        for ns in spaces {
            op!("insert", map.insert(ns.clone(), i.clone()));
            op!("expand", map.expand(&LocalName::new(ns, unchecked_name.clone())));
            op!("compress", map.compress(&i));
            op!("compress to ref", map.compress_to_iriref(&i).to_string());
            op!("map text", map.to_string());
        }
    }
    Ok(nontrivial)
}

fn i05() -> Property {
    Property {
        id: "I05",
        rule: "every operation of every type is applied to generated IRIs of all shapes (incl. mailto:, urn:, data:), edited and arbitrary text, and to unchecked and deserialised values; non-trivial = the text parsed as an IRI",
        assumptions: &["conversions documented to panic on malformed static vocabulary text are excluded"],
        facets: vec![
            Box::new(Gen::<Any> {
                name: "operations",
                quick: 960_000,
                thorough: 60_000_000,
                strategy: || {
                    (
                        prop_oneof![4 => iri_text(), 2 => mutate(iri_text()), 1 => any_text()],
                        prop_oneof![1 => local(), 1 => prefix(), 2 => any_text()],
                        any_text(),
                        any_text(),
                    )
                        .boxed()
                },
                test: total,
            }),
            Box::new(Enumerate::<Any> {
                name: "regressions",
                items: |_| {
                    let t = [
                        "mailto:a", "urn:isbn:1", "urn:a/b", "data:,x", "foo:", "foo:#", "foo:?", "foo:/", "foo://",
                        "file:///", "http://e", "foo:/.//p", "http://e/#", "about:blank#x", "blob:http://e/x",
                    ];
                    Box::new(t.into_iter().map(|t| (t.into(), "n".into(), "n".into(), "p".into())))
                },
                test: total,
            }),
        ],
    }
}

// --- I06 ----------------------------------------------------------------------------------------

fn genid(t: &String) -> R {
    let Some(u) = stable(t) else { return Ok(false) };
    // The URL standard keeps a drive letter when resolving against a file: base.
    let p: Vec<u8> = u.path().bytes().take(3).collect();
    if u.scheme() == "file" && p.len() == 3 && p[1].is_ascii_alphabetic() && p[2] == b':' {
        label("drive letter (excluded)");
        return Ok(false);
    }
    let i = iri(t)?;
    let before = i.to_string();
    let mut seen = HashSet::new();
    for _ in 0..4 {
        let g = i.genid();
        if u.cannot_be_a_base() {
            ensure!(
                matches!(&g, Err(e) if e.is_url()),
                "identifier {g:?} generated under {i}, which has no server"
            );
            label("refused");
            continue;
        }
        let g = g.map_err(|e| Fail::new(format!("no identifier under {i}: {e}")))?;
        let v: &Url = g.as_ref();
        let mut p = parts(&u);
        p.5 = None;
        ensure_eq!(parts(v), p, "scheme and server of {g} generated under {i}");
        ensure_eq!(v.fragment(), None, "fragment of {g}");
        let tail = v.path().strip_prefix("/.well-known/genid/");
        ensure!(
            tail.is_some_and(|t| t.len() == 32
                && t.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))),
            "path of generated {g}"
        );
        ensure_eq!(iri(&g.to_string())?, g, "re-parsed generated identifier");
        ensure!(seen.insert(g.to_string()), "identifier {g} generated twice");
        // Generated identifiers can serve as bases themselves, at the same server.
        let gg = g.genid().map_err(|e| Fail::new(e.to_string()))?;
        ensure_eq!(parts(gg.as_ref()), p, "server of an identifier generated under a generated one");
        ensure!(seen.insert(gg.to_string()), "identifier {gg} generated twice");
        label("generated");
    }
    ensure_eq!(i.to_string(), before, "the base changed");
    Ok(true)
}

/// Identifiers under the same bases, made by several threads at once.
fn genid_threads((ts, threads, each): &(Vec<String>, u8, u16)) -> R {
    let bases = ts.iter().map(|t| iri(t)).collect::<Result<Vec<_>, _>>()?;
    let all: Vec<Result<Vec<String>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..*threads)
            .map(|_| {
                s.spawn(|| {
                    (0..*each as usize)
                        .map(|k| bases[k % bases.len()].genid())
                        .map(|g| g.map(|g| g.to_string()).map_err(|e| e.to_string()))
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut seen = HashSet::new();
    for one in all {
        for g in one.map_err(Fail::new)? {
            ensure!(seen.insert(g.clone()), "identifier {g} was generated twice by {threads} threads");
        }
    }
    Ok(*threads > 1 && *each > 1)
}

/// What each process of `genid_processes` does.
pub fn produce(input: &str) {
    let (n, t) = input.split_once(' ').unwrap();
    let i = Iri::from_str(t).unwrap();
    for _ in 0..n.parse::<usize>().unwrap() {
        println!("{}", i.genid().unwrap());
    }
}

/// Identifiers under the same base, made by several runs of a program.
fn genid_processes((t, processes, each): &(String, u8, u8)) -> R {
    let mut seen = HashSet::new();
    for g in pbt::produced(*processes as usize, &format!("{each} {t}"))? {
        ensure!(seen.insert(g.clone()), "identifier {g} was generated twice by {processes} processes");
    }
    ensure_eq!(seen.len(), *processes as usize * *each as usize, "number of identifiers");
    Ok(true)
}

fn i06() -> Property {
    Property {
        id: "I06",
        rule: "generated bases of all shapes, eight identifiers each, long runs of identifiers from one base, runs of several threads at once and of several processes; all cases with a usable base or a refused opaque base are non-trivial",
        assumptions: &["identifier text comes from the operating system's random source, so only its form and distinctness are judged"],
        facets: vec![
            Box::new(Gen::<String> {
                name: "bases",
                quick: 320_000,
                thorough: 10_000_000,
                strategy: || iri_text(),
                test: genid,
            }),
            Box::new(Gen::<(String, u16)> {
                name: "distinct",
                quick: 80,
                thorough: 20_000,
                strategy: || (hier(), 500..2000u16).boxed(),
                test: |(t, n)| {
                    let i = iri(t)?;
                    let mut seen = HashSet::new();
                    for k in 0..*n {
                        let g = i.genid().map_err(|e| Fail::new(e.to_string()))?;
                        ensure!(seen.insert(g.to_string()), "identifier {g} repeated after {k}");
                    }
                    Ok(true)
                },
            }),
            Box::new(Gen {
                name: "threads",
                quick: 400,
                thorough: 20_000,
                strategy: || (same_server(), 1u8..9, 0u16..400).boxed(),
                test: genid_threads,
            }),
            Box::new(Gen {
                name: "processes",
                quick: 60,
                thorough: 2_000,
                strategy: || (hier().prop_filter("an argument", |t| !t.contains('\0')), 2u8..5, 1u8..60).boxed(),
                test: genid_processes,
            }),
        ],
    }
}

/// Bases that differ in path, query and fragment only, so that the same identifiers are theirs.
fn same_server() -> BoxedStrategy<Vec<String>> {
    let rest = select(vec!["", "/", "/a/b", "/a/b/", "?q", "#f", "/.well-known/genid/", "/x?y#z"]);
    proptest::collection::vec(rest, 1..4)
        .prop_map(|v| v.into_iter().map(|r| format!("http://example.org{r}")).collect())
        .boxed()
}

// --- I07 ----------------------------------------------------------------------------------------

fn convert((a, b): &(String, String)) -> R {
    let (Ok(ua), Ok(ub)) = (Url::parse(a), Url::parse(b)) else { return Ok(false) };
    let (ia, ib) = (iri(a)?, iri(b)?);
    ensure_eq!(Iri::from(ua.clone()), ia, "IRI from a URL value");
    ensure_eq!(Iri::from(&ua), ia, "IRI from a URL reference");
    ensure_eq!(Url::from(ia.clone()), ua, "URL from an IRI");
    ensure_eq!(Url::from(&ia), ua, "URL from an IRI reference");
    ensure_eq!(AsRef::<Url>::as_ref(&ia), &ua, "URL view");
    ensure_eq!(AsRef::<str>::as_ref(&ia), ua.as_str(), "text view");
    let mut m = ia.clone();
    AsMut::<Url>::as_mut(&mut m).set_fragment(Some("zz"));
    ensure_eq!(m, ia.with_new_fragment("zz"), "edit through the URL view");
    let same = ua.as_str() == ub.as_str();
    ensure_eq!(ia == ib, same, "equality of {ia} and {ib}");
    ensure_eq!(ia.cmp(&ib).is_eq(), same, "ordering equality of {ia} and {ib}");
    ensure_eq!(ia.cmp(&ib), ib.cmp(&ia).reverse(), "antisymmetry");
    ensure_eq!(ia.partial_cmp(&ib), Some(ia.cmp(&ib)), "partial ordering");
    // Transitivity, over the two and one next to the first.
    let mut three = [ia.clone(), ib.clone(), ia.with_empty_fragment()];
    three.sort();
    ensure!(
        three[0] <= three[1] && three[1] <= three[2] && three[0] <= three[2],
        "ordering of {} {} {} is not transitive",
        three[0],
        three[1],
        three[2]
    );
    if same {
        ensure_eq!(hash(&ia), hash(&ib), "hash of equal IRIs");
    }
    let (ra, rb) = (IriRef::from(ia.clone()), IriRef::from(&ib));
    ensure!(ra.is_iri() && !ra.is_prefixed_name(), "variant of a wrapped IRI");
    ensure_eq!(ra == rb, same, "equality of wrapped IRIs");
    ensure_eq!(ra.to_string(), ia.to_string(), "text of a wrapped IRI");
    ensure_eq!(format!("{ra:#}"), format!("{ia:#}"), "bare text of a wrapped IRI");
    ensure_eq!(ra.try_as_iri(), Some(ia.clone()), "unwrapped IRI");
    label(if same { "equal" } else { "distinct" });
    Ok(same || ua.host_str() == ub.host_str())
}

fn i07() -> Property {
    Property {
        id: "I07",
        rule: "pairs of generated IRIs, biased to be equal after normalisation or to differ in one component; non-trivial = equal or same host",
        assumptions: &["the url library's equality of URLs (equal serialised text) is the reference"],
        facets: vec![Box::new(Gen::<(String, String)> {
            name: "pairs",
            quick: 800_000,
            thorough: 50_000_000,
            strategy: || {
                prop_oneof![
                    2 => iri_text().prop_map(|t| (t.clone(), t)),
                    2 => (iri_text(), fragment())
                        .prop_map(|(t, f)| (t.clone(), format!("{}{f}", t.split('#').next().unwrap()))),
                    1 => hier().prop_map(|t| (t.clone(), t.replacen("http", "HTTP", 1))),
                    1 => hier().prop_map(|t| (t.clone(), format!("{t}x"))),
                    2 => (iri_text(), iri_text()),
                ]
                .boxed()
            },
            test: convert,
        })],
    }
}

pub fn properties() -> Vec<Property> {
    vec![i01(), i02(), i03(), i04(), i05(), i06(), i07()]
}

//! N01..N06: prefixes, local names and qualified names.

use crate::gens::*;
use crate::grammar::{self, pn_local, pname_ln, pname_ns};
use pbt::{Enumerate, Fail, Gen, Property, R, ensure, ensure_eq, label};
use proptest::prelude::*;
use rdftk_iri::error::NameParseError;
use rdftk_iri::{LocalName, Name, Namespace, PrefixedName};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

fn scalars() -> Box<dyn Iterator<Item = u32>> {
    Box::new((0..=0x10FFFFu32).filter(|c| char::from_u32(*c).is_some()))
}

fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Something valid, as other notations would have it, or with what is easily taken along.
fn wrapped(s: BoxedStrategy<String>) -> BoxedStrategy<String> {
    let marks = [
        ("[", "]"), ("<", ">"), ("\"", "\""), ("'", "'"), ("(", ")"), ("{", "}"), ("`", "`"), ("_:", ""), ("@", ""),
        ("@prefix ", ""), ("^^", ""), ("?", ""), ("$", ""), ("&", ";"), ("#", ""), ("\\", ""), ("%20", ""), ("", "%20"),
        (" ", ""), ("", " "), (" ", " "), ("\t", "\t"), ("", "\n"), ("", "\r\n"), ("\u{feff}", ""), ("", "\u{feff}"),
        ("\u{a0}", ""), ("", "\u{200b}"), ("", "\0"), ("", " ."), ("", ";"), ("", ","), (":", ""), ("", ":"), ("::", ""), ("http:", ""),
        ("//", ""), ("/", ""), ("", "/"), ("", "#"), ("", "?"), ("", "*"), ("", "+"), ("!", ""), ("", "="), ("xmlns:", ""),
    ];
    (s, proptest::sample::select(marks.to_vec()), 0..8u8)
        .prop_map(|(s, (a, b), n)| match n {
            0 => format!("{a}{s}"),
            1 => format!("{s}{b}"),
            2 => format!("{a}{a}{s}{b}{b}"),
            _ => format!("{a}{s}{b}"),
        })
        .boxed()
}

// --- N01 ----------------------------------------------------------------------------------------

fn ns_accept(s: &str) -> R {
    let want = pname_ns(s);
    let got = Namespace::from_str(s);
    ensure!(
        got.is_ok() == want,
        "prefix {s:?}: accepted={} but the grammar says {want}",
        got.is_ok()
    );
    ensure_eq!(Namespace::is_valid_str(s), want, "validity test of {s:?}");
    // The named constructor supplies a missing separator first.
    let with = if s.ends_with(':') { s.to_string() } else { format!("{s}:") };
    let named = Namespace::new_named(s);
    ensure!(
        named.is_ok() == pname_ns(&with),
        "named prefix {s:?}: accepted={} but the grammar says {}",
        named.is_ok(),
        pname_ns(&with)
    );
    if let Ok(n) = &named {
        ensure_eq!(n.as_ref(), with.as_str(), "named prefix {s:?}");
    }
    if let Ok(n) = got {
        ensure_eq!(n.as_ref(), s, "text of parsed prefix");
        ensure_eq!(named.unwrap(), n, "named against parsed prefix {s:?}");
    }
    label(if want { "valid" } else { "invalid" });
    Ok(!s.is_empty())
}

fn n01() -> Property {
    Property {
        id: "N01",
        rule: "every Unicode scalar value in first, middle and last position of a prefix (enumerated), plus generated valid prefixes, the same with up to three random edits or wrapped in marks of other notations, and arbitrary text; non-trivial = non-empty text",
        assumptions: &["the SPARQL 1.0 name productions without PLX escapes, as the crate documents, are the specification"],
        facets: vec![
            Box::new(Enumerate::<u32> {
                name: "every_character",
                items: |_| scalars(),
                test: |c| {
                    let c = char::from_u32(*c).ok_or_else(|| Fail::new("not a scalar"))?;
                    for s in [format!("{c}:"), format!("{c}a:"), format!("a{c}:"), format!("a{c}b:"), format!("{c}")] {
                        ns_accept(&s)?;
                    }
                    Ok(grammar::pn_chars(c))
                },
            }),
            Box::new(Gen::<String> {
                name: "valid",
                quick: 800_000,
                thorough: 50_000_000,
                strategy: || prefix().prop_map(|p| format!("{p}:")).boxed(),
                test: |s| ns_accept(s),
            }),
            Box::new(Gen::<String> {
                name: "near_misses",
                quick: 1_600_000,
                thorough: 100_000_000,
                strategy: || {
                    prop_oneof![
                        wrapped(prefix().prop_map(|p| format!("{p}:")).boxed()),
                        mutate(prefix().prop_map(|p| format!("{p}:")).boxed()),
                        mutate(prefix()),
                        (prefix(), prop_oneof![Just("."), Just(".."), Just("-"), Just("_"), Just(".a"), Just("a.")])
                            .prop_map(|(p, t)| format!("{p}{t}:")),
                        any_text(),
                        any_text().prop_map(|t| format!("{t}:")),
                    ]
                    .boxed()
                },
                test: |s| ns_accept(s),
            }),
        ],
    }
}

// --- N02 ----------------------------------------------------------------------------------------

fn name_accept(s: &str) -> R {
    let want = pn_local(s);
    let got = Name::from_str(s);
    ensure!(
        got.is_ok() == want,
        "local name {s:?}: accepted={} but the grammar says {want}",
        got.is_ok()
    );
    ensure_eq!(Name::is_valid_str(s), want, "validity test of {s:?}");
    if let Ok(n) = got {
        ensure_eq!(n.as_ref(), s, "text of parsed name");
    }
    label(if want { "valid" } else { "invalid" });
    Ok(!s.is_empty())
}

fn n02() -> Property {
    Property {
        id: "N02",
        rule: "every Unicode scalar value in first, middle and last position of a local name (enumerated), plus generated valid names, the same with up to three random edits or wrapped in marks of other notations, and arbitrary text; non-trivial = non-empty text",
        assumptions: &["the SPARQL 1.0 name productions without PLX escapes, as the crate documents, are the specification"],
        facets: vec![
            Box::new(Enumerate::<u32> {
                name: "every_character",
                items: |_| scalars(),
                test: |c| {
                    let c = char::from_u32(*c).ok_or_else(|| Fail::new("not a scalar"))?;
                    for s in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}b"), format!("0{c}")] {
                        name_accept(&s)?;
                    }
                    Ok(grammar::pn_chars(c))
                },
            }),
            Box::new(Gen::<String> {
                name: "valid",
                quick: 800_000,
                thorough: 50_000_000,
                strategy: || local(),
                test: |s| name_accept(s),
            }),
            Box::new(Gen::<String> {
                name: "near_misses",
                quick: 1_600_000,
                thorough: 100_000_000,
                strategy: || {
                    prop_oneof![
                        wrapped(local()),
                        mutate(local()),
                        (local(), prop_oneof![Just("."), Just(".."), Just("-"), Just(":"), Just(".a"), Just("/")])
                            .prop_map(|(p, t)| format!("{p}{t}")),
                        any_text(),
                    ]
                    .boxed()
                },
                test: |s| name_accept(s),
            }),
        ],
    }
}

// --- N03 ----------------------------------------------------------------------------------------

fn lname_accept(s: &str) -> R {
    let want = pname_ln(s);
    let got = LocalName::from_str(s);
    match (&got, &want) {
        (Ok(l), Some((ns, n))) => {
            ensure_eq!(l.namespace().as_ref(), ns.as_str(), "prefix part of {s:?}");
            ensure_eq!(l.name().as_ref(), n.as_str(), "local part of {s:?}");
            let nsv = Namespace::from_str(ns).map_err(|e| Fail::new(e.to_string()))?;
            let nv = Name::from_str(n).map_err(|e| Fail::new(e.to_string()))?;
            ensure_eq!(l.is_namespace_default(), ns == ":", "default prefix test of {s:?}");
            ensure_eq!(nsv.is_default(), ns == ":", "default prefix test of {ns:?}");
            ensure_eq!(
                nsv.name_string(),
                if ns == ":" { None } else { ns.strip_suffix(':') },
                "bare prefix of {ns:?}"
            );
            for other in [
                LocalName::new(nsv.clone(), nv.clone()),
                nsv.qualify(&nv),
                nv.qualify(&nsv),
                LocalName::new_unchecked(ns.as_str(), n.as_str()),
                LocalName::new_unchecked(ns.trim_end_matches(':'), n.as_str()),
            ] {
                ensure_eq!(&other, l, "qualified name built from parts of {s:?}");
            }
            if ns == ":" {
                ensure_eq!(&LocalName::new_in_default(nv), l, "default-prefix constructor of {s:?}");
                label("default prefix");
            }
            label("valid");
        }
        (Err(_), None) => label("invalid"),
        _ => {
            return Err(Fail::new(format!(
                "qualified name {s:?}: accepted={} but the grammar says {}",
                got.is_ok(),
                want.is_some()
            )));
        }
    }
    Ok(s.contains(':'))
}

fn qualified() -> BoxedStrategy<String> {
    (prop_oneof![4 => prefix(), 1 => Just(String::new())], local())
        .prop_map(|(p, l)| format!("{p}:{l}"))
        .boxed()
}

fn n03() -> Property {
    Property {
        id: "N03",
        rule: "generated prefix:local pairs (including the empty prefix), the same with up to three random edits or wrapped in marks of other notations, doubled separators, and arbitrary text; non-trivial = text containing a separator",
        assumptions: &[],
        facets: vec![
            Box::new(Gen::<String> {
                name: "valid",
                quick: 800_000,
                thorough: 50_000_000,
                strategy: || qualified(),
                test: |s| lname_accept(s),
            }),
            Box::new(Gen::<String> {
                name: "near_misses",
                quick: 1_600_000,
                thorough: 100_000_000,
                strategy: || {
                    prop_oneof![
                        4 => mutate(qualified()),
                        2 => wrapped(qualified()),
                        1 => (any_text(), any_text()).prop_map(|(a, b)| format!("{a}:{b}")),
                        1 => (prefix(), any_text()).prop_map(|(a, b)| format!("{a}:{b}")),
                        1 => (any_text(), local()).prop_map(|(a, b)| format!("{a}:{b}")),
                        1 => (qualified(), local()).prop_map(|(a, b)| format!("{a}:{b}")),
                        1 => any_text(),
                    ]
                    .boxed()
                },
                test: |s| lname_accept(s),
            }),
        ],
    }
}

// --- N04 ----------------------------------------------------------------------------------------

fn kind(e: &NameParseError) -> (&'static str, Option<&str>) {
    match e {
        NameParseError::EmptyString => ("empty", None),
        NameParseError::InvalidCharacter(s) => ("character", Some(s)),
        NameParseError::TooManySeparators(s) => ("separators", Some(s)),
        NameParseError::MissingSeparator(s) => ("missing", Some(s)),
    }
}

fn classify(s: &str) -> R {
    let mut nontrivial = false;
    // Prefixes.
    if let Err(e) = Namespace::from_str(s) {
        let (k, carried) = kind(&e);
        let want = if s.is_empty() {
            "empty"
        } else if !s.ends_with(':') {
            "missing"
        } else if s[..s.len() - 1].contains(':') {
            "separators"
        } else {
            "character"
        };
        ensure_eq!(k, want, "reason for rejecting prefix {s:?}");
        if let Some(c) = carried {
            ensure_eq!(c, s, "text carried by the rejection of prefix");
            ensure!(e.to_string().contains(s), "message {e} does not show {s:?}");
        }
        let (m, i, t) = (e.is_missing_separator(), e.is_invalid_character(), e.is_too_many_separators());
        ensure_eq!((m, i, t, e.is_empty_string()), (k == "missing", k == "character", k == "separators", k == "empty"), "variant tests");
        label(&format!("prefix:{k}"));
        nontrivial |= k != "empty";
    }
    // Local names.
    if let Err(e) = Name::from_str(s) {
        let (k, carried) = kind(&e);
        ensure_eq!(k, if s.is_empty() { "empty" } else { "character" }, "reason for rejecting name {s:?}");
        if let Some(c) = carried {
            ensure_eq!(c, s, "text carried by the rejection of name");
            ensure!(e.to_string().contains(s), "message {e} does not show {s:?}");
        }
        label(&format!("name:{k}"));
        nontrivial |= k != "empty";
    }
    // Qualified names.
    if let Err(e) = LocalName::from_str(s) {
        let (k, carried) = kind(&e);
        let want: &[&str] = match s.split_once(':') {
            _ if s.is_empty() => &["empty"],
            None => &["missing"],
            Some((p, l)) => {
                let p_ok = p.is_empty() || grammar::pn_prefix(p);
                if p_ok && l.is_empty() {
                    &["empty"]
                } else if p_ok && l.contains(':') {
                    &["character", "separators"]
                } else if l.is_empty() {
                    &["empty", "character"]
                } else if l.contains(':') {
                    &["character", "separators"]
                } else {
                    &["character"]
                }
            }
        };
        ensure!(want.contains(&k), "reason {k} for rejecting qualified name {s:?}, expected {want:?}");
        if let Some(c) = carried {
            ensure!(s.contains(c), "carried text {c:?} is not part of {s:?}");
        }
        label(&format!("qualified:{k}"));
        nontrivial |= k != "empty";
    }
    Ok(nontrivial)
}

fn n04() -> Property {
    Property {
        id: "N04",
        rule: "valid names, prefixes and qualified names with random edits, extra or missing separators, and arbitrary text, each fed to all three parsers; non-trivial = at least one parser rejected non-empty text",
        assumptions: &["when several reasons apply to one text, the order is: empty, missing final separator, extra separator, bad character"],
        facets: vec![Box::new(Gen::<String> {
            name: "reasons",
            quick: 2_400_000,
            thorough: 100_000_000,
            strategy: || {
                prop_oneof![
                    mutate(qualified()),
                    wrapped(qualified()),
                    wrapped(local()),
                    mutate(prefix().prop_map(|p| format!("{p}:")).boxed()),
                    mutate(local()),
                    (prefix(), prefix()).prop_map(|(a, b)| format!("{a}:{b}:")),
                    (any_text(), any_text()).prop_map(|(a, b)| format!("{a}:{b}:")),
                    any_text().prop_map(|t| format!("{t}:")),
                    prefix(),
                    any_text(),
                    Just(String::new()),
                ]
                .boxed()
            },
            test: |s| classify(s),
        })],
    }
}

// --- N05 ----------------------------------------------------------------------------------------

fn text_forms((p, l): &(String, String)) -> R {
    let ns = Namespace::from_str(&format!("{p}:")).map_err(|e| Fail::new(e.to_string()))?;
    let n = Name::from_str(l).map_err(|e| Fail::new(e.to_string()))?;
    let q = LocalName::from_str(&format!("{p}:{l}")).map_err(|e| Fail::new(e.to_string()))?;
    let nst = format!("{p}:");
    let qt = format!("{p}:{l}");
    for t in [ns.to_string(), ns.as_ref().to_string(), String::from(ns.clone()), String::from(&ns)] {
        ensure_eq!(t, nst, "text of prefix");
    }
    for t in [n.to_string(), n.as_ref().to_string(), String::from(n.clone()), String::from(&n)] {
        ensure_eq!(&t, l, "text of name");
    }
    for t in [q.to_string(), String::from(q.clone()), String::from(&q)] {
        ensure_eq!(t, qt, "text of qualified name");
    }
    ensure_eq!(format!("{ns:#} {n:#} {q:#}"), format!("{nst} {l} {qt}"), "alternate text");
    ensure_eq!(q.as_curie(), format!("[{qt}]"), "CURIE form");
    for (pn, t) in [
        (PrefixedName::from(ns.clone()), &nst),
        (PrefixedName::from(&ns), &nst),
        (PrefixedName::from(q.clone()), &qt),
        (PrefixedName::from(&q), &qt),
    ] {
        ensure_eq!(&pn.to_string(), t, "text of prefixed name");
        ensure_eq!(&format!("{pn:#}"), t, "alternate text of prefixed name");
        ensure_eq!(&rdftk_iri::IriRef::from(&pn).to_string(), t, "text of prefixed name as a reference");
        ensure_eq!(pn.is_local(), t == &qt, "prefixed name variant");
        ensure_eq!(pn.is_namespace(), t == &nst, "prefixed name variant");
        if pn.is_local() {
            ensure_eq!(pn.try_as_local(), Some(q.clone()), "unwrapped local name");
        } else {
            ensure_eq!(pn.try_as_namespace(), Some(ns.clone()), "unwrapped prefix");
        }
    }
    ensure_eq!(Namespace::from_str(&ns.to_string()).ok(), Some(ns.clone()), "re-parsed prefix");
    ensure_eq!(Name::from_str(&n.to_string()).ok(), Some(n.clone()), "re-parsed name");
    ensure_eq!(LocalName::from_str(&q.to_string()).ok(), Some(q.clone()), "re-parsed qualified name");
    ensure_eq!(Namespace::new_unchecked(p.as_str()), ns, "unchecked prefix from bare text");
    ensure_eq!(Namespace::new_unchecked(nst.as_str()), ns, "unchecked prefix from full text");
    ensure_eq!(Name::new_unchecked(l.as_str()), n, "unchecked name");
    ensure_eq!(LocalName::new_unchecked(p.as_str(), l.as_str()), q, "unchecked qualified name from bare text");
    ensure_eq!(LocalName::new_unchecked(nst.as_str(), l.as_str()), q, "unchecked qualified name from full text");
    ensure_eq!(LocalName::new(ns.clone(), n.clone()), q, "qualified name of its parts");
    ensure_eq!((q.namespace(), q.name()), (&ns, &n), "parts of a qualified name");
    ensure_eq!(Namespace::new_default().to_string(), ":", "default prefix text");
    ensure_eq!(ns == Namespace::new_default(), p.is_empty(), "default prefix equality");
    label(if p.is_empty() { "default" } else { "named" });
    label(if l.is_ascii() { "ascii local" } else { "non-ascii local" });
    Ok(true)
}

fn n05() -> Property {
    Property {
        id: "N05",
        rule: "generated valid prefixes (including the default one) and local names; every textual view of each value is compared with the source text and re-parsed; all cases non-trivial",
        assumptions: &[],
        facets: vec![Box::new(Gen::<(String, String)> {
            name: "round_trip",
            quick: 1_600_000,
            thorough: 80_000_000,
            strategy: || (prop_oneof![5 => prefix(), 1 => Just(String::new())], local()).boxed(),
            test: text_forms,
        })],
    }
}

// --- N06 ----------------------------------------------------------------------------------------

type Pair = ((String, String), (String, String));

fn eq_ord((a, b): &Pair) -> R {
    let mk = |(p, l): &(String, String)| -> Result<(Namespace, Name, LocalName), Fail> {
        let ns = Namespace::from_str(&format!("{p}:")).map_err(|e| Fail::new(e.to_string()))?;
        let n = Name::from_str(l).map_err(|e| Fail::new(e.to_string()))?;
        Ok((ns.clone(), n.clone(), LocalName::new(ns, n)))
    };
    let (x, y) = (mk(a)?, mk(b)?);
    macro_rules! coherent {
        ($x:expr, $y:expr, $same:expr, $what:expr) => {{
            let (x, y) = ($x, $y);
            ensure_eq!(x == y, $same, "equality of {} {:?} and {:?}", $what, x, y);
            ensure_eq!(x.cmp(y).is_eq(), $same, "ordering equality of {} {:?} and {:?}", $what, x, y);
            ensure_eq!(x.cmp(y), y.cmp(x).reverse(), "antisymmetry of {} ordering", $what);
            ensure_eq!(x.partial_cmp(y), Some(x.cmp(y)), "partial ordering of {}", $what);
            if $same {
                ensure_eq!(hash(x), hash(y), "hash of equal {}", $what);
            }
            let c = x.clone();
            ensure!(&c == x && hash(&c) == hash(x), "clone of {} differs", $what);
        }};
    }
    coherent!(&x.0, &y.0, a.0 == b.0, "prefixes");
    coherent!(&x.1, &y.1, a.1 == b.1, "names");
    coherent!(&x.2, &y.2, a == b, "qualified names");
    let (px, py) = (PrefixedName::from(&x.2), PrefixedName::from(&y.2));
    coherent!(&px, &py, a == b, "prefixed names");
    let (nx, ny) = (PrefixedName::from(&x.0), PrefixedName::from(&y.0));
    coherent!(&nx, &ny, a.0 == b.0, "prefixed names");
    ensure!(px != nx, "a qualified name equals a bare prefix");
    // Ordering agrees with the ordering of the text.
    ensure_eq!(x.1.cmp(&y.1), a.1.cmp(&b.1), "ordering of names {:?} {:?}", a.1, b.1);
    ensure_eq!(x.0.cmp(&y.0), x.0.to_string().cmp(&y.0.to_string()), "ordering of prefixes {} {}", x.0, y.0);
    ensure_eq!(x.2.cmp(&y.2), x.2.to_string().cmp(&y.2.to_string()), "ordering of {} {}", x.2, y.2);
    label(if a == b {
        "equal"
    } else if a.0 == b.0 || a.1 == b.1 {
        "share a part"
    } else {
        "distinct"
    });
    Ok(a == b || a.0 == b.0 || a.1 == b.1 || a.0.eq_ignore_ascii_case(&b.0) || a.1.eq_ignore_ascii_case(&b.1))
}

fn n06() -> Property {
    Property {
        id: "N06",
        rule: "pairs of generated names, biased so that they are equal, differ only in one part, or differ only in letter case; non-trivial = the two share a part (up to case)",
        assumptions: &[],
        facets: vec![Box::new(Gen::<Pair> {
            name: "pairs",
            quick: 800_000,
            thorough: 50_000_000,
            strategy: || {
                let one = || (prop_oneof![5 => prefix(), 1 => Just(String::new())], local());
                prop_oneof![
                    one().prop_map(|a| (a.clone(), a)),
                    (one(), local()).prop_map(|((p, l), m)| ((p.clone(), l), (p, m))),
                    (one(), prefix()).prop_map(|((p, l), q)| ((p, l.clone()), (q, l))),
                    one().prop_map(|(p, l)| {
                        let (q, m) = (p.to_ascii_uppercase(), l.to_ascii_uppercase());
                        ((p, l), (q, m))
                    }),
                    one().prop_map(|(p, l)| {
                        let m = format!("{l}x");
                        ((p.clone(), l), (p, m))
                    }),
                    (one(), one()),
                ]
                .boxed()
            },
            test: eq_ord,
        })],
    }
}

pub fn properties() -> Vec<Property> {
    vec![n01(), n02(), n03(), n04(), n05(), n06()]
}

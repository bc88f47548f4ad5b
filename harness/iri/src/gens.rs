//! Generators shared by the checks.

use crate::grammar::{BASE, EXTRA};
use proptest::prelude::*;
use proptest::sample::select;

fn ranges(t: &'static [(u32, u32)]) -> BoxedStrategy<char> {
    let mut v: Vec<(u32, BoxedStrategy<char>)> = vec![];
    for (a, b) in t {
        let (a, b) = (char::from_u32(*a).unwrap(), char::from_u32(*b).unwrap());
        v.push((1, proptest::char::range(a, b).boxed()));
        v.push((1, select(vec![a, b]).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn base_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => proptest::char::range('a', 'z'),
        2 => proptest::char::range('A', 'Z'),
        2 => ranges(BASE),
    ]
    .boxed()
}

pub fn name_char() -> BoxedStrategy<char> {
    prop_oneof![
        6 => base_char(),
        2 => proptest::char::range('0', '9'),
        1 => Just('_'),
        1 => Just('-'),
        1 => ranges(EXTRA),
    ]
    .boxed()
}

fn join(first: char, mid: Vec<char>, last: Option<char>) -> String {
    let mut s = String::new();
    s.push(first);
    if let Some(l) = last {
        s.extend(mid);
        s.push(l);
    }
    s
}

fn mid() -> BoxedStrategy<Vec<char>> {
    prop_oneof![
        320 => prop::collection::vec(prop_oneof![7 => name_char(), 1 => Just('.')], 0..8),
        1 => prop::collection::vec(prop_oneof![7 => name_char(), 1 => Just('.')], 80..1500),
        40 => prop::collection::vec(prop_oneof![3 => name_char(), 1 => Just('.')], 8..80),
    ]
    .boxed()
}

/// A valid PN_PREFIX (no separator).
pub fn prefix() -> BoxedStrategy<String> {
    (base_char(), mid(), prop::option::of(name_char()))
        .prop_map(|(f, m, l)| join(f, m, l))
        .boxed()
}

/// A valid PN_LOCAL.
pub fn local() -> BoxedStrategy<String> {
    let first = prop_oneof![
        6 => base_char(),
        1 => Just('_'),
        2 => proptest::char::range('0', '9')
    ];
    prop_oneof![
        9 => (first, mid(), prop::option::of(name_char())).prop_map(|(f, m, l)| join(f, m, l)),
        1 => select(vec![
            "type", "a", "0", "_", "A.b", "x..y", "www", "index.html", "c", "-1".trim_start_matches('-'),
            "genid", "Thing", "subClassOf", "con", "1.0", "e9", "xn--a", "a-", "a_",
        ])
        .prop_map(String::from),
    ]
    .boxed()
}

pub fn ascii_local() -> BoxedStrategy<String> {
    prop_oneof![
        50 => "[A-Za-z0-9_]([-A-Za-z0-9_.]{0,10}[-A-Za-z0-9_])?",
        50 => "[A-Za-z_][A-Za-z0-9_]{0,8}",
        1 => "[A-Za-z_][A-Za-z0-9_]{30,300}",
    ]
    .boxed()
}

/// Characters just outside the classes, plus syntax-relevant ones.
pub fn odd_char() -> BoxedStrategy<char> {
    let mut v: Vec<char> = " .:-_/#?%<>[]@!$&'()*+,;=\"\\^`{|}~\t\n\r\0\u{7f}".chars().collect();
    for (a, b) in BASE.iter().chain(EXTRA) {
        v.extend(char::from_u32(a.wrapping_sub(1)));
        v.extend(char::from_u32(b + 1));
    }
    prop_oneof![3 => select(v), 1 => any::<char>()].boxed()
}

/// Valid text with up to three edits (insert/delete/replace), so near misses are common.
pub fn mutate(s: BoxedStrategy<String>) -> BoxedStrategy<String> {
    let edit = (0..3u8, any::<prop::sample::Index>(), prop_oneof![odd_char(), name_char()]);
    (s, prop::collection::vec(edit, 0..4))
        .prop_map(|(s, edits)| {
            let mut cs: Vec<char> = s.chars().collect();
            for (kind, ix, c) in edits {
                match kind {
                    0 => cs.insert(ix.index(cs.len() + 1), c),
                    1 if !cs.is_empty() => {
                        let i = ix.index(cs.len());
                        cs.remove(i);
                    }
                    2 if !cs.is_empty() => {
                        let i = ix.index(cs.len());
                        cs[i] = c;
                    }
                    _ => {}
                }
            }
            cs.into_iter().collect()
        })
        .boxed()
}

pub fn any_text() -> BoxedStrategy<String> {
    prop_oneof![
        any::<String>(),
        prop::collection::vec(prop_oneof![odd_char(), name_char()], 0..6)
            .prop_map(|v| v.into_iter().collect()),
    ]
    .boxed()
}

// ------------------------------------------------------------------------------------------------
// IRIs
// ------------------------------------------------------------------------------------------------

fn seg() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z0-9_-]{1,6}",
        2 => ascii_local(),
        1 => local(),
        1 => select(vec![
            "", ".", "..", "a.", ".a", "%20", "%C3%A9", "%41", "%C3%:9", "%C3%@9", "%C3%G9", "%C3%9", "%C3", "%c3%a9", "%2F", "%2e", "a;b=1", "a,b",
            "a:b", "a@b", "~x", "$", "(x)", "!", "*", "a=b&c", "C:", "1.0", "é", "a|b", "x%",
        ])
        .prop_map(String::from),
    ]
    .boxed()
}

/// An absolute path, "" or "/..." with zero or more segments.
pub fn path() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        1 => Just("/".to_string()),
        8 => (prop_oneof![60 => prop::collection::vec(seg(), 1..5), 1 => prop::collection::vec(seg(), 5..80)], any::<bool>()).prop_map(|(v, slash)| {
            let mut s = String::new();
            for x in v {
                s.push('/');
                s.push_str(&x);
            }
            if slash {
                s.push('/');
            }
            s
        }),
    ]
    .boxed()
}

fn host() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(vec!["example.org", "www.w3.org", "purl.org", "e", "localhost", "a.b.c.example"])
            .prop_map(String::from),
        2 => "[a-z][a-z0-9]{0,5}(\\.[a-z]{2,3}){1,2}",
        1 => select(vec![
            "127.0.0.1", "[::1]", "[2001:db8::1]", "EXAMPLE.org", "xn--nxasmq6b", "bücher.example",
            "sub-domain.example.com", "192.168.0.255",
        ])
        .prop_map(String::from),
    ]
    .boxed()
}

fn authority() -> BoxedStrategy<String> {
    let user = prop_oneof![
        7 => Just(String::new()),
        1 => Just("user@".to_string()),
        1 => Just("john.doe:pw@".to_string()),
    ];
    let port = prop_oneof![
        6 => Just(String::new()),
        1 => (1..=65535u32).prop_map(|p| format!(":{p}")),
        1 => select(vec![":80", ":443", ":21"]).prop_map(String::from),
    ];
    (user, host(), port).prop_map(|(u, h, p)| format!("{u}{h}{p}")).boxed()
}

pub fn query() -> BoxedStrategy<String> {
    prop_oneof![
        6 => Just(String::new()),
        1 => Just("?".to_string()),
        1 => prop_oneof![5 => "\\?[a-z0-9=&/?;:@-]{1,12}", 1 => "\\?[a-z0-9=&/?;:@-]{30,300}"],
        2 => select(vec!["?q=1", "?a=b&c=d", "?x/", "?/", "?a?b", "?é", "?q=%20", "?tag=n&order=new/"])
            .prop_map(String::from),
    ]
    .boxed()
}

pub fn fragment() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just(String::new()),
        3 => Just("#".to_string()),
        4 => ascii_local().prop_map(|s| format!("#{s}")),
        2 => local().prop_map(|s| format!("#{s}")),
        1 => select(vec![
            "#/", "#a/b", "#?x", "#a.", "#.a", "#a:b", "#%41", "#%C3%A9", "#a%20b", "#-a", "#a#b", "#!x",
            "#%c3%a9", "#%C3%:9", "#%C3%@9", "#%C3%G9", "#%C3%9", "#%C3", "#%ff", "#x%", "#a%2Eb", "#(x)",
        ])
        .prop_map(String::from),
    ]
    .boxed()
}

/// Text of a hierarchical IRI with an authority.
pub fn hier() -> BoxedStrategy<String> {
    let scheme = prop_oneof![
        6 => select(vec!["http", "https"]).prop_map(String::from),
        1 => select(vec!["ftp", "ws", "wss", "HTTP", "foo", "git+ssh", "x-my.scheme", "coap"])
            .prop_map(String::from),
    ];
    (scheme, authority(), path(), query(), fragment())
        .prop_map(|(s, a, p, q, f)| format!("{s}://{a}{p}{q}{f}"))
        .boxed()
}

/// Hierarchical without an authority: file: and generic schemes.
pub fn hier_no_authority() -> BoxedStrategy<String> {
    let head = select(vec!["file://", "file://host", "foo:", "foo://", "app:/"]);
    (head, path(), query(), fragment())
        .prop_map(|(h, p, q, f)| {
            let p = if p.is_empty() { "/".to_string() } else { p };
            format!("{h}{p}{q}{f}")
        })
        .boxed()
}

/// Opaque IRIs (no "/" after the scheme): they cannot be used as a base.
pub fn opaque() -> BoxedStrategy<String> {
    let body = prop_oneof![
        3 => select(vec![
            "mailto:a@example.org", "mailto:x", "urn:isbn:0451450523", "urn:x:y", "urn:uuid:f81d4fae-7dec",
            "data:text/plain,hello", "tag:example.org,2024:x", "tel:+1-816-555-1212", "did:example:123",
            "urn:x:a/b", "urn:x:a/", "about:blank", "doi:10.1000/182", "news:comp.lang", "javascript:1",
            "urn:x:é", "foo:bar", "foo:a/é", "foo:.", "foo:a/../b",
        ])
        .prop_map(String::from),
        2 => ("[a-z]{2,5}", "[a-z0-9_.:-]{1,6}", prop::collection::vec(seg(), 0..3)).prop_map(
            |(s, a, v)| {
                let mut t = format!("x{s}:{a}");
                for x in v {
                    t.push('/');
                    t.push_str(&x);
                }
                t
            }
        ),
    ];
    (body, query(), fragment()).prop_map(|(b, q, f)| format!("{b}{q}{f}")).boxed()
}

/// Any text from which an IRI is expected to parse.
pub fn iri_text() -> BoxedStrategy<String> {
    prop_oneof![
        8 => hier(),
        2 => hier_no_authority(),
        3 => opaque(),
        1 => select(VOCABS.iter().map(|v| v.1.to_string()).collect::<Vec<_>>()),
    ]
    .boxed()
}

/// Text of an IRI that is a namespace: ends in '/' (no query or fragment) or has an empty fragment.
pub fn namespace_text() -> BoxedStrategy<String> {
    let plain = prop::collection::vec("[a-zA-Z0-9_-]{1,6}", 0..4).prop_map(|v| {
        let mut s = String::from("/");
        for x in v {
            s.push_str(&x);
            s.push('/');
        }
        s
    });
    let scheme = select(vec!["http", "https", "http", "https", "ftp", "foo"]);
    prop_oneof![
        4 => (scheme.clone(), authority(), plain).prop_map(|(s, a, p)| format!("{s}://{a}{p}")),
        4 => (scheme, authority(), path(), query())
            .prop_map(|(s, a, p, q)| format!("{s}://{a}{p}{q}#")),
        1 => (hier_no_authority()).prop_map(|s| format!("{}#", s.split('#').next().unwrap())),
        1 => (opaque()).prop_map(|s| format!("{}#", s.split('#').next().unwrap())),
        1 => (opaque()).prop_map(|s| format!("{}/", s.split(['#', '?']).next().unwrap())),
        1 => (hier_no_authority()).prop_map(|s| {
            format!("{}/", s.split(['#', '?']).next().unwrap().trim_end_matches('/'))
        }),
        2 => select(VOCABS.iter().map(|v| v.1.to_string()).collect::<Vec<_>>()),
    ]
    .boxed()
}

/// The published prefix and namespace of each bundled vocabulary.
pub const VOCABS: &[(&str, &str)] = &[
    ("cal", "http://www.w3.org/2002/12/cal/ical#"),
    ("dbpedia", "http://dbpedia.org/ontology/"),
    ("dc", "http://purl.org/dc/elements/1.1/"),
    ("dcterms", "http://purl.org/dc/terms/"),
    ("doap", "http://usefulinc.com/ns/doap#"),
    ("foaf", "http://xmlns.com/foaf/0.1/"),
    ("geonames", "http://www.geonames.org/ontology#"),
    ("isothes", "http://purl.org/iso25964/skos-thes#"),
    ("opengis", "http://www.opengis.net/ont/geosparql#"),
    ("org", "http://www.w3.org/ns/org#"),
    ("owl", "http://www.w3.org/2002/07/owl#"),
    ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"),
    ("rdfs", "http://www.w3.org/2000/01/rdf-schema#"),
    ("sioc", "http://rdfs.org/sioc/ns#"),
    ("skos", "http://www.w3.org/2004/02/skos/core#"),
    ("skosxl", "http://www.w3.org/2008/05/skos-xl#"),
    ("vann", "http://purl.org/vocab/vann/"),
    ("void", "http://rdfs.org/ns/void#"),
    ("wot", "http://xmlns.com/wot/0.1/"),
    ("xml", "http://www.w3.org/XML/1998/namespace#"),
    ("xsd", "http://www.w3.org/2001/XMLSchema#"),
];

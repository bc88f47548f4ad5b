//! Generators of terms and statements. Small pools, so that values repeat, with arbitrary values
//! among them.

use crate::{Lit, RDF, St, T, XSD, data_types, rdf, st};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;

/// IRIs in the form `Iri` keeps them in; the last few need escaping in some syntax.
pub const IRIS: &[&str] = &[
    "http://example.org/a",
    "http://example.org/b",
    "http://example.org/a#b",
    "http://example.org/ns#name",
    "http://example.org/",
    "https://example.org:8080/x/y?q=1&r=2#f",
    "urn:isbn:0-395-36341-1",
    "mailto:me@example.org",
    "tag:example.org,2020:x/y",
    "http://example.org/%E5%90%8D#%C3%A9",
    "http://example.org/p(1)'?a=b!",
    "http://example.org/?q={a|b}^`c",
    "http://example.org/p|q#a{b}\\c",
    "http://example.org/%3C%3E%22",
    "urn:x:{y}",
];

/// IRIs usable as property elements in any syntax.
pub const PREDICATES: &[&str] = &[
    "http://example.org/a",
    "http://example.org/ns#name",
    "http://example.org/ns#other",
    "http://example.org/ns/p.q-r",
    "http://purl.org/dc/elements/1.1/title",
    "http://xmlns.com/foaf/0.1/knows",
    "http://www.w3.org/2000/01/rdf-schema#label",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#value",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#type",
    "http://www.w3.org/1999/02/22-rdf-syntax-ns#_1",
    "urn:example:p",
];

pub const LABELS: &[&str] = &["a", "b", "c", "B1", "B2", "x-y", "_u", "1n", "a.b", "a..b", "\u{e9}", "\u{4e2d}1", "b\u{b7}"];

/// Well formed according to RFC 5646, with subtags of every kind.
pub const LANGS: &[&str] = &[
    "en", "en-US", "de", "zh-Hant-TW", "x-private", "fr-CA", "es-419", "de-1996", "sl-rozaj-biske-1994",
    "de-CH-1901", "en-a-bbb1-x-a1", "zh-cmn-Hans-CN", "hy-Latn-IT-arevela", "i-klingon", "de-DE-u-co-phonebk",
    "az-Latn", "sgn-BE-FR", "art-lojban",
];

pub fn language() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(&LANGS[..2]).prop_map(String::from),
        4 => select(LANGS).prop_map(String::from),
        1 => "[a-z]{2,3}(-[A-Z][a-z]{3})?(-([A-Z]{2}|[0-9]{3}))?(-x-[a-z0-9]{1,8})?",
        1 => "[a-z]{2,3}(-[0-9][a-z0-9]{3}|-[a-z0-9]{5,8})?(-[a-w]-[a-z0-9]{2,8})?",
    ]
    .boxed()
}

pub fn iri_text() -> BoxedStrategy<String> {
    prop_oneof![
        80 => select(IRIS).prop_map(String::from),
        1 => long_iri(),
        20 => "[a-z]{1,3}(/[a-zA-Z0-9._~!$&'()*+,;=:@-]{1,4}){0,2}(\\?[a-z0-9=&]{1,4})?(#[a-zA-Z0-9:_-]{1,4})?"
            .prop_filter_map("dot segments", |s| {
                let path = s.split(['?', '#']).next().unwrap();
                if path.split('/').any(|p| p == "." || p == "..") || !s.contains('/') { None }
                else { Some(format!("http://{}.org/{}", s.split('/').next().unwrap(), s.split_once('/').unwrap().1)) }
            }),
    ]
    .boxed()
}

pub fn predicate_text() -> BoxedStrategy<String> {
    prop_oneof![3 => select(PREDICATES).prop_map(String::from), 1 => iri_text()].boxed()
}

pub fn label() -> BoxedStrategy<String> {
    prop_oneof![
        120 => select(LABELS).prop_map(String::from),
        20 => "[A-Za-z0-9_][A-Za-z0-9_-]{0,4}(\\.[A-Za-z0-9_-]{1,2})?",
        1 => "[A-Za-z0-9_][A-Za-z0-9_.-]{20,300}[A-Za-z0-9_-]",
    ]
    .boxed()
}

/// Text for literals: quotes, backslashes, control characters, things that look like escapes.
pub fn text() -> BoxedStrategy<String> {
    let piece = prop_oneof![
        3 => "[a-zA-Z0-9 ]{0,5}".boxed(),
        3 => select(vec![
            "\"", "\\", "\n", "\r", "\t", "'", "\\n", "\\u0041", "\\\"", "<", ">", "&", "&amp;",
            "]]>", "\u{e9}", "\u{4e2d}\u{6587}", "\u{1f600}", "@en", "^^", "^^<http://e/>", " .",
            "\"\"\"", "'''", "#", "{", "}", "\r\n", "  ", "\u{a0}", "\u{85}", "\u{2028}", "\u{feff}",
        ]).prop_map(String::from).boxed(),
        1 => any::<char>().prop_map(String::from).boxed(),
        1 => select(vec!["\0", "\u{1}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{9f}"])
            .prop_map(String::from).boxed(),
    ];
    prop_oneof![
        30 => Just(String::new()),
        180 => vec(piece.clone(), 1..5).prop_map(|v| v.concat()),
        1 => vec(piece.clone(), 10..80).prop_map(|v| v.concat()),
        1 => long_text(),
    ]
    .boxed()
}

/// Text longer than the buffers, and the lines, that there are likely to be.
pub fn long_text() -> BoxedStrategy<String> {
    let unit = select(vec![
        "a", "ab ", "0123456789abcde\n", "\u{e9}", "\u{4e2d}", "\u{1f600}", "\"", "\\", "&", "<a>", "]]>", " ", "\n", "a\u{1f600}\"\n",
    ]);
    let times = prop_oneof![4 => 20usize..200, 2 => 200usize..3000, 1 => 8000usize..9000];
    (unit, times, select(vec!["", "x", "\"", "\n", "\u{4e2d}"])).prop_map(|(u, n, end)| u.repeat(n) + end).boxed()
}

/// Long names, and paths of many segments.
pub fn long_iri() -> BoxedStrategy<String> {
    prop_oneof![
        vec("[a-zA-Z0-9_~-]{1,6}", 8..60).prop_map(|v| format!("http://example.org/{}", v.join("/"))),
        "[a-zA-Z0-9_-]{60,300}".prop_map(|n| format!("http://example.org/ns#{n}")),
        "[a-z0-9=&]{60,300}".prop_map(|n| format!("http://example.org/x?{n}#f")),
    ]
    .boxed()
}

pub fn data_type_text() -> BoxedStrategy<String> {
    let known: Vec<String> = data_types().into_iter().map(|(_, i)| i).collect();
    prop_oneof![
        5 => select(known),
        1 => select(vec![format!("{XSD}integer"), format!("{XSD}gYear"), format!("{RDF}HTML"), format!("{XSD}strin"), format!("{XSD}Strings")]),
        1 => iri_text(),
    ]
    .boxed()
}

pub fn literal() -> BoxedStrategy<Lit> {
    prop_oneof![
        3 => text().prop_map(Lit::Plain),
        2 => (text(), language()).prop_map(|(t, l)| Lit::Lang(t, l)),
        3 => (text(), data_type_text()).prop_map(|(t, d)| Lit::Typed(t, d)),
        1 => ("-?[0-9]{1,3}(\\.[0-9]{1,2})?", data_type_text()).prop_map(|(t, d)| Lit::Typed(t, d)),
    ]
    .boxed()
}

/// A few literals that differ from one another in one respect only.
pub fn near_literal() -> BoxedStrategy<Lit> {
    let t = select(vec!["a", "b", "1", ""]).prop_map(String::from);
    prop_oneof![
        t.clone().prop_map(Lit::Plain),
        (t.clone(), select(&["en", "de"][..])).prop_map(|(t, l)| Lit::Lang(t, l.into())),
        (t, select(vec![format!("{XSD}string"), format!("{XSD}int"), format!("{XSD}long"), "http://example.org/a".into()]))
            .prop_map(|(t, d)| Lit::Typed(t, d)),
    ]
    .boxed()
}

pub fn node() -> BoxedStrategy<T> {
    prop_oneof![2 => label().prop_map(T::B), 3 => iri_text().prop_map(T::I)].boxed()
}

pub fn flat_object() -> BoxedStrategy<T> {
    prop_oneof![2 => label().prop_map(T::B), 2 => iri_text().prop_map(T::I), 3 => literal().prop_map(T::L)].boxed()
}

pub fn flat_statement() -> BoxedStrategy<St> {
    (node(), predicate_text(), flat_object()).prop_map(|(s, p, o)| St { s, p, o }).boxed()
}

/// Statements over a handful of terms, so that they share subjects, predicates, and objects.
pub fn dense_statement() -> BoxedStrategy<St> {
    let s = select(vec![
        T::B("a".into()), T::B("b".into()), T::I(IRIS[0].into()), T::I(IRIS[1].into()), T::I("http://example.org/A".into()),
    ]);
    let p = select(vec![IRIS[0], IRIS[1], PREDICATES[1]]).prop_map(String::from);
    let o = prop_oneof![s.clone(), near_literal().prop_map(T::L)];
    (s, p, o).prop_map(|(s, p, o)| St { s, p, o }).boxed()
}

/// Any term, nested up to `depth`.
pub fn object(depth: u32) -> BoxedStrategy<T> {
    if depth == 0 {
        return prop_oneof![3 => flat_object(), 1 => near_literal().prop_map(T::L)].boxed();
    }
    prop_oneof![
        4 => flat_object(),
        2 => vec(object(depth - 1), 0..4).prop_map(T::C),
        2 => statement(depth - 1).prop_map(|s| T::S(Box::new(s))),
    ]
    .boxed()
}

pub fn subject(depth: u32) -> BoxedStrategy<T> {
    if depth == 0 {
        return node();
    }
    prop_oneof![3 => node(), 1 => statement(depth - 1).prop_map(|s| T::S(Box::new(s)))].boxed()
}

pub fn statement(depth: u32) -> BoxedStrategy<St> {
    (subject(depth), predicate_text(), object(depth)).prop_map(|(s, p, o)| St { s, p, o }).boxed()
}

/// One of many subjects, predicates, and objects.
fn wide_statement() -> BoxedStrategy<St> {
    let node = || {
        prop_oneof![
            (0u8..60).prop_map(|n| T::B(format!("w{n}"))),
            (0u8..60).prop_map(|n| T::I(format!("http://example.org/n{n}"))),
            (0u8..60).prop_map(|n| T::I(format!("http://example.org/ns{}#n{n}", n % 7))),
        ]
    };
    let p = (0u8..40).prop_map(|n| format!("http://example.org/ns{}#p{n}", n % 3));
    let o = prop_oneof![4 => node(), 2 => (0u8..99).prop_map(|n| T::L(Lit::Plain(n.to_string()))), 1 => literal().prop_map(T::L)];
    (node(), p, o).prop_map(|(s, p, o)| St { s, p, o }).boxed()
}

/// Many statements: of many terms, or about one of them.
pub fn large() -> BoxedStrategy<Vec<St>> {
    let p = |n: usize| format!("http://example.org/ns#p{n}");
    let b = |n: usize| T::B(format!("w{n}"));
    let one = prop_oneof![
        6 => vec(wide_statement(), 15..120),
        1 => vec(wide_statement(), 250..330),
        // A chain of blank nodes.
        1 => (10usize..60, any::<bool>()).prop_map(move |(n, list)| {
            let first = |k| T::L(Lit::Plain(format!("{k}")));
            (0..n)
                .flat_map(|k| {
                    if list {
                        let rest = if k + 1 == n { T::I(rdf("nil")) } else { b(k + 1) };
                        vec![st(b(k), &rdf("first"), first(k)), st(b(k), &rdf("rest"), rest)]
                    } else {
                        vec![st(b(k), &p(k % 2), b(k + 1))]
                    }
                })
                .collect()
        }),
        // Many objects of one subject and predicate, many predicates, and many subjects.
        2 => (prop_oneof![2 => 15usize..150, 1 => 250usize..320], 0u8..3, any::<bool>()).prop_map(move |(n, which, blank)| {
            let node = |k| if blank { b(k) } else { T::I(format!("http://example.org/n{k}")) };
            (0..n)
                .map(|k| match which {
                    0 => st(node(999), &p(0), node(k)),
                    1 => st(node(999), &p(k), node(0)),
                    _ => st(node(k), &p(0), node(999)),
                })
                .collect()
        }),
    ];
    (one, vec(dense_statement(), 0..4)).prop_map(|(mut a, b)| { a.extend(b); a }).boxed()
}

/// A large collection, or one deep within others, or statements.
/// Documents of more than 64 kilobytes, and two or four times that.
pub fn huge() -> BoxedStrategy<Vec<St>> {
    let at = |k: usize| T::I(format!("http://example.org/some/thing/{k:05}"));
    let p = |k: usize| format!("http://example.org/ns#property{k}");
    let many = (700usize..2400, 0u8..4, "[a-z0-9 \u{e9}\u{4e2d}]{0,30}").prop_map(move |(n, which, text)| {
        (0..n)
            .map(|k| match which {
                0 => st(at(k), &p(0), at(0)),
                1 => st(at(0), &p(k % 3), at(k)),
                2 => st(at(k / 7), &p(k % 7), T::L(Lit::Plain(text.clone()))),
                _ => st(at(k), &p(k % 2), T::L(Lit::Lang(format!("{text}{k}"), "en".into()))),
            })
            .collect()
    });
    let unit = || select(vec!["0123456789", "abc ", "\u{e9}", "\u{4e2d}", "\u{1f600}", "a\u{1f600}\"\n", "x\u{e9}\u{4e2d}", "\\", "&<"]);
    let text = (unit(), 66_000usize..150_000, "[ab]{0,3}").prop_map(|(u, n, end)| format!("{end}{}", u.repeat(n / u.len())));
    let long = (vec(text, 1..3), vec(flat_statement(), 0..3)).prop_map(move |(texts, rest)| {
        let mut sts: Vec<_> = texts.into_iter().enumerate().map(|(k, t)| st(at(k), &p(0), T::L(Lit::Plain(t)))).collect();
        sts.extend(rest);
        sts
    });
    prop_oneof![2 => many, 1 => long].boxed()
}

pub fn large_object() -> BoxedStrategy<T> {
    prop_oneof![
        3 => vec(flat_object(), 15..120).prop_map(T::C),
        1 => vec(flat_object(), 250..320).prop_map(T::C),
        1 => (3usize..25, flat_object()).prop_map(|(n, o)| (0..n).fold(o, |o, _| T::C(vec![o]))),
        1 => (3usize..25, flat_object()).prop_map(|(n, o)| (0..n).fold(o, |o, k| T::S(Box::new(st(T::B(format!("w{k}")), IRIS[0], o))))),
    ]
    .boxed()
}

/// As `large`, with collections and statements in them.
pub fn large_nested() -> BoxedStrategy<Vec<St>> {
    let big = (node(), predicate_text(), large_object()).prop_map(|(s, p, o)| St { s, p, o });
    prop_oneof![
        2 => vec(big, 1..3),
        1 => vec(statement(2), 15..40),
    ]
    .boxed()
}

/// A collection written out as rdf:first/rdf:rest statements, as the syntaxes do.
pub fn list_statements(items: &[T], fresh: &mut dyn FnMut() -> T, out: &mut Vec<St>) -> T {
    let mut rest = T::I(rdf("nil"));
    for item in items.iter().rev() {
        let cell = fresh();
        out.push(st(cell.clone(), &rdf("first"), item.clone()));
        out.push(st(cell.clone(), &rdf("rest"), rest));
        rest = cell;
    }
    rest
}

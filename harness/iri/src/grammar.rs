//! Independent recogniser for the name productions of the SPARQL grammar, written from the
//! published EBNF (rules 68-72 and 95-100 without the `PLX` escapes, as the crate documents).

pub const BASE: &[(u32, u32)] = &[
    (0x41, 0x5A),
    (0x61, 0x7A),
    (0xC0, 0xD6),
    (0xD8, 0xF6),
    (0xF8, 0x2FF),
    (0x370, 0x37D),
    (0x37F, 0x1FFF),
    (0x200C, 0x200D),
    (0x2070, 0x218F),
    (0x2C00, 0x2FEF),
    (0x3001, 0xD7FF),
    (0xF900, 0xFDCF),
    (0xFDF0, 0xFFFD),
    (0x10000, 0xEFFFF),
];
pub const EXTRA: &[(u32, u32)] = &[
    (0x2D, 0x2D),
    (0x30, 0x39),
    (0xB7, 0xB7),
    (0x300, 0x36F),
    (0x203F, 0x2040),
];

fn within(t: &[(u32, u32)], c: char) -> bool {
    t.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}
pub fn base(c: char) -> bool {
    within(BASE, c)
}
pub fn chars_u(c: char) -> bool {
    base(c) || c == '_'
}
pub fn pn_chars(c: char) -> bool {
    chars_u(c) || within(EXTRA, c)
}

/// first ((PN_CHARS|'.')* PN_CHARS)?
fn body(s: &str, first: fn(char) -> bool) -> bool {
    let cs: Vec<char> = s.chars().collect();
    match cs.len() {
        0 => false,
        1 => first(cs[0]),
        n => {
            first(cs[0])
                && cs[1..n - 1].iter().all(|c| pn_chars(*c) || *c == '.')
                && pn_chars(cs[n - 1])
        }
    }
}

pub fn pn_prefix(s: &str) -> bool {
    body(s, base)
}
pub fn pn_local(s: &str) -> bool {
    body(s, |c| chars_u(c) || c.is_ascii_digit())
}
pub fn pname_ns(s: &str) -> bool {
    match s.strip_suffix(':') {
        Some("") => true,
        Some(p) => pn_prefix(p),
        None => false,
    }
}
/// PNAME_LN: some split after a ':' gives a PNAME_NS and a PN_LOCAL.
pub fn pname_ln(s: &str) -> Option<(String, String)> {
    s.char_indices()
        .filter(|(_, c)| *c == ':')
        .map(|(i, _)| s.split_at(i + 1))
        .find(|(a, b)| pname_ns(a) && pn_local(b))
        .map(|(a, b)| (a.to_string(), b.to_string()))
}

/// UTF-8 percent-encoding of the non-ASCII characters of a name (all ASCII name characters are
/// unreserved in IRIs).
pub fn pct(name: &str) -> String {
    let mut s = String::new();
    for b in name.bytes() {
        if b < 0x80 {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{b:02X}"));
        }
    }
    s
}

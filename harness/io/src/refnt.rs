//! A reference parser, and a reference serializer, for N-Triples and N-Quads, written from the
//! grammars of the recommendations.

use crate::dice::Dice;
use terms::{Lit, St, T, unescape};

pub type Quad = (St, Option<T>);

// ------------------------------------------------------------------------------------------------
// Parser; strict, so that what it accepts is in the language
// ------------------------------------------------------------------------------------------------

struct P<'a> {
    rest: &'a str,
}

fn pn_chars_base(c: char) -> bool {
    matches!(c, 'A'..='Z' | 'a'..='z' | '\u{c0}'..='\u{d6}' | '\u{d8}'..='\u{f6}' | '\u{f8}'..='\u{2ff}'
        | '\u{370}'..='\u{37d}' | '\u{37f}'..='\u{1fff}' | '\u{200c}'..='\u{200d}' | '\u{2070}'..='\u{218f}'
        | '\u{2c00}'..='\u{2fef}' | '\u{3001}'..='\u{d7ff}' | '\u{f900}'..='\u{fdcf}' | '\u{fdf0}'..='\u{fffd}'
        | '\u{10000}'..='\u{effff}')
}
pub fn pn_chars_u(c: char) -> bool {
    pn_chars_base(c) || c == '_'
}
pub fn pn_chars(c: char) -> bool {
    pn_chars_u(c) || c.is_ascii_digit() || matches!(c, '-' | '\u{b7}' | '\u{300}'..='\u{36f}' | '\u{203f}'..='\u{2040}')
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        self.rest = self.rest.trim_start_matches([' ', '\t']);
    }
    fn eat(&mut self, s: &str) -> bool {
        match self.rest.strip_prefix(s) {
            Some(r) => {
                self.rest = r;
                true
            }
            None => false,
        }
    }
    fn iri(&mut self) -> Result<String, String> {
        if !self.eat("<") {
            return Err(format!("no IRI at {:?}", self.rest));
        }
        let end = self.rest.find('>').ok_or("no end of IRI")?;
        let raw = &self.rest[..end];
        self.rest = &self.rest[end + 1..];
        if let Some(c) = raw.chars().find(|c| *c <= ' ' || "<\"{}|^`".contains(*c)) {
            return Err(format!("{c:?} in IRI {raw:?}"));
        }
        let mut left = raw;
        while let Some(at) = left.find('\\') {
            if !left[at + 1..].starts_with(['u', 'U']) {
                return Err(format!("escape in IRI {raw:?}"));
            }
            left = &left[at + 2..];
        }
        unescape(raw)
    }
    fn blank(&mut self) -> Result<String, String> {
        if !self.eat("_:") {
            return Err(format!("no blank node at {:?}", self.rest));
        }
        let mut end = 0;
        for (i, c) in self.rest.char_indices() {
            let ok = if i == 0 { pn_chars_u(c) || c.is_ascii_digit() } else { pn_chars(c) || c == '.' };
            if !ok {
                break;
            }
            if c != '.' {
                end = i + c.len_utf8();
            }
        }
        if end == 0 {
            return Err(format!("no label at {:?}", self.rest));
        }
        let l = self.rest[..end].to_string();
        self.rest = &self.rest[end..];
        Ok(l)
    }
    fn node(&mut self) -> Result<T, String> {
        if self.rest.starts_with('<') { Ok(T::I(self.iri()?)) } else { Ok(T::B(self.blank()?)) }
    }
    fn object(&mut self) -> Result<T, String> {
        if !self.rest.starts_with('"') {
            return self.node();
        }
        let body = &self.rest[1..];
        let mut escaped = false;
        let end = body
            .char_indices()
            .find(|(_, c)| {
                let end = !escaped && *c == '"';
                escaped = !escaped && *c == '\\';
                end
            })
            .ok_or("no end of string")?
            .0;
        let text = unescape(&body[..end])?;
        self.rest = &body[end + 1..];
        if self.eat("@") {
            let n = self.rest.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(self.rest.len());
            let tag = self.rest[..n].to_string();
            let mut parts = tag.split('-');
            let first = parts.next().unwrap();
            if first.is_empty() || !first.bytes().all(|b| b.is_ascii_alphabetic()) || parts.any(str::is_empty) {
                return Err(format!("language tag {tag:?}"));
            }
            self.rest = &self.rest[n..];
            Ok(T::L(Lit::Lang(text, tag)))
        } else if self.eat("^^") {
            Ok(T::L(Lit::Typed(text, self.iri()?)))
        } else {
            Ok(T::L(Lit::Plain(text)))
        }
    }
}

pub fn parse(text: &str, quads: bool) -> Result<Vec<Quad>, String> {
    let mut out = vec![];
    for line in text.split(['\n', '\r']) {
        let mut p = P { rest: line };
        p.ws();
        if p.rest.is_empty() || p.rest.starts_with('#') {
            continue;
        }
        let mut quad = || {
            let s = p.node()?;
            p.ws();
            let pr = p.iri()?;
            p.ws();
            let o = p.object()?;
            p.ws();
            let g = if quads && !p.rest.starts_with('.') { Some(p.node()?) } else { None };
            p.ws();
            if !p.eat(".") {
                return Err(format!("no '.' at {:?}", p.rest));
            }
            p.ws();
            if !(p.rest.is_empty() || p.rest.starts_with('#')) {
                return Err(format!("{:?} after '.'", p.rest));
            }
            Ok((St { s, p: pr, o }, g))
        };
        out.push(quad().map_err(|e| format!("{e}, in line {line:?}"))?);
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------------
// Serializer
// ------------------------------------------------------------------------------------------------

fn uchar(c: char, d: &Dice) -> String {
    let n = c as u32;
    match (n > 0xffff || d.once_in(3), d.pick(2)) {
        (false, 0) => format!("\\u{n:04X}"),
        (false, _) => format!("\\u{n:04x}"),
        (true, 0) => format!("\\U{n:08X}"),
        (true, _) => format!("\\U{n:08x}"),
    }
}

pub fn iri(s: &str, d: &Dice) -> String {
    let mut out = String::from("<");
    for c in s.chars() {
        if c <= ' ' || "<>\"{}|^`\\".contains(c) || d.once_in(30) {
            out += &uchar(c, d);
        } else {
            out.push(c);
        }
    }
    out + ">"
}

pub fn string(s: &str, d: &Dice) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        let e = match c {
            '\t' => Some('t'),
            '\u{8}' => Some('b'),
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\u{c}' => Some('f'),
            '"' | '\'' | '\\' => Some(c),
            _ => None,
        };
        let must = matches!(c, '"' | '\\' | '\n' | '\r');
        if d.once_in(12) {
            out += &uchar(c, d);
        } else if let Some(e) = e
            && (must || d.pick(3) == 1)
        {
            out.push('\\');
            out.push(e);
        } else {
            out.push(c);
        }
    }
    out + "\""
}

pub fn term(t: &T, d: &Dice) -> String {
    match t {
        T::B(b) => format!("_:{b}"),
        T::I(i) => iri(i, d),
        T::L(Lit::Plain(t)) => string(t, d),
        T::L(Lit::Lang(t, l)) => format!("{}@{l}", string(t, d)),
        T::L(Lit::Typed(t, dt)) => format!("{}^^{}", string(t, d), iri(dt, d)),
        _ => unreachable!("flat terms only"),
    }
}

const COMMENTS: &[&str] = &["", "#", "# comment", "# <a> <b> \"c\" .", "#\u{e9}\"'\\ ."];

fn gap(d: &Dice, needed: bool) -> &'static str {
    // A label and what follows it are told apart by the first character of the latter.
    if needed { d.of(&[" ", " ", "\t", "  ", " \t "]) } else { d.of(&[" ", " ", "\t", "", " \t "]) }
}

pub fn write(quads: &[Quad], d: &Dice) -> String {
    let eol = d.of(&["\n", "\r\n", "\r"]);
    let mut out = String::new();
    let filler = |out: &mut String| {
        while d.once_in(5) {
            *out += d.of(&["", " ", "\t"]);
            *out += d.of(COMMENTS);
            *out += eol;
        }
    };
    for (n, (s, g)) in quads.iter().enumerate() {
        filler(&mut out);
        if d.once_in(6) {
            out += d.of(&[" ", "\t"]);
        }
        out += &term(&s.s, d);
        out += gap(d, false);
        out += &iri(&s.p, d);
        out += gap(d, false);
        out += &term(&s.o, d);
        if let Some(g) = g {
            out += gap(d, matches!((&s.o, g), (_, T::B(_))));
            out += &term(g, d);
        }
        // Some readers need help to end a label that is followed by '.'; the grammar does not.
        out += gap(d, false);
        out.push('.');
        if d.once_in(6) {
            out += gap(d, false);
            out += d.of(COMMENTS);
        }
        if n + 1 < quads.len() || !d.once_in(3) {
            out += eol;
        }
    }
    filler(&mut out);
    if d.once_in(10) {
        out += "# the end";
    }
    out
}

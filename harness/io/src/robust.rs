//! W06: readers and any bytes. W10: readers and writers, and streams.

use crate::dice::Dice;
use crate::lines::{self, Set, err, graph, make_set, of_data_set, quad_edges};
use crate::refnt::{self, Quad};
use crate::{json, rdfxml};
use objio::{ObjectReader, ObjectWriter};
use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Fail, Gen, Property, R, ensure, label};
use rdftk_io::dot::DotWriter;
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use rdftk_io::nq::{NQuadReader, NQuadWriter};
use rdftk_io::nt::{NTripleReader, NTripleWriter};
use rdftk_io::trig::TrigWriter;
use rdftk_io::turtle::TurtleWriter;
use rdftk_io::xml::{XmlOptions, XmlReader, XmlWriter};
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read, Write};
use terms::gens;
use terms::iso;
use terms::{St, of_graph};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Format {
    NTriples,
    NQuads,
    Json,
    Xml,
}
use Format::*;

// ------------------------------------------------------------------------------------------------
// Reading and writing in a format by name
// ------------------------------------------------------------------------------------------------

/// What was read, or that it was not.
pub fn read(f: Format, r: &mut impl Read) -> Result<Option<Vec<Quad>>, Fail> {
    let plain = |v: Vec<St>| v.into_iter().map(|s| (s, None)).collect();
    macro_rules! get {
        ($reader:expr, $of:expr) => {
            match $reader.read(r) {
                Ok(x) => Some($of(&x)?),
                Err(e) => {
                    // An error can be told.
                    ensure!(!e.to_string().is_empty(), "an error without a message");
                    None
                }
            }
        };
    }
    Ok(match f {
        NTriples => get!(NTripleReader::default(), of_graph).map(plain),
        NQuads => get!(NQuadReader::default(), of_data_set),
        Json => get!(JsonReader::default(), of_graph).map(plain),
        Xml => get!(XmlReader::default(), of_graph).map(plain),
    })
}

/// The document read written again. None if that cannot be.
fn again(f: Format, r: &mut impl Read) -> Result<Option<String>, Fail> {
    Ok(Some(match f {
        NTriples => NTripleWriter::default().write_to_string(&NTripleReader::default().read(r).map_err(err)?).map_err(err)?,
        NQuads => NQuadWriter::default().write_to_string(&NQuadReader::default().read(r).map_err(err)?).map_err(err)?,
        Json => JsonWriter::default().write_to_string(&JsonReader::default().read(r).map_err(err)?).map_err(err)?,
        Xml => match XmlWriter::default().write_to_string(&XmlReader::default().read(r).map_err(err)?) {
            Ok(t) => t,
            // Not every predicate can be written.
            Err(_) => return Ok(None),
        },
    }))
}

fn same(a: &[Quad], b: &[Quad]) -> bool {
    iso::iso(&quad_edges(a), &quad_edges(b)).is_some()
}

// ------------------------------------------------------------------------------------------------
// W06
// ------------------------------------------------------------------------------------------------

/// Whether the bytes were read.
fn total(f: Format, bytes: &[u8]) -> Result<bool, Fail> {
    let shown = || String::from_utf8_lossy(bytes).into_owned();
    let got = read(f, &mut &bytes[..])?;
    let twice = read(f, &mut &bytes[..])?;
    match (&got, &twice) {
        (None, None) => return Ok(false),
        (Some(a), Some(b)) if same(a, b) => {}
        _ => return Err(Fail::new(format!("{f:?} {:?} is read as {got:?}, and then as {twice:?}", shown()))),
    }
    let got = got.unwrap();
    if f != Xml {
        ensure!(std::str::from_utf8(bytes).is_ok(), "{f:?} {bytes:?}, not UTF-8, is read as {got:?}");
    }
    if let Some(text) = again(f, &mut &bytes[..])? {
        let back = read(f, &mut text.as_bytes())?.ok_or_else(|| Fail::new(format!("{f:?} {:?} is read, but not {text:?}, which that is written as", shown())))?;
        ensure!(same(&back, &got), "{f:?} {:?} is read as {got:?}, but when written again, as {text:?}, as {back:?}", shown());
    }
    if f == NTriples {
        // N-Triples are N-Quads, of the default graph.
        let quads = read(NQuads, &mut &bytes[..])?.ok_or_else(|| Fail::new(format!("{:?} is read as N-Triples but not as N-Quads", shown())))?;
        ensure!(same(&quads, &got), "{:?} is read as {got:?} from N-Triples, and {quads:?} from N-Quads", shown());
    }
    Ok(true)
}

const FORMATS: [Format; 4] = [NTriples, NQuads, Json, Xml];

fn bytes(b: &Vec<u8>) -> R {
    let mut any = false;
    for f in FORMATS {
        any |= total(f, b)?;
    }
    if any {
        label("read");
    }
    Ok(b.len() > 3)
}

const WORDS: &[&str] = &[
    "<http://e.org/a>", "<x:b>", "<", ">", "_:a", "_:", ":", "\"t\"", "\"", "\\", "\\u0041", "\\uD800", "\\U00110000", "\\U0001F600", "@en", "@", "^^", "^^<x:d>", ".", "..", "\n", "\r", " ", "\t", "#", "# c\n",
    "<a>", "<>", "<x:\\u0020>", "a", "0", "\u{0}", "\u{feff}", "\u{e9}", "\u{10ffff}", "'", "<<", ">>", "[", "]", "(", ")", ",", ";", "@prefix", "<x:s> <x:p> <x:o> .\n", "<x:s> <x:p> \"o\"@en-us <x:g> .\n",
    // JSON
    "{", "}", "\"type\":", "\"value\":", "\"lang\":", "\"datatype\":", "\"uri\"", "\"bnode\"", "\"literal\"", "\"x:p\":", "\"_:b\":", "null", "true", "1", "-", "1e999", "{\"x:s\":{\"x:p\":[{\"type\":\"literal\",\"value\":\"v\"}]}}",
    // XML
    "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"utf-16\"?>", "<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\" xmlns:e=\"x:e#\">", "<rdf:RDF>", "</rdf:RDF>", "<rdf:Description rdf:about=\"x:s\">", "<rdf:Description>", "</rdf:Description>",
    "<e:p>", "</e:p>", "<e:p/>", "<e:C>", "</e:C>", " rdf:about=\"x:s\"", " rdf:nodeID=\"n\"", " rdf:ID=\"i\"", " rdf:resource=\"x:r\"", " rdf:datatype=\"x:d\"", " rdf:parseType=\"Literal\"", " rdf:parseType=\"Resource\"", " rdf:parseType=\"Collection\"",
    " xml:lang=\"en\"", " xml:base=\"x:b\"", " xmlns=\"\"", "<e:p rdf:parseType=\"Literal\">", "<e:p rdf:parseType=\"Collection\">", "<e:p rdf:parseType=\"Resource\">", "<rdf:li>", "</rdf:li>", "<!--", "-->", "<!-- c -->", "<![CDATA[", "]]>", "<?p i?>", "&amp;", "&#0;", "&#x41;", "&e;", "&",
    "<!DOCTYPE rdf:RDF [<!ENTITY e \"x\">]>", "/>", "=",
];

fn soup(words: &Vec<String>) -> R {
    let text = words.concat();
    let mut any = false;
    for f in FORMATS {
        any |= total(f, text.as_bytes())?;
    }
    if any {
        label("read");
    }
    Ok(words.len() > 3)
}

fn soups() -> BoxedStrategy<Vec<String>> {
    let word = prop_oneof![20 => select(WORDS).prop_map(String::from), 1 => any::<char>().prop_map(String::from), 1 => any::<String>()];
    vec(word, 0..24).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Cut(Index64, Index64),
    Insert(Index64, String),
    Byte(Index64, u8),
    /// Repeat what is between, elsewhere.
    Copy(Index64, Index64, Index64),
    End(Index64),
    /// What the quotation marks from there on enclose becomes this.
    Text(Index64, String),
}

/// A position as a share of the length, which can be told.
pub type Index64 = u16;

fn place(n: Index64, len: usize) -> usize {
    n as usize * (len + 1) >> 16
}

pub fn edit(text: &mut Vec<u8>, e: &Edit) {
    let len = text.len();
    let span = |a: u16, b: u16| {
        let a = place(a, len);
        // Mostly short.
        let n = if b < 0xc000 { (b >> 12) as usize } else { place((b - 0xc000) * 4, len) };
        a..(a + n).min(len)
    };
    match e {
        Edit::Cut(a, b) => drop(text.drain(span(*a, *b))),
        Edit::Insert(a, s) => {
            let a = place(*a, len);
            text.splice(a..a, s.bytes());
        }
        Edit::Byte(a, b) => {
            if len > 0 {
                let a = place(*a, len - 1);
                text[a] = *b;
            }
        }
        Edit::Copy(a, b, c) => {
            let piece = text[span(*a, *b)].to_vec();
            let c = place(*c, len);
            text.splice(c..c, piece);
        }
        Edit::End(a) => text.truncate(place(*a, len)),
        Edit::Text(a, s) => {
            let quote = |from: usize| text[from..].iter().position(|b| *b == b'"').map(|n| from + n);
            if let Some(open) = quote(place(*a, len))
                && let Some(close) = quote(open + 1)
            {
                text.splice(open + 1..close, s.bytes());
            }
        }
    }
}

/// Characters of one to four bytes, so that hardly any length in bytes is between two of them.
fn long_text() -> BoxedStrategy<String> {
    let c = || select("aZ09-_.:/#\u{e9}\u{df}\u{6f22}\u{20ac}\u{1f600}\u{10348}".chars().collect::<Vec<_>>());
    prop_oneof![3 => vec(c(), 0..24), 2 => vec(c(), 24..200)].prop_map(|v| v.into_iter().collect()).boxed()
}

pub fn edits() -> BoxedStrategy<Vec<Edit>> {
    let at = any::<u16>;
    let word = prop_oneof![6 => select(WORDS).prop_map(String::from), 1 => any::<char>().prop_map(String::from)];
    vec(
        prop_oneof![
            3 => (at(), at()).prop_map(|(a, b)| Edit::Cut(a, b)),
            4 => (at(), word).prop_map(|(a, w)| Edit::Insert(a, w)),
            2 => (at(), prop_oneof![2 => any::<u8>(), 3 => 32u8..127]).prop_map(|(a, b)| Edit::Byte(a, b)),
            2 => (at(), at(), at()).prop_map(|(a, b, c)| Edit::Copy(a, b, c)),
            1 => at().prop_map(Edit::End),
            2 => (at(), long_text()).prop_map(|(a, s)| Edit::Text(a, s)),
            1 => (at(), long_text()).prop_map(|(a, s)| Edit::Insert(a, s)),
        ],
        1..4,
    )
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Source {
    Lines(Vec<(St, Option<terms::T>)>, u64),
    Json(Vec<St>, u64),
    Xml(rdfxml::Doc),
}

pub fn sources() -> BoxedStrategy<Source> {
    prop_oneof![
        2 => lines::docs().prop_map(|(q, s)| Source::Lines(q, s)),
        1 => (lines::flat(), any::<u64>()).prop_map(|(q, s)| Source::Json(q, s)),
        2 => rdfxml::doc().prop_map(Source::Xml),
    ]
    .boxed()
}

/// Documents longer than any buffer is likely to be.
pub fn large_sources() -> BoxedStrategy<Source> {
    prop_oneof![
        3 => lines::large_docs().prop_map(|(q, s)| Source::Lines(q, s)),
        1 => (gens::large(), any::<u64>()).prop_map(|(q, s)| Source::Json(q, s)),
        2 => rdfxml::large_doc().prop_map(Source::Xml),
    ]
    .boxed()
}

/// Documents of more than 64 kilobytes.
pub fn huge_sources() -> BoxedStrategy<Source> {
    prop_oneof![
        3 => lines::huge_docs().prop_map(|(q, s)| Source::Lines(q, s)),
        1 => (gens::huge(), any::<u64>()).prop_map(|(q, s)| Source::Json(q, s)),
        1 => rdfxml::huge_doc().prop_map(Source::Xml),
    ]
    .boxed()
}

impl Source {
    /// The formats the text may be in, best first.
    pub fn text(&self) -> (String, &'static [Format]) {
        match self {
            Source::Lines(q, s) => (refnt::write(q, &Dice::new(*s)), &[NQuads, NTriples]),
            Source::Json(q, s) => (json::write(q, &Dice::new(*s)), &[Json]),
            Source::Xml(d) => (d.text(), &[Xml]),
        }
    }
}

fn damaged((s, edits): &(Source, Vec<Edit>)) -> R {
    let (text, formats) = s.text();
    let mut text = text.into_bytes();
    for e in edits {
        edit(&mut text, e);
    }
    for f in formats {
        if total(*f, &text)? {
            label(&format!("{f:?} read"));
        }
    }
    Ok(text.len() > 10)
}

// ------------------------------------------------------------------------------------------------
// W10
// ------------------------------------------------------------------------------------------------

/// A stream of pieces of limited length that is interrupted now and then, and may fail.
pub struct Rough<'a> {
    dice: Dice,
    left: &'a [u8],
    got: Vec<u8>,
    /// Fails once this many bytes have passed.
    fails: Option<usize>,
    passed: usize,
    pub failed: bool,
    interrupted: bool,
}

impl<'a> Rough<'a> {
    pub fn new(seed: u64, left: &'a [u8], fails: Option<usize>) -> Self {
        Self { dice: Dice::new(seed), left, got: vec![], fails, passed: 0, failed: false, interrupted: false }
    }
    /// How many bytes, of those asked for, pass now.
    fn pass(&mut self, asked: usize) -> io::Result<usize> {
        if asked == 0 {
            return Ok(0);
        }
        if self.fails == Some(self.passed) {
            self.failed = true;
            return Err(io::Error::new(ErrorKind::Other, "the stream failed"));
        }
        if !self.interrupted && self.dice.once_in(6) {
            self.interrupted = true;
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        self.interrupted = false;
        let most = [usize::MAX, 1, 2, 3, 7, 64, 1000][self.dice.pick(7)];
        let n = asked.min(most).min(self.fails.map_or(usize::MAX, |f| f - self.passed));
        self.passed += n;
        Ok(n)
    }
}

impl Read for Rough<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        // The end is not a failure unless that is to come.
        if self.left.is_empty() && self.fails != Some(self.passed) {
            return Ok(0);
        }
        let n = self.pass(b.len().min(self.left.len().max(1)))?;
        b[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}

impl Write for Rough<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = self.pass(b.len())?;
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.fails {
            Some(n) if n == self.passed => {
                self.failed = true;
                Err(io::Error::new(ErrorKind::Other, "the stream failed"))
            }
            _ => Ok(()),
        }
    }
}

const WRITERS: &[&str] = &["nt", "nq graph", "nq", "json", "json pretty", "xml flat", "xml striped", "xml pretty", "dot", "turtle", "trig", "trig graph"];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Out {
    sts: Vec<St>,
    /// For "nq".
    set: Set,
    writer: usize,
    seed: u64,
    at: u16,
}

fn write_to(c: &Out, each: &mut dyn FnMut(&dyn Fn(&mut dyn Write) -> Result<(), String>) -> Result<(), Fail>) -> Result<(), Fail> {
    let g = graph(&c.sts, false)?;
    let d = make_set(&c.set)?.0;
    macro_rules! with {
        ($w:expr, $x:expr) => {{
            let w = $w;
            each(&|mut s: &mut dyn Write| w.write(&mut s, $x).map_err(|e| e.to_string()))
        }};
    }
    match WRITERS[c.writer] {
        "nt" => with!(NTripleWriter::default(), &g),
        "nq graph" => with!(NQuadWriter::default(), &g),
        "nq" => with!(NQuadWriter::default(), &d),
        "json" => with!(JsonWriter::default(), &g),
        "json pretty" => with!(JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(true)), &g),
        "xml flat" => with!(XmlWriter::default().with_options(XmlOptions::default().flat()), &g),
        "xml striped" => with!(XmlWriter::default().with_options(XmlOptions::default().striped()), &g),
        "xml pretty" => with!(XmlWriter::default().with_options(XmlOptions::default().striped().pretty()), &g),
        "dot" => with!(DotWriter::default(), &g),
        "turtle" => with!(TurtleWriter::default(), &g),
        "trig" => with!(TrigWriter::default(), &d),
        "trig graph" => with!(TrigWriter::default(), &g),
        _ => unreachable!(),
    }
}

/// Whether the writer has no choice of the order of what it writes.
fn orderly(c: &Out) -> bool {
    match WRITERS[c.writer] {
        // A statement that is not flat becomes several.
        "nq" | "trig" => c.set.iter().map(|(_, sts)| sts.len()).sum::<usize>() < 2 && c.set.iter().all(|(_, sts)| sts.iter().all(St::is_flat)),
        _ => c.sts.len() < 2 && c.sts.iter().all(St::is_flat),
    }
}

fn out_case() -> BoxedStrategy<Out> {
    (lines::flat(), lines::data_sets(), 0..WRITERS.len(), any::<u64>(), any::<u16>())
        .prop_map(|(sts, set, writer, seed, at)| {
            let mut sts = crate::xml::expressible(sts);
            sts.retain(|s| !rdfxml::splits(&s.p).is_empty());
            Out { sts, set, writer, seed, at }
        })
        .boxed()
}

fn large_out() -> BoxedStrategy<Out> {
    out_of(gens::large(), lines::large_sets())
}

fn huge_out() -> BoxedStrategy<Out> {
    out_of(gens::huge(), gens::huge().prop_map(|sts| vec![(None, sts)]).boxed())
}

fn out_of(sts: BoxedStrategy<Vec<St>>, sets: BoxedStrategy<lines::Set>) -> BoxedStrategy<Out> {
    (sts, sets, 0..WRITERS.len(), any::<u64>(), any::<u16>())
        .prop_map(|(sts, set, writer, seed, at)| Out { sts: crate::xml::expressible(sts), set, writer, seed, at })
        .prop_map(|mut c| {
            c.sts.retain(|s| !rdfxml::splits(&s.p).is_empty());
            // The labels of new blank nodes are not the same when written again.
            c.set.iter_mut().for_each(|(_, sts)| sts.retain(St::is_flat));
            c
        })
        .boxed()
}

fn huge_in() -> BoxedStrategy<(Source, Vec<Edit>, u64, u16)> {
    (huge_sources(), prop_oneof![3 => Just(vec![]), 1 => edits()], any::<u64>(), any::<u16>()).boxed()
}

fn large_in() -> BoxedStrategy<(Source, Vec<Edit>, u64, u16)> {
    (large_sources(), prop_oneof![3 => Just(vec![]), 1 => edits()], any::<u64>(), any::<u16>()).boxed()
}

/// What the Turtle or TriG says.
fn said(name: &str, text: &[u8]) -> Result<Vec<Quad>, String> {
    let text = std::str::from_utf8(text).map_err(|e| e.to_string())?;
    Ok(match name {
        "turtle" => crate::turtle::flatten(crate::turtle::parse(text)?).into_iter().map(|s| (s, None)).collect(),
        _ => crate::turtle::parse_trig(text)?.0,
    })
}

fn write_out(c: &Out) -> R {
    let name = WRITERS[c.writer];
    let ordered = orderly(c);
    let readable = match name.split(' ').next() {
        Some("nt") => Some(NTriples),
        Some("nq") => Some(NQuads),
        Some("json") => Some(Json),
        Some("xml") => Some(Xml),
        _ => None,
    };
    let mut count = 0;
    write_to(c, &mut |write| {
        let mut whole = vec![];
        write(&mut whole).map_err(err)?;
        count = whole.len();
        let text = String::from_utf8_lossy(&whole).into_owned();

        let mut rough = Rough::new(c.seed, &[], None);
        write(&mut rough).map_err(|e| Fail::new(format!("{name}, to a stream that takes pieces: {e}")))?;
        ensure!(rough.got == whole || !ordered, "{name}: a stream that takes pieces got {:?}, not {text:?}", String::from_utf8_lossy(&rough.got));

        if let Some(f) = readable {
            let (a, b) = (read(f, &mut &whole[..])?, read(f, &mut &rough.got[..])?);
            ensure!(same(a.as_ref().ok_or(Fail::new("not read"))?, b.as_ref().ok_or(Fail::new("not read from a stream that takes pieces"))?), "{name}: a stream that takes pieces got {b:?}, not {a:?}");
        }
        if matches!(name, "turtle" | "trig") {
            let get = |t: &[u8]| said(name, t).map_err(|e| Fail::new(format!("{name}: {:?} is not: {e}", String::from_utf8_lossy(t))));
            let (a, b) = (get(&whole)?, get(&rough.got)?);
            ensure!(same(&a, &b), "{name}: a stream that takes pieces got {b:?}, not {a:?}");
        }
        let at = place(c.at, whole.len().saturating_sub(1));
        let mut rough = Rough::new(c.seed, &[], Some(at));
        let r = write(&mut rough);
        if rough.failed {
            ensure!(r.is_err(), "{name}: no error although the stream failed at byte {at} of {text:?}");
        } else {
            ensure!((whole.is_empty() || !ordered) && r.is_ok(), "{name}: {r:?} although the stream would fail at byte {at} of {text:?}");
        }
        if matches!(readable, Some(NTriples | NQuads)) {
            let got = String::from_utf8_lossy(&rough.got);
            for l in got.split_inclusive('\n').filter(|l| l.ends_with('\n')) {
                ensure!(text.split_inclusive('\n').any(|t| t == l), "{name}: a stream that fails at byte {at} got {got:?}, of {text:?}");
            }
        }
        ensure!(!ordered || whole.starts_with(&rough.got), "{name}: a stream that fails at byte {at} got {:?}, of {text:?}", String::from_utf8_lossy(&rough.got));

        // And is as before.
        let mut last = vec![];
        write(&mut last).map_err(err)?;
        if let Some(f) = readable {
            let (a, b) = (read(f, &mut &whole[..])?, read(f, &mut &last[..])?);
            ensure!(same(a.as_ref().ok_or(Fail::new("not read"))?, b.as_ref().ok_or(Fail::new("not read, written after a failure"))?), "{name}: after a failure {b:?} is written, not {a:?}");
        }
        ensure!(!ordered || last == whole, "{name}: after a failure, {:?} is written, not {text:?}", String::from_utf8_lossy(&last));
        Ok(())
    })?;
    label(name);
    Ok(c.seed != 0 && count > 20)
}

fn read_in((s, edits, seed, at): &(Source, Vec<Edit>, u64, u16)) -> R {
    let (text, formats) = s.text();
    let mut text = text.into_bytes();
    for e in edits {
        edit(&mut text, e);
    }
    let shown = || String::from_utf8_lossy(&text).into_owned();
    let at = place(*at, text.len());
    for &f in formats {
        let want = read(f, &mut &text[..])?;
        let got = read(f, &mut Rough::new(*seed, &text, None))?;
        match (&want, &got) {
            (None, None) => label(&format!("{f:?} not read")),
            (Some(a), Some(b)) if same(a, b) => label(&format!("{f:?} read")),
            _ => return Err(Fail::new(format!("{f:?} {:?} is read as {want:?}, but {got:?} in pieces", shown()))),
        }
        let mut rough = Rough::new(*seed, &text, Some(at));
        let got = read(f, &mut rough)?;
        ensure!(got.is_none(), "{f:?} {:?} is read as {got:?} although the stream failed at byte {at}", shown());
        ensure!(rough.failed || want.is_none(), "{f:?} {:?} is an error after {at} bytes, though read", shown());
    }
    Ok(*seed != 0 && text.len() > 10)
}

fn in_case() -> BoxedStrategy<(Source, Vec<Edit>, u64, u16)> {
    (sources(), prop_oneof![3 => Just(vec![]), 1 => edits()], any::<u64>(), any::<u16>()).boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "W06",
            rule: "Random bytes, sequences of up to 24 words of the languages, and documents of reference serializers with up to three edits (bytes or pieces taken out, put in, changed, repeated, the contents of quotation marks changed for up to 200 characters, or the end cut), read twice by the readers; what is read is written and read again. Non-trivial: more than three bytes or words, or ten bytes after edits. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["elements and arrays nested some hundred deep at most: the readers are recursive", "RDF/XML that cannot be written, for want of an XML name in a predicate, is not written again"],
            facets: vec![
                Box::new(Gen { name: "bytes", quick: 40_000, thorough: 1_000_000, strategy: || vec(prop_oneof![any::<u8>(), 32u8..127, select(&b"<>\"\\_:@^.#{}[]&;/= \n"[..])], 0..40).boxed(), test: bytes }),
                Box::new(Gen { name: "words", quick: 60_000, thorough: 2_000_000, strategy: soups, test: soup }),
                Box::new(Gen { name: "damaged", quick: 100_000, thorough: 4_000_000, strategy: || (sources(), edits()).boxed(), test: damaged }),
                Box::new(Gen { name: "large", quick: 2_000, thorough: 20_000, strategy: || (large_sources(), prop_oneof![1 => Just(vec![]), 1 => edits()]).boxed(), test: damaged }),
                Box::new(Gen { name: "huge", quick: 100, thorough: 2_000, strategy: || (huge_sources(), prop_oneof![1 => Just(vec![]), 1 => edits()]).boxed(), test: damaged }),
            ],
        },
        Property {
            id: "W10",
            rule: "Every writer to a stream that takes pieces of any length, with interruptions, and to one that fails after a random number of bytes; every reader from such streams, with whole or damaged documents; up to five graphs written one after another, to Turtle or TriG in any style, by one writer, about half of them to a stream that fails. Non-trivial: the stream is not smooth, and the document is more than 20 (10) bytes. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["a stream that failed fails from then on"],
            facets: vec![
                Box::new(Gen { name: "writers", quick: 60_000, thorough: 1_000_000, strategy: out_case, test: write_out }),
                Box::new(Gen { name: "in sequence", quick: 20_000, thorough: 500_000, strategy: crate::turtle::sequences, test: crate::turtle::in_sequence }),
                Box::new(Gen { name: "readers", quick: 60_000, thorough: 1_000_000, strategy: in_case, test: read_in }),
                Box::new(Gen { name: "large written", quick: 2_400, thorough: 20_000, strategy: large_out, test: write_out }),
                Box::new(Gen { name: "large read", quick: 1_200, thorough: 10_000, strategy: large_in, test: read_in }),
                Box::new(Gen { name: "huge written", quick: 100, thorough: 2_000, strategy: huge_out, test: write_out }),
                Box::new(Gen { name: "huge read", quick: 100, thorough: 2_000, strategy: huge_in, test: read_in }),
            ],
        },
    ]
}

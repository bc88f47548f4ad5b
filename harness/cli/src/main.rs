//! X01, X02: the command line program.

use io_checks::lines::{same_graph, same_quads};
use io_checks::refnt::{self, Quad};
use io_checks::robust::{self, edits, sources, Edit, Format, Source};
use io_checks::{dot, json, turtle, xml};
use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{ensure, ensure_eq, label, Fail, Gen, Property, R};
use serde::{Deserialize, Serialize};
use std::fs::{self, File};
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Output, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use terms::{set, St};

fn program() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("rdftk")
}

/// A folder of its own, removed at the end.
struct Dir(PathBuf);

impl Dir {
    fn new() -> Self {
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("cli-checks-{}-{}", std::process::id(), NEXT.fetch_add(1, Relaxed)));
        fs::create_dir_all(&d).unwrap();
        Self(d)
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn bad(e: impl std::fmt::Display) -> Fail {
    Fail::new(e.to_string())
}

// ------------------------------------------------------------------------------------------------
// Cases
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum To {
    NTriples,
    NQuads,
    Json,
    Xml,
    Turtle,
    Trig,
    Draw,
}

impl To {
    fn name(self) -> &'static str {
        match self {
            To::NTriples => "n-triples",
            To::NQuads => "n-quads",
            To::Json => "json",
            To::Xml => "xml",
            To::Turtle => "turtle",
            To::Trig => "trig",
            To::Draw => "",
        }
    }
    fn graphs(self) -> bool {
        matches!(self, To::NQuads | To::Trig)
    }
}

fn name(f: Format) -> &'static str {
    match f {
        Format::NTriples => "n-triples",
        Format::NQuads => "n-quads",
        Format::Json => "json",
        Format::Xml => "xml",
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    source: Source,
    edits: Vec<Edit>,
    /// Chooses the format to read as, mostly that of the source.
    from: u8,
    to: To,
    in_file: bool,
    out_file: bool,
    /// What is in the output file before.
    old: String,
    short: bool,
    to_default: bool,
    log: Option<String>,
    rust_log: bool,
    no_color: bool,
}

fn cases() -> BoxedStrategy<Case> {
    let to = select(vec![To::NTriples, To::NQuads, To::Json, To::Xml, To::Turtle, To::Trig, To::Draw]);
    let edits = prop_oneof![3 => Just(vec![]), 1 => edits()];
    let log = prop_oneof![2 => Just(None), 1 => select(&["none", "errors", "warnings", "information", "debugging", "tracing"][..]).prop_map(|l| Some(l.to_string()))];
    let old = prop_oneof![Just(String::new()), Just("old".repeat(2000))];
    (
        (sources(), edits, any::<u8>(), to),
        (any::<bool>(), any::<bool>(), old, any::<bool>(), any::<bool>()),
        (log, prop::bool::weighted(0.1), prop::bool::weighted(0.1)),
    )
        .prop_map(|((source, edits, from, to), (in_file, out_file, old, short, to_default), (log, rust_log, no_color))| Case {
            source,
            edits,
            from,
            to,
            in_file,
            out_file,
            old,
            short,
            to_default,
            log,
            rust_log,
            no_color,
        })
        .boxed()
}

fn large_cases() -> BoxedStrategy<Case> {
    cases_of(robust::large_sources())
}

fn huge_cases() -> BoxedStrategy<Case> {
    cases_of(robust::huge_sources())
}

fn cases_of(sources: BoxedStrategy<Source>) -> BoxedStrategy<Case> {
    (cases(), sources, prop::bool::weighted(0.8))
        .prop_map(|(mut c, source, whole)| {
            c.source = source;
            if whole {
                c.edits.clear();
            }
            c
        })
        .boxed()
}

impl Case {
    fn input(&self) -> (Vec<u8>, Format) {
        let (text, formats) = self.source.text();
        let mut text = text.into_bytes();
        for e in &self.edits {
            robust::edit(&mut text, e);
        }
        let all = [Format::NTriples, Format::NQuads, Format::Json, Format::Xml];
        let from = if self.from > 240 { all[self.from as usize % 4] } else { formats[self.from as usize % formats.len()] };
        (text, from)
    }
    fn args(&self, from: Format) -> Vec<String> {
        let mut a: Vec<&str> = vec![];
        let (f, t) = if self.short { ("-f", "-t") } else { ("--from", "--to") };
        if let Some(l) = &self.log {
            a.extend(["--log-filter", l]);
        }
        if self.no_color {
            a.push("--no-color");
        }
        if self.to == To::Draw {
            a.extend(["draw", f, name(from)]);
        } else {
            a.extend(["convert", f, name(from)]);
            // It is Turtle if not given.
            if !(self.to == To::Turtle && self.to_default) {
                a.extend([t, self.to.name()]);
            }
        }
        a.into_iter().map(String::from).collect()
    }
    fn run(&self, from: Format, input: &[u8], stdout: Option<File>) -> Result<(Output, Option<Vec<u8>>), Fail> {
        let dir = Dir::new();
        let (i, o) = (dir.0.join("in put"), dir.0.join("out"));
        let mut c = Command::new(program());
        c.args(self.args(from)).env_remove("RUST_LOG").env_remove("NO_COLOR").env("RUST_BACKTRACE", "0");
        if self.rust_log {
            c.env("RUST_LOG", "trace");
        }
        let (fi, fo) = if self.short { ("-i", "-o") } else { ("--input", "--output") };
        if self.in_file {
            fs::write(&i, input).map_err(bad)?;
            c.arg(fi).arg(&i).stdin(Stdio::null());
        } else {
            if self.from % 2 == 0 {
                c.arg(fi).arg("-");
            }
            c.stdin(Stdio::piped());
        }
        if self.out_file {
            fs::write(&o, &self.old).map_err(bad)?;
            c.arg(fo).arg(&o);
        } else if self.from % 3 == 0 {
            c.arg(fo).arg("-");
        }
        match stdout {
            Some(f) => c.stdout(f),
            None => c.stdout(Stdio::piped()),
        };
        let mut child = c.stderr(Stdio::piped()).spawn().map_err(bad)?;
        let out = if let Some(mut stdin) = child.stdin.take() {
            std::thread::scope(|s| {
                s.spawn(move || {
                    // The program may not read it.
                    let _ = stdin.write_all(input);
                });
                child.wait_with_output()
            })
        } else {
            child.wait_with_output()
        }
        .map_err(bad)?;
        let file = if self.out_file { Some(fs::read(&o).map_err(bad)?) } else { None };
        Ok((out, file))
    }
}

/// What is to be written, if anything can be.
enum Want {
    Quads(Vec<Quad>),
    /// And why.
    Failure(&'static str),
}

fn want(c: &Case, from: Format, input: &[u8]) -> Result<Want, Fail> {
    let Some(quads) = robust::read(from, &mut &input[..])? else { return Ok(Want::Failure("not readable")) };
    if from == Format::NQuads && !c.to.graphs() {
        return Ok(Want::Failure("a data set is not a graph"));
    }
    if c.to == To::Xml && !quads.iter().all(|q| xml::can(&q.0)) {
        return Ok(Want::Failure("not expressible in XML"));
    }
    Ok(Want::Quads(quads))
}

fn statements(quads: Vec<Quad>) -> Vec<St> {
    quads.into_iter().map(|q| q.0).collect()
}

fn convert(c: &Case) -> R {
    let (input, from) = c.input();
    let want = want(c, from, &input)?;
    let (out, file) = c.run(from, &input, None)?;
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    let shown = format!("{:?} of {:?}", c.args(from), String::from_utf8_lossy(&input));
    ensure!(!stderr.contains("panicked"), "{shown} panics: {stderr}");
    let quads = match want {
        Want::Failure(why) => {
            label(why);
            ensure!(!out.status.success(), "{shown} succeeds, but is {why}; it writes {:?}", String::from_utf8_lossy(&out.stdout));
            ensure!(!stderr.trim().is_empty(), "{shown} fails without a word");
            ensure!(out.status.code().is_some(), "{shown} ends by {}", out.status);
            return Ok(input.len() > 10);
        }
        Want::Quads(q) => q,
    };
    ensure!(out.status.success(), "{shown} fails: {stderr}");
    if c.log.as_deref().is_none_or(|l| l == "none") && !c.rust_log {
        ensure_eq!(stderr, "", "messages of {shown}");
    }
    let text = match file {
        Some(f) => {
            ensure!(out.stdout.is_empty(), "{shown} writes to a file, and {:?}", String::from_utf8_lossy(&out.stdout));
            f
        }
        None => out.stdout,
    };
    let text = String::from_utf8(text).map_err(|e| Fail::new(format!("{shown} writes {e}")))?;
    let what = format!("what {shown} writes, {text}, says");
    let no = |e: String| Fail::new(format!("{what}: {e}"));
    let nontrivial = quads.len() > 1;
    label(c.to.name());
    match c.to {
        To::NQuads => same_quads(&refnt::parse(&text, true).map_err(no)?, &quads, &what)?,
        To::Trig => same_quads(&turtle::parse_trig(&text).map_err(no)?.0, &quads, &what)?,
        To::Draw => {
            let sts = statements(quads);
            let distinct = set(&sts);
            // The edges of statements that are read twice are not specified.
            if distinct.len() == sts.len() {
                dot::says_usual(&text, &distinct)?
            }
        }
        to => {
            let got = match to {
                To::NTriples => refnt::parse(&text, false).map(statements),
                To::Json => json::parse(&text).map(|x| x.0),
                To::Xml => xml::parse(&text),
                _ => turtle::parse(&text).map(turtle::flatten),
            };
            same_graph(&got.map_err(no)?, &statements(quads), &what)?;
        }
    }
    Ok(nontrivial)
}

// ------------------------------------------------------------------------------------------------
// X02
// ------------------------------------------------------------------------------------------------

/// Where nothing can be written.
fn full(c: &Case) -> R {
    let (input, from) = c.input();
    if let Want::Failure(_) = want(c, from, &input)? {
        return Ok(false);
    }
    let mut nothing_to_write = c.clone();
    nothing_to_write.out_file = false;
    let (out, _) = nothing_to_write.run(from, &input, None)?;
    if out.stdout.is_empty() {
        return Ok(false);
    }
    let f = File::options().write(true).open("/dev/full").map_err(bad)?;
    let (out, _) = nothing_to_write.run(from, &input, Some(f))?;
    let shown = format!("{:?} of {:?}", c.args(from), String::from_utf8_lossy(&input));
    ensure!(!out.status.success(), "{shown} succeeds, though nothing could be written");
    ensure!(!out.stderr.is_empty(), "{shown} fails without a word");
    Ok(true)
}

/// What is not there, or not implemented, never succeeds.
fn unable((input, args): &(String, Vec<String>)) -> R {
    let mut child = Command::new(program())
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(bad)?;
    let _ = child.stdin.take().unwrap().write_all(input.as_bytes());
    let out = child.wait_with_output().map_err(bad)?;
    ensure!(!out.status.success(), "{args:?} of {input:?} succeeds with {:?}", String::from_utf8_lossy(&out.stdout));
    ensure!(!out.stderr.is_empty(), "{args:?} fails without a word");
    Ok(true)
}

fn unable_cases() -> BoxedStrategy<(String, Vec<String>)> {
    let input = select(&["", "<http://e.org/a> <http://e.org/b> <http://e.org/c> .\n", "{}"][..]).prop_map(String::from);
    let from = select(&["turtle", "trig", "n3", "json-ld"][..]);
    let read = (select(&["n-triples", "n-quads", "json", "turtle"][..]), from).prop_map(|(t, f)| vec!["convert", "-f", f, "-t", t]);
    let written = (select(&["n-triples", "n-quads", "json"][..]), select(&["n3", "json-ld"][..])).prop_map(|(f, t)| vec!["convert", "-f", f, "-t", t]);
    let args = prop_oneof![
        3 => read,
        3 => written,
        1 => Just(vec!["convert"]),
        1 => Just(vec!["draw", "-f", "n-quads"]),
        1 => Just(vec!["draw", "-f", "trig"]),
        1 => Just(vec!["convert", "-f", "n-triples", "-i", "/nowhere/at all"]),
        1 => Just(vec!["convert", "-f", "n-triples", "-i", "/"]),
        1 => Just(vec!["convert", "-f", "n-triples", "-o", "/nowhere/at all"]),
        1 => Just(vec!["convert", "-f", "ntriples"]),
        1 => Just(vec!["convert", "-f", "n-triples", "-t", "rdf"]),
        1 => Just(vec![]),
    ];
    // JSON is no N-Triples, and so on.
    (input, args, vec(any::<bool>(), 0..1)).prop_map(|(i, a, _)| (if a.contains(&"json") { "[]".into() } else { i }, a.into_iter().map(String::from).collect())).boxed()
}

fn main() {
    pbt::main_with(vec![
        Property {
            id: "X01",
            rule: "The program run with every pair of formats (N-Triples, N-Quads, RDF/JSON, RDF/XML read; those, Turtle, TriG and DOT written), on documents of reference serializers, a quarter damaged, from and to files or streams, with logs of every level. What is written is read by the reference readers. Non-trivial: two statements or more, or a failure to read more than 10 bytes. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["what is read is as the library, tested elsewhere, reads it", "formats for which the library has no reader or writer are not converted"],
            facets: vec![Box::new(Gen { name: "convert", quick: 40_000, thorough: 1_500_000, strategy: cases, test: convert }), Box::new(Gen { name: "large", quick: 2_000, thorough: 40_000, strategy: large_cases, test: convert }), Box::new(Gen { name: "huge", quick: 400, thorough: 4_000, strategy: huge_cases, test: convert })],
        },
        Property {
            id: "X02",
            rule: "Conversions as for X01 to a device that is full; formats that cannot be read or written, files that are not there, and wrong arguments. Non-trivial: there is something to write, or to refuse. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
            assumptions: &["/dev/full refuses all that is written"],
            facets: vec![
                Box::new(Gen { name: "full", quick: 10_000, thorough: 400_000, strategy: cases, test: full }),
                Box::new(Gen { name: "large", quick: 1_000, thorough: 10_000, strategy: large_cases, test: full }),
                Box::new(Gen { name: "huge", quick: 200, thorough: 2_000, strategy: huge_cases, test: full }),
                Box::new(Gen { name: "unable", quick: 1_000, thorough: 10_000, strategy: unable_cases, test: unable }),
            ],
        },
    ])
}

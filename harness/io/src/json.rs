//! W03: RDF/JSON.

use crate::dice::Dice;
use crate::lines::{err, flat, graph, hard, nested, same_graph};
use objio::{ObjectReader, ObjectWriter};
use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::graph::Graph;
use rdftk_io::json::{JsonOptions, JsonReader, JsonWriter};
use serde_json::Value;
use terms::reify::Reifier;
use terms::{Lit, St, T, gens, of_graph, set};

// ------------------------------------------------------------------------------------------------
// Reference parser and serializer, from the note
// ------------------------------------------------------------------------------------------------

/// The statements, and whether some subject was in angle brackets.
pub fn parse(text: &str) -> Result<(Vec<St>, bool), String> {
    let v: Value = serde_json::from_str(text).map_err(|e| e.to_string())?;
    let mut out = vec![];
    let mut brackets = false;
    for (s, po) in v.as_object().ok_or("not an object")? {
        let s = match s.strip_prefix("_:") {
            Some(b) => T::B(b.into()),
            None if s.starts_with('<') && s.ends_with('>') => {
                brackets = true;
                T::I(s[1..s.len() - 1].into())
            }
            None => T::I(s.clone()),
        };
        for (p, os) in po.as_object().ok_or("predicates not an object")? {
            for o in os.as_array().ok_or("objects not an array")? {
                let o = o.as_object().ok_or("value not an object")?;
                let get = |k: &str| -> Result<Option<String>, String> {
                    o.get(k).map(|v| v.as_str().map(String::from).ok_or(format!("{k} is not a string"))).transpose()
                };
                if let Some(k) = o.keys().find(|k| !["type", "value", "lang", "datatype"].contains(&k.as_str())) {
                    return Err(format!("unknown key {k:?}"));
                }
                let value = get("value")?.ok_or("no value")?;
                let o = match (get("type")?.as_deref(), get("lang")?, get("datatype")?) {
                    (Some("uri"), None, None) => T::I(value),
                    (Some("bnode"), None, None) => T::B(value.strip_prefix("_:").ok_or("bnode without _:")?.into()),
                    (Some("literal"), None, None) => T::L(Lit::Plain(value)),
                    (Some("literal"), Some(l), None) => T::L(Lit::Lang(value, l)),
                    (Some("literal"), None, Some(d)) => T::L(Lit::Typed(value, d)),
                    x => return Err(format!("bad value object {x:?}")),
                };
                out.push(St { s: s.clone(), p: p.clone(), o });
            }
        }
    }
    Ok((out, brackets))
}

fn string(s: &str, d: &Dice) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        if d.once_in(12) {
            let mut b = [0; 2];
            c.encode_utf16(&mut b).iter().for_each(|u| out += &format!("\\u{u:04x}"));
            continue;
        }
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '/' if d.once_in(4) => out += "\\/",
            '\n' => out += "\\n",
            '\t' => out += "\\t",
            '\r' => out += "\\r",
            c if c < ' ' => out += &format!("\\u{:04X}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

fn object(mut members: Vec<String>, d: &Dice) -> String {
    // In any order.
    for i in (1..members.len()).rev() {
        let j = i - d.pick(i + 1);
        members.swap(i, j);
    }
    bracket("{", members, "}", d)
}

fn bracket(open: &str, members: Vec<String>, close: &str, d: &Dice) -> String {
    let ws = |d: &Dice| d.of(&["", " ", "\n  ", "\t"]).to_string();
    let mut out = open.to_string() + &ws(d);
    for (n, m) in members.into_iter().enumerate() {
        if n > 0 {
            out += ",";
            out += &ws(d);
        }
        out += &m;
        out += &ws(d);
    }
    out + close
}

pub fn write(sts: &[St], d: &Dice) -> String {
    let node = |t: &T| match t {
        T::B(b) => format!("_:{b}"),
        T::I(i) => i.clone(),
        _ => unreachable!(),
    };
    let colon = |k: String, v: String, d: &Dice| format!("{k}{}:{}{v}", d.of(&["", " "]), d.of(&["", " "]));
    let mut subjects: Vec<&T> = vec![];
    for s in sts {
        if !subjects.contains(&&s.s) {
            subjects.push(&s.s);
        }
    }
    let mut out = vec![];
    for s in subjects {
        let mut preds: Vec<&String> = vec![];
        for st in sts.iter().filter(|st| st.s == *s) {
            if !preds.contains(&&st.p) {
                preds.push(&st.p);
            }
        }
        let mut po = vec![];
        for p in preds {
            let mut os = vec![];
            for st in sts.iter().filter(|st| st.s == *s && st.p == *p) {
                let (kind, value, extra) = match &st.o {
                    T::L(Lit::Plain(t)) => ("literal", t.clone(), None),
                    T::L(Lit::Lang(t, l)) => ("literal", t.clone(), Some(("lang", l.clone()))),
                    T::L(Lit::Typed(t, dt)) => ("literal", t.clone(), Some(("datatype", dt.clone()))),
                    T::B(_) => ("bnode", node(&st.o), None),
                    t => ("uri", node(t), None),
                };
                let mut m = vec![
                    colon(string("type", d), string(kind, d), d),
                    colon(string("value", d), string(&value, d), d),
                ];
                m.extend(extra.map(|(k, v)| colon(string(k, d), string(&v, d), d)));
                os.push(object(m, d));
            }
            po.push(colon(string(p, d), bracket("[", os, "]", d), d));
        }
        // What says nothing.
        if d.once_in(8) {
            po.push(colon(string("http://example.org/ns#says-nothing", d), bracket("[", vec![], "]", d), d));
        }
        out.push(colon(string(&node(s), d), object(po, d), d));
    }
    if d.once_in(12) {
        let none = if d.once_in(2) { object(vec![], d) } else { object(vec![colon(string("urn:x:p", d), bracket("[", vec![], "]", d), d)], d) };
        out.push(colon(string(d.of(&["http://example.org/said-nothing-of", "_:nothing"]), d), none, d));
    }
    object(out, d)
}

// ------------------------------------------------------------------------------------------------
// W03
// ------------------------------------------------------------------------------------------------

fn writer(pretty: bool) -> JsonWriter {
    JsonWriter::default().with_options(JsonOptions::default().with_pretty_print(pretty))
}

fn read(text: &str) -> Result<Vec<St>, Fail> {
    let g: Graph = JsonReader::default().read(&mut text.as_bytes()).map_err(|e| Fail::new(format!("read {text:?}: {e}")))?;
    of_graph(&g)
}

fn round((sts, pretty): &(Vec<St>, bool)) -> R {
    let g = graph(sts, false)?;
    let want = Reifier::graph(sts);
    let text = writer(*pretty).write_to_string(&g).map_err(err)?;
    let (got, _) = parse(&text).map_err(|e| Fail::new(format!("not RDF/JSON: {e}\n{text}")))?;
    same_graph(&got, &want, &format!("what RDF/JSON {text:?} says"))?;
    let other = writer(!pretty).write_to_string(&g).map_err(err)?;
    if sts.iter().all(St::is_flat) {
        ensure_eq!(
            serde_json::from_str::<Value>(&other).ok().map(sort),
            serde_json::from_str::<Value>(&text).ok().map(sort),
            "pretty printed and not"
        );
    }
    same_graph(&read(&text)?, &want, &format!("read back from {text:?}"))?;
    same_graph(&read(&other)?, &want, &format!("read back from {other:?}"))?;
    Ok(!sts.is_empty() && hard(sts))
}

/// With arrays in a fixed order, as they come from sets.
fn sort(v: Value) -> Value {
    match v {
        Value::Array(mut a) => {
            a.sort_by_key(|v| v.to_string());
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(o.into_iter().map(|(k, v)| (k, sort(v))).collect()),
        v => v,
    }
}

fn subject_keys((sts, pretty): &(Vec<St>, bool)) -> R {
    let text = writer(*pretty).write_to_string(&graph(sts, false)?).map_err(err)?;
    let (_, brackets) = parse(&text).map_err(|e| Fail::new(format!("not RDF/JSON: {e}\n{text}")))?;
    if brackets {
        return Err(Fail::sig("subject-in-brackets", format!("subject IRIs are written within '<' and '>': {text}")));
    }
    Ok(sts.iter().any(|s| matches!(s.s, T::I(_))))
}

fn reference((sts, seed): &(Vec<St>, u64)) -> R {
    let d = Dice::new(*seed);
    let text = write(sts, &d);
    let (own, _) = parse(&text).map_err(|e| Fail::new(format!("harness: {e}\n{text}")))?;
    ensure_eq!(set(&own), set(sts), "harness");
    same_graph(&read(&text)?, sts, &format!("read from {text:?}"))?;
    Ok(*seed != 0 && hard(sts))
}

/// Documents that are JSON, but not RDF/JSON.
const FAULTY: &[&str] = &[
    "[]", "null", "1", "\"a\"", "{", "", "{} {}",
    r#"{"x:s": []}"#, r#"{"x:s": "a"}"#, r#"{"x:s": null}"#,
    r#"{"x:s": {"x:p": {}}}"#, r#"{"x:s": {"x:p": "x:o"}}"#, r#"{"x:s": {"x:p": ["x:o"]}}"#, r#"{"x:s": {"x:p": [[]]}}"#,
    r#"{"x:s": {"x:p": [{"value": "x:o"}]}}"#, r#"{"x:s": {"x:p": [{"type": "uri"}]}}"#, r#"{"x:s": {"x:p": [{}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "other", "value": "x:o"}]}}"#, r#"{"x:s": {"x:p": [{"type": "URI", "value": "x:o"}]}}"#,
    r#"{"x:s": {"x:p": [{"type": 1, "value": "x:o"}]}}"#, r#"{"x:s": {"x:p": [{"type": "uri", "value": 1}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "uri", "value": "not an iri"}]}}"#, r#"{"x:s": {"x:p": [{"type": "literal", "value": 1}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "literal"}]}}"#, r#"{"x:s": {"x:p": [{"type": "literal", "value": null}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "literal", "value": "a", "lang": 1}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "literal", "value": "a", "lang": "en", "datatype": "x:t"}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "literal", "value": "a", "datatype": 1}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "literal", "value": "a", "datatype": "not an iri"}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "literal", "value": "a", "lang": "not a tag"}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "bnode", "value": "_:"}]}}"#, r#"{"x:s": {"x:p": [{"type": "bnode", "value": "_:a b"}]}}"#,
    r#"{"x:s": {"x:p": [{"type": "bnode"}]}}"#,
    r#"{"not an iri": {"x:p": [{"type": "uri", "value": "x:o"}]}}"#, r#"{"x:s": {"not an iri": [{"type": "uri", "value": "x:o"}]}}"#,
    r#"{"x:s": {"_:p": [{"type": "uri", "value": "x:o"}]}}"#, r#"{"_:": {"x:p": [{"type": "uri", "value": "x:o"}]}}"#,
];

fn faulty((n, sts): &(usize, Vec<St>)) -> R {
    let bad = FAULTY[n % FAULTY.len()];
    // Among statements there is nothing wrong with, if it is an object.
    let good = write(sts, &Dice::new(0));
    let text = match (bad.strip_prefix('{').filter(|b| b.ends_with('}') && b.contains(':')), good.strip_suffix('}')) {
        (Some(b), Some(g)) if !sts.is_empty() => format!("{g},{b}"),
        _ => bad.to_string(),
    };
    let g = JsonReader::default().read(&mut text.as_bytes());
    ensure!(g.is_err(), "{text:?} is read as {:?}", of_graph(&g.unwrap())?);
    label(bad);
    Ok(!sts.is_empty())
}

/// A document there is nothing wrong with, but for one member.
fn mutated((sts, seed, word): &(Vec<St>, u64, String)) -> R {
    let d = Dice::new(*seed);
    let mut doc: Value = serde_json::from_str(&write(sts, &Dice::new(0))).map_err(|e| Fail::new(format!("harness: {e}")))?;
    let keys = |v: &Value| v.as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default();
    let s = d.pick_of(&keys(&doc));
    let p = d.pick_of(&keys(&doc[&s]));
    let n = d.pick(doc[&s][&p].as_array().map(Vec::len).unwrap_or(0).max(1));
    let other = |not: fn(&Value) -> bool, d: &Dice| {
        let all = [Value::Null, Value::Bool(true), Value::from(1), Value::from(-0.5), Value::from("x:o"), serde_json::json!([]), serde_json::json!({}), serde_json::json!(["x:o"]), serde_json::json!({"a": "x:o"})];
        let all: Vec<Value> = all.into_iter().filter(|v| !not(v)).collect();
        d.pick_of(&all)
    };
    let kind = d.pick(9);
    match kind {
        0 => doc = other(Value::is_object, &d),
        1 => doc[&s] = other(Value::is_object, &d),
        2 => doc[&s][&p] = other(Value::is_array, &d),
        3 => doc[&s][&p][n] = other(Value::is_object, &d),
        4 => doc[&s][&p][n]["type"] = other(Value::is_string, &d),
        5 => doc[&s][&p][n]["value"] = other(Value::is_string, &d),
        6 => {
            let of = doc[&s][&p][n]["type"].as_str().unwrap_or("").to_string();
            let name = match d.pick(7) {
                0 => of.to_uppercase(),
                1 => of[..1].to_uppercase() + &of[1..],
                2 => of.clone() + " ",
                3 => of[..of.len() - 1].to_string(),
                4 => of.clone() + "s",
                5 => word.clone(),
                _ => d.of(&["", "iri", "IRI", "blank", "typed-literal", "resource", "_:", "http://example.org/a"]).to_string(),
            };
            if ["uri", "bnode", "literal"].contains(&name.as_str()) {
                return Ok(false);
            }
            doc[&s][&p][n]["type"] = name.into();
            // Whatever it is taken for, the value is not what is wrong with it.
            match d.pick(3) {
                0 => {}
                1 => doc[&s][&p][n]["value"] = "http://example.org/a".into(),
                _ => doc[&s][&p][n]["value"] = "a".into(),
            }
        }
        7 => {
            let o = doc[&s][&p][n].as_object_mut().unwrap();
            o.remove(d.of(&["type", "value"]));
        }
        _ => {
            let o = doc[&s][&p][n].as_object_mut().unwrap();
            if o["type"] != "literal" {
                return Ok(false);
            }
            match (o.contains_key("lang"), o.contains_key("datatype"), d.pick(2)) {
                (false, false, 0) => o.insert("lang".into(), other(Value::is_string, &d)),
                (false, false, _) => o.insert("datatype".into(), other(Value::is_string, &d)),
                (_, false, _) => o.insert("datatype".into(), "http://example.org/a".into()),
                _ => o.insert("lang".into(), "en".into()),
            };
        }
    }
    let text = doc.to_string();
    let g = JsonReader::default().read(&mut text.as_bytes());
    ensure!(g.is_err(), "{text} is read as {:?}", of_graph(&g.unwrap())?);
    Ok(kind > 0)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "W03",
        rule: "Graphs as for W01 written in both layouts, read by a strict reference reader and by the crate's; documents of a reference serializer in random style; and faulty documents. Non-trivial: something needs escaping, a type, a language, a label, or flattening; for faulty documents, the fault is among valid statements. Large ones: of up to 330 statements, or collections up to 320 long and 25 deep. Huge ones: of 700 to 2400 statements, or with literals of 66 to 150 kilobytes.",
        assumptions: &["serde_json, which the crate also uses, reads and writes JSON correctly", "a subject key within '<' and '>' is reported once, under its own signature, and otherwise taken for the IRI"],
        facets: vec![
            Box::new(Gen { name: "flat", quick: 40_000, thorough: 800_000, strategy: || (flat(), any::<bool>()).boxed(), test: round }),
            Box::new(Gen { name: "nested", quick: 10_000, thorough: 200_000, strategy: || (nested(), any::<bool>()).boxed(), test: round }),
            Box::new(Gen { name: "large", quick: 1_200, thorough: 10_000, strategy: || (prop_oneof![3 => gens::large(), 1 => gens::large_nested()], any::<bool>()).boxed(), test: round }),
            Box::new(Gen { name: "large reference", quick: 1_200, thorough: 10_000, strategy: || (gens::large(), any::<u64>()).boxed(), test: reference }),
            Box::new(Gen { name: "huge", quick: 60, thorough: 1_000, strategy: || (gens::huge(), any::<bool>()).boxed(), test: round }),
            Box::new(Gen { name: "huge reference", quick: 60, thorough: 1_000, strategy: || (gens::huge(), any::<u64>()).boxed(), test: reference }),
            Box::new(Gen { name: "reference", quick: 30_000, thorough: 600_000, strategy: || (flat(), any::<u64>()).boxed(), test: reference }),
            Box::new(Gen { name: "faulty", quick: 5_000, thorough: 50_000, strategy: || (0..FAULTY.len(), vec(gens::flat_statement(), 0..3)).boxed(), test: faulty }),
            Box::new(Gen { name: "mutated", quick: 30_000, thorough: 500_000, strategy: || (vec(gens::flat_statement(), 1..4), any::<u64>(), "[a-z]{0,8}").boxed(), test: mutated }),
            Box::new(Gen { name: "subject keys", quick: 1_000, thorough: 10_000, strategy: || (flat(), any::<bool>()).boxed(), test: subject_keys }),
        ],
    }]
}

//! C14: statements built with `Resource` and `Predicate`.

use pbt::proptest::collection::vec;
use pbt::proptest::prelude::*;
use pbt::proptest::sample::select;
use pbt::{Fail, Gen, Property, R, ensure, ensure_eq, label};
use rdftk_core::model::literal::{LanguageTag, Literal};
use rdftk_core::model::resource::{Predicate, Resource};
use rdftk_core::model::statement::Statement;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use terms::{Lit, St, T, gens, iso, rdf, st};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who {
    Anonymous,
    Blank(String),
    Iri(String),
    Node(T),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Alt,
    Bag,
    Seq,
    Other(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Obj {
    /// A literal, and which of the methods adds it.
    Lit(Lit, u8),
    Lits(Kind, Vec<Lit>),
    Blank(String),
    Iri(String),
    Res(Res),
    Ress(Kind, Vec<Res>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Item {
    One(String, Obj),
    /// Through a `Predicate`.
    Many(String, Vec<Obj>),
    Type(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Res {
    who: Who,
    items: Vec<Item>,
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![
        Just(Kind::Alt),
        Just(Kind::Bag),
        Just(Kind::Seq),
        gens::iri_text().prop_map(Kind::Other),
    ]
    .boxed()
}

fn res(depth: u32) -> BoxedStrategy<Res> {
    let who = prop_oneof![
        2 => Just(Who::Anonymous),
        2 => gens::label().prop_map(Who::Blank),
        3 => gens::iri_text().prop_map(Who::Iri),
        1 => gens::subject(1).prop_map(Who::Node),
    ];
    let item = prop_oneof![
        5 => (predicate(), obj(depth)).prop_map(|(p, o)| Item::One(p, o)),
        3 => (predicate(), vec(obj(depth), 0..4)).prop_map(|(p, o)| Item::Many(p, o)),
        1 => gens::iri_text().prop_map(Item::Type),
    ];
    (who, vec(item, 0..4)).prop_map(|(who, items)| Res { who, items }).boxed()
}

/// Many properties, values, and types; and resources deep in others.
fn large() -> BoxedStrategy<Res> {
    let item = || {
        prop_oneof![
            5 => (predicate(), obj(0)).prop_map(|(p, o)| Item::One(p, o)),
            1 => (predicate(), vec(obj(0), 15..60)).prop_map(|(p, o)| Item::Many(p, o)),
            1 => (predicate(), kind(), vec(gens::literal(), 15..120)).prop_map(|(p, k, v)| Item::One(p, Obj::Lits(k, v))),
            1 => (predicate(), kind(), vec(res(0), 12..40)).prop_map(|(p, k, v)| Item::One(p, Obj::Ress(k, v))),
            1 => gens::iri_text().prop_map(Item::Type),
        ]
    };
    prop_oneof![
        2 => (res(0), vec(item(), 1..4)).prop_map(|(mut r, items)| { r.items.extend(items); r }),
        1 => (res(0), predicate(), kind(), vec(gens::near_literal(), 250..300)).prop_map(|(mut r, p, k, v)| { r.items.push(Item::One(p, Obj::Lits(k, v))); r }),
        1 => (res(0), vec((predicate(), obj(0)).prop_map(|(p, o)| Item::One(p, o)), 15..80)).prop_map(|(mut r, items)| { r.items = items; r }),
        1 => (vec(res(0), 6..40), predicate()).prop_map(|(v, p)| {
            v.into_iter().reduce(|inner, mut r| { r.items.push(Item::One(p.clone(), Obj::Res(inner))); r }).unwrap()
        }),
    ]
    .boxed()
}

fn predicate() -> BoxedStrategy<String> {
    select(&gens::PREDICATES[..]).prop_map(String::from).boxed()
}

fn obj(depth: u32) -> BoxedStrategy<Obj> {
    let flat = prop_oneof![
        3 => (gens::literal(), any::<u8>()).prop_map(|(l, n)| Obj::Lit(l, n)),
        2 => (kind(), prop_oneof![4 => vec(gens::literal(), 0..4), 1 => vec(gens::near_literal(), 9..13)]).prop_map(|(k, v)| Obj::Lits(k, v)),
        1 => gens::label().prop_map(Obj::Blank),
        1 => gens::iri_text().prop_map(Obj::Iri),
    ];
    if depth == 0 {
        return flat.boxed();
    }
    prop_oneof![
        4 => flat,
        2 => res(depth - 1).prop_map(Obj::Res),
        1 => (kind(), vec(res(depth - 1), 0..3)).prop_map(|(k, v)| Obj::Ress(k, v)),
    ]
    .boxed()
}

fn lits(v: &[Lit]) -> Result<Vec<Literal>, Fail> {
    v.iter().map(Lit::make).collect()
}

fn ress(v: &[Res]) -> Result<Vec<Resource>, Fail> {
    v.iter().map(build).collect()
}

fn build(r: &Res) -> Result<Resource, Fail> {
    let mut out = match &r.who {
        Who::Anonymous => Resource::anonymous(),
        Who::Blank(b) => Resource::semi_anonymous(terms::blank(b)?),
        Who::Iri(i) => Resource::individual(terms::iri(i)?),
        Who::Node(t) => Resource::new(t.subject()?),
    };
    for item in &r.items {
        match item {
            Item::Type(t) => {
                out.instance_of(terms::iri(t)?);
            }
            Item::One(p, o) => {
                let p = terms::iri(p)?;
                match o {
                    Obj::Lit(l, n) => {
                        let made = l.make()?;
                        match (n % 5, l) {
                            (0, _) => out.literal(p, made),
                            (1, _) => out.property(p, made),
                            (2, _) => out.value_of(p, made),
                            (_, Lit::Plain(t)) => out.literal_str(p, t),
                            (3, Lit::Lang(t, g)) => out.literal_language_str_str(p, t, g),
                            (_, Lit::Lang(t, g)) => {
                                out.literal_language_str(p, t, LanguageTag::from_str(g).map_err(|e| Fail::new(e.to_string()))?)
                            }
                            (_, Lit::Typed(t, d)) => out.literal_typed_str(p, t, terms::data_type(d)?),
                        }
                    }
                    Obj::Lits(Kind::Alt, v) => out.property_alternatives(p, &lits(v)?),
                    Obj::Lits(Kind::Bag, v) => out.property_bag(p, &lits(v)?),
                    Obj::Lits(Kind::Seq, v) => out.property_sequence(p, &lits(v)?),
                    Obj::Lits(Kind::Other(k), v) => out.property_container(p, &lits(v)?, terms::iri(k)?),
                    Obj::Blank(b) => out.resource_blank_named(p, &terms::blank(b)?),
                    Obj::Iri(i) => out.resource_named(p, terms::iri(i)?),
                    Obj::Res(r) => out.resource(p, build(r)?),
                    Obj::Ress(Kind::Alt, v) => out.resource_alternatives(p, &ress(v)?),
                    Obj::Ress(Kind::Bag, v) => out.resource_bag(p, &ress(v)?),
                    Obj::Ress(Kind::Seq, v) => out.resource_sequence(p, &ress(v)?),
                    Obj::Ress(Kind::Other(k), v) => out.resource_container(p, &ress(v)?, terms::iri(k)?),
                };
            }
            Item::Many(p, os) => {
                let mut pred = Predicate::new(terms::iri(p)?);
                for o in os {
                    match o {
                        Obj::Lit(l, _) => pred.property(l.make()?),
                        Obj::Lits(Kind::Alt, v) => pred.property_alternatives(&lits(v)?),
                        Obj::Lits(Kind::Bag, v) => pred.property_bag(&lits(v)?),
                        Obj::Lits(Kind::Seq, v) => pred.property_sequence(&lits(v)?),
                        Obj::Lits(Kind::Other(k), v) => pred.property_container(&lits(v)?, terms::iri(k)?),
                        Obj::Blank(b) => pred.resource_blank_named(&terms::blank(b)?),
                        Obj::Iri(i) => pred.resource_named(terms::iri(i)?),
                        Obj::Res(r) => pred.resource(build(r)?),
                        Obj::Ress(Kind::Alt, v) => pred.resource_alternatives(&ress(v)?),
                        Obj::Ress(Kind::Bag, v) => pred.resource_bag(&ress(v)?),
                        Obj::Ress(Kind::Seq, v) => pred.resource_sequence(&ress(v)?),
                        Obj::Ress(Kind::Other(k), v) => pred.resource_container(&ress(v)?, terms::iri(k)?),
                    };
                }
                out.predicate(pred);
            }
        }
    }
    Ok(out)
}

#[derive(Default)]
struct Model {
    next: usize,
    out: Vec<St>,
    containers: usize,
    nested: usize,
}

impl Model {
    fn fresh(&mut self) -> T {
        self.next += 1;
        T::B(format!("~{}", self.next))
    }
    fn container(&mut self, s: &T, p: &str, k: &Kind, items: Vec<T>) {
        self.containers += 1;
        let c = self.fresh();
        self.out.push(st(s.clone(), p, c.clone()));
        self.out.push(st(
            c.clone(),
            &rdf("type"),
            T::I(match k {
                Kind::Alt => rdf("Alt"),
                Kind::Bag => rdf("Bag"),
                Kind::Seq => rdf("Seq"),
                Kind::Other(i) => i.clone(),
            }),
        ));
        for (n, t) in items.into_iter().enumerate() {
            self.out.push(st(c.clone(), &rdf(&format!("_{}", n + 1)), t));
        }
    }
    fn object(&mut self, s: &T, p: &str, o: &Obj) {
        match o {
            Obj::Lit(l, _) => self.out.push(st(s.clone(), p, T::L(l.clone()))),
            Obj::Blank(b) => self.out.push(st(s.clone(), p, T::B(b.clone()))),
            Obj::Iri(i) => self.out.push(st(s.clone(), p, T::I(i.clone()))),
            Obj::Res(r) => {
                self.nested += 1;
                let o = self.resource(r);
                self.out.push(st(s.clone(), p, o));
            }
            Obj::Lits(k, v) => self.container(s, p, k, v.iter().cloned().map(T::L).collect()),
            Obj::Ress(k, v) => {
                let items = v.iter().map(|r| self.resource(r)).collect();
                self.container(s, p, k, items);
            }
        }
    }
    fn resource(&mut self, r: &Res) -> T {
        let s = match &r.who {
            Who::Anonymous => self.fresh(),
            Who::Blank(b) => T::B(b.clone()),
            Who::Iri(i) => T::I(i.clone()),
            Who::Node(t) => t.clone(),
        };
        for item in &r.items {
            match item {
                Item::Type(t) => self.out.push(st(s.clone(), &rdf("type"), T::I(t.clone()))),
                Item::One(p, o) => self.object(&s, p, o),
                Item::Many(p, os) => os.iter().for_each(|o| self.object(&s, p, o)),
            }
        }
        s
    }
}

fn flatten(r: &Res) -> R {
    let made = build(r)?;
    let typed = r.items.iter().any(|i| match i {
        Item::Type(_) => true,
        Item::One(p, _) => *p == rdf("type"),
        Item::Many(p, os) => *p == rdf("type") && !os.is_empty(),
    });
    ensure_eq!(made.is_an_individual(), typed, "is_an_individual");
    ensure_eq!(
        made.is_a_resource(),
        matches!(&r.who, Who::Iri(_) | Who::Node(T::I(_))),
        "is_a_resource"
    );
    let copy: Vec<Statement> = made.clone().into();
    let got: Vec<Statement> = made.into();
    ensure_eq!(copy.len(), got.len(), "number of statements of a clone");
    let got = got.iter().map(St::of).collect::<Result<Vec<_>, _>>()?;
    let mut m = Model::default();
    m.resource(r);
    if m.containers > 0 {
        label("has container");
    }
    if m.nested > 0 {
        label("has nested resource");
    }
    let old = crate::graphs::labels(&m.out);
    let var = |t: &T| matches!(t, T::B(b) if b.starts_with('~') || !old.contains(b));
    ensure!(
        iso::iso(&iso::edges(&got, &var), &iso::edges(&m.out, &var)).is_some(),
        "the statements are {got:?}, which are not, up to the labels of the new blank nodes, {:?}",
        m.out
    );
    Ok(m.containers + m.nested > 0)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C14",
        rule: "Trees of resources up to depth 2, built through every method of Resource and Predicate, against the statements they stand for, up to the labels of new blank nodes. Non-trivial: there is a container or a nested resource. Large ones: of up to 300 values, or 40 deep.",
        assumptions: &[],
        facets: vec![Box::new(Gen { name: "flatten", quick: 75_000, thorough: 800_000, strategy: || prop_oneof![1 => res(0), 2 => res(1), 1 => res(2)].boxed(), test: flatten }), Box::new(Gen { name: "large", quick: 3_200, thorough: 20_000, strategy: large, test: flatten })],
    }]
}

from props_iri import p
_ = dict
NA_PROPS = [
p("K01", "A SKOS scheme becomes exactly the statements it describes",
  "The graph made from a SKOS scheme has, for each concept, collection, label, note and relation added to it, exactly the statements SKOS gives it, and no others.",
  ["histories"], "every scheme that can be built",
  "the crate is not a member of the workspace and none of its tests can be compiled.",
  ["rdftk_skos/src/model/scheme.rs", "rdftk_skos/src/model/concept.rs", "rdftk_skos/src/model/collection.rs", "rdftk_skos/src/model/properties.rs"],
  [("model to graph", "rdftk_skos/src/model/mod.rs: ToStatements")], ["statements of the graph"], "none", ""),
p("O01", "An ontology becomes exactly the statements it describes",
  "The statements made from the classes, properties and data types of an RDFS or OWL ontology are exactly those that describe what was added, however it was added.",
  ["histories"], "every ontology that can be built",
  "the crate is not a member of the workspace and has no tests.",
  ["rdftk_ontology/src/rdfs/mod.rs", "rdftk_ontology/src/owl/mod.rs"],
  [("model to statements", "rdftk_ontology/src/rdfs/mod.rs")], ["statements"], "none", ""),
p("Q01", "SPARQL result sets survive their serialized forms",
  "A set of query results written in a tabular form has one row for each solution and one column for each variable, with every value as it is, whatever characters it contains.",
  ["inputs"], "every set of results",
  "the crate is not a member of the workspace and none of its tests can be compiled.",
  ["rdftk_query/src/results.rs", "rdftk_query/src/sparql/results/csv.rs"],
  [("results", "rdftk_query/src/sparql/results/csv.rs")], ["text written"], "none", ""),
]
why = " is commented out of the workspace and written for an rdftk_core of long ago; against the present one it does not compile"
NA = [
    _(property="K01", reason="rdftk_skos" + why + " (54 errors), so there is no behaviour to test; making it compile is a rewrite, not a repair."),
    _(property="O01", reason="rdftk_ontology" + why + " (50 errors), so there is no behaviour to test; making it compile is a rewrite, not a repair."),
    _(property="Q01", reason="rdftk_query" + why + ", and its parser needs crates that are not here (combine, csv, error-chain); there is nothing to run."),
]

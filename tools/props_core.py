from props_iri import p
M = "rdftk_core/src/model/"
GR, DS, LI, RE, ST = M+"graph.rs", M+"data_set.rs", M+"literal.rs", M+"resource.rs", M+"statement.rs"
BN, CO, SU, OB, FE = M+"statement/bnode.rs", M+"statement/collection.rs", M+"statement/subject.rs", M+"statement/object.rs", M+"features.rs"
NM = "rdftk_names/src/rdf.rs"
I, H, IH, IS = ["inputs"], ["histories"], ["inputs", "histories"], ["inputs", "schedules"]
NO = "rdftk_core has no test of this that the suite runs (its examples did not even build)"
P = [
p("C01", "A graph is a bag of statements, or a set if made unique, over any history",
  "After any sequence of insertions, bulk insertions, merges, removals of one statement or of all with a subject, removal of duplicates, clearing and replacement, a graph holds exactly the statements that sequence leaves in a list, or in a set for a graph that does not allow duplicates; its size, emptiness and reported duplicates feature agree with that. Removing a statement removes all of its copies; removing by subject, and removing duplicates, return exactly the statements taken out. Name and prefix mappings change only when set, and neither a copy nor a merged-in graph is affected by later changes.",
  H, "every sequence of operations from every constructor",
  NO+", and removal by subject kept what it should remove.",
  [GR], [("graph operations", GR+": impl Graph (mutators)"), ("storage", GR+": enum Statements"), ("feature flag", GR+": impl Featured for Graph")],
  ["statements of the graph", "size and emptiness", "statements returned by removals", "name and mappings"],
  "stateful model-based property testing against a plain list or set", "histories of up to 150 operations over a colliding pool of statements, and of fewer on up to 330 statements"),
p("C02", "Graph queries return exactly what filtering the statements would",
  "A query by any combination of subject, predicate and object returns exactly the statements that agree with each component given, an omitted component matching everything. The sets of subjects, blank and other subjects, predicates and objects, overall or for a subject or a subject and predicate, are exactly those occurring; the tests for containing a subject, a statement or a triple agree with them.",
  I, "every graph and every pattern, with any of the components left out",
  NO+"; patterns with a component left out never matched anything.",
  [GR], [("queries", GR+": impl Graph (matches, contains*, subjects*, predicates*, objects*)")],
  ["query results"], "property-based testing: differential against filtering a list", "graphs of up to 330 statements, terms nested to depth 2"),
p("C03", "Skolemizing replaces each blank node by one IRI of its own, and nothing else",
  "The result of skolemizing a graph is the same graph, with its name, prefix mappings and treatment of duplicates, in which every blank node, also within nested statements, collections and the graph's name, is replaced by an IRI below the well-known genid path of the base, the same one wherever that node occurs and different ones for different nodes. The original graph is unchanged, and another call never uses the same IRIs.",
  I, "every graph, however nested, and every base",
  NO+"; nested blank nodes were left behind.",
  [GR], [("skolemization", GR+": Graph::skolemize, skolemize_blank, skolemize_statement, skolemize_object")],
  ["statements, name and mappings of the result"], "property-based testing: graph isomorphism between input and output", "graphs of up to 330 statements, small ones nested to depth 2; bases are http(s) with a host"),
p("C04", "Simplifying a graph yields the plain triples its nested terms stand for",
  "The result of simplifying a graph holds only statements whose subjects and objects are nodes or literals: each nested statement is replaced by a new blank node described by type, subject, predicate and object, each collection by the head of a list of typed cells with first and rest, the empty one by nil, at any depth. Apart from new labels the result is determined by the input; existing blank nodes keep their labels, and the name, prefix mappings and treatment of duplicates are kept.",
  I, "every graph, with statements and collections nested to any depth in subjects and objects",
  NO+"; what was nested below the first level was left behind.",
  [GR, ST, CO], [("simplification", GR+": Graph::simplify"), ("reification", ST+": Statement::reify; "+CO+": Collection::reify; "+SU+", "+OB+": reify")],
  ["statements, name and mappings of the result"], "property-based testing: differential against a reference reification, up to isomorphism", "graphs of up to 40 statements nested to depth 3, or 25 in one place, lists to 40 items, chains to depth 12"),
p("C05", "Reifying a statement or collection describes it completely, from its root",
  "Reifying a statement, or a collection, returns a node and the statements that describe it: exactly the four of a reified statement, or the type, first and rest of each cell in order, and recursively those of everything nested in it, all connected to the node returned. A statement reports itself as nested exactly when its subject or object is a statement.",
  I, "every statement and collection, at any depth", NO+"; the one that exists only prints.",
  [ST, CO, SU, OB], [("reification", ST+": Statement::reify; "+CO+": Collection::reify")],
  ["node and statements returned"], "property-based testing: differential against a reference reification, up to isomorphism of rooted graphs", "nested to depth 3, or 25 in one place; lists to 320"),
p("C06", "Equality, hash and order of terms agree with one another and with the data",
  "Two nodes, literals, collections or statements are equal exactly when they are of the same kind and made of the same parts, equal ones hash alike, and the order is total, compares as equal exactly the equal ones, and sorts statements by subject, predicate and object. Blank nodes come before IRIs, then literals, collections and statements; a literal is the same however it was constructed.",
  I, "all pairs and triples of terms", NO+"; sets of statements rely on it.",
  [ST, SU, OB, LI, GR], [("orders", "impl Ord in "+ST+", "+SU+", "+OB+", "+LI), ("equality and hash of literals", LI+": impl PartialEq, Hash for Literal")],
  ["==", "hash", "cmp"], "property-based testing: algebraic laws over generated pairs and triples", "up to 6 terms at a time, differing in one respect"),
p("C07", "Terms are displayed in the concrete form of RDF, nested ones included",
  "A statement is displayed as its subject, predicate and object separated by spaces: blank nodes with '_:', IRIs in angle brackets, literals quoted and escaped with their language or data type, nested statements between '<<' and '>>', and collections between parentheses. By default numbers and booleans are displayed bare and IRI-valued literals in angle brackets; the alternate form always quotes literals.",
  I, "every statement, however nested", NO+".",
  [ST, SU, OB, CO, LI, GR], [("display", "impl Display in "+ST+", "+SU+", "+OB+", "+CO+", "+LI+", "+GR)],
  ["displayed text"], "property-based testing: differential against a reference printer", "control characters without a named escape left out (C12 has them)"),
p("C08", "Blank node labels follow the grammar, keep their text, and are never reused",
  "A text is accepted as a blank node label exactly when, without an optional leading '_:', it matches BLANK_NODE_LABEL; the node's label is that text without '_:', it is displayed as '_:' and the label wherever it is used as a subject, object or graph name, and reading that back gives an equal node. Generated labels are valid, and no two are the same, also when generated by several threads or by several runs of a program.",
  IS, "every text; every interleaving of generating threads", NO+"; labels were kept with their '_:' and generated ones repeated.",
  [BN, GR], [("label grammar", BN+": BlankNode::is_valid_str, from_str"), ("generation", BN+": BlankNode::generate")],
  ["acceptance", "label and displayed text", "generated labels"], "property-based testing: differential against an independent grammar recogniser; uniqueness over concurrent runs", "threads are scheduled by the system, not enumerated"),
p("C09", "A literal made from a native value denotes that value, and equals only it",
  "A literal made from a boolean, number, text, duration, IRI, name, language or decimal has the corresponding XML Schema data type and a lexical form that denotes exactly that value under XML Schema. It compares equal to that value, and not to another value, nor to a value of another type; a literal of the same text with another data type does not compare equal to it. An IRI literal, and no other, converts back to its IRI.",
  I, "every value of every native type with a conversion", NO+"; infinities, fractions of seconds and texts needing escapes were wrong.",
  [LI], [("conversions", LI+": impl From<T> for Literal, TryFrom<Literal> for Iri"), ("comparisons", LI+": impl PartialEq<T> for Literal")],
  ["data type and text of the literal", "== with native values", "conversion back"], "property-based testing: reference lexical rules, metamorphic comparison across types", "NaN payloads treated as one value"),
p("C10", "Bytes survive hex and base64 literals; anything else is refused",
  "Encoding bytes as a hex or base64 literal gives the standard encoding with the corresponding data type, and converting that literal back gives the same bytes; hex digits of either case are accepted. A text that is not an encoding, or a literal of another type, is refused with an error and never causes a panic.",
  I, "every byte string, every text and every data type", NO+"; hex could not be decoded.",
  [LI], [("hex", LI+": hex_encode, hex_decode"), ("base64", LI+": Literal::base64_encoded"), ("conversion", LI+": TryFrom<Literal> for Vec<u8>")],
  ["literal", "bytes", "errors"], "property-based testing: round trip and differential against an independent encoder", "byte strings up to 9,000 long"),
p("C11", "Data types and their IRIs correspond one to one",
  "Turning an IRI into a data type and back gives the same IRI; the IRI of each named data type, and no other, becomes that named type, so literals typed by name and by IRI are equal. A named type is displayed by its qualified name, any other by its IRI.",
  I, "every IRI", NO+"; seven of the types were not recognised.",
  [LI], [("conversion", LI+": impl From<Iri> for DataType, DataType::as_iri"), ("display", LI+": impl Display for DataType")],
  ["data type", "IRI", "displayed name"], "property-based testing: complete enumeration of known types, generated near misses", "the table of types is taken from XML Schema"),
p("C12", "Any text survives a literal and its N-Triples form",
  "The text given to a literal is returned unchanged by it, and its alternate display is a valid N-Triples literal which stands for the same text, data type and language. The lexical form is always a single line.",
  I, "every text, data type and language", NO+"; the documented examples use plain ASCII.",
  [LI], [("escapes", LI+": escape_string, unescape_string"), ("display", LI+": impl Display for Literal")],
  ["text of the literal", "alternate display"], "property-based testing: round trip through an independent N-Triples literal parser", "every character enumerated in the thorough tier, one in 16 above U+3000 in the quick one"),
p("C13", "A data set is a map from graph names to graphs over any history",
  "After any sequence of insertions, removals, clearing and changes of a graph in place, a data set holds exactly one graph for each name inserted and not removed, the one inserted last, including the unnamed default graph. Lookups by name, membership, iteration, size and the default graph agree with that, blank node and IRI names are distinct, and copies are independent.",
  H, "every sequence of operations from every constructor", NO+".",
  [DS, GR], [("data set", DS+": impl DataSet"), ("graph names", GR+": enum GraphName")],
  ["graphs by name and iterated", "size"], "stateful model-based property testing against a map", "histories of up to 40 operations, with up to 60 graphs; graphs are not renamed in place"),
p("C14", "A built resource becomes exactly the statements it describes",
  "Turning a resource, built from literals, nodes, nested resources, containers and types in any order, into statements gives exactly one statement per value about the resource itself, those of each nested resource about that resource, and for each container a new node with its type and its members numbered from one in order. It is reported as a resource when its subject is an IRI and as an individual when it has a type.",
  I, "every tree of resources built through any of the methods", NO+"; nested resources were attached to the wrong subject and members numbered from zero.",
  [RE, NM], [("builder", RE+": impl Resource, impl Predicate"), ("flattening", RE+": flatten"), ("membership properties", NM+": member")],
  ["statements"], "property-based testing: differential against a reference model, up to isomorphism", "trees to depth 2, or 40 in one place; containers to 300 members"),
p("C15", "Accessors and conversions of nodes and statements preserve their content",
  "A statement returns the parts it was made of, and setting one leaves the others. Each node is of exactly one kind, the accessor for that kind, and no other, returns its content, and converting between subject and object keeps it, being refused only for literals and collections; making a node, a collection or a graph name from a blank node, name, IRI, literal, collection or statement, by value, reference or shared pointer, always gives the one holding just that; a node compares equal to a blank node, IRI, literal, collection or statement exactly when it holds one equal to it.",
  I, "every node and pair of statements", NO+".",
  [ST, SU, OB, CO, FE], [("accessors", "impl Statement, SubjectNode, ObjectNode, Collection"), ("cross-type equality", "impl PartialEq<...> in "+SU+", "+OB)],
  ["accessors", "conversions", "=="], "property-based testing: agreement of views with plain data", "nested to depth 2"),
p("C16", "Errors say what they are about and lead to their causes",
  "An error of the model mentions, in its message, every text and number it was made of; made from an error of another kind (of borrowing, input and output, IRIs, language tags, names, UTF-8, base 64) it is of the variant for that kind, mentions that error, and returns it, and no other, as its source. The trace of any error lists the messages of the error and of all its causes, once each, in order and numbered from 1. A refused blank node label, hex text, or conversion of a literal is reported with the text refused, the digits at fault and their place, or the types involved.",
  I, "every kind of error, made of any texts, and every chain of causes", NO+".",
  ["rdftk_core/src/error.rs", LI, BN], [("messages and causes", "rdftk_core/src/error.rs: impl Display, impl std::error::Error, impl From<...> for Error"), ("traces", "rdftk_core/src/error.rs: error_trace, trace_one"), ("what is refused", LI+": hex_decode, TryFrom<Literal>; "+BN+": from_str")],
  ["message", "source", "trace", "fields of the error"], "property-based testing: generated errors and chains of causes against their parts", "wording of messages is free"),
]

from props_iri import p
D = "rdftk_io/src/"
NTR, NTW, NQR, NQW = D+"nt/reader.rs", D+"nt/writer.rs", D+"nq/reader.rs", D+"nq/writer.rs"
JR, JW, XR, XW = D+"json/reader.rs", D+"json/writer.rs", D+"xml/reader.rs", D+"xml/writer.rs"
TW, DW, PA, PEST, TE = D+"turtle/writer.rs", D+"dot/writer.rs", D+"common/parser/", D+"common/common.pest", D+"common/terms.rs"
LI = "rdftk_core/src/model/literal.rs"
I = ["inputs"]
NO = "the crate's tests write one graph of a few plain terms, most do not compile, and none of them is among those that are run"
P = [
p("W01", "Any graph survives N-Triples, and what is written is N-Triples",
  "Writing a graph as N-Triples gives a document of that grammar, with one line for each distinct statement, that says exactly the graph's statements, nested statements and collections being described by the triples they stand for. Reading it back gives the same statements up to blank node labels, whatever characters are in texts, IRIs and labels, and the graph written is unchanged. The writer's option for literals without a type changes nothing that is said.",
  I, "every graph, with any text, IRI, label, data type and language, nested or not",
  NO+"; texts with line ends or quotes, escaped IRIs and nested terms did not survive.",
  [NTW, NTR, TE, LI], [("writer", NTW+": impl ObjectWriter"), ("terms", TE), ("reader", NTR+"; "+PA)],
  ["text written", "graph read back"], "property-based testing: round trip, and differential against an independent strict parser, up to isomorphism", "graphs of up to 330 statements nested to depth 2"),
p("W02", "Any data set survives N-Quads, and what is written is N-Quads",
  "Writing a data set as N-Quads gives a document of that grammar that says each statement in each graph it is in, and in no other, and reading it back gives the same quads up to blank node labels, which are shared between statements and graph names. A single graph is written as the quads of its name.",
  I, "every data set, graph names being IRIs or blank nodes that may also occur in statements",
  NO+".",
  [NQW, NQR, TE], [("writer", NQW+": impl ObjectWriter"), ("reader", NQR+"; "+PA)],
  ["text written", "data set read back"], "property-based testing: round trip, and differential against an independent strict parser, up to isomorphism of quads", "up to 80 graphs of up to 330 statements; empty graphs and repeated statements cannot be expressed"),
p("W03", "Any graph survives RDF/JSON, and RDF/JSON documents are read as they say",
  "Writing a graph as RDF/JSON, in either layout, gives a document of that form with the graph's statements and no others, each once, and reading it gives the same graph up to blank node labels. Every document of that form is read as the statements it says, and one that is not of that form is refused with an error.",
  I, "every graph, every document of the form in any order and layout, and documents with a fault",
  NO+"; data types, languages and repeated predicates were lost.",
  [JW, JR, D+"json/syntax.rs"], [("writer", JW+": impl ObjectWriter"), ("reader", JR+": impl ObjectReader")],
  ["text written", "graph read", "errors"], "property-based testing: round trip, differential against a reference reader and serializer, fault injection into documents", "graphs of up to 330 statements; subject keys in angle brackets are a known finding"),
p("W04", "Any graph RDF/XML can express survives it; any other is an error",
  "Writing a graph as RDF/XML, striped or flat, in either layout, gives a well-formed document that says exactly the graph's statements, each once, and reading it gives the same graph up to blank node labels. If the graph has a predicate that cannot be an XML element name or is RDF/XML syntax, or text with characters XML does not have, writing is an error, never a document that says something else.",
  I, "every graph, with blank nodes that refer to each other in any way", NO+"; text was not escaped, languages lost, and cyclic blank nodes never ended.",
  [XW, XR, D+"xml/syntax.rs"], [("writer", XW+": impl ObjectWriter"), ("reader", XR+": impl ObjectReader")],
  ["text written", "graph read back", "errors"], "property-based testing: round trip, and differential against a reference reader, up to isomorphism", "graphs of up to 330 statements nested to depth 2; the XML parser itself is trusted"),
p("W05", "N-Triples and N-Quads documents are read as they say, others refused",
  "Every document of the grammar is read as exactly the statements, in the graphs, that it says: any escape, comment, blank line, line end and spacing the grammar allows, and every character it allows in texts, IRIs, labels and language tags. A document with a line the grammar does not allow is refused with an error.",
  I, "every document of the grammar, every character, and documents with a fault",
  "the W3C suite is compiled in for N-Triples only, is not among the tests that are run, and has one example for each production.",
  [NTR, NQR, PEST], [("grammar", PEST), ("parser", PA+"nt.rs, nq.rs, common.rs")],
  ["statements read", "errors"], "property-based testing: grammar-based generation with a reference serializer; enumeration of all characters; fault injection", "spacing and comments between terms are not judged"),
p("W06", "No document makes a reader fail otherwise than by an error",
  "Reading any sequence of bytes as N-Triples, N-Quads, RDF/JSON or RDF/XML returns either data or an error that can be told; it neither panics nor fails to end, and does the same when repeated. What a reader accepts, the writer of that format can write, and it is then read as the same data.",
  I, "every sequence of bytes", NO+"; several documents made readers panic.",
  [NTR, NQR, JR, XR], [("readers", "impl ObjectReader in "+NTR+", "+NQR+", "+JR+", "+XR), ("parser", PA)],
  ["data or error"], "property-based testing / fuzzing: random bytes, token soup and mutation of valid documents; idempotence oracle, supervised for crashes and hangs", "documents up to some hundred kilobytes, nested some hundred deep"),
p("W07", "Turtle says exactly the graph it was written from, whatever the options",
  "Writing a graph as Turtle gives a document of that grammar which says exactly the graph's statements, each once, under every combination of base, prefixes, nesting of blank nodes, style, padding and indentation, with nested statements described by their triples. Blank nodes are nested only if asked for, relative references and prefixed names resolve to the IRIs they are for, and texts keep their language or data type. Converting IRIs to the base changes those that start with the IRI given, and no others; writing again says the same, and the graph written is unchanged.",
  ["inputs", "configurations"], "every graph, prefix map, and combination of options",
  NO+"; commas in collections, double escapes, lost data types and wrong predicates went unnoticed.",
  [TW, D+"common/indenter.rs", TE], [("writer", TW+": impl ObjectWriter, compress_iri, write_literal, blanks_to_nest"), ("layout", D+"common/indenter.rs")],
  ["text written"], "property-based testing: differential against an independent Turtle parser, up to isomorphism", "graphs of up to 330 statements nested to depth 2; rdftk's own Turtle reader is not implemented"),
p("W08", "DOT has one node for each term and one edge for each statement",
  "Writing a graph as DOT gives a document of that language with exactly one node for each distinct subject and object, one edge from subject to object for each statement, labelled with its predicate, and labels that show the terms, whatever characters they contain. Options change only names, shapes and colours, and a writer that is used again starts afresh.",
  ["inputs", "configurations", "histories"], "every graph, combination of options, and second use",
  NO+"; edges to nodes with a prefix led nowhere, and labels were not escaped.",
  [DW], [("writer", DW+": impl ObjectWriter"), ("node and edge labels", DW)],
  ["text written"], "property-based testing: differential against an independent DOT parser, edges compared as a multigraph", "shapes and colours given are identifiers of DOT"),
p("W09", "RDF/XML documents are read as the specification says, others refused",
  "Every document made of the forms RDF/XML has (typed nodes, property attributes, containers, reification, collections, parse types, literals with language or data type inherited or given, XML literals) is read as the triples the specification gives it, in any layout, prefixes and quotes. Unlabelled nodes are different from all others, also in another document, and a document with something not allowed, or cut short, is refused with an error.",
  I, "every document of the forms, nested, and documents with a fault", NO+"; xml:lang was not inherited, containers not numbered, and trailing garbage accepted.",
  [XR, D+"xml/syntax.rs"], [("reader", XR+": impl ObjectReader, ParserContext")],
  ["statements read", "errors"], "property-based testing: generated documents paired with the statements they say; fault injection", "IRIs are absolute, nested three deep; XML literals that rebind a prefix are a known finding"),
p("W10", "A failing or slow stream never makes data up, or passes for success",
  "Every writer gives the same document to a stream that takes any number of bytes at a time, with interruptions, as to one that takes all; if the stream fails, writing returns an error, never success, and what the same writer writes afterwards is as a new one would write it. Every reader reads the same from a stream in pieces as from a whole document, and if the stream fails returns an error.",
  ["fault_sequences", "inputs"], "every division of the stream, and every place at which it fails", NO+"; some writers ignored errors of the stream.",
  [NTW, NQW, JW, XW, TW, DW, NTR, NQR, JR, XR], [("streams", "impl ObjectWriter, ObjectReader in each module")],
  ["bytes taken", "results"], "property-based testing: fault injection into streams; metamorphic comparison with the smooth stream", "documents of up to 330 statements; a failed stream fails from then on"),
p("W11", "TriG says exactly the data set it was written from, whatever the options",
  "Writing a data set, or a graph, as TriG gives a document of that grammar which says each statement in each graph it is in and in no other, with the options of Turtle in any combination, and with or without the keyword before the names of graphs. Blank nodes are the same node wherever they occur, also as the name of a graph or in several graphs, and are nested only where nothing else refers to them.",
  ["inputs", "configurations"], "every data set and combination of options",
  NO+"; no statement was written at all.",
  [D+"trig/writer.rs", TW], [("writer", D+"trig/writer.rs: impl ObjectWriter"), ("statements", TW)],
  ["text written"], "property-based testing: differential against an independent TriG parser, up to isomorphism of quads", "up to 80 graphs of up to 330 statements nested to depth 2; rdftk's TriG reader is not implemented"),
p("W12", "The options of the writers hold what they are set to, and take effect",
  "Each option of the writers of Turtle, TriG, RDF/JSON, RDF/XML and DOT holds what it was last set to, whichever way it was set, and setting one changes no other, except that the style of IntelliJ may set the indent. Those options have their effect, and none when unset: the base comes first; directives have the form of SPARQL if that is set and the style of IntelliJ is not, and that of Turtle otherwise; predicates are indented by the width set; objects of a subject start in one column if predicates are padded, and after one space otherwise; the type is on the line of the subject or it is not; blank nodes that only one object refers to are nested, or none is; the name of a graph has the keyword before it or it has not; JSON and XML have several lines, or one; blank nodes are within subjects in striped XML, never in flat XML; the XML declaration has the encoding set.",
  ["histories", "inputs", "configurations"], "every sequence of settings, and every graph",
  NO+"; no test sets more than one option, and padding predicates did the opposite.",
  [TW, D+"trig/writer.rs", JW, XW, DW], [("options of Turtle", "rdftk_io/src/turtle/writer.rs: TurtleWriterOptions"), ("layout", "rdftk_io/src/turtle/writer.rs: write_base_iri, write_prefixes, write_verb, write_padded")],
  ["text written", "values of the options"], "property-based testing: model of the options over sequences of settings; invariants of the lines written", "up to 7 settings; layout is checked where each subject and predicate have one object"),
]

PN = "rdftk_iri/src/pname.rs"
IR = "rdftk_iri/src/iri.rs"
MP = "rdftk_iri/src/map.rs"
VO = "rdftk_iri/src/vocab.rs"
ER = "rdftk_iri/src/error.rs"
def p(id, title, statement, over, quant, why, files, mech, observe, tech, note):
    return dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                mech=mech, observe=observe, tech=tech, note=note)
I = ["inputs"]
P = [
p("N01", "Namespace prefixes are accepted exactly as the SPARQL grammar defines",
  "A text is accepted as a namespace prefix if and only if it is an optional PN_PREFIX of the SPARQL grammar followed by one ':' (so never ending in '.' before the ':'), and the accepted value keeps the text unchanged. The validity test gives the same answer as parsing. Building a prefix from a bare name appends a missing ':' and then applies the same rule.",
  I, "every text, in particular every Unicode character in first, middle and last position",
  "The tests sample valid prefixes from the crate's own copy of the ranges and a handful of invalid ones; they never probe what lies just outside each character range, the last position, or arbitrary text.",
  [PN], [("Namespace parser and character classes", PN+": impl FromStr for Namespace, is_pn_chars*"), ("named constructor", PN+": Namespace::new_named")],
  ["parse result", "validity test", "text of the value"],
  "property-based testing: differential against an independent grammar recogniser, with complete enumeration of single characters",
  "all 1,112,064 characters in each position enumerated; longer texts sampled"),
p("N02", "Local names are accepted exactly as the SPARQL grammar defines",
  "A text is accepted as a local name if and only if it matches PN_LOCAL of the SPARQL grammar as the crate documents it (leading digit or '_' allowed, no leading '-' or '.', no trailing '.', no ':'), and the accepted value keeps the text unchanged. The validity test gives the same answer as parsing.",
  I, "every text, in particular every Unicode character in first, middle and last position",
  "The tests sample valid names from the crate's own ranges and a few invalid ones; they never probe the characters just outside each range or edited names.",
  [PN], [("Name parser and character classes", PN+": impl FromStr for Name, is_pn_chars*, is_pn_local_first")],
  ["parse result", "validity test", "text of the value"],
  "property-based testing: differential against an independent grammar recogniser, with complete enumeration of single characters",
  "all 1,112,064 characters in each position enumerated; longer texts sampled"),
p("N03", "Qualified names are accepted exactly when prefix and local part are valid",
  "A text is accepted as a qualified name if and only if it is a valid namespace prefix (possibly just ':') followed by a valid local name. Its parts are then exactly those two texts, and building the value from the parts in any of the offered ways gives an equal value. It is in the default namespace exactly when nothing precedes the ':'.",
  I, "every text, including several or no separators and empty parts",
  "The tests decompose generated valid pairs only; edited, doubled-separator and one-sided invalid texts are not generated.",
  [PN], [("LocalName parser", PN+": impl FromStr for LocalName"), ("constructors", PN+": LocalName::new*, qualify")],
  ["parse result", "prefix and local part", "equality with constructed values"],
  "property-based testing: differential against an independent grammar recogniser, metamorphic equality of constructors",
  "sampled texts, biased to near misses"),
p("N04", "Rejected names report the right reason and the offending text",
  "When a prefix, local name or qualified name is rejected, the reported reason matches the defect: empty input; a missing ':' separator; more separators than allowed; otherwise an invalid character. For prefixes and local names a reported text is the whole rejected input, for qualified names it is a part of it, and the message shows that text.",
  I, "every rejected text",
  "The tests pin one example per reason and never look at the carried text.",
  [PN, ER], [("error selection in the three parsers", PN+": FromStr implementations"), ("error type", ER+": NameParseError")],
  ["error variant", "carried text", "error message"],
  "property-based testing: generated invalid texts against a reference classification",
  "precedence between several simultaneous defects is the documented parser order"),
p("N05", "Every textual view of a name is the same text and reads back equal",
  "For every valid prefix, local name and qualified name, all ways of turning the value into text give the same text (the CURIE form adds only square brackets), and parsing that text gives back an equal value. Wrapping a prefix or qualified name as a prefixed name changes neither the text nor which of the two it is. The unchecked constructors applied to valid text give the same values as the parsers.",
  I, "every valid prefix (including the default one) and local name",
  "The tests round-trip each type through one view; agreement of all views, wrappers and constructors over the whole grammar is not checked.",
  [PN], [("Display, AsRef, From<..> for String, as_curie", PN), ("PrefixedName conversions", PN+": impl From<..> for PrefixedName")],
  ["text forms", "re-parsed value"],
  "property-based testing: round-trip and agreement of views", "sampled names over the whole grammar"),
p("N06", "Equality, ordering and hashing of names agree with their text",
  "Two prefixes, local names, qualified names or prefixed names are equal exactly when their parts have the same text, letter case included. Ordering is total and consistent with equality, prefixes, local names and qualified names order as their text does, and equal values hash equally; a bare prefix never equals a qualified name.",
  I, "every pair of names of one kind",
  "No test compares two generated values of these types for order or hash.",
  [PN], [("derived comparison traits", PN+": type definitions")], ["==, ordering, hash"],
  "property-based testing: algebraic laws over generated pairs", "pairs biased to share parts or differ in case"),
p("I01", "IRIs parse bare or in angle brackets and print back to the same IRI",
  "A text parses as an IRI exactly when it, or the text between one matching pair of enclosing angle brackets, is an absolute URL by the URL standard, and it then denotes that URL; otherwise the standard's reason is reported. The default printed form is the IRI in angle brackets and the alternate form is the bare IRI. Both printed forms parse back to an equal IRI.",
  I, "every text, bare, bracketed or with unbalanced brackets",
  "The tests parse a dozen http IRIs; opaque and unusual schemes, unbalanced brackets and re-reading printed forms are not covered.",
  [IR], [("parser", IR+": impl FromStr for Iri, TryFrom<&str>"), ("printing", IR+": impl Display for Iri")],
  ["parse result", "printed forms"],
  "property-based testing: differential against the url library, print/parse round trip",
  "the url library is trusted as the URL standard; texts it does not itself re-read equally are excluded"),
p("I02", "Replacing the path or fragment of an IRI changes nothing else",
  "Replacing, emptying or removing the fragment of an IRI leaves everything before the '#' unchanged and sets exactly the requested fragment, for every IRI including those without a server. Replacing the path leaves scheme, user, server, port, query and fragment unchanged and sets the requested path. Later edits of the same component win and the original IRI is never altered.",
  I, "every IRI and every replacement text",
  "The tests edit three http IRIs with one-word replacements.",
  [IR], [("component editors", IR+": with_new_path, with_new_fragment, with_empty_fragment, with_no_fragment")],
  ["components of the result", "text of the result"],
  "property-based testing: component-wise frame conditions, metamorphic laws of repeated edits",
  "the url library's component accessors and setters are trusted"),
p("I03", "A local name can be composed with every namespace IRI, and only with those",
  "An IRI is a namespace if its fragment is present but empty, or if it has no fragment and no query and its path ends in '/'. Composing a namespace with any valid local name gives the IRI whose text is the namespace's text followed by the name (non-ASCII characters percent-encoded). An IRI without a fragment that is not a namespace composes with no name.",
  I, "every IRI without a non-empty fragment and every valid local name",
  "The tests compose one ASCII word with five http namespaces.",
  [IR], [("namespace test", IR+": looks_like_namespace"), ("composition", IR+": make_name")],
  ["namespace test", "composed IRI text"],
  "property-based testing: text-level reference for composition",
  "IRIs with a non-empty fragment are outside the domain (undocumented)"),
p("I04", "Decomposing an IRI into namespace and name is the inverse of composing them",
  "If an IRI decomposes into a namespace and a name, the namespace is one, the name is a valid local name and composing them gives the IRI back; composing a namespace and a name and decomposing gives both back, also for non-ASCII names. An IRI decomposes exactly when the text after its '#', or, with neither '#' nor query, after the last '/' of its path, is a (percent-encoded) valid local name. The separate namespace and name accessors agree with the decomposition.",
  I, "every IRI; every namespace IRI with every valid local name",
  "The tests split six http IRIs; nothing checks that the two directions are inverse, nor opaque IRIs, empty fragments or non-ASCII names.",
  [IR], [("decomposition", IR+": split, namespace, name"), ("composition", IR+": make_name")],
  ["namespace, name and recomposed IRI"],
  "property-based testing: inverse laws both ways and differential against a text-level reference",
  "sampled IRIs of all shapes"),
p("I05", "No operation on names, IRIs or prefix maps panics",
  "Parsing, printing, decomposing, composing, editing, generating identifiers, expanding and shortening never panic, whatever the text or IRI (also mailto:, urn: or data: IRIs) and also for names built without validation or read from serialised data. Text that is not valid is rejected with an error value.",
  I, "every text and every value of these types, however obtained",
  "The tests exercise http IRIs and validated names.",
  [IR, PN, MP], [("all public operations", IR), ("all public operations", PN), ("all public operations", MP)],
  ["absence of panics"],
  "property-based testing: totality over generated and edited inputs with panics caught",
  "conversions of malformed static vocabulary text are documented to panic and excluded"),
p("I06", "Generated identifiers live at the base IRI's server and never repeat",
  "Generating an identifier from a base IRI that has a hierarchy gives an IRI with the same scheme, user, server and port, with the path '/.well-known/genid/' plus 32 lower-case hexadecimal digits and no query or fragment. No two generated identifiers are equal, whichever threads or runs of a program generate them. A base that cannot have a path hierarchy gives an error.",
  ["inputs", "histories"], "every base IRI, every sequence of generations and every interleaving of generating threads",
  "One test generates one identifier from one base.",
  [IR], [("identifier generation", IR+": genid")], ["components of the result", "distinctness"],
  "property-based testing: component frame conditions, uniqueness over runs",
  "file: bases with a drive letter excluded (the URL standard keeps the drive)"),
p("I07", "IRI values convert losslessly and compare by their text",
  "Converting between IRI and URL values in either direction, by value or by reference, loses nothing. Two IRIs are equal exactly when their normalised texts are, ordering is total and consistent with equality, and equal IRIs hash equally. Wrapping an IRI as an IRI reference keeps its text, equality and kind.",
  I, "every pair of IRIs", "No test compares two generated IRIs or uses the URL conversions.",
  [IR], [("conversions", IR+": impl From/AsRef/AsMut"), ("derived comparison", IR+": Iri, IriRef")],
  ["conversion results", "==, ordering, hash"],
  "property-based testing: round-trip and algebraic laws over generated pairs", "the url library is the reference"),
p("M01", "A prefix map is a one-to-one association in which the latest insert wins",
  "After any sequence of operations a prefix map relates each prefix to at most one namespace IRI and each namespace IRI to at most one prefix: an insert removes every earlier mapping of that prefix or that IRI, a remove deletes just that prefix, clear deletes all. Lookups in both directions, counts, listings, and the default-prefix operations all report exactly this content, in-place and builder forms agree, and clones are independent. Maps with the same content are equal regardless of history.",
  ["histories"], "every sequence of insert, builder, default-prefix, vocabulary, remove, clear, clone and (de)serialise steps",
  "The tests perform two or three operations on a fresh map and never make two mappings collide.",
  [MP], [("bidirectional map and its operations", MP+": impl IriPrefixMap")],
  ["lookups, counts and listings after every step"],
  "stateful model-based property testing against a list model", "histories of up to 150 steps over colliding pools"),
p("M02", "Expanding a qualified name yields namespace text plus name, or nothing",
  "Expanding a qualified name whose prefix is mapped to a namespace IRI gives the IRI whose text is that namespace's text followed by the name (non-ASCII characters percent-encoded). It gives nothing when the prefix is not mapped or is mapped to an IRI with no fragment that is not a namespace.",
  I, "every prefix map, prefix and valid local name",
  "The tests expand four fixed names.",
  [MP, IR], [("expansion", MP+": expand"), ("composition", IR+": make_name")], ["expanded IRI"],
  "property-based testing: text-level reference over generated maps", "mappings to IRIs with a non-empty fragment excluded"),
p("M03", "Shortening an IRI is sound, complete and undone by expanding",
  "If a prefix map shortens an IRI to a qualified name, expanding that name with the same map gives the IRI back. Every IRI made of a mapped namespace and a valid local name, also a non-ASCII one, is shortened to that prefix and name; other IRIs are not shortened. The variant that always returns a reference gives the qualified name if there is one and otherwise the unchanged IRI.",
  I, "every prefix map and every IRI",
  "The tests shorten four fixed http IRIs and never expand the result.",
  [MP, IR], [("shortening", MP+": compress, compress_to_iriref"), ("decomposition", IR+": split")],
  ["short form, its expansion, reference form"],
  "property-based testing: round-trip both ways, completeness against a reference model", "sampled maps and IRIs incl. near misses"),
p("M04", "Printing a prefix map lists every mapping once",
  "The printed form of a prefix map has one line per mapping giving the prefix with its ':' and the namespace IRI in angle brackets, and lists exactly the mappings in the map.",
  I, "every prefix map", "One test looks for a substring in one printed map.",
  [MP], [("printing", MP+": impl Display for IriPrefixMap")], ["printed lines"],
  "property-based testing: printed lines parsed back and compared with the model", "sampled maps"),
p("S01", "Every serialisable value reads back equal from its serialised form",
  "Writing an IRI, IRI reference, prefix, local name, qualified name, prefixed name or prefix map to JSON and reading it gives an equal value; IRIs, prefixes and local names are written as plain strings of their bare text. Different kinds of references never share a serialised form. An IRI string that is not a valid IRI is rejected when read.",
  I, "every value of these types",
  "The tests round-trip one or two fixed values per type.",
  [IR, PN, MP], [("serde derives", IR), ("serde derives", PN), ("serde derives", MP)],
  ["serialised text", "value read back"],
  "property-based testing: serialisation round trip over generated values", "JSON is the only format exercised"),
p("V01", "Bundled vocabularies and standard maps are the published ones and usable",
  "Each bundled vocabulary has its published prefix and namespace, no two share either, and all can be mapped together. The default map holds exactly rdf, rdfs, xsd and owl; the common map adds exactly dcterms, skos and void. Any valid local name expands and shortens consistently in every bundled vocabulary, and user-defined vocabularies keep the prefix, namespace and description they were given.",
  I, "every bundled vocabulary with every valid local name",
  "The tests only check that the constants parse and inspect two of them.",
  [VO, MP], [("constants", VO), ("standard maps", MP+": default, common, with_vocabulary")],
  ["constants", "contents of the standard maps", "expanded and shortened names"],
  "property-based testing: published table (enumerated) and round trips over generated names",
  "final '#' of the XML namespace accepted either way (documentation and constant disagree)"),
]

from props_iri import p
D = "rdftk_names/src/"
P = [
p("V02", "Every vocabulary function returns the published IRI, name and qualified name",
  "For every term a vocabulary module offers, its IRI is the module's namespace followed by the term's published name, its qualified name is the module's prefix, ':' and that name, and the string form is that name; prefix and namespace are the published ones, and container membership properties are rdf:_n for every n. The same holds of a vocabulary a user declares with the macro. In a prefix map of those prefixes, expanding the qualified name and shortening the IRI are inverse to each other.",
  ["inputs"], "every term of every bundled vocabulary, every member number, and vocabularies declared with the macro",
  "the crate's five tests look at one made-up vocabulary of two terms, and do not compile or pass as committed; not one published term is compared with what its vocabulary defines.",
  [D+"lib.rs", D+"rdf.rs", D+"rdfs.rs", D+"owl.rs", D+"xsd.rs", D+"foaf.rs", D+"skos.rs", D+"geo.rs", D+"dc/terms.rs", D+"dc/elements.rs", D+"dc/dcam.rs", D+"dc/dcmi_type.rs"],
  [("namespace macro", D+"lib.rs: namespace!, nsname!"), ("container members", D+"rdf.rs: member, member_qname"), ("vocabularies", D+"*.rs, dc/*.rs")],
  ["IRI, name and qualified name of each term", "prefix and namespace"],
  "property-based testing: complete enumeration against a table, generated member numbers and prefix maps",
  "14 vocabularies and 399 terms enumerated completely"),
]

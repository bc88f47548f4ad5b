From 62428d04349143264184616294f32995c8cbe94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 01/88] fix: reject namespace prefixes ending in '.', as
 PN_PREFIX requires

---
 rdftk_iri/src/pname.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..0af428b 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -250,6 +250,8 @@ impl FromStr for Namespace {
                 Err(NameParseError::TooManySeparators(s.to_string()))
             } else if pn_prefix.is_empty() {
                 Ok(Self(s.to_string()))
+            } else if pn_prefix.ends_with('.') {
+                Err(NameParseError::InvalidCharacter(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
                 if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
-- 
2.43.0


From 1845e594cef0ddcf3a6443ac4636b286f50bb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 02/88] fix: Namespace::name_string must not panic on a
 deserialized value without ':'

---
 rdftk_iri/src/pname.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 0af428b..bf3a8cf 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -354,7 +354,10 @@ impl Namespace {
     /// ```
     ///
     pub fn name_string(&self) -> Option<&str> {
-        let name = self.0.strip_suffix(NAMESPACE_SEPARATOR_CHAR).unwrap();
+        let name = self
+            .0
+            .strip_suffix(NAMESPACE_SEPARATOR_CHAR)
+            .unwrap_or(&self.0);
         if name.is_empty() { None } else { Some(name) }
     }
 
-- 
2.43.0


From 82b011da7d88bd216a47f657d838be281e7ea33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 03/88] fix: Iri::split must not panic on IRIs that cannot be a
 base

---
 rdftk_iri/src/iri.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..3ed9a1c 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -321,7 +321,9 @@ impl Iri {
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
+            // Not `path_segments`, it is `None` for IRIs such as `mailto:name` or `urn:a:b`.
+            let last = self.0.path().rsplit_once('/').map(|(_, last)| last);
+            if let Some(Ok(name)) = last.map(Name::from_str) {
                 let path = self.0.path();
                 let path = &path[0..path.len() - name.as_ref().len()];
                 Some((self.with_new_path(path), name))
-- 
2.43.0


From 4d453c8dc863845c62b658a1c51efe884b354deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 04/88] fix: Iri::split must not take a name from the path of
 an IRI with an empty fragment

---
 rdftk_iri/src/iri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 3ed9a1c..bf7bd78 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -317,7 +317,8 @@ impl Iri {
             } else {
                 None
             }
-        } else if !self.0.path().is_empty()
+        } else if self.0.fragment().is_none()
+            && !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-- 
2.43.0


From 3cb7f07a8814bfb4c03c744ce585d01f555ce61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 05/88] fix: Iri::split must recover the non-ASCII names that
 make_name percent-encodes

---
 rdftk_iri/src/iri.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index bf7bd78..add46ed 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -3,7 +3,7 @@
 //!
 
 #[cfg(not(feature = "std"))]
-use alloc::format;
+use alloc::{format, vec::Vec};
 
 use crate::{Name, pname::PrefixedName};
 use core::{
@@ -312,7 +312,8 @@ impl Iri {
         Self: Sized,
     {
         if self.0.fragment().map(|s| !s.is_empty()).unwrap_or_default() {
-            if let Ok(name) = Name::from_str(self.0.fragment().unwrap()) {
+            let fragment = self.0.fragment().unwrap();
+            if let Some(name) = decode_name(fragment) {
                 Some((self.with_empty_fragment(), name))
             } else {
                 None
@@ -324,9 +325,9 @@ impl Iri {
         {
             // Not `path_segments`, it is `None` for IRIs such as `mailto:name` or `urn:a:b`.
             let last = self.0.path().rsplit_once('/').map(|(_, last)| last);
-            if let Some(Ok(name)) = last.map(Name::from_str) {
+            if let Some((last, Some(name))) = last.map(|last| (last, decode_name(last))) {
                 let path = self.0.path();
-                let path = &path[0..path.len() - name.as_ref().len()];
+                let path = &path[0..path.len() - last.len()];
                 Some((self.with_new_path(path), name))
             } else {
                 None
@@ -521,3 +522,30 @@ impl From<&PrefixedName> for IriRef {
         Self::from(value.clone())
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// The name whose encoded form in an IRI, as produced by `Iri::make_name`, is `encoded`; there only
+/// the non-ASCII characters of the name are percent-encoded.
+///
+fn decode_name(encoded: &str) -> Option<Name> {
+    let mut bytes = Vec::with_capacity(encoded.len());
+    let mut rest = encoded.bytes();
+    while let Some(byte) = rest.next() {
+        bytes.push(if byte == b'%' {
+            let hex = [rest.next()?, rest.next()?].map(|c| match c {
+                b'0'..=b'9' => Some(c - b'0'),
+                b'A'..=b'F' => Some(c - b'A' + 10),
+                _ => None,
+            });
+            let decoded = hex[0]? << 4 | hex[1]?;
+            (!decoded.is_ascii()).then_some(decoded)?
+        } else {
+            byte
+        });
+    }
+    Name::from_str(core::str::from_utf8(&bytes).ok()?).ok()
+}
-- 
2.43.0


From 0321306c64dcde4704b7051303e50b481d68c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 06/88] fix: rdftk_names does not build: Iri::make_name is an
 inherent method

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..03f5b3b 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        ::rdftk_iri::Iri::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From baa6e1fb8142ffd1b8369d0577ef471858fc3a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 07/88] fix: rdftk_iri does not name the error type of
 Iri::from_str, so callers cannot convert it

---
 rdftk_iri/src/error.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/error.rs b/rdftk_iri/src/error.rs
index 73f3839..ea8a101 100644
--- a/rdftk_iri/src/error.rs
+++ b/rdftk_iri/src/error.rs
@@ -8,7 +8,8 @@ use alloc::string::String;
 
 use strum::{EnumIs, EnumTryAs};
 use thiserror::Error;
-use url::ParseError as UrlError;
+/// The error returned by the `url` crate when parsing an IRI, and so by `Iri::from_str`.
+pub use url::ParseError as UrlError;
 
 ///
 /// The `Error` type for this crate.
-- 
2.43.0


From 561cbbd77d2a22d0b676f827c5781b66043b8f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 08/88] fix: rdftk_core does not build against the current
 rdftk_iri

QName is now LocalName, IriExtra is gone, NameParseError lives in error,
and Display for Iri now prints the angle brackets itself.
---
 rdftk_core/src/error.rs                   | 12 +++++++++---
 rdftk_core/src/model/graph.rs             |  4 ++--
 rdftk_core/src/model/literal.rs           | 23 ++++++++++++-----------
 rdftk_core/src/model/statement.rs         |  2 +-
 rdftk_core/src/model/statement/bnode.rs   | 18 ++++++++++--------
 rdftk_core/src/model/statement/object.rs  |  2 +-
 rdftk_core/src/model/statement/subject.rs |  2 +-
 7 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..fb79465 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -420,14 +420,20 @@ impl From<::rdftk_iri::Error> for Error {
     }
 }
 
+impl From<::rdftk_iri::error::UrlError> for Error {
+    fn from(source: ::rdftk_iri::error::UrlError) -> Self {
+        Self::Iri(source.into())
+    }
+}
+
 impl From<::language_tags::ParseError> for Error {
     fn from(source: ::language_tags::ParseError) -> Self {
         Self::LanguageTag(source)
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..32f5fdc 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => iri.to_string(),
             }
         )
     }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..1e5012b 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,11 +51,12 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
+use std::str::FromStr;
 use std::time::Duration;
 
 #[cfg(feature = "binary_types")]
@@ -372,7 +373,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(AsRef::<str>::as_ref(&v), DataType::Iri)
     }
 }
 
@@ -384,7 +385,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        *self.lexical_form() == AsRef::<str>::as_ref(other) && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -395,7 +396,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(Iri::from_str(value.lexical_form())?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -578,20 +579,20 @@ impl PartialEq<f32> for Literal {
 // Variant QName
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-impl From<QName> for Literal {
-    fn from(v: QName) -> Self {
+impl From<LocalName> for Literal {
+    fn from(v: LocalName) -> Self {
         Self::with_data_type(v, DataType::QName)
     }
 }
 
-impl From<&QName> for Literal {
-    fn from(v: &QName) -> Self {
+impl From<&LocalName> for Literal {
+    fn from(v: &LocalName) -> Self {
         Self::from(v.clone())
     }
 }
 
-impl PartialEq<QName> for Literal {
-    fn eq(&self, other: &QName) -> bool {
+impl PartialEq<LocalName> for Literal {
+    fn eq(&self, other: &LocalName) -> bool {
         *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
@@ -847,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..f7da0e1 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name, Namespace};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,18 +98,20 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
-            s
-        } else {
-            s
-        })
+        let label = s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s);
+        // BLANK_NODE_LABEL ::= '_:' ( PN_CHARS_U | [0-9] ) ((PN_CHARS | '.')* PN_CHARS)?
+        //
+        // The characters allowed in a label, after the first, are exactly those allowed in a
+        // `PN_PREFIX` after its first; the first character must also be one that may start a
+        // `PN_LOCAL`.
+        Name::is_valid_str(label) && Namespace::is_valid_str(format!("B{label}:"))
     }
 
     ///
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_NAMESPACE, self.0.as_str())
     }
 }
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From 0b919bad504a2241d8495ce4107de849cb8f3bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 09/88] fix: rdftk_io does not build against the current
 rdftk_iri

Display for Iri now prints the angle brackets itself; the alternate form
is the bare IRI.
---
 rdftk_io/src/dot/writer.rs    |  6 +++---
 rdftk_io/src/json/writer.rs   |  6 +++---
 rdftk_io/src/nq/writer.rs     |  4 ++--
 rdftk_io/src/nt/writer.rs     |  4 ++--
 rdftk_io/src/turtle/writer.rs | 30 +++++++++++++-----------------
 rdftk_io/src/xml/writer.rs    | 20 ++++++++++----------
 6 files changed, 33 insertions(+), 37 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index fdbf428..2b31354 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -296,7 +296,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.subject_id(statement.subject()),
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => statement.predicate().to_string(),
+                    None => format!("{:#}", statement.predicate()),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -394,7 +394,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             }
@@ -423,7 +423,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: node.as_resource().unwrap().to_string(),
+                        label: format!("{:#}", node.as_resource().unwrap()),
                     },
                 );
             } else if node.is_literal() {
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 63d2590..5e13608 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -89,7 +89,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_resource().unwrap().to_string()),
+                            Value::String(format!("{:#}", object.as_resource().unwrap())),
                         );
                     } else if object.is_literal() {
                         let literal = object.as_literal().unwrap();
@@ -110,7 +110,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         if let Some(data_type) = literal.data_type() {
                             let _ = object_map.insert(
                                 OBJ_KEY_DATATYPE.to_string(),
-                                Value::String(data_type.as_iri().to_string()),
+                                Value::String(format!("{:#}", data_type.as_iri())),
                             );
                         }
                     } else {
@@ -118,7 +118,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                     }
                     objects.push(Value::Object(object_map));
                 }
-                let _ = predicate_map.insert(predicate.to_string(), Value::Array(objects));
+                let _ = predicate_map.insert(format!("{predicate:#}"), Value::Array(objects));
             }
             let _ = json_graph.insert(subject.to_string(), Value::Object(predicate_map));
         }
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 2c4fd2d..99d4630 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} <{}> {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} <{}> {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index 08151e1..b3e8093 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -38,9 +38,9 @@ impl ObjectWriter<Graph> for NTripleWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if self.options().force_string_literals {
-                        writeln!(w, "{subject} <{predicate}> {object:#} .")?;
+                        writeln!(w, "{subject} {predicate} {object:#} .")?;
                     } else {
-                        writeln!(w, "{subject} <{predicate}> {object} .")?;
+                        writeln!(w, "{subject} {predicate} {object} .")?;
                     }
                 }
             }
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index f1c2bb6..d0cad1d 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -514,8 +514,7 @@ impl TurtleWriter {
                 };
             writeln!(
                 w,
-                "{decl} {IRI_START}{}{IRI_END}{eos}",
-                base.to_string().as_str()
+                "{decl} {IRI_START}{base:#}{IRI_END}{eos}"
             )?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
@@ -535,22 +534,20 @@ impl TurtleWriter {
         let mappings = graph.prefix_mappings();
         if !mappings.is_empty() {
             for (prefix, namespace) in mappings.mappings().sorted() {
-                let prefix = prefix.as_ref().map(|n| n.as_ref()).unwrap_or("");
-                let mut namespace_str = namespace.to_string();
+                let mut namespace_str = format!("{namespace:#}");
                 // If we have any base Iri conversions to do for any of the
                 // namespaces, then do it now:
                 for (from_base, to_base) in self.options.convert_base().iter() {
-                    let from_base_str = from_base.to_string();
+                    let from_base_str = format!("{from_base:#}");
                     if namespace_str.starts_with(from_base_str.as_str()) {
                         namespace_str = format!(
-                            "{}{}",
-                            to_base.to_string().as_str(),
+                            "{to_base:#}{}",
                             &namespace_str[from_base_str.len()..]
                         );
                         break;
                     }
                 }
-                trace!("write_prefixes {prefix}: {IRI_START}{namespace_str}{IRI_END}");
+                trace!("write_prefixes {prefix} {IRI_START}{namespace_str}{IRI_END}");
                 let (decl, eos) =
                     if self.options.use_sparql_style() && !self.options.use_intellij_style() {
                         (DECL_PREFIX_SPARQL, "")
@@ -559,7 +556,7 @@ impl TurtleWriter {
                     };
                 writeln!(
                     w,
-                    "{decl} {prefix}{NAME_SEPARATOR} {IRI_START}{namespace_str}{IRI_END}{eos}"
+                    "{decl} {prefix} {IRI_START}{namespace_str}{IRI_END}{eos}"
                 )?;
             }
             writeln!(w)?;
@@ -726,10 +723,10 @@ impl TurtleWriter {
     /// Turtle as if it's an Iri with the default base.
     fn compress_iri(&self, graph: &Graph, iri: &Iri) -> Result<String> {
         trace!(name: "compress_iri", ?iri);
-        let mut iri_str = iri.to_string();
+        let mut iri_str = format!("{iri:#}");
         if let Some(id_base) = &self.options.id_base() {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
-                let target_id_base = convert_to_id_base.to_string();
+                let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
                     return Ok(format!(
                         "{IRI_START}{}{IRI_END}",
@@ -737,7 +734,7 @@ impl TurtleWriter {
                     ));
                 }
             }
-            let id_base_str = id_base.to_string();
+            let id_base_str = format!("{id_base:#}");
             if iri_str.starts_with(id_base_str.as_str()) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
@@ -746,18 +743,17 @@ impl TurtleWriter {
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
-            let from_base_str = from_base.to_string();
+            let from_base_str = format!("{from_base:#}");
             if iri_str.starts_with(from_base_str.as_str()) {
                 iri_str = format!(
-                    "{}{}",
-                    to_base.to_string().as_str(),
+                    "{to_base:#}{}",
                     &iri_str[from_base_str.len()..]
                 );
             }
         }
         let iri = Iri::from_str(iri_str.as_str())?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri}{IRI_END}"),
+            None => format!("{IRI_START}{iri:#}{IRI_END}"),
             Some(_qname) => format!("{_qname}"),
         })
     }
@@ -777,7 +773,7 @@ impl TurtleWriter {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
             Some(DataType::Iri) => {
-                let iri = Iri::parse(literal.lexical_form())?;
+                let iri = Iri::from_str(literal.lexical_form())?;
                 self.write_iri(w, graph, &iri)?
             }
             Some(DataType::Boolean)
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 091a67b..88f4820 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -197,31 +197,31 @@ impl XmlWriter {
     fn default_mappings() -> HashMap<String, String> {
         let mappings: HashMap<String, String> = [
             (
-                dc::elements::namespace().to_string(),
+                dc::elements::namespace_str().to_string(),
                 dc::elements::default_prefix().to_string(),
             ),
             (
-                foaf::namespace().to_string(),
+                foaf::namespace_str().to_string(),
                 foaf::default_prefix().to_string(),
             ),
             (
-                geo::namespace().to_string(),
+                geo::namespace_str().to_string(),
                 geo::default_prefix().to_string(),
             ),
             (
-                owl::namespace().to_string(),
+                owl::namespace_str().to_string(),
                 owl::default_prefix().to_string(),
             ),
             (
-                rdf::namespace().to_string(),
+                rdf::namespace_str().to_string(),
                 rdf::default_prefix().to_string(),
             ),
             (
-                rdfs::namespace().to_string(),
+                rdfs::namespace_str().to_string(),
                 rdfs::default_prefix().to_string(),
             ),
             (
-                xsd::namespace().to_string(),
+                xsd::namespace_str().to_string(),
                 xsd::default_prefix().to_string(),
             ),
         ]
@@ -274,7 +274,7 @@ impl XmlWriter {
                 };
 
                 if let Some(iri) = object.as_resource() {
-                    let iri = iri.to_string();
+                    let iri = format!("{iri:#}");
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
@@ -294,7 +294,7 @@ impl XmlWriter {
                         element = element.attr(ATTRIBUTE_XML_LANG_PREFIXED, &language)
                     }
                     if let Some(data_type) = literal.data_type() {
-                        let dt_iri = data_type.as_iri().to_string();
+                        let dt_iri = format!("{:#}", data_type.as_iri());
                         writer
                             .write(element.attr(RDF_DATATYPE.as_str(), &dt_iri))
                             .map_err(xml_error)?
@@ -334,7 +334,7 @@ fn xml_error(e: xml::writer::Error) -> Error {
 }
 
 fn split_uri(iri: &Iri) -> (String, String) {
-    let iri = iri.to_string();
+    let iri = format!("{iri:#}");
     let index = iri
         .chars()
         .rev()
-- 
2.43.0


From b6a9a3d020531a632ea89cb53cb6952f7086d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 10/88] fix: Graph::remove_all_for removes the statements it
 should keep, and keeps the ones it should remove

---
 rdftk_core/src/model/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 32f5fdc..57ecda7 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -557,9 +557,9 @@ impl Graph {
             (Default::default(), Default::default()),
             |(mut keep, mut discard): (Vec<Statement>, Vec<Statement>), st| {
                 if st.subject() == subject {
-                    keep.push(st.clone());
-                } else {
                     discard.push(st.clone());
+                } else {
+                    keep.push(st.clone());
                 }
                 (keep, discard)
             },
-- 
2.43.0


From a2260460fd286d6f765ba783cb65dd5983024ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 11/88] fix: Graph::matches returns nothing when a component is
 left unspecified

---
 rdftk_core/src/model/graph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 57ecda7..5248dfe 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -362,8 +362,8 @@ impl Graph {
     }
 
     ///
-    /// Returns `true` if this graph contains the any statement with the provided subject,
-    /// predicate, and object, else `false`.
+    /// Returns the set of statements in this graph that have the provided subject, predicate, and
+    /// object; a component that is `None` matches any value.
     ///
     pub fn matches(
         &self,
@@ -374,9 +374,9 @@ impl Graph {
         self.statements
             .iter()
             .filter(|st| {
-                (subject.is_some() && st.subject() == subject.unwrap())
-                    && (predicate.is_some() && st.predicate() == predicate.unwrap())
-                    && (object.is_some() && st.object() == object.unwrap())
+                (subject.is_none() || subject == Some(st.subject()))
+                    && (predicate.is_none() || predicate == Some(st.predicate()))
+                    && (object.is_none() || object == Some(st.object()))
             })
             .collect()
     }
-- 
2.43.0


From 4f8923c47acf372e1458bd2e6cb59776ab14ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 12/88] fix: Graph reports FEATURE_GRAPH_DUPLICATES for exactly
 the graphs that drop duplicates

---
 rdftk_core/src/model/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 5248dfe..3b47453 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -199,7 +199,7 @@ impl GraphName {
 
 impl Featured for Graph {
     fn supports_feature(&self, feature: &Iri) -> bool {
-        (*feature == *FEATURE_GRAPH_DUPLICATES && self.statements.is_unique())
+        (*feature == *FEATURE_GRAPH_DUPLICATES && !self.statements.is_unique())
             || *feature == *FEATURE_RDF_STAR
     }
 }
-- 
2.43.0


From a73ce01693372048883d6c0c6bd5097b658ffbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 13/88] fix: BlankNode::from_str keeps the "_:" prefix in the
 label, so it is printed twice

---
 rdftk_core/src/model/statement/bnode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index f7da0e1..ca9df77 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,9 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(
+                s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).to_string(),
+            ))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From 4d4dea3202b2e6136cb428d7d88d84e1c4fdbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 14/88] fix: BlankNode::generate returns labels already in use
 in the graph

The labels were B1, B2, ... in every process, which is also how people, and
this library, label the nodes of the documents that are read back; reifying
a statement of such a document merged unrelated nodes.
---
 rdftk_core/src/model/statement/bnode.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index ca9df77..bf53cdc 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,8 +1,7 @@
 use rdftk_iri::{LocalName, Name, Namespace};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
-use unique_id::sequence::SequenceGenerator as IDGenerator;
-use unique_id::Generator;
+use uuid::Uuid;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -87,7 +86,7 @@ impl BlankNode {
     /// Construct a new blank node with a generated identifier.
     ///
     pub fn generate() -> Self {
-        Self(format!("B{}", IDGenerator.next_id()))
+        Self(format!("B{}", Uuid::new_v4().simple()))
     }
 
     ///
-- 
2.43.0


From ca28695d4764d0ea6164b1eaf374dc9191733c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 15/88] fix: Graph::simplify and reify leave nested statements
 and collections behind

A statement with both nodes nested had only its subject reified, and the
collections within a statement, or within a collection, were left as is.
---
 rdftk_core/src/model/graph.rs                | 36 ++++------------
 rdftk_core/src/model/statement.rs            | 45 ++++++--------------
 rdftk_core/src/model/statement/collection.rs |  3 +-
 rdftk_core/src/model/statement/object.rs     | 14 ++++++
 rdftk_core/src/model/statement/subject.rs    | 12 ++++++
 5 files changed, 51 insertions(+), 59 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 3b47453..caaf4d3 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -655,33 +655,15 @@ impl Graph {
             new_graph.set_name(name.clone());
         }
         for statement in self.statements() {
-            if let Some(subject_statement) = statement.subject().as_statement() {
-                let (subject, statements) = subject_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    subject,
-                    statement.predicate().clone(),
-                    statement.object().clone(),
-                ));
-                new_graph.extend(statements);
-            } else if let Some(object_statement) = statement.object().as_statement() {
-                let (subject, statements) = object_statement.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new_graph.extend(statements);
-            } else if let Some(object_collection) = statement.object().as_collection() {
-                let (subject, statements) = object_collection.reify()?;
-                new_graph.insert(Statement::new(
-                    statement.subject().clone(),
-                    statement.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new_graph.extend(statements);
-            } else {
-                new_graph.insert(statement.clone());
-            }
+            let (subject, subject_statements) = statement.subject().reify()?;
+            let (object, object_statements) = statement.object().reify()?;
+            new_graph.insert(Statement::new(
+                subject,
+                statement.predicate().clone(),
+                object,
+            ));
+            new_graph.extend(subject_statements);
+            new_graph.extend(object_statements);
         }
 
         Ok(new_graph)
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index f2a07eb..9efe0d6 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -194,42 +194,25 @@ impl Statement {
             rdf::a_type().clone(),
             rdf::statement().clone(),
         ));
-        if let Some(statement) = self.subject().as_statement() {
-            let nested = statement.reify()?;
-            statements.extend(nested.1);
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::subject().clone(),
-                nested.0.to_object(),
-            ));
-        } else {
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::subject().clone(),
-                self.subject().to_object(),
-            ));
-        }
+        let (subject, nested) = self.subject().reify()?;
+        statements.extend(nested);
+        statements.push(Self::new(
+            new_subject.clone(),
+            rdf::subject().clone(),
+            subject.to_object(),
+        ));
         statements.push(Self::new(
             new_subject.clone(),
             rdf::predicate().clone(),
             self.predicate().clone(),
         ));
-        if let Some(statement) = self.object().as_statement() {
-            let nested = statement.reify()?;
-            statements.extend(nested.1);
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::object().clone(),
-                nested.0.to_object(),
-            ));
-        } else {
-            // TODO: check for ObjectNode::Collection
-            statements.push(Self::new(
-                new_subject.clone(),
-                rdf::object().clone(),
-                self.object().clone(),
-            ));
-        }
+        let (object, nested) = self.object().reify()?;
+        statements.extend(nested);
+        statements.push(Self::new(
+            new_subject.clone(),
+            rdf::object().clone(),
+            object,
+        ));
         Ok((new_subject, statements))
     }
 }
diff --git a/rdftk_core/src/model/statement/collection.rs b/rdftk_core/src/model/statement/collection.rs
index 1aa60ea..dc3a1ac 100644
--- a/rdftk_core/src/model/statement/collection.rs
+++ b/rdftk_core/src/model/statement/collection.rs
@@ -184,7 +184,8 @@ impl Collection {
                     rdf::a_type().clone(),
                     rdf::list().clone(),
                 ));
-                // TODO: deal with recursive ObjectNode::Collection
+                let (object, nested) = object.reify()?;
+                statements.extend(nested);
                 statements.push(Statement::new(
                     subject.clone(),
                     rdf::first().clone(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 7c313a4..9713da3 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_RDF_STAR, FEATURE_STMT_OBJECT_COLLECTIONS};
 use crate::model::literal::Literal;
 use crate::model::statement::{
@@ -309,6 +310,19 @@ impl ObjectNode {
     // --------------------------------------------------------------------------------------------
     // Conversions
     // --------------------------------------------------------------------------------------------
+    ///
+    /// Return a node that is neither a statement nor a collection, along with the statements that
+    /// describe it if this node was either of those and had to be reified.
+    ///
+    pub(crate) fn reify(&self) -> Result<(ObjectNode, Vec<Statement>), Error> {
+        let (subject, statements) = match self {
+            ObjectNode::Collection(v) => v.reify()?,
+            ObjectNode::Statement(v) => v.reify()?,
+            _ => return Ok((self.clone(), Default::default())),
+        };
+        Ok((subject.to_object(), statements))
+    }
+
     pub fn to_subject(&self) -> Option<SubjectNode> {
         match self {
             ObjectNode::Blank(v) => Some(v.clone().into()),
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 427caf3..e8889c5 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, BLANK_NODE_NAMESPACE};
 use rdftk_iri::{Iri, Name};
@@ -217,6 +218,17 @@ impl SubjectNode {
     // Conversion
     // --------------------------------------------------------------------------------------------
 
+    ///
+    /// Return a node that is not a statement, along with the statements that describe it if this
+    /// node was a statement and had to be reified.
+    ///
+    pub(crate) fn reify(&self) -> Result<(SubjectNode, Vec<Statement>), Error> {
+        match self {
+            SubjectNode::Statement(v) => v.reify(),
+            _ => Ok((self.clone(), Default::default())),
+        }
+    }
+
     pub fn to_object(&self) -> ObjectNode {
         match self {
             SubjectNode::Blank(v) => v.clone().into(),
-- 
2.43.0


From 4cf7da3d2e71de78328ebf4113918e6679bf57f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:55 +0000
Subject: [PATCH 16/88] fix: Graph::simplify and skolemize lose the prefix
 mappings, and whether duplicates are allowed

---
 rdftk_core/src/model/graph.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index caaf4d3..a4dc599 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -616,7 +616,7 @@ impl Graph {
     pub fn skolemize(&self, base: &Iri) -> Result<Self, Error> {
         let mut mapping: HashMap<BlankNode, Iri> = Default::default();
 
-        let mut new_graph = Self::default();
+        let mut new_graph = self.to_empty();
 
         for statement in self.statements() {
             let mut new_statement = statement.clone();
@@ -650,10 +650,7 @@ impl Graph {
     /// 2. RDF collection objects in object nodes are reified into the graph.
     ///
     pub fn simplify(&self) -> Result<Self, Error> {
-        let mut new_graph = Self::default();
-        if let Some(name) = self.name() {
-            new_graph.set_name(name.clone());
-        }
+        let mut new_graph = self.to_empty();
         for statement in self.statements() {
             let (subject, subject_statements) = statement.subject().reify()?;
             let (object, object_statements) = statement.object().reify()?;
@@ -668,6 +665,22 @@ impl Graph {
 
         Ok(new_graph)
     }
+
+    ///
+    /// Return a new graph with the name, prefix mappings, and treatment of duplicates of this one,
+    /// but none of its statements.
+    ///
+    fn to_empty(&self) -> Self {
+        Self {
+            name: self.name.clone(),
+            mappings: self.mappings.clone(),
+            ..if self.statements.is_unique() {
+                Self::unique()
+            } else {
+                Self::default()
+            }
+        }
+    }
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 2238aac4b645ae1abdc6e1c062e6d87f87deddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 17/88] fix: Graph::skolemize leaves the blank nodes within
 statements, collections, and the name

---
 rdftk_core/src/model/graph.rs | 77 ++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 19 deletions(-)

diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index a4dc599..fd45d21 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -18,7 +18,7 @@ fn simple_graph_writer(graph: &Graph)
 
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
-use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
+use crate::model::statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
@@ -618,25 +618,11 @@ impl Graph {
 
         let mut new_graph = self.to_empty();
 
+        if let Some(GraphName::BNode(blank)) = self.name() {
+            new_graph.set_name(skolemize_blank(blank, base, &mut mapping)?.into());
+        }
         for statement in self.statements() {
-            let mut new_statement = statement.clone();
-            if let Some(blank) = new_statement.subject().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let subject = SubjectNode::from(name);
-                new_statement.set_subject(subject);
-            }
-            if let Some(blank) = new_statement.object().as_blank() {
-                if !mapping.contains_key(blank) {
-                    let _ = mapping.insert(blank.clone(), base.genid()?);
-                }
-                let name = mapping.get(blank).unwrap().clone();
-                let object = ObjectNode::from(name);
-                new_statement.set_object(object);
-            }
-            new_graph.insert(new_statement);
+            new_graph.insert(skolemize_statement(statement, base, &mut mapping)?);
         }
 
         Ok(new_graph)
@@ -798,3 +784,56 @@ impl ExactSizeIterator for StatementIter<'_> {
 }
 
 impl FusedIterator for StatementIter<'_> {}
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+fn skolemize_blank(
+    blank: &BlankNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Iri, Error> {
+    if let Some(name) = mapping.get(blank) {
+        Ok(name.clone())
+    } else {
+        let name = base.genid()?;
+        let _ = mapping.insert(blank.clone(), name.clone());
+        Ok(name)
+    }
+}
+
+fn skolemize_statement(
+    statement: &Statement,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<Statement, Error> {
+    let subject = match statement.subject() {
+        SubjectNode::Blank(v) => skolemize_blank(v, base, mapping)?.into(),
+        SubjectNode::Statement(v) => skolemize_statement(v, base, mapping)?.into(),
+        SubjectNode::Resource(_) => statement.subject().clone(),
+    };
+    let object = skolemize_object(statement.object(), base, mapping)?;
+    Ok(Statement::new(
+        subject,
+        statement.predicate().clone(),
+        object,
+    ))
+}
+
+fn skolemize_object(
+    object: &ObjectNode,
+    base: &Iri,
+    mapping: &mut HashMap<BlankNode, Iri>,
+) -> Result<ObjectNode, Error> {
+    Ok(match object {
+        ObjectNode::Blank(v) => skolemize_blank(v, base, mapping)?.into(),
+        ObjectNode::Statement(v) => skolemize_statement(v, base, mapping)?.into(),
+        ObjectNode::Collection(v) => v
+            .iter()
+            .map(|object| skolemize_object(object, base, mapping))
+            .collect::<Result<Collection, Error>>()?
+            .into(),
+        ObjectNode::Resource(_) | ObjectNode::Literal(_) => object.clone(),
+    })
+}
-- 
2.43.0


From 8bd89638650d33cd3488aadff9da735234d7a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 18/88] fix: a nested Resource is flattened to a statement
 about its parent

---
 rdftk_core/src/model/resource.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index 2a73cc6..b01efd0 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -686,7 +686,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                     match object {
                         ResourceObject::Resource(resource) => {
                             flatten(resource, sts);
-                            subject.to_object()
+                            resource.subject.to_object()
                         }
                         ResourceObject::Literal(literal) => ObjectNode::from(literal.clone()),
                         _ => unreachable!(),
-- 
2.43.0


From cf4ac88b189f0c098de2c7445ed9fa300ddf1286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 19/88] fix: the members of containers are numbered from
 rdf:_0, not rdf:_1

---
 rdftk_core/src/model/resource.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/resource.rs b/rdftk_core/src/model/resource.rs
index b01efd0..3fb3e38 100644
--- a/rdftk_core/src/model/resource.rs
+++ b/rdftk_core/src/model/resource.rs
@@ -663,7 +663,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                             flatten(resource, sts);
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 resource.subject.to_object(),
                             ));
                         }
@@ -672,7 +672,7 @@ fn flatten(resource: &Resource, sts: &mut Vec<Statement>) {
                         for (index, literal) in lc.values.iter().enumerate() {
                             sts.push(Statement::new(
                                 container.clone(),
-                                rdf::member(index),
+                                rdf::member(index + 1),
                                 literal,
                             ));
                         }
-- 
2.43.0


From 694dbd055266a9ab20996162bf16e2b6776f06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 20/88] fix: literals are escaped as Rust strings, which no RDF
 syntax can read

The escapes \\0, \\u{..} are not those of N-Triples, or Turtle.
---
 rdftk_core/src/model/literal.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 1e5012b..85489cd 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1023,8 +1023,22 @@ fn escape_string<S>(value: S) -> String
 where
     S: Into<String>,
 {
-    let formatted = format!("{:?}", value.into());
-    formatted[1..formatted.len() - 1].to_string()
+    let value = value.into();
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\t' => escaped.push_str("\\t"),
+            '\u{08}' => escaped.push_str("\\b"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\u{0C}' => escaped.push_str("\\f"),
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            c if c.is_control() => escaped.push_str(&format!("\\u{:04X}", c as u32)),
+            c => escaped.push(c),
+        }
+    }
+    escaped
 }
 
 fn hex_encode(value: &[u8]) -> String {
-- 
2.43.0


From 13b8d08285fe3337e8d9ed285e36ab5e6241c9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 21/88] fix: a literal is not equal to the string it was made
 from if that has to be escaped

There was also no way to get that string back from a literal.
---
 rdftk_core/src/model/literal.rs | 47 ++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 85489cd..9bc1fb2 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -385,7 +385,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == AsRef::<str>::as_ref(other) && self.data_type() == Some(&DataType::Iri)
+        self.unescaped() == AsRef::<str>::as_ref(other) && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -396,7 +396,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::from_str(value.lexical_form())?)
+                    Ok(Iri::from_str(&value.unescaped())?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -593,7 +593,7 @@ impl From<&LocalName> for Literal {
 
 impl PartialEq<LocalName> for Literal {
     fn eq(&self, other: &LocalName) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
+        self.unescaped() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
 
@@ -615,14 +615,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        self.unescaped() == *other
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        self.unescaped() == *other
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
@@ -797,7 +797,7 @@ impl From<&Name> for Literal {
 
 impl PartialEq<Name> for Literal {
     fn eq(&self, other: &Name) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Name)
+        self.unescaped() == other.to_string() && self.data_type() == Some(&DataType::Name)
     }
 }
 
@@ -986,6 +986,14 @@ impl Literal {
         &self.lexical_form
     }
 
+    ///
+    /// Return the lexical form of this literal, with the escapes replaced by the characters they
+    /// stand for; this is the string the literal was constructed from.
+    ///
+    pub fn unescaped(&self) -> String {
+        unescape_string(&self.lexical_form)
+    }
+
     ///
     /// Returns `true` if this literal has a specified data type, else `false`.
     ///
@@ -1041,6 +1049,33 @@ where
     escaped
 }
 
+fn unescape_string(value: &str) -> String {
+    let mut unescaped = String::with_capacity(value.len());
+    let mut chars = value.chars();
+    while let Some(c) = chars.next() {
+        unescaped.push(if c == '\\' {
+            match chars.next() {
+                Some('t') => '\t',
+                Some('b') => '\u{08}',
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some('f') => '\u{0C}',
+                Some('u') => chars
+                    .by_ref()
+                    .take(4)
+                    .try_fold(0, |n, c| c.to_digit(16).map(|d| n * 16 + d))
+                    .and_then(char::from_u32)
+                    .unwrap_or(char::REPLACEMENT_CHARACTER),
+                Some(c) => c,
+                None => c,
+            }
+        } else {
+            c
+        });
+    }
+    unescaped
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
-- 
2.43.0


From 3b9f02edbbdda460e917b248493a861ba1e9c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 22/88] fix: Literal::base64_encoded claims to be xsd:hexBinary

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 9bc1fb2..45d9c0e 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -972,7 +972,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
-- 
2.43.0


From 153d773a86c8f334ee539aeebae8fde651db975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 23/88] fix: the bytes of Literal::hex_encoded cannot be
 decoded

The encoder does not separate pairs of digits with a space, xsd:hexBinary
does not allow it, but the decoder required it.
---
 rdftk_core/src/model/literal.rs | 37 +++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 45d9c0e..125a22b 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1093,20 +1093,31 @@ where
     S: AsRef<str>,
 {
     let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
-        if hex_pair.len() == 2 {
-            let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            })?;
-            buffer.push(byte);
-        } else {
-            return Err(Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            });
+    let mut buffer = Vec::with_capacity(value.len() / 2);
+    for (index, hex_pair) in value
+        .split(' ')
+        .flat_map(|digits| digits.as_bytes().chunks(2))
+        .enumerate()
+    {
+        match hex_pair {
+            [high, low] if high.is_ascii_hexdigit() && low.is_ascii_hexdigit() => {
+                buffer.push(hex_digit(*high) << 4 | hex_digit(*low));
+            }
+            _ => {
+                return Err(Error::HexDecoder {
+                    value: String::from_utf8_lossy(hex_pair).to_string(),
+                    index,
+                });
+            }
         }
     }
     Ok(buffer)
 }
+
+fn hex_digit(value: u8) -> u8 {
+    match value {
+        b'0'..=b'9' => value - b'0',
+        b'a'..=b'f' => value - b'a' + 10,
+        _ => value - b'A' + 10,
+    }
+}
-- 
2.43.0


From 7319fbbed643deaeac41a394d6bb96180a30928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 24/88] fix: the fraction of a second in a Duration literal is
 not zero padded

It is also not equal to the duration it was made from.
---
 rdftk_core/src/model/literal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 125a22b..eaabd25 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -516,7 +516,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
@@ -547,8 +547,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(*other)
     }
 }
 
-- 
2.43.0


From 7e94e9f889366015c61358181bfded056886d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 25/88] fix: the lexical form of an infinite xsd:double, or
 xsd:float, is INF, not inf

---
 rdftk_core/src/model/literal.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index eaabd25..b1c112d 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -496,13 +496,13 @@ impl PartialEq<rust_decimal::Decimal> for Literal {
 
 impl From<f64> for Literal {
     fn from(v: f64) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Double)
+        Self::with_data_type(float_string(v), DataType::Double)
     }
 }
 
 impl PartialEq<f64> for Literal {
     fn eq(&self, other: &f64) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Double)
+        *self.lexical_form() == float_string(*other) && self.data_type() == Some(&DataType::Double)
     }
 }
 
@@ -564,13 +564,13 @@ impl PartialEq<chrono::Duration> for Literal {
 
 impl From<f32> for Literal {
     fn from(v: f32) -> Self {
-        Self::with_data_type(v.to_string(), DataType::Float)
+        Self::with_data_type(float_string(v), DataType::Float)
     }
 }
 
 impl PartialEq<f32> for Literal {
     fn eq(&self, other: &f32) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Float)
+        *self.lexical_form() == float_string(*other) && self.data_type() == Some(&DataType::Float)
     }
 }
 
@@ -1075,6 +1075,14 @@ fn unescape_string(value: &str) -> String {
     unescaped
 }
 
+fn float_string<T>(value: T) -> String
+where
+    T: Display,
+{
+    // The lexical form of the infinities is "INF" and "-INF", the other values are as displayed.
+    value.to_string().replace("inf", "INF")
+}
+
 fn hex_encode(value: &[u8]) -> String {
     if !value.is_empty() {
         let mut buffer = String::with_capacity(value.len() * 2);
-- 
2.43.0


From b16356942cb752a425b96405caf83998e7e33f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 26/88] fix: the IRIs of some data types, such as xsd:decimal,
 are not converted back to them

Literal::with_data_type_iri made no attempt to, so that literals read from
a file were not equal to the ones written to it.
---
 rdftk_core/src/model/literal.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index b1c112d..448bb99 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -317,8 +317,22 @@ impl From<Iri> for DataType {
             Self::UnsignedShort
         } else if &iri == xsd::unsigned_byte() {
             Self::UnsignedByte
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
         } else if &iri == xsd::duration() {
             Self::Duration
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::time() {
+            Self::Time
+        } else if &iri == xsd::language() {
+            Self::Language
         } else if &iri == rdf::xml_literal() {
             Self::XmlLiteral
         } else {
@@ -960,7 +974,7 @@ impl Literal {
     {
         Self {
             lexical_form: escape_string(v),
-            data_type: Some(DataType::Other(data_type)),
+            data_type: Some(data_type.into()),
             language: None,
         }
     }
-- 
2.43.0


From 0b0d0e3a95fa94bb8d12c9fb5f0ec40989077161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 27/88] fix: the alternate form of an xsd:anyURI literal is
 that of a resource, not a literal

---
 rdftk_core/src/model/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 448bb99..d36a75e 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -839,7 +839,7 @@ impl Eq for Literal {}
 impl Display for Literal {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match (self.data_type(), f.alternate()) {
-            (Some(DataType::Iri), _) => write!(f, "<{}>", self.lexical_form()),
+            (Some(DataType::Iri), false) => write!(f, "<{}>", self.lexical_form()),
             (
                 Some(DataType::Boolean)
                 | Some(DataType::Long)
-- 
2.43.0


From 17b56662395a40ce54d942b3ee0512ab5193ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 28/88] fix: reading a language tag prints debug output

---
 rdftk_io/src/common/parser/ntriples.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index d54adf0..8ffc4a3 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -219,10 +219,8 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 
     if input_pair.as_rule() == Rule::LANGTAG {
         let tag = input_pair.as_str().to_string();
-        println!("**{tag}**");
         // strip the leading '@'
         let tag = &tag[1..];
-        println!("**{tag}**");
         Ok(LanguageTag::parse(tag)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::LANGTAG]))
-- 
2.43.0


From 135168417a7df77f7f3014a4d8741bca01626b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 29/88] fix: literals read from N-Triples, or N-Quads, do not
 have the known data types

---
 rdftk_io/src/common/parser/ntriples.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 8ffc4a3..4f5900c 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -148,7 +148,7 @@ fn rdf_literal(input_pair: Pair<'_, Rule>) -> Result<Literal, Error> {
         if let Some(other) = inner_pair.next() {
             match other.as_rule() {
                 Rule::IRIREF => {
-                    let data_type = DataType::Other(iri_ref(other)?);
+                    let data_type = DataType::from(iri_ref(other)?);
                     Ok(Literal::with_data_type(&lexical_form, data_type))
                 }
                 Rule::LANGTAG => {
-- 
2.43.0


From 9134f91dd56fd3ac845693279e0e3eb7a49d037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 30/88] fix: the escapes in the strings of N-Triples, and
 N-Quads, are not replaced

Also, an escape in an IRI for a code point that is not a character, such as
\\uD800, is an error, not a panic.
---
 rdftk_io/src/common/parser/ntriples.rs | 59 ++++++++++++++------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index 4f5900c..cd242a4 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -1,6 +1,6 @@
 use super::Rule;
 use pest::iterators::Pair;
-use rdftk_core::error::Error;
+use rdftk_core::error::{invalid_from_str_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
@@ -179,7 +179,7 @@ fn string(input_pair: Pair<'_, Rule>) -> Result<String, Error> {
             Rule::STRING_LITERAL_QUOTE => {
                 let inner_pair = inner_pair.into_inner().next().unwrap();
                 if inner_pair.as_rule() == Rule::QUOTE_INNER {
-                    Ok(inner_pair.as_str().to_string())
+                    unescape(inner_pair.as_str())
                 } else {
                     Err(pest_error!(
                         unexpected
@@ -207,7 +207,7 @@ fn iri_ref(input_pair: Pair<'_, Rule>) -> Result<Iri, Error> {
     if input_pair.as_rule() == Rule::IRIREF {
         let iri = input_pair.as_str().to_string();
         // strip the '<' and '>' characters.
-        let iri_str = unescape_iri(&iri[1..iri.len() - 1]);
+        let iri_str = unescape(&iri[1..iri.len() - 1])?;
         Ok(Iri::from_str(&iri_str)?)
     } else {
         Err(pest_error!(unexpected RULE_FN, &input_pair, [Rule::IRIREF]))
@@ -230,33 +230,36 @@ fn lang_tag(input_pair: Pair<'_, Rule>) -> Result<LanguageTag, Error> {
 // ------------------------------------------------------------------------------------------------
 
 lazy_static::lazy_static! {
-    static ref UNICODE_ESC: Regex =
-        Regex::new(r"(\\U[[:xdigit:]]{8})|(\\u[[:xdigit:]]{4})").unwrap();
+    static ref ESCAPE: Regex =
+        Regex::new(r#"\\(?:U[[:xdigit:]]{8}|u[[:xdigit:]]{4}|[tbnrf"'\\])"#).unwrap();
 }
 
-fn unescape_iri(iri: &str) -> String {
-    let (new_iri, end) =
-        UNICODE_ESC
-            .captures_iter(iri)
-            .fold((String::new(), 0), |(so_far, start), cap| {
-                let cap = cap.get(0).unwrap();
-                (
-                    format!(
-                        "{}{}{}",
-                        so_far,
-                        &iri[start..cap.start()],
-                        unescape_uchar(cap.as_str())
-                    ),
-                    cap.end(),
-                )
-            });
-
-    format!("{}{}", new_iri, &iri[end..])
+/// Replace the escapes, `ECHAR` and `UCHAR` in the grammar, in a string or IRI.
+fn unescape(escaped: &str) -> Result<String, Error> {
+    let mut unescaped = String::with_capacity(escaped.len());
+    let mut start = 0;
+    for escape in ESCAPE.find_iter(escaped) {
+        unescaped.push_str(&escaped[start..escape.start()]);
+        unescaped.push(unescape_char(escape.as_str())?);
+        start = escape.end();
+    }
+    unescaped.push_str(&escaped[start..]);
+    Ok(unescaped)
 }
 
-fn unescape_uchar(uchar: &str) -> char {
-    use std::char;
-    let uchar = &uchar[2..];
-    let uchar_u32 = u32::from_str_radix(uchar, 16).unwrap();
-    char::from_u32(uchar_u32).unwrap()
+fn unescape_char(escape: &str) -> Result<char, Error> {
+    match &escape[1..] {
+        "t" => Ok('\t'),
+        "b" => Ok('\u{08}'),
+        "n" => Ok('\n'),
+        "r" => Ok('\r'),
+        "f" => Ok('\u{0C}'),
+        "\"" => Ok('"'),
+        "'" => Ok('\''),
+        "\\" => Ok('\\'),
+        uchar => u32::from_str_radix(&uchar[1..], 16)
+            .ok()
+            .and_then(char::from_u32)
+            .ok_or_else(|| invalid_from_str_error(escape, "UCHAR")),
+    }
 }
-- 
2.43.0


From c242692ab79df4297180533b61fb3337f6bac6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 31/88] fix: an anonymous blank node in N-Triples, or N-Quads,
 can cause a panic

It was sliced as if it was a label, and may contain a comment; it is not
allowed by either grammar.
---
 rdftk_io/src/common/parser/ntriples.rs | 27 ++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/rdftk_io/src/common/parser/ntriples.rs b/rdftk_io/src/common/parser/ntriples.rs
index cd242a4..d294fac 100644
--- a/rdftk_io/src/common/parser/ntriples.rs
+++ b/rdftk_io/src/common/parser/ntriples.rs
@@ -65,12 +65,7 @@ pub(crate) fn subject(input_pair: Pair<'_, Rule>) -> Result<SubjectNode, Error>
         let inner_pair = input_pair.into_inner().next().unwrap();
         match inner_pair.as_rule() {
             Rule::IRIREF => Ok(iri_ref(inner_pair)?.into()),
-            Rule::blankNode => {
-                let node = inner_pair.as_str().to_string();
-                // strip the leading '_:'
-                let node = &node[2..];
-                Ok(BlankNode::from_str(node)?.into())
-            }
+            Rule::blankNode => Ok(blank_node(inner_pair)?.into()),
             _ => Err(pest_error!(
                 unexpected
                 RULE_FN,
@@ -105,12 +100,7 @@ pub(crate) fn object(input_pair: Pair<'_, Rule>) -> Result<ObjectNode, Error> {
         let inner_pair = input_pair.into_inner().next().unwrap();
         match inner_pair.as_rule() {
             Rule::IRIREF => Ok(iri_ref(inner_pair)?.into()),
-            Rule::blankNode => {
-                let node = inner_pair.as_str().to_string();
-                // strip the leading '_:'
-                let node = &node[2..];
-                Ok(BlankNode::from_str(node)?.into())
-            }
+            Rule::blankNode => Ok(blank_node(inner_pair)?.into()),
             Rule::ntripleLiteral => {
                 let literal = literal(inner_pair)?;
                 Ok(literal.into())
@@ -127,6 +117,19 @@ pub(crate) fn object(input_pair: Pair<'_, Rule>) -> Result<ObjectNode, Error> {
     }
 }
 
+fn blank_node(input_pair: Pair<'_, Rule>) -> Result<BlankNode, Error> {
+    parse_rule!("blank_node" entry input_pair);
+
+    // The anonymous form, "[]", is in the common rule but is not part of these languages.
+    let inner_pair = input_pair.into_inner().next().unwrap();
+    if inner_pair.as_rule() == Rule::BLANK_NODE_LABEL {
+        // from_str will strip the leading '_:'
+        BlankNode::from_str(inner_pair.as_str())
+    } else {
+        Err(pest_error!(unexpected RULE_FN, &inner_pair, [Rule::BLANK_NODE_LABEL]))
+    }
+}
+
 fn literal(input_pair: Pair<'_, Rule>) -> Result<Literal, Error> {
     parse_rule!("literal" entry input_pair);
 
-- 
2.43.0


From b02051a1f41dd21549bf7f5ed96c6a782d27c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 32/88] fix: by default typed literals are not written as
 N-Triples

There are no abbreviated forms of numbers, and booleans, in N-Triples, so
the output was invalid and could not be read back.
---
 rdftk_io/src/nt/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index b3e8093..1888f1c 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -8,7 +8,7 @@ use std::io::Write;
 // Public Types
 // ------------------------------------------------------------------------------------------------
 
-#[derive(Copy, Clone, Debug, Default, PartialEq, Eq, Hash)]
+#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
 pub struct NTripleWriterOptions {
     force_string_literals: bool,
 }
@@ -63,6 +63,15 @@ impl HasOptions<NTripleWriterOptions> for NTripleWriter {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Default for NTripleWriterOptions {
+    fn default() -> Self {
+        // N-Triples has no other form for numeric, boolean, or IRI literals.
+        Self {
+            force_string_literals: true,
+        }
+    }
+}
+
 impl NTripleWriterOptions {
     pub fn force_string_literals(self, flag: bool) -> Self {
         let mut self_mut = self;
-- 
2.43.0


From 57e2399f7c56978b2b5140e53d7eb88f3e4642ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 33/88] fix: typed literals are not written as N-Quads

---
 rdftk_io/src/nq/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 99d4630..004113f 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -47,9 +47,9 @@ impl ObjectWriter<Graph> for NQuadWriter {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} {} {} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
                     } else {
-                        writeln!(w, "{} {} {} .", subject, predicate, object)?;
+                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
                     }
                 }
             }
-- 
2.43.0


From 74c0f6ebacd241adb776a1c4e123e416865a7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 34/88] fix: IRIs written to N-Triples, and N-Quads, may have
 characters not allowed there

For example { or | in a query, which are not changed when parsing an IRI.
---
 rdftk_io/src/common/mod.rs   |  3 ++
 rdftk_io/src/common/terms.rs | 68 ++++++++++++++++++++++++++++++++++++
 rdftk_io/src/nq/writer.rs    | 12 +++++--
 rdftk_io/src/nt/writer.rs    | 16 ++++++---
 4 files changed, 93 insertions(+), 6 deletions(-)
 create mode 100644 rdftk_io/src/common/terms.rs

diff --git a/rdftk_io/src/common/mod.rs b/rdftk_io/src/common/mod.rs
index 5fa3aad..c2f0b25 100644
--- a/rdftk_io/src/common/mod.rs
+++ b/rdftk_io/src/common/mod.rs
@@ -17,3 +17,6 @@ pub(crate) mod indenter;
     feature = "turtle"
 ))]
 pub(crate) mod parser;
+
+#[cfg(any(feature = "nq", feature = "nt", feature = "turtle"))]
+pub(crate) mod terms;
diff --git a/rdftk_io/src/common/terms.rs b/rdftk_io/src/common/terms.rs
new file mode 100644
index 0000000..7fa14b5
--- /dev/null
+++ b/rdftk_io/src/common/terms.rs
@@ -0,0 +1,68 @@
+/*!
+The form of terms common to N-Triples, N-Quads, and Turtle.
+*/
+
+use rdftk_core::model::graph::GraphName;
+use rdftk_core::model::literal::Literal;
+use rdftk_core::model::statement::{ObjectNode, SubjectNode};
+use rdftk_iri::Iri;
+
+// ------------------------------------------------------------------------------------------------
+// Public Functions
+// ------------------------------------------------------------------------------------------------
+
+///
+/// Return the `IRIREF` form of an Iri; any character which may be in the query, or fragment, of a
+/// parsed IRI but is not allowed in an `IRIREF` is written as a `UCHAR`.
+///
+pub(crate) fn iri_ref(iri: &Iri) -> String {
+    format!("<{}>", escape_iri(&format!("{iri:#}")))
+}
+
+/// Escape the characters not allowed in an `IRIREF`.
+pub(crate) fn escape_iri(iri: &str) -> String {
+    let mut escaped = String::with_capacity(iri.len());
+    for c in iri.chars() {
+        match c {
+            '\u{00}'..='\u{20}' | '<' | '>' | '"' | '{' | '}' | '|' | '^' | '`' | '\\' => {
+                escaped.push_str(&format!("\\u{:04X}", c as u32))
+            }
+            c => escaped.push(c),
+        }
+    }
+    escaped
+}
+
+pub(crate) fn graph_name(name: &GraphName) -> String {
+    match name {
+        GraphName::Iri(iri) => iri_ref(iri),
+        GraphName::BNode(_) => name.to_string(),
+    }
+}
+
+pub(crate) fn subject(subject: &SubjectNode) -> String {
+    match subject {
+        SubjectNode::Resource(iri) => iri_ref(iri),
+        _ => subject.to_string(),
+    }
+}
+
+pub(crate) fn object(object: &ObjectNode) -> String {
+    match object {
+        ObjectNode::Resource(iri) => iri_ref(iri),
+        ObjectNode::Literal(v) => literal(v),
+        _ => object.to_string(),
+    }
+}
+
+pub(crate) fn literal(literal: &Literal) -> String {
+    if let Some(data_type) = literal.data_type() {
+        format!(
+            "\"{}\"^^{}",
+            literal.lexical_form(),
+            iri_ref(data_type.as_iri())
+        )
+    } else {
+        format!("{literal:#}")
+    }
+}
diff --git a/rdftk_io/src/nq/writer.rs b/rdftk_io/src/nq/writer.rs
index 004113f..a170f2f 100644
--- a/rdftk_io/src/nq/writer.rs
+++ b/rdftk_io/src/nq/writer.rs
@@ -4,6 +4,7 @@ use rdftk_core::model::data_set::DataSet;
 use rdftk_core::model::graph::Graph;
 use std::io::Write;
 
+use crate::common::terms;
 use crate::GraphWriter;
 
 // ------------------------------------------------------------------------------------------------
@@ -46,10 +47,17 @@ impl ObjectWriter<Graph> for NQuadWriter {
         for subject in simple_graph.subjects() {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
+                    write!(
+                        w,
+                        "{} {} {} ",
+                        terms::subject(subject),
+                        terms::iri_ref(predicate),
+                        terms::object(object),
+                    )?;
                     if let Some(graph_name) = graph_name {
-                        writeln!(w, "{} {} {:#} {} .", subject, predicate, object, graph_name)?;
+                        writeln!(w, "{} .", terms::graph_name(graph_name))?;
                     } else {
-                        writeln!(w, "{} {} {:#} .", subject, predicate, object)?;
+                        writeln!(w, ".")?;
                     }
                 }
             }
diff --git a/rdftk_io/src/nt/writer.rs b/rdftk_io/src/nt/writer.rs
index 1888f1c..82ae899 100644
--- a/rdftk_io/src/nt/writer.rs
+++ b/rdftk_io/src/nt/writer.rs
@@ -1,3 +1,4 @@
+use crate::common::terms;
 use crate::GraphWriter;
 use objio::{HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
@@ -37,11 +38,18 @@ impl ObjectWriter<Graph> for NTripleWriter {
         for subject in simple_graph.subjects() {
             for predicate in simple_graph.predicates_for(subject) {
                 for object in simple_graph.objects_for(subject, predicate) {
-                    if self.options().force_string_literals {
-                        writeln!(w, "{subject} {predicate} {object:#} .")?;
+                    let object_str = if self.options().force_string_literals || !object.is_literal()
+                    {
+                        terms::object(object)
                     } else {
-                        writeln!(w, "{subject} {predicate} {object} .")?;
-                    }
+                        object.to_string()
+                    };
+                    writeln!(
+                        w,
+                        "{} {} {object_str} .",
+                        terms::subject(subject),
+                        terms::iri_ref(predicate),
+                    )?;
                 }
             }
         }
-- 
2.43.0


From d885faad3860ecb60e3b0fda369bf220e2c144c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 35/88] fix: the blank node objects written as RDF/JSON lack
 "_:", and reading them can panic

---
 rdftk_io/src/json/reader.rs | 2 +-
 rdftk_io/src/json/writer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/json/reader.rs b/rdftk_io/src/json/reader.rs
index 4d468be..b98a0c7 100644
--- a/rdftk_io/src/json/reader.rs
+++ b/rdftk_io/src/json/reader.rs
@@ -232,7 +232,7 @@ fn parse_bnode_object(
 ) -> Result<(), Error> {
     parse_rule!("parse_bnode_object" entry);
     if let Some(Value::String(s)) = object.get(OBJ_KEY_VALUE) {
-        let object = BlankNode::from_str(&s[2..])?;
+        let object = BlankNode::from_str(s)?;
         let st = Statement::new(subject.clone(), predicate.clone(), object);
         graph.insert(st);
         Ok(())
diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index 5e13608..ef5bb0b 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -1,5 +1,5 @@
 use crate::json::syntax::{
-    OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
+    BNODE_PREFIX, OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
     OBJ_TYPE_URI,
 };
 use crate::json::NAME;
@@ -80,7 +80,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(object.as_blank().unwrap().to_string()),
+                            Value::String(format!("{BNODE_PREFIX}{}", object.as_blank().unwrap())),
                         );
                     } else if object.is_resource() {
                         let _ = object_map.insert(
-- 
2.43.0


From 9692c3ebcfb29a6392f88b5108a45e341c44431d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 36/88] fix: the literals written as RDF/JSON are escaped twice

---
 rdftk_io/src/json/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index ef5bb0b..ffb9b40 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -99,7 +99,7 @@ impl ObjectWriter<Graph> for JsonWriter {
                         );
                         let _ = object_map.insert(
                             OBJ_KEY_VALUE.to_string(),
-                            Value::String(literal.lexical_form().to_string()),
+                            Value::String(literal.unescaped()),
                         );
                         if let Some(language) = literal.language() {
                             let _ = object_map.insert(
-- 
2.43.0


From daec16bf3a9201b6774c00466fad47f4d1143c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 37/88] fix: blank node labels with consecutive periods are
 rejected by N-Triples, and N-Quads

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 8c04b42..336e33d 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -338,7 +338,7 @@ BLANK_NODE_LABEL = @{
 
 BLANK_NODE_LABEL_TAIL = {
     PN_CHARS
-  | &("." ~ PN_CHARS) ~ "."
+  | &("."+ ~ PN_CHARS) ~ "."
 }
 
 ANON = {
-- 
2.43.0


From fc8bf7c1f3300541b79ca745d7199b8535d4b0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 38/88] fix: the second value of a property is written as
 RDF/XML with its prefix twice

---
 rdftk_io/src/xml/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 88f4820..f00f2d8 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -263,13 +263,15 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, mut name) = split_uri(predicate);
+            let (ns, local_name) = split_uri(predicate);
 
             for object in graph.objects_for(subject, predicate) {
+                let name: String;
                 let mut element = if let Some(prefix) = self.mappings.get(&ns) {
-                    name = format!("{}:{}", prefix, name);
+                    name = format!("{}:{}", prefix, local_name);
                     XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
                 } else {
+                    name = local_name.clone();
                     XmlEvent::start_element(name.as_str()).default_ns(&ns)
                 };
 
-- 
2.43.0


From 491018e3b4d337a4502e5b81046f5a15cd79f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 39/88] fix: the literals written as RDF/XML are escaped twice

---
 rdftk_io/src/xml/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index f00f2d8..b5452d8 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -304,7 +304,7 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                     }
                     writer
-                        .write(XmlEvent::Characters(literal.lexical_form()))
+                        .write(XmlEvent::Characters(&literal.unescaped()))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
-- 
2.43.0


From 375c22c1927f3bb5074468f8a8ddb38a909b967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 40/88] fix: the name of a property is split within a
 character, or is not an XML name, as RDF/XML

---
 rdftk_io/src/xml/writer.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index b5452d8..cd1f6fd 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -263,7 +263,7 @@ impl XmlWriter {
         }
 
         for predicate in graph.predicates_for(subject) {
-            let (ns, local_name) = split_uri(predicate);
+            let (ns, local_name) = split_uri(predicate)?;
 
             for object in graph.objects_for(subject, predicate) {
                 let name: String;
@@ -335,15 +335,29 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
-fn split_uri(iri: &Iri) -> (String, String) {
+/// Split the IRI of a property before the longest suffix that is an XML `NCName`.
+fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
-    let index = iri
-        .chars()
-        .rev()
-        .enumerate()
-        .find_map(|(i, c)| if c == '#' || c == '/' { Some(i) } else { None })
-        .unwrap();
-    assert_ne!(index, iri.len());
-    let index = iri.len() - index;
-    (iri[..index].to_string(), iri[index..].to_string())
+    let name = iri.trim_end_matches(is_name_char).len();
+    let name = iri[name..]
+        .find(is_name_start_char)
+        .map(|start| name + start)
+        .ok_or_else(|| Error::InvalidQName { name: iri.clone() })?;
+    Ok((iri[..name].to_string(), iri[name..].to_string()))
+}
+
+fn is_name_start_char(c: char) -> bool {
+    matches!(c,
+        'A'..='Z' | 'a'..='z' | '_'
+        | '\u{00C0}'..='\u{00D6}' | '\u{00D8}'..='\u{00F6}' | '\u{00F8}'..='\u{02FF}'
+        | '\u{0370}'..='\u{037D}' | '\u{037F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}'
+        | '\u{2070}'..='\u{218F}' | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}'
+        | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}' | '\u{10000}'..='\u{EFFFF}')
+}
+
+fn is_name_char(c: char) -> bool {
+    is_name_start_char(c)
+        || matches!(c,
+            '0'..='9' | '-' | '.' | '\u{00B7}'
+            | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}')
 }
-- 
2.43.0


From 128563855c462bf88ae00d9f3019dc0ef7762655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 41/88] fix: the striped style of RDF/XML loses blank nodes,
 writes them twice, or never ends

---
 rdftk_io/src/xml/writer.rs | 59 ++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index cd1f6fd..e538d8a 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -8,10 +8,10 @@ use objio::HasOptions;
 use objio::{impl_has_options, ObjectWriter};
 use rdftk_core::error::{rdf_star_not_supported_error, Error};
 use rdftk_core::model::graph::Graph;
-use rdftk_core::model::statement::SubjectNode;
+use rdftk_core::model::statement::{BlankNode, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::{dc, foaf, geo, owl, rdf, rdfs, xsd};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Write;
 use xml::common::XmlVersion;
 use xml::writer::{EventWriter, XmlEvent};
@@ -175,11 +175,20 @@ impl ObjectWriter<Graph> for XmlWriter {
 
         if self.options.style == XmlStyle::Flat {
             for subject in graph.subjects() {
-                self.write_subject(&mut writer, &graph, subject, true)?;
+                self.write_subject(&mut writer, &graph, subject, &mut Default::default())?;
             }
         } else {
-            for subject in graph.subjects().iter().filter(|s| s.is_resource()) {
-                self.write_subject(&mut writer, &graph, subject, false)?;
+            let mut nested = nested_blanks(&graph);
+            for subject in graph.subjects() {
+                if !subject.as_blank().is_some_and(|b| nested.contains(b)) {
+                    self.write_subject(&mut writer, &graph, subject, &mut nested)?;
+                }
+            }
+            // What is left is nested only in itself, so something has to be written first.
+            for subject in graph.subjects() {
+                if subject.as_blank().is_some_and(|b| nested.remove(b)) {
+                    self.write_subject(&mut writer, &graph, subject, &mut nested)?;
+                }
             }
         }
 
@@ -236,21 +245,15 @@ impl XmlWriter {
         writer: &mut EventWriter<W>,
         graph: &Graph,
         subject: &SubjectNode,
-        flat: bool,
+        nested: &mut HashSet<BlankNode>,
     ) -> Result<(), Error> {
         if let Some(blank) = subject.as_blank() {
-            if flat {
-                writer
-                    .write(
-                        XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                            .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
-                    )
-                    .map_err(xml_error)?;
-            } else {
-                writer
-                    .write(XmlEvent::start_element(RDF_DESCRIPTION.as_str()))
-                    .map_err(xml_error)?;
-            }
+            writer
+                .write(
+                    XmlEvent::start_element(RDF_DESCRIPTION.as_str())
+                        .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
+                )
+                .map_err(xml_error)?;
         } else if let Some(subject) = subject.as_resource() {
             writer
                 .write(
@@ -280,12 +283,12 @@ impl XmlWriter {
                     element = element.attr(RDF_RESOURCE.as_str(), &iri);
                     writer.write(element).map_err(xml_error)?;
                 } else if let Some(blank) = object.as_blank() {
-                    if flat {
-                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
+                    if nested.remove(blank) {
                         writer.write(element).map_err(xml_error)?;
+                        self.write_subject(writer, graph, &blank.clone().into(), nested)?;
                     } else {
+                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
                         writer.write(element).map_err(xml_error)?;
-                        self.write_subject(writer, graph, &blank.clone().into(), flat)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
                     let language = literal
@@ -335,6 +338,20 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+/// Return the blank nodes to nest: the subjects that are the object of exactly one statement.
+fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
+    let mut references: HashMap<BlankNode, usize> = HashMap::new();
+    for blank in graph.statements().filter_map(|st| st.object().as_blank()) {
+        *references.entry(blank.clone()).or_default() += 1;
+    }
+    graph
+        .blank_node_subjects()
+        .into_iter()
+        .filter_map(|subject| subject.as_blank().cloned())
+        .filter(|blank| references.get(blank) == Some(&1))
+        .collect()
+}
+
 /// Split the IRI of a property before the longest suffix that is an XML `NCName`.
 fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
-- 
2.43.0


From 9714fc2672da163e918b1cef4e53d9b5f12d7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 42/88] fix: nested node elements, and parseType="Resource",
 are not linked to the outer node reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 167 ++++++++++++++++++++-----------------
 1 file changed, 92 insertions(+), 75 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 3f76300..1965890 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -52,6 +52,12 @@ enum ParseType {
     Collection,
 }
 
+#[derive(Clone, Debug)]
+enum ObjectContent {
+    Node(SubjectNode),
+    Text(String),
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
@@ -149,12 +155,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    let _ = parse_subject_element(
-                        event_reader,
-                        &attributes.uri_base,
-                        None,
-                        &mut graph,
-                    )?;
+                    parse_subject_element(event_reader, &attributes.uri_base, &mut graph)?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -172,11 +173,8 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-    _subject: Option<&SubjectNode>,
     graph: &mut Graph,
-) -> Result<Option<SubjectNode>, Error> {
-    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let mut subject: Option<SubjectNode> = None;
+) -> Result<(), Error> {
     loop {
         let event = event_reader.next();
         match &event {
@@ -186,51 +184,17 @@ fn parse_subject_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_subject_element" => event);
-                let attributes = parse_attributes(attributes)?;
-                let subject_node: SubjectNode = match &attributes.subject_type {
-                    None => {
-                        // SPEC: §2.1 Introduction
-                        BlankNode::generate().into()
-                    }
-                    Some(SubjectType::Resource(subject)) => {
-                        // SPEC: §2.2 Node Elements and Property Elements
-                        subject.clone().into()
-                    }
-                    Some(SubjectType::RelativeResource(subject)) => {
-                        // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-                        let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
-                        value_to_iri(&uri)?.into()
-                    }
-                    Some(SubjectType::BlankNamed(subject)) => {
-                        // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-                        BlankNode::from_str(subject)?.into()
-                    }
-                };
-                if !description_element.matches(name) {
-                    // SPEC: §2.13 Typed Node Elements
-                    graph.insert(Statement::new(
-                        subject_node.clone(),
-                        rdf::a_type().clone(),
-                        name_to_iri(name)?,
-                    ));
-                }
-                parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                parse_predicate_element(
+                let _ = parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    &subject_node,
+                    name,
+                    &parse_attributes(attributes)?,
+                    xml_base,
                     graph,
                 )?;
-                // set outer loop value
-                subject = Some(subject_node);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_subject_element" => event);
-                break;
+                return Ok(());
             }
             Ok(_) => {
                 trace_event!("parse_subject_element" => ignore event);
@@ -240,7 +204,53 @@ fn parse_subject_element<R: Read>(
             }
         }
     }
-    Ok(subject)
+}
+
+/// Parse the node element with the given name and attributes, the start of which has been read, up
+/// to and including its end.
+fn parse_node_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    name: &OwnedName,
+    attributes: &Attributes<'_>,
+    xml_base: &Option<Iri>,
+    graph: &mut Graph,
+) -> Result<SubjectNode, Error> {
+    let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
+    let xml_base = if attributes.uri_base.is_some() {
+        &attributes.uri_base
+    } else {
+        xml_base
+    };
+    let subject_node: SubjectNode = match &attributes.subject_type {
+        None => {
+            // SPEC: §2.1 Introduction
+            BlankNode::generate().into()
+        }
+        Some(SubjectType::Resource(subject)) => {
+            // SPEC: §2.2 Node Elements and Property Elements
+            subject.clone().into()
+        }
+        Some(SubjectType::RelativeResource(subject)) => {
+            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+            let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
+            value_to_iri(&uri)?.into()
+        }
+        Some(SubjectType::BlankNamed(subject)) => {
+            // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+            BlankNode::from_str(subject)?.into()
+        }
+    };
+    if !description_element.matches(name) {
+        // SPEC: §2.13 Typed Node Elements
+        graph.insert(Statement::new(
+            subject_node.clone(),
+            rdf::a_type().clone(),
+            name_to_iri(name)?,
+        ));
+    }
+    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
+    parse_predicate_element(event_reader, xml_base, &subject_node, graph)?;
+    Ok(subject_node)
 }
 
 #[inline]
@@ -309,10 +319,16 @@ fn parse_predicate_element<R: Read>(
                     no_child_elements = true;
                 } else {
                     match attributes.parse_type {
-                        None => {
-                            if let Some(content) =
-                                parse_object_element(event_reader, xml_base, graph)?
-                            {
+                        None => match parse_object_element(event_reader, xml_base, graph)? {
+                            ObjectContent::Node(node) => {
+                                // SPEC: §2.2 Node Elements and Property Elements
+                                graph.insert(Statement::new(
+                                    subject.clone(),
+                                    name_to_iri(name)?,
+                                    node.to_object(),
+                                ));
+                            }
+                            ObjectContent::Text(content) => {
                                 let literal = if let Some(data_type) = attributes.data_type {
                                     // SPEC: §2.9 Typed Literals: rdf:datatype
                                     Literal::with_data_type(&content, DataType::from(data_type))
@@ -328,7 +344,7 @@ fn parse_predicate_element<R: Read>(
                                     literal,
                                 ));
                             }
-                        }
+                        },
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
                             let content = parse_xml_literal_element(event_reader)?
@@ -342,16 +358,20 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
-                            let subject_node = BlankNode::generate().into();
-                            //parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
-                            let _subject = parse_subject_element(
+                            let subject_node: SubjectNode = BlankNode::generate().into();
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                subject_node.to_object(),
+                            ));
+                            parse_predicate_element(
                                 event_reader,
                                 if attributes.uri_base.is_some() {
                                     &attributes.uri_base
                                 } else {
                                     xml_base
                                 },
-                                Some(&subject_node),
+                                &subject_node,
                                 graph,
                             )?;
                         }
@@ -380,9 +400,9 @@ fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
     graph: &mut Graph,
-) -> Result<Option<String>, Error> {
+) -> Result<ObjectContent, Error> {
     let mut content = String::new();
-    let mut has_elements = false;
+    let mut node: Option<SubjectNode> = None;
     let mut has_characters = false;
     loop {
         let event = event_reader.next();
@@ -396,28 +416,25 @@ fn parse_object_element<R: Read>(
                 if has_characters {
                     error_event!(state => "parse_object_element", &format!("found XML content, parseType != Literal ({:?})", name));
                 }
+                if node.is_some() {
+                    error_event!(state => "parse_object_element", "only one node element allowed here");
+                }
                 // set outer loop value
-                has_elements = true;
-                let attributes = parse_attributes(attributes)?;
-                let subject_node = BlankNode::generate().into();
-                let _subject = parse_subject_element(
+                node = Some(parse_node_element(
                     event_reader,
-                    if attributes.uri_base.is_some() {
-                        &attributes.uri_base
-                    } else {
-                        xml_base
-                    },
-                    Some(&subject_node),
+                    name,
+                    &parse_attributes(attributes)?,
+                    xml_base,
                     graph,
-                )?;
+                )?);
             }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
-                return Ok(Some(content));
+                return Ok(node.map_or(ObjectContent::Text(content), ObjectContent::Node));
             }
             Ok(XmlEvent::CData(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", format!("found character content after element(s)"));
                 }
                 // set outer loop value
@@ -426,7 +443,7 @@ fn parse_object_element<R: Read>(
             }
             Ok(XmlEvent::Characters(value)) => {
                 trace_event!("parse_content_element" => event);
-                if has_elements {
+                if node.is_some() {
                     error_event!(state => "parse_object_element", "found character content after element(s)");
                 }
                 // set outer loop value
-- 
2.43.0


From 153b476c47e20dd8c5d48c415f3190ff7a3e5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 43/88] fix: the properties after one with rdf:resource are
 misread from RDF/XML

---
 rdftk_io/src/xml/reader.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 1965890..17413f5 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -294,7 +294,6 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
-    let mut no_child_elements = false;
     loop {
         let event = event_reader.next();
         match &event {
@@ -304,9 +303,6 @@ fn parse_predicate_element<R: Read>(
                 attributes,
             }) => {
                 trace_event!("parse_predicate_element" => event);
-                if no_child_elements {
-                    error_event!(state => "parse_predicate_element", "child elements not allowed here");
-                }
                 let attributes = parse_attributes(attributes)?;
                 if let Some(resource) = attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
@@ -315,8 +311,7 @@ fn parse_predicate_element<R: Read>(
                         name_to_iri(name)?,
                         resource,
                     ));
-                    // set outer loop value
-                    no_child_elements = true;
+                    parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => match parse_object_element(event_reader, xml_base, graph)? {
@@ -396,6 +391,30 @@ fn parse_predicate_element<R: Read>(
     }
 }
 
+/// Read up to, and including, the end of an element that may not have any content.
+fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<(), Error> {
+    loop {
+        let event = event_reader.next();
+        match &event {
+            Ok(XmlEvent::EndElement { .. }) => {
+                trace_event!("parse_empty_element" => event);
+                return Ok(());
+            }
+            Ok(XmlEvent::StartElement { .. })
+            | Ok(XmlEvent::CData(_))
+            | Ok(XmlEvent::Characters(_)) => {
+                error_event!(state => "parse_empty_element", "content not allowed here");
+            }
+            Ok(_) => {
+                trace_event!("parse_empty_element" => ignore event);
+            }
+            Err(e) => {
+                error_event!(parse => "parse_empty_element", e);
+            }
+        }
+    }
+}
+
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     xml_base: &Option<Iri>,
-- 
2.43.0


From 6e40ccdd2403b58b711541d2b94bf6291cdd17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 44/88] fix: rdf:nodeID is ignored on a property element
 reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 17413f5..8cba8c3 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -312,6 +312,14 @@ fn parse_predicate_element<R: Read>(
                         resource,
                     ));
                     parse_empty_element(event_reader)?;
+                } else if let Some(SubjectType::BlankNamed(blank)) = &attributes.subject_type {
+                    // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+                    graph.insert(Statement::new(
+                        subject.clone(),
+                        name_to_iri(name)?,
+                        BlankNode::from_str(blank)?,
+                    ));
+                    parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
                         None => match parse_object_element(event_reader, xml_base, graph)? {
-- 
2.43.0


From fdb0cfd7aa0d1b47cd25a670c16844b89eff017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 45/88] fix: rdf:datatype is ignored reading RDF/XML

---
 rdftk_io/src/json/writer.rs   |  4 ++--
 rdftk_io/src/turtle/writer.rs | 16 ++++------------
 rdftk_io/src/xml/reader.rs    |  6 ++++--
 3 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/rdftk_io/src/json/writer.rs b/rdftk_io/src/json/writer.rs
index ffb9b40..c9d4461 100644
--- a/rdftk_io/src/json/writer.rs
+++ b/rdftk_io/src/json/writer.rs
@@ -1,6 +1,6 @@
 use crate::json::syntax::{
-    BNODE_PREFIX, OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE, OBJ_TYPE_LITERAL,
-    OBJ_TYPE_URI,
+    BNODE_PREFIX, OBJ_KEY_DATATYPE, OBJ_KEY_LANG, OBJ_KEY_TYPE, OBJ_KEY_VALUE, OBJ_TYPE_BNODE,
+    OBJ_TYPE_LITERAL, OBJ_TYPE_URI,
 };
 use crate::json::NAME;
 use crate::GraphWriter;
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index d0cad1d..52ff49f 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -512,10 +512,7 @@ impl TurtleWriter {
                 } else {
                     (DECL_BASE_TTL, END_OF_STATEMENT)
                 };
-            writeln!(
-                w,
-                "{decl} {IRI_START}{base:#}{IRI_END}{eos}"
-            )?;
+            writeln!(w, "{decl} {IRI_START}{base:#}{IRI_END}{eos}")?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
             }
@@ -540,10 +537,8 @@ impl TurtleWriter {
                 for (from_base, to_base) in self.options.convert_base().iter() {
                     let from_base_str = format!("{from_base:#}");
                     if namespace_str.starts_with(from_base_str.as_str()) {
-                        namespace_str = format!(
-                            "{to_base:#}{}",
-                            &namespace_str[from_base_str.len()..]
-                        );
+                        namespace_str =
+                            format!("{to_base:#}{}", &namespace_str[from_base_str.len()..]);
                         break;
                     }
                 }
@@ -745,10 +740,7 @@ impl TurtleWriter {
         for (from_base, to_base) in self.options.convert_base().iter() {
             let from_base_str = format!("{from_base:#}");
             if iri_str.starts_with(from_base_str.as_str()) {
-                iri_str = format!(
-                    "{to_base:#}{}",
-                    &iri_str[from_base_str.len()..]
-                );
+                iri_str = format!("{to_base:#}{}", &iri_str[from_base_str.len()..]);
             }
         }
         let iri = Iri::from_str(iri_str.as_str())?;
diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 8cba8c3..af8d14a 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,6 +1,6 @@
 use crate::xml::syntax::{
-    ATTRIBUTE_ABOUT, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE, ATTRIBUTE_RESOURCE,
-    ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
@@ -558,6 +558,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                     Some(SubjectType::RelativeResource(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
+            } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
+                response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
                 if attribute.value == PARSE_TYPE_LITERAL {
                     response.parse_type = Some(ParseType::XmlLiteral);
-- 
2.43.0


From 9895b799afc77fdbb9ef537f7624d1c40a261144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 46/88] fix: a literal of only white space is read as empty
 from RDF/XML

---
 rdftk_io/src/xml/reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index af8d14a..f45a657 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -477,6 +477,10 @@ fn parse_object_element<R: Read>(
                 has_characters = true;
                 content.push_str(value);
             }
+            Ok(XmlEvent::Whitespace(value)) => {
+                trace_event!("parse_content_element" => event);
+                content.push_str(value);
+            }
             Ok(_) => {
                 trace_event!("parse_object_element" => ignore event);
             }
-- 
2.43.0


From ab7a11721e6f7f876a8ce334fd6f19c89efebcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 47/88] fix: rdf:ID is not the fragment of the base, or panics
 without one, reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index f45a657..6ec53f1 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -232,8 +232,11 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            let uri = format!("{}{}", xml_base.as_ref().unwrap(), subject);
-            value_to_iri(&uri)?.into()
+            if let Some(xml_base) = xml_base {
+                xml_base.with_new_fragment(subject).into()
+            } else {
+                error_event!(state => "parse_node_element", "rdf:ID without xml:base");
+            }
         }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
-- 
2.43.0


From 2b631a694739350c127ddd3a81ba49a0c29d76ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 48/88] fix: an element, or attribute, without a namespace
 panics reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 6ec53f1..3f518cf 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -4,7 +4,7 @@ use crate::xml::syntax::{
     PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
-use rdftk_core::error::{invalid_state_error, Error};
+use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
 use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
@@ -258,11 +258,11 @@ fn parse_node_element<R: Read>(
 
 #[inline]
 fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
-    Ok(Iri::from_str(&format!(
-        "{}{}",
-        name.namespace.as_ref().unwrap(),
-        name.local_name
-    ))?)
+    if let Some(namespace) = &name.namespace {
+        Ok(Iri::from_str(&format!("{}{}", namespace, name.local_name))?)
+    } else {
+        Err(invalid_qname_error(&name.local_name))
+    }
 }
 
 #[inline]
-- 
2.43.0


From 638211d0d7d01cd143c48bb298cbb00dedf3a283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 49/88] fix: an unknown rdf:parseType panics reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 3f518cf..843ca46 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,7 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
     ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
-    PARSE_TYPE_COLLECTION, PARSE_TYPE_LITERAL, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    PARSE_TYPE_COLLECTION, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
@@ -568,14 +568,13 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
                 response.data_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
-                if attribute.value == PARSE_TYPE_LITERAL {
-                    response.parse_type = Some(ParseType::XmlLiteral);
-                } else if attribute.value == PARSE_TYPE_RESOURCE {
+                if attribute.value == PARSE_TYPE_RESOURCE {
                     response.parse_type = Some(ParseType::Resource);
                 } else if attribute.value == PARSE_TYPE_COLLECTION {
                     response.parse_type = Some(ParseType::Collection);
                 } else {
-                    panic!();
+                    // SPEC: §7.2.20 Production parseTypeOtherPropertyElt, the same as "Literal"
+                    response.parse_type = Some(ParseType::XmlLiteral);
                 }
             }
         } else {
-- 
2.43.0


From 9cd4859c84bf0741410fb549092d211e03efa7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 50/88] fix: rdf:parseType="Collection" panics reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 65 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 843ca46..af55608 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -383,7 +383,29 @@ fn parse_predicate_element<R: Read>(
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
-                            todo!()
+                            let mut list: SubjectNode = rdf::nil().clone().into();
+                            for node in parse_collection_element(event_reader, xml_base, graph)?
+                                .into_iter()
+                                .rev()
+                            {
+                                let item: SubjectNode = BlankNode::generate().into();
+                                graph.insert(Statement::new(
+                                    item.clone(),
+                                    rdf::first().clone(),
+                                    node.to_object(),
+                                ));
+                                graph.insert(Statement::new(
+                                    item.clone(),
+                                    rdf::rest().clone(),
+                                    list.to_object(),
+                                ));
+                                list = item;
+                            }
+                            graph.insert(Statement::new(
+                                subject.clone(),
+                                name_to_iri(name)?,
+                                list.to_object(),
+                            ));
                         }
                     }
                 }
@@ -402,6 +424,47 @@ fn parse_predicate_element<R: Read>(
     }
 }
 
+/// Read the node elements up to, and including, the end of an element.
+fn parse_collection_element<R: Read>(
+    event_reader: &mut EventReader<&mut R>,
+    xml_base: &Option<Iri>,
+    graph: &mut Graph,
+) -> Result<Vec<SubjectNode>, Error> {
+    let mut nodes = Vec::new();
+    loop {
+        let event = event_reader.next();
+        match &event {
+            Ok(XmlEvent::StartElement {
+                name,
+                namespace: _,
+                attributes,
+            }) => {
+                trace_event!("parse_collection_element" => event);
+                nodes.push(parse_node_element(
+                    event_reader,
+                    name,
+                    &parse_attributes(attributes)?,
+                    xml_base,
+                    graph,
+                )?);
+            }
+            Ok(XmlEvent::EndElement { .. }) => {
+                trace_event!("parse_collection_element" => event);
+                return Ok(nodes);
+            }
+            Ok(XmlEvent::CData(_)) | Ok(XmlEvent::Characters(_)) => {
+                error_event!(state => "parse_collection_element", "character content not allowed here");
+            }
+            Ok(_) => {
+                trace_event!("parse_collection_element" => ignore event);
+            }
+            Err(e) => {
+                error_event!(parse => "parse_collection_element", e);
+            }
+        }
+    }
+}
+
 /// Read up to, and including, the end of an element that may not have any content.
 fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<(), Error> {
     loop {
-- 
2.43.0


From 6927f6aa64a263dd956f22d28b5466d060593131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:37 +0000
Subject: [PATCH 51/88] fix: an XML literal with other than one element panics,
 or ends early, reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index af55608..a9de703 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -572,24 +572,27 @@ fn parse_xml_literal_element<R: Read>(
             Ok(XmlEvent::StartElement { .. }) => {
                 trace_event!("parse_content_element" => event);
                 if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(xml_literal_error)?
                 }
                 opened += 1;
             }
+            Ok(XmlEvent::EndElement { .. }) if opened == 0 => {
+                // This is the end of the property element itself.
+                trace_event!("parse_content_element" => event);
+                drop(writer);
+                return Ok(String::from_utf8(content)?);
+            }
             Ok(XmlEvent::EndElement { .. }) => {
                 trace_event!("parse_content_element" => event);
                 if let Some(event) = event.unwrap().as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(xml_literal_error)?
                 }
                 opened -= 1;
-                if opened == 0 {
-                    return Ok(String::from_utf8(content).unwrap());
-                }
             }
             Ok(event) => {
                 // We only leave trim_whitespace=false so that these events are also written out.
                 if let Some(event) = event.as_writer_event() {
-                    writer.write(event).unwrap()
+                    writer.write(event).map_err(xml_literal_error)?
                 }
             }
             Err(e) => {
@@ -599,6 +602,13 @@ fn parse_xml_literal_element<R: Read>(
     }
 }
 
+fn xml_literal_error(e: xml::writer::Error) -> Error {
+    Error::Tokenizer {
+        representation: super::NAME.into(),
+        source: Box::new(e),
+    }
+}
+
 fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
     let mut response = Attributes {
         subject_type: None,
-- 
2.43.0


From 0c7dcfe31de32493b3cccaa7e7c4d668d146803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 52/88] fix: the value of an XML literal read from RDF/XML has
 its angle brackets escaped

---
 rdftk_io/src/xml/reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index a9de703..38bbecc 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -353,9 +353,7 @@ fn parse_predicate_element<R: Read>(
                         },
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
-                            let content = parse_xml_literal_element(event_reader)?
-                                .replace('<', "&lt;")
-                                .replace('>', "&gt;");
+                            let content = parse_xml_literal_element(event_reader)?;
                             graph.insert(Statement::new(
                                 subject.clone(),
                                 name_to_iri(name)?,
-- 
2.43.0


From cb193f6267cdf59149a356b71a6824174a4f3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:27 +0000
Subject: [PATCH 53/88] fix: property attributes named rdf:type, rdf:value, and
 so on, are ignored reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 23 ++++++++++++++++++-----
 rdftk_io/src/xml/syntax.rs |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 38bbecc..4cebc4f 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,7 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
-    ATTRIBUTE_RESOURCE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG, ELEMENT_DESCRIPTION, ELEMENT_RDF,
-    PARSE_TYPE_COLLECTION, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    ATTRIBUTE_RESOURCE, ATTRIBUTE_TYPE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG,
+    ELEMENT_DESCRIPTION, ELEMENT_RDF, PARSE_TYPE_COLLECTION, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
@@ -66,6 +66,7 @@ struct Attributes<'a> {
     data_type: Option<Iri>,
     language: Option<LanguageTag>,
     resource: Option<Iri>,
+    node_type: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
 }
 
@@ -251,7 +252,7 @@ fn parse_node_element<R: Read>(
             name_to_iri(name)?,
         ));
     }
-    parse_predicate_attributes(&attributes.inner, &subject_node, graph)?;
+    parse_predicate_attributes(attributes, &subject_node, graph)?;
     parse_predicate_element(event_reader, xml_base, &subject_node, graph)?;
     Ok(subject_node)
 }
@@ -271,13 +272,13 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
 }
 
 fn parse_predicate_attributes(
-    attributes: &[&OwnedAttribute],
+    attributes: &Attributes<'_>,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
     // SPEC: §2.5 Property Attributes
     // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
-    for attribute in attributes {
+    for attribute in &attributes.inner {
         trace!(
             "XmlReader::parse_predicate_attributes attribute: {:?}",
             attribute
@@ -288,6 +289,13 @@ fn parse_predicate_attributes(
             Literal::plain(&attribute.value),
         ));
     }
+    if let Some(node_type) = &attributes.node_type {
+        graph.insert(Statement::new(
+            subject.clone(),
+            rdf::a_type().clone(),
+            node_type.clone(),
+        ));
+    }
     Ok(())
 }
 
@@ -615,6 +623,7 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
         data_type: None,
         language: None,
         resource: None,
+        node_type: None,
         inner: Default::default(),
     };
 
@@ -638,6 +647,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                 response.resource = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
                 response.data_type = Some(value_to_iri(&attribute.value)?);
+            } else if attribute.name.local_name == ATTRIBUTE_TYPE {
+                response.node_type = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_PARSE_TYPE {
                 if attribute.value == PARSE_TYPE_RESOURCE {
                     response.parse_type = Some(ParseType::Resource);
@@ -647,6 +658,8 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
                     // SPEC: §7.2.20 Production parseTypeOtherPropertyElt, the same as "Literal"
                     response.parse_type = Some(ParseType::XmlLiteral);
                 }
+            } else {
+                response.inner.push(attribute);
             }
         } else {
             response.inner.push(attribute);
diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index 1cb883b..fbf1ffe 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -14,6 +14,7 @@ pub(super) const ATTRIBUTE_ID: &str = "ID";
 pub(super) const ATTRIBUTE_NODE_ID: &str = "nodeID";
 pub(super) const ATTRIBUTE_PARSE_TYPE: &str = "parseType";
 pub(super) const ATTRIBUTE_RESOURCE: &str = "resource";
+pub(super) const ATTRIBUTE_TYPE: &str = "type";
 
 pub(super) const ATTRIBUTE_XML_BASE: &str = "base";
 pub(super) const ATTRIBUTE_XML_BASE_PREFIXED: &str = "xml:base";
-- 
2.43.0


From d7b4dca62a7790409280fac7b43853bd1b786f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:29 +0000
Subject: [PATCH 54/88] fix: property attributes on an empty property element
 are ignored reading RDF/XML

---
 rdftk_io/src/xml/reader.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 4cebc4f..b21f1f2 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -315,21 +315,25 @@ fn parse_predicate_element<R: Read>(
             }) => {
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes)?;
-                if let Some(resource) = attributes.resource {
+                let object: Option<SubjectNode> = if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        name_to_iri(name)?,
-                        resource,
-                    ));
-                    parse_empty_element(event_reader)?;
+                    Some(resource.clone().into())
                 } else if let Some(SubjectType::BlankNamed(blank)) = &attributes.subject_type {
                     // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
+                    Some(BlankNode::from_str(blank)?.into())
+                } else if !attributes.inner.is_empty() || attributes.node_type.is_some() {
+                    // SPEC: §2.12 Omitting Nodes: Property Attributes on an empty Property Element
+                    Some(BlankNode::generate().into())
+                } else {
+                    None
+                };
+                if let Some(object) = object {
                     graph.insert(Statement::new(
                         subject.clone(),
                         name_to_iri(name)?,
-                        BlankNode::from_str(blank)?,
+                        object.to_object(),
                     ));
+                    parse_predicate_attributes(&attributes, &object, graph)?;
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
-- 
2.43.0


From cfe4877443e30407044188c20026a6035fcfbfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 55/88] fix: owl::incompatible_with names owl:incompatibleWith

---
 rdftk_names/src/owl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/owl.rs b/rdftk_names/src/owl.rs
index 77d5267..e45ccdf 100644
--- a/rdftk_names/src/owl.rs
+++ b/rdftk_names/src/owl.rs
@@ -67,7 +67,7 @@ namespace! {
         version_info, "versionInfo",
         deprecated, "deprecated",
         backward_compatible_with, "backwardCompatibleWith",
-        incompatible_with, "incompatible_with",
+        incompatible_with, "incompatibleWith",
         prior_version, "priorVersion",
         ontology, "Ontology",
         version, "version",
-- 
2.43.0


From 0d998bc3ecf3f8a33d28cf5f62ae6760cc084cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 56/88] fix: foaf::primary_topic_of names foaf:isPrimaryTopicOf

---
 rdftk_names/src/foaf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/foaf.rs b/rdftk_names/src/foaf.rs
index eada607..592913b 100644
--- a/rdftk_names/src/foaf.rs
+++ b/rdftk_names/src/foaf.rs
@@ -22,7 +22,7 @@ namespace! {
         made, "made",
         maker, "maker",
         primary_topic, "primaryTopic",
-        primary_topic_of, "primaryTopicOf",
+        primary_topic_of, "isPrimaryTopicOf",
         project, "Project",
         organization, "Organization",
         group, "Group",
-- 
2.43.0


From d7496e64b1e41f89534a39df38632fea98499e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 57/88] fix: xsd::entity names xsd:ENTITY

---
 rdftk_names/src/xsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/xsd.rs b/rdftk_names/src/xsd.rs
index 61ed016..a29e27f 100644
--- a/rdftk_names/src/xsd.rs
+++ b/rdftk_names/src/xsd.rs
@@ -14,7 +14,7 @@ namespace! {
         day_time_duration, "dayTimeDuration",
         decimal, "decimal",
         duration, "duration",
-        entity, "entity",
+        entity, "ENTITY",
         g_day, "gDay",
         g_month, "gMonth",
         g_month_day, "gMonthDay",
-- 
2.43.0


From 899c696a1b6abf3121d7560aec4ac64213a876a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 58/88] fix: the N-Quads reader accepts statements in the
 default graph

---
 rdftk_io/src/common/parser/nquads.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/parser/nquads.rs b/rdftk_io/src/common/parser/nquads.rs
index fb0c4ce..564bc74 100644
--- a/rdftk_io/src/common/parser/nquads.rs
+++ b/rdftk_io/src/common/parser/nquads.rs
@@ -56,7 +56,10 @@ fn nquad(input_pair: Pair<'_, Rule>, data_set: &mut DataSet) -> Result<(), Error
         let predicate: Iri = nt_predicate(inner_pairs.next().unwrap())?;
         let object: ObjectNode = nt_object(inner_pairs.next().unwrap())?;
         let statement: Statement = Statement::new(subject, predicate, object);
-        let graph: &mut Graph = if let Some(new_inner_pair) = inner_pairs.next() {
+        let name_pair = inner_pairs
+            .next()
+            .filter(|pair| pair.as_rule() == Rule::ntripleSubject);
+        let graph: &mut Graph = if let Some(new_inner_pair) = name_pair {
             let graph_name = subject_to_graph_name(nt_subject(new_inner_pair)?);
             if let Some(graph) = data_set.graph_mut(&Some(graph_name.clone())) {
                 graph
-- 
2.43.0


From b4a68966051c6601f905f8ee2483a8ffc946892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 59/88] fix: an IRIREF may not contain '<'

---
 rdftk_io/src/common/common.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/common/common.pest b/rdftk_io/src/common/common.pest
index 336e33d..d4a0c5a 100644
--- a/rdftk_io/src/common/common.pest
+++ b/rdftk_io/src/common/common.pest
@@ -319,7 +319,7 @@ IRIREF_INNER = @{
 
 IRIREF_CHAR = {
     /* #x00=NULL #01-#x1F=control codes #x20=space */
-    !(">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
+    !("<" | ">" | '\u{0000}'..'\u{0020}' | "\"" | "{" | "}" | "|" | "^" | "`" | "\\") ~ ANY
   | UCHAR
 }
 
-- 
2.43.0


From bd1a0db37bf1a438073bc67c242640d60a75bb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:39 +0000
Subject: [PATCH 60/88] fix: RDF/XML elements nested in one with another
 default namespace keep their own

---
 rdftk_io/src/xml/writer.rs | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index e538d8a..e6f185e 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -172,22 +172,29 @@ impl ObjectWriter<Graph> for XmlWriter {
             .map_err(xml_error)?;
 
         let graph = graph.simplify()?;
+        let mappings = self.mappings_for(&graph)?;
 
         if self.options.style == XmlStyle::Flat {
             for subject in graph.subjects() {
-                self.write_subject(&mut writer, &graph, subject, &mut Default::default())?;
+                self.write_subject(
+                    &mut writer,
+                    &graph,
+                    &mappings,
+                    subject,
+                    &mut Default::default(),
+                )?;
             }
         } else {
             let mut nested = nested_blanks(&graph);
             for subject in graph.subjects() {
                 if !subject.as_blank().is_some_and(|b| nested.contains(b)) {
-                    self.write_subject(&mut writer, &graph, subject, &mut nested)?;
+                    self.write_subject(&mut writer, &graph, &mappings, subject, &mut nested)?;
                 }
             }
             // What is left is nested only in itself, so something has to be written first.
             for subject in graph.subjects() {
                 if subject.as_blank().is_some_and(|b| nested.remove(b)) {
-                    self.write_subject(&mut writer, &graph, subject, &mut nested)?;
+                    self.write_subject(&mut writer, &graph, &mappings, subject, &mut nested)?;
                 }
             }
         }
@@ -240,10 +247,22 @@ impl XmlWriter {
         mappings
     }
 
+    /// Every namespace has a prefix of its own, nested elements may not redefine one in scope.
+    fn mappings_for(&self, graph: &Graph) -> Result<HashMap<String, String>, Error> {
+        let mut mappings = self.mappings.clone();
+        for predicate in graph.predicates() {
+            let (ns, _) = split_uri(predicate)?;
+            let prefix = format!("ns{}", mappings.len());
+            mappings.entry(ns).or_insert(prefix);
+        }
+        Ok(mappings)
+    }
+
     fn write_subject<W: Write>(
         &self,
         writer: &mut EventWriter<W>,
         graph: &Graph,
+        mappings: &HashMap<String, String>,
         subject: &SubjectNode,
         nested: &mut HashSet<BlankNode>,
     ) -> Result<(), Error> {
@@ -269,14 +288,9 @@ impl XmlWriter {
             let (ns, local_name) = split_uri(predicate)?;
 
             for object in graph.objects_for(subject, predicate) {
-                let name: String;
-                let mut element = if let Some(prefix) = self.mappings.get(&ns) {
-                    name = format!("{}:{}", prefix, local_name);
-                    XmlEvent::start_element(name.as_str()).ns(prefix, &ns)
-                } else {
-                    name = local_name.clone();
-                    XmlEvent::start_element(name.as_str()).default_ns(&ns)
-                };
+                let prefix = &mappings[&ns];
+                let name = format!("{}:{}", prefix, local_name);
+                let mut element = XmlEvent::start_element(name.as_str()).ns(prefix, &ns);
 
                 if let Some(iri) = object.as_resource() {
                     let iri = format!("{iri:#}");
@@ -285,7 +299,7 @@ impl XmlWriter {
                 } else if let Some(blank) = object.as_blank() {
                     if nested.remove(blank) {
                         writer.write(element).map_err(xml_error)?;
-                        self.write_subject(writer, graph, &blank.clone().into(), nested)?;
+                        self.write_subject(writer, graph, mappings, &blank.clone().into(), nested)?;
                     } else {
                         element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
                         writer.write(element).map_err(xml_error)?;
-- 
2.43.0


From 5069ed940e6256e9a353eeed41edd1e9ca393aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 61/88] fix: xml:lang and xml:base apply to all of an RDF/XML
 element's content

---
 rdftk_io/src/xml/reader.rs | 100 +++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 37 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index b21f1f2..f700fa1 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -58,13 +58,23 @@ enum ObjectContent {
     Text(String),
 }
 
+///
+/// The values of attributes that apply to the content of an element as well.
+///
+#[derive(Clone, Debug, Default)]
+struct Scope {
+    base: Option<Iri>,
+    language: Option<LanguageTag>,
+}
+
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
     parse_type: Option<ParseType>,
     uri_base: Option<Iri>,
     data_type: Option<Iri>,
-    language: Option<LanguageTag>,
+    /// `Some(None)` where the language of outer elements does not apply.
+    language: Option<Option<LanguageTag>>,
     resource: Option<Iri>,
     node_type: Option<Iri>,
     inner: Vec<&'a OwnedAttribute>,
@@ -101,6 +111,26 @@ impl ExpectedName {
     }
 }
 
+impl Scope {
+    /// The scope of an element, in this scope, with the given attributes.
+    fn within(&self, attributes: &Attributes<'_>) -> Self {
+        Self {
+            base: attributes.uri_base.clone().or_else(|| self.base.clone()),
+            language: attributes
+                .language
+                .clone()
+                .unwrap_or_else(|| self.language.clone()),
+        }
+    }
+
+    fn literal(&self, value: &str) -> Literal {
+        match &self.language {
+            Some(language) => Literal::with_language(value, language.clone()),
+            None => Literal::plain(value),
+        }
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Private Functions
 // ------------------------------------------------------------------------------------------------
@@ -156,7 +186,11 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
                 trace_event!("parse_document" => event);
                 let attributes = parse_attributes(attributes)?;
                 if rdf_element.matches(name) {
-                    parse_subject_element(event_reader, &attributes.uri_base, &mut graph)?;
+                    parse_subject_element(
+                        event_reader,
+                        &Scope::default().within(&attributes),
+                        &mut graph,
+                    )?;
                 } else {
                     error_event!(state => "parse_document", "expecting rdf:RDF");
                 }
@@ -173,7 +207,7 @@ fn parse_document<R: Read>(event_reader: &mut EventReader<&mut R>) -> Result<Gra
 
 fn parse_subject_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<(), Error> {
     loop {
@@ -189,7 +223,7 @@ fn parse_subject_element<R: Read>(
                     event_reader,
                     name,
                     &parse_attributes(attributes)?,
-                    xml_base,
+                    scope,
                     graph,
                 )?;
             }
@@ -213,15 +247,11 @@ fn parse_node_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
     name: &OwnedName,
     attributes: &Attributes<'_>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<SubjectNode, Error> {
     let description_element = ExpectedName::new(ELEMENT_DESCRIPTION, rdf::namespace_str());
-    let xml_base = if attributes.uri_base.is_some() {
-        &attributes.uri_base
-    } else {
-        xml_base
-    };
+    let scope = &scope.within(attributes);
     let subject_node: SubjectNode = match &attributes.subject_type {
         None => {
             // SPEC: §2.1 Introduction
@@ -233,7 +263,7 @@ fn parse_node_element<R: Read>(
         }
         Some(SubjectType::RelativeResource(subject)) => {
             // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            if let Some(xml_base) = xml_base {
+            if let Some(xml_base) = &scope.base {
                 xml_base.with_new_fragment(subject).into()
             } else {
                 error_event!(state => "parse_node_element", "rdf:ID without xml:base");
@@ -252,8 +282,8 @@ fn parse_node_element<R: Read>(
             name_to_iri(name)?,
         ));
     }
-    parse_predicate_attributes(attributes, &subject_node, graph)?;
-    parse_predicate_element(event_reader, xml_base, &subject_node, graph)?;
+    parse_predicate_attributes(attributes, scope, &subject_node, graph)?;
+    parse_predicate_element(event_reader, scope, &subject_node, graph)?;
     Ok(subject_node)
 }
 
@@ -273,6 +303,7 @@ fn value_to_iri(name: &str) -> Result<Iri, Error> {
 
 fn parse_predicate_attributes(
     attributes: &Attributes<'_>,
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -286,7 +317,8 @@ fn parse_predicate_attributes(
         graph.insert(Statement::new(
             subject.clone(),
             name_to_iri(&attribute.name)?,
-            Literal::plain(&attribute.value),
+            // SPEC: §2.7 Languages: xml:lang
+            scope.literal(&attribute.value),
         ));
     }
     if let Some(node_type) = &attributes.node_type {
@@ -301,7 +333,7 @@ fn parse_predicate_attributes(
 
 fn parse_predicate_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
@@ -315,6 +347,7 @@ fn parse_predicate_element<R: Read>(
             }) => {
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes)?;
+                let scope = &scope.within(&attributes);
                 let object: Option<SubjectNode> = if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
                     Some(resource.clone().into())
@@ -333,11 +366,11 @@ fn parse_predicate_element<R: Read>(
                         name_to_iri(name)?,
                         object.to_object(),
                     ));
-                    parse_predicate_attributes(&attributes, &object, graph)?;
+                    parse_predicate_attributes(&attributes, scope, &object, graph)?;
                     parse_empty_element(event_reader)?;
                 } else {
                     match attributes.parse_type {
-                        None => match parse_object_element(event_reader, xml_base, graph)? {
+                        None => match parse_object_element(event_reader, scope, graph)? {
                             ObjectContent::Node(node) => {
                                 // SPEC: §2.2 Node Elements and Property Elements
                                 graph.insert(Statement::new(
@@ -350,11 +383,9 @@ fn parse_predicate_element<R: Read>(
                                 let literal = if let Some(data_type) = attributes.data_type {
                                     // SPEC: §2.9 Typed Literals: rdf:datatype
                                     Literal::with_data_type(&content, DataType::from(data_type))
-                                } else if let Some(language) = attributes.language {
-                                    // SPEC: §2.7 Languages: xml:lang
-                                    Literal::with_language(&content, language)
                                 } else {
-                                    Literal::plain(&content)
+                                    // SPEC: §2.7 Languages: xml:lang
+                                    scope.literal(&content)
                                 };
                                 graph.insert(Statement::new(
                                     subject.clone(),
@@ -380,21 +411,12 @@ fn parse_predicate_element<R: Read>(
                                 name_to_iri(name)?,
                                 subject_node.to_object(),
                             ));
-                            parse_predicate_element(
-                                event_reader,
-                                if attributes.uri_base.is_some() {
-                                    &attributes.uri_base
-                                } else {
-                                    xml_base
-                                },
-                                &subject_node,
-                                graph,
-                            )?;
+                            parse_predicate_element(event_reader, scope, &subject_node, graph)?;
                         }
                         Some(ParseType::Collection) => {
                             // SPEC: §2.16 Collections: rdf:parseType="Collection"
                             let mut list: SubjectNode = rdf::nil().clone().into();
-                            for node in parse_collection_element(event_reader, xml_base, graph)?
+                            for node in parse_collection_element(event_reader, scope, graph)?
                                 .into_iter()
                                 .rev()
                             {
@@ -437,7 +459,7 @@ fn parse_predicate_element<R: Read>(
 /// Read the node elements up to, and including, the end of an element.
 fn parse_collection_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<Vec<SubjectNode>, Error> {
     let mut nodes = Vec::new();
@@ -454,7 +476,7 @@ fn parse_collection_element<R: Read>(
                     event_reader,
                     name,
                     &parse_attributes(attributes)?,
-                    xml_base,
+                    scope,
                     graph,
                 )?);
             }
@@ -501,7 +523,7 @@ fn parse_empty_element<R: Read>(event_reader: &mut EventReader<&mut R>) -> Resul
 
 fn parse_object_element<R: Read>(
     event_reader: &mut EventReader<&mut R>,
-    xml_base: &Option<Iri>,
+    scope: &Scope,
     graph: &mut Graph,
 ) -> Result<ObjectContent, Error> {
     let mut content = String::new();
@@ -527,7 +549,7 @@ fn parse_object_element<R: Read>(
                     event_reader,
                     name,
                     &parse_attributes(attributes)?,
-                    xml_base,
+                    scope,
                     graph,
                 )?);
             }
@@ -636,7 +658,11 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             if attribute.name.local_name == ATTRIBUTE_XML_BASE {
                 response.uri_base = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_XML_LANG {
-                response.language = Some(LanguageTag::from_str(&attribute.value)?);
+                response.language = Some(if attribute.value.is_empty() {
+                    None
+                } else {
+                    Some(LanguageTag::from_str(&attribute.value)?)
+                });
             }
         } else if attribute.name.namespace == Some(rdf::namespace_str().to_string()) {
             if attribute.name.local_name == ATTRIBUTE_ABOUT {
-- 
2.43.0


From 8b75e7f5ecb1dba263d8d099f7201470e379eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 62/88] fix: the RDF/XML reader numbers the members of a
 container

---
 rdftk_io/src/xml/reader.rs | 24 +++++++++++++++++-------
 rdftk_io/src/xml/syntax.rs |  1 +
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index f700fa1..6ad45d4 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -1,7 +1,8 @@
 use crate::xml::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_ID, ATTRIBUTE_NODE_ID, ATTRIBUTE_PARSE_TYPE,
     ATTRIBUTE_RESOURCE, ATTRIBUTE_TYPE, ATTRIBUTE_XML_BASE, ATTRIBUTE_XML_LANG,
-    ELEMENT_DESCRIPTION, ELEMENT_RDF, PARSE_TYPE_COLLECTION, PARSE_TYPE_RESOURCE, XML_NAMESPACE,
+    ELEMENT_DESCRIPTION, ELEMENT_LIST_ITEM, ELEMENT_RDF, PARSE_TYPE_COLLECTION,
+    PARSE_TYPE_RESOURCE, XML_NAMESPACE,
 };
 use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
@@ -337,6 +338,8 @@ fn parse_predicate_element<R: Read>(
     subject: &SubjectNode,
     graph: &mut Graph,
 ) -> Result<(), Error> {
+    let list_item = ExpectedName::new(ELEMENT_LIST_ITEM, rdf::namespace_str());
+    let mut members = 0;
     loop {
         let event = event_reader.next();
         match &event {
@@ -348,6 +351,13 @@ fn parse_predicate_element<R: Read>(
                 trace_event!("parse_predicate_element" => event);
                 let attributes = parse_attributes(attributes)?;
                 let scope = &scope.within(&attributes);
+                let predicate = if list_item.matches(name) {
+                    // SPEC: §2.15 Container Membership Property Elements: rdf:li and rdf:_n
+                    members += 1;
+                    rdf::member(members)
+                } else {
+                    name_to_iri(name)?
+                };
                 let object: Option<SubjectNode> = if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
                     Some(resource.clone().into())
@@ -363,7 +373,7 @@ fn parse_predicate_element<R: Read>(
                 if let Some(object) = object {
                     graph.insert(Statement::new(
                         subject.clone(),
-                        name_to_iri(name)?,
+                        predicate.clone(),
                         object.to_object(),
                     ));
                     parse_predicate_attributes(&attributes, scope, &object, graph)?;
@@ -375,7 +385,7 @@ fn parse_predicate_element<R: Read>(
                                 // SPEC: §2.2 Node Elements and Property Elements
                                 graph.insert(Statement::new(
                                     subject.clone(),
-                                    name_to_iri(name)?,
+                                    predicate.clone(),
                                     node.to_object(),
                                 ));
                             }
@@ -389,7 +399,7 @@ fn parse_predicate_element<R: Read>(
                                 };
                                 graph.insert(Statement::new(
                                     subject.clone(),
-                                    name_to_iri(name)?,
+                                    predicate.clone(),
                                     literal,
                                 ));
                             }
@@ -399,7 +409,7 @@ fn parse_predicate_element<R: Read>(
                             let content = parse_xml_literal_element(event_reader)?;
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate.clone(),
                                 Literal::with_data_type(&content, DataType::XmlLiteral),
                             ));
                         }
@@ -408,7 +418,7 @@ fn parse_predicate_element<R: Read>(
                             let subject_node: SubjectNode = BlankNode::generate().into();
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate.clone(),
                                 subject_node.to_object(),
                             ));
                             parse_predicate_element(event_reader, scope, &subject_node, graph)?;
@@ -435,7 +445,7 @@ fn parse_predicate_element<R: Read>(
                             }
                             graph.insert(Statement::new(
                                 subject.clone(),
-                                name_to_iri(name)?,
+                                predicate.clone(),
                                 list.to_object(),
                             ));
                         }
diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index fbf1ffe..5cdda23 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -22,6 +22,7 @@ pub(super) const ATTRIBUTE_XML_LANG: &str = "lang";
 pub(super) const ATTRIBUTE_XML_LANG_PREFIXED: &str = "xml:lang";
 
 pub(super) const ELEMENT_DESCRIPTION: &str = "Description";
+pub(super) const ELEMENT_LIST_ITEM: &str = "li";
 pub(super) const ELEMENT_RDF: &str = "RDF";
 
 pub(super) const PARSE_TYPE_COLLECTION: &str = "Collection";
-- 
2.43.0


From 596cbdfbad3f7854738eac0a5e4b03b6f42f8d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 63/88] fix: rdf:ID on a property element reifies its statement

---
 rdftk_io/src/xml/reader.rs | 109 +++++++++++++++++++++++--------------
 1 file changed, 68 insertions(+), 41 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 6ad45d4..8d127a8 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -8,7 +8,7 @@ use objio::ObjectReader;
 use rdftk_core::error::{invalid_qname_error, invalid_state_error, Error};
 use rdftk_core::model::graph::Graph;
 use rdftk_core::model::literal::{DataType, LanguageTag, Literal};
-use rdftk_core::model::statement::{BlankNode, Statement, SubjectNode};
+use rdftk_core::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
 use rdftk_iri::Iri;
 use rdftk_names::rdf;
 use std::io::Read;
@@ -43,7 +43,6 @@ struct ExpectedName {
 enum SubjectType {
     BlankNamed(String),
     Resource(Iri),
-    RelativeResource(String),
 }
 
 #[derive(Clone, Debug)]
@@ -71,6 +70,7 @@ struct Scope {
 #[derive(Clone, Debug)]
 struct Attributes<'a> {
     subject_type: Option<SubjectType>,
+    id: Option<&'a str>,
     parse_type: Option<ParseType>,
     uri_base: Option<Iri>,
     data_type: Option<Iri>,
@@ -255,21 +255,18 @@ fn parse_node_element<R: Read>(
     let scope = &scope.within(attributes);
     let subject_node: SubjectNode = match &attributes.subject_type {
         None => {
-            // SPEC: §2.1 Introduction
-            BlankNode::generate().into()
+            if let Some(id) = attributes.id {
+                // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
+                local_resource(id, scope)?.into()
+            } else {
+                // SPEC: §2.1 Introduction
+                BlankNode::generate().into()
+            }
         }
         Some(SubjectType::Resource(subject)) => {
             // SPEC: §2.2 Node Elements and Property Elements
             subject.clone().into()
         }
-        Some(SubjectType::RelativeResource(subject)) => {
-            // SPEC: 2.14 Abbreviating URIs: rdf:ID and xml:base
-            if let Some(xml_base) = &scope.base {
-                xml_base.with_new_fragment(subject).into()
-            } else {
-                error_event!(state => "parse_node_element", "rdf:ID without xml:base");
-            }
-        }
         Some(SubjectType::BlankNamed(subject)) => {
             // SPEC: §2.10 Identifying Blank Nodes: rdf:nodeID
             BlankNode::from_str(subject)?.into()
@@ -297,6 +294,38 @@ fn name_to_iri(name: &OwnedName) -> Result<Iri, Error> {
     }
 }
 
+fn local_resource(id: &str, scope: &Scope) -> Result<Iri, Error> {
+    if let Some(xml_base) = &scope.base {
+        Ok(xml_base.with_new_fragment(id))
+    } else {
+        error_event!(state => "local_resource", "rdf:ID without xml:base");
+    }
+}
+
+/// Insert the statement a property element makes and, if that has an rdf:ID, its reification.
+fn insert_property<O: Into<ObjectNode>>(
+    subject: &SubjectNode,
+    predicate: &Iri,
+    object: O,
+    reified: &Option<Iri>,
+    graph: &mut Graph,
+) {
+    let object = object.into();
+    if let Some(reified) = reified {
+        // SPEC: §2.17 Reifying Statements: rdf:ID
+        let parts: [(&Iri, ObjectNode); 4] = [
+            (rdf::a_type(), rdf::statement().into()),
+            (rdf::subject(), subject.to_object()),
+            (rdf::predicate(), predicate.into()),
+            (rdf::object(), object.clone()),
+        ];
+        for (name, part) in parts {
+            graph.insert(Statement::new(reified, name.clone(), part));
+        }
+    }
+    graph.insert(Statement::new(subject.clone(), predicate.clone(), object));
+}
+
 #[inline]
 fn value_to_iri(name: &str) -> Result<Iri, Error> {
     Ok(Iri::from_str(name)?)
@@ -358,6 +387,10 @@ fn parse_predicate_element<R: Read>(
                 } else {
                     name_to_iri(name)?
                 };
+                let reified = match attributes.id {
+                    Some(id) => Some(local_resource(id, scope)?),
+                    None => None,
+                };
                 let object: Option<SubjectNode> = if let Some(resource) = &attributes.resource {
                     // SPEC: §2.4 Empty Property Elements
                     Some(resource.clone().into())
@@ -371,11 +404,7 @@ fn parse_predicate_element<R: Read>(
                     None
                 };
                 if let Some(object) = object {
-                    graph.insert(Statement::new(
-                        subject.clone(),
-                        predicate.clone(),
-                        object.to_object(),
-                    ));
+                    insert_property(subject, &predicate, object.to_object(), &reified, graph);
                     parse_predicate_attributes(&attributes, scope, &object, graph)?;
                     parse_empty_element(event_reader)?;
                 } else {
@@ -383,11 +412,13 @@ fn parse_predicate_element<R: Read>(
                         None => match parse_object_element(event_reader, scope, graph)? {
                             ObjectContent::Node(node) => {
                                 // SPEC: §2.2 Node Elements and Property Elements
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    predicate.clone(),
+                                insert_property(
+                                    subject,
+                                    &predicate,
                                     node.to_object(),
-                                ));
+                                    &reified,
+                                    graph,
+                                );
                             }
                             ObjectContent::Text(content) => {
                                 let literal = if let Some(data_type) = attributes.data_type {
@@ -397,30 +428,30 @@ fn parse_predicate_element<R: Read>(
                                     // SPEC: §2.7 Languages: xml:lang
                                     scope.literal(&content)
                                 };
-                                graph.insert(Statement::new(
-                                    subject.clone(),
-                                    predicate.clone(),
-                                    literal,
-                                ));
+                                insert_property(subject, &predicate, literal, &reified, graph);
                             }
                         },
                         Some(ParseType::XmlLiteral) => {
                             // SPEC: §2.8 XML Literals: rdf:parseType="Literal"
                             let content = parse_xml_literal_element(event_reader)?;
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate.clone(),
+                            insert_property(
+                                subject,
+                                &predicate,
                                 Literal::with_data_type(&content, DataType::XmlLiteral),
-                            ));
+                                &reified,
+                                graph,
+                            );
                         }
                         Some(ParseType::Resource) => {
                             // SPEC: §2.11 Omitting Blank Nodes: rdf:parseType="Resource"
                             let subject_node: SubjectNode = BlankNode::generate().into();
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate.clone(),
+                            insert_property(
+                                subject,
+                                &predicate,
                                 subject_node.to_object(),
-                            ));
+                                &reified,
+                                graph,
+                            );
                             parse_predicate_element(event_reader, scope, &subject_node, graph)?;
                         }
                         Some(ParseType::Collection) => {
@@ -443,11 +474,7 @@ fn parse_predicate_element<R: Read>(
                                 ));
                                 list = item;
                             }
-                            graph.insert(Statement::new(
-                                subject.clone(),
-                                predicate.clone(),
-                                list.to_object(),
-                            ));
+                            insert_property(subject, &predicate, list.to_object(), &reified, graph);
                         }
                     }
                 }
@@ -654,6 +681,7 @@ fn xml_literal_error(e: xml::writer::Error) -> Error {
 fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Error> {
     let mut response = Attributes {
         subject_type: None,
+        id: None,
         parse_type: None,
         uri_base: None,
         data_type: None,
@@ -681,8 +709,7 @@ fn parse_attributes(attributes: &[OwnedAttribute]) -> Result<Attributes<'_>, Err
             } else if attribute.name.local_name == ATTRIBUTE_NODE_ID {
                 response.subject_type = Some(SubjectType::BlankNamed(attribute.value.to_string()));
             } else if attribute.name.local_name == ATTRIBUTE_ID {
-                response.subject_type =
-                    Some(SubjectType::RelativeResource(attribute.value.to_string()));
+                response.id = Some(&attribute.value);
             } else if attribute.name.local_name == ATTRIBUTE_RESOURCE {
                 response.resource = Some(value_to_iri(&attribute.value)?);
             } else if attribute.name.local_name == ATTRIBUTE_DATATYPE {
-- 
2.43.0


From 914a25ff8ae6f42be127531306b60773628fe875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 64/88] fix: an RDF/XML document has one root element

---
 rdftk_io/src/xml/reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/reader.rs b/rdftk_io/src/xml/reader.rs
index 8d127a8..9ea2593 100644
--- a/rdftk_io/src/xml/reader.rs
+++ b/rdftk_io/src/xml/reader.rs
@@ -17,7 +17,7 @@ use tracing::{error, trace};
 use xml::attribute::OwnedAttribute;
 use xml::name::OwnedName;
 use xml::reader::XmlEvent;
-use xml::{EventReader, EventWriter};
+use xml::{EventReader, EventWriter, ParserConfig};
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -92,7 +92,10 @@ impl ObjectReader<Graph> for XmlReader {
     where
         R: Read,
     {
-        let mut event_reader = EventReader::new(r);
+        let mut event_reader = EventReader::new_with_config(
+            r,
+            ParserConfig::new().allow_multiple_root_elements(false),
+        );
         parse_document(&mut event_reader)
     }
 }
-- 
2.43.0


From fa55534f70e1a731b04694b4ff3c885512a39397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 65/88] fix: the values of rdf:nodeID written as RDF/XML are
 XML names

---
 rdftk_io/src/xml/writer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index e6f185e..a5e131f 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -270,7 +270,7 @@ impl XmlWriter {
             writer
                 .write(
                     XmlEvent::start_element(RDF_DESCRIPTION.as_str())
-                        .attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref()),
+                        .attr(RDF_NODE_ID.as_str(), &node_id(blank)),
                 )
                 .map_err(xml_error)?;
         } else if let Some(subject) = subject.as_resource() {
@@ -301,7 +301,8 @@ impl XmlWriter {
                         writer.write(element).map_err(xml_error)?;
                         self.write_subject(writer, graph, mappings, &blank.clone().into(), nested)?;
                     } else {
-                        element = element.attr(RDF_NODE_ID.as_str(), blank.as_ref().as_ref());
+                        let id = node_id(blank);
+                        element = element.attr(RDF_NODE_ID.as_str(), &id);
                         writer.write(element).map_err(xml_error)?;
                     }
                 } else if let Some(literal) = object.as_literal() {
@@ -352,6 +353,16 @@ fn xml_error(e: xml::writer::Error) -> Error {
     }
 }
 
+/// The value of `rdf:nodeID` is an XML `NCName`, which unlike a label may not start with a digit.
+fn node_id(blank: &BlankNode) -> String {
+    let label: &str = blank.as_ref().as_ref();
+    if label.starts_with(|c: char| c == '_' || c.is_ascii_digit()) {
+        format!("_{label}")
+    } else {
+        label.to_string()
+    }
+}
+
 /// Return the blank nodes to nest: the subjects that are the object of exactly one statement.
 fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
     let mut references: HashMap<BlankNode, usize> = HashMap::new();
-- 
2.43.0


From 97db763bb0e48e0512132c8fc3c2b13b539c3005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 66/88] fix: the objects of edges written as DOT have the
 prefix of nodes

---
 rdftk_io/src/dot/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 2b31354..5bd91a7 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -291,9 +291,10 @@ impl ObjectWriter<Graph> for DotWriter {
         for statement in graph.statements() {
             writeln!(
                 w,
-                "    \"{}{}\" -> \"node_{}\" [label=\"{}\"];",
+                "    \"{}{}\" -> \"{}{}\" [label=\"{}\"];",
                 self.options.node_prefix,
                 self.subject_id(statement.subject()),
+                self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
                     None => format!("{:#}", statement.predicate()),
-- 
2.43.0


From edbab24aea6c1b7c23f8e56fe3f7cb139a862e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 67/88] fix: the DOT of a graph does not have the nodes of one
 written before

---
 rdftk_io/src/dot/writer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 5bd91a7..dd1559d 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -281,6 +281,8 @@ impl ObjectWriter<Graph> for DotWriter {
     where
         W: Write,
     {
+        self.nodes.borrow_mut().clear();
+
         writeln!(w, "digraph {{\n    rankdir=BT\n    charset=\"utf-8\";")?;
 
         // TODO: emit graph name
-- 
2.43.0


From 6228b6d497605d096d7c54aee591bdcdba1a0155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 68/88] fix: nested statements, and collections, have nodes of
 their own in DOT

---
 rdftk_io/src/dot/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index dd1559d..98acffd 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -289,6 +289,7 @@ impl ObjectWriter<Graph> for DotWriter {
 
         writeln!(w)?;
 
+        let graph = graph.simplify()?;
         let mappings = graph.prefix_mappings();
         for statement in graph.statements() {
             writeln!(
-- 
2.43.0


From df33735c5ac05b65d8347f9cb0d4eeb055329780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 69/88] fix: nodes written as DOT are one only if their terms
 are equal

---
 rdftk_io/src/dot/writer.rs | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 98acffd..53cc44a 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -43,7 +43,7 @@ pub struct DotOptions {
 ///
 #[derive(Debug, Default)]
 pub struct DotWriter {
-    nodes: RefCell<HashMap<String, Node>>,
+    nodes: RefCell<HashMap<ObjectNode, Node>>,
     options: DotOptions,
 }
 
@@ -378,43 +378,18 @@ impl DotWriter {
     }
 
     fn subject_id(&self, node: &SubjectNode) -> String {
-        let mut nodes = self.nodes.borrow_mut();
-        if let Some(node) = nodes.get(&node.to_string()) {
-            node.id.clone()
-        } else {
-            let id = format!("{}", nodes.len() + 1);
-            if node.is_blank() {
-                let _ = nodes.insert(
-                    node.to_string(),
-                    Node {
-                        id: id.clone(),
-                        kind: NodeKind::Blank,
-                        label: node.as_blank().unwrap().as_ref().into(),
-                    },
-                );
-            } else if node.is_resource() {
-                let _ = nodes.insert(
-                    node.to_string(),
-                    Node {
-                        id: id.clone(),
-                        kind: NodeKind::Iri,
-                        label: format!("{:#}", node.as_resource().unwrap()),
-                    },
-                );
-            }
-            id
-        }
+        self.object_id(&node.to_object())
     }
 
     fn object_id(&self, node: &ObjectNode) -> String {
         let mut nodes = self.nodes.borrow_mut();
-        if let Some(node) = nodes.get(&node.to_string()) {
+        if let Some(node) = nodes.get(node) {
             node.id.clone()
         } else {
             let id = format!("{}", nodes.len() + 1);
             if node.is_blank() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    node.clone(),
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Blank,
@@ -423,7 +398,7 @@ impl DotWriter {
                 );
             } else if node.is_resource() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    node.clone(),
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
@@ -432,7 +407,7 @@ impl DotWriter {
                 );
             } else if node.is_literal() {
                 let _ = nodes.insert(
-                    node.to_string(),
+                    node.clone(),
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Literal,
-- 
2.43.0


From 131ae2c471f397708ac2cae8263f5cf46bfdd316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 70/88] fix: the labels of IRIs written as DOT are escaped

---
 rdftk_io/src/dot/writer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 53cc44a..27d81ca 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -300,7 +300,7 @@ impl ObjectWriter<Graph> for DotWriter {
                 self.options.node_prefix,
                 self.object_id(statement.object()),
                 match mappings.compress(statement.predicate()) {
-                    None => format!("{:#}", statement.predicate()),
+                    None => escaped(&format!("{:#}", statement.predicate())),
                     Some(qname) => qname.to_string(),
                 }
             )?;
@@ -402,7 +402,7 @@ impl DotWriter {
                     Node {
                         id: id.clone(),
                         kind: NodeKind::Iri,
-                        label: format!("{:#}", node.as_resource().unwrap()),
+                        label: escaped(&format!("{:#}", node.as_resource().unwrap())),
                     },
                 );
             } else if node.is_literal() {
@@ -419,3 +419,12 @@ impl DotWriter {
         }
     }
 }
+
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
+
+/// Escape the text of an IRI, the lexical form of a literal is already.
+fn escaped(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('"', "\\\"")
+}
-- 
2.43.0


From 247c9af2391a995dbd965365683c1e0ad0de8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:51 +0000
Subject: [PATCH 71/88] fix: the labels of records written as DOT have no
 fields

---
 rdftk_io/src/dot/writer.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/dot/writer.rs b/rdftk_io/src/dot/writer.rs
index 27d81ca..960350b 100644
--- a/rdftk_io/src/dot/writer.rs
+++ b/rdftk_io/src/dot/writer.rs
@@ -340,7 +340,7 @@ impl ObjectWriter<Graph> for DotWriter {
                         self.options.node_prefix,
                         node.id,
                         node.label,
-                        node.label,
+                        label_for(&self.options.iri_shape, &node.label),
                         self.options.iri_shape,
                         self.options.iri_color
                     )?;
@@ -351,7 +351,7 @@ impl ObjectWriter<Graph> for DotWriter {
                         "    \"{}{}\" [label=\"{}\",shape={},color={}];",
                         self.options.node_prefix,
                         node.id,
-                        node.label,
+                        label_for(&self.options.literal_shape, &node.label),
                         self.options.literal_shape,
                         self.options.literal_color
                     )?;
@@ -428,3 +428,18 @@ impl DotWriter {
 fn escaped(text: &str) -> String {
     text.replace('\\', "\\\\").replace('"', "\\\"")
 }
+
+/// Escape the characters that delimit the fields of a record.
+fn label_for(shape: &str, label: &str) -> String {
+    if !shape.ends_with("record") {
+        return label.to_string();
+    }
+    let mut escaped = String::with_capacity(label.len());
+    for c in label.chars() {
+        if matches!(c, '{' | '}' | '|' | '<' | '>') {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped
+}
-- 
2.43.0


From 0e9020e2df1c044a2ad710703f4b24dd17908527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 72/88] fix: nested blank nodes are written once in striped
 RDF/XML

---
 rdftk_io/src/xml/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index a5e131f..148d5a1 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -185,9 +185,10 @@ impl ObjectWriter<Graph> for XmlWriter {
                 )?;
             }
         } else {
-            let mut nested = nested_blanks(&graph);
+            let to_nest = nested_blanks(&graph);
+            let mut nested = to_nest.clone();
             for subject in graph.subjects() {
-                if !subject.as_blank().is_some_and(|b| nested.contains(b)) {
+                if !subject.as_blank().is_some_and(|b| to_nest.contains(b)) {
                     self.write_subject(&mut writer, &graph, &mappings, subject, &mut nested)?;
                 }
             }
-- 
2.43.0


From 33f0a952f488e254e468d6164dc1c321b1eb9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 73/88] fix: names that are RDF/XML syntax are not written as
 properties

---
 rdftk_io/src/xml/syntax.rs | 15 +++++++++++++++
 rdftk_io/src/xml/writer.rs | 11 +++++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/rdftk_io/src/xml/syntax.rs b/rdftk_io/src/xml/syntax.rs
index 5cdda23..0bed029 100644
--- a/rdftk_io/src/xml/syntax.rs
+++ b/rdftk_io/src/xml/syntax.rs
@@ -25,6 +25,21 @@ pub(super) const ELEMENT_DESCRIPTION: &str = "Description";
 pub(super) const ELEMENT_LIST_ITEM: &str = "li";
 pub(super) const ELEMENT_RDF: &str = "RDF";
 
+/// The names in the RDF namespace that may not be those of property elements.
+pub(super) const SYNTAX_NAMES: &[&str] = &[
+    ELEMENT_RDF,
+    ELEMENT_DESCRIPTION,
+    ELEMENT_LIST_ITEM,
+    ATTRIBUTE_ABOUT,
+    ATTRIBUTE_DATATYPE,
+    ATTRIBUTE_ID,
+    ATTRIBUTE_NODE_ID,
+    ATTRIBUTE_PARSE_TYPE,
+    ATTRIBUTE_RESOURCE,
+    "aboutEach",
+    "aboutEachPrefix",
+    "bagID",
+];
 pub(super) const PARSE_TYPE_COLLECTION: &str = "Collection";
 pub(super) const PARSE_TYPE_LITERAL: &str = "Literal";
 pub(super) const PARSE_TYPE_RESOURCE: &str = "Resource";
diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 148d5a1..4a5b9ec 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -1,6 +1,6 @@
 use super::syntax::{
     ATTRIBUTE_ABOUT, ATTRIBUTE_DATATYPE, ATTRIBUTE_NODE_ID, ATTRIBUTE_RESOURCE, DEFAULT_ENCODING,
-    ELEMENT_DESCRIPTION, ELEMENT_RDF,
+    ELEMENT_DESCRIPTION, ELEMENT_RDF, SYNTAX_NAMES,
 };
 use crate::xml::syntax::ATTRIBUTE_XML_LANG_PREFIXED;
 use crate::GraphWriter;
@@ -378,9 +378,16 @@ fn nested_blanks(graph: &Graph) -> HashSet<BlankNode> {
         .collect()
 }
 
-/// Split the IRI of a property before the longest suffix that is an XML `NCName`.
+/// Split the IRI of a property before the longest suffix that is an XML `NCName`. Some names are
+/// part of the syntax, and so are not names of properties.
 fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     let iri = format!("{iri:#}");
+    if iri
+        .strip_prefix(rdf::namespace_str())
+        .is_some_and(|name| SYNTAX_NAMES.contains(&name))
+    {
+        return Err(Error::InvalidQName { name: iri });
+    }
     let name = iri.trim_end_matches(is_name_char).len();
     let name = iri[name..]
         .find(is_name_start_char)
-- 
2.43.0


From 9bb3fbb334ff0d490720883df8933559987a5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 74/88] fix: text that XML cannot express is not written

---
 rdftk_io/src/xml/writer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rdftk_io/src/xml/writer.rs b/rdftk_io/src/xml/writer.rs
index 4a5b9ec..9774374 100644
--- a/rdftk_io/src/xml/writer.rs
+++ b/rdftk_io/src/xml/writer.rs
@@ -322,8 +322,15 @@ impl XmlWriter {
                     } else {
                         writer.write(element).map_err(xml_error)?;
                     }
+                    let text = literal.unescaped();
+                    if !text.chars().all(is_xml_char) {
+                        return Err(Error::Tokenizer {
+                            representation: super::NAME.into(),
+                            source: format!("no character data of XML: {text:?}").into(),
+                        });
+                    }
                     writer
-                        .write(XmlEvent::Characters(&literal.unescaped()))
+                        .write(XmlEvent::Characters(&text))
                         .map_err(xml_error)?;
                 } else {
                     return rdf_star_not_supported_error(super::NAME).into();
@@ -396,6 +403,13 @@ fn split_uri(iri: &Iri) -> Result<(String, String), Error> {
     Ok((iri[..name].to_string(), iri[name..].to_string()))
 }
 
+/// The characters that character data may have without being references.
+fn is_xml_char(c: char) -> bool {
+    matches!(c,
+        '\t' | '\n' | '\r' | ' '..='\u{7E}' | '\u{85}'
+        | '\u{A0}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
+}
+
 fn is_name_start_char(c: char) -> bool {
     matches!(c,
         'A'..='Z' | 'a'..='z' | '_'
-- 
2.43.0


From edf94ef451a2a80d6595fbdd67671e74de8b2fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 75/88] fix: the verb of a statement in Turtle is its predicate

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 52ff49f..5dbc50f 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -681,7 +681,7 @@ impl TurtleWriter {
     ) -> Result<()> {
         trace!(name: "write_verb", ?predicate, ?group, max_len, ?flags);
         // Special treatment for `rdf:type`; show it in turtle as just "a"
-        if group == PredicateGroupOrdering::Type {
+        if predicate == rdf::a_type() {
             let type_verb = if self.options.use_rdf_type_a {
                 RDF_TYPE_A.to_string()
             } else {
-- 
2.43.0


From b0aad6d6f1ff017fb2ff40ec30dfcb50db12b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 76/88] fix: literals in Turtle are escaped once

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 5dbc50f..5cc87ee 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -781,7 +781,7 @@ impl TurtleWriter {
             | Some(DataType::Double)
             | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
             _ => {
-                write!(w, "{:?}", literal.lexical_form())?;
+                write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
                     (Some(data_type), None) => {
                         write!(w, "{DATATYPE_PREFIX}")?;
-- 
2.43.0


From bec8e9c9e9b15d586b4cb94e293b3e89b72add5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 77/88] fix: the members of collections in Turtle are not
 separated by commas

---
 rdftk_io/src/turtle/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 5cc87ee..51af15d 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -893,7 +893,7 @@ impl TurtleWriter {
             for (idx, object) in collection.iter().enumerate() {
                 self.write_object(w, graph, object, flags)?;
                 if idx < collection.len() - 1 {
-                    write!(w, "{OBJECT_SEPARATOR}{SPACE_SEPARATOR}")?;
+                    write!(w, "{SPACE_SEPARATOR}")?;
                 }
             }
             if self.options.outdent_collection_end {
-- 
2.43.0


From 86d51917b2932e6e1bd32be864ffe4da932790c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 78/88] fix: IRIs in Turtle are escaped

---
 rdftk_io/src/turtle/writer.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 51af15d..8ee45ed 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -1,4 +1,10 @@
-use crate::{common::indenter::Indenter, GraphWriter};
+use crate::{
+    common::{
+        indenter::Indenter,
+        terms::{escape_iri, iri_ref},
+    },
+    GraphWriter,
+};
 use itertools::Itertools;
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::{
@@ -512,7 +518,7 @@ impl TurtleWriter {
                 } else {
                     (DECL_BASE_TTL, END_OF_STATEMENT)
                 };
-            writeln!(w, "{decl} {IRI_START}{base:#}{IRI_END}{eos}")?;
+            writeln!(w, "{decl} {}{eos}", iri_ref(base))?;
             if !self.options.use_intellij_style() {
                 writeln!(w)?;
             }
@@ -551,7 +557,8 @@ impl TurtleWriter {
                     };
                 writeln!(
                     w,
-                    "{decl} {prefix} {IRI_START}{namespace_str}{IRI_END}{eos}"
+                    "{decl} {prefix} {IRI_START}{}{IRI_END}{eos}",
+                    escape_iri(&namespace_str)
                 )?;
             }
             writeln!(w)?;
@@ -725,7 +732,7 @@ impl TurtleWriter {
                 if iri_str.starts_with(target_id_base.as_str()) {
                     return Ok(format!(
                         "{IRI_START}{}{IRI_END}",
-                        &iri_str[target_id_base.len()..]
+                        escape_iri(&iri_str[target_id_base.len()..])
                     ));
                 }
             }
@@ -733,7 +740,7 @@ impl TurtleWriter {
             if iri_str.starts_with(id_base_str.as_str()) {
                 return Ok(format!(
                     "{IRI_START}{}{IRI_END}",
-                    &iri_str[id_base_str.len()..]
+                    escape_iri(&iri_str[id_base_str.len()..])
                 ));
             }
         }
@@ -745,7 +752,7 @@ impl TurtleWriter {
         }
         let iri = Iri::from_str(iri_str.as_str())?;
         Ok(match graph.prefix_mappings().compress(&iri) {
-            None => format!("{IRI_START}{iri:#}{IRI_END}"),
+            None => iri_ref(&iri),
             Some(_qname) => format!("{_qname}"),
         })
     }
-- 
2.43.0


From c4e08fa22486d7fc66d9fe9d54b0546a7f081f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 79/88] fix: literals in Turtle keep their data types

---
 rdftk_io/src/turtle/writer.rs | 53 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 8ee45ed..a7408c6 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -771,22 +771,9 @@ impl TurtleWriter {
     fn write_literal<W: Write>(&self, w: &mut W, graph: &Graph, literal: &Literal) -> Result<()> {
         trace!(name: "write_literal", ?literal);
         Ok(match literal.data_type() {
-            Some(DataType::Iri) => {
-                let iri = Iri::from_str(literal.lexical_form())?;
-                self.write_iri(w, graph, &iri)?
+            Some(data_type) if is_short_form(data_type, literal.lexical_form()) => {
+                write!(w, "{}", literal.lexical_form())?
             }
-            Some(DataType::Boolean)
-            | Some(DataType::Long)
-            | Some(DataType::Int)
-            | Some(DataType::Short)
-            | Some(DataType::Byte)
-            | Some(DataType::UnsignedLong)
-            | Some(DataType::UnsignedInt)
-            | Some(DataType::UnsignedShort)
-            | Some(DataType::UnsignedByte)
-            | Some(DataType::Float)
-            | Some(DataType::Double)
-            | Some(DataType::Decimal) => write!(w, "{}", literal.lexical_form())?,
             _ => {
                 write!(w, "\"{}\"", literal.lexical_form())?;
                 match (literal.data_type(), literal.language()) {
@@ -979,6 +966,42 @@ impl TurtleWriter {
     }
 }
 
+///
+/// Whether the lexical form, written without quotes, is a literal of that same data type.
+///
+/// ```text
+/// [20]    DECIMAL         ::= [+-]? [0-9]* '.' [0-9]+
+/// [21]    DOUBLE          ::= [+-]? ([0-9]+ '.' [0-9]* EXPONENT | '.' [0-9]+ EXPONENT | [0-9]+ EXPONENT)
+/// [154s]  EXPONENT        ::= [eE] [+-]? [0-9]+
+/// ```
+///
+fn is_short_form(data_type: &DataType, lexical_form: &str) -> bool {
+    fn unsigned(s: &str) -> &str {
+        s.strip_prefix(['+', '-']).unwrap_or(s)
+    }
+    fn digits(s: &str) -> bool {
+        s.bytes().all(|b| b.is_ascii_digit())
+    }
+    match data_type {
+        DataType::Boolean => matches!(lexical_form, "true" | "false"),
+        DataType::Decimal => unsigned(lexical_form)
+            .split_once('.')
+            .is_some_and(|(int, frac)| digits(int) && digits(frac) && !frac.is_empty()),
+        DataType::Double => unsigned(lexical_form)
+            .split_once(['e', 'E'])
+            .is_some_and(|(number, exp)| {
+                let (int, frac) = number.split_once('.').unwrap_or((number, ""));
+                let exp = unsigned(exp);
+                digits(int)
+                    && digits(frac)
+                    && digits(exp)
+                    && !exp.is_empty()
+                    && !(int.is_empty() && frac.is_empty())
+            }),
+        _ => false,
+    }
+}
+
 // ------------------------------------------------------------------------------------------------
 // Implementations > Ordering
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 97239106d11ef4b767b8c89c73c43e0a9d000767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 80/88] fix: nested statements in Turtle are simplified at any
 depth

---
 rdftk_io/src/turtle/writer.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index a7408c6..05a8614 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -350,27 +350,13 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
-        let (nested, plain): (Vec<_>, Vec<_>) =
-            graph.statements().partition(|stmt| stmt.is_nested());
-
-        let mut reified_statements: Vec<Statement> = nested
-            .into_iter()
-            .map(|stmt| {
-                let (subject, mut new) = stmt.reify().unwrap();
-                new.push(Statement::new(
-                    stmt.subject(),
-                    stmt.predicate().clone(),
-                    subject.to_object(),
-                ));
-                new
-            })
-            .flatten()
-            .collect();
-        plain
-            .into_iter()
-            .for_each(|s| reified_statements.push(s.clone()));
+        let (nested, plain): (Vec<Statement>, Vec<Statement>) = graph
+            .statements()
+            .cloned()
+            .partition(|stmt| stmt.subject().is_statement() || has_statement(stmt.object()));
 
-        let mut denested_graph = Graph::from(reified_statements);
+        let mut denested_graph = Graph::from(nested).simplify()?;
+        denested_graph.extend(plain);
         denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
         self.write_turtle_doc(w, &denested_graph)
     }
@@ -966,6 +952,14 @@ impl TurtleWriter {
     }
 }
 
+fn has_statement(object: &ObjectNode) -> bool {
+    match object {
+        ObjectNode::Statement(_) => true,
+        ObjectNode::Collection(collection) => collection.iter().any(has_statement),
+        _ => false,
+    }
+}
+
 ///
 /// Whether the lexical form, written without quotes, is a literal of that same data type.
 ///
-- 
2.43.0


From 3836510d045cdd3f33bda947aebc10f818034326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 81/88] fix: blank nodes in Turtle are nested only where
 nothing else refers to them

---
 rdftk_io/src/turtle/writer.rs | 94 +++++++++++++++++++++++++++--------
 1 file changed, 74 insertions(+), 20 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 05a8614..c0c1943 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -12,14 +12,14 @@ use rdftk_core::{
     model::{
         graph::Graph,
         literal::{DataType, Literal},
-        statement::{Collection, ObjectNode, Statement, SubjectNode},
+        statement::{BlankNode, Collection, ObjectNode, Statement, SubjectNode},
     },
 };
 use rdftk_iri::Iri;
 use rdftk_names::{dc::elements, foaf, owl, rdf, rdfs, skos};
 use std::{
     cell::RefCell,
-    collections::{BTreeMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     io::Write,
     str::FromStr,
     sync::LazyLock,
@@ -117,6 +117,7 @@ enum PredicateGroupOrdering {
 struct WriterContext {
     indenter: Indenter,
     blanks_to_write: HashSet<SubjectNode>,
+    blanks_to_nest: HashSet<BlankNode>,
 }
 
 const DECL_BASE_TTL: &str = "@base";
@@ -468,14 +469,17 @@ impl TurtleWriter {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
-            // Initialize with all the blank nodes in the graph
+            context_mut.blanks_to_nest = if self.options.nest_blank_nodes() {
+                blanks_to_nest(graph)
+            } else {
+                Default::default()
+            };
+            // Initialize with all the blank nodes in the graph that are not nested
             context_mut.blanks_to_write = graph
                 .blank_node_subjects()
-                .iter()
-                .map(|s| {
-                    let s = *s;
-                    s.clone()
-                })
+                .into_iter()
+                .filter(|s| !context_mut.blanks_to_nest.contains(s.as_blank().unwrap()))
+                .cloned()
                 .collect();
         }
 
@@ -571,13 +575,10 @@ impl TurtleWriter {
             writeln!(w)?;
         }
 
-        // The given cursor object collects all the blank-node objects that have not
-        // been written to the turtle file yet but have been referred to during
-        // the call to `write_normal_subjects` above. Now process those
-        // unwritten blank nodes and add them to the end of the file.
+        // Now process the blank nodes that are not nested in the statements that refer
+        // to them, and add them to the end of the file.
         let context = self.context.borrow();
-        // Iterate over all blank nodes
-        for subject in context.blanks_to_write.iter() {
+        for subject in context.blanks_to_write.iter().sorted() {
             context.indenter.reset_depth();
             self.write_subject(w, graph, subject, flags)?;
             self.write_predicate_object_list(w, graph, subject, flags)?;
@@ -824,13 +825,10 @@ impl TurtleWriter {
         trace!(name: "write_object", ?object, ?flags);
         match &object {
             ObjectNode::Blank(blank) => {
-                if self.options.nest_blank_nodes()
-                    && graph.contains_subject(&object.to_subject().unwrap())
-                {
+                let is_nested = self.context.borrow().blanks_to_nest.contains(blank);
+                if is_nested && graph.contains_subject(&object.to_subject().unwrap()) {
                     self.write_blank_node_property_list(w, graph, object, flags)?;
-                } else if self.options.nest_blank_nodes()
-                    && !graph.contains_subject(&object.to_subject().unwrap())
-                {
+                } else if is_nested {
                     write!(w, "{BLANK_NODE_START}{BLANK_NODE_END}")?;
                 } else {
                     write!(w, "{BLANK_NODE_PREFIX}{NAME_SEPARATOR}{blank}",)?;
@@ -952,6 +950,62 @@ impl TurtleWriter {
     }
 }
 
+///
+/// Return the blank nodes to nest: those in exactly one statement's object, once, so that nothing
+/// else has to refer to them, and not nested in themselves.
+///
+fn blanks_to_nest(graph: &Graph) -> HashSet<BlankNode> {
+    fn add_references(
+        references: &mut HashMap<BlankNode, Option<SubjectNode>>,
+        subject: &SubjectNode,
+        object: &ObjectNode,
+    ) {
+        match object {
+            ObjectNode::Blank(blank) => {
+                let _ = references
+                    .entry(blank.clone())
+                    .and_modify(|referrer| *referrer = None)
+                    .or_insert_with(|| Some(subject.clone()));
+            }
+            ObjectNode::Collection(collection) => {
+                for member in collection.iter() {
+                    add_references(references, subject, member);
+                }
+            }
+            _ => {}
+        }
+    }
+
+    let mut references = HashMap::new();
+    for statement in graph.statements().collect::<HashSet<_>>() {
+        add_references(&mut references, statement.subject(), statement.object());
+    }
+    let referrer = |blank: &BlankNode| match references.get(blank) {
+        Some(Some(SubjectNode::Blank(referrer))) => Some(referrer.clone()),
+        _ => None,
+    };
+    references
+        .iter()
+        .filter(|(_, referrer)| referrer.is_some())
+        .map(|(blank, _)| blank)
+        .filter(|blank| {
+            let mut seen = HashSet::new();
+            let mut next = referrer(blank);
+            while let Some(outer) = next {
+                if &outer == *blank {
+                    return false;
+                }
+                next = referrer(&outer);
+                if !seen.insert(outer) {
+                    break;
+                }
+            }
+            true
+        })
+        .cloned()
+        .collect()
+}
+
 fn has_statement(object: &ObjectNode) -> bool {
     match object {
         ObjectNode::Statement(_) => true,
-- 
2.43.0


From e2a620581cb1abab8b23eb14d86ff30302caaaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 82/88] fix: relative references in Turtle are those that
 resolve to the IRI

---
 rdftk_io/src/turtle/writer.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index c0c1943..879f648 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -717,18 +717,11 @@ impl TurtleWriter {
             if let Some(ref convert_to_id_base) = self.options.convert_to_id_base() {
                 let target_id_base = format!("{convert_to_id_base:#}");
                 if iri_str.starts_with(target_id_base.as_str()) {
-                    return Ok(format!(
-                        "{IRI_START}{}{IRI_END}",
-                        escape_iri(&iri_str[target_id_base.len()..])
-                    ));
+                    iri_str = format!("{id_base:#}{}", &iri_str[target_id_base.len()..]);
                 }
             }
-            let id_base_str = format!("{id_base:#}");
-            if iri_str.starts_with(id_base_str.as_str()) {
-                return Ok(format!(
-                    "{IRI_START}{}{IRI_END}",
-                    escape_iri(&iri_str[id_base_str.len()..])
-                ));
+            if let Some(relative) = relative_to(&format!("{id_base:#}"), &iri_str) {
+                return Ok(format!("{IRI_START}{}{IRI_END}", escape_iri(relative)));
             }
         }
         for (from_base, to_base) in self.options.convert_base().iter() {
@@ -950,6 +943,21 @@ impl TurtleWriter {
     }
 }
 
+///
+/// Return the rest of an IRI that starts with the base, if that is also a relative reference which
+/// is resolved, against the base, to the IRI.
+///
+fn relative_to<'a>(base: &str, iri: &'a str) -> Option<&'a str> {
+    let rest = iri.strip_prefix(base)?;
+    if base.ends_with('#') {
+        return Some(&iri[base.len() - 1..]);
+    }
+    let (_, hierarchy) = base.split_once("://")?;
+    let is_directory = hierarchy.ends_with('/') && !hierarchy.contains(['?', '#']);
+    let first = rest.split(['/', '?', '#']).next().unwrap_or_default();
+    (is_directory && !rest.starts_with('/') && !first.contains(':')).then_some(rest)
+}
+
 ///
 /// Return the blank nodes to nest: those in exactly one statement's object, once, so that nothing
 /// else has to refer to them, and not nested in themselves.
-- 
2.43.0


From 55431f2fb13db1cb0ab9856d25ad3519ba9f3872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 83/88] fix: an indent width of zero is refused for Turtle by
 both its setters

---
 rdftk_io/src/turtle/writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 879f648..3980c42 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -200,7 +200,12 @@ impl TurtleWriterOptions {
         }
     }
 
+    ///
+    /// Set the indentation width, as [`set_indent_width`](Self::set_indent_width) does. This will
+    /// panic if `indent_width` is zero.
+    ///
     pub fn with_indent_width(self, indent_width: usize) -> Self {
+        assert!(indent_width > 0);
         Self {
             indent_width,
             ..self
-- 
2.43.0


From 1f2ce490d1741a026d252b4f46746651e7692be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 84/88] fix: statements are written to TriG

The writer wrote the base and prefixes only, and succeeded.
---
 rdftk_io/src/trig/writer.rs   | 99 +++++++++++++++++++++++++++++++----
 rdftk_io/src/turtle/writer.rs | 76 ++++++++++++++++++++-------
 2 files changed, 145 insertions(+), 30 deletions(-)

diff --git a/rdftk_io/src/trig/writer.rs b/rdftk_io/src/trig/writer.rs
index 2d0dbea..a3334eb 100644
--- a/rdftk_io/src/trig/writer.rs
+++ b/rdftk_io/src/trig/writer.rs
@@ -1,9 +1,12 @@
-use crate::turtle::TurtleWriterOptions;
+use crate::common::terms::graph_name;
+use crate::turtle::{TurtleWriter, TurtleWriterOptions};
 use crate::{DataSetWriter, GraphWriter};
 use objio::{impl_has_options, HasOptions, ObjectWriter};
 use rdftk_core::error::Error;
 use rdftk_core::model::data_set::DataSet;
-use rdftk_core::model::graph::Graph;
+use rdftk_core::model::graph::{Graph, GraphName};
+use rdftk_core::model::statement::{BlankNode, ObjectNode, SubjectNode};
+use std::collections::HashSet;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -75,8 +78,20 @@ impl ObjectWriter<DataSet> for TrigWriter {
     where
         W: std::io::Write,
     {
+        let mut seen = HashSet::new();
+        let mut shared = HashSet::new();
         for graph in data_set.graphs() {
-            self.write(w, graph)?;
+            for blank in blank_nodes(graph) {
+                if !seen.insert(blank.clone()) {
+                    let _ = shared.insert(blank);
+                }
+            }
+        }
+        for graph in data_set.graphs() {
+            shared.extend(name_blank_node(graph));
+        }
+        for graph in data_set.graphs() {
+            self.write_graph(w, graph, &shared)?;
         }
         Ok(())
     }
@@ -91,20 +106,82 @@ impl ObjectWriter<Graph> for TrigWriter {
     where
         W: std::io::prelude::Write,
     {
+        self.write_graph(w, graph, &name_blank_node(graph).into_iter().collect())
+    }
+}
+
+impl GraphWriter for TrigWriter {}
+
+impl TrigWriter {
+    /// The blank nodes in `shared` may not be nested, as something else refers to them.
+    fn write_graph<W>(
+        &self,
+        w: &mut W,
+        graph: &Graph,
+        shared: &HashSet<BlankNode>,
+    ) -> Result<(), Error>
+    where
+        W: std::io::Write,
+    {
+        let mut label = String::new();
         if let Some(name) = graph.name() {
             if !self.options().omit_graph_keyword() {
-                w.write_all(b"GRAPH ")?;
+                label.push_str("GRAPH ");
             }
-            w.write_all(name.to_string().as_bytes())?;
-            w.write_all(b" ")?;
+            label.push_str(&graph_name(name));
+            label.push(' ');
         }
-        w.write_all(b"{\n")?;
+        TurtleWriter::default()
+            .with_options(self.options.turtle.clone())
+            .write_trig_block(w, &label, graph, shared)
+    }
+}
 
-        // TODO: call the TurtleWriter
+// ------------------------------------------------------------------------------------------------
+// Private Functions
+// ------------------------------------------------------------------------------------------------
 
-        w.write_all(b"}\n")?;
-        Ok(())
+fn name_blank_node(graph: &Graph) -> Option<BlankNode> {
+    match graph.name() {
+        Some(GraphName::BNode(blank)) => Some(blank.clone()),
+        _ => None,
     }
 }
 
-impl GraphWriter for TrigWriter {}
+fn blank_nodes(graph: &Graph) -> HashSet<BlankNode> {
+    fn add_subject(blanks: &mut HashSet<BlankNode>, subject: &SubjectNode) {
+        match subject {
+            SubjectNode::Blank(blank) => {
+                let _ = blanks.insert(blank.clone());
+            }
+            SubjectNode::Resource(_) => {}
+            SubjectNode::Statement(statement) => {
+                add_subject(blanks, statement.subject());
+                add_object(blanks, statement.object());
+            }
+        }
+    }
+    fn add_object(blanks: &mut HashSet<BlankNode>, object: &ObjectNode) {
+        match object {
+            ObjectNode::Blank(blank) => {
+                let _ = blanks.insert(blank.clone());
+            }
+            ObjectNode::Resource(_) | ObjectNode::Literal(_) => {}
+            ObjectNode::Collection(collection) => {
+                for member in collection.iter() {
+                    add_object(blanks, member);
+                }
+            }
+            ObjectNode::Statement(statement) => {
+                add_subject(blanks, statement.subject());
+                add_object(blanks, statement.object());
+            }
+        }
+    }
+    let mut blanks = HashSet::new();
+    for statement in graph.statements() {
+        add_subject(&mut blanks, statement.subject());
+        add_object(&mut blanks, statement.object());
+    }
+    blanks
+}
diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 3980c42..8dd3ae4 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -356,15 +356,7 @@ impl ObjectWriter<Graph> for TurtleWriter {
     where
         W: Write,
     {
-        let (nested, plain): (Vec<Statement>, Vec<Statement>) = graph
-            .statements()
-            .cloned()
-            .partition(|stmt| stmt.subject().is_statement() || has_statement(stmt.object()));
-
-        let mut denested_graph = Graph::from(nested).simplify()?;
-        denested_graph.extend(plain);
-        denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
-        self.write_turtle_doc(w, &denested_graph)
+        self.write_turtle_doc(w, &denested(graph)?)
     }
 }
 
@@ -470,12 +462,54 @@ impl TurtleWriter {
     ///
     fn write_turtle_doc<W: Write>(&self, w: &mut W, graph: &Graph) -> Result<()> {
         trace!("write_turtle_doc");
+        self.reset_context(graph, &Default::default());
+
+        // [3] directives
+        self.write_base_iri(w)?;
+        self.write_prefixes(w, graph)?;
+
+        // [2] ... triples
+        let flags = WriterStatusFlags::default();
+        self.write_triples(w, graph, flags)?;
+        Ok(())
+    }
+
+    ///
+    /// Write the directives, and the block, of a graph in a TriG document. The blank nodes in
+    /// `shared` are those that occur elsewhere in the document, and so need their labels.
+    ///
+    /// ```text
+    /// [2g]  block         ::= triplesOrGraph | wrappedGraph | triples2 | "GRAPH" labelOrSubject wrappedGraph
+    /// [5g]  wrappedGraph  ::= '{' triplesBlock? '}'
+    /// ```
+    ///
+    pub(crate) fn write_trig_block<W: Write>(
+        &self,
+        w: &mut W,
+        label: &str,
+        graph: &Graph,
+        shared: &HashSet<BlankNode>,
+    ) -> Result<()> {
+        trace!("write_trig_block");
+        let graph = denested(graph)?;
+        self.reset_context(&graph, shared);
+
+        self.write_base_iri(w)?;
+        self.write_prefixes(w, &graph)?;
+
+        writeln!(w, "{label}{{")?;
+        self.write_triples(w, &graph, WriterStatusFlags::default())?;
+        writeln!(w, "}}")?;
+        Ok(())
+    }
+
+    fn reset_context(&self, graph: &Graph, shared: &HashSet<BlankNode>) {
         {
             let mut context_mut = self.context.borrow_mut();
             context_mut.indenter =
                 Indenter::default().with_default_indent_width(self.options.indent_width());
             context_mut.blanks_to_nest = if self.options.nest_blank_nodes() {
-                blanks_to_nest(graph)
+                &blanks_to_nest(graph) - shared
             } else {
                 Default::default()
             };
@@ -487,15 +521,6 @@ impl TurtleWriter {
                 .cloned()
                 .collect();
         }
-
-        // [3] directives
-        self.write_base_iri(w)?;
-        self.write_prefixes(w, graph)?;
-
-        // [2] ... triples
-        let flags = WriterStatusFlags::default();
-        self.write_triples(w, graph, flags)?;
-        Ok(())
     }
 
     ///
@@ -1019,6 +1044,19 @@ fn blanks_to_nest(graph: &Graph) -> HashSet<BlankNode> {
         .collect()
 }
 
+/// Return the graph, with its prefix mappings, without nested statements.
+fn denested(graph: &Graph) -> Result<Graph> {
+    let (nested, plain): (Vec<Statement>, Vec<Statement>) = graph
+        .statements()
+        .cloned()
+        .partition(|stmt| stmt.subject().is_statement() || has_statement(stmt.object()));
+
+    let mut denested_graph = Graph::from(nested).simplify()?;
+    denested_graph.extend(plain);
+    denested_graph.set_prefix_mappings(graph.prefix_mappings().clone());
+    Ok(denested_graph)
+}
+
 fn has_statement(object: &ObjectNode) -> bool {
     match object {
         ObjectNode::Statement(_) => true,
-- 
2.43.0


From 27cb47389501f4e4a616829914e9eba34e6239ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 85/88] fix: data sets can be converted

Converting N-Quads reached unreachable!(), whatever it was to be converted to.
---
 rdftk_cli/src/commands/representations.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 171e17e..2cee144 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -51,9 +51,18 @@ pub(crate) struct ConvertCmd {
 
 impl Command for ConvertCmd {
     fn execute(mut self) -> Result<ExitCode, Error> {
-        let graph = super::read_graph(&mut self.input, self.from)?;
-        super::write_graph(&graph, &mut self.output, self.to)?;
-        Ok(ExitCode::SUCCESS)
+        if !self.from.is_dataset_representation() {
+            let graph = super::read_graph(&mut self.input, self.from)?;
+            super::write_graph(&graph, &mut self.output, self.to)?;
+            Ok(ExitCode::SUCCESS)
+        } else if self.to.is_dataset_representation() {
+            let dataset = super::read_dataset(&mut self.input, self.from)?;
+            super::write_dataset(&dataset, &mut self.output, self.to)?;
+            Ok(ExitCode::SUCCESS)
+        } else {
+            eprintln!("Currently unable to convert datasets to representations of graphs.");
+            Ok(ExitCode::FAILURE)
+        }
     }
 }
 
-- 
2.43.0


From de55a6169240ca8dcc5ba941f9118d16d53f45d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 86/88] fix: the log is not written to stdout

It is where the result of a command is written by default.
---
 rdftk_cli/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdftk_cli/src/main.rs b/rdftk_cli/src/main.rs
index ce9f35d..bcd2e53 100644
--- a/rdftk_cli/src/main.rs
+++ b/rdftk_cli/src/main.rs
@@ -105,7 +105,10 @@ fn init_logging(log_filter: LogFilter) -> Result<(), Error> {
             .parse()
             .map_err(unknown_error)?,
     );
-    let subscriber = FmtSubscriber::builder().with_env_filter(filter).finish();
+    let subscriber = FmtSubscriber::builder()
+        .with_env_filter(filter)
+        .with_writer(std::io::stderr)
+        .finish();
 
     tracing::subscriber::set_global_default(subscriber).map_err(unknown_error)?;
 
-- 
2.43.0


From af98cc2417dd6e5460d95cf53b4dabca5d0b1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 87/88] fix: output that could not be written is reported

Output was left in the buffer of stdout, and is lost if writing it fails at exit,
where the program has already succeeded.
---
 rdftk_cli/src/commands/draw.rs            | 2 ++
 rdftk_cli/src/commands/representations.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/rdftk_cli/src/commands/draw.rs b/rdftk_cli/src/commands/draw.rs
index b67e130..9fb4fcb 100644
--- a/rdftk_cli/src/commands/draw.rs
+++ b/rdftk_cli/src/commands/draw.rs
@@ -3,6 +3,7 @@ use clap::Args;
 use objio::{ObjectWriter};
 use rdftk_core::{error::Error};
 use rdftk_io::{dot};
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -55,6 +56,7 @@ impl Command for DrawCmd {
             let graph = super::read_graph(&mut self.input, self.from)?;
             let writer = dot::DotWriter::default();
             writer.write(&mut self.output, &graph)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         }
     }
diff --git a/rdftk_cli/src/commands/representations.rs b/rdftk_cli/src/commands/representations.rs
index 2cee144..1f1624b 100644
--- a/rdftk_cli/src/commands/representations.rs
+++ b/rdftk_cli/src/commands/representations.rs
@@ -1,6 +1,7 @@
 use super::{Command, Representation};
 use clap::Args;
 use rdftk_core::error::Error;
+use std::io::Write;
 use std::process::ExitCode;
 
 // ------------------------------------------------------------------------------------------------
@@ -54,10 +55,12 @@ impl Command for ConvertCmd {
         if !self.from.is_dataset_representation() {
             let graph = super::read_graph(&mut self.input, self.from)?;
             super::write_graph(&graph, &mut self.output, self.to)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         } else if self.to.is_dataset_representation() {
             let dataset = super::read_dataset(&mut self.input, self.from)?;
             super::write_dataset(&dataset, &mut self.output, self.to)?;
+            self.output.flush()?;
             Ok(ExitCode::SUCCESS)
         } else {
             eprintln!("Currently unable to convert datasets to representations of graphs.");
-- 
2.43.0


From 5161c79b4fd1d0c98922bf5f00443c715c66f8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 88/88] fix: predicates in Turtle are padded if the option is
 set, not if it is unset

---
 rdftk_io/src/turtle/writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rdftk_io/src/turtle/writer.rs b/rdftk_io/src/turtle/writer.rs
index 8dd3ae4..052d688 100644
--- a/rdftk_io/src/turtle/writer.rs
+++ b/rdftk_io/src/turtle/writer.rs
@@ -159,7 +159,7 @@ impl Default for TurtleWriterOptions {
             convert_to_id_base: None,
             convert_base: Vec::new(),
             indent_width: 4,
-            predicate_padding: false,
+            predicate_padding: true,
         }
     }
 }
@@ -669,9 +669,9 @@ impl TurtleWriter {
         let mut count = 0;
         let total_number = all_predicates.len();
         let max_len = if self.options.predicate_padding {
-            0
-        } else {
             1 + self.max_len_predicates(graph, &all_predicates)?
+        } else {
+            0
         };
 
         for (group, ref mut preds) in PredicateGroupOrdering::group_predicates(&all_predicates) {
-- 
2.43.0


From c4d1fe476d9986095463b287d380d16100c07cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:56 +0000
Subject: [PATCH 01/13] fix: Iri::split no longer panics on IRIs whose path is
 opaque

---
 rdftk_iri/src/iri.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 37c22a7..74c6c79 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -321,7 +321,12 @@ impl Iri {
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
         {
-            if let Ok(name) = Name::from_str(self.0.path_segments().unwrap().last().unwrap()) {
+            if let Some(Ok(name)) = self
+                .0
+                .path()
+                .rsplit_once('/')
+                .map(|(_, s)| Name::from_str(s))
+            {
                 let path = self.0.path();
                 let path = &path[0..path.len() - name.as_ref().len()];
                 Some((self.with_new_path(path), name))
-- 
2.43.0


From 7d6ebb8a6b100afcdffede0c768167daf785359b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 02/13] fix: Iri::split does not take a path name off an IRI
 with an empty fragment

---
 rdftk_iri/src/iri.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdftk_iri/src/iri.rs b/rdftk_iri/src/iri.rs
index 74c6c79..c889695 100644
--- a/rdftk_iri/src/iri.rs
+++ b/rdftk_iri/src/iri.rs
@@ -320,6 +320,7 @@ impl Iri {
         } else if !self.0.path().is_empty()
             && !self.0.path().ends_with("/")
             && self.0.query().is_none()
+            && self.0.fragment().is_none()
         {
             if let Some(Ok(name)) = self
                 .0
-- 
2.43.0


From b6974cce2aa6f67c0a0d3030294f384a98b78c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:59 +0000
Subject: [PATCH 03/13] fix: a Namespace prefix may not end with '.'

---
 rdftk_iri/src/pname.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 94427ea..0af428b 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -250,6 +250,8 @@ impl FromStr for Namespace {
                 Err(NameParseError::TooManySeparators(s.to_string()))
             } else if pn_prefix.is_empty() {
                 Ok(Self(s.to_string()))
+            } else if pn_prefix.ends_with('.') {
+                Err(NameParseError::InvalidCharacter(s.to_string()))
             } else {
                 let mut chars = pn_prefix.chars();
                 if is_pn_chars_base(chars.next().unwrap()) && chars.all(is_pn_prefix_local_rest) {
-- 
2.43.0


From f89be7a24c6fbaca2ebe786d03c725a03d8680b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 04/13] fix: deserializing a Name or Namespace applies the
 grammar

---
 rdftk_iri/src/pname.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rdftk_iri/src/pname.rs b/rdftk_iri/src/pname.rs
index 0af428b..57a1814 100644
--- a/rdftk_iri/src/pname.rs
+++ b/rdftk_iri/src/pname.rs
@@ -98,6 +98,7 @@ pub enum PrefixedName {
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String", into = "String"))]
 pub struct Namespace(String);
 
 /// The character used to separate a [`Namespace`] prefix from a [`Name`] in a
@@ -145,6 +146,7 @@ pub const NAMESPACE_DEFAULT_STRING: &str = ":";
 ///
 #[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
 #[cfg_attr(feature = "serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "String", into = "String"))]
 pub struct Name(String);
 
 ///
@@ -266,6 +268,15 @@ impl FromStr for Namespace {
     }
 }
 
+#[cfg(feature = "serde")]
+impl TryFrom<String> for Namespace {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Namespace {
     fn as_ref(&self) -> &str {
         &self.0
@@ -406,6 +417,15 @@ impl FromStr for Name {
     }
 }
 
+#[cfg(feature = "serde")]
+impl TryFrom<String> for Name {
+    type Error = NameParseError;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Self::from_str(&s)
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From b4f98efec7dc3948aaaa38649c9e88940913ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 05/13] fix: rdftk_names builds with the current rdftk_iri

---
 rdftk_names/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_names/src/lib.rs b/rdftk_names/src/lib.rs
index 0ef0bcb..03f5b3b 100644
--- a/rdftk_names/src/lib.rs
+++ b/rdftk_names/src/lib.rs
@@ -132,7 +132,7 @@ macro_rules! namespace {
                 let _ = cache.insert(
                     $name.to_string(),
                     (
-                        <::rdftk_iri::Iri as ::rdftk_iri::IriExtra>::make_name(
+                        ::rdftk_iri::Iri::make_name(
                                 &NS_IRI,
                                 <::rdftk_iri::Name as ::std::str::FromStr>::from_str($name).unwrap()
                             ).unwrap(),
-- 
2.43.0


From c930169d22ccb2edb655f8e4403e669faec684ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 06/13] fix: rdftk_core builds with the current rdftk_iri

---
 rdftk_core/src/error.rs                 |  6 +++---
 rdftk_core/src/model/graph.rs           |  2 +-
 rdftk_core/src/model/literal.rs         | 19 ++++++++++---------
 rdftk_core/src/model/statement/bnode.rs |  8 ++++----
 4 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/rdftk_core/src/error.rs b/rdftk_core/src/error.rs
index 887617f..62f3e5e 100644
--- a/rdftk_core/src/error.rs
+++ b/rdftk_core/src/error.rs
@@ -142,7 +142,7 @@ pub enum Error {
     ///
     /// An error parsing Name strings.
     ///
-    Name(::rdftk_iri::NameParseError),
+    Name(::rdftk_iri::error::NameParseError),
     ///
     /// An error occurred converting to UTF-8 text.
     ///
@@ -426,8 +426,8 @@ impl From<::language_tags::ParseError> for Error {
     }
 }
 
-impl From<::rdftk_iri::NameParseError> for Error {
-    fn from(source: ::rdftk_iri::NameParseError) -> Self {
+impl From<::rdftk_iri::error::NameParseError> for Error {
+    fn from(source: ::rdftk_iri::error::NameParseError) -> Self {
         Self::Name(source)
     }
 }
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 15ec049..43aed27 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -19,7 +19,7 @@ fn simple_graph_writer(graph: &Graph)
 use crate::error::Error;
 use crate::model::features::{Featured, FEATURE_GRAPH_DUPLICATES, FEATURE_RDF_STAR};
 use crate::model::statement::{BlankNode, ObjectNode, Statement, SubjectNode};
-use rdftk_iri::{Iri, IriExtra, IriPrefixMap, Name};
+use rdftk_iri::{Iri, IriPrefixMap, Name};
 use std::collections::{HashMap, HashSet};
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 13e7ebe..001aeec 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -51,11 +51,12 @@
  */
 
 use crate::error::Error;
-use rdftk_iri::{Iri, Name, QName};
+use rdftk_iri::{Iri, LocalName, Name};
 use rdftk_names::{rdf, xsd};
 use std::cmp::Ordering;
 use std::fmt::{Debug, Display, Formatter};
 use std::hash::Hash;
+use std::str::FromStr;
 use std::time::Duration;
 
 #[cfg(feature = "binary_types")]
@@ -372,7 +373,7 @@ impl DataType {
 
 impl From<Iri> for Literal {
     fn from(v: Iri) -> Self {
-        Self::with_data_type(v.as_ref(), DataType::Iri)
+        Self::with_data_type(<Iri as AsRef<str>>::as_ref(&v), DataType::Iri)
     }
 }
 
@@ -395,7 +396,7 @@ impl TryFrom<Literal> for Iri {
         match value.data_type() {
             Some(dt) => {
                 if *dt == DataType::Iri {
-                    Ok(Iri::parse(value.lexical_form())?)
+                    Ok(Iri::from_str(value.lexical_form()).map_err(::rdftk_iri::Error::from)?)
                 } else {
                     Err(Error::InvalidLiteralTypeCooercion {
                         from_type: dt.to_string(),
@@ -578,20 +579,20 @@ impl PartialEq<f32> for Literal {
 // Variant QName
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
-impl From<QName> for Literal {
-    fn from(v: QName) -> Self {
+impl From<LocalName> for Literal {
+    fn from(v: LocalName) -> Self {
         Self::with_data_type(v, DataType::QName)
     }
 }
 
-impl From<&QName> for Literal {
-    fn from(v: &QName) -> Self {
+impl From<&LocalName> for Literal {
+    fn from(v: &LocalName) -> Self {
         Self::from(v.clone())
     }
 }
 
-impl PartialEq<QName> for Literal {
-    fn eq(&self, other: &QName) -> bool {
+impl PartialEq<LocalName> for Literal {
+    fn eq(&self, other: &LocalName) -> bool {
         *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::QName)
     }
 }
diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 208f4cc..73ff22d 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -1,4 +1,4 @@
-use rdftk_iri::{Name, NameParser, QName};
+use rdftk_iri::{LocalName, Name};
 use std::fmt::{Display, Formatter};
 use std::str::FromStr;
 use unique_id::sequence::SequenceGenerator as IDGenerator;
@@ -98,7 +98,7 @@ impl BlankNode {
         S: AsRef<str>,
     {
         let s: &str = s.as_ref();
-        NameParser::BlankNode.is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
+        Name::is_valid_str(if let Some(s) = s.strip_prefix(BLANK_NODE_PREFIX) {
             s
         } else {
             s
@@ -109,7 +109,7 @@ impl BlankNode {
     /// Return a qualified version of the blank node, i.e. with the reserved
     /// namespace value `"_"`.
     ///
-    pub fn to_qname(&self) -> QName {
-        QName::new_blank(Name::new_unchecked(&self.0)).unwrap()
+    pub fn to_qname(&self) -> LocalName {
+        LocalName::new_unchecked(BLANK_NODE_PREFIX, &self.0)
     }
 }
-- 
2.43.0


From 6e850989478524277f7d6ee5c00ed6f337da85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:50 +0000
Subject: [PATCH 07/13] fix: statements, nodes and literals write an IRI in one
 pair of brackets

---
 rdftk_core/src/model/formulae.rs          | 2 +-
 rdftk_core/src/model/graph.rs             | 2 +-
 rdftk_core/src/model/literal.rs           | 4 ++--
 rdftk_core/src/model/statement.rs         | 2 +-
 rdftk_core/src/model/statement/object.rs  | 2 +-
 rdftk_core/src/model/statement/subject.rs | 2 +-
 6 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rdftk_core/src/model/formulae.rs b/rdftk_core/src/model/formulae.rs
index 8db3030..575fdb2 100644
--- a/rdftk_core/src/model/formulae.rs
+++ b/rdftk_core/src/model/formulae.rs
@@ -47,7 +47,7 @@ impl Display for Variable {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> .",
+            "{} {} .",
             match self.quantification {
                 Quantification::Universal => "@forAll",
                 Quantification::Existential => "@forSome",
diff --git a/rdftk_core/src/model/graph.rs b/rdftk_core/src/model/graph.rs
index 43aed27..32f5fdc 100644
--- a/rdftk_core/src/model/graph.rs
+++ b/rdftk_core/src/model/graph.rs
@@ -81,7 +81,7 @@ impl Display for GraphName {
             "{}",
             match &self {
                 Self::BNode(node) => format!("_:{}", node),
-                Self::Iri(iri) => format!("<{}>", iri),
+                Self::Iri(iri) => iri.to_string(),
             }
         )
     }
diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 001aeec..85adaaa 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -385,7 +385,7 @@ impl From<&Iri> for Literal {
 
 impl PartialEq<Iri> for Literal {
     fn eq(&self, other: &Iri) -> bool {
-        *self.lexical_form() == other.to_string() && self.data_type() == Some(&DataType::Iri)
+        self.lexical_form() == <Iri as AsRef<str>>::as_ref(other) && self.data_type() == Some(&DataType::Iri)
     }
 }
 
@@ -848,7 +848,7 @@ impl Display for Literal {
                     "\"{}\"{}",
                     self.lexical_form(),
                     match (self.data_type(), self.language()) {
-                        (Some(data_type), None) => format!("^^<{}>", data_type.as_iri()),
+                        (Some(data_type), None) => format!("^^{}", data_type.as_iri()),
                         (None, Some(language)) => format!("@{}", language),
                         _ => String::new(),
                     }
diff --git a/rdftk_core/src/model/statement.rs b/rdftk_core/src/model/statement.rs
index d8ff046..f2a07eb 100644
--- a/rdftk_core/src/model/statement.rs
+++ b/rdftk_core/src/model/statement.rs
@@ -62,7 +62,7 @@ impl Display for Statement {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
             f,
-            "{} <{}> {}",
+            "{} {} {}",
             &self.subject().to_string(),
             &self.predicate().to_string(),
             &self.object().to_string(),
diff --git a/rdftk_core/src/model/statement/object.rs b/rdftk_core/src/model/statement/object.rs
index 9443935..7c313a4 100644
--- a/rdftk_core/src/model/statement/object.rs
+++ b/rdftk_core/src/model/statement/object.rs
@@ -122,7 +122,7 @@ impl Display for ObjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{BLANK_NODE_NAMESPACE}:{node}"),
-            Self::Resource(iri) => write!(f, "<{iri}>"),
+            Self::Resource(iri) => write!(f, "{iri}"),
             Self::Literal(lit) => {
                 if f.alternate() {
                     write!(f, "{lit:#}")
diff --git a/rdftk_core/src/model/statement/subject.rs b/rdftk_core/src/model/statement/subject.rs
index 67dd8cd..427caf3 100644
--- a/rdftk_core/src/model/statement/subject.rs
+++ b/rdftk_core/src/model/statement/subject.rs
@@ -94,7 +94,7 @@ impl Display for SubjectNode {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::Blank(node) => write!(f, "{}:{}", BLANK_NODE_NAMESPACE, node),
-            Self::Resource(iri) => write!(f, "<{}>", iri),
+            Self::Resource(iri) => write!(f, "{}", iri),
             Self::Statement(st) => write!(f, "<< {} >>", st),
         }
     }
-- 
2.43.0


From 0349dfe4dd5959ce7e6081278c9e76deffeaf3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 08/13] fix: literals are escaped as RDF defines, not as Rust
 debug output

---
 rdftk_core/src/model/literal.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 85adaaa..b8bd272 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -1023,8 +1023,21 @@ fn escape_string<S>(value: S) -> String
 where
     S: Into<String>,
 {
-    let formatted = format!("{:?}", value.into());
-    formatted[1..formatted.len() - 1].to_string()
+    let value = value.into();
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\u{8}' => escaped.push_str("\\b"),
+            '\t' => escaped.push_str("\\t"),
+            '\n' => escaped.push_str("\\n"),
+            '\u{c}' => escaped.push_str("\\f"),
+            '\r' => escaped.push_str("\\r"),
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
 }
 
 fn hex_encode(value: &[u8]) -> String {
-- 
2.43.0


From 3249a717ae900ac207ef9d0d6f9bd048f8c3546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 09/13] fix: sub-second durations keep their leading zeros and
 equal their literals

---
 rdftk_core/src/model/literal.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index b8bd272..5274ced 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -516,7 +516,7 @@ impl From<Duration> for Literal {
         let nanos = v.subsec_nanos();
         Self::with_data_type(
             if nanos != 0 {
-                format!("PT{seconds}.{nanos}S")
+                format!("PT{seconds}.{nanos:09}S")
             } else {
                 format!("PT{seconds}S")
             },
@@ -547,8 +547,7 @@ impl From<&chrono::Duration> for Literal {
 
 impl PartialEq<Duration> for Literal {
     fn eq(&self, other: &Duration) -> bool {
-        *self.lexical_form() == other.as_nanos().to_string()
-            && self.data_type() == Some(&DataType::Duration)
+        *self == Self::from(*other)
     }
 }
 
-- 
2.43.0


From bfefb903aca504b146af58fa2e25f00cca52f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 10/13] fix: binary literals decode to the bytes they were made
 from

---
 rdftk_core/src/model/literal.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 5274ced..d1efbee 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -971,7 +971,7 @@ impl Literal {
 
     #[cfg(feature = "binary_types")]
     pub fn base64_encoded(v: &[u8]) -> Self {
-        Self::with_data_type(STANDARD.encode(v), DataType::HexBinary)
+        Self::with_data_type(STANDARD.encode(v), DataType::Base64Binary)
     }
 
     // --------------------------------------------------------------------------------------------
@@ -1056,19 +1056,19 @@ where
     S: AsRef<str>,
 {
     let value = value.as_ref();
-    let mut buffer = Vec::with_capacity((value.len() + 1) / 3);
-    for (index, hex_pair) in value.split(" ").enumerate() {
-        if hex_pair.len() == 2 {
-            let byte = u8::from_str_radix(hex_pair, 16).map_err(|_| Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            })?;
-            buffer.push(byte);
-        } else {
-            return Err(Error::HexDecoder {
-                value: hex_pair.to_string(),
-                index,
-            });
+    let digit = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
+    let mut buffer = Vec::with_capacity(value.len() / 2);
+    for (index, hex_pair) in value.as_bytes().chunks(2).enumerate() {
+        let high = hex_pair.first().copied().and_then(digit);
+        let low = hex_pair.get(1).copied().and_then(digit);
+        match (high, low) {
+            (Some(high), Some(low)) => buffer.push(high << 4 | low),
+            _ => {
+                return Err(Error::HexDecoder {
+                    value: String::from_utf8_lossy(hex_pair).into_owned(),
+                    index,
+                })
+            }
         }
     }
     Ok(buffer)
-- 
2.43.0


From 7a21a72c2404d7fe977ec2688bb728ad5e4cbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 11/13] fix: every data type is recognised by its IRI

---
 rdftk_core/src/model/literal.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index d1efbee..3ec6ce1 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -319,6 +319,20 @@ impl From<Iri> for DataType {
             Self::UnsignedByte
         } else if &iri == xsd::duration() {
             Self::Duration
+        } else if &iri == xsd::base64_binary() {
+            Self::Base64Binary
+        } else if &iri == xsd::date() {
+            Self::Date
+        } else if &iri == xsd::date_time() {
+            Self::DateTime
+        } else if &iri == xsd::decimal() {
+            Self::Decimal
+        } else if &iri == xsd::hex_binary() {
+            Self::HexBinary
+        } else if &iri == xsd::time() {
+            Self::Time
+        } else if &iri == xsd::language() {
+            Self::Language
         } else if &iri == rdf::xml_literal() {
             Self::XmlLiteral
         } else {
-- 
2.43.0


From 2e3630bac0307c570173692c915af3e67d5b7d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 12/13] fix: a blank node parsed with its prefix keeps only its
 name

---
 rdftk_core/src/model/statement/bnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdftk_core/src/model/statement/bnode.rs b/rdftk_core/src/model/statement/bnode.rs
index 73ff22d..eeaefee 100644
--- a/rdftk_core/src/model/statement/bnode.rs
+++ b/rdftk_core/src/model/statement/bnode.rs
@@ -43,7 +43,7 @@ impl FromStr for BlankNode {
 
     fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if BlankNode::is_valid_str(s) {
-            Ok(Self(s.into()))
+            Ok(Self(s.strip_prefix(BLANK_NODE_PREFIX).unwrap_or(s).into()))
         } else {
             Err(crate::error::Error::InvalidBlankNodeName { name: s.into() })
         }
-- 
2.43.0


From 469c954eacb24508123bfa7903021d0e0fcc91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 13/13] fix: a string literal equals the text it was made from

---
 rdftk_core/src/model/literal.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdftk_core/src/model/literal.rs b/rdftk_core/src/model/literal.rs
index 3ec6ce1..29cc3a5 100644
--- a/rdftk_core/src/model/literal.rs
+++ b/rdftk_core/src/model/literal.rs
@@ -628,14 +628,14 @@ impl From<&str> for Literal {
 
 impl PartialEq<String> for Literal {
     fn eq(&self, other: &String) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other.as_str())
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
 
 impl PartialEq<str> for Literal {
     fn eq(&self, other: &str) -> bool {
-        self.lexical_form() == other
+        *self.lexical_form() == escape_string(other)
             && (self.data_type().is_none() || self.data_type() == Some(&DataType::String))
     }
 }
-- 
2.43.0


From 8f9df2f224664119543dabd87e40c8f7536dbe69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:16:10 +0000
Subject: [PATCH 01/66] fix: hand out ids atomically so concurrent documents
 never share one

---
 docx-core/src/documents/bookmark_id.rs                  | 4 +---
 docx-core/src/documents/footnote_id.rs                  | 4 +---
 docx-core/src/documents/history_id.rs                   | 3 +--
 docx-core/src/documents/hyperlink_id.rs                 | 4 +---
 docx-core/src/documents/paragraph_property_change_id.rs | 3 +--
 docx-core/src/documents/pic_id.rs                       | 4 +---
 docx-core/src/documents/toc_key.rs                      | 3 +--
 7 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/docx-core/src/documents/bookmark_id.rs b/docx-core/src/documents/bookmark_id.rs
index d418935..900eb06 100644
--- a/docx-core/src/documents/bookmark_id.rs
+++ b/docx-core/src/documents/bookmark_id.rs
@@ -7,9 +7,7 @@ static BOOKMARK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_bookmark_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = BOOKMARK_ID.load(Ordering::Relaxed);
-    BOOKMARK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    BOOKMARK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(not(test))]
diff --git a/docx-core/src/documents/footnote_id.rs b/docx-core/src/documents/footnote_id.rs
index f947529..f9ae56a 100644
--- a/docx-core/src/documents/footnote_id.rs
+++ b/docx-core/src/documents/footnote_id.rs
@@ -7,9 +7,7 @@ static FOOTNOTE_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_footnote_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = FOOTNOTE_ID.load(Ordering::Relaxed);
-    FOOTNOTE_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    FOOTNOTE_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 77f1be4..8b6ab2f 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -8,8 +8,7 @@ pub trait HistoryId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/hyperlink_id.rs b/docx-core/src/documents/hyperlink_id.rs
index d972142..4a7184a 100644
--- a/docx-core/src/documents/hyperlink_id.rs
+++ b/docx-core/src/documents/hyperlink_id.rs
@@ -7,9 +7,7 @@ static HYPERLINK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_hyperlink_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = HYPERLINK_ID.load(Ordering::Relaxed);
-    HYPERLINK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    HYPERLINK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/paragraph_property_change_id.rs b/docx-core/src/documents/paragraph_property_change_id.rs
index bb35284..7624bc6 100644
--- a/docx-core/src/documents/paragraph_property_change_id.rs
+++ b/docx-core/src/documents/paragraph_property_change_id.rs
@@ -8,8 +8,7 @@ pub trait ParagraphPropertyChangeId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/pic_id.rs b/docx-core/src/documents/pic_id.rs
index b9939aa..3fd5f91 100644
--- a/docx-core/src/documents/pic_id.rs
+++ b/docx-core/src/documents/pic_id.rs
@@ -7,9 +7,7 @@ static PIC_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_pic_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = PIC_ID.load(Ordering::Relaxed);
-    PIC_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    PIC_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/toc_key.rs b/docx-core/src/documents/toc_key.rs
index 6de125f..27d62a5 100644
--- a/docx-core/src/documents/toc_key.rs
+++ b/docx-core/src/documents/toc_key.rs
@@ -8,8 +8,7 @@ pub trait TocKeyGenerator {
     fn generate() -> String {
         use std::sync::atomic::Ordering;
 
-        let id = TOC_KEY.load(Ordering::Relaxed);
-        TOC_KEY.store(id + 1, Ordering::Relaxed);
+        let id = TOC_KEY.fetch_add(1, Ordering::Relaxed);
         format!("_Toc{id:08}")
     }
 }
-- 
2.43.0


From 52b0227bd3d964d0e51bcb57e7ec833118ae6502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:18:29 +0000
Subject: [PATCH 02/66] fix: escape every string when XML is written, not at
 selected constructors

Text read from a file was stored unescaped and written back verbatim, and
many attributes (anchors, dates, comment authors, property values, bookmark
names, ...) were never escaped, so saving could produce malformed XML.
---
 docx-core/src/documents/document_rels.rs      |  4 +-
 docx-core/src/documents/elements/based_on.rs  |  5 +--
 docx-core/src/documents/elements/delete.rs    |  4 +-
 .../src/documents/elements/delete_text.rs     |  8 ----
 docx-core/src/documents/elements/hyperlink.rs |  3 +-
 docx-core/src/documents/elements/insert.rs    |  4 +-
 docx-core/src/documents/elements/instr_tc.rs  |  8 ++--
 docx-core/src/documents/elements/instr_toc.rs | 17 ++++----
 docx-core/src/documents/elements/link.rs      |  5 +--
 docx-core/src/documents/elements/move_from.rs |  4 +-
 docx-core/src/documents/elements/move_to.rs   |  4 +-
 docx-core/src/documents/elements/name.rs      |  6 +--
 .../elements/paragraph_property_change.rs     |  3 +-
 .../src/documents/elements/paragraph_style.rs |  5 +--
 docx-core/src/documents/elements/run.rs       | 17 +-------
 docx-core/src/documents/elements/run_fonts.rs | 19 ++++----
 docx-core/src/documents/elements/run_style.rs |  5 +--
 docx-core/src/documents/elements/style.rs     |  3 +-
 .../documents/elements/table_of_contents.rs   |  4 +-
 docx-core/src/documents/elements/text.rs      |  8 ----
 docx-core/src/documents/webextension.rs       |  3 +-
 docx-core/src/escape/mod.rs                   |  1 +
 docx-core/src/reader/comment.rs               |  3 +-
 docx-core/src/reader/run.rs                   |  9 ++--
 docx-core/src/xml/writer.rs                   | 43 +++++++++----------
 docx-core/src/xml_builder/mod.rs              |  1 -
 26 files changed, 72 insertions(+), 124 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..4484aa7 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::{escape::*, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -40,7 +40,7 @@ impl DocumentRels {
         r#type: impl Into<String>,
     ) -> Self {
         self.hyperlinks
-            .push((id.into(), escape_owned(path.into()), r#type.into()));
+            .push((id.into(), path.into(), r#type.into()));
         self
     }
 }
diff --git a/docx-core/src/documents/elements/based_on.rs b/docx-core/src/documents/elements/based_on.rs
index 74e3513..dacea70 100644
--- a/docx-core/src/documents/elements/based_on.rs
+++ b/docx-core/src/documents/elements/based_on.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -12,9 +11,7 @@ pub struct BasedOn {
 
 impl BasedOn {
     pub fn new(val: impl Into<String>) -> BasedOn {
-        BasedOn {
-            val: escape_owned(val.into()),
-        }
+        BasedOn { val: val.into() }
     }
 }
 
diff --git a/docx-core/src/documents/elements/delete.rs b/docx-core/src/documents/elements/delete.rs
index afea7c3..9727547 100644
--- a/docx-core/src/documents/elements/delete.rs
+++ b/docx-core/src/documents/elements/delete.rs
@@ -2,8 +2,8 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
 pub struct Delete {
@@ -85,7 +85,7 @@ impl Delete {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Delete {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/delete_text.rs b/docx-core/src/documents/elements/delete_text.rs
index befcafe..dc9b6e9 100644
--- a/docx-core/src/documents/elements/delete_text.rs
+++ b/docx-core/src/documents/elements/delete_text.rs
@@ -2,7 +2,6 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, Serialize, PartialEq)]
@@ -14,13 +13,6 @@ pub struct DeleteText {
 
 impl DeleteText {
     pub fn new(text: impl Into<String>) -> DeleteText {
-        DeleteText {
-            text: escape_owned(text.into()),
-            preserve_space: true,
-        }
-    }
-
-    pub(crate) fn without_escape(text: impl Into<String>) -> DeleteText {
         DeleteText {
             text: text.into(),
             preserve_space: true,
diff --git a/docx-core/src/documents/elements/hyperlink.rs b/docx-core/src/documents/elements/hyperlink.rs
index 2bd9483..d5722d9 100644
--- a/docx-core/src/documents/elements/hyperlink.rs
+++ b/docx-core/src/documents/elements/hyperlink.rs
@@ -3,7 +3,6 @@ use std::io::Write;
 
 use super::*;
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::types::*;
 use crate::{create_hyperlink_rid, generate_hyperlink_id, xml_builder::*};
 
@@ -37,7 +36,7 @@ impl Hyperlink {
             match t {
                 HyperlinkType::External => HyperlinkData::External {
                     rid: create_hyperlink_rid(generate_hyperlink_id()),
-                    path: escape_owned(value.into()),
+                    path: value.into(),
                 },
                 HyperlinkType::Anchor => HyperlinkData::Anchor {
                     anchor: value.into(),
diff --git a/docx-core/src/documents/elements/insert.rs b/docx-core/src/documents/elements/insert.rs
index fe43151..a9a007d 100644
--- a/docx-core/src/documents/elements/insert.rs
+++ b/docx-core/src/documents/elements/insert.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 use super::*;
 
 use crate::documents::{BuildXML, HistoryId, Run};
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum InsertChild {
@@ -131,7 +131,7 @@ impl Insert {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> Insert {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..9ae0166 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -2,7 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape::escape_owned;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -20,7 +20,7 @@ pub struct InstrTC {
 impl InstrTC {
     pub fn new(text: impl Into<String>) -> Self {
         Self {
-            text: escape_owned(text.into()),
+            text: text.into(),
             ..Default::default()
         }
     }
@@ -49,10 +49,10 @@ impl BuildXML for InstrTC {
         let mut b = XMLBuilder::from(stream);
         let raw = b.inner_mut()?;
 
-        write!(raw, "TC \"{}\"", self.text)?;
+        write!(raw, "TC \"{}\"", escape(&self.text))?;
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            write!(raw, " \\f {}", escape(t))?;
         }
 
         if let Some(level) = self.level {
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..b2850fa 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -172,28 +173,28 @@ impl BuildXML for InstrToC {
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            write!(raw, " \\a &quot;{}&quot;", escape(t))?;
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            write!(raw, " \\b &quot;{}&quot;", escape(t))?;
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            write!(raw, " \\c &quot;{}&quot;", escape(t))?;
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            write!(raw, " \\d &quot;{}&quot;", escape(t))?;
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                write!(raw, " \\f &quot;{}&quot;", escape(t))?;
             } else {
                 write!(raw, " \\f")?;
             }
@@ -216,12 +217,12 @@ impl BuildXML for InstrToC {
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            write!(raw, " \\p &quot;{}&quot;", escape(t))?;
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            write!(raw, " \\s &quot;{}&quot;", escape(t))?;
         }
 
         // \t
@@ -232,7 +233,7 @@ impl BuildXML for InstrToC {
                 .map(|s| format!("{},{}", (s.0).0, (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
-            write!(raw, " \\t &quot;{s}&quot;")?;
+            write!(raw, " \\t &quot;{}&quot;", escape(&s))?;
         }
 
         // \h
diff --git a/docx-core/src/documents/elements/link.rs b/docx-core/src/documents/elements/link.rs
index f2e53d2..271197d 100644
--- a/docx-core/src/documents/elements/link.rs
+++ b/docx-core/src/documents/elements/link.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -12,9 +11,7 @@ pub struct Link {
 
 impl Link {
     pub fn new(val: impl Into<String>) -> Link {
-        Link {
-            val: escape_owned(val.into()),
-        }
+        Link { val: val.into() }
     }
 }
 
diff --git a/docx-core/src/documents/elements/move_from.rs b/docx-core/src/documents/elements/move_from.rs
index d68e09c..c20afb1 100644
--- a/docx-core/src/documents/elements/move_from.rs
+++ b/docx-core/src/documents/elements/move_from.rs
@@ -2,8 +2,8 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
 pub struct MoveFrom {
@@ -84,7 +84,7 @@ impl MoveFrom {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveFrom {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/move_to.rs b/docx-core/src/documents/elements/move_to.rs
index 7bfb344..96d8a0b 100644
--- a/docx-core/src/documents/elements/move_to.rs
+++ b/docx-core/src/documents/elements/move_to.rs
@@ -5,7 +5,7 @@ use std::io::Write;
 use super::*;
 
 use crate::documents::{BuildXML, HistoryId, Run};
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum MoveToChild {
@@ -124,7 +124,7 @@ impl MoveTo {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> MoveTo {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/name.rs b/docx-core/src/documents/elements/name.rs
index 5f5f988..85352ab 100644
--- a/docx-core/src/documents/elements/name.rs
+++ b/docx-core/src/documents/elements/name.rs
@@ -4,7 +4,7 @@ use std::io::Write;
 use std::str::FromStr;
 
 use crate::documents::BuildXML;
-use crate::{escape, xml_builder::*};
+use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Name {
@@ -13,9 +13,7 @@ pub struct Name {
 
 impl Name {
     pub fn new(name: impl Into<String>) -> Name {
-        Name {
-            name: escape::escape_owned(name.into()),
-        }
+        Name { name: name.into() }
     }
 
     pub fn starts_with(&self, s: &str) -> bool {
diff --git a/docx-core/src/documents/elements/paragraph_property_change.rs b/docx-core/src/documents/elements/paragraph_property_change.rs
index 1b480b4..06de4e9 100644
--- a/docx-core/src/documents/elements/paragraph_property_change.rs
+++ b/docx-core/src/documents/elements/paragraph_property_change.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, Clone, PartialEq)]
@@ -36,7 +35,7 @@ impl ParagraphPropertyChange {
     }
 
     pub fn author(mut self, author: impl Into<String>) -> ParagraphPropertyChange {
-        self.author = escape::escape_owned(author.into());
+        self.author = author.into();
         self
     }
 
diff --git a/docx-core/src/documents/elements/paragraph_style.rs b/docx-core/src/documents/elements/paragraph_style.rs
index b95eaf7..8d35957 100644
--- a/docx-core/src/documents/elements/paragraph_style.rs
+++ b/docx-core/src/documents/elements/paragraph_style.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -27,9 +26,7 @@ impl Default for ParagraphStyle {
 impl ParagraphStyle {
     pub fn new(val: Option<impl Into<String>>) -> ParagraphStyle {
         if let Some(v) = val {
-            ParagraphStyle {
-                val: escape_owned(v.into()),
-            }
+            ParagraphStyle { val: v.into() }
         } else {
             Default::default()
         }
diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index cebf03a..0b8dcfa 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -169,13 +169,6 @@ impl Run {
         self
     }
 
-    pub(crate) fn add_text_without_escape(mut self, text: impl Into<String>) -> Run {
-        self.children.push(RunChild::Text(Text::without_escape(
-            text.into().replace('\n', ""),
-        )));
-        self
-    }
-
     pub fn add_delete_text(mut self, text: impl Into<String>) -> Run {
         self.children.push(RunChild::DeleteText(DeleteText::new(
             text.into().replace('\n', ""),
@@ -183,14 +176,6 @@ impl Run {
         self
     }
 
-    pub(crate) fn add_delete_text_without_escape(mut self, text: impl Into<String>) -> Run {
-        self.children
-            .push(RunChild::DeleteText(DeleteText::without_escape(
-                text.into().replace('\n', ""),
-            )));
-        self
-    }
-
     pub fn add_field_char(mut self, t: crate::types::FieldCharType, dirty: bool) -> Run {
         let mut f = FieldChar::new(t);
         if dirty {
@@ -400,7 +385,7 @@ impl BuildXML for RunChild {
             RunChild::DeleteInstrText(c) => c.build_to(stream),
             RunChild::InstrTextString(instruction) => XMLBuilder::from(stream)
                 .write(XmlEvent::start_element("w:instrText").attr("xml:space", "preserve"))?
-                .plain_text(&crate::escape::escape(instruction))?
+                .plain_text(instruction)?
                 .close()?
                 .into_inner(),
             RunChild::FootnoteReference(c) => c.build_to(stream),
diff --git a/docx-core/src/documents/elements/run_fonts.rs b/docx-core/src/documents/elements/run_fonts.rs
index ddd28ad..2ff1203 100644
--- a/docx-core/src/documents/elements/run_fonts.rs
+++ b/docx-core/src/documents/elements/run_fonts.rs
@@ -2,7 +2,6 @@ use serde::{Deserialize, Serialize};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 /*
@@ -42,47 +41,47 @@ impl RunFonts {
     }
 
     pub fn ascii(mut self, f: impl Into<String>) -> Self {
-        self.ascii = Some(escape_owned(f.into()));
+        self.ascii = Some(f.into());
         self
     }
 
     pub fn hi_ansi(mut self, f: impl Into<String>) -> Self {
-        self.hi_ansi = Some(escape_owned(f.into()));
+        self.hi_ansi = Some(f.into());
         self
     }
 
     pub fn east_asia(mut self, f: impl Into<String>) -> Self {
-        self.east_asia = Some(escape_owned(f.into()));
+        self.east_asia = Some(f.into());
         self
     }
 
     pub fn cs(mut self, f: impl Into<String>) -> Self {
-        self.cs = Some(escape_owned(f.into()));
+        self.cs = Some(f.into());
         self
     }
 
     pub fn ascii_theme(mut self, f: impl Into<String>) -> Self {
-        self.ascii_theme = Some(escape_owned(f.into()));
+        self.ascii_theme = Some(f.into());
         self
     }
 
     pub fn hi_ansi_theme(mut self, f: impl Into<String>) -> Self {
-        self.hi_ansi_theme = Some(escape_owned(f.into()));
+        self.hi_ansi_theme = Some(f.into());
         self
     }
 
     pub fn east_asia_theme(mut self, f: impl Into<String>) -> Self {
-        self.east_asia_theme = Some(escape_owned(f.into()));
+        self.east_asia_theme = Some(f.into());
         self
     }
 
     pub fn cs_theme(mut self, f: impl Into<String>) -> Self {
-        self.cs_theme = Some(escape_owned(f.into()));
+        self.cs_theme = Some(f.into());
         self
     }
 
     pub fn hint(mut self, f: impl Into<String>) -> Self {
-        self.hint = Some(escape_owned(f.into()));
+        self.hint = Some(f.into());
         self
     }
 }
diff --git a/docx-core/src/documents/elements/run_style.rs b/docx-core/src/documents/elements/run_style.rs
index 4dc6133..69e6fa9 100644
--- a/docx-core/src/documents/elements/run_style.rs
+++ b/docx-core/src/documents/elements/run_style.rs
@@ -2,7 +2,6 @@ use serde::{Serialize, Serializer};
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, PartialEq)]
@@ -20,9 +19,7 @@ impl Default for RunStyle {
 
 impl RunStyle {
     pub fn new(val: impl Into<String>) -> RunStyle {
-        RunStyle {
-            val: escape_owned(val.into()),
-        }
+        RunStyle { val: val.into() }
     }
 }
 
diff --git a/docx-core/src/documents/elements/style.rs b/docx-core/src/documents/elements/style.rs
index 7cf4d00..271a9ba 100644
--- a/docx-core/src/documents/elements/style.rs
+++ b/docx-core/src/documents/elements/style.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::types::*;
 use crate::xml_builder::*;
 use crate::StyleType;
@@ -69,7 +68,7 @@ impl Style {
     pub fn new(style_id: impl Into<String>, style_type: StyleType) -> Self {
         let default = Default::default();
         Style {
-            style_id: escape_owned(style_id.into()),
+            style_id: style_id.into(),
             style_type,
             ..default
         }
diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index b821801..e1b514c 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -2,9 +2,9 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum TocContent {
@@ -105,7 +105,7 @@ impl TableOfContents {
 
     pub fn delete(mut self, author: impl Into<String>, date: impl Into<String>) -> Self {
         self.delete = Some(TableOfContentsReviewData {
-            author: escape::escape_owned(author.into()),
+            author: author.into(),
             date: date.into(),
         });
         self
diff --git a/docx-core/src/documents/elements/text.rs b/docx-core/src/documents/elements/text.rs
index 1d5b5dd..6caab89 100644
--- a/docx-core/src/documents/elements/text.rs
+++ b/docx-core/src/documents/elements/text.rs
@@ -3,7 +3,6 @@ use serde::Deserialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape_owned;
 use crate::xml_builder::*;
 
 #[derive(Debug, Clone, Deserialize, PartialEq)]
@@ -15,13 +14,6 @@ pub struct Text {
 
 impl Text {
     pub fn new(text: impl Into<String>) -> Text {
-        Text {
-            text: escape_owned(text.into()),
-            preserve_space: true,
-        }
-    }
-
-    pub(crate) fn without_escape(text: impl Into<String>) -> Text {
         Text {
             text: text.into(),
             preserve_space: true,
diff --git a/docx-core/src/documents/webextension.rs b/docx-core/src/documents/webextension.rs
index a9739dd..dd56cb4 100644
--- a/docx-core/src/documents/webextension.rs
+++ b/docx-core/src/documents/webextension.rs
@@ -2,7 +2,6 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::BuildXML;
-use crate::escape::escape;
 use crate::xml_builder::*;
 
 #[derive(Serialize, Debug, PartialEq, Clone)]
@@ -50,7 +49,7 @@ impl WebExtension {
 
     pub fn property(mut self, name: impl Into<String>, value: impl Into<String>) -> Self {
         let v = value.into();
-        let v = format!("&quot;{}&quot;", escape(&v).replace("&quot;", "\\&quot;"));
+        let v = format!("\"{}\"", v.replace('"', "\\\""));
         self.properties.push(WebExtensionProperty::new(name, v));
         self
     }
diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..53a8d13 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -32,6 +32,7 @@ pub(crate) fn escape_owned(text: String) -> String {
     }
 }
 
+#[allow(dead_code)]
 pub(crate) fn replace_escaped(text: &str) -> String {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..b49aae4 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -2,7 +2,6 @@ use std::io::Read;
 use std::str::FromStr;
 
 use super::*;
-use crate::escape;
 
 impl ElementReader for Comment {
     fn read<R: Read>(
@@ -12,7 +11,7 @@ impl ElementReader for Comment {
         let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
-            comment = comment.author(escape::escape(author.as_str()));
+            comment = comment.author(author);
         };
         if let Some(date) = read(attrs, "date") {
             comment = comment.date(date);
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0ff2425..6e54683 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -5,7 +5,6 @@ use std::str::FromStr;
 
 use super::Run;
 
-use crate::escape::replace_escaped;
 use crate::types::BreakType;
 use crate::{reader::*, FieldCharType};
 
@@ -156,19 +155,19 @@ impl ElementReader for Run {
                 }
                 Ok(XmlEvent::Characters(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text(c);
                     }
                     _ => {}
                 },
                 Ok(XmlEvent::Whitespace(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text(c);
                     }
                     _ => {}
                 },
diff --git a/docx-core/src/xml/writer.rs b/docx-core/src/xml/writer.rs
index 1575b27..4f1f9b2 100644
--- a/docx-core/src/xml/writer.rs
+++ b/docx-core/src/xml/writer.rs
@@ -8,6 +8,7 @@ use quick_xml::Writer as QuickWriter;
 use smallvec::SmallVec;
 
 use super::common::XmlVersion;
+use crate::escape::{escape, escape_owned};
 
 pub type Result<T> = std::result::Result<T, Error>;
 
@@ -53,7 +54,6 @@ impl From<quick_xml::Error> for Error {
 #[derive(Clone, Debug)]
 pub struct EmitterConfig {
     pub write_document_declaration: bool,
-    pub perform_escaping: bool,
     pub perform_indent: bool,
     pub line_separator: Cow<'static, str>,
 }
@@ -62,7 +62,6 @@ impl Default for EmitterConfig {
     fn default() -> Self {
         Self {
             write_document_declaration: true,
-            perform_escaping: true,
             perform_indent: false,
             line_separator: Cow::Borrowed("\n"),
         }
@@ -73,7 +72,6 @@ impl EmitterConfig {
     pub fn create_writer<W: Write>(&self, writer: W) -> EventWriter<W> {
         EventWriter {
             writer: QuickWriter::new(writer),
-            perform_escaping: self.perform_escaping,
             element_stack: Vec::new(),
             element_names: Vec::new(),
             pending_start: SmallVec::new(),
@@ -90,7 +88,6 @@ struct ElementState {
 
 pub struct EventWriter<W: Write> {
     writer: QuickWriter<W>,
-    perform_escaping: bool,
     element_stack: Vec<ElementState>,
     element_names: Vec<u8>,
     pending_start: SmallVec<[u8; 128]>,
@@ -143,12 +140,9 @@ impl<W: Write> EventWriter<W> {
             }
             XmlEvent::Characters(text) => {
                 self.flush_pending()?;
-                let text_event = if self.perform_escaping {
-                    BytesText::new(text.as_ref())
-                } else {
-                    BytesText::from_escaped(text.as_ref())
-                };
-                self.writer.write_event(Event::Text(text_event))?;
+                let text = escape_owned(text.into_owned());
+                self.writer
+                    .write_event(Event::Text(BytesText::from_escaped(text)))?;
             }
         }
         Ok(())
@@ -231,22 +225,15 @@ impl From<String> for XmlEvent<'static> {
 }
 
 impl<'a> StartElement<'a> {
-    /// Appends an attribute with an already escaped string value.
-    ///
-    /// The value is copied directly into the start tag and is not XML-escaped.
-    pub fn attr(mut self, name: &str, value: &str) -> Self {
-        self.encoded.push(b' ');
-        self.encoded.extend_from_slice(name.as_bytes());
-        self.encoded.extend_from_slice(b"=\"");
-        self.encoded.extend_from_slice(value.as_bytes());
-        self.encoded.push(b'"');
-        self
+    /// Appends an attribute, XML-escaping its value into the start tag.
+    pub fn attr(self, name: &str, value: &str) -> Self {
+        self.attr_display(name, value)
     }
 
     /// Appends an attribute by formatting its value directly into the start tag.
     ///
     /// This avoids allocating an intermediate `String`. The formatted value is
-    /// not XML-escaped.
+    /// XML-escaped.
     pub fn attr_display(mut self, name: &str, value: impl fmt::Display) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
@@ -265,7 +252,19 @@ struct AttributeValueWriter<'a>(&'a mut SmallVec<[u8; 128]>);
 
 impl fmt::Write for AttributeValueWriter<'_> {
     fn write_str(&mut self, value: &str) -> fmt::Result {
-        self.0.extend_from_slice(value.as_bytes());
+        let needs_escape = value.bytes().any(|byte| {
+            matches!(
+                byte,
+                b'&' | b'<' | b'>' | b'"' | b'\'' | b'\n' | b'\r' | b'\t'
+            )
+        });
+        if needs_escape {
+            // A literal tab would be normalized to a space by XML parsers.
+            let escaped = escape(value).replace('\t', "&#x9;");
+            self.0.extend_from_slice(escaped.as_bytes());
+        } else {
+            self.0.extend_from_slice(value.as_bytes());
+        }
         Ok(())
     }
 }
diff --git a/docx-core/src/xml_builder/mod.rs b/docx-core/src/xml_builder/mod.rs
index d9dee22..55b762e 100644
--- a/docx-core/src/xml_builder/mod.rs
+++ b/docx-core/src/xml_builder/mod.rs
@@ -44,7 +44,6 @@ impl<W: Write> XMLBuilder<W> {
     pub(crate) fn new(writer: W) -> Self {
         let config = EmitterConfig {
             write_document_declaration: false,
-            perform_escaping: false,
             perform_indent: false,
             line_separator: "".into(),
         };
-- 
2.43.0


From 7a62b33004bf6e971bfbaf555426256c75621390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:01 +0000
Subject: [PATCH 03/66] fix: report truncated, unclosed or too deeply nested
 XML instead of looping or overflowing

Element readers wait for their end tag, which never comes when the document
ends early, so reading a truncated part never returned. Corrupt archive data
and dishonest entry sizes no longer panic either.
---
 docx-core/src/reader/custom_properties.rs |  1 +
 docx-core/src/reader/ignore.rs            | 14 ++++---
 docx-core/src/reader/numberings.rs        |  2 +
 docx-core/src/reader/read_zip.rs          |  7 +++-
 docx-core/src/reader/xml_parser.rs        | 50 ++++++++++++++++++++++-
 5 files changed, 65 insertions(+), 9 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..d3f1928 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -37,6 +37,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..d899261 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -6,12 +6,16 @@ use super::*;
 pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mut EventReader<R>) {
     if ignore == el {
         loop {
-            let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match r.next_event() {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                // The reader reports the same error to the caller again.
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..cb9e5bd 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -54,6 +54,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -100,6 +101,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..daf22c2 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -15,9 +15,12 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The recorded size is not trustworthy, so do not reserve more than a
+    // reasonable amount up front.
+    let capacity = usize::try_from(xml.size()).unwrap_or(0).min(1 << 20);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::from)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..6e888ae 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -2,11 +2,16 @@ use std::collections::VecDeque;
 use std::io::{BufReader, Read};
 
 use quick_xml::encoding::Decoder;
+use quick_xml::errors::IllFormedError;
 use quick_xml::escape::unescape;
 use quick_xml::events::{BytesEnd, BytesRef, BytesStart, BytesText, Event};
 use quick_xml::Reader;
 use quick_xml::XmlVersion;
 
+/// Element readers recurse, so deeper documents are rejected before they can
+/// exhaust the stack.
+const MAX_DEPTH: usize = 256;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct OwnedName {
     pub local_name: String,
@@ -61,7 +66,10 @@ pub struct EventReader<R: Read> {
     reader: Reader<BufReader<R>>,
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
+    depth: usize,
     finished: bool,
+    end_reported: bool,
+    error: Option<quick_xml::Error>,
 }
 
 impl<R: Read> EventReader<R> {
@@ -77,12 +85,50 @@ impl<R: Read> EventReader<R> {
             reader,
             buf: Vec::new(),
             pending: VecDeque::new(),
+            depth: 0,
             finished: false,
+            end_reported: false,
+            error: None,
         }
     }
 
+    /// Returns the next event.
+    ///
+    /// A document that ends inside an element is an error, and so is reading
+    /// past the end of the document. Once an error was returned every further
+    /// call returns it again, so that no caller can loop on a broken document.
     pub fn next_event(&mut self) -> Result<XmlEvent, quick_xml::Error> {
-        self.read_next()
+        if let Some(error) = &self.error {
+            return Err(error.clone());
+        }
+        let result = self.read_next().and_then(|event| {
+            self.check_structure(&event)?;
+            Ok(event)
+        });
+        if let Err(error) = &result {
+            self.error = Some(error.clone());
+        }
+        result
+    }
+
+    fn check_structure(&mut self, event: &XmlEvent) -> Result<(), IllFormedError> {
+        match event {
+            XmlEvent::StartElement { name, .. } => {
+                self.depth += 1;
+                if self.depth > MAX_DEPTH {
+                    return Err(IllFormedError::MissingEndTag(name.local_name.clone()));
+                }
+            }
+            XmlEvent::EndElement { .. } => self.depth = self.depth.saturating_sub(1),
+            XmlEvent::EndDocument => {
+                if self.depth > 0 || self.end_reported {
+                    return Err(IllFormedError::MissingEndTag(String::new()));
+                }
+                self.end_reported = true;
+            }
+            XmlEvent::Characters(_) | XmlEvent::Whitespace(_) => {}
+        }
+        Ok(())
     }
 
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
@@ -216,7 +262,7 @@ impl<R: Read> Iterator for EventReader<R> {
         if self.finished {
             return None;
         }
-        match self.read_next() {
+        match self.next_event() {
             Ok(XmlEvent::EndDocument) => {
                 self.finished = true;
                 Some(Ok(XmlEvent::EndDocument))
-- 
2.43.0


From 3206922514c5ed2feae59722c7ba2348948b14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:21:41 +0000
Subject: [PATCH 04/66] fix: look attributes up by name and do not panic when
 one is missing or malformed

Reading positional attributes made the result depend on attribute order and
indexed past the end for elements without attributes.
---
 docx-core/src/documents/content_types.rs    | 13 ++++++-----
 docx-core/src/reader/attributes/val.rs      |  2 +-
 docx-core/src/reader/attributes/width.rs    |  2 +-
 docx-core/src/reader/comment.rs             |  2 +-
 docx-core/src/reader/comment_extended.rs    |  2 +-
 docx-core/src/reader/level.rs               | 25 ++++++++++++++-------
 docx-core/src/reader/level_override.rs      |  6 +++--
 docx-core/src/reader/numbering_property.rs  |  8 +++++--
 docx-core/src/reader/numberings.rs          | 13 +++++++----
 docx-core/src/reader/paragraph_property.rs  | 12 +++++++---
 docx-core/src/reader/run.rs                 |  4 ++--
 docx-core/src/reader/run_property.rs        | 20 +++++++++++++----
 docx-core/src/reader/style.rs               |  4 +++-
 docx-core/src/reader/table.rs               |  4 +++-
 docx-core/src/reader/table_cell_property.rs | 16 ++++++-------
 docx-core/src/reader/table_property.rs      |  4 +++-
 16 files changed, 92 insertions(+), 45 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..95c1a3f 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -4,7 +4,7 @@ use std::collections::BTreeMap;
 use std::io::{Read, Write};
 
 use crate::documents::BuildXML;
-use crate::reader::{FromXML, ReaderError};
+use crate::reader::{read, FromXML, ReaderError};
 use crate::xml_builder::*;
 
 #[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
@@ -185,16 +185,19 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        let content_type = read(&attributes, "ContentType");
+                        let path = read(&attributes, "PartName")
+                            .or_else(|| read(&attributes, "Extension"));
+                        if let (Some(content_type), Some(path)) = (content_type, path) {
+                            s = s.add_content(path, content_type);
+                        }
                     }
                     depth += 1;
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
                     depth -= 1;
                 }
-                Err(_) => {}
+                Err(_) => return Err(ReaderError::XMLReadError),
                 _ => {}
             }
         }
diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..16ce58c 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -17,7 +17,7 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
         let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        Ok(v.saturating_mul(20))
     } else {
         Ok(f64::from_str(v)? as i32)
     }
diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index b49aae4..6fa085f 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -8,7 +8,7 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(author);
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..88042a2 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,8 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
-                            style_id = Some(id);
+                            style_id = read_val(&attributes);
                         }
                         XMLElement::ParagraphProperty => {
                             if let Ok(pr) = ParagraphProperty::read(r, attrs) {
@@ -52,27 +51,37 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                start = Start::new(usize::from_str(&v)?);
+                            }
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                num_fmt = NumberFormat::new(v);
+                            }
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            if let Some(v) = read_val(&attributes) {
+                                suffix = LevelSuffixType::from_str(&v)?;
+                            }
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                level_text = LevelText::new(v);
+                            }
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) = read_val(&attributes).map(|v| u32::from_str(&v)) {
                                 level_restart = Some(LevelRestart::new(v));
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                jc = LevelJc::new(v);
+                            }
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..c29a902 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,7 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        if let Some(Ok(level)) = read(attrs, "ilvl").map(|v| usize::from_str(&v)) {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,7 +19,9 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
+                                if let Some(Ok(val)) =
+                                    read_val(&attributes).map(|v| usize::from_str(&v))
+                                {
                                     o = o.start(val);
                                 }
                                 continue;
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..cc28d08 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,15 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                level = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                id = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index cb9e5bd..93c635d 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,14 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.style_link(v);
+                                                }
                                             }
                                             XMLElement::NumStyleLink => {
-                                                abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.num_style_link(v);
+                                                }
                                             }
                                             _ => {}
                                         }
@@ -80,7 +83,9 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num_id = usize::from_str(&v)?;
+                                                }
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..3b14025 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,13 +42,17 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| AlignmentType::from_str(&v))
+                            {
                                 p = p.align(v);
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| TextAlignmentType::from_str(&v))
+                            {
                                 p = p.text_alignment(v);
                             }
                             continue;
@@ -62,7 +66,9 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            if let Some(v) = read_val(&attributes) {
+                                p = p.style(&v);
+                            }
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 6e54683..9f15d4f 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -87,8 +87,8 @@ impl ElementReader for Run {
                                 XMLElement::Text => text_state = TextState::Text,
                                 XMLElement::DeleteText => text_state = TextState::Delete,
                                 XMLElement::Break => {
-                                    if let Some(a) = attributes.first() {
-                                        run = run.add_break(BreakType::from_str(&a.value)?)
+                                    if let Some(v) = read(&attributes, "type") {
+                                        run = run.add_break(BreakType::from_str(&v)?)
                                     } else {
                                         run = run.add_break(BreakType::TextWrapping)
                                     }
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..fd8e0c7 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.highlight(v);
+                            }
+                        }
                         XMLElement::Strike => {
                             if !read_bool(&attributes) {
                                 rp.strike = Some(Strike::new().disable());
@@ -123,13 +127,17 @@ impl ElementReader for RunProperty {
                             rp = rp.dstrike();
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| VertAlignType::from_str(&v))
+                            {
                                 rp = rp.vert_align(v)
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.size(f64::from_str(&v)? as usize)
+                            }
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +160,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.underline(v);
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..bb9557a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,9 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                style = style.name(v);
+                            }
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..82d4211 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,9 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                t = t.align(TableAlignmentType::from_str(&v)?);
+                            }
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 8aa7218..9579b6b 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -31,21 +31,21 @@ impl ElementReader for TableCellProperty {
                             property = property.width(w, width_type);
                         }
                         XMLElement::TableGridSpan => {
-                            if let Some(a) = attributes.first() {
-                                property = property.grid_span(usize::from_str(&a.value)?)
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.grid_span(usize::from_str(&v)?)
                             }
                         }
                         XMLElement::TableVMerge => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_merge(VMergeType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_merge(VMergeType::from_str(&v)?);
                             } else {
                                 // Treat as a continue without attribute
                                 property = property.vertical_merge(VMergeType::Continue)
                             }
                         }
                         XMLElement::VAlign => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_align(VAlignType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_align(VAlignType::from_str(&v)?);
                             }
                         }
                         XMLElement::Shading => {
@@ -54,8 +54,8 @@ impl ElementReader for TableCellProperty {
                             }
                         }
                         XMLElement::TextDirection => {
-                            if let Some(a) = attributes.first() {
-                                if let Ok(v) = TextDirectionType::from_str(&a.value) {
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TextDirectionType::from_str(&v) {
                                     property = property.text_direction(v);
                                 }
                             }
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..810a6c6 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -37,7 +37,9 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) =
+                                read_val(&attributes).map(|v| TableAlignmentType::from_str(&v))
+                            {
                                 tp = tp.align(v);
                             }
                         }
-- 
2.43.0


From 190bb48878791290fd5914d5b98808ae56ab69bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:22:51 +0000
Subject: [PATCH 05/66] fix: keep several custom XML items apart

Each item's relationships pointed at the first item's properties, the content
type was registered under the web extension counter, and the relationship id
of the first item collided with that of the footnotes part.
---
 docx-core/src/documents/content_types.rs    |  2 +-
 docx-core/src/documents/custom_item_rels.rs | 10 +++++++++-
 docx-core/src/documents/document_rels.rs    |  2 +-
 docx-core/src/documents/mod.rs              |  4 +++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 95c1a3f..cafe4ff 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..855220f 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -8,6 +8,8 @@ use crate::xml_builder::*;
 #[serde(rename_all = "camelCase")]
 pub struct CustomItemRels {
     custom_item_count: usize,
+    #[serde(skip)]
+    preceding_items: usize,
 }
 
 impl CustomItemRels {
@@ -15,6 +17,12 @@ impl CustomItemRels {
         Default::default()
     }
 
+    /// Relationships of an item that follows `preceding_items` other items.
+    pub fn after(mut self, preceding_items: usize) -> Self {
+        self.preceding_items = preceding_items;
+        self
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -33,7 +41,7 @@ impl BuildXML for CustomItemRels {
                 b.relationship(
           &format!("rId{}", id + 1),
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.preceding_items + id + 1),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 4484aa7..04e20bb 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rIdCustomXml{}", i + 1),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..02bfd5b 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -684,7 +684,9 @@ impl Docx {
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::new()
+            .after(self.custom_items.len())
+            .add_item();
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
-- 
2.43.0


From 0510058de07bbdf6494a5836d330d56fda477aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:24:54 +0000
Subject: [PATCH 06/66] fix: parse custom XML without recursion and write it
 escaped

Malformed custom XML panicked instead of being reported, a long document
overflowed the stack because every event was one more call, text after a
child element replaced the text before it, and values containing markup
characters were written back as markup.
---
 docx-core/src/xml_json/mod.rs | 145 +++++++++++-----------------------
 1 file changed, 45 insertions(+), 100 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..f5387ef 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,7 +13,8 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
-use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
+use crate::escape::escape;
+use crate::reader::{EventReader, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
 #[derive(Debug, Clone)]
@@ -59,13 +60,13 @@ impl XmlData {
         write!(f, "<{}", self.name)?;
 
         for (key, val) in self.attributes.iter() {
-            write!(f, r#" {key}="{val}""#)?;
+            write!(f, r#" {key}="{}""#, escape(val))?;
         }
 
         f.write_char('>')?;
 
         if let Some(ref data) = self.data {
-            write!(f, "{data}")?
+            f.write_str(&escape(data))?
         }
 
         for child in self.children.iter() {
@@ -99,111 +100,59 @@ fn map_owned_attributes(attrs: Vec<OwnedAttribute>) -> Vec<(String, String)> {
         .collect()
 }
 
-fn parse(
-    mut data: Vec<XmlEvent>,
-    current: Option<XmlData>,
-    mut current_vec: Vec<XmlData>,
-    trim: bool,
-    current_namespace: Namespace,
-) -> Result<(Vec<XmlData>, Vec<XmlEvent>), String> {
-    if let Some(elmt) = data.pop() {
-        match elmt {
-            XmlEvent::StartElement {
-                name,
-                attributes,
-                namespace,
-            } => {
-                let fmt_name = match name.prefix {
-                    Some(prefix) if !name.local_name.is_empty() => {
-                        format!("{}:{}", prefix, name.local_name)
-                    }
-                    Some(prefix) => prefix,
-                    None => name.local_name,
-                };
+fn format_name(name: OwnedName) -> String {
+    match name.prefix {
+        Some(prefix) if !name.local_name.is_empty() => format!("{}:{}", prefix, name.local_name),
+        Some(prefix) => prefix,
+        None => name.local_name,
+    }
+}
 
-                let attributes = if namespace == current_namespace {
-                    attributes
-                } else {
-                    let mut attributes = attributes;
-                    let n = namespace.clone();
-                    let ns = n
-                        .into_iter()
-                        .filter(|(_k, v)| {
-                            (!v.is_empty())
-                                && (v != "http://www.w3.org/2000/xmlns/")
-                                && (v != "http://www.w3.org/XML/1998/namespace")
-                        })
-                        .map(|(k, v)| OwnedAttribute {
-                            name: OwnedName {
-                                local_name: k.to_string(),
-                                namespace: if v.is_empty() {
-                                    None
-                                } else {
-                                    Some(v.to_string())
-                                },
-                                prefix: Some("xmlns".to_string()),
-                            },
-                            value: v.to_string(),
-                        });
-                    attributes.extend(ns);
-                    attributes
-                };
-
-                let inner = XmlData {
-                    name: fmt_name,
-                    attributes: map_owned_attributes(attributes),
-                    data: None,
-                    children: Vec::new(),
-                };
-
-                let (inner, rest) = parse(data, Some(inner), Vec::new(), trim, namespace.clone())?;
-
-                if let Some(mut crnt) = current {
-                    crnt.children.extend(inner);
-                    parse(rest, Some(crnt), current_vec, trim, namespace)
-                } else {
-                    current_vec.extend(inner);
-                    parse(rest, None, current_vec, trim, namespace)
-                }
-            }
+fn parse<R: Read>(parser: EventReader<R>, trim: bool) -> Result<Vec<XmlData>, String> {
+    let mut roots = Vec::new();
+    let mut open: Vec<XmlData> = Vec::new();
+
+    for event in parser {
+        match event.map_err(|e| e.to_string())? {
+            XmlEvent::StartElement {
+                name, attributes, ..
+            } => open.push(XmlData {
+                name: format_name(name),
+                attributes: map_owned_attributes(attributes),
+                data: None,
+                children: Vec::new(),
+            }),
             XmlEvent::Characters(chr) => {
-                let chr = if trim { chr.trim().to_string() } else { chr };
-                if let Some(mut crnt) = current {
-                    crnt.data = Some(chr);
-                    parse(data, Some(crnt), current_vec, trim, current_namespace)
+                let chr = if trim { chr.trim() } else { chr.as_str() };
+                if let Some(current) = open.last_mut() {
+                    current.data.get_or_insert_default().push_str(chr);
                 } else {
-                    Err("Invalid form of XML doc".to_string())
+                    return Err("Invalid form of XML doc".to_string());
                 }
             }
             XmlEvent::EndElement { name } => {
-                let fmt_name = match &name.prefix {
-                    Some(prefix) if !name.local_name.is_empty() => {
-                        format!("{}:{}", prefix, name.local_name)
+                let name = format_name(name);
+                match open.pop() {
+                    Some(current) if current.name == name => {
+                        if let Some(parent) = open.last_mut() {
+                            parent.children.push(current);
+                        } else {
+                            roots.push(current);
+                        }
                     }
-                    Some(prefix) => prefix.clone(),
-                    None => name.local_name.clone(),
-                };
-                if let Some(crnt) = current {
-                    if crnt.name == fmt_name {
-                        current_vec.push(crnt);
-                        Ok((current_vec, data))
-                    } else {
-                        Err(format!(
+                    Some(current) => {
+                        return Err(format!(
                             "Invalid end tag: expected {}, got {}",
-                            crnt.name, name.local_name
+                            current.name, name
                         ))
                     }
-                } else {
-                    Err(format!("Invalid end tag: {}", name.local_name))
+                    None => return Err(format!("Invalid end tag: {name}")),
                 }
             }
-            _ => parse(data, current, current_vec, trim, current_namespace),
+            XmlEvent::Whitespace(_) | XmlEvent::EndDocument => {}
         }
-    } else if let Some(_current) = current {
-        Err("Invalid end tag".to_string())
-    } else {
-        Ok((current_vec, Vec::new()))
     }
+    Ok(roots)
 }
 
 impl XmlDocument {
@@ -211,12 +160,8 @@ impl XmlDocument {
     where
         R: Read,
     {
-        let parser = EventReader::new(source);
-        let mut events: Vec<XmlEvent> = parser.into_iter().map(|x| x.unwrap()).collect();
-        events.reverse();
-
-        parse(events, None, Vec::new(), trim, Namespace::empty())
-            .map(|(data, _)| XmlDocument { data })
+        parse(EventReader::new(source), trim)
+            .map(|data| XmlDocument { data })
             .map_err(ParseXmlError)
     }
 }
-- 
2.43.0


From 89ea307dd5f40c8311e19bada20f3fb2274461c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:43 +0000
Subject: [PATCH 07/66] fix: collect every comment once and every hyperlink,
 wherever it is nested

Comments and hyperlinks in sections, structured data tags and tracked changes
were left out of comments.xml and the relationships, a comment with several
paragraphs was written several times, a reply to an unknown comment lost its
entry, and relationships came out in random order. Comments read from a file
were likewise not attached to nested ranges. Use the shared tree traversal
for both.
---
 docx-core/src/documents/document_tree.rs |  44 +-
 docx-core/src/documents/mod.rs           | 662 +++--------------------
 2 files changed, 113 insertions(+), 593 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..58156e3 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
-    HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
-    Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
-    StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
+    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
+    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
+    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -27,6 +28,12 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits an embedded DrawingML picture.
     fn visit_picture(&mut self, _picture: &mut Pic) {}
 
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
+
+    /// Visits the start of a commented range.
+    fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
+
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
 }
@@ -70,9 +77,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -84,9 +91,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -131,9 +138,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -157,9 +164,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -168,6 +175,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
@@ -176,23 +184,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(start) => visitor.visit_comment_start(start),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(start) => visitor.visit_comment_start(start),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -202,7 +215,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -216,6 +230,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                     visitor.visit_picture(picture);
                 }
             }
+            RunChild::CommentStart(start) => visitor.visit_comment_start(start),
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
             RunChild::Text(_)
             | RunChild::Sym(_)
@@ -225,7 +240,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 02bfd5b..2a3922c 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,6 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     MediaRegistry,
@@ -919,297 +920,82 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
-    fn insert_comment_to_map(
-        &self,
-        comment_map: &mut HashMap<usize, String>,
-        c: &CommentRangeStart,
-    ) {
-        let comment = c.get_comment_ref();
-        let comment_id = comment.id();
-        for child in &comment.children {
-            if let CommentChild::Paragraph(child) = child {
-                let para_id = child.id.clone();
-                comment_map.insert(comment_id, para_id);
-            }
-            // TODO: Support table in comment
-        }
-    }
-
     // Traverse and clone comments from document and add to comments node.
     fn update_dependencies(&mut self) {
-        let mut comments: Vec<Comment> = vec![];
-        let mut comments_extended: Vec<CommentExtended> = vec![];
-        let mut comment_map: HashMap<usize, String> = HashMap::new();
-
-        let mut hyperlink_map: HashMap<String, String> = HashMap::new();
-
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            self.insert_comment_to_map(&mut comment_map, c);
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            }
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    self.insert_comment_to_map(&mut comment_map, c);
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_comment_map_in_table(table, &mut comment_map, &mut hyperlink_map);
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
-        }
+        let mut collector = DependencyCollector::default();
+        visit_document(&mut self.document, &mut collector);
 
-        if comment_map.is_empty() {
-            for (id, path) in hyperlink_map {
+        let mut hyperlink_ids: HashSet<String> = self
+            .document_rels
+            .hyperlinks
+            .iter()
+            .map(|(id, ..)| id.clone())
+            .collect();
+        for (id, path) in collector.hyperlinks {
+            if hyperlink_ids.insert(id.clone()) {
                 self.document_rels
                     .hyperlinks
-                    .push((id, path, "External".to_owned()));
+                    .push((id, path, "External".to_owned())); // Now support external only
             }
+        }
+
+        if collector.comments.is_empty() {
             return;
         }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            push_comment_and_comment_extended(
-                                &mut comments,
-                                &mut comments_extended,
-                                &comment_map,
-                                c,
-                            );
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            };
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_dependencies_in_table(
-                        table,
-                        &mut comments,
-                        &mut comments_extended,
-                        &mut comment_map,
-                        &mut hyperlink_map,
-                    );
+        // If this document has comments, set comments.xml to document_rels.
+        // This is because comments.xml without comment cause an error on word online.
+        self.document_rels.has_comments = true;
+
+        // Replies refer to the last paragraph of their parent.
+        let last_paragraph_by_comment: HashMap<usize, String> = collector
+            .comments
+            .iter()
+            .filter_map(|comment| {
+                let id = comment_paragraph_ids(comment).last()?;
+                Some((comment.id(), id.to_owned()))
+            })
+            .collect();
+        let resolved: HashSet<String> = self
+            .comments_extended
+            .children
+            .iter()
+            .filter(|extended| extended.done)
+            .map(|extended| extended.paragraph_id.clone())
+            .collect();
+
+        let mut comments_extended = vec![];
+        for comment in &collector.comments {
+            let parent_paragraph_id = comment
+                .parent_comment_id
+                .and_then(|parent| last_paragraph_by_comment.get(&parent));
+            for id in comment_paragraph_ids(comment) {
+                let mut comment_extended = CommentExtended::new(id);
+                if let Some(parent_paragraph_id) = parent_paragraph_id {
+                    comment_extended = comment_extended.parent_paragraph_id(parent_paragraph_id);
                 }
-                DocumentChild::TableOfContents(toc) => {
-                    // TODO:refine later
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
+                if resolved.contains(id) {
+                    comment_extended = comment_extended.done();
                 }
-                _ => {}
+                comments_extended.push(comment_extended);
             }
         }
-        // If this document has comments, set comments.xml to document_rels.
-        // This is because comments.xml without comment cause an error on word online.
-        if !comments.is_empty() {
-            self.document_rels.has_comments = true;
-        }
 
         self.comments_extended
             .add_comments_extended(comments_extended);
-
-        self.comments.add_comments(comments);
-
-        for (id, d) in hyperlink_map {
-            self.document_rels
-                .hyperlinks
-                .push((id, d, "External".to_string())); // Now support external only
-        }
+        self.comments.add_comments(collector.comments);
     }
 
     // Traverse and clone comments from document and add to comments node.
     // reader only
     pub(crate) fn store_comments(&mut self, comments: &[Comment]) {
-        let comments_by_id: HashMap<usize, &Comment> = comments
-            .iter()
-            .map(|comment| (comment.id(), comment))
-            .collect();
-        for child in &mut self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &mut paragraph.children {
-                        if let ParagraphChild::CommentStart(ref mut c) = child {
-                            let comment_id = c.get_id();
-                            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                                let comment = Comment::clone(comment);
-                                c.as_mut().comment(comment);
-                            }
-                        }
-                        if let ParagraphChild::Insert(ref mut insert) = child {
-                            for child in &mut insert.children {
-                                if let InsertChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                } else if let InsertChild::Delete(ref mut d) = child {
-                                    for child in &mut d.children {
-                                        if let DeleteChild::CommentStart(ref mut c) = child {
-                                            let comment_id = c.get_id();
-                                            if let Some(comment) =
-                                                comments_by_id.get(&comment_id).copied()
-                                            {
-                                                let comment = Comment::clone(comment);
-                                                c.as_mut().comment(comment);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let ParagraphChild::Delete(ref mut delete) = child {
-                            for child in &mut delete.children {
-                                if let DeleteChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => store_comments_in_table(table, &comments_by_id),
-                _ => {}
-            }
-        }
+        let mut store = CommentStore {
+            comments_by_id: comments
+                .iter()
+                .map(|comment| (comment.id(), comment))
+                .collect(),
+        };
+        visit_document(&mut self.document, &mut store);
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
@@ -1267,304 +1053,49 @@ impl Docx {
     }
 }
 
-fn collect_dependencies_in_paragraph(
-    paragraph: &Paragraph,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            };
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-                }
-            }
-        }
-    }
+/// Collects each comment once and the targets of external hyperlinks, in
+/// document order.
+#[derive(Default)]
+struct DependencyCollector {
+    comments: Vec<Comment>,
+    comment_ids: HashSet<usize>,
+    hyperlinks: Vec<(String, String)>,
 }
 
-fn collect_comment_map_in_paragraph(
-    paragraph: &Paragraph,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            let comment = c.get_comment_ref();
-            let comment_id = comment.id();
-            for child in &comment.children {
-                if let CommentChild::Paragraph(child) = child {
-                    comment_map.insert(comment_id, child.id.clone());
-                }
-            }
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            }
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    let comment = c.get_comment_ref();
-                    let comment_id = comment.id();
-                    for child in &comment.children {
-                        if let CommentChild::Paragraph(child) = child {
-                            comment_map.insert(comment_id, child.id.clone());
-                        }
-                    }
-                }
-            }
+impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        let comment = start.get_comment_ref();
+        if self.comment_ids.insert(comment.id()) {
+            self.comments.push(comment.clone());
         }
     }
-}
 
-fn collect_comment_map_in_table(
-    table: &Table,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_comment_map_in_paragraph(paragraph, comment_map, hyperlink_map);
-                    }
-                    TableCellContent::Table(table) => {
-                        collect_comment_map_in_table(table, comment_map, hyperlink_map)
-                    }
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                }
-            }
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            self.hyperlinks.push((rid.clone(), path.clone()));
         }
     }
 }
 
-fn collect_dependencies_in_table(
-    table: &Table,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_dependencies_in_paragraph(
-                            paragraph,
-                            comments,
-                            comments_extended,
-                            comment_map,
-                            hyperlink_map,
-                        );
-                    }
-                    TableCellContent::Table(table) => collect_dependencies_in_table(
-                        table,
-                        comments,
-                        comments_extended,
-                        comment_map,
-                        hyperlink_map,
-                    ),
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+/// Attaches the comments of a comments part to the ranges that refer to them.
+struct CommentStore<'a> {
+    comments_by_id: HashMap<usize, &'a Comment>,
 }
 
-fn store_comments_in_paragraph(
-    paragraph: &mut Paragraph,
-    comments_by_id: &HashMap<usize, &Comment>,
-) {
-    for child in &mut paragraph.children {
-        if let ParagraphChild::CommentStart(ref mut c) = child {
-            let comment_id = c.get_id();
-            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                let comment = Comment::clone(comment);
-                c.as_mut().comment(comment);
-            }
-        }
-        if let ParagraphChild::Insert(ref mut insert) = child {
-            for child in &mut insert.children {
-                if let InsertChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-        if let ParagraphChild::Delete(ref mut delete) = child {
-            for child in &mut delete.children {
-                if let DeleteChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
+impl DocumentTreeVisitor for CommentStore<'_> {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        if let Some(comment) = self.comments_by_id.get(&start.get_id()) {
+            start.comment(Comment::clone(comment));
         }
     }
 }
 
-fn store_comments_in_table(table: &mut Table, comments_by_id: &HashMap<usize, &Comment>) {
-    for TableChild::TableRow(row) in &mut table.rows {
-        for TableRowChild::TableCell(cell) in &mut row.cells {
-            for content in &mut cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        store_comments_in_paragraph(paragraph, comments_by_id)
-                    }
-                    TableCellContent::Table(ref mut table) => {
-                        store_comments_in_table(table, comments_by_id);
-                    }
-                    TableCellContent::StructuredDataTag(ref mut tag) => {
-                        for child in &mut tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(ref mut t) => {
-                        for child in &mut t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-
-                        for child in &mut t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+// TODO: Support table in comment
+fn comment_paragraph_ids(comment: &Comment) -> impl Iterator<Item = &str> {
+    comment.children.iter().filter_map(|child| match child {
+        CommentChild::Paragraph(paragraph) => Some(paragraph.id.as_str()),
+        CommentChild::Table(_) => None,
+    })
 }
 
 fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, usize>) {
@@ -2266,31 +1797,6 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-fn push_comment_and_comment_extended(
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &HashMap<usize, String>,
-    c: &CommentRangeStart,
-) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
-        // TODO: Support table in comment
-    }
-}
-
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
-- 
2.43.0


From f3e0dcde3677f40a81e23e790dfd8ebe76857166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:29:05 +0000
Subject: [PATCH 08/66] fix: number header and footer parts in the order they
 are written

References were numbered when a header was attached but parts were written in
document order, so attaching them in another order, or replacing one, made
references point at the wrong or a missing part. An even header or footer of
an added section did not enable even and odd headers.
---
 docx-core/src/documents/content_types.rs      | 20 +++++
 docx-core/src/documents/document.rs           | 79 +++++++++----------
 .../documents/elements/section_property.rs    | 48 ++++++++++-
 docx-core/src/documents/mod.rs                | 20 +++++
 4 files changed, 123 insertions(+), 44 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index cafe4ff..b44105e 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -130,6 +130,26 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Declares exactly the given numbers of header and footer parts.
+    pub(crate) fn set_headers_and_footers(mut self, headers: usize, footers: usize) -> Self {
+        for i in headers..self.header_count {
+            self.types.remove(&format!("/word/header{}.xml", i + 1));
+        }
+        for i in footers..self.footer_count {
+            self.types.remove(&format!("/word/footer{}.xml", i + 1));
+        }
+        self.header_count = self.header_count.min(headers);
+        self.footer_count = self.footer_count.min(footers);
+        while self.header_count < headers {
+            self = self.add_header();
+        }
+        while self.footer_count < footers {
+            self = self.add_footer();
+        }
+        self
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 3e66aa4..a79ddb4 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -252,60 +252,53 @@ impl Document {
         self
     }
 
-    /// Iterates headers in relationship creation order.
+    /// Iterates the properties of every section, the last section's first.
     ///
-    /// Relationship IDs are assigned to the document property first and then
-    /// to section children in insertion order. Preserving that order avoids a
-    /// sort and keeps double-digit IDs aligned with numbered package parts.
+    /// Header and footer parts are numbered in this order.
+    pub(crate) fn section_properties(&self) -> impl Iterator<Item = &SectionProperty> {
+        std::iter::once(&self.section_property).chain(self.children.iter().filter_map(|child| {
+            match child {
+                DocumentChild::Section(section) => Some(&section.property),
+                DocumentChild::Paragraph(paragraph) => paragraph.property.section_property.as_ref(),
+                _ => None,
+            }
+        }))
+    }
+
+    /// Iterates mutable section properties in the same order as
+    /// [`Self::section_properties`].
+    pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
+        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
+            |child| match child {
+                DocumentChild::Section(section) => Some(&mut section.property),
+                DocumentChild::Paragraph(paragraph) => paragraph.property.section_property.as_mut(),
+                _ => None,
+            },
+        ))
+    }
+
+    /// Iterates headers in package order.
     pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
-        self.section_property.headers().chain(
-            self.children
-                .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers()),
-        )
+        self.section_properties()
+            .flat_map(|property| property.headers())
     }
 
     /// Iterates mutable headers in the same order as [`Self::headers`].
     pub(crate) fn headers_mut(&mut self) -> impl Iterator<Item = &mut (String, Header)> {
-        self.section_property.headers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers_mut()),
-        )
-    }
-
-    /// Iterates footers in relationship creation order.
+        self.section_properties_mut()
+            .flat_map(|property| property.headers_mut())
+    }
+
+    /// Iterates footers in package order.
     pub(crate) fn footers(&self) -> impl Iterator<Item = &(String, Footer)> {
-        self.section_property.footers().chain(
-            self.children
-                .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers()),
-        )
+        self.section_properties()
+            .flat_map(|property| property.footers())
     }
 
     /// Iterates mutable footers in the same order as [`Self::footers`].
     pub(crate) fn footers_mut(&mut self) -> impl Iterator<Item = &mut (String, Footer)> {
-        self.section_property.footers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers_mut()),
-        )
+        self.section_properties_mut()
+            .flat_map(|property| property.footers_mut())
     }
 }
 
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..eca029f 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -2,7 +2,7 @@ use super::*;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{Footer, Header};
+use crate::{create_footer_rid, create_header_rid, Footer, Header};
 use std::io::Write;
 
 use serde::Serialize;
@@ -181,6 +181,52 @@ impl SectionProperty {
         .filter_map(Option::as_mut)
     }
 
+    /// Points the references of this section at the parts numbered after the
+    /// given counts. References without content have no part and are removed.
+    pub(crate) fn number_parts(&mut self, header_count: &mut usize, footer_count: &mut usize) {
+        let headers = [
+            ("default", &mut self.header_reference, &mut self.header),
+            (
+                "first",
+                &mut self.first_header_reference,
+                &mut self.first_header,
+            ),
+            (
+                "even",
+                &mut self.even_header_reference,
+                &mut self.even_header,
+            ),
+        ];
+        for (kind, reference, header) in headers {
+            *reference = header.as_mut().map(|(rid, _)| {
+                *header_count += 1;
+                *rid = create_header_rid(*header_count);
+                HeaderReference::new(kind, &*rid)
+            });
+        }
+
+        let footers = [
+            ("default", &mut self.footer_reference, &mut self.footer),
+            (
+                "first",
+                &mut self.first_footer_reference,
+                &mut self.first_footer,
+            ),
+            (
+                "even",
+                &mut self.even_footer_reference,
+                &mut self.even_footer,
+            ),
+        ];
+        for (kind, reference, footer) in footers {
+            *reference = footer.as_mut().map(|(rid, _)| {
+                *footer_count += 1;
+                *rid = create_footer_rid(*footer_count);
+                FooterReference::new(kind, &*rid)
+            });
+        }
+    }
+
     pub fn page_num_type(mut self, h: PageNumType) -> Self {
         self.page_num_type = Some(h);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 2a3922c..a47c1fa 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -439,6 +439,10 @@ impl Docx {
 
         let mut new_section = s;
 
+        if new_section.temp_even_header.is_some() || new_section.temp_even_footer.is_some() {
+            self.settings = self.settings.even_and_odd_headers();
+        }
+
         if let Some(header) = new_section.temp_header.take() {
             self.attach_section_header(&mut new_section, header, SectionProperty::header);
         }
@@ -840,9 +844,25 @@ impl Docx {
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
+        self.number_headers_and_footers();
         has_toc
     }
 
+    /// Numbers header and footer parts in the order they are written.
+    ///
+    /// Parts can be attached in any order, replaced, or come from a file, so
+    /// the ids they were given are only final once the document is complete.
+    fn number_headers_and_footers(&mut self) {
+        let (mut headers, mut footers) = (0, 0);
+        for property in self.document.section_properties_mut() {
+            property.number_parts(&mut headers, &mut footers);
+        }
+        self.document_rels.header_count = headers;
+        self.document_rels.footer_count = footers;
+        self.content_type =
+            std::mem::take(&mut self.content_type).set_headers_and_footers(headers, footers);
+    }
+
     /// Normalizes the document and collects metadata shared by buffered and
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
-- 
2.43.0


From 0efcbd15b4676bc39f44d1fa1ba22204fbb9e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:30:11 +0000
Subject: [PATCH 09/66] fix: read the headers and footers of every section

Only the last section's headers and footers were read; earlier sections kept
references to parts that were then missing when the document was saved.
---
 docx-core/src/reader/read_docx.rs | 140 ++++++++++++------------------
 1 file changed, 56 insertions(+), 84 deletions(-)

diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 24ef048..2af0f5b 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -229,93 +229,24 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     };
     docx = docx.document(document);
 
-    // assign headers
-    if let Some(h) = docx.document.section_property.header_reference.clone() {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx.document.header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+    // assign headers and footers to their sections
+    let mut header_and_footer_rels = vec![];
+    for property in docx.document.section_properties_mut() {
+        let (header_count, footer_count) =
+            attach_headers_and_footers(property, &headers, &footers, &mut header_and_footer_rels);
+        for _ in 0..header_count {
+            docx.document_rels.header_count += 1;
+            docx.content_type = std::mem::take(&mut docx.content_type).add_header();
         }
-    }
-    if let Some(ref h) = docx
-        .document
-        .section_property
-        .first_header_reference
-        .clone()
-    {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx
-                .document
-                .first_header_without_title_pg(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-    if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
-        if let Some((header, rels)) = headers.get(&h.id) {
-            docx.document = docx.document.even_header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-
-    // assign footers
-    if let Some(f) = docx.document.section_property.footer_reference.clone() {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx.document.footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
-    }
-
-    if let Some(ref f) = docx
-        .document
-        .section_property
-        .first_footer_reference
-        .clone()
-    {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx
-                .document
-                .first_footer_without_title_pg(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+        for _ in 0..footer_count {
+            docx.document_rels.footer_count += 1;
+            docx.content_type = std::mem::take(&mut docx.content_type).add_footer();
         }
     }
-    if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
-        if let Some((footer, rels)) = footers.get(&f.id) {
-            docx.document = docx.document.even_footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media
-            let media = rels.target_paths(IMAGE_TYPE);
-            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
-        }
+    for rels in header_and_footer_rels {
+        // Read media
+        let media = rels.target_paths(IMAGE_TYPE);
+        docx = add_images(docx, media, &mut archive, options.generate_image_previews);
     }
 
     // store comments to paragraphs.
@@ -400,6 +331,47 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     Ok(docx)
 }
 
+/// Attaches the parts a section refers to and returns how many headers and
+/// footers were found. A section may have a first page header that is not
+/// shown, so the title page setting is left alone.
+fn attach_headers_and_footers<'a>(
+    property: &mut SectionProperty,
+    headers: &'a HashMap<RId, (Header, ReadHeaderOrFooterRels)>,
+    footers: &'a HashMap<RId, (Footer, ReadHeaderOrFooterRels)>,
+    rels: &mut Vec<&'a ReadHeaderOrFooterRels>,
+) -> (usize, usize) {
+    let (mut header_count, mut footer_count) = (0, 0);
+    for (reference, target) in [
+        (&property.header_reference, &mut property.header),
+        (&property.first_header_reference, &mut property.first_header),
+        (&property.even_header_reference, &mut property.even_header),
+    ] {
+        let Some(id) = reference.as_ref().map(|reference| &reference.id) else {
+            continue;
+        };
+        if let Some((header, header_rels)) = headers.get(id) {
+            *target = Some((id.clone(), header.clone()));
+            rels.push(header_rels);
+            header_count += 1;
+        }
+    }
+    for (reference, target) in [
+        (&property.footer_reference, &mut property.footer),
+        (&property.first_footer_reference, &mut property.first_footer),
+        (&property.even_footer_reference, &mut property.even_footer),
+    ] {
+        let Some(id) = reference.as_ref().map(|reference| &reference.id) else {
+            continue;
+        };
+        if let Some((footer, footer_rels)) = footers.get(id) {
+            *target = Some((id.clone(), footer.clone()));
+            rels.push(footer_rels);
+            footer_count += 1;
+        }
+    }
+    (header_count, footer_count)
+}
+
 fn add_images(
     mut docx: Docx,
     media: Option<&std::collections::BTreeSet<(RId, PathBuf, Option<String>)>>,
-- 
2.43.0


From 2100618283d7793ff939dff448b87e0efb7f8930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:31:18 +0000
Subject: [PATCH 10/66] fix: give every picture and hyperlink a relationship of
 its own part

Hyperlinks in headers and footers had no relationship, ids read from a file
could collide with the fixed ids of other parts or with new links, and
pictures and links of a document that was read lost their data when it was
saved again.
---
 docx-core/src/documents/document_rels.rs   |  11 ++
 docx-core/src/documents/footer_rels.rs     |  13 ++
 docx-core/src/documents/header_rels.rs     |  13 ++
 docx-core/src/documents/image_collector.rs |  46 ++++++-
 docx-core/src/documents/mod.rs             | 137 ++++++++++++++++-----
 5 files changed, 184 insertions(+), 36 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 04e20bb..24a3084 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -43,6 +43,17 @@ impl DocumentRels {
             .push((id.into(), path.into(), r#type.into()));
         self
     }
+
+    /// Relationship ids of the parts that are not referred to by images or
+    /// hyperlinks.
+    pub(crate) fn part_ids(&self) -> Vec<String> {
+        (1..=8)
+            .map(|i| format!("rId{i}"))
+            .chain((1..=self.header_count).map(create_header_rid))
+            .chain((1..=self.footer_count).map(create_footer_rid))
+            .chain((1..=self.custom_xml_count).map(|i| format!("rIdCustomXml{i}")))
+            .collect()
+    }
 }
 
 impl BuildXML for DocumentRels {
diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..4072f5f 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl FooterRels {
@@ -22,6 +23,10 @@ impl FooterRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for FooterRels {
@@ -39,6 +44,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..905befa 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl HeaderRels {
@@ -22,6 +23,10 @@ impl HeaderRels {
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
+
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
 }
 
 impl BuildXML for HeaderRels {
@@ -39,6 +44,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..c342e55 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -8,7 +8,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    create_hyperlink_rid, Document, Footer, Footnote, FootnoteReference, Header, Hyperlink,
+    HyperlinkData, ImageIdAndBuf, ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -105,6 +106,8 @@ impl MediaRegistry {
 /// Data collected from one relationship scope during a tree walk.
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
+    /// Relationship IDs and targets of external hyperlinks.
+    pub(crate) hyperlinks: Vec<(String, String)>,
     pub(crate) footnotes: Vec<Footnote>,
 }
 
@@ -122,6 +125,9 @@ struct PackagePartCollector<'a> {
     next_relationship_suffix_by_id: HashMap<String, usize>,
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
+    hyperlinks: Vec<(String, String)>,
+    /// Maps a hyperlink's own ID and target to its relationship ID.
+    hyperlink_ids: HashMap<(String, String), String>,
     footnotes: Vec<Footnote>,
 }
 
@@ -134,6 +140,8 @@ impl<'a> PackagePartCollector<'a> {
             relationship_ids: HashSet::new(),
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
+            hyperlinks: Vec::new(),
+            hyperlink_ids: HashMap::new(),
             footnotes: Vec::new(),
         }
     }
@@ -141,6 +149,7 @@ impl<'a> PackagePartCollector<'a> {
     fn finish(self) -> CollectedPart {
         CollectedPart {
             relationships: self.relationships,
+            hyperlinks: self.hyperlinks,
             footnotes: self.footnotes,
         }
     }
@@ -206,17 +215,43 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
         self.relationships.push((relationship_id, target));
     }
 
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        let key = (rid.clone(), path.clone());
+        if let Some(relationship_id) = self.hyperlink_ids.get(&key) {
+            rid.clone_from(relationship_id);
+            return;
+        }
+
+        let relationship_id = if rid.is_empty() {
+            self.unique_relationship_id(&create_hyperlink_rid(0))
+        } else {
+            self.unique_relationship_id(rid)
+        };
+        self.relationship_ids.insert(relationship_id.clone());
+        self.hyperlinks
+            .push((relationship_id.clone(), path.clone()));
+        rid.clone_from(&relationship_id);
+        self.hyperlink_ids.insert(key, relationship_id);
+    }
+
     fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
         self.footnotes.push(reference.into());
     }
 }
 
 /// Collects package data from the complete main document tree in one pass.
-pub(crate) fn collect_document_part(
+///
+/// `reserved_ids` are relationship IDs the part uses for something else.
+pub(crate) fn collect_document_part_with_reserved_ids(
     document: &mut Document,
     registry: &mut MediaRegistry,
+    reserved_ids: impl IntoIterator<Item = String>,
 ) -> CollectedPart {
     let mut collector = PackagePartCollector::new(registry, None);
+    collector.relationship_ids.extend(reserved_ids);
     visit_document(document, &mut collector);
     collector.finish()
 }
@@ -225,7 +260,7 @@ pub(crate) fn collect_document_part(
 ///
 /// This separate visitor keeps [`crate::Docx::collect_footnotes`] compatible
 /// for callers that invoke it directly. Package preparation uses
-/// [`collect_document_part`] so images and footnotes are normally gathered in
+/// [`collect_document_part_with_reserved_ids`] so images and footnotes are normally gathered in
 /// one traversal.
 pub(crate) fn collect_document_footnotes(document: &mut Document) -> Vec<Footnote> {
     #[derive(Default)]
@@ -264,6 +299,11 @@ pub(crate) fn collect_footer_part(
     collector.finish()
 }
 
+#[cfg(test)]
+fn collect_document_part(document: &mut Document, registry: &mut MediaRegistry) -> CollectedPart {
+    collect_document_part_with_reserved_ids(document, registry, [])
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index a47c1fa..b8e0746 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,10 +85,10 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, DocumentTreeVisitor};
+use self::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use self::image_collector::{
-    collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
-    MediaRegistry,
+    collect_document_footnotes, collect_document_part_with_reserved_ids, collect_footer_part,
+    collect_header_part, CollectedPart, MediaRegistry,
 };
 
 #[derive(Debug, Clone)]
@@ -866,28 +866,51 @@ impl Docx {
     /// Normalizes the document and collects metadata shared by buffered and
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
+        let declared_hyperlinks = self.document_rels.hyperlinks.clone();
         let has_toc = self.prepare_for_build();
 
+        self.restore_read_targets();
+
         let mut media = MediaRegistry::default();
-        let document_part = collect_document_part(&mut self.document, &mut media);
-        let header_images = self.collect_header_images(&mut media);
-        let footer_images = self.collect_footer_images(&mut media);
+        let reserved_ids = self.document_rels.part_ids();
+        let document_part =
+            collect_document_part_with_reserved_ids(&mut self.document, &mut media, reserved_ids);
+        let header_parts = self.collect_header_parts(&mut media);
+        let footer_parts = self.collect_footer_parts(&mut media);
         self.document_rels.images = document_part.relationships;
+        self.document_rels.hyperlinks = document_part
+            .hyperlinks
+            .into_iter()
+            .map(|(id, path)| (id, path, "External".to_owned())) // Now support external only
+            .collect();
+        let hyperlink_ids: HashSet<String> = self
+            .document_rels
+            .hyperlinks
+            .iter()
+            .map(|(id, ..)| id.clone())
+            .collect();
+        self.document_rels.hyperlinks.extend(
+            declared_hyperlinks
+                .into_iter()
+                .filter(|(id, ..)| !hyperlink_ids.contains(id)),
+        );
 
-        let header_rels = header_images
+        let header_rels = header_parts
             .into_iter()
-            .map(|(index, images)| {
+            .map(|(index, part)| {
                 let mut rels = HeaderRels::new();
-                rels.set_images(images);
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
                 (index, rels)
             })
             .collect();
 
-        let footer_rels = footer_images
+        let footer_rels = footer_parts
             .into_iter()
-            .map(|(index, images)| {
+            .map(|(index, part)| {
                 let mut rels = FooterRels::new();
-                rels.set_images(images);
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
                 (index, rels)
             })
             .collect();
@@ -919,6 +942,35 @@ impl Docx {
         }
     }
 
+    /// Gives pictures and hyperlinks that were read from a file, which only
+    /// know their relationship ID, the data that ID refers to.
+    fn restore_read_targets(&mut self) {
+        if self.images.is_empty() && self.hyperlinks.is_empty() {
+            return;
+        }
+
+        let mut targets = ReadTargets {
+            images: self
+                .images
+                .iter()
+                .rev()
+                .map(|(id, _, image, _)| (id.as_str(), image.0.as_slice()))
+                .collect(),
+            hyperlinks: self
+                .hyperlinks
+                .iter()
+                .map(|(id, path, _)| (id.as_str(), path.as_str()))
+                .collect(),
+        };
+        visit_document(&mut self.document, &mut targets);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut targets);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut targets);
+        }
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
@@ -1022,41 +1074,31 @@ impl Docx {
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects the relationships of every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_header_parts(&mut self, media: &mut MediaRegistry) -> Vec<(usize, CollectedPart)> {
         self.document
             .headers_mut()
             .enumerate()
-            .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
-            })
+            .map(|(index, (_, header))| (index, collect_header_part(header, media)))
+            .filter(|(_, part)| !part.relationships.is_empty() || !part.hyperlinks.is_empty())
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects the relationships of every footer in package order.
     ///
-    /// Relationship creation order matches the package writer. A shared
-    /// registry prevents repeated footer and body images from being emitted as
-    /// separate physical media files.
-    fn collect_footer_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    /// Each entry deliberately uses a separate relationship scope while all
+    /// entries share the package-wide media registry. Relationship creation
+    /// order matches the order used to render and write footer parts.
+    fn collect_footer_parts(&mut self, media: &mut MediaRegistry) -> Vec<(usize, CollectedPart)> {
         self.document
             .footers_mut()
             .enumerate()
-            .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
-            })
+            .map(|(index, (_, footer))| (index, collect_footer_part(footer, media)))
+            .filter(|(_, part)| !part.relationships.is_empty() || !part.hyperlinks.is_empty())
             .collect()
     }
 
@@ -1097,6 +1139,35 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 }
 
+/// Looks up the relationship IDs of pictures and hyperlinks read from a file.
+struct ReadTargets<'a> {
+    images: HashMap<&'a str, &'a [u8]>,
+    hyperlinks: HashMap<&'a str, &'a str>,
+}
+
+impl DocumentTreeVisitor for ReadTargets<'_> {
+    fn visit_picture(&mut self, picture: &mut Pic) {
+        if !picture.image.is_empty() {
+            return;
+        }
+        if let Some(image) = self.images.get(picture.id.as_str()) {
+            picture.image = image.to_vec();
+        }
+    }
+
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        let HyperlinkData::External { rid, path } = &mut link.link else {
+            return;
+        };
+        if !path.is_empty() {
+            return;
+        }
+        if let Some(target) = self.hyperlinks.get(rid.as_str()) {
+            *path = target.to_string();
+        }
+    }
+}
+
 /// Attaches the comments of a comments part to the ranges that refer to them.
 struct CommentStore<'a> {
     comments_by_id: HashMap<usize, &'a Comment>,
-- 
2.43.0


From 50128aafbd3287e9a9c5da2a4cd901762cf5765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:38 +0000
Subject: [PATCH 11/66] fix: keep paragraph ids unique for paragraphs written
 on the fly and in footnotes

Paragraphs created while a document is written (section breaks, empty cells,
tables of contents, empty footnotes) restarted at the first id, footnote
content was not checked at all, and ids differing only in case were taken for
different numbers. A footnote collected twice was also written twice.
---
 docx-core/src/documents/footnotes.rs    |   5 +-
 docx-core/src/documents/mod.rs          | 144 +++++++++++++++++-------
 docx-core/src/documents/paragraph_id.rs |  11 ++
 3 files changed, 121 insertions(+), 39 deletions(-)

diff --git a/docx-core/src/documents/footnotes.rs b/docx-core/src/documents/footnotes.rs
index 5769a27..c3756ef 100644
--- a/docx-core/src/documents/footnotes.rs
+++ b/docx-core/src/documents/footnotes.rs
@@ -1,6 +1,7 @@
 use super::Footnote;
 use crate::documents::BuildXML;
 use crate::xml_builder::*;
+use std::collections::HashSet;
 use std::io::Write;
 
 use serde::Serialize;
@@ -17,7 +18,9 @@ impl Footnotes {
     }
 
     pub(crate) fn add(&mut self, footnotes: Vec<Footnote>) {
-        self.footnotes.extend(footnotes)
+        let mut ids: HashSet<usize> = self.footnotes.iter().map(|f| f.id).collect();
+        self.footnotes
+            .extend(footnotes.into_iter().filter(|f| ids.insert(f.id)));
     }
 }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index b8e0746..b20616e 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1,4 +1,5 @@
 use std::{
+    borrow::Cow,
     collections::{HashMap, HashSet},
     str::FromStr,
 };
@@ -736,7 +737,7 @@ impl Docx {
         let header_rels = build_sparse_relationships(package.header_rels);
         let footer_rels = build_sparse_relationships(package.footer_rels);
 
-        XMLDocx {
+        let xml = XMLDocx {
             content_type: self.content_type.build(),
             rels: self.rels.build(),
             doc_props: self.doc_props.build(),
@@ -760,7 +761,9 @@ impl Docx {
             custom_item_rels,
             custom_item_props,
             footnotes: self.footnotes.build(),
-        }
+        };
+        crate::reset_para_id();
+        xml
     }
 
     /// Writes this document directly as a DOCX ZIP archive.
@@ -773,7 +776,9 @@ impl Docx {
         W: std::io::Write + std::io::Seek,
     {
         let package = self.prepare_package();
-        crate::zipper::zip_docx(writer, self, package)
+        let result = crate::zipper::zip_docx(writer, self, package);
+        crate::reset_para_id();
+        result
     }
 
     pub fn json(&self) -> String {
@@ -973,23 +978,25 @@ impl Docx {
 
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
-        let mut counts: HashMap<&str, usize> = HashMap::new();
+        let mut counts: HashMap<Cow<str>, usize> = HashMap::new();
         collect_para_ids_in_docx(self, &mut counts);
 
         let duplicates: HashSet<String> = counts
             .iter()
             .filter(|(_, count)| **count > 1)
-            .map(|(id, _)| (*id).to_owned())
+            .map(|(id, _)| id.clone().into_owned())
             .collect();
         let has_empty_id = counts.contains_key("");
-        if duplicates.is_empty() && !has_empty_id {
-            return;
-        }
+        let mut used: HashSet<String> = counts.into_keys().map(Cow::into_owned).collect();
 
-        let mut used: HashSet<String> = counts.into_keys().map(str::to_owned).collect();
-        let mut seen: HashSet<String> = HashSet::new();
+        if !duplicates.is_empty() || has_empty_id {
+            let mut seen: HashSet<String> = HashSet::new();
+            refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        }
 
-        refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
+        // Some paragraphs, such as those of empty cells, only come into being
+        // while the document is written.
+        crate::start_para_id_at(first_id_of_largest_gap(&used));
     }
 
     // Traverse and clone comments from document and add to comments node.
@@ -1189,7 +1196,7 @@ fn comment_paragraph_ids(comment: &Comment) -> impl Iterator<Item = &str> {
     })
 }
 
-fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &docx.document.children {
         collect_para_ids_in_document_child(child, counts);
     }
@@ -1208,7 +1215,7 @@ fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, us
 
 fn collect_para_ids_in_document_child<'a>(
     child: &'a DocumentChild,
-    counts: &mut HashMap<&'a str, usize>,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
 ) {
     match child {
         DocumentChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
@@ -1223,7 +1230,10 @@ fn collect_para_ids_in_document_child<'a>(
     }
 }
 
-fn collect_para_ids_in_section<'a>(section: &'a Section, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_section<'a>(
+    section: &'a Section,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
+) {
     for child in &section.children {
         match child {
             SectionChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
@@ -1241,7 +1251,7 @@ fn collect_para_ids_in_section<'a>(section: &'a Section, counts: &mut HashMap<&'
 
 fn collect_para_ids_in_section_property<'a>(
     property: &'a SectionProperty,
-    counts: &mut HashMap<&'a str, usize>,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
 ) {
     if let Some((_, header)) = property.header.as_ref() {
         collect_para_ids_in_header(header, counts);
@@ -1263,7 +1273,7 @@ fn collect_para_ids_in_section_property<'a>(
     }
 }
 
-fn collect_para_ids_in_header<'a>(header: &'a Header, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_header<'a>(header: &'a Header, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &header.children {
         match child {
             HeaderChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
@@ -1275,7 +1285,7 @@ fn collect_para_ids_in_header<'a>(header: &'a Header, counts: &mut HashMap<&'a s
     }
 }
 
-fn collect_para_ids_in_footer<'a>(footer: &'a Footer, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_footer<'a>(footer: &'a Footer, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &footer.children {
         match child {
             FooterChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
@@ -1287,7 +1297,10 @@ fn collect_para_ids_in_footer<'a>(footer: &'a Footer, counts: &mut HashMap<&'a s
     }
 }
 
-fn collect_para_ids_in_toc<'a>(toc: &'a TableOfContents, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_toc<'a>(
+    toc: &'a TableOfContents,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
+) {
     for child in &toc.before_contents {
         match child {
             TocContent::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
@@ -1302,7 +1315,7 @@ fn collect_para_ids_in_toc<'a>(toc: &'a TableOfContents, counts: &mut HashMap<&'
     }
 }
 
-fn collect_para_ids_in_table<'a>(table: &'a Table, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_table<'a>(table: &'a Table, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for TableChild::TableRow(row) in &table.rows {
         for TableRowChild::TableCell(cell) in &row.cells {
             for content in &cell.children {
@@ -1323,9 +1336,13 @@ fn collect_para_ids_in_table<'a>(table: &'a Table, counts: &mut HashMap<&'a str,
 
 fn collect_para_ids_in_paragraph<'a>(
     paragraph: &'a Paragraph,
-    counts: &mut HashMap<&'a str, usize>,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
 ) {
-    *counts.entry(paragraph.id.as_str()).or_insert(0) += 1;
+    *counts.entry(normalize_para_id(&paragraph.id)).or_insert(0) += 1;
+
+    if let Some(property) = paragraph.property.section_property.as_ref() {
+        collect_para_ids_in_section_property(property, counts);
+    }
 
     for child in &paragraph.children {
         match child {
@@ -1348,7 +1365,7 @@ fn collect_para_ids_in_paragraph<'a>(
 
 fn collect_para_ids_in_hyperlink<'a>(
     hyperlink: &'a Hyperlink,
-    counts: &mut HashMap<&'a str, usize>,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
 ) {
     for child in &hyperlink.children {
         match child {
@@ -1369,7 +1386,7 @@ fn collect_para_ids_in_hyperlink<'a>(
     }
 }
 
-fn collect_para_ids_in_insert<'a>(insert: &'a Insert, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_insert<'a>(insert: &'a Insert, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &insert.children {
         match child {
             InsertChild::Run(run) => collect_para_ids_in_run(run, counts),
@@ -1380,7 +1397,7 @@ fn collect_para_ids_in_insert<'a>(insert: &'a Insert, counts: &mut HashMap<&'a s
     }
 }
 
-fn collect_para_ids_in_delete<'a>(delete: &'a Delete, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_delete<'a>(delete: &'a Delete, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &delete.children {
         match child {
             DeleteChild::Run(run) => collect_para_ids_in_run(run, counts),
@@ -1390,7 +1407,10 @@ fn collect_para_ids_in_delete<'a>(delete: &'a Delete, counts: &mut HashMap<&'a s
     }
 }
 
-fn collect_para_ids_in_move_from<'a>(moved: &'a MoveFrom, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_move_from<'a>(
+    moved: &'a MoveFrom,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
+) {
     for child in &moved.children {
         match child {
             MoveFromChild::Run(run) => collect_para_ids_in_run(run, counts),
@@ -1400,7 +1420,7 @@ fn collect_para_ids_in_move_from<'a>(moved: &'a MoveFrom, counts: &mut HashMap<&
     }
 }
 
-fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &moved.children {
         match child {
             MoveToChild::Run(run) => collect_para_ids_in_run(run, counts),
@@ -1411,17 +1431,23 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
     }
 }
 
-fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<Cow<'a, str>, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
 
 fn collect_para_ids_in_structured_data_tag<'a>(
     tag: &'a StructuredDataTag,
-    counts: &mut HashMap<&'a str, usize>,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
 ) {
     for child in &tag.children {
         match child {
@@ -1441,7 +1467,10 @@ fn collect_para_ids_in_structured_data_tag<'a>(
     }
 }
 
-fn collect_para_ids_in_comment<'a>(comment: &'a Comment, counts: &mut HashMap<&'a str, usize>) {
+fn collect_para_ids_in_comment<'a>(
+    comment: &'a Comment,
+    counts: &mut HashMap<Cow<'a, str>, usize>,
+) {
     for child in &comment.children {
         match child {
             CommentChild::Paragraph(paragraph) => collect_para_ids_in_paragraph(paragraph, counts),
@@ -1653,6 +1682,10 @@ fn refresh_para_ids_in_paragraph(
 ) {
     ensure_unique_paragraph_id(paragraph, duplicates, used, seen);
 
+    if let Some(property) = paragraph.property.section_property.as_mut() {
+        refresh_para_ids_in_section_property(property, duplicates, used, seen);
+    }
+
     for child in &mut paragraph.children {
         match child {
             ParagraphChild::Run(run) => refresh_para_ids_in_run(run, duplicates, used, seen),
@@ -1798,8 +1831,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -1854,11 +1895,11 @@ fn ensure_unique_paragraph_id(
     used: &mut HashSet<String>,
     seen: &mut HashSet<String>,
 ) {
-    if !paragraph.id.is_empty() && !duplicates.contains(&paragraph.id) {
-        return;
-    }
-    if !paragraph.id.is_empty() && seen.insert(paragraph.id.clone()) {
-        return;
+    if !paragraph.id.is_empty() {
+        let id = normalize_para_id(&paragraph.id);
+        if !duplicates.contains(id.as_ref()) || seen.insert(id.into_owned()) {
+            return;
+        }
     }
 
     let new_id = next_unique_paragraph_id(used);
@@ -1866,6 +1907,33 @@ fn ensure_unique_paragraph_id(
     used.insert(new_id);
 }
 
+/// Paragraph IDs are hexadecimal numbers, so their case does not matter.
+fn normalize_para_id(id: &str) -> Cow<'_, str> {
+    if id.bytes().any(|b| b.is_ascii_uppercase()) {
+        Cow::Owned(id.to_ascii_lowercase())
+    } else {
+        Cow::Borrowed(id)
+    }
+}
+
+/// Returns the first number of the longest run of unused paragraph IDs, which
+/// have to be below 0x80000000.
+fn first_id_of_largest_gap(used: &HashSet<String>) -> u32 {
+    const END: u32 = 0x8000_0000;
+    let mut ids: Vec<u32> = used
+        .iter()
+        .filter_map(|id| u32::from_str_radix(id, 16).ok())
+        .filter(|id| *id < END)
+        .collect();
+    ids.push(0);
+    ids.push(END);
+    ids.sort_unstable();
+    ids.windows(2)
+        .rev()
+        .max_by_key(|pair| pair[1] - pair[0])
+        .map_or(1, |pair| pair[0] + 1)
+}
+
 /// Returns a generated paragraph ID, falling back to a deterministic scan.
 ///
 /// Starting beyond the set cardinality avoids repeatedly revisiting a dense
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..d2280b3 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -23,6 +23,12 @@ pub fn reset_para_id() {
     PARA_ID.set(1);
 }
 
+/// Makes this thread generate IDs from the given number on.
+#[cfg(not(test))]
+pub(crate) fn start_para_id_at(id: u32) {
+    PARA_ID.set(id);
+}
+
 #[cfg(test)]
 pub fn generate_para_id() -> String {
     "12345678".to_owned()
@@ -32,3 +38,8 @@ pub fn generate_para_id() -> String {
 pub fn reset_para_id() {
     // NOP
 }
+
+#[cfg(test)]
+pub(crate) fn start_para_id_at(_id: u32) {
+    // NOP
+}
-- 
2.43.0


From b2b27e7405dc7f221ff15d800c379f0bb6971d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:33:36 +0000
Subject: [PATCH 12/66] fix: relate numberings and web extensions whenever a
 document uses them

The relationship to the numbering definitions was missing when a list
paragraph sat in a row added later, a table of contents, a whole document set
at once, a footnote, a comment or a style. A web extension added without task
panes was declared but never written.
---
 docx-core/src/documents/elements/table.rs |  3 ++
 docx-core/src/documents/mod.rs            | 52 +++++++++++++++++++++++
 2 files changed, 55 insertions(+)

diff --git a/docx-core/src/documents/elements/table.rs b/docx-core/src/documents/elements/table.rs
index 30e9223..1e74ce7 100644
--- a/docx-core/src/documents/elements/table.rs
+++ b/docx-core/src/documents/elements/table.rs
@@ -60,6 +60,9 @@ impl Table {
     }
 
     pub fn add_row(mut self, row: TableRow) -> Table {
+        if row.has_numbering {
+            self.has_numbering = true
+        }
         self.rows.push(TableChild::TableRow(row));
         self
     }
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index b20616e..4e0c9f0 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -674,6 +674,9 @@ impl Docx {
     }
 
     pub fn taskpanes(mut self) -> Self {
+        if self.taskpanes.is_some() {
+            return self;
+        }
         self.taskpanes = Some(Taskpanes::new());
         self.rels = self.rels.add_taskpanes_rel();
         self.content_type = self.content_type.add_taskpanes();
@@ -681,6 +684,8 @@ impl Docx {
     }
 
     pub fn web_extension(mut self, ext: WebExtension) -> Self {
+        // Web extensions are only reachable from the task panes.
+        self = self.taskpanes();
         self.web_extensions.push(ext);
         self.taskpanes_rels = self.taskpanes_rels.add_rel();
         self.content_type = self.content_type.add_web_extensions();
@@ -850,9 +855,30 @@ impl Docx {
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
         self.number_headers_and_footers();
+        if self.uses_numbering() {
+            self.document_rels.has_numberings = true;
+        }
         has_toc
     }
 
+    /// Tells whether anything in this document refers to a numbering.
+    fn uses_numbering(&mut self) -> bool {
+        let mut finder = NumberingFinder::default();
+        visit_document(&mut self.document, &mut finder);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut finder);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut finder);
+        }
+        finder.found
+            || self
+                .styles
+                .styles
+                .iter()
+                .any(|style| style.paragraph_property.numbering_property.is_some())
+    }
+
     /// Numbers header and footer parts in the order they are written.
     ///
     /// Parts can be attached in any order, replaced, or come from a file, so
@@ -1146,6 +1172,32 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 }
 
+/// Finds paragraphs that refer to a numbering.
+#[derive(Default)]
+struct NumberingFinder {
+    found: bool,
+}
+
+impl DocumentTreeVisitor for NumberingFinder {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        self.found |= paragraph.property.numbering_property.is_some();
+    }
+
+    fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
+        self.found |= reference
+            .content
+            .iter()
+            .any(|paragraph| paragraph.property.numbering_property.is_some());
+    }
+
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        self.found |= start.comment.children.iter().any(|child| match child {
+            CommentChild::Paragraph(paragraph) => paragraph.property.numbering_property.is_some(),
+            CommentChild::Table(table) => table.has_numbering,
+        });
+    }
+}
+
 /// Looks up the relationship IDs of pictures and hyperlinks read from a file.
 struct ReadTargets<'a> {
     images: HashMap<&'a str, &'a [u8]>,
-- 
2.43.0


From 491903d835839b54c6410a2b6b2b68a5cddab8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:34:29 +0000
Subject: [PATCH 13/66] fix: write custom properties in a stable order and read
 blank ones

Custom properties came out in random order and numbering on every save, and
reading dropped properties whose value was empty or blank.
---
 docx-core/src/documents/doc_props/custom.rs | 17 ++++++++++++++---
 docx-core/src/reader/custom_properties.rs   | 21 +++++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..311b2da 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -1,4 +1,5 @@
-use serde::Serialize;
+use serde::{Serialize, Serializer};
+use std::collections::{BTreeMap, HashMap};
 use std::io::Write;
 
 use crate::documents::BuildXML;
@@ -7,7 +8,15 @@ use crate::xml_builder::*;
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
 pub struct CustomProps {
-    pub properties: std::collections::HashMap<String, String>,
+    #[serde(serialize_with = "serialize_sorted")]
+    pub properties: HashMap<String, String>,
+}
+
+fn serialize_sorted<S: Serializer>(
+    properties: &HashMap<String, String>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(properties.iter().collect::<BTreeMap<_, _>>())
 }
 
 impl CustomProps {
@@ -26,13 +35,15 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // Sort by name so that the same properties are always written alike.
+        let properties: BTreeMap<_, _> = self.properties.iter().collect();
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index d3f1928..dcda016 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -3,6 +3,21 @@ use std::str::FromStr;
 
 use super::*;
 
+/// Reads text, which may be empty or blank, up to the end of its element.
+fn read_value<R: Read>(r: &mut EventReader<R>) -> Result<String, ReaderError> {
+    let mut value = String::new();
+    loop {
+        match r.next_event() {
+            Ok(XmlEvent::Characters(text)) | Ok(XmlEvent::Whitespace(text)) => {
+                value.push_str(&text)
+            }
+            Ok(XmlEvent::EndElement { .. }) => return Ok(value),
+            Err(_) => return Err(ReaderError::XMLReadError),
+            _ => {}
+        }
+    }
+}
+
 impl FromXML for CustomProps {
     fn from_xml<R: Read>(reader: R) -> Result<Self, ReaderError> {
         let mut r = EventReader::new(reader);
@@ -24,10 +39,8 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
-                                            }
+                                            let value = read_value(&mut r)?;
+                                            props = props.add_custom_property(&key, value);
                                         }
                                     }
                                     Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From 7c9d05bd5467e0bf35430412e96b841b14f71f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:44 +0000
Subject: [PATCH 14/66] fix: close the table of contents field when a table
 follows it directly

---
 docx-core/src/documents/elements/table_of_contents.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index e1b514c..74137f9 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -243,10 +243,9 @@ impl BuildXML for TableOfContents {
                         TocContent::Table(t) => {
                             // insert empty line for table
                             // because it causes docx error if table is added after TOC
+                            // and the field has to be closed before it.
                             if i == 0 {
-                                b = b.add_child(
-                                    &Paragraph::new().add_run(Run::new().add_text("")),
-                                )?;
+                                b = b.add_child(&p2)?;
                             }
                             b = b.add_child(&t)?;
                         }
-- 
2.43.0


From 0046ecb00fea24096a89506ba7ba98ef0edbf0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:44 +0000
Subject: [PATCH 15/66] fix: resolve part names in flat packages the way zip
 packages do

Headers, footers, comments and settings of a flat package were never found
because their paths were built with two slashes, and only one hyperlink was
kept, under its relationship type. Targets with dot segments and rels of parts
with several dots in their name now resolve too.
---
 docx-core/src/reader/read_docx.rs | 151 ++++----
 docx-core/src/reader/read_xml.rs  | 581 +++++++-----------------------
 docx-core/src/reader/rels.rs      |  32 +-
 3 files changed, 228 insertions(+), 536 deletions(-)

diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 2af0f5b..28bf8ad 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -174,44 +174,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
             );
             if let Ok(data) = data {
                 let mut comments = Comments::from_xml(&data[..])?.into_inner();
-                if !comments.is_empty() && !comments_extended.children.is_empty() {
-                    let mut comment_id_by_paragraph: HashMap<String, usize> = HashMap::new();
-                    for comment in &comments {
-                        for child in &comment.children {
-                            if let CommentChild::Paragraph(p) = child {
-                                comment_id_by_paragraph.insert(p.id.clone(), comment.id);
-                            }
-                        }
-                    }
-
-                    let mut parent_paragraph_by_paragraph: HashMap<String, String> = HashMap::new();
-                    for extended in &comments_extended.children {
-                        if let Some(parent_paragraph_id) = extended.parent_paragraph_id.as_deref() {
-                            parent_paragraph_by_paragraph.insert(
-                                extended.paragraph_id.clone(),
-                                parent_paragraph_id.to_string(),
-                            );
-                        }
-                    }
-
-                    for comment in &mut comments {
-                        let mut parent_comment_id = None;
-                        for child in &comment.children {
-                            if let CommentChild::Paragraph(p) = child {
-                                if let Some(parent_paragraph_id) =
-                                    parent_paragraph_by_paragraph.get(&p.id)
-                                {
-                                    parent_comment_id =
-                                        comment_id_by_paragraph.get(parent_paragraph_id).copied();
-                                    if parent_comment_id.is_some() {
-                                        break;
-                                    }
-                                }
-                            }
-                        }
-                        comment.parent_comment_id = parent_comment_id;
-                    }
-                }
+                link_replies(&mut comments, &comments_extended);
                 Comments { comments }
             } else {
                 Comments::default()
@@ -230,19 +193,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     docx = docx.document(document);
 
     // assign headers and footers to their sections
-    let mut header_and_footer_rels = vec![];
-    for property in docx.document.section_properties_mut() {
-        let (header_count, footer_count) =
-            attach_headers_and_footers(property, &headers, &footers, &mut header_and_footer_rels);
-        for _ in 0..header_count {
-            docx.document_rels.header_count += 1;
-            docx.content_type = std::mem::take(&mut docx.content_type).add_header();
-        }
-        for _ in 0..footer_count {
-            docx.document_rels.footer_count += 1;
-            docx.content_type = std::mem::take(&mut docx.content_type).add_footer();
-        }
-    }
+    let header_and_footer_rels = attach_headers_and_footers(&mut docx, &headers, &footers);
     for rels in header_and_footer_rels {
         // Read media
         let media = rels.target_paths(IMAGE_TYPE);
@@ -331,45 +282,77 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     Ok(docx)
 }
 
-/// Attaches the parts a section refers to and returns how many headers and
-/// footers were found. A section may have a first page header that is not
-/// shown, so the title page setting is left alone.
-fn attach_headers_and_footers<'a>(
-    property: &mut SectionProperty,
+/// Attaches the headers and footers the sections refer to and returns their
+/// relationships. A section may have a first page header that is not shown, so
+/// the title page setting is left alone.
+pub(super) fn attach_headers_and_footers<'a>(
+    docx: &mut Docx,
     headers: &'a HashMap<RId, (Header, ReadHeaderOrFooterRels)>,
     footers: &'a HashMap<RId, (Footer, ReadHeaderOrFooterRels)>,
-    rels: &mut Vec<&'a ReadHeaderOrFooterRels>,
-) -> (usize, usize) {
-    let (mut header_count, mut footer_count) = (0, 0);
-    for (reference, target) in [
-        (&property.header_reference, &mut property.header),
-        (&property.first_header_reference, &mut property.first_header),
-        (&property.even_header_reference, &mut property.even_header),
-    ] {
-        let Some(id) = reference.as_ref().map(|reference| &reference.id) else {
-            continue;
-        };
-        if let Some((header, header_rels)) = headers.get(id) {
-            *target = Some((id.clone(), header.clone()));
-            rels.push(header_rels);
-            header_count += 1;
+) -> Vec<&'a ReadHeaderOrFooterRels> {
+    let mut rels = vec![];
+    for property in docx.document.section_properties_mut() {
+        for (reference, target) in [
+            (&property.header_reference, &mut property.header),
+            (&property.first_header_reference, &mut property.first_header),
+            (&property.even_header_reference, &mut property.even_header),
+        ] {
+            let Some(id) = reference.as_ref().map(|reference| &reference.id) else {
+                continue;
+            };
+            if let Some((header, header_rels)) = headers.get(id) {
+                *target = Some((id.clone(), header.clone()));
+                rels.push(header_rels);
+                docx.document_rels.header_count += 1;
+                docx.content_type = std::mem::take(&mut docx.content_type).add_header();
+            }
+        }
+        for (reference, target) in [
+            (&property.footer_reference, &mut property.footer),
+            (&property.first_footer_reference, &mut property.first_footer),
+            (&property.even_footer_reference, &mut property.even_footer),
+        ] {
+            let Some(id) = reference.as_ref().map(|reference| &reference.id) else {
+                continue;
+            };
+            if let Some((footer, footer_rels)) = footers.get(id) {
+                *target = Some((id.clone(), footer.clone()));
+                rels.push(footer_rels);
+                docx.document_rels.footer_count += 1;
+                docx.content_type = std::mem::take(&mut docx.content_type).add_footer();
+            }
         }
     }
-    for (reference, target) in [
-        (&property.footer_reference, &mut property.footer),
-        (&property.first_footer_reference, &mut property.first_footer),
-        (&property.even_footer_reference, &mut property.even_footer),
-    ] {
-        let Some(id) = reference.as_ref().map(|reference| &reference.id) else {
-            continue;
-        };
-        if let Some((footer, footer_rels)) = footers.get(id) {
-            *target = Some((id.clone(), footer.clone()));
-            rels.push(footer_rels);
-            footer_count += 1;
+    rels
+}
+
+/// Sets the parent of every comment that replies to another one.
+pub(super) fn link_replies(comments: &mut [Comment], comments_extended: &CommentsExtended) {
+    let mut comment_id_by_paragraph: HashMap<String, usize> = HashMap::new();
+    for comment in comments.iter() {
+        for child in &comment.children {
+            if let CommentChild::Paragraph(p) = child {
+                comment_id_by_paragraph.insert(p.id.clone(), comment.id);
+            }
+        }
+    }
+
+    let mut parent_paragraph_by_paragraph: HashMap<&str, &str> = HashMap::new();
+    for extended in &comments_extended.children {
+        if let Some(parent_paragraph_id) = extended.parent_paragraph_id.as_deref() {
+            parent_paragraph_by_paragraph.insert(&extended.paragraph_id, parent_paragraph_id);
         }
     }
-    (header_count, footer_count)
+
+    for comment in comments.iter_mut() {
+        comment.parent_comment_id = comment.children.iter().find_map(|child| {
+            let CommentChild::Paragraph(p) = child else {
+                return None;
+            };
+            let parent = parent_paragraph_by_paragraph.get(p.id.as_str())?;
+            comment_id_by_paragraph.get(*parent).copied()
+        });
+    }
 }
 
 fn add_images(
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..b58a142 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -1,187 +1,88 @@
 use super::header_or_footer_rels::ReadHeaderOrFooterRels;
 use super::namespace::*;
+use super::read_docx::{attach_headers_and_footers, link_replies};
+use super::rels::{find_rels_filename, read_rels_xml, ReadRels};
 use super::*;
+use std::path::Path;
 
-fn read_headers_from_xml(
-    rels: &Rels,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> HashMap<RId, (Header, ReadHeaderOrFooterRels)> {
-    let mut headers = HashMap::new();
-
-    // Find all header relationships by looking for header types in rels
-    for (rel_type, id, target) in &rels.rels {
-        if rel_type == HEADER_TYPE {
-            let header_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(header_data) = part_map.get(&header_path) {
-                if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the header's _rels file
-                    let header_rels = ReadHeaderOrFooterRels::default();
-                    headers.insert(id.clone(), (header, header_rels));
-                }
-            }
-        }
-    }
-
-    headers
+/// The parts of a package by name, without the leading slash.
+struct XmlPackage {
+    parts: HashMap<String, String>,
 }
 
-fn read_footers_from_xml(
-    rels: &Rels,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> HashMap<RId, (Footer, ReadHeaderOrFooterRels)> {
-    let mut footers = HashMap::new();
-
-    // Find all footer relationships by looking for footer types in rels
-    for (rel_type, id, target) in &rels.rels {
-        if rel_type == FOOTER_TYPE {
-            let footer_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(footer_data) = part_map.get(&footer_path) {
-                if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
-                    // For simplicity, use default ReadHeaderOrFooterRels
-                    // In a full implementation, we would read the footer's _rels file
-                    let footer_rels = ReadHeaderOrFooterRels::default();
-                    footers.insert(id.clone(), (footer, footer_rels));
-                }
-            }
-        }
+impl XmlPackage {
+    fn get(&self, path: impl AsRef<Path>) -> Option<&String> {
+        self.parts
+            .get(path.as_ref().to_str()?.trim_start_matches('/'))
     }
 
-    footers
-}
+    fn read<T: FromXML>(&self, path: impl AsRef<Path>) -> Option<T> {
+        T::from_xml(self.get(path)?.as_bytes()).ok()
+    }
 
-fn read_comments_from_xml(
-    rels: &Rels,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> (Comments, CommentsExtended) {
-    // Simplified implementation for XML packages - try to read comments if available
-    let comments_extended = if let Some((_, _, target)) = rels.find_target(COMMENTS_EXTENDED_TYPE) {
-        let ext_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_ext_data) = part_map.get(&ext_path) {
-            CommentsExtended::from_xml(comments_ext_data.as_bytes()).unwrap_or_default()
-        } else {
-            CommentsExtended::default()
+    /// Reads the relationships of the part at `path`.
+    fn rels(&self, path: &Path) -> Result<ReadRels, ReaderError> {
+        let dir = path.parent().unwrap_or_else(|| Path::new(""));
+        match self.get(find_rels_filename(path)?) {
+            Some(data) => read_rels_xml(data.as_bytes(), dir),
+            None => Ok(ReadRels::default()),
         }
-    } else {
-        CommentsExtended::default()
-    };
+    }
+}
 
-    // Read comments
-    let comments = if let Some((_, _, target)) = rels.find_target(COMMENTS_TYPE) {
-        let comm_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_data) = part_map.get(&comm_path) {
-            if let Ok(comments) = Comments::from_xml(comments_data.as_bytes()) {
-                // Process extended comments relationships
-                let mut comments_inner = comments.into_inner();
-                for i in 0..comments_inner.len() {
-                    let c = &comments_inner[i];
-                    let extended = comments_extended.children.iter().find(|ex| {
-                        for child in &c.children {
-                            if let CommentChild::Paragraph(p) = child {
-                                if ex.paragraph_id == p.id {
-                                    return true;
-                                }
-                            }
-                        }
-                        false
-                    });
-                    if let Some(CommentExtended {
-                        parent_paragraph_id: Some(parent_paragraph_id),
-                        ..
-                    }) = extended
-                    {
-                        if let Some(parent_comment) = comments_inner.iter().find(|c| {
-                            for child in &c.children {
-                                if let CommentChild::Paragraph(p) = child {
-                                    if &p.id == parent_paragraph_id {
-                                        return true;
-                                    }
-                                }
-                            }
-                            false
-                        }) {
-                            comments_inner[i].parent_comment_id = Some(parent_comment.id);
-                        }
-                    }
-                }
-                Comments {
-                    comments: comments_inner,
-                }
-            } else {
-                Comments::default()
-            }
-        } else {
-            Comments::default()
-        }
-    } else {
-        Comments::default()
-    };
+fn targets<'a>(
+    rels: &'a ReadRels,
+    rel_type: &str,
+) -> impl Iterator<Item = &'a (RId, PathBuf, Option<String>)> {
+    rels.get(rel_type).into_iter().flatten()
+}
 
-    (comments, comments_extended)
+fn read_headers_or_footers_from_xml<T: FromXML>(
+    package: &XmlPackage,
+    rels: &ReadRels,
+    rel_type: &str,
+) -> HashMap<RId, (T, ReadHeaderOrFooterRels)> {
+    targets(rels, rel_type)
+        .filter_map(|(id, path, ..)| {
+            let part = package.read(path)?;
+            let rels = package.rels(path).unwrap_or_default();
+            Some((id.clone(), (part, ReadHeaderOrFooterRels { rels })))
+        })
+        .collect()
 }
 
-fn add_images_from_xml(
-    mut docx: Docx,
-    media: Option<Vec<(RId, PathBuf, Option<String>)>>,
-    part_map: &HashMap<String, String>,
-    document_path: &str,
-) -> Docx {
-    // Read media from XML package
-    if let Some(paths) = media {
-        for (id, media_path, ..) in paths {
-            let base_path = document_path
-                .replace("document.xml", "")
-                .trim_end_matches('/')
-                .to_string();
-            let image_path = format!("{}/{}", base_path, media_path.to_str().unwrap_or(""));
-
-            // Try multiple possible paths for the image
-            let paths_to_try = vec![
-                image_path.clone(),
-                format!("/{}", image_path.trim_start_matches('/')),
-                image_path.trim_start_matches('/').to_string(),
-            ];
-
-            for path in paths_to_try {
-                if let Some(image_data) = part_map.get(&path) {
-                    // For XML packages with binaryData, the data is base64 encoded
-                    // Remove all whitespace and newlines from base64 data
-                    let clean_base64 = image_data
-                        .chars()
-                        .filter(|c| !c.is_whitespace())
-                        .collect::<String>();
-                    let bytes = if let Ok(decoded) =
-                        base64::engine::general_purpose::STANDARD.decode(&clean_base64)
-                    {
-                        decoded
-                    } else {
-                        // If base64 decode fails, try as raw bytes (shouldn't happen for binaryData)
-                        image_data.as_bytes().to_vec()
-                    };
-                    docx =
-                        docx.add_image(id.clone(), media_path.to_str().unwrap().to_string(), bytes);
-                    break;
-                }
-            }
-        }
-    }
-    docx
+fn read_comments_from_xml(package: &XmlPackage, rels: &ReadRels) -> (Comments, CommentsExtended) {
+    let comments_extended: CommentsExtended = targets(rels, COMMENTS_EXTENDED_TYPE)
+        .next()
+        .and_then(|(_, path, ..)| package.read(path))
+        .unwrap_or_default();
+    let comments: Comments = targets(rels, COMMENTS_TYPE)
+        .next()
+        .and_then(|(_, path, ..)| package.read(path))
+        .unwrap_or_default();
+    let mut comments = comments.into_inner();
+    link_replies(&mut comments, &comments_extended);
+    (Comments { comments }, comments_extended)
 }
 
-fn add_header_footer_images(
-    docx: Docx,
-    _header_footer_rels: &ReadHeaderOrFooterRels,
-    _part_map: &HashMap<String, String>,
-    _document_path: &str,
-) -> Docx {
-    // For XML packages, header/footer image handling is simplified
-    // In a full implementation, we would process header/footer relationships for images
-    // For now, we'll use the default ReadHeaderOrFooterRels which doesn't have images
+fn add_images_from_xml(mut docx: Docx, package: &XmlPackage, rels: &ReadRels, dir: &Path) -> Docx {
+    for (id, path, ..) in targets(rels, IMAGE_TYPE) {
+        let name = path.strip_prefix(dir).unwrap_or(path).to_str();
+        let (Some(name), Some(data)) = (name, package.get(path)) else {
+            continue;
+        };
+        // For XML packages with binaryData, the data is base64 encoded
+        // Remove all whitespace and newlines from base64 data
+        let clean_base64 = data
+            .chars()
+            .filter(|c| !c.is_whitespace())
+            .collect::<String>();
+        // If base64 decode fails, try as raw bytes (shouldn't happen for binaryData)
+        let bytes = base64::engine::general_purpose::STANDARD
+            .decode(&clean_base64)
+            .unwrap_or_else(|_| data.as_bytes().to_vec());
+        docx = docx.add_image(id.clone(), name.to_string(), bytes);
+    }
     docx
 }
 
@@ -228,7 +129,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract name attribute (handle both standard and double-quoted patterns)
             let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
                 // Handle double-quoted pattern: pkg:name=""value""
-                let name_start = name_start + 12; // 12 = "pkg:name=\"\"".len()
+                let name_start = name_start + 11; // 11 = "pkg:name=\"\"".len()
                 if let Some(name_end) = part_xml[name_start..].find("\"\"") {
                     decode_html_entities(&part_xml[name_start..name_start + name_end])
                 } else {
@@ -255,7 +156,7 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             // Extract contentType attribute (handle both standard and double-quoted patterns)
             let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
                 // Handle double-quoted pattern: pkg:contentType=""value""
-                let type_start = type_start + 19; // 19 = "pkg:contentType=\"\"".len()
+                let type_start = type_start + 18; // 18 = "pkg:contentType=\"\"".len()
                 if let Some(type_end) = part_xml[type_start..].find("\"\"") {
                     decode_html_entities(&part_xml[type_start..type_start + type_end])
                 } else {
@@ -328,311 +229,105 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     let mut docx = Docx::new();
 
     // Extract all parts from the XML package
-    let parts = extract_xml_package_parts(xml_content)?;
-
-    // Create a HashMap for easy lookup of parts by name
-    let mut part_map: HashMap<String, String> = HashMap::new();
-    for part in parts {
-        part_map.insert(part.name, part.data);
-    }
-
-    // Read content types (not strictly necessary for XML format, but helps with compatibility)
-    let _content_types = if let Some(content_types_data) = part_map.get("[Content_Types].xml") {
-        ContentTypes::from_xml(content_types_data.as_bytes()).ok()
-    } else {
-        None
+    let package = XmlPackage {
+        parts: extract_xml_package_parts(xml_content)?
+            .into_iter()
+            .map(|part| (part.name.trim_start_matches('/').to_string(), part.data))
+            .collect(),
     };
 
-    // Read main relationships (try both with and without leading slash)
-    let rels = if let Some(rels_data) = part_map.get("_rels/.rels") {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else if let Some(rels_data) = part_map.get("/_rels/.rels") {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else {
-        return Err(ReaderError::DocumentNotFoundError);
-    };
+    // Read main relationships
+    let rels = package
+        .get("_rels/.rels")
+        .ok_or(ReaderError::DocumentNotFoundError)?;
+    let rels = Rels::from_xml(rels.as_bytes())?;
 
     // Find the main document path
-    let main_rel = rels
+    let document_path = rels
         .find_target(DOC_RELATIONSHIP_TYPE)
-        .ok_or(ReaderError::DocumentNotFoundError);
-
-    let document_path = if let Ok(rel) = main_rel {
-        rel.2.clone()
-    } else {
-        "word/document.xml".to_owned()
-    };
+        .map(|rel| rel.2.clone())
+        .unwrap_or_else(|| "word/document.xml".to_owned());
+    let document_path = Path::new(&document_path);
+    let dir = document_path.parent().unwrap_or_else(|| Path::new(""));
 
     // Read custom properties if available
     if let Some(custom_props) = rels.find_target(CUSTOM_PROPERTIES_TYPE) {
-        if let Some(data) = part_map.get(&custom_props.2) {
-            if let Ok(custom) = CustomProps::from_xml(data.as_bytes()) {
-                docx.doc_props.custom = custom;
-            }
+        if let Some(custom) = package.read(&custom_props.2) {
+            docx.doc_props.custom = custom;
         }
     }
 
-    // Read document relationships - use Rels directly for XML packages
-    let document_rels_path = document_path.replace("document.xml", "_rels/document.xml.rels");
-    let document_rels = if let Some(rels_data) = part_map.get(&document_rels_path) {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else if let Some(rels_data) = part_map.get(&format!("/{document_rels_path}")) {
-        Rels::from_xml(rels_data.as_bytes())?
-    } else {
-        Rels::default()
-    };
+    // Read document relationships
+    let rels = package.rels(document_path)?;
 
-    // Read themes (improved implementation with debug)
-    if let Some(theme_rel) = document_rels.find_target(THEME_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let theme_path_str = format!("{}/{}", base_path, theme_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_theme_path = if theme_path_str.starts_with("/") {
-            theme_path_str.clone()
-        } else {
-            format!("/{theme_path_str}")
-        };
-
-        if let Some(theme_data) = part_map
-            .get(&theme_path_str)
-            .or_else(|| part_map.get(&direct_theme_path))
-        {
-            match Theme::from_xml(theme_data.as_bytes()) {
-                Ok(theme) => {
-                    docx.themes.push(theme);
-                }
-                Err(_) => {
-                    // Theme parsing failed - this is a known limitation for some XML formats
-                }
-            }
-        }
-    }
+    let headers = read_headers_or_footers_from_xml(&package, &rels, HEADER_TYPE);
+    let footers = read_headers_or_footers_from_xml(&package, &rels, FOOTER_TYPE);
 
-    // Read headers and footers
-    let headers = read_headers_from_xml(&document_rels, &part_map, &document_path);
-    let footers = read_footers_from_xml(&document_rels, &part_map, &document_path);
+    docx.themes = targets(&rels, THEME_TYPE)
+        .filter_map(|(_, path, ..)| package.read(path))
+        .collect();
 
     // Read comments and comments extended
-    let (comments, comments_extended) =
-        read_comments_from_xml(&document_rels, &part_map, &document_path);
-
-    // Read the main document (try both with and without leading slash)
-    let document = if let Some(doc_data) = part_map.get(&document_path) {
-        Document::from_xml(doc_data.as_bytes())?
-    } else if let Some(doc_data) = part_map.get(&format!("/{document_path}")) {
-        Document::from_xml(doc_data.as_bytes())?
-    } else if let Some(stripped_path) = document_path.strip_prefix("/") {
-        if let Some(doc_data) = part_map.get(stripped_path) {
-            Document::from_xml(doc_data.as_bytes())?
-        } else {
-            return Err(ReaderError::DocumentNotFoundError);
-        }
-    } else {
-        return Err(ReaderError::DocumentNotFoundError);
-    };
-
-    docx = docx.document(document);
-
-    // Read styles if available (improved implementation with debug)
-    if let Some(styles_rel) = document_rels.find_target(STYLE_RELATIONSHIP_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let styles_path_str = format!("{}/{}", base_path, styles_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_styles_path = if styles_path_str.starts_with("/") {
-            styles_path_str.clone()
-        } else {
-            format!("/{styles_path_str}")
-        };
-
-        if let Some(styles_data) = part_map
-            .get(&styles_path_str)
-            .or_else(|| part_map.get(&direct_styles_path))
-        {
-            if let Ok(styles) = Styles::from_xml(styles_data.as_bytes()) {
-                docx.styles = styles;
-            }
-        }
+    let (comments, comments_extended) = read_comments_from_xml(&package, &rels);
+
+    // Read the main document
+    let document = package
+        .get(document_path)
+        .ok_or(ReaderError::DocumentNotFoundError)?;
+    docx = docx.document(Document::from_xml(document.as_bytes())?);
+
+    // Assign headers and footers to their sections
+    let header_and_footer_rels = attach_headers_and_footers(&mut docx, &headers, &footers);
+    for header_or_footer_rels in header_and_footer_rels {
+        docx = add_images_from_xml(docx, &package, &header_or_footer_rels.rels, dir);
     }
 
-    // Read numbering if available (improved implementation with debug)
-    if let Some(numbering_rel) = document_rels.find_target(NUMBERING_RELATIONSHIP_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let numbering_path_str = format!("{}/{}", base_path, numbering_rel.2);
-
-        // Also try the direct path from XML package
-        let direct_numbering_path = if numbering_path_str.starts_with("/") {
-            numbering_path_str.clone()
-        } else {
-            format!("/{numbering_path_str}")
-        };
-
-        if let Some(numbering_data) = part_map
-            .get(&numbering_path_str)
-            .or_else(|| part_map.get(&direct_numbering_path))
-        {
-            if let Ok(numberings) = Numberings::from_xml(numbering_data.as_bytes()) {
-                docx.numberings = numberings;
-            }
-        }
-    } else {
-        // Try to find numbering.xml directly in the package if no relationship is found
-        let direct_paths = ["/word/numbering.xml", "word/numbering.xml"];
-        for path in &direct_paths {
-            if let Some(numbering_data) = part_map.get(*path) {
-                if let Ok(numberings) = Numberings::from_xml(numbering_data.as_bytes()) {
-                    docx.numberings = numberings;
-                    break;
-                }
-            }
-        }
+    // Store comments to paragraphs
+    if !comments.inner().is_empty() {
+        docx.store_comments(comments.inner());
+        docx = docx.comments(comments);
+        docx = docx.comments_extended(comments_extended);
     }
 
-    // Read settings if available (basic implementation)
-    if let Some(settings_rel) = document_rels.find_target(SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let settings_path_str = format!("{}/{}", base_path, settings_rel.2);
-        if let Some(settings_data) = part_map.get(&settings_path_str) {
-            if let Ok(settings) = Settings::from_xml(settings_data.as_bytes()) {
-                docx.settings = settings;
-            }
+    // Read styles if available
+    if let Some((_, path, ..)) = targets(&rels, STYLE_RELATIONSHIP_TYPE).next() {
+        if let Some(styles) = package.read(path) {
+            docx = docx.styles(styles);
         }
     }
 
-    // Read web settings if available (basic implementation)
-    if let Some(web_settings_rel) = document_rels.find_target(WEB_SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let web_settings_path_str = format!("{}/{}", base_path, web_settings_rel.2);
-        if let Some(web_settings_data) = part_map.get(&web_settings_path_str) {
-            if let Ok(web_settings) = WebSettings::from_xml(web_settings_data.as_bytes()) {
-                docx.web_settings = web_settings;
-            }
-        }
+    // Read numbering if available
+    let numberings_path = match targets(&rels, NUMBERING_RELATIONSHIP_TYPE).next() {
+        Some((_, path, ..)) => path.clone(),
+        // Try to find numbering.xml directly in the package if no relationship is found
+        None => PathBuf::from("word/numbering.xml"),
+    };
+    if let Some(numberings) = package.read(numberings_path) {
+        docx = docx.numberings(numberings);
     }
 
-    // Assign headers
-    if let Some(h) = docx.document.section_property.header_reference.clone() {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx.document.header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref h) = docx
-        .document
-        .section_property
-        .first_header_reference
-        .clone()
-    {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx
-                .document
-                .first_header_without_title_pg(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref h) = docx.document.section_property.even_header_reference.clone() {
-        if let Some((header, header_rels)) = headers.get(&h.id) {
-            docx.document = docx.document.even_header(header.clone(), &h.id);
-            let count = docx.document_rels.header_count + 1;
-            docx.document_rels.header_count = count;
-            docx.content_type = docx.content_type.add_header();
-
-            // Read media from header if available
-            docx = add_header_footer_images(docx, header_rels, &part_map, &document_path);
+    // Read settings if available
+    if let Some((_, path, ..)) = targets(&rels, SETTINGS_TYPE).next() {
+        if let Some(settings) = package.read(path) {
+            docx = docx.settings(settings);
         }
     }
 
-    // Assign footers
-    if let Some(f) = docx.document.section_property.footer_reference.clone() {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx.document.footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref f) = docx
-        .document
-        .section_property
-        .first_footer_reference
-        .clone()
-    {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx
-                .document
-                .first_footer_without_title_pg(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
-        }
-    }
-    if let Some(ref f) = docx.document.section_property.even_footer_reference.clone() {
-        if let Some((footer, footer_rels)) = footers.get(&f.id) {
-            docx.document = docx.document.even_footer(footer.clone(), &f.id);
-            let count = docx.document_rels.footer_count + 1;
-            docx.document_rels.footer_count = count;
-            docx.content_type = docx.content_type.add_footer();
-
-            // Read media from footer if available
-            docx = add_header_footer_images(docx, footer_rels, &part_map, &document_path);
+    // Read web settings if available
+    if let Some((_, path, ..)) = targets(&rels, WEB_SETTINGS_TYPE).next() {
+        if let Some(web_settings) = package.read(path) {
+            docx = docx.web_settings(web_settings);
         }
     }
 
-    // Store comments to paragraphs
-    if !comments.inner().is_empty() {
-        docx.store_comments(comments.inner());
-        docx = docx.comments(comments);
-        docx = docx.comments_extended(comments_extended);
-    }
-
     // Read and add images from XML package
-    let media = document_rels
-        .rels
-        .iter()
-        .filter(|(rel_type, ..)| *rel_type == IMAGE_TYPE)
-        .map(|(_, id, target)| (id.clone(), PathBuf::from(target), None))
-        .collect::<Vec<_>>();
-
-    if !media.is_empty() {
-        docx = add_images_from_xml(docx, Some(media), &part_map, &document_path);
-    }
+    docx = add_images_from_xml(docx, &package, &rels, dir);
 
-    // Read and add hyperlinks - simplified for XML packages
-    if let Some((id, _, target)) = document_rels.find_target(HYPERLINK_TYPE) {
-        // For XML packages, we'll add the hyperlink with a default mode
-        docx = docx.add_hyperlink(id, target, "External".to_string());
+    // Read and add hyperlinks
+    for (id, target, mode) in targets(&rels, HYPERLINK_TYPE) {
+        if let (Some(target), Some(mode)) = (target.to_str(), mode) {
+            docx = docx.add_hyperlink(id.clone(), target, mode.clone());
+        }
     }
 
     Ok(docx)
diff --git a/docx-core/src/reader/rels.rs b/docx-core/src/reader/rels.rs
index 630d839..88d1ebb 100644
--- a/docx-core/src/reader/rels.rs
+++ b/docx-core/src/reader/rels.rs
@@ -4,7 +4,7 @@ use std::str::FromStr;
 use std::{
     collections::{BTreeMap, BTreeSet},
     io::Read,
-    path::{Path, PathBuf},
+    path::{Component, Path, PathBuf},
 };
 pub type ReadRels = BTreeMap<String, BTreeSet<(RId, PathBuf, Option<String>)>>;
 
@@ -51,13 +51,27 @@ pub fn find_rels_filename(main_path: impl AsRef<Path>) -> Result<PathBuf, Reader
     let dir = path
         .parent()
         .ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    let base = path
-        .file_stem()
-        .ok_or(ReaderError::DocumentRelsNotFoundError)?;
-    Ok(Path::new(dir)
-        .join("_rels")
-        .join(base)
-        .with_extension("xml.rels"))
+    let mut name = path
+        .file_name()
+        .ok_or(ReaderError::DocumentRelsNotFoundError)?
+        .to_os_string();
+    name.push(".rels");
+    Ok(Path::new(dir).join("_rels").join(name))
+}
+
+/// The path of the part a relationship of a part in `dir` points at.
+fn resolve_target(dir: impl AsRef<Path>, target: impl AsRef<Path>) -> PathBuf {
+    let mut path = PathBuf::new();
+    for component in dir.as_ref().join(target).components() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir => {
+                path.pop();
+            }
+            component => path.push(component),
+        }
+    }
+    path
 }
 
 pub fn read_rels_xml<R: Read>(reader: R, dir: impl AsRef<Path>) -> Result<ReadRels, ReaderError> {
@@ -91,7 +105,7 @@ pub fn read_rels_xml<R: Read>(reader: R, dir: impl AsRef<Path>) -> Result<ReadRe
                     }
 
                     let target = if !rel_type.ends_with("hyperlink") {
-                        Path::new(dir.as_ref()).join(target_string)
+                        resolve_target(dir.as_ref(), target_string)
                     } else {
                         Path::new("").join(target_string)
                     };
-- 
2.43.0


From 50a6b23654965f779c62543a1eba811bb90bd6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:14 +0000
Subject: [PATCH 16/66] fix: keep the position, overlap and rotation of
 pictures

Negative offsets wrapped around, the overlap flag was written as the simple
position flag, and alignment and rotation were lost when reading.
---
 docx-core/src/documents/elements/drawing.rs |  6 ++--
 docx-core/src/reader/drawing.rs             | 32 ++++++++++++---------
 docx-core/src/reader/pic.rs                 |  9 ++++++
 docx-core/src/types/drawing_position.rs     | 17 +++++++++++
 4 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c207d77..580037b 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -80,8 +80,8 @@ impl BuildXML for Drawing {
                             &format!("{}", p.dist_b),
                             &format!("{}", p.dist_l),
                             &format!("{}", p.dist_r),
-                            "0",
                             if p.simple_pos { "1" } else { "0" },
+                            if p.allow_overlap { "1" } else { "0" },
                             "0",
                             "0",
                             if p.layout_in_cell { "1" } else { "0" },
@@ -95,7 +95,7 @@ impl BuildXML for Drawing {
 
                     match p.position_h {
                         DrawingPosition::Offset(x) => {
-                            let x = format!("{}", x as u32);
+                            let x = format!("{}", x);
                             b = b.pos_offset(&x)?.close()?;
                         }
                         DrawingPosition::Align(x) => {
@@ -107,7 +107,7 @@ impl BuildXML for Drawing {
 
                     match p.position_v {
                         DrawingPosition::Offset(y) => {
-                            let y = format!("{}", y as u32);
+                            let y = format!("{}", y);
                             b = b.pos_offset(&y)?.close()?;
                         }
                         DrawingPosition::Align(a) => {
diff --git a/docx-core/src/reader/drawing.rs b/docx-core/src/reader/drawing.rs
index 86beca6..bbaf0b6 100644
--- a/docx-core/src/reader/drawing.rs
+++ b/docx-core/src/reader/drawing.rs
@@ -11,8 +11,8 @@ use super::*;
 fn read_position_h<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromHType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromHType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_h = RelativeFromHType::default();
 
     loop {
@@ -25,13 +25,15 @@ fn read_position_h<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Ok(a) = PicAlign::from_str(c.trim()) {
+                    position = DrawingPosition::Align(a);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionH {
-                    return Ok((relative_from_h, offset));
+                    return Ok((relative_from_h, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -43,8 +45,8 @@ fn read_position_h<R: Read>(
 fn read_position_v<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromVType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromVType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_v = RelativeFromVType::default();
     loop {
         if let Some(v) = read(attrs, "relativeFrom") {
@@ -57,13 +59,15 @@ fn read_position_v<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Ok(a) = PicAlign::from_str(c.trim()) {
+                    position = DrawingPosition::Align(a);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionV {
-                    return Ok((relative_from_v, offset));
+                    return Ok((relative_from_v, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -123,8 +127,8 @@ impl ElementReader for Drawing {
         let mut simple_pos_y = 0;
         let mut layout_in_cell = true;
         let mut relative_height = 0;
-        let mut position_h = 0;
-        let mut position_v = 0;
+        let mut position_h = DrawingPosition::Offset(0);
+        let mut position_v = DrawingPosition::Offset(0);
         let mut relative_from_h = RelativeFromHType::default();
         let mut relative_from_v = RelativeFromVType::default();
         let mut allow_overlap = true;
@@ -252,8 +256,8 @@ impl ElementReader for Drawing {
                             pic.dist_r = dist_r;
                             pic.relative_from_h = relative_from_h;
                             pic.relative_from_v = relative_from_v;
-                            pic.position_v = DrawingPosition::Offset(position_v);
-                            pic.position_h = DrawingPosition::Offset(position_h);
+                            pic.position_v = position_v;
+                            pic.position_h = position_h;
                             drawing = drawing.pic(pic);
                         }
                     }
@@ -276,8 +280,8 @@ impl ElementReader for Drawing {
                             text_box.dist_r = dist_r;
                             text_box.relative_from_h = relative_from_h;
                             text_box.relative_from_v = relative_from_v;
-                            text_box.position_v = DrawingPosition::Offset(position_v);
-                            text_box.position_h = DrawingPosition::Offset(position_h);
+                            text_box.position_v = position_v;
+                            text_box.position_h = position_h;
                             text_box.children = children;
                             drawing = drawing.text_box(text_box);
                         }
diff --git a/docx-core/src/reader/pic.rs b/docx-core/src/reader/pic.rs
index 0cbfba8..e5271f2 100644
--- a/docx-core/src/reader/pic.rs
+++ b/docx-core/src/reader/pic.rs
@@ -24,6 +24,15 @@ impl ElementReader for Pic {
                                     pic = pic.id(id)
                                 }
                             }
+                            AXMLElement::Xfrm => {
+                                // The rotation is written in 60000ths of a degree.
+                                if let Some(rot) = read(&attributes, "rot") {
+                                    if let Ok(rot) = f64::from_str(&rot) {
+                                        let deg = (rot / 60000.0).rem_euclid(360.0);
+                                        pic = pic.rotate(deg.round() as u16);
+                                    }
+                                }
+                            }
                             AXMLElement::Off => {
                                 let mut offset_x: i32 = 0;
                                 let mut offset_y: i32 = 0;
diff --git a/docx-core/src/types/drawing_position.rs b/docx-core/src/types/drawing_position.rs
index 1eda236..d548273 100644
--- a/docx-core/src/types/drawing_position.rs
+++ b/docx-core/src/types/drawing_position.rs
@@ -1,9 +1,12 @@
 use serde::Serialize;
 use std::fmt;
+use std::str::FromStr;
 
 #[cfg(feature = "wasm")]
 use wasm_bindgen::prelude::*;
 
+use super::errors;
+
 #[cfg_attr(feature = "wasm", wasm_bindgen)]
 #[derive(Debug, Clone, Copy, Serialize, PartialEq)]
 #[cfg_attr(feature = "wasm", derive(ts_rs::TS))]
@@ -39,6 +42,20 @@ impl fmt::Display for PicAlign {
     }
 }
 
+impl FromStr for PicAlign {
+    type Err = errors::TypeError;
+    fn from_str(s: &str) -> Result<Self, Self::Err> {
+        match s {
+            "left" => Ok(PicAlign::Left),
+            "right" => Ok(PicAlign::Right),
+            "center" => Ok(PicAlign::Center),
+            "bottom" => Ok(PicAlign::Bottom),
+            "top" => Ok(PicAlign::Top),
+            _ => Err(errors::TypeError::Unsupported(s.to_string())),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy, Serialize, PartialEq)]
 #[cfg_attr(feature = "wasm", derive(ts_rs::TS))]
 #[cfg_attr(feature = "wasm", ts(export))]
-- 
2.43.0


From 52aa7e15f5f585a24d294cdbb2bf670f59e1a94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:37 +0000
Subject: [PATCH 17/66] fix: write frame padding with the attribute names of
 the schema

w:h_space and w:v_space do not exist; Word and the reader of this crate
look for w:hSpace and w:vSpace, so the padding was lost.
---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..c65f7b6 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -647,10 +647,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From 2ca0de69eac8baec92f298e0f9cc35cf559b1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:09 +0000
Subject: [PATCH 18/66] fix: write indents given in characters

hanging_chars and first_line_chars were accepted and read but never
written, so they disappeared when a document was saved.
---
 docx-core/src/documents/elements/indent.rs | 2 ++
 docx-core/src/xml_builder/elements.rs      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/docx-core/src/documents/elements/indent.rs b/docx-core/src/documents/elements/indent.rs
index 6cf53c7..f25a278 100644
--- a/docx-core/src/documents/elements/indent.rs
+++ b/docx-core/src/documents/elements/indent.rs
@@ -62,6 +62,8 @@ impl BuildXML for Indent {
                 self.special_indent,
                 self.end.unwrap_or_default(),
                 self.start_chars,
+                self.hanging_chars,
+                self.first_line_chars,
             )?
             .into_inner()
     }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index c65f7b6..417c2b6 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -274,6 +274,8 @@ impl<W: Write> XMLBuilder<W> {
         special_indent: Option<SpecialIndentType>,
         end: i32,
         start_chars: Option<i32>,
+        hanging_chars: Option<i32>,
+        first_line_chars: Option<i32>,
     ) -> Result<Self> {
         let mut base = XmlEvent::start_element("w:ind")
             .attr_display("w:left", start.unwrap_or(0))
@@ -282,6 +284,12 @@ impl<W: Write> XMLBuilder<W> {
         if let Some(start_chars) = start_chars {
             base = base.attr_display("w:leftChars", start_chars);
         }
+        if let Some(hanging_chars) = hanging_chars {
+            base = base.attr_display("w:hangingChars", hanging_chars);
+        }
+        if let Some(first_line_chars) = first_line_chars {
+            base = base.attr_display("w:firstLineChars", first_line_chars);
+        }
 
         match special_indent {
             Some(SpecialIndentType::FirstLine(v)) => {
-- 
2.43.0


From 352c2b3ea7914afd3ddcbbe8d9d29b4c70adb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:45:36 +0000
Subject: [PATCH 19/66] fix: write the leading and trailing gap of table rows

grid_before, grid_after, width_before and width_after were accepted and
read but never written, so rows moved when a document was saved.
---
 docx-core/src/documents/elements/table_row_property.rs | 10 +++++++++-
 docx-core/src/xml_builder/elements.rs                  |  5 +++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/table_row_property.rs b/docx-core/src/documents/elements/table_row_property.rs
index ee68ed8..b390cc8 100644
--- a/docx-core/src/documents/elements/table_row_property.rs
+++ b/docx-core/src/documents/elements/table_row_property.rs
@@ -3,7 +3,7 @@ use std::io::Write;
 
 use super::*;
 use crate::xml_builder::*;
-use crate::{documents::BuildXML, HeightRule};
+use crate::{documents::BuildXML, HeightRule, WidthType};
 
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
@@ -84,6 +84,14 @@ impl BuildXML for TableRowProperty {
             .open_table_row_property()?
             .add_optional_child(&self.del)?
             .add_optional_child(&self.ins)?
+            .apply_opt(self.grid_before, |v, b| b.grid_before(v as usize))?
+            .apply_opt(self.grid_after, |v, b| b.grid_after(v as usize))?
+            .apply_opt(self.width_before, |w, b| {
+                b.width_before(w as i32, WidthType::Dxa)
+            })?
+            .apply_opt(self.width_after, |w, b| {
+                b.width_after(w as i32, WidthType::Dxa)
+            })?
             .add_optional_child(&self.cant_split)?
             .apply_opt(self.row_height, |h, b| {
                 b.table_row_height(
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 417c2b6..ae47000 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -388,6 +388,11 @@ impl<W: Write> XMLBuilder<W> {
 
     closed!(table_row_height, "w:trHeight", "w:val", "w:hRule");
 
+    closed_with_usize!(grid_before, "w:gridBefore");
+    closed_with_usize!(grid_after, "w:gridAfter");
+    closed_w_with_type_el!(width_before, "w:wBefore");
+    closed_w_with_type_el!(width_after, "w:wAfter");
+
     closed_with_usize!(grid_span, "w:gridSpan");
     closed_with_str!(vertical_merge, "w:vMerge");
     closed_with_str!(vertical_align, "w:vAlign");
-- 
2.43.0


From 35693112dafaa2ab59566ed48818f7e2f29c142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:16 +0000
Subject: [PATCH 20/66] fix: read cantSplit of table rows

---
 docx-core/src/reader/table_row.rs   | 8 ++++++++
 docx-core/src/reader/xml_element.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/docx-core/src/reader/table_row.rs b/docx-core/src/reader/table_row.rs
index ff49f12..e3a3d33 100644
--- a/docx-core/src/reader/table_row.rs
+++ b/docx-core/src/reader/table_row.rs
@@ -17,6 +17,7 @@ impl ElementReader for TableRow {
         let mut del = None;
         let mut ins = None;
         let mut height_rule = None;
+        let mut cant_split = false;
         loop {
             let e = r.next_event();
             match e {
@@ -67,6 +68,9 @@ impl ElementReader for TableRow {
                                 }
                             }
                         }
+                        XMLElement::CantSplit => {
+                            cant_split = read_bool(&attributes);
+                        }
                         XMLElement::Delete => {
                             if let Ok(d) = Delete::read(r, &attributes) {
                                 del = Some(d);
@@ -108,6 +112,10 @@ impl ElementReader for TableRow {
                             row = row.height_rule(height_rule);
                         }
 
+                        if cant_split {
+                            row = row.cant_split();
+                        }
+
                         if let Some(del) = del {
                             row = row.delete(del);
                         }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 2f7c335..fd869b7 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -123,6 +123,7 @@ pub enum XMLElement {
     TableGrid,
     GridCol,
     GridAfter,
+    CantSplit,
     WidthAfter,
     GridBefore,
     WidthBefore,
@@ -332,6 +333,7 @@ impl FromStr for XMLElement {
             "tcBorders" => Ok(XMLElement::TableCellBorders),
             "vMerge" => Ok(XMLElement::TableVMerge),
             "gridSpan" => Ok(XMLElement::TableGridSpan),
+            "cantSplit" => Ok(XMLElement::CantSplit),
             "gridAfter" => Ok(XMLElement::GridAfter),
             "wAfter" => Ok(XMLElement::WidthAfter),
             "gridBefore" => Ok(XMLElement::GridBefore),
-- 
2.43.0


From 8a297e5a4ef05f438ad7e3abbf6eb1b98e1138c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:46:34 +0000
Subject: [PATCH 21/66] fix: write the style links of abstract numberings

styleLink and numStyleLink were accepted and read but never written, so
a numbering defined through a style lost its levels on saving.
---
 docx-core/src/documents/elements/abstract_numbering.rs | 7 +++++++
 docx-core/src/xml_builder/elements.rs                  | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index 9794f9c..d6e67e2 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -54,6 +54,13 @@ impl BuildXML for AbstractNumbering {
             builder = builder.multi_level_type(multi_level_type)?;
         }
 
+        if let Some(ref link) = self.style_link {
+            builder = builder.style_link(link)?;
+        }
+        if let Some(ref link) = self.num_style_link {
+            builder = builder.num_style_link(link)?;
+        }
+
         builder.add_children(&self.levels)?.close()?.into_inner()
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index ae47000..fa512e2 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -482,6 +482,8 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed_with_str!(multi_level_type, "w:multiLevelType");
+    closed_with_str!(style_link, "w:styleLink");
+    closed_with_str!(num_style_link, "w:numStyleLink");
 
     open!(open_abstract_num, "w:abstractNum", "w:abstractNumId");
     open!(open_level, "w:lvl", "w:ilvl");
-- 
2.43.0


From e40d04ea92969063ecf95d7395d9f61e80d05f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:02 +0000
Subject: [PATCH 22/66] fix: do not write the default numbering next to an own
 one with its id

Numbering 1 was always written first. A document that defined it as well,
for instance any saved document that was opened again, ended up with two
definitions of the same id.
---
 docx-core/src/documents/numberings.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..2669ed3 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -34,20 +34,28 @@ impl BuildXML for Numberings {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // Ids must be unique in the part, so an own definition replaces the default one.
+        let default_abstract_num =
+            (!self.abstract_nums.iter().any(|a| a.id == DEFAULT_ID)).then(create_default_numbering);
+        let default_num = (!self.numberings.iter().any(|n| n.id == DEFAULT_ID))
+            .then(|| Numbering::new(DEFAULT_ID, DEFAULT_ID));
+
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .add_optional_child(&default_abstract_num)?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .add_optional_child(&default_num)?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
     }
 }
 
+const DEFAULT_ID: usize = 1;
+
 fn create_default_numbering() -> AbstractNumbering {
-    AbstractNumbering::new(1)
+    AbstractNumbering::new(DEFAULT_ID)
         .add_level(
             Level::new(
                 0,
-- 
2.43.0


From d4b59e96aa583df008064fbfa1d7353e5fc3eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:20 +0000
Subject: [PATCH 23/66] fix: do not write the Normal style twice

A document that defines Normal itself, for instance any saved document
that was opened again, ended up with two styles of that id.
---
 docx-core/src/documents/styles.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..252dda3 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -81,11 +81,15 @@ impl BuildXML for Styles {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        let normal = Style::new("Normal", StyleType::Paragraph).name("Normal");
+        // Style ids must be unique, so an own definition replaces the default one.
+        let normal = self
+            .find_style_by_id("Normal")
+            .is_none()
+            .then(|| Style::new("Normal", StyleType::Paragraph).name("Normal"));
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .add_optional_child(&normal)?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 449555e426fd39b03988572d5ba6d77ddbf2ad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:12 +0000
Subject: [PATCH 24/66] fix: read and write the outsideMargin anchor of
 drawings

The horizontal anchor was written as outsizeMargin, which is not a value
of the schema, and the vertical one was written as outsideMargin but only
outsizeMargin was read, so it came back as margin.
---
 docx-core/src/types/relative_from_type.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/types/relative_from_type.rs b/docx-core/src/types/relative_from_type.rs
index e877993..7b3e8fc 100644
--- a/docx-core/src/types/relative_from_type.rs
+++ b/docx-core/src/types/relative_from_type.rs
@@ -53,7 +53,7 @@ impl fmt::Display for RelativeFromHType {
             RelativeFromHType::InsideMargin => write!(f, "insideMargin"),
             RelativeFromHType::LeftMargin => write!(f, "leftMargin"),
             RelativeFromHType::Margin => write!(f, "margin"),
-            RelativeFromHType::OutsizeMargin => write!(f, "outsizeMargin"),
+            RelativeFromHType::OutsizeMargin => write!(f, "outsideMargin"),
             RelativeFromHType::Page => write!(f, "page"),
             RelativeFromHType::RightMargin => write!(f, "rightMargin"),
         }
@@ -69,7 +69,7 @@ impl FromStr for RelativeFromHType {
             "insideMargin" => Ok(RelativeFromHType::InsideMargin),
             "leftMargin" => Ok(RelativeFromHType::LeftMargin),
             "margin" => Ok(RelativeFromHType::Margin),
-            "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
             "page" => Ok(RelativeFromHType::Page),
             "rightMargin" => Ok(RelativeFromHType::RightMargin),
             _ => Ok(RelativeFromHType::Margin),
@@ -117,7 +117,7 @@ impl FromStr for RelativeFromVType {
             "insideMargin" => Ok(RelativeFromVType::InsideMargin),
             "line" => Ok(RelativeFromVType::Line),
             "margin" => Ok(RelativeFromVType::Margin),
-            "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
+            "outsideMargin" | "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
             "page" => Ok(RelativeFromVType::Page),
             "paragraph" => Ok(RelativeFromVType::Paragraph),
             "topMargin" => Ok(RelativeFromVType::TopMargin),
-- 
2.43.0


From b57d6e138aa6cfb21f86bdc7810f5e6b32106c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:55:13 +0000
Subject: [PATCH 25/66] fix: read right-to-left paragraphs and the space of
 text borders

w:bidi and the w:space of w:bdr were written but not read back.
---
 docx-core/src/reader/paragraph_property.rs | 5 +++++
 docx-core/src/reader/run_property.rs       | 3 +++
 docx-core/src/reader/xml_element.rs        | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 3b14025..564ecb1 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -116,6 +116,11 @@ impl ElementReader for ParagraphProperty {
                                 p.page_break_before = Some(true);
                             }
                         }
+                        XMLElement::Bidi => {
+                            if read_bool(&attributes) {
+                                p.bidi = Some(true);
+                            }
+                        }
                         XMLElement::WidowControl => {
                             if read_bool(&attributes) {
                                 p.widow_control = Some(true);
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index fd8e0c7..53f3af9 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -187,6 +187,9 @@ impl ElementReader for RunProperty {
                                 if let Some(size) = attr.size {
                                     border = border.size(size as usize);
                                 };
+                                if let Some(space) = attr.space {
+                                    border = border.space(space as usize);
+                                };
                                 rp = rp.text_border(border);
                                 continue;
                             }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index fd869b7..5800eb2 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -62,6 +62,7 @@ pub enum XMLElement {
     KeepLines,
     PageBreakBefore,
     WidowControl,
+    Bidi,
     DivId,
     Div,
     DivsChild,
@@ -424,6 +425,7 @@ impl FromStr for XMLElement {
             "keepNext" => Ok(XMLElement::KeepNext),
             "keepLines" => Ok(XMLElement::KeepLines),
             "pageBreakBefore" => Ok(XMLElement::PageBreakBefore),
+            "bidi" => Ok(XMLElement::Bidi),
             "widowControl" => Ok(XMLElement::WidowControl),
             "headerReference" => Ok(XMLElement::HeaderReference),
             "footerReference" => Ok(XMLElement::FooterReference),
-- 
2.43.0


From f2598572e0a7ccdecbf96a3f56d5f3ed347d9473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:12 +0000
Subject: [PATCH 26/66] fix: read the columns and text direction of sections

---
 docx-core/src/reader/section_property.rs | 12 ++++++++++++
 docx-core/src/reader/xml_element.rs      |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index fc53e8f..d47ef11 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -157,6 +157,18 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
+                        XMLElement::Columns => {
+                            if let Some(num) = read(&attributes, "num") {
+                                if let Ok(num) = usize::from_str(&num) {
+                                    sp.columns = num;
+                                }
+                            }
+                        }
+                        XMLElement::TextDirection => {
+                            if let Some(v) = read_val(&attributes) {
+                                sp = sp.text_direction(v);
+                            }
+                        }
                         XMLElement::TitlePg => sp = sp.title_pg(),
                         _ => {}
                     }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 5800eb2..2b3cc6b 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -156,6 +156,7 @@ pub enum XMLElement {
     DocVars,
     DocVar,
     DocGrid,
+    Columns,
     DocDefaults,
     DefaultTabStop,
     RunPropertyDefault,
@@ -407,6 +408,7 @@ impl FromStr for XMLElement {
             "rFonts" => Ok(XMLElement::RunFonts),
             "pgMar" => Ok(XMLElement::PageMargin),
             "docDefaults" => Ok(XMLElement::DocDefaults),
+            "cols" => Ok(XMLElement::Columns),
             "docGrid" => Ok(XMLElement::DocGrid),
             "rPrDefault" => Ok(XMLElement::RunPropertyDefault),
             "adjustLineHeightInTable" => Ok(XMLElement::AdjustLineHeightInTable),
-- 
2.43.0


From 8b918bbd79d5c42088c8a450070db0a0fa6d65ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:40 +0000
Subject: [PATCH 27/66] fix: read the layout of tables

---
 docx-core/src/reader/table_property.rs | 10 ++++++++--
 docx-core/src/reader/xml_element.rs    |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index 810a6c6..ca31c09 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -1,11 +1,10 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::TableAlignmentType;
+use crate::{TableAlignmentType, TableLayoutType};
 
 use super::*;
 
-// TODO: layout: Option<TableLayout>,
 impl ElementReader for TableProperty {
     fn read<R: Read>(
         r: &mut EventReader<R>,
@@ -55,6 +54,13 @@ impl ElementReader for TableProperty {
                                 tp = tp.style(s);
                             }
                         }
+                        XMLElement::TableLayout => {
+                            if let Some(Ok(v)) =
+                                read(&attributes, "type").map(|v| TableLayoutType::from_str(&v))
+                            {
+                                tp = tp.layout(v);
+                            }
+                        }
                         XMLElement::TablePositionProperty => {
                             if let Ok(p) = TablePositionProperty::read(r, &attributes) {
                                 tp = tp.position(p);
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 2b3cc6b..a9b3add 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -103,6 +103,7 @@ pub enum XMLElement {
     TableCellMargin,
     TablePositionProperty,
     TableStyle,
+    TableLayout,
     // Change
     TableGridChange,
     TablePropertyChange,
@@ -345,6 +346,7 @@ impl FromStr for XMLElement {
             "tblInd" => Ok(XMLElement::TableIndent),
             "tblBorders" => Ok(XMLElement::TableBorders),
             "tblCellMar" => Ok(XMLElement::TableCellMargin),
+            "tblLayout" => Ok(XMLElement::TableLayout),
             "tblStyle" => Ok(XMLElement::TableStyle),
             "tblpPr" => Ok(XMLElement::TablePositionProperty),
             "top" => Ok(XMLElement::Top),
-- 
2.43.0


From a7009252f4d451943a425aff967fcd4e5b72e488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:18 +0000
Subject: [PATCH 28/66] fix: honour switches that are turned off explicitly

vanish, specVanish, titlePg, isLgl and adjustLineHeightInTable were read
as on even when their value was false.
---
 docx-core/src/reader/level.rs            |  2 +-
 docx-core/src/reader/run_property.rs     | 12 ++++++++++--
 docx-core/src/reader/section_property.rs |  6 +++++-
 docx-core/src/reader/settings.rs         |  4 +++-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 88042a2..71fce0e 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -66,7 +66,7 @@ impl ElementReader for Level {
                             }
                         }
                         XMLElement::IsLgl => {
-                            is_lgl = Some(IsLgl::new());
+                            is_lgl = read_bool(&attributes).then(IsLgl::new);
                         }
                         XMLElement::LevelText => {
                             if let Some(v) = read_val(&attributes) {
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 53f3af9..ae099e9 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -177,8 +177,16 @@ impl ElementReader for RunProperty {
                                 rp = rp.shading(shd);
                             }
                         }
-                        XMLElement::Vanish => rp = rp.vanish(),
-                        XMLElement::SpecVanish => rp = rp.spec_vanish(),
+                        XMLElement::Vanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.vanish();
+                            }
+                        }
+                        XMLElement::SpecVanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.spec_vanish();
+                            }
+                        }
                         XMLElement::TextBorder => {
                             if let Ok(attr) = read_border(&attributes) {
                                 let mut border = TextBorder::new()
diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index d47ef11..cc4988f 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -169,7 +169,11 @@ impl ElementReader for SectionProperty {
                                 sp = sp.text_direction(v);
                             }
                         }
-                        XMLElement::TitlePg => sp = sp.title_pg(),
+                        XMLElement::TitlePg => {
+                            if read_bool(&attributes) {
+                                sp = sp.title_pg();
+                            }
+                        }
                         _ => {}
                     }
                 }
diff --git a/docx-core/src/reader/settings.rs b/docx-core/src/reader/settings.rs
index 0606d1d..a00b733 100644
--- a/docx-core/src/reader/settings.rs
+++ b/docx-core/src/reader/settings.rs
@@ -53,7 +53,9 @@ impl FromXML for Settings {
                             }
                         }
                         XMLElement::AdjustLineHeightInTable => {
-                            settings = settings.adjust_line_height_in_table();
+                            if attributes::read_bool(&attributes) {
+                                settings = settings.adjust_line_height_in_table();
+                            }
                         }
                         XMLElement::CharacterSpacingControl => {
                             let val = read_val(&attributes);
-- 
2.43.0


From e1f3d9c1a2ec5b5aca8cfada29c47842a4d83021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:27 +0000
Subject: [PATCH 29/66] fix: write bold and italic that are turned off for
 complex scripts

---
 docx-core/src/documents/elements/bold_cs.rs   |  6 +++++-
 docx-core/src/documents/elements/italic_cs.rs |  6 +++++-
 docx-core/src/xml_builder/elements.rs         | 12 ++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/bold_cs.rs b/docx-core/src/documents/elements/bold_cs.rs
index 5e20da8..6a1e505 100644
--- a/docx-core/src/documents/elements/bold_cs.rs
+++ b/docx-core/src/documents/elements/bold_cs.rs
@@ -39,6 +39,10 @@ impl BuildXML for BoldCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).b_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).b_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_bold_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/documents/elements/italic_cs.rs b/docx-core/src/documents/elements/italic_cs.rs
index 6e8c804..fb98422 100644
--- a/docx-core/src/documents/elements/italic_cs.rs
+++ b/docx-core/src/documents/elements/italic_cs.rs
@@ -40,6 +40,10 @@ impl BuildXML for ItalicCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).i_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).i_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_italic_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index fa512e2..988c986 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -189,6 +189,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_bold_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:bCs").attr("w:val", f))?
+            .close()
+    }
+
     closed_with_str!(caps, "w:caps");
 
     closed!(i, "w:i");
@@ -200,6 +206,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_italic_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:iCs").attr("w:val", f))?
+            .close()
+    }
+
     closed!(strike, "w:strike");
 
     pub(crate) fn disable_strike(self) -> Result<Self> {
-- 
2.43.0


From 59acf19fe427580d7aed4386afb3f9fbff1e1598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:14:41 +0000
Subject: [PATCH 30/66] fix: keep the formatting of a run that gets a footnote
 reference

---
 docx-core/src/documents/elements/run.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/run.rs b/docx-core/src/documents/elements/run.rs
index 0b8dcfa..f8117d9 100644
--- a/docx-core/src/documents/elements/run.rs
+++ b/docx-core/src/documents/elements/run.rs
@@ -349,7 +349,7 @@ impl Run {
     }
 
     pub fn add_footnote_reference(mut self, footnote: Footnote) -> Run {
-        self.run_property = RunProperty::new().style("FootnoteReference");
+        self.run_property = self.run_property.style("FootnoteReference");
         self.children
             .push(RunChild::FootnoteReference(footnote.into()));
         self
-- 
2.43.0


From 4ea17a66f1668cfc60c443a74875728d9b8c3937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:17:48 +0000
Subject: [PATCH 31/66] fix: keep headers and footers of sections added through
 Document

Headers and footers given to a Section are attached by Docx::add_section.
A section added with Document::add_section kept them pending and they were
dropped from the package. Attach them when the package is prepared.
---
 docx-core/src/documents/elements/section.rs | 28 +++++++++++++++++++++
 docx-core/src/documents/mod.rs              | 12 +++++++++
 2 files changed, 40 insertions(+)

diff --git a/docx-core/src/documents/elements/section.rs b/docx-core/src/documents/elements/section.rs
index f7fc798..1c2d7be 100644
--- a/docx-core/src/documents/elements/section.rs
+++ b/docx-core/src/documents/elements/section.rs
@@ -180,6 +180,34 @@ impl Section {
         self
     }
 
+    /// Attaches headers and footers that are still pending because this section
+    /// was not added through [`Docx::add_section`](crate::Docx::add_section).
+    /// Their parts are numbered when the package is prepared.
+    pub(crate) fn attach_pending_parts(&mut self) -> bool {
+        let has_even_part = self.temp_even_header.is_some() || self.temp_even_footer.is_some();
+        let mut property = std::mem::take(&mut self.property);
+        if let Some(header) = self.temp_header.take() {
+            property = property.header(header, "");
+        }
+        if let Some(header) = self.temp_first_header.take() {
+            property = property.first_header(header, "");
+        }
+        if let Some(header) = self.temp_even_header.take() {
+            property = property.even_header(header, "");
+        }
+        if let Some(footer) = self.temp_footer.take() {
+            property = property.footer(footer, "");
+        }
+        if let Some(footer) = self.temp_first_footer.take() {
+            property = property.first_footer(footer, "");
+        }
+        if let Some(footer) = self.temp_even_footer.take() {
+            property = property.even_footer(footer, "");
+        }
+        self.property = property;
+        has_even_part
+    }
+
     pub fn header(mut self, header: Header) -> Self {
         self.temp_header = Some(header);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 4e0c9f0..7d1d548 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -851,6 +851,7 @@ impl Docx {
     /// Prepares the complete document tree for package-part rendering.
     fn prepare_for_build(&mut self) -> bool {
         self.reset();
+        self.attach_pending_section_parts();
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
@@ -861,6 +862,17 @@ impl Docx {
         has_toc
     }
 
+    /// Attaches the headers and footers of sections added through [`Document`].
+    fn attach_pending_section_parts(&mut self) {
+        for child in &mut self.document.children {
+            if let DocumentChild::Section(section) = child {
+                if section.attach_pending_parts() {
+                    self.settings = std::mem::take(&mut self.settings).even_and_odd_headers();
+                }
+            }
+        }
+    }
+
     /// Tells whether anything in this document refers to a numbering.
     fn uses_numbering(&mut self) -> bool {
         let mut finder = NumberingFinder::default();
-- 
2.43.0


From e354c34ffcc901c18ee1ff3a0b27c908f91a59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:12 +0000
Subject: [PATCH 32/66] fix: read tables in comments

A comment can hold tables, and they are written, but reading a document
dropped every table of a comment.
---
 docx-core/src/reader/comment.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index 6fa085f..be344d2 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -24,9 +24,16 @@ impl ElementReader for Comment {
                 }) => {
                     let e = XMLElement::from_str(&name.local_name)
                         .expect("should convert to XMLElement");
-                    if let XMLElement::Paragraph = e {
-                        let p = Paragraph::read(r, &attributes)?;
-                        comment = comment.add_paragraph(p);
+                    match e {
+                        XMLElement::Paragraph => {
+                            let p = Paragraph::read(r, &attributes)?;
+                            comment = comment.add_paragraph(p);
+                        }
+                        XMLElement::Table => {
+                            let t = Table::read(r, &attributes)?;
+                            comment = comment.add_table(t);
+                        }
+                        _ => {}
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From a39ad1883775680aa3e58460b3237fe12b63388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:20:12 +0000
Subject: [PATCH 33/66] fix: read what a positional tab is relative to

The value was looked up in the alignment attribute, so relativeTo="indent"
was read as relative to the margin.
---
 docx-core/src/reader/positional_tab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/positional_tab.rs b/docx-core/src/reader/positional_tab.rs
index 9f9cf1e..a66831e 100644
--- a/docx-core/src/reader/positional_tab.rs
+++ b/docx-core/src/reader/positional_tab.rs
@@ -36,7 +36,7 @@ fn read_alignment(
 fn read_relative_to(attributes: &[OwnedAttribute]) -> Result<PositionalTabRelativeTo, ReaderError> {
     for a in attributes {
         let local_name = &a.name.local_name;
-        if local_name == "alignment" {
+        if local_name == "relativeTo" {
             let v = a.value.to_owned();
             if let Ok(t) = PositionalTabRelativeTo::from_str(&v) {
                 return Ok(t);
-- 
2.43.0


From 5562bfcd703dda5d3bbc152f5acc1a68ff84be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:21:48 +0000
Subject: [PATCH 34/66] fix: read content controls inside content controls

The end of an inner control was taken for the end of the outer one, so what
followed it left the outer control.
---
 docx-core/src/reader/structured_data_tag.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..1927f33 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -74,6 +74,14 @@ impl ElementReader for StructuredDataTag {
                             }
                             continue;
                         }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(child) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children.push(StructuredDataTagChild::StructuredDataTag(
+                                    Box::new(child),
+                                ));
+                            }
+                            continue;
+                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From 782a7bc8804585261347cb2b80af55d983eaa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:08 +0000
Subject: [PATCH 35/66] fix: read text divided by comments or CDATA as one text

Text events ended at comments, processing instructions and CDATA sections,
so one w:t became several texts and elements that expect a single text event,
such as field instructions, lost the rest.
---
 docx-core/src/reader/xml_parser.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 6e888ae..e8865af 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -167,7 +167,7 @@ impl<R: Read> EventReader<R> {
                 }
                 Event::CData(text) => {
                     let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    return Ok(XmlEvent::Characters(decoded));
+                    return self.read_text_event(decoded);
                 }
                 Event::Eof => {
                     self.finished = true;
@@ -215,17 +215,16 @@ impl<R: Read> EventReader<R> {
                     self.pending.push_back(XmlEvent::EndElement { name });
                     break;
                 }
-                Event::CData(text) => {
-                    let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    self.pending.push_back(XmlEvent::Characters(decoded));
-                    break;
+                Event::CData(next_text) => {
+                    let decoded = self.reader.decoder().decode(next_text.as_ref())?;
+                    text.push_str(&decoded);
                 }
                 Event::Eof => {
                     self.pending.push_back(XmlEvent::EndDocument);
                     break;
                 }
                 Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
-                    break;
+                    // Comments and the like do not divide text
                 }
             }
         }
-- 
2.43.0


From c00901d555918d6bb0ba1235d2ea93ca4ab74f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:39:37 +0000
Subject: [PATCH 36/66] fix: do not take what follows an empty instrText for
 the instruction

---
 docx-core/src/reader/run.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 9f15d4f..84c07bf 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -116,6 +116,7 @@ impl ElementReader for Run {
                                         Ok(XmlEvent::EndElement { name, .. }) => {
                                             let e = XMLElement::from_str(&name.local_name).unwrap();
                                             match e {
+                                                XMLElement::InstrText => break,
                                                 XMLElement::Run => {
                                                     return Ok(run);
                                                 }
-- 
2.43.0


From 7250897f92a1bc3d24fd88259edf18abc6ed4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:40:01 +0000
Subject: [PATCH 37/66] fix: accept any attribute quoting in flat XML packages

Parts whose name or content type was in single quotes, or whose data element
had attributes or blanks in its tag, were skipped without notice.
---
 docx-core/src/reader/read_xml.rs | 111 ++++++++++++-------------------
 1 file changed, 41 insertions(+), 70 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index b58a142..14273f0 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -112,6 +112,38 @@ fn decode_html_entities(text: &str) -> String {
         .replace("&#62;", ">")
 }
 
+/// Finds an attribute of the `pkg:part` start tag, in double, single or
+/// doubled (`""value""`) quotes.
+fn part_attribute(part_xml: &str, name: &str) -> Option<String> {
+    let tag = &part_xml[..part_xml.find('>')?];
+    let mut rest = tag;
+    while let Some(found) = rest.find(name) {
+        let is_separated = rest[..found].ends_with(|c: char| c.is_ascii_whitespace());
+        rest = &rest[found + name.len()..];
+        let Some(value) = rest.trim_start().strip_prefix('=') else {
+            continue;
+        };
+        if !is_separated {
+            continue;
+        }
+        let value = value.trim_start();
+        let quote = ["\"\"", "\"", "'"]
+            .into_iter()
+            .find(|q| value.starts_with(q))?;
+        let value = &value[quote.len()..];
+        return Some(decode_html_entities(&value[..value.find(quote)?]));
+    }
+    None
+}
+
+/// Finds the content of the element `name` of a part.
+fn part_content<'a>(part_xml: &'a str, name: &str) -> Option<&'a str> {
+    let start = part_xml.find(&format!("<{name}"))? + name.len() + 1;
+    let start = start + part_xml[start..].find('>')? + 1;
+    let end = part_xml[start..].find(&format!("</{name}"))?;
+    Some(&part_xml[start..start + end])
+}
+
 /// Extract parts from a Microsoft Word XML package using simple string parsing
 pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart>, ReaderError> {
     let mut parts = Vec::new();
@@ -126,82 +158,21 @@ pub fn extract_xml_package_parts(xml_content: &str) -> Result<Vec<XmlPackagePart
             let part_end = part_start + part_end + 11; // 11 = "</pkg:part>".len()
             let part_xml = &xml_content[part_start..part_end];
 
-            // Extract name attribute (handle both standard and double-quoted patterns)
-            let name = if let Some(name_start) = part_xml.find("pkg:name=\"\"") {
-                // Handle double-quoted pattern: pkg:name=""value""
-                let name_start = name_start + 11; // 11 = "pkg:name=\"\"".len()
-                if let Some(name_end) = part_xml[name_start..].find("\"\"") {
-                    decode_html_entities(&part_xml[name_start..name_start + name_end])
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else if let Some(name_start) = part_xml.find("pkg:name=\"") {
-                // Handle standard pattern: pkg:name="value"
-                let name_start = name_start + 10; // 10 = "pkg:name=\"".len()
-                if let Some(name_end) = part_xml[name_start..].find("\"") {
-                    part_xml[name_start..name_start + name_end].to_string()
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else {
-                // Skip this part but continue processing
-                start_idx = part_end;
-                continue;
-            };
-
-            // Extract contentType attribute (handle both standard and double-quoted patterns)
-            let content_type = if let Some(type_start) = part_xml.find("pkg:contentType=\"\"") {
-                // Handle double-quoted pattern: pkg:contentType=""value""
-                let type_start = type_start + 18; // 18 = "pkg:contentType=\"\"".len()
-                if let Some(type_end) = part_xml[type_start..].find("\"\"") {
-                    decode_html_entities(&part_xml[type_start..type_start + type_end])
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else if let Some(type_start) = part_xml.find("pkg:contentType=\"") {
-                // Handle standard pattern: pkg:contentType="value"
-                let type_start = type_start + 17; // 17 = "pkg:contentType=\"".len()
-                if let Some(type_end) = part_xml[type_start..].find("\"") {
-                    part_xml[type_start..type_start + type_end].to_string()
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else {
+            let (Some(name), Some(content_type)) = (
+                part_attribute(part_xml, "pkg:name"),
+                part_attribute(part_xml, "pkg:contentType"),
+            ) else {
                 // Skip this part but continue processing
                 start_idx = part_end;
                 continue;
             };
 
             // Extract xmlData or binaryData content
-            let data = if let Some(data_start) = part_xml.find("<pkg:xmlData>") {
-                let data_start = data_start + 13; // 13 = "<pkg:xmlData>".len()
-                if let Some(data_end) = part_xml[data_start..].find("</pkg:xmlData>") {
-                    part_xml[data_start..data_start + data_end].to_string()
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
-            } else if let Some(data_start) = part_xml.find("<pkg:binaryData>") {
-                let data_start = data_start + 16; // 16 = "<pkg:binaryData>".len()
-                if let Some(data_end) = part_xml[data_start..].find("</pkg:binaryData>") {
-                    // Binary data in XML packages is base64 encoded
-                    part_xml[data_start..data_start + data_end]
-                        .trim()
-                        .to_string()
-                } else {
-                    // Skip this part but continue processing
-                    start_idx = part_end;
-                    continue;
-                }
+            let data = if let Some(data) = part_content(part_xml, "pkg:xmlData") {
+                data.to_string()
+            } else if let Some(data) = part_content(part_xml, "pkg:binaryData") {
+                // Binary data in XML packages is base64 encoded
+                data.trim().to_string()
             } else {
                 // Skip this part but continue processing
                 start_idx = part_end;
-- 
2.43.0


From 16da21d19099df4d8a8b1bd7216a681e1eee8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:01 +0000
Subject: [PATCH 38/66] fix: Do not take an unknown attribute for the value of
 a switch

---
 docx-core/src/reader/attributes/bool_value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/docx-core/src/reader/attributes/bool_value.rs b/docx-core/src/reader/attributes/bool_value.rs
index d095441..184a94e 100644
--- a/docx-core/src/reader/attributes/bool_value.rs
+++ b/docx-core/src/reader/attributes/bool_value.rs
@@ -5,11 +5,7 @@ pub fn is_false(v: &str) -> bool {
 }
 
 pub fn read_bool(attrs: &[OwnedAttribute]) -> bool {
-    if let Some(v) = attrs
-        .iter()
-        .find(|attr| attr.name.local_name == "val")
-        .or_else(|| attrs.first())
-    {
+    if let Some(v) = attrs.iter().find(|attr| attr.name.local_name == "val") {
         return !is_false(&v.value);
     }
     true
-- 
2.43.0


From 4550baf87196c88a6fc814e2771c59e0ac038bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:01 +0000
Subject: [PATCH 39/66] fix: Read every spelling of adjustRightInd

---
 docx-core/src/reader/paragraph_property.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 564ecb1..dd5b621 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -58,11 +58,10 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::AdjustRightInd => {
-                            if let Some(val) = read_val(&attributes) {
-                                if let Ok(v) = isize::from_str(&val) {
-                                    p = p.adjust_right_ind(v);
-                                }
-                            }
+                            let v = read_val(&attributes)
+                                .and_then(|v| isize::from_str(&v).ok())
+                                .unwrap_or(read_bool(&attributes) as isize);
+                            p = p.adjust_right_ind(v);
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-- 
2.43.0


From 9991194c9876a094e82a153ec258821030d402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:50:01 +0000
Subject: [PATCH 40/66] fix: Resolve package targets with dot segments and
 leave off the root

---
 docx-core/src/reader/rels.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/rels.rs b/docx-core/src/reader/rels.rs
index 88d1ebb..5cd1bf4 100644
--- a/docx-core/src/reader/rels.rs
+++ b/docx-core/src/reader/rels.rs
@@ -30,6 +30,7 @@ impl FromXML for Rels {
                                 id = attr.value.clone();
                             }
                         }
+                        let target = resolve_target("", target).display().to_string();
                         // Preserve original relationship ID
                         s.rels.push((rel_type, id, target));
                     }
@@ -64,7 +65,8 @@ fn resolve_target(dir: impl AsRef<Path>, target: impl AsRef<Path>) -> PathBuf {
     let mut path = PathBuf::new();
     for component in dir.as_ref().join(target).components() {
         match component {
-            Component::CurDir => {}
+            // Targets are relative to the root of the package at most.
+            Component::CurDir | Component::RootDir => {}
             Component::ParentDir => {
                 path.pop();
             }
-- 
2.43.0


From df36045b815029a1995e1c050501d7610efb012d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:16 +0000
Subject: [PATCH 41/66] fix: Keep the ids of header and footer pictures when
 saving again

---
 docx-core/src/documents/image_collector.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index c342e55..15bdf76 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -156,8 +156,9 @@ impl<'a> PackagePartCollector<'a> {
 
     fn relationship_id(&self, picture_id: &str) -> String {
         match self.relationship_prefix {
-            Some(prefix) => format!("{prefix}{picture_id}"),
-            None => picture_id.to_owned(),
+            // Pictures that were read from a saved part have the prefix already.
+            Some(prefix) if !picture_id.starts_with(prefix) => format!("{prefix}{picture_id}"),
+            _ => picture_id.to_owned(),
         }
     }
 
-- 
2.43.0


From a73836530bcee233cafa26c7e30fba1d789f4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:16 +0000
Subject: [PATCH 42/66] fix: Restore pictures and links of headers and footers
 from their own relationships

---
 docx-core/src/documents/footer.rs             |  3 ++
 docx-core/src/documents/header.rs             |  3 ++
 docx-core/src/documents/mod.rs                | 45 ++++++++++++++++---
 docx-core/src/reader/header_or_footer_rels.rs | 13 ++++++
 docx-core/src/reader/read_docx.rs             | 15 +++++--
 docx-core/src/reader/read_xml.rs              |  2 +-
 6 files changed, 69 insertions(+), 12 deletions(-)

diff --git a/docx-core/src/documents/footer.rs b/docx-core/src/documents/footer.rs
index 626c430..c95c26f 100644
--- a/docx-core/src/documents/footer.rs
+++ b/docx-core/src/documents/footer.rs
@@ -11,6 +11,9 @@ use crate::xml_builder::*;
 pub struct Footer {
     pub has_numbering: bool,
     pub children: Vec<FooterChild>,
+    /// Relationship IDs and targets of the part this footer was read from.
+    #[serde(skip)]
+    pub(crate) read_targets: Vec<(String, String)>,
 }
 
 impl Footer {
diff --git a/docx-core/src/documents/header.rs b/docx-core/src/documents/header.rs
index bf3b69e..416b709 100644
--- a/docx-core/src/documents/header.rs
+++ b/docx-core/src/documents/header.rs
@@ -11,6 +11,9 @@ use crate::xml_builder::*;
 pub struct Header {
     pub has_numbering: bool,
     pub children: Vec<HeaderChild>,
+    /// Relationship IDs and targets of the part this header was read from.
+    #[serde(skip)]
+    pub(crate) read_targets: Vec<(String, String)>,
 }
 
 impl Header {
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 7d1d548..f938630 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -988,15 +988,10 @@ impl Docx {
     /// Gives pictures and hyperlinks that were read from a file, which only
     /// know their relationship ID, the data that ID refers to.
     fn restore_read_targets(&mut self) {
-        if self.images.is_empty() && self.hyperlinks.is_empty() {
-            return;
-        }
-
         let mut targets = ReadTargets {
             images: self
                 .images
                 .iter()
-                .rev()
                 .map(|(id, _, image, _)| (id.as_str(), image.0.as_slice()))
                 .collect(),
             hyperlinks: self
@@ -1006,11 +1001,28 @@ impl Docx {
                 .collect(),
         };
         visit_document(&mut self.document, &mut targets);
+
+        // Headers and footers have relationships of their own.
+        let images_by_path: HashMap<&str, &[u8]> = self
+            .images
+            .iter()
+            .map(|(_, path, image, _)| (path.as_str(), image.0.as_slice()))
+            .collect();
         for (_, header) in self.document.headers_mut() {
-            visit_header(header, &mut targets);
+            let read_targets = std::mem::take(&mut header.read_targets);
+            visit_header(
+                header,
+                &mut ReadTargets::of_part(&read_targets, &images_by_path),
+            );
+            header.read_targets = read_targets;
         }
         for (_, footer) in self.document.footers_mut() {
-            visit_footer(footer, &mut targets);
+            let read_targets = std::mem::take(&mut footer.read_targets);
+            visit_footer(
+                footer,
+                &mut ReadTargets::of_part(&read_targets, &images_by_path),
+            );
+            footer.read_targets = read_targets;
         }
     }
 
@@ -1216,6 +1228,25 @@ struct ReadTargets<'a> {
     hyperlinks: HashMap<&'a str, &'a str>,
 }
 
+impl<'a> ReadTargets<'a> {
+    /// The targets of a header or footer.
+    fn of_part(
+        read_targets: &'a [(String, String)],
+        images_by_path: &HashMap<&'a str, &'a [u8]>,
+    ) -> Self {
+        ReadTargets {
+            images: read_targets
+                .iter()
+                .filter_map(|(id, path)| Some((id.as_str(), *images_by_path.get(path.as_str())?)))
+                .collect(),
+            hyperlinks: read_targets
+                .iter()
+                .map(|(id, path)| (id.as_str(), path.as_str()))
+                .collect(),
+        }
+    }
+}
+
 impl DocumentTreeVisitor for ReadTargets<'_> {
     fn visit_picture(&mut self, picture: &mut Pic) {
         if !picture.image.is_empty() {
diff --git a/docx-core/src/reader/header_or_footer_rels.rs b/docx-core/src/reader/header_or_footer_rels.rs
index 1c2dc31..86de4b5 100644
--- a/docx-core/src/reader/header_or_footer_rels.rs
+++ b/docx-core/src/reader/header_or_footer_rels.rs
@@ -8,6 +8,7 @@ use header_or_footer_rels::rels::find_rels_filename;
 use self::rels::read_rels_xml;
 
 use super::errors::*;
+use super::namespace::*;
 use super::*;
 
 pub type RId = String;
@@ -31,6 +32,18 @@ impl ReadHeaderOrFooterRels {
     ) -> Option<&BTreeSet<(RId, PathBuf, Option<String>)>> {
         self.rels.get(target)
     }
+
+    /// The relationship IDs and targets of images, relative to `media_root`,
+    /// and hyperlinks.
+    pub(crate) fn media_and_hyperlinks(&self, media_root: &Path) -> Vec<(RId, String)> {
+        let images = self.target_paths(IMAGE_TYPE).into_iter().flatten();
+        let hyperlinks = self.target_paths(HYPERLINK_TYPE).into_iter().flatten();
+        images
+            .map(|(id, path, ..)| (id, path.strip_prefix(media_root).unwrap_or(path)))
+            .chain(hyperlinks.map(|(id, path, ..)| (id, path.as_path())))
+            .map(|(id, path)| (id.clone(), path.display().to_string()))
+            .collect()
+    }
 }
 
 pub fn read_header_or_footer_rels(
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 28bf8ad..fbbc88d 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -1,6 +1,7 @@
 use super::header_or_footer_rels::{read_header_or_footer_rels, ReadHeaderOrFooterRels};
 use super::namespace::*;
 use super::*;
+use std::path::Path;
 
 use zip::ZipArchive;
 
@@ -193,7 +194,8 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
     docx = docx.document(document);
 
     // assign headers and footers to their sections
-    let header_and_footer_rels = attach_headers_and_footers(&mut docx, &headers, &footers);
+    let header_and_footer_rels =
+        attach_headers_and_footers(&mut docx, &headers, &footers, Path::new(""));
     for rels in header_and_footer_rels {
         // Read media
         let media = rels.target_paths(IMAGE_TYPE);
@@ -283,12 +285,13 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
 }
 
 /// Attaches the headers and footers the sections refer to and returns their
-/// relationships. A section may have a first page header that is not shown, so
+/// relationships. Images are named relative to `media_root`. A section may have a first page header that is not shown, so
 /// the title page setting is left alone.
 pub(super) fn attach_headers_and_footers<'a>(
     docx: &mut Docx,
     headers: &'a HashMap<RId, (Header, ReadHeaderOrFooterRels)>,
     footers: &'a HashMap<RId, (Footer, ReadHeaderOrFooterRels)>,
+    media_root: &Path,
 ) -> Vec<&'a ReadHeaderOrFooterRels> {
     let mut rels = vec![];
     for property in docx.document.section_properties_mut() {
@@ -301,7 +304,9 @@ pub(super) fn attach_headers_and_footers<'a>(
                 continue;
             };
             if let Some((header, header_rels)) = headers.get(id) {
-                *target = Some((id.clone(), header.clone()));
+                let mut header = header.clone();
+                header.read_targets = header_rels.media_and_hyperlinks(media_root);
+                *target = Some((id.clone(), header));
                 rels.push(header_rels);
                 docx.document_rels.header_count += 1;
                 docx.content_type = std::mem::take(&mut docx.content_type).add_header();
@@ -316,7 +321,9 @@ pub(super) fn attach_headers_and_footers<'a>(
                 continue;
             };
             if let Some((footer, footer_rels)) = footers.get(id) {
-                *target = Some((id.clone(), footer.clone()));
+                let mut footer = footer.clone();
+                footer.read_targets = footer_rels.media_and_hyperlinks(media_root);
+                *target = Some((id.clone(), footer));
                 rels.push(footer_rels);
                 docx.document_rels.footer_count += 1;
                 docx.content_type = std::mem::take(&mut docx.content_type).add_footer();
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 14273f0..189cbce 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -248,7 +248,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     docx = docx.document(Document::from_xml(document.as_bytes())?);
 
     // Assign headers and footers to their sections
-    let header_and_footer_rels = attach_headers_and_footers(&mut docx, &headers, &footers);
+    let header_and_footer_rels = attach_headers_and_footers(&mut docx, &headers, &footers, dir);
     for header_or_footer_rels in header_and_footer_rels {
         docx = add_images_from_xml(docx, &package, &header_or_footer_rels.rels, dir);
     }
-- 
2.43.0


From a2ba32e6d2131427342204467575ef609c39f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:57:45 +0000
Subject: [PATCH 43/66] fix: Keep images that cannot be decoded

---
 docx-core/src/documents/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f938630..4021fbf 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -345,7 +345,12 @@ impl Docx {
 
             self.images
                 .push((id.into(), path, Image(buf), Png(png.into_inner())));
+            return self;
         }
+
+        // Keep what cannot be decoded, without a preview.
+        self.images
+            .push((id.into(), path, Image(buf), Png(Vec::new())));
         self
     }
 
-- 
2.43.0


From 1922e3d64d909ed9b18ce2fb2eb21cd31dd7f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:01:32 +0000
Subject: [PATCH 44/66] fix: Do not write a second style named Normal

---
 docx-core/src/documents/styles.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 252dda3..3e257c9 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -81,11 +81,14 @@ impl BuildXML for Styles {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        // Style ids must be unique, so an own definition replaces the default one.
-        let normal = self
-            .find_style_by_id("Normal")
-            .is_none()
-            .then(|| Style::new("Normal", StyleType::Paragraph).name("Normal"));
+        // Style ids and names must be unique, so an own definition replaces the
+        // default one.
+        let has_normal = self
+            .styles
+            .iter()
+            .any(|style| style.style_id == "Normal" || style.name == Name::new("Normal"));
+        let normal =
+            (!has_normal).then(|| Style::new("Normal", StyleType::Paragraph).name("Normal"));
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-- 
2.43.0


From ca07663442a6816c752a7f5f7501d72f11634fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:02:48 +0000
Subject: [PATCH 45/66] fix: Relate numberings that only a tracked paragraph
 change refers to

---
 docx-core/src/documents/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 4021fbf..c92e87c 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1209,7 +1209,12 @@ struct NumberingFinder {
 
 impl DocumentTreeVisitor for NumberingFinder {
     fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
-        self.found |= paragraph.property.numbering_property.is_some();
+        let property = &paragraph.property;
+        self.found |= property.numbering_property.is_some()
+            || property
+                .paragraph_property_change
+                .as_ref()
+                .is_some_and(|change| change.property.numbering_property.is_some());
     }
 
     fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
-- 
2.43.0


From 1977890d0b9fcacea9922b5956bc5416577e2136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:11:36 +0000
Subject: [PATCH 46/66] fix: List headings in sections, tables and content
 controls in automatic tables of contents

Only paragraphs placed directly in the document were listed, and a
heading selected by its level and by a style mapping was listed twice.
---
 docx-core/src/documents/document_tree.rs |  6 +-
 docx-core/src/documents/mod.rs           | 92 ++++++++++++------------
 2 files changed, 53 insertions(+), 45 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 58156e3..8bf2259 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -70,7 +70,11 @@ pub(crate) fn visit_footer(footer: &mut Footer, visitor: &mut impl DocumentTreeV
     }
 }
 
-fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTreeVisitor) {
+/// Traverses one child of the main document body.
+pub(crate) fn visit_document_child(
+    child: &mut DocumentChild,
+    visitor: &mut impl DocumentTreeVisitor,
+) {
     match child {
         DocumentChild::Paragraph(paragraph) => visit_paragraph(paragraph, visitor),
         DocumentChild::Table(table) => visit_table(table, visitor),
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index c92e87c..d2b8e4d 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -86,7 +86,9 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
+use self::document_tree::{
+    visit_document, visit_document_child, visit_footer, visit_header, DocumentTreeVisitor,
+};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part_with_reserved_ids, collect_footer_part,
     collect_header_part, CollectedPart, MediaRegistry,
@@ -2061,6 +2063,42 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
+/// Lists and bookmarks the headings of an automatic TOC.
+struct TocHeadingCollector<'a> {
+    heading_map: &'a HashMap<String, usize>,
+    // Support \t option. Levels by style id.
+    style_map: &'a HashMap<&'a str, usize>,
+    range: std::ops::RangeInclusive<usize>,
+    items: &'a mut Vec<TableOfContentsItem>,
+}
+
+impl DocumentTreeVisitor for TocHeadingCollector<'_> {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        let Some(style) = paragraph.property.style.as_ref() else {
+            return;
+        };
+        // TODO: check tc field
+        let level = [
+            self.heading_map.get(&style.val),
+            self.style_map.get(style.val.as_str()),
+        ]
+        .into_iter()
+        .flatten()
+        .copied()
+        .find(|level| self.range.contains(level));
+        if let Some(level) = level {
+            let toc_key = TocKey::generate();
+            self.items.push(
+                TableOfContentsItem::new()
+                    .text(paragraph.raw_text())
+                    .toc_key(&toc_key)
+                    .level(level),
+            );
+            paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+        }
+    }
+}
+
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
@@ -2094,50 +2132,16 @@ fn update_document_by_toc(
             })
             .collect();
 
+        let mut headings = TocHeadingCollector {
+            heading_map: &heading_map,
+            style_map: &style_map,
+            range: min..=max,
+            items: &mut items,
+        };
         for child in &mut document_children {
-            if let DocumentChild::Paragraph(paragraph) = child {
-                let heading_level = paragraph
-                    .property
-                    .style
-                    .as_ref()
-                    .and_then(|style| heading_map.get(&style.val))
-                    .copied();
-                if let Some(heading_level) = heading_level {
-                    if min <= heading_level && max >= heading_level {
-                        let toc_key = TocKey::generate();
-                        items.push(
-                            TableOfContentsItem::new()
-                                .text(paragraph.raw_text())
-                                .toc_key(&toc_key)
-                                .level(heading_level),
-                        );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
-                    }
-
-                    if let Some((_min, _max)) = toc.instr.tc_field_level_range {
-                        // TODO: check tc field
-                    }
-                }
-
-                // Support \t option. Collect toc items if style id matched.
-                let custom_level = paragraph
-                    .property
-                    .style
-                    .as_ref()
-                    .and_then(|style| style_map.get(style.val.as_str()))
-                    .copied();
-                if let Some(level) = custom_level {
-                    if min <= level && max >= level {
-                        let toc_key = TocKey::generate();
-                        items.push(
-                            TableOfContentsItem::new()
-                                .text(paragraph.raw_text())
-                                .toc_key(&toc_key)
-                                .level(level),
-                        );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
-                    }
-                }
+            // Headings inside of tables of contents are not listed.
+            if !matches!(child, DocumentChild::TableOfContents(_)) {
+                visit_document_child(child, &mut headings);
             }
         }
     }
-- 
2.43.0


From b14764a807ac4b43707ad13c958c004b9a7706be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:13:27 +0000
Subject: [PATCH 47/66] fix: Give bookmarks of automatic tables of contents ids
 and names of their own

They repeated ids and names the document already used for other
bookmarks, for example in a document that was read.
---
 docx-core/src/documents/document_tree.rs | 33 +++++------
 docx-core/src/documents/mod.rs           | 71 ++++++++++++++++++++++--
 2 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 8bf2259..502bfa8 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,10 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
-    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
-    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
-    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    BookmarkStart, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData,
+    Footer, FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom,
+    MoveFromChild, MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section,
+    SectionChild, StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
     TableOfContents, TableRowChild,
 };
 
@@ -34,6 +34,9 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits the start of a commented range.
     fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
 
+    /// Visits the start of a bookmark.
+    fn visit_bookmark_start(&mut self, _start: &BookmarkStart) {}
+
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
 }
@@ -82,9 +85,8 @@ pub(crate) fn visit_document_child(
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
         DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
-        DocumentChild::BookmarkStart(_)
-        | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentEnd(_) => {}
+        DocumentChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+        DocumentChild::BookmarkEnd(_) | DocumentChild::CommentEnd(_) => {}
     }
 }
 
@@ -96,9 +98,8 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
             SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
-            SectionChild::BookmarkStart(_)
-            | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentEnd(_) => {}
+            SectionChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            SectionChild::BookmarkEnd(_) | SectionChild::CommentEnd(_) => {}
         }
     }
 }
@@ -143,14 +144,14 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
                 visit_structured_data_tag(tag, visitor)
             }
             StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
-            StructuredDataTagChild::BookmarkStart(_)
-            | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentEnd(_) => {}
+            StructuredDataTagChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            StructuredDataTagChild::BookmarkEnd(_) | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
 }
 
-fn visit_paragraph(paragraph: &mut Paragraph, visitor: &mut impl DocumentTreeVisitor) {
+/// Traverses a paragraph and everything inside it.
+pub(crate) fn visit_paragraph(paragraph: &mut Paragraph, visitor: &mut impl DocumentTreeVisitor) {
     visitor.visit_paragraph(paragraph);
     visit_paragraph_children(&mut paragraph.children, visitor);
 }
@@ -169,8 +170,8 @@ fn visit_paragraph_children(
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
-            ParagraphChild::BookmarkStart(_)
-            | ParagraphChild::BookmarkEnd(_)
+            ParagraphChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            ParagraphChild::BookmarkEnd(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index d2b8e4d..09c9795 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -87,7 +87,8 @@ use base64::Engine;
 use serde::{ser, Serialize};
 
 use self::document_tree::{
-    visit_document, visit_document_child, visit_footer, visit_header, DocumentTreeVisitor,
+    visit_document, visit_document_child, visit_footer, visit_header, visit_paragraph,
+    DocumentTreeVisitor,
 };
 use self::image_collector::{
     collect_document_footnotes, collect_document_part_with_reserved_ids, collect_footer_part,
@@ -840,6 +841,19 @@ impl Docx {
             })
             .collect();
 
+        if auto_toc_indexes.is_empty() {
+            return has_toc;
+        }
+
+        let mut bookmarks = TocBookmarks::default();
+        visit_document(&mut self.document, &mut bookmarks);
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut bookmarks);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut bookmarks);
+        }
+
         for index in auto_toc_indexes {
             let mut children = std::mem::take(&mut self.document.children);
             let toc = match std::mem::replace(
@@ -849,7 +863,8 @@ impl Docx {
                 DocumentChild::TableOfContents(toc) => *toc,
                 _ => unreachable!("collected index must still contain a table of contents"),
             };
-            self.document.children = update_document_by_toc(children, &self.styles, toc, index);
+            self.document.children =
+                update_document_by_toc(children, &self.styles, toc, index, &mut bookmarks);
         }
 
         has_toc
@@ -2063,6 +2078,51 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
+/// Hands out bookmarks that differ from those the document has already.
+#[derive(Default)]
+struct TocBookmarks {
+    ids: HashSet<usize>,
+    last_id: usize,
+    names: HashSet<String>,
+}
+
+impl TocBookmarks {
+    fn next(&mut self) -> (usize, String) {
+        let mut id = generate_bookmark_id();
+        if self.ids.contains(&id) {
+            id = self.last_id.wrapping_add(1);
+            while !self.ids.insert(id) {
+                id = id.wrapping_add(1);
+            }
+        }
+        self.last_id = self.last_id.max(id);
+        let key = TocKey::generate();
+        let mut name = key.clone();
+        let mut suffix = 2;
+        while self.names.contains(&name) {
+            name = format!("{key}_{suffix}");
+            suffix += 1;
+        }
+        (id, name)
+    }
+}
+
+impl DocumentTreeVisitor for TocBookmarks {
+    fn visit_bookmark_start(&mut self, start: &BookmarkStart) {
+        self.ids.insert(start.id);
+        self.last_id = self.last_id.max(start.id);
+        self.names.insert(start.name.clone());
+    }
+
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        for child in &mut start.comment.children {
+            if let CommentChild::Paragraph(paragraph) = child {
+                visit_paragraph(paragraph, self);
+            }
+        }
+    }
+}
+
 /// Lists and bookmarks the headings of an automatic TOC.
 struct TocHeadingCollector<'a> {
     heading_map: &'a HashMap<String, usize>,
@@ -2070,6 +2130,7 @@ struct TocHeadingCollector<'a> {
     style_map: &'a HashMap<&'a str, usize>,
     range: std::ops::RangeInclusive<usize>,
     items: &'a mut Vec<TableOfContentsItem>,
+    bookmarks: &'a mut TocBookmarks,
 }
 
 impl DocumentTreeVisitor for TocHeadingCollector<'_> {
@@ -2087,14 +2148,14 @@ impl DocumentTreeVisitor for TocHeadingCollector<'_> {
         .copied()
         .find(|level| self.range.contains(level));
         if let Some(level) = level {
-            let toc_key = TocKey::generate();
+            let (id, toc_key) = self.bookmarks.next();
             self.items.push(
                 TableOfContentsItem::new()
                     .text(paragraph.raw_text())
                     .toc_key(&toc_key)
                     .level(level),
             );
-            paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+            paragraph.wrap_by_bookmark(id, &toc_key);
         }
     }
 }
@@ -2109,6 +2170,7 @@ fn update_document_by_toc(
     styles: &Styles,
     mut toc: TableOfContents,
     toc_index: usize,
+    bookmarks: &mut TocBookmarks,
 ) -> Vec<DocumentChild> {
     let heading_map = styles.create_heading_style_map();
     let mut items = vec![];
@@ -2137,6 +2199,7 @@ fn update_document_by_toc(
             style_map: &style_map,
             range: min..=max,
             items: &mut items,
+            bookmarks,
         };
         for child in &mut document_children {
             // Headings inside of tables of contents are not listed.
-- 
2.43.0


From f462e17b10da56e76cf8c7ad361da09634061ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:14:23 +0000
Subject: [PATCH 48/66] fix: Parse quoted arguments with spaces in TOC
 instructions

Arguments were cut at the first space, a trailing \f was lost and a
switch without its optional argument took the next switch for it.
---
 docx-core/src/documents/elements/instr_toc.rs | 54 ++++++++++---------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index b2850fa..e6f6246 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -280,91 +280,95 @@ fn parse_level_range(i: &str) -> Option<(usize, usize)> {
     None
 }
 
+/// Splits at spaces outside of double quotes.
+fn split_arguments(instr: &str) -> Vec<&str> {
+    let mut quoted = false;
+    instr
+        .split(|c: char| {
+            quoted ^= c == '"';
+            c == ' ' && !quoted
+        })
+        .filter(|argument| !argument.is_empty())
+        .collect()
+}
+
 impl std::str::FromStr for InstrToC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ').peekable();
+        let instr = instr.replace("&quot;", "\"");
+        let mut s = split_arguments(&instr).into_iter().peekable();
         let mut toc = InstrToC::new();
         loop {
             if let Some(i) = s.next() {
                 match i {
                     "\\a" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.caption_label(r);
                         }
                     }
                     "\\b" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.entry_bookmark_name(r);
                         }
                     }
                     "\\c" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.caption_label_including_numbers(r);
                         }
                     }
                     "\\d" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.sequence_and_page_numbers_separator(r);
                         }
                     }
                     "\\f" => {
-                        if let Some(n) = s.peek() {
-                            if !n.starts_with("\\") {
-                                if let Some(r) = s.next() {
-                                    let r = r.replace("&quot;", "").replace('\"', "");
-                                    if r.is_empty() {
-                                        toc = toc.tc_field_identifier(None);
-                                    } else {
-                                        toc = toc.tc_field_identifier(Some(r));
-                                    }
-                                }
-                            } else {
-                                toc = toc.tc_field_identifier(None);
-                            }
-                        }
+                        let id = s
+                            .next_if(|n| !n.starts_with('\\'))
+                            .map(|r| r.replace('\"', ""))
+                            .filter(|r| !r.is_empty());
+                        toc = toc.tc_field_identifier(id);
                     }
                     "\\h" => toc = toc.hyperlink(),
                     "\\l" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.tc_field_level_range(s, e);
                             }
                         }
                     }
                     "\\n" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.omit_page_numbers_level_range(s, e);
                             }
                         }
                     }
                     "\\o" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.heading_styles_range(s, e);
                             }
                         }
                     }
                     "\\p" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.entry_and_page_number_separator(r);
                         }
                     }
                     "\\s" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             toc = toc.seq_field_identifier_for_prefix(r);
                         }
                     }
                     "\\t" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             let r = r.replace("&quot;", "").replace('\"', "");
                             let mut r = r.split(',');
                             loop {
-- 
2.43.0


From 9b395cd5d2479cd1d47f0bff2c9d97acaad63ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:15:16 +0000
Subject: [PATCH 49/66] fix: Flush the output when saving

A buffered output passed by value only met its error when it was
dropped, so saving reported success for a file that was cut short.
---
 docx-core/src/zipper/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index c1b9b3c..76ba717 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -146,7 +146,7 @@ where
         zip.write_all(&xml.custom_item_props[i])?;
     }
 
-    zip.finish()?;
+    zip.finish()?.flush()?;
     Ok(())
 }
 
@@ -392,6 +392,6 @@ where
         )?;
     }
 
-    zip.finish()?;
+    zip.finish()?.flush()?;
     Ok(())
 }
-- 
2.43.0


From 6d03d70c78a06a676b8ea795b1111799fb8e229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:21:59 +0000
Subject: [PATCH 50/66] fix: Stop writing to an output that failed and repeat
 interrupted writes

The archive writer completes its archive when it is dropped. After an
error that passed it went on from an unknown position, which could panic
or leave an archive that looks complete. Interrupted writes at the end of
a compressed entry made saving fail.
---
 docx-core/src/zipper/mod.rs | 60 +++++++++++++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/zipper/mod.rs b/docx-core/src/zipper/mod.rs
index 76ba717..2b33056 100644
--- a/docx-core/src/zipper/mod.rs
+++ b/docx-core/src/zipper/mod.rs
@@ -5,6 +5,62 @@ use std::io::prelude::*;
 use std::io::Seek;
 use zip::write::SimpleFileOptions;
 
+/// Repeats interrupted operations, and refuses every operation once the output
+/// has failed.
+///
+/// The archive writer completes its archive when it is dropped, also after an
+/// error. It must neither do so from an output in an unknown state nor leave
+/// an archive that looks complete.
+struct Output<W> {
+    inner: W,
+    failed: bool,
+}
+
+impl<W> Output<W> {
+    fn new(inner: W) -> Self {
+        Self {
+            inner,
+            failed: false,
+        }
+    }
+
+    fn run<T>(
+        &mut self,
+        mut operation: impl FnMut(&mut W) -> std::io::Result<T>,
+    ) -> std::io::Result<T> {
+        if self.failed {
+            return Err(std::io::Error::other("the output has failed before"));
+        }
+        loop {
+            match operation(&mut self.inner) {
+                Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}
+                result => {
+                    self.failed = result.is_err();
+                    return result;
+                }
+            }
+        }
+    }
+}
+
+impl<W: Write> Write for Output<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        let written = self.run(|w| w.write(buf))?;
+        self.failed = written == 0 && !buf.is_empty();
+        Ok(written)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.run(|w| w.flush())
+    }
+}
+
+impl<W: Seek> Seek for Output<W> {
+    fn seek(&mut self, pos: std::io::SeekFrom) -> std::io::Result<u64> {
+        self.run(|w| w.seek(pos))
+    }
+}
+
 /// Renders one XML part into a reusable buffer and writes it to the ZIP entry.
 ///
 /// Buffering one part avoids the many tiny writes that are costly in
@@ -42,7 +98,7 @@ pub fn zip<W>(w: W, xml: XMLDocx) -> zip::result::ZipResult<()>
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(w);
+    let mut zip = zip::ZipWriter::new(Output::new(w));
 
     let directory_options = SimpleFileOptions::default();
 
@@ -160,7 +216,7 @@ pub(crate) fn zip_docx<W>(
 where
     W: Write + Seek,
 {
-    let mut zip = zip::ZipWriter::new(writer);
+    let mut zip = zip::ZipWriter::new(Output::new(writer));
     let directory_options = SimpleFileOptions::default();
 
     zip.add_directory("word/", directory_options)?;
-- 
2.43.0


From dc1931c76776e77b9b907da8a5d9da469ed6aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:23:23 +0000
Subject: [PATCH 51/66] fix: Do not panic when saving a drawing of unknown
 content

A chart or diagram is read as a drawing without data. Saving such a document
hit unimplemented!(). The drawing is left out instead.
---
 docx-core/src/documents/elements/drawing.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index 580037b..1766b17 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -61,11 +61,16 @@ impl BuildXML for Drawing {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // Nothing is known about the content, e.g. a chart which was read from a file.
+        let Some(data) = &self.data else {
+            return Ok(stream);
+        };
+
         let b = XMLBuilder::from(stream);
         let mut b = b.open_drawing()?;
 
-        match &self.data {
-            Some(DrawingData::Pic(p)) => {
+        match data {
+            DrawingData::Pic(p) => {
                 if let DrawingPositionType::Inline = p.position_type {
                     b = b.open_wp_inline(
                         &format!("{}", p.dist_t),
@@ -144,10 +149,7 @@ impl BuildXML for Drawing {
                     .close()?
                     .close()?;
             }
-            Some(DrawingData::TextBox(_t)) => unimplemented!("TODO: Support textBox writer"),
-            None => {
-                unimplemented!()
-            }
+            DrawingData::TextBox(_t) => unimplemented!("TODO: Support textBox writer"),
         }
         b.close()?.close()?.into_inner()
     }
-- 
2.43.0


From 5647b57d34dc14040c08e99a3c0665eac31d2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:23:23 +0000
Subject: [PATCH 52/66] fix: Refuse a main document part without a root element

An empty or truncated part was read as an empty document.
---
 docx-core/src/reader/document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/document.rs b/docx-core/src/reader/document.rs
index c1eefb6..9e0a32c 100644
--- a/docx-core/src/reader/document.rs
+++ b/docx-core/src/reader/document.rs
@@ -9,12 +9,14 @@ impl FromXML for Document {
     fn from_xml<R: Read>(reader: R) -> Result<Self, ReaderError> {
         let mut parser = EventReader::new(reader);
         let mut doc = Self::default();
+        let mut has_root = false;
         loop {
             let e = parser.next_event();
             match e {
                 Ok(XmlEvent::StartElement {
                     attributes, name, ..
                 }) => {
+                    has_root = true;
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Paragraph => {
@@ -68,7 +70,9 @@ impl FromXML for Document {
                         _ => {}
                     }
                 }
-                Ok(XmlEvent::EndDocument) => break,
+                Ok(XmlEvent::EndDocument) if has_root => break,
+                // An empty part is not an empty document.
+                Ok(XmlEvent::EndDocument) => return Err(ReaderError::XMLReadError),
                 Err(_) => return Err(ReaderError::XMLReadError),
                 _ => {}
             }
-- 
2.43.0


From 6f360a818276aba7a3215dedc12b85d1477c1f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:28:36 +0000
Subject: [PATCH 53/66] fix: Do not take conditional formatting of a table
 style for the style's own

The properties inside tblStylePr replaced those of the style.
---
 docx-core/src/reader/style.rs       | 4 ++++
 docx-core/src/reader/xml_element.rs | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index bb9557a..413553a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -69,6 +69,10 @@ impl ElementReader for Style {
                                 style = style.table_cell_property(p);
                             }
                         }
+                        // Formatting of a part of the table, not of the style itself
+                        XMLElement::TableStyleProperty => {
+                            ignore::ignore_element(e, XMLElement::TableStyleProperty, r);
+                        }
                         _ => {}
                     }
                 }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index a9b3add..0c98534 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -149,6 +149,7 @@ pub enum XMLElement {
     LevelJustification,
     LevelRestart,
     StyleLink,
+    TableStyleProperty,
     NumStyleLink,
     Drawing,
     TxbxContent,
@@ -394,6 +395,7 @@ impl FromStr for XMLElement {
             "outlineLvl" => Ok(XMLElement::OutlineLvl),
             "numStyleLink" => Ok(XMLElement::NumStyleLink),
             "styleLink" => Ok(XMLElement::StyleLink),
+            "tblStylePr" => Ok(XMLElement::TableStyleProperty),
             "vAlign" => Ok(XMLElement::VAlign),
             "drawing" => Ok(XMLElement::Drawing),
             "txbxContent" => Ok(XMLElement::TxbxContent),
-- 
2.43.0


From 1acb861849babdf0b105d3dbef3cef3e37ddc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:13:38 +0000
Subject: [PATCH 54/66] fix: Read extended comments in time proportional to
 their number

---
 docx-core/src/reader/comments_extended.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/comments_extended.rs b/docx-core/src/reader/comments_extended.rs
index 1d2e766..08ae5a3 100644
--- a/docx-core/src/reader/comments_extended.rs
+++ b/docx-core/src/reader/comments_extended.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 use std::io::Read;
 use std::str::FromStr;
 
@@ -7,6 +8,7 @@ impl FromXML for CommentsExtended {
     fn from_xml<R: Read>(reader: R) -> Result<Self, ReaderError> {
         let mut r = EventReader::new(reader);
         let mut comments_extended: Vec<CommentExtended> = vec![];
+        let mut positions: HashMap<String, usize> = HashMap::new();
         loop {
             let e = r.next_event();
             match e {
@@ -17,12 +19,10 @@ impl FromXML for CommentsExtended {
                         .expect("should convert to XMLElement");
                     if let XMLElement::CommentExtended = e {
                         if let Ok(ex) = CommentExtended::read(&mut r, &attributes) {
-                            if let Some(pos) = comments_extended
-                                .iter()
-                                .position(|e| e.paragraph_id == ex.paragraph_id)
-                            {
+                            if let Some(&pos) = positions.get(&ex.paragraph_id) {
                                 comments_extended[pos] = ex;
                             } else {
+                                positions.insert(ex.paragraph_id.clone(), comments_extended.len());
                                 comments_extended.push(ex);
                             }
                         }
-- 
2.43.0


From bb05b62d14883ea9569b455d79ed8f60da6645ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:01:59 +0000
Subject: [PATCH 55/66] fix: Write HYPERLINK field instructions instead of
 panicking

---
 .../documents/elements/delete_instr_text.rs   |  2 +-
 .../src/documents/elements/instr_hyperlink.rs | 23 +++++++++++++++----
 .../src/documents/elements/instr_text.rs      |  2 +-
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 33e20da..873b20f 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -25,7 +25,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
-                DeleteInstrText::HYPERLINK(_link) => todo!(),
+                DeleteInstrText::HYPERLINK(link) => b.add_child(link),
                 DeleteInstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 9faf170..9afd2d8 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -1,4 +1,8 @@
 use serde::Serialize;
+use std::io::Write;
+
+use crate::documents::*;
+use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -20,11 +24,20 @@ impl InstrHyperlink {
     }
 }
 
-// impl BuildXML for instrHyperlink {
-//     fn build(&self) -> Vec<u8> {
-// TODO:
-//     }
-// }
+impl BuildXML for InstrHyperlink {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        XMLBuilder::from(stream)
+            .plain_text("HYPERLINK ")?
+            .apply_if(self.anchor, |b| b.plain_text("\\l "))?
+            .plain_text("\"")?
+            .plain_text(&self.target)?
+            .plain_text("\"")?
+            .into_inner()
+    }
+}
 
 impl std::str::FromStr for InstrHyperlink {
     type Err = ();
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index e063933..84ac94c 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -29,7 +29,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
-                InstrText::HYPERLINK(_link) => todo!(),
+                InstrText::HYPERLINK(link) => b.add_child(link),
                 InstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
-- 
2.43.0


From 6ae874e64af502d7afbea7a0e8eb85fcc22d42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:02:31 +0000
Subject: [PATCH 56/66] fix: Read the instructions of deleted fields

---
 docx-core/src/reader/run.rs         | 23 +++++++++++++++++++++++
 docx-core/src/reader/xml_element.rs |  2 ++
 2 files changed, 25 insertions(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 84c07bf..1a51c76 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -127,6 +127,29 @@ impl ElementReader for Run {
                                         _ => {}
                                     }
                                 },
+                                XMLElement::DeleteInstrText => loop {
+                                    let e = r.next_event();
+                                    match e {
+                                        Ok(XmlEvent::Characters(c)) => {
+                                            run = run.add_delete_instr_text(
+                                                DeleteInstrText::Unsupported(c),
+                                            );
+                                            break;
+                                        }
+                                        Ok(XmlEvent::EndElement { name, .. }) => {
+                                            let e = XMLElement::from_str(&name.local_name).unwrap();
+                                            match e {
+                                                XMLElement::DeleteInstrText => break,
+                                                XMLElement::Run => {
+                                                    return Ok(run);
+                                                }
+                                                _ => {}
+                                            }
+                                        }
+                                        Err(_) => return Err(ReaderError::XMLReadError),
+                                        _ => {}
+                                    }
+                                },
                                 _ => {}
                             }
                         }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 0c98534..ccb7c0e 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -28,6 +28,7 @@ pub enum XMLElement {
     Text,
     FieldChar,
     InstrText,
+    DeleteInstrText,
     Hyperlink,
     Highlight,
     VertAlign,
@@ -284,6 +285,7 @@ impl FromStr for XMLElement {
             "t" => Ok(XMLElement::Text),
             "fldChar" => Ok(XMLElement::FieldChar),
             "instrText" => Ok(XMLElement::InstrText),
+            "delInstrText" => Ok(XMLElement::DeleteInstrText),
             "hyperlink" => Ok(XMLElement::Hyperlink),
             "sz" => Ok(XMLElement::Size),
             "szCs" => Ok(XMLElement::SizeCs),
-- 
2.43.0


From b3c0e33c79ae1d7f5223ca84a4af52c731b05db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:15:39 +0000
Subject: [PATCH 57/66] fix: Do not take former section properties for the
 current ones

---
 docx-core/src/reader/section_property.rs | 3 +++
 docx-core/src/reader/xml_element.rs      | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index cc4988f..08d263a 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -89,6 +89,9 @@ impl ElementReader for SectionProperty {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+
+                    ignore::ignore_element(e.clone(), XMLElement::SectionPropertyChange, r);
+
                     match e {
                         XMLElement::PageMargin => {
                             let margin = read_page_margin(&attributes)?;
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index ccb7c0e..a82e34d 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -110,6 +110,7 @@ pub enum XMLElement {
     TablePropertyChange,
     TableRowPropertyChange,
     TableCellPropertyChange,
+    SectionPropertyChange,
     CellMargins,
     Top,
     Right,
@@ -368,6 +369,7 @@ impl FromStr for XMLElement {
             "tblPrChange" => Ok(XMLElement::TablePropertyChange),
             "trPrChange" => Ok(XMLElement::TableRowPropertyChange),
             "tcPrChange" => Ok(XMLElement::TableCellPropertyChange),
+            "sectPrChange" => Ok(XMLElement::SectionPropertyChange),
             "tcMar" => Ok(XMLElement::CellMargins),
             "tblGridChange" => Ok(XMLElement::TableGridChange),
             "gridCol" => Ok(XMLElement::GridCol),
-- 
2.43.0


From fa8d9912d60dc42e921540fa7631004f4eb18fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:16:04 +0000
Subject: [PATCH 58/66] fix: Do not take former table properties for the
 current ones

---
 docx-core/src/reader/table_property.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index ca31c09..9bfdd34 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -19,6 +19,9 @@ impl ElementReader for TableProperty {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+
+                    ignore::ignore_element(e.clone(), XMLElement::TablePropertyChange, r);
+
                     match e {
                         XMLElement::TableBorders => {
                             if let Ok(borders) = TableBorders::read(r, &attributes) {
-- 
2.43.0


From 76662cff429152d4970513c13df06ef83d47c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:24:48 +0000
Subject: [PATCH 59/66] fix: Keep blank pieces of field instructions when
 reading

---
 docx-core/src/reader/run.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 1a51c76..9199a51 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -109,7 +109,8 @@ impl ElementReader for Run {
                                 XMLElement::InstrText => loop {
                                     let e = r.next_event();
                                     match e {
-                                        Ok(XmlEvent::Characters(c)) => {
+                                        Ok(XmlEvent::Characters(c))
+                                        | Ok(XmlEvent::Whitespace(c)) => {
                                             run.children.push(RunChild::InstrTextString(c));
                                             break;
                                         }
@@ -130,7 +131,8 @@ impl ElementReader for Run {
                                 XMLElement::DeleteInstrText => loop {
                                     let e = r.next_event();
                                     match e {
-                                        Ok(XmlEvent::Characters(c)) => {
+                                        Ok(XmlEvent::Characters(c))
+                                        | Ok(XmlEvent::Whitespace(c)) => {
                                             run = run.add_delete_instr_text(
                                                 DeleteInstrText::Unsupported(c),
                                             );
-- 
2.43.0


From 2a30c15e1c73616eb9b409d8b699b32a4755dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:25:28 +0000
Subject: [PATCH 60/66] fix: Keep the blanks around field instructions the
 library does not know

---
 docx-core/src/documents/elements/delete_instr_text.rs | 7 ++++++-
 docx-core/src/documents/elements/instr_text.rs        | 7 ++++++-
 docx-core/src/xml_builder/elements.rs                 | 6 ++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 873b20f..d46f59b 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -20,7 +20,12 @@ impl BuildXML for DeleteInstrText {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .open_delete_instr_text()?
+            .apply(|b| match self {
+                DeleteInstrText::Unsupported(s) if s.trim() != s => {
+                    b.open_delete_instr_text_preserved("preserve")
+                }
+                _ => b.open_delete_instr_text(),
+            })?
             .apply(|b| match self {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index 84ac94c..0491b1b 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -22,7 +22,12 @@ impl BuildXML for Box<InstrText> {
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
         XMLBuilder::from(stream)
-            .open_instr_text()?
+            .apply(|b| match self.as_ref() {
+                InstrText::Unsupported(s) if s.trim() != s => {
+                    b.open_instr_text_preserved("preserve")
+                }
+                _ => b.open_instr_text(),
+            })?
             .apply(|b| match self.as_ref() {
                 InstrText::TOC(toc) => b.add_child(toc),
                 InstrText::TC(tc) => b.add_child(tc),
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 988c986..5058050 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -177,6 +177,12 @@ impl<W: Write> XMLBuilder<W> {
 
     open!(open_instr_text, "w:instrText");
     open!(open_delete_instr_text, "w:delInstrText");
+    open!(open_instr_text_preserved, "w:instrText", "xml:space");
+    open!(
+        open_delete_instr_text_preserved,
+        "w:delInstrText",
+        "xml:space"
+    );
 
     closed!(text_direction, "w:textDirection", "w:val");
 
-- 
2.43.0


From c141728ebb527172d5b29232bb2362d6c930fc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:37:23 +0000
Subject: [PATCH 61/66] fix: Read text moved inside a hyperlink as moved

---
 docx-core/src/reader/hyperlink.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/hyperlink.rs b/docx-core/src/reader/hyperlink.rs
index 800745b..6bf89d7 100644
--- a/docx-core/src/reader/hyperlink.rs
+++ b/docx-core/src/reader/hyperlink.rs
@@ -85,7 +85,16 @@ impl ElementReader for Hyperlink {
                             continue;
                         }
                         XMLElement::MoveFrom => {
-                            ignore::ignore_element(XMLElement::MoveFrom, XMLElement::MoveFrom, r);
+                            if let Ok(moved) = MoveFrom::read(r, &attributes) {
+                                link.children.push(ParagraphChild::MoveFrom(moved));
+                            }
+                            continue;
+                        }
+                        XMLElement::MoveTo => {
+                            if let Ok(moved) = MoveTo::read(r, &attributes) {
+                                link.children.push(ParagraphChild::MoveTo(moved));
+                            }
+                            continue;
                         }
                         _ => {}
                     }
-- 
2.43.0


From aa9181d2700564e783ee923d027618dc81050baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:38:41 +0000
Subject: [PATCH 62/66] fix: Read the start and end sides of table borders and
 cell margins

---
 docx-core/src/reader/cell_margins.rs  | 4 ++--
 docx-core/src/reader/table_borders.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/cell_margins.rs b/docx-core/src/reader/cell_margins.rs
index 576c0d5..d1280f4 100644
--- a/docx-core/src/reader/cell_margins.rs
+++ b/docx-core/src/reader/cell_margins.rs
@@ -19,7 +19,7 @@ impl ElementReader for CellMargins {
                                 margins = margins.margin_top(width.0 as usize, width.1)
                             }
                         }
-                        XMLElement::Right => {
+                        XMLElement::Right | XMLElement::End => {
                             if let Ok(width) = read_width(&attributes) {
                                 margins = margins.margin_right(width.0 as usize, width.1)
                             }
@@ -29,7 +29,7 @@ impl ElementReader for CellMargins {
                                 margins = margins.margin_bottom(width.0 as usize, width.1)
                             }
                         }
-                        XMLElement::Left => {
+                        XMLElement::Left | XMLElement::Start => {
                             if let Ok(width) = read_width(&attributes) {
                                 margins = margins.margin_left(width.0 as usize, width.1)
                             }
diff --git a/docx-core/src/reader/table_borders.rs b/docx-core/src/reader/table_borders.rs
index cdf283f..e367385 100644
--- a/docx-core/src/reader/table_borders.rs
+++ b/docx-core/src/reader/table_borders.rs
@@ -26,7 +26,7 @@ impl ElementReader for TableBorders {
                             borders = borders.set(border);
                             continue;
                         }
-                        XMLElement::Right => {
+                        XMLElement::Right | XMLElement::End => {
                             let attr = read_border(&attributes)?;
                             let mut border = TableBorder::new(TableBorderPosition::Right)
                                 .border_type(attr.border_type)
@@ -48,7 +48,7 @@ impl ElementReader for TableBorders {
                             borders = borders.set(border);
                             continue;
                         }
-                        XMLElement::Left => {
+                        XMLElement::Left | XMLElement::Start => {
                             let attr = read_border(&attributes)?;
                             let mut border = TableBorder::new(TableBorderPosition::Left)
                                 .border_type(attr.border_type)
-- 
2.43.0


From 6fed1d2a4460a41e8338fe7c0dff2626b50fada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:23 +0000
Subject: [PATCH 63/66] fix: Keep the page orientation when the page size is
 set

---
 docx-core/src/documents/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 09c9795..36732e9 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -647,7 +647,8 @@ impl Docx {
     }
 
     pub fn page_size(mut self, w: u32, h: u32) -> Self {
-        self.document = self.document.page_size(PageSize::new().size(w, h));
+        let size = self.document.section_property.page_size.clone().size(w, h);
+        self.document = self.document.page_size(size);
         self
     }
 
-- 
2.43.0


From 90e2d89b89849f4e023b13a98784cb79600ec3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:23 +0000
Subject: [PATCH 64/66] fix: Skip nested alternatives together with the
 fallback they are in

---
 docx-core/src/reader/mc_fallback.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/mc_fallback.rs b/docx-core/src/reader/mc_fallback.rs
index a60fb39..300e381 100644
--- a/docx-core/src/reader/mc_fallback.rs
+++ b/docx-core/src/reader/mc_fallback.rs
@@ -12,16 +12,25 @@ impl ElementReader for McFallback {
         r: &mut EventReader<R>,
         _attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
+        let mut depth = 0;
         loop {
             let fallback = McFallback::new();
             let e = r.next_event();
             match e {
+                Ok(XmlEvent::StartElement { name, .. }) => {
+                    let e = McXMLElement::from_str(&name.local_name).unwrap();
+                    match e {
+                        McXMLElement::Fallback => depth += 1,
+                        _ => {}
+                    }
+                }
                 Ok(XmlEvent::EndElement { name, .. }) => {
                     let e = McXMLElement::from_str(&name.local_name).unwrap();
                     match e {
-                        McXMLElement::Fallback => {
+                        McXMLElement::Fallback if depth == 0 => {
                             return Ok(fallback);
                         }
+                        McXMLElement::Fallback => depth -= 1,
                         _ => {}
                     }
                 }
-- 
2.43.0


From 4392d26f94ee1a5be023ea976ca462ac747d906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:23 +0000
Subject: [PATCH 65/66] fix: Read a shape to its own end when shapes are nested
 in its text box

---
 docx-core/src/reader/shape.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/shape.rs b/docx-core/src/reader/shape.rs
index 0274128..7ed7320 100644
--- a/docx-core/src/reader/shape.rs
+++ b/docx-core/src/reader/shape.rs
@@ -15,22 +15,32 @@ impl ElementReader for Shape {
             shape = shape.style(style);
         }
 
+        // Shapes can be nested in the text box of a shape.
+        let mut depth = 0;
         loop {
             let e = r.next_event();
             match e {
                 Ok(XmlEvent::StartElement {
                     name, attributes, ..
                 }) => {
-                    if let Ok(VXMLElement::ImageData) = VXMLElement::from_str(&name.local_name) {
-                        if let Some(id) = read(&attributes, "id") {
-                            shape = shape.image_data(id);
+                    let e = VXMLElement::from_str(&name.local_name).unwrap();
+                    match e {
+                        VXMLElement::Shape => depth += 1,
+                        VXMLElement::ImageData if depth == 0 => {
+                            if let Some(id) = read(&attributes, "id") {
+                                shape = shape.image_data(id);
+                            }
                         }
+                        _ => {}
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
                     let e = VXMLElement::from_str(&name.local_name).unwrap();
                     if e == VXMLElement::Shape {
-                        return Ok(shape);
+                        if depth == 0 {
+                            return Ok(shape);
+                        }
+                        depth -= 1;
                     }
                 }
                 Err(_) => return Err(ReaderError::XMLReadError),
-- 
2.43.0


From 37625f7d5e07d2e097ed00d5553426a92623a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:23 +0000
Subject: [PATCH 66/66] fix: Keep tabs and line breaks of moved runs in the raw
 text of a paragraph

---
 docx-core/src/documents/elements/paragraph.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index b45637e..7310ece 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -451,8 +451,23 @@ impl Paragraph {
                     for c in mt.children.iter() {
                         if let MoveToChild::Run(r) = c {
                             for c in r.children.iter() {
-                                if let RunChild::Text(t) = c {
-                                    s.push_str(&t.text);
+                                match c {
+                                    RunChild::Text(t) => {
+                                        s.push_str(&t.text);
+                                    }
+                                    RunChild::Tab(_t) => {
+                                        s.push('\t');
+                                    }
+                                    RunChild::PTab(_t) => {
+                                        s.push('\t');
+                                    }
+                                    RunChild::Break(_b) => {
+                                        s.push('\n');
+                                    }
+                                    RunChild::CarriageReturn(_cr) => {
+                                        s.push('\n');
+                                    }
+                                    _ => {}
                                 }
                             }
                         }
-- 
2.43.0


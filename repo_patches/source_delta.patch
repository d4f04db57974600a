From 77ee815d432812ebce7ee8cca3a9bbded9decab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 01/39] fix: reject input that ends before its elements are
 closed

---
 instant-xml/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..9440eda 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,6 +160,11 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
+            None => {
+                // The input ended before this element was closed
+                self.done = true;
+                return Some(Err(Error::UnexpectedEndOfStream));
+            }
             item => return item,
         };
 
-- 
2.43.0


From e0bb4458b63bacb577b276923697a245e5deb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 02/39] fix: reject content after the root element

---
 instant-xml/src/de.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 9440eda..08f9691 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -74,7 +74,13 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
         let mut value = T::Accumulator::default();
         T::deserialize(&mut value, "<root element>", self)?;
-        value.try_done("<root element>")
+        let value = value.try_done("<root element>")?;
+        if let Mut::Owned(_) = self.context {
+            self.ignore()?;
+            self.context.end()?;
+        }
+
+        Ok(value)
     }
 
     /// Skip all remaining nodes in the current element
@@ -197,6 +203,18 @@ impl<'xml> Context<'xml> {
         }
     }
 
+    /// Check that only comments and processing instructions follow the root element
+    fn end(&mut self) -> Result<(), Error> {
+        for token in &mut self.parser {
+            match token? {
+                Token::Comment { .. } | Token::ProcessingInstruction { .. } => continue,
+                token => return Err(Error::UnexpectedToken(format!("{token:?}"))),
+            }
+        }
+
+        Ok(())
+    }
+
     fn element_id(&self, element: &Element<'xml>) -> Result<Id<'xml>, Error> {
         Ok(Id {
             ns: match (element.default_ns, element.prefix) {
-- 
2.43.0


From f8dc51adafd12c49ef845f8db1e69aeeb80a874b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:00 +0000
Subject: [PATCH 03/39] fix: do not panic or misresolve in
 Deserializer::parent()

---
 instant-xml/src/de.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 08f9691..0af02ca 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -13,6 +13,8 @@ use crate::{Accumulate, Error, FromXml, Id};
 /// XML deserializer for iterating over nodes in an element
 pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
+    /// Namespace of `parent`, resolved while it was the innermost open element
+    parent_ns: &'xml str,
     level: usize,
     done: bool,
     context: Mut<'cx, Context<'xml>>,
@@ -32,6 +34,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             None => return Err(Error::UnexpectedEndOfStream),
         };
 
+        context.element_id(&parent)?;
         Ok(Self::with_context(parent, context))
     }
 
@@ -45,8 +48,10 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
     fn with_context(parent: Element<'xml>, context: Mut<'cx, Context<'xml>>) -> Self {
         let level = context.stack.len();
+        let parent_ns = context.element_id(&parent).map_or("", |id| id.ns);
         Self {
             parent,
+            parent_ns,
             level,
             done: false,
             context,
@@ -61,7 +66,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
     /// Deserialize a value of type `T` from the deserializer's XML input
     pub fn deserialize<T: FromXml<'xml>>(&mut self) -> Result<T, Error> {
-        let id = self.context.element_id(&self.parent)?;
+        let id = self.parent();
         if !T::matches(id, None) {
             return Err(Error::UnexpectedValue(match id.ns.is_empty() {
                 true => format!("unexpected root element {:?}", id.name),
@@ -106,6 +111,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
         self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
+            parent_ns: self.parent_ns,
             level: self.level,
             done: self.done,
             context: self.context.borrow(),
@@ -131,10 +137,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     /// Get the identifier of the parent element
     pub fn parent(&self) -> Id<'xml> {
         Id {
-            ns: match self.parent.prefix {
-                Some(ns) => self.context.lookup(ns).unwrap(),
-                None => self.context.default_ns(),
-            },
+            ns: self.parent_ns,
             name: self.parent.local,
         }
     }
-- 
2.43.0


From 808fad3781ebe36bf44c2664b15b3ca66c76eadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:03 +0000
Subject: [PATCH 04/39] fix: join text that is split by comments or CDATA
 sections

---
 instant-xml/src/de.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 0af02ca..e5e0362 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -206,6 +206,26 @@ impl<'xml> Context<'xml> {
         }
     }
 
+    /// Append any text and CDATA sections that directly follow, ignoring comments in between
+    fn join_text(&mut self, mut text: Cow<'xml, str>) -> Result<Cow<'xml, str>, Error> {
+        loop {
+            let mut ahead = self.parser.clone();
+            let next = match ahead.next() {
+                Some(Ok(Token::Text { text })) => decode(text.as_str())?,
+                Some(Ok(Token::Cdata { text, .. })) => Cow::Borrowed(text.as_str()),
+                Some(Ok(Token::Comment { .. })) => Cow::Borrowed(""),
+                _ => return Ok(text),
+            };
+
+            self.parser = ahead;
+            match text.is_empty() {
+                true => text = next,
+                false if next.is_empty() => {}
+                false => text.to_mut().push_str(&next),
+            }
+        }
+    }
+
     /// Check that only comments and processing instructions follow the root element
     fn end(&mut self) -> Result<(), Error> {
         for token in &mut self.parser {
@@ -411,10 +431,14 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    return Some(
+                        decode(text.as_str())
+                            .and_then(|text| self.join_text(text))
+                            .map(Node::Text),
+                    );
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    return Some(self.join_text(Cow::Borrowed(text.as_str())).map(Node::Text));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From b34797c605ce9057c81913e118ded71e3ee61234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:07 +0000
Subject: [PATCH 05/39] fix: reject character references with a leading plus
 sign

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index e5e0362..495fd55 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -516,6 +516,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|hex_str| hex_str.bytes().all(|b| b.is_ascii_hexdigit()))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -529,6 +530,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|decimal_str| decimal_str.bytes().all(|b| b.is_ascii_digit()))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From e79943cceb25d6e3d387830c11dedfced2b56762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:10 +0000
Subject: [PATCH 06/39] fix: keep all text of an AnyElement with mixed content

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..bf3473f 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(prev) => prev.to_mut().push_str(&text),
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From 5175f1144cfa695d44b062d55caea9474aec36b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 07/39] fix: deserialize empty elements into borrowed Cow<str>
 fields

---
 instant-xml/src/de.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 495fd55..c654b9e 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -465,11 +465,7 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
         return Err(Error::DuplicateValue(field));
     }
 
-    match deserializer.take_str()? {
-        Some(value) => into.inner = Some(value),
-        None => return Ok(()),
-    };
-
+    into.inner = Some(deserializer.take_str()?.unwrap_or_default());
     deserializer.ignore()?;
     Ok(())
 }
-- 
2.43.0


From cd3625e7e40d2485b17c8d7ddaa5dd2b13c4622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:30 +0000
Subject: [PATCH 08/39] fix: do not write absent values behind a Box or
 reference

---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..846736a 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -525,6 +525,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From adf62b0854a5a95bd2702f69599572e7f34ef87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:34 +0000
Subject: [PATCH 09/39] fix: escape text written by display_to_xml()

---
 instant-xml/src/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 846736a..009737e 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -131,7 +131,7 @@ pub fn display_to_xml(
     field: Option<Id<'_>>,
     serializer: &mut Serializer<'_, impl fmt::Write + ?Sized>,
 ) -> Result<(), Error> {
-    DisplayToXml(value).serialize(field, serializer)
+    DisplayToXml(&encode(&value.to_string())?).serialize(field, serializer)
 }
 
 struct DisplayToXml<'a, T: fmt::Display>(pub &'a T);
-- 
2.43.0


From e12cf0523f7d11c8a03edb48a75c894ffdf5196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:38 +0000
Subject: [PATCH 10/39] fix: do not write characters that are not allowed in
 XML

---
 instant-xml/src/de.rs    | 2 +-
 instant-xml/src/impls.rs | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index c654b9e..0b51310 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -603,7 +603,7 @@ enum DecodeState {
 const MAX_ENTITY_LEN: usize = 8;
 
 /// Valid character ranges per <https://www.w3.org/TR/xml/#NT-Char>
-fn valid_xml_character(c: &char) -> bool {
+pub(crate) fn valid_xml_character(c: &char) -> bool {
     matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
 }
 
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 009737e..842e4b5 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -8,6 +8,7 @@ use std::{any::type_name, marker::PhantomData};
 #[cfg(feature = "chrono")]
 use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
 
+use crate::de::valid_xml_character;
 use crate::ser::Context;
 use crate::{Accumulate, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
 
@@ -567,7 +568,13 @@ fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
             '<' => "&lt;",
             '>' => "&gt;",
             '\'' => "&apos;",
-            _ => continue,
+            c if valid_xml_character(&c) => continue,
+            // Not allowed in XML, not even as a character reference
+            c => {
+                return Err(Error::UnexpectedValue(format!(
+                    "character {c:?} not allowed in XML"
+                )))
+            }
         };
         result.push_str(input.get(last_end..start).unwrap());
         result.push_str(to);
-- 
2.43.0


From 6e60f3d06c703fcbf04cc0d51ac3e1447b1df83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:34 +0000
Subject: [PATCH 11/39] fix: prefix attributes in the namespace of their
 element

---
 instant-xml/src/ser.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..a0bbea0 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -18,11 +18,6 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// update the set with the new prefix.
     prefixes: HashMap<&'static str, &'static str>,
     default_ns: &'static str,
-    /// Default namespace for attributes.
-    ///
-    /// This might be different from the default namespace for child elements in case of
-    /// `force_prefix`.
-    attribute_ns: Option<&'static str>,
     state: State,
 }
 
@@ -33,7 +28,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             output,
             prefixes: HashMap::new(),
             default_ns: "",
-            attribute_ns: None,
             state: State::Element,
         }
     }
@@ -100,7 +94,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             };
 
         self.state = State::Attribute;
-        self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
         let Some(cx) = cx else {
             return Ok(Element {
                 prefix,
@@ -162,8 +155,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for attribute"));
         }
 
-        let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
+        // Default namespace declarations don't apply to attributes
+        match ns.is_empty() {
             true => self.output.write_fmt(format_args!(" {name}=\""))?,
             false => {
                 let prefix = self
@@ -199,7 +192,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_char('>')?;
-        self.attribute_ns = None;
         self.state = State::Element;
         Ok(())
     }
@@ -211,7 +203,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_str(" />")?;
-        self.attribute_ns = None;
         self.state = State::Element;
         Ok(())
     }
-- 
2.43.0


From 729bcbd2c5a1e7fdce8e2358c00a7d3c445dd030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 12/39] fix: restore namespace bindings after an empty element

---
 instant-xml/src/ser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index a0bbea0..24be132 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -18,6 +18,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// update the set with the new prefix.
     prefixes: HashMap<&'static str, &'static str>,
     default_ns: &'static str,
+    /// Bindings replaced by the element being started, to be restored if it turns out to be empty
+    replaced: Option<(&'static str, Vec<Prefix>)>,
     state: State,
 }
 
@@ -28,6 +30,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             output,
             prefixes: HashMap::new(),
             default_ns: "",
+            replaced: None,
             state: State::Element,
         }
     }
@@ -94,6 +97,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             };
 
         self.state = State::Attribute;
+        self.replaced = None;
         let Some(cx) = cx else {
             return Ok(Element {
                 prefix,
@@ -137,6 +141,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
+        self.replaced = Some((old.default_ns, old.prefixes[..used].to_vec()));
         Ok(Element {
             prefix,
             name,
@@ -204,6 +209,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_str(" />")?;
         self.state = State::Element;
+        if let Some((default_ns, prefixes)) = self.replaced.take() {
+            self.restore(default_ns, prefixes);
+        }
+
         Ok(())
     }
 
@@ -224,8 +233,14 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        let _ = mem::replace(&mut self.default_ns, old.default_ns);
-        for prefix in old.prefixes.into_iter() {
+        self.restore(old.default_ns, old.prefixes);
+        Ok(())
+    }
+
+    /// Restore the namespace bindings of the parent element
+    fn restore(&mut self, default_ns: &'static str, prefixes: impl IntoIterator<Item = Prefix>) {
+        self.default_ns = default_ns;
+        for prefix in prefixes {
             if prefix.ns.is_empty() && prefix.prefix.is_empty() {
                 continue;
             }
@@ -244,8 +259,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 }
             }
         }
-
-        Ok(())
     }
 
     /// Get the prefix for a namespace URI, if any
-- 
2.43.0


From ba04c244475d4ccb6d8ee8f08f34e21ab3cf6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:19 +0000
Subject: [PATCH 13/39] fix: do not use namespace prefixes that are shadowed by
 an inner declaration

---
 instant-xml/src/ser.rs | 53 ++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 24be132..4d2cd75 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -51,6 +51,9 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for element start"));
         }
 
+        let hidden = cx
+            .as_ref()
+            .map_or([Prefix::default(); N], |cx| self.hide(cx));
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
 
         let (prefix, update_default_ns) =
@@ -106,7 +109,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             });
         };
 
-        let mut old = Context::default();
+        let mut old = Context {
+            hidden,
+            ..Context::default()
+        };
         let prev = match update_default_ns {
             true => mem::replace(&mut self.default_ns, cx.default_ns),
             false => self.default_ns,
@@ -141,7 +147,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             used += 1;
         }
 
-        self.replaced = Some((old.default_ns, old.prefixes[..used].to_vec()));
+        let bindings = old.prefixes.into_iter().chain(old.hidden);
+        self.replaced = Some((old.default_ns, bindings.collect()));
         Ok(Element {
             prefix,
             name,
@@ -233,10 +240,32 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Ok(());
         };
 
-        self.restore(old.default_ns, old.prefixes);
+        self.restore(old.default_ns, old.prefixes.into_iter().chain(old.hidden));
         Ok(())
     }
 
+    /// Remove prefixes that are about to be bound to another namespace
+    fn hide<const N: usize>(&mut self, cx: &Context<N>) -> [Prefix; N] {
+        let mut hidden = [Prefix::default(); N];
+        for slot in &mut hidden {
+            // Hiding a prefix may require declaring another prefix for its namespace: start over
+            let shadowed = cx
+                .prefixes
+                .iter()
+                .filter(|new| !new.prefix.is_empty() && !self.prefixes.contains_key(new.ns))
+                .find_map(|new| self.prefixes.iter().find(|(_, old)| **old == new.prefix));
+
+            let Some((&ns, &prefix)) = shadowed else {
+                break;
+            };
+
+            self.prefixes.remove(ns);
+            *slot = Prefix { ns, prefix };
+        }
+
+        hidden
+    }
+
     /// Restore the namespace bindings of the parent element
     fn restore(&mut self, default_ns: &'static str, prefixes: impl IntoIterator<Item = Prefix>) {
         self.default_ns = default_ns;
@@ -245,19 +274,10 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 continue;
             }
 
-            let mut entry = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => unreachable!(),
-            };
-
             match prefix.prefix {
-                "" => {
-                    entry.remove();
-                }
-                prev => {
-                    let _ = mem::replace(entry.get_mut(), prev);
-                }
-            }
+                "" => self.prefixes.remove(prefix.ns),
+                prev => self.prefixes.insert(prefix.ns, prev),
+            };
         }
     }
 
@@ -293,6 +313,8 @@ pub struct Context<const N: usize> {
     pub prefixes: [Prefix; N],
     /// Force prefix to be included always
     pub force_prefix: bool,
+    /// Prefix mappings of the parent element that are shadowed
+    hidden: [Prefix; N],
 }
 
 impl<const N: usize> Default for Context<N> {
@@ -301,6 +323,7 @@ impl<const N: usize> Default for Context<N> {
             default_ns: Default::default(),
             prefixes: [Prefix { prefix: "", ns: "" }; N],
             force_prefix: false,
+            hidden: [Prefix { prefix: "", ns: "" }; N],
         }
     }
 }
-- 
2.43.0


From b5aa4cb78848235093e9361c42ac90957b7057e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 14/39] fix: keep elements with an absent direct value open for
 their child elements

---
 instant-xml-macros/src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..3e9d538 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -334,6 +334,11 @@ impl StructOutput {
             }
         }
 
+        // An absent direct value only makes for an empty element if there are no child elements
+        if fields.iter().filter(|(_, meta)| !meta.attribute).count() > 1 {
+            direct = None;
+        }
+
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From edd695c029e5cc8bd01be2a64713a67b61929cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 15/39] fix: escape the text of scalar enum variants

---
 instant-xml-macros/src/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 3e9d538..c2ed72b 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,8 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                let value: &str = match self { #variants };
+                ::instant_xml::ToXml::serialize(value, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
-- 
2.43.0


From c6d12cad7e7bddcf73782357d06e8c93740c19c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:50 +0000
Subject: [PATCH 16/39] fix: match scalar fields of transparent structs by name

---
 instant-xml-macros/src/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..6c21a7c 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -445,8 +445,9 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, #field_id)
         ));
 
         let field_name = &field.ident;
@@ -462,12 +463,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -705,6 +706,7 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        id: quote!(Some(::instant_xml::Id { ns: #ns, name: #field_tag })),
         no_lifetime_type,
         deserialize_with,
     })
@@ -712,6 +714,7 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    id: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From 1732f856ad74477995bd21d67cbafe94e081288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:10 +0000
Subject: [PATCH 17/39] fix: heed all xml attributes on an item instead of only
 the first

---
 instant-xml-macros/src/meta.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 56d145c..0a9ec1e 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -278,12 +278,17 @@ impl NamespaceMeta {
 }
 
 pub(crate) fn meta_items(attrs: &[syn::Attribute]) -> Vec<(MetaItem, Span)> {
-    let list = match attrs.iter().find(|attr| attr.path().is_ident("xml")) {
-        Some(attr) => match &attr.meta {
-            syn::Meta::List(list) => list,
-            _ => panic!("expected list in xml attribute"),
-        },
-        None => return Vec::new(),
+    attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("xml"))
+        .flat_map(attr_items)
+        .collect()
+}
+
+fn attr_items(attr: &syn::Attribute) -> Vec<(MetaItem, Span)> {
+    let list = match &attr.meta {
+        syn::Meta::List(list) => list,
+        _ => panic!("expected list in xml attribute"),
     };
 
     let mut items = Vec::new();
-- 
2.43.0


From 49cdaa9781fe0066df44de2698ada55a4da288f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 18/39] fix: support dashes and dots in the first prefix of an
 ns attribute without URI

---
 instant-xml-macros/src/meta.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 0a9ec1e..bbc4d94 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -131,6 +131,18 @@ impl NamespaceMeta {
                         prefix: segment.ident.to_string(),
                     }
                 }
+                (
+                    NsState::Path {
+                        colon1: None,
+                        colon2: None,
+                        path: Some(path),
+                    },
+                    TokenTree::Punct(punct),
+                ) if path.get_ident().is_some() && matches!(punct.as_char(), '-' | '.') => {
+                    NsState::Eq {
+                        prefix: format!("{}{}", path.get_ident().unwrap(), punct.as_char()),
+                    }
+                }
                 (NsState::Prefix, TokenTree::Ident(id)) => NsState::Eq {
                     prefix: id.to_string(),
                 },
-- 
2.43.0


From c4d8a78730ad112c43f821bedc53a19ba81a506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:35 +0000
Subject: [PATCH 19/39] fix: do not write raw identifier prefixes in element
 names and scalar values

---
 instant-xml-macros/src/case.rs | 3 ++-
 instant-xml-macros/src/de.rs   | 6 +++++-
 instant-xml-macros/src/lib.rs  | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..f7634f7 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -11,6 +11,7 @@ use std::fmt::{self, Debug, Display};
 use proc_macro2::Ident;
 #[cfg(test)]
 use proc_macro2::Span;
+use syn::ext::IdentExt;
 
 use self::RenameRule::*;
 
@@ -66,7 +67,7 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let variant = ident.unraw().to_string();
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 6c21a7c..88e6245 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::BTreeSet;
 
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 
 use super::{
@@ -484,7 +485,10 @@ fn deserialize_inline_struct(
 
     // Attributes
     let ident = &input.ident;
-    let accumulator = Ident::new(&format!("__{ident}Accumulator"), Span::call_site());
+    let accumulator = Ident::new(
+        &format!("__{}Accumulator", ident.unraw()),
+        Span::call_site(),
+    );
     let generics = meta.xml_generics(borrowed);
 
     let (xml_impl_generics, xml_ty_generics, _) = generics.split_for_impl();
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0


From 411cff3cfa67cf7a5a8b4cefd3e6a538efb9cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:40 +0000
Subject: [PATCH 20/39] fix: reject duplicate elements for single-valued fields

---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 88e6245..7690391 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -197,6 +197,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -329,6 +333,10 @@ fn deserialize_struct(
                     __Ignore,
                 }
 
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 loop {
                     let node = match deserializer.next() {
@@ -781,6 +789,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -856,6 +868,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index bf3473f..3a59c66 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -149,9 +149,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From b78563fd18362796864cdb81252b93139c03dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:53 +0000
Subject: [PATCH 21/39] fix: support borrow and deserialize_with on attribute
 fields

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 7690391..177f434 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -683,7 +683,7 @@ fn named_field<'a>(
         if let Some(with) = &deserialize_with {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.nested(data);
+                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
                     #with(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
-- 
2.43.0


From 9647002416bd27e0fb8acda285459fa066397287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:46 +0000
Subject: [PATCH 22/39] fix: match tuple struct fields by element instead of
 only by position

---
 instant-xml-macros/src/de.rs | 65 +++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 177f434..70f32c9 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -763,6 +763,7 @@ fn deserialize_tuple_struct(
             &mut return_val,
             &mut borrowed,
             &input.ident,
+            fields.unnamed.iter().skip(index + 1),
         );
     }
 
@@ -793,6 +794,7 @@ fn deserialize_tuple_struct(
                     return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
+                let mut pending = None::<Node<'xml>>;
                 #declare_values
                 deserializer.ignore()?;
 
@@ -807,37 +809,68 @@ fn deserialize_tuple_struct(
 }
 
 #[allow(clippy::too_many_arguments)]
-fn unnamed_field(
+fn unnamed_field<'a>(
     field: &syn::Field,
     index: usize,
     declare_values: &mut TokenStream,
     return_val: &mut TokenStream,
     borrowed: &mut BTreeSet<syn::Lifetime>,
     type_name: &Ident,
+    later: impl Iterator<Item = &'a syn::Field>,
 ) {
     let mut no_lifetime_type = field.ty.clone();
     discard_lifetimes(&mut no_lifetime_type, borrowed, false, true);
 
     let name = Ident::new(&format!("v{index}"), Span::call_site());
     let field_str = format!("{type_name}::{index}");
+    let (mut later_matches, mut later_scalar) = (quote!(false), quote!(false));
+    for field in later {
+        let mut ty = field.ty.clone();
+        discard_lifetimes(&mut ty, borrowed, false, true);
+        later_matches.extend(quote!(|| <#ty as FromXml>::matches(id, None)));
+        later_scalar.extend(quote!(|| <#ty as FromXml>::KIND == Kind::Scalar));
+    }
+
     declare_values.extend(quote!(
-        let #name = match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => match deserializer.next() {
-                Some(Ok(Node::Open(data))) => {
-                    let mut nested = deserializer.nested(data);
-                    let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-                    nested.ignore()?;
-                    value
+        let mut #name = <#no_lifetime_type as FromXml>::Accumulator::default();
+        match <#no_lifetime_type as FromXml>::KIND {
+            Kind::Element => {
+                let mut seen = false;
+                while let Some(node) = pending.take().map(Ok).or_else(|| deserializer.next()) {
+                    let data = match node? {
+                        Node::Open(data) => data,
+                        Node::Attribute(_) => continue,
+                        node @ Node::Text(_) if seen && (#later_scalar) => {
+                            pending = Some(node);
+                            break;
+                        }
+                        Node::Text(_) => continue,
+                        node => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                    };
+
+                    let id = deserializer.element_id(&data)?;
+                    let later = #later_matches;
+                    if <#no_lifetime_type as FromXml>::matches(id, None) && !(seen && later) {
+                        seen = true;
+                        let mut nested = deserializer.nested(data);
+                        <#no_lifetime_type as FromXml>::deserialize(&mut #name, #field_str, &mut nested)?;
+                        nested.ignore()?;
+                    } else if later {
+                        pending = Some(Node::Open(data));
+                        break;
+                    } else {
+                        deserializer.nested(data).ignore()?;
+                    }
                 }
-                Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
-                Some(Err(e)) => return Err(e),
-                None => return Err(Error::MissingValue(#field_str)),
             }
-            Kind::Scalar => {
-                let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-                <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
-                value
+            Kind::Scalar => match pending.take() {
+                Some(node) => {
+                    let mut nested = deserializer.for_node(node);
+                    <#no_lifetime_type as FromXml>::deserialize(&mut #name, #field_str, &mut nested)?;
+                }
+                None => {
+                    <#no_lifetime_type as FromXml>::deserialize(&mut #name, #field_str, deserializer)?;
+                }
             }
         };
     ));
-- 
2.43.0


From 3c4875aa7298cb3792afd68e6b1d2806df2b5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 23/39] fix: do not leak unconsumed for_node() nodes into other
 deserializers

---
 instant-xml/src/de.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 0b51310..4a02dc6 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -17,6 +17,8 @@ pub struct Deserializer<'cx, 'xml> {
     parent_ns: &'xml str,
     level: usize,
     done: bool,
+    /// Node to yield before any others, see `for_node()`
+    node: Option<Node<'xml>>,
     context: Mut<'cx, Context<'xml>>,
 }
 
@@ -54,6 +56,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             parent_ns,
             level,
             done: false,
+            node: None,
             context,
         }
     }
@@ -104,16 +107,19 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     }
 
     /// Create a deserializer that will yield the given node first
+    ///
+    /// An attribute value is yielded on its own; any other node is followed by the remaining
+    /// nodes in the current element.
     pub fn for_node<'a>(&'a mut self, node: Node<'xml>) -> Deserializer<'a, 'xml>
     where
         'cx: 'a,
     {
-        self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
             parent_ns: self.parent_ns,
             level: self.level,
-            done: self.done,
+            done: self.done || matches!(node, Node::AttributeValue(_)),
+            node: Some(node),
             context: self.context.borrow(),
         }
     }
@@ -163,7 +169,12 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
     type Item = Result<Node<'xml>, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.done {
+        if let Some(node) = self.node.take() {
+            return Some(Ok(node));
+        }
+
+        // The element might have been closed by a deserializer created by `for_node()`
+        if self.done || self.context.stack.len() < self.level {
             return None;
         }
 
-- 
2.43.0


From cf89e82539ad9a09d1a17cc9fc05f3816f4c8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 24/39] fix: refuse elements within attribute values also after
 text

---
 instant-xml/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 4d2cd75..a1d60a8 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -192,8 +192,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             return Err(Error::UnexpectedState("invalid state for scalar"));
         }
 
+        // The state remains the same: only more text can follow within an attribute value
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From b50d856cf28623fb9b6f023ae15f07db1be8e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:41 +0000
Subject: [PATCH 25/39] fix: camelCase for identifiers that start with a
 non-ASCII character

---
 instant-xml-macros/src/case.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index f7634f7..6819556 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -72,7 +72,7 @@ impl RenameRule {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
             UpperCase => variant.to_ascii_uppercase(),
-            CamelCase => variant[..1].to_ascii_lowercase() + &variant[1..],
+            CamelCase => lowercase_first(&variant),
             SnakeCase => {
                 let mut snake = String::new();
                 for (i, ch) in variant.char_indices() {
@@ -116,7 +116,7 @@ impl RenameRule {
             }
             CamelCase => {
                 let pascal = PascalCase.apply_to_field(ident);
-                pascal[..1].to_ascii_lowercase() + &pascal[1..]
+                lowercase_first(&pascal)
             }
             ScreamingSnakeCase => field.to_ascii_uppercase(),
             KebabCase => field.replace('_', "-"),
@@ -125,6 +125,14 @@ impl RenameRule {
     }
 }
 
+fn lowercase_first(name: &str) -> String {
+    let mut chars = name.chars();
+    match chars.next() {
+        Some(first) => format!("{}{}", first.to_ascii_lowercase(), chars.as_str()),
+        Option::None => String::new(),
+    }
+}
+
 pub(crate) struct ParseError<'a> {
     unknown: &'a str,
 }
-- 
2.43.0


From 84009c9a68b1b8ee753dbae238fbcd7ce14d833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 26/39] fix: allow a trailing comma within ns(..)

---
 instant-xml-macros/src/meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index bbc4d94..71483cc 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -266,7 +266,7 @@ impl NamespaceMeta {
         }
 
         match state {
-            NsState::Start | NsState::Comma => {}
+            NsState::Start | NsState::Comma | NsState::Prefix => {}
             NsState::Path {
                 colon1: None,
                 colon2: None,
-- 
2.43.0


From f882e3f4562016c4b9ab3ad5cfc280792b863846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:47 +0000
Subject: [PATCH 27/39] fix: allow digits after dashes and dots in prefixes

---
 instant-xml-macros/src/meta.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index 71483cc..ac1340b 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -156,6 +156,14 @@ impl NamespaceMeta {
                     prefix.push_str(&id.to_string());
                     NsState::Eq { prefix }
                 }
+                // Digits after a dash or dot, as in `ns-1.0`
+                (NsState::Eq { mut prefix }, TokenTree::Literal(lit))
+                    if prefix.ends_with(['-', '.'])
+                        && lit.to_string().starts_with(|c: char| c.is_ascii_digit()) =>
+                {
+                    prefix.push_str(&lit.to_string());
+                    NsState::Eq { prefix }
+                }
                 (NsState::Eq { prefix }, TokenTree::Punct(punct)) if punct.as_char() == '=' => {
                     NsState::PrefixValue { prefix }
                 }
-- 
2.43.0


From 96d114a3ddf8c318bcedf8307373cce4085994b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 28/39] fix: let generic types have a type parameter named W

---
 instant-xml-macros/src/ser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index c2ed72b..c3ecba6 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -61,10 +61,10 @@ fn serialize_scalar_enum(
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 let element = match field {
                     Some(id) => {
@@ -149,10 +149,10 @@ fn serialize_forward_enum(
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 match self {
                     #variants
@@ -212,10 +212,10 @@ fn serialize_struct(
 
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 // Start tag
                 #context
@@ -283,10 +283,10 @@ fn serialize_inline_struct(
     let ident = &input.ident;
     quote!(
         impl #impl_generics ToXml for #ident #ty_generics #where_clause {
-            fn serialize<W: ::core::fmt::Write + ?::core::marker::Sized>(
+            fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
                 field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<W>,
+                serializer: &mut instant_xml::Serializer<__W>,
             ) -> ::std::result::Result<(), instant_xml::Error> {
                 #out
                 Ok(())
-- 
2.43.0


From 3fcbf253c90f1d48f8daa4e68d7b0389890cf041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 29/39] fix: let types that derive FromXml have a lifetime
 named 'xml

---
 instant-xml-macros/src/de.rs  | 49 ++++++++++++++++++-----------------
 instant-xml-macros/src/lib.rs |  4 +--
 2 files changed, 27 insertions(+), 26 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 70f32c9..5cea3d2 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -75,7 +75,7 @@ fn deserialize_scalar_enum(
     let type_str = ident.to_string();
 
     quote!(
-        impl #impl_generics FromXml<'xml> for #ident #ty_generics #where_clause {
+        impl #impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
             fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id {
@@ -87,10 +87,10 @@ fn deserialize_scalar_enum(
                 }
             }
 
-            fn deserialize<'cx>(
+            fn deserialize<'__cx>(
                 into: &mut Self::Accumulator,
                 field: &'static str,
-                deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
+                deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 use ::instant_xml::Error;
 
@@ -182,17 +182,17 @@ fn deserialize_forward_enum(
     let (xml_impl_generics, _, _) = generics.split_for_impl();
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
     quote!(
-        impl #xml_impl_generics FromXml<'xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
             fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
                 use ::instant_xml::FromXml;
                 #matches
             }
 
-            fn deserialize<'cx>(
+            fn deserialize<'__cx>(
                 into: &mut Self::Accumulator,
                 field: &'static str,
-                deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
+                deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
@@ -309,16 +309,16 @@ fn deserialize_struct(
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
 
     quote!(
-        impl #xml_impl_generics FromXml<'xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
             fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id { ns: #default_namespace, name: #name }
             }
 
-            fn deserialize<'cx>(
+            fn deserialize<'__cx>(
                 into: &mut Self::Accumulator,
                 field: &'static str,
-                deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
+                deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
@@ -456,13 +456,14 @@ fn deserialize_inline_struct(
         let field_ty = data.no_lifetime_type;
         let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, #field_id)
+            <#field_ty as FromXml<'__xml>>::matches(id, #field_id)
         ));
 
         let field_name = &field.ident;
         let field_ty_with_lifetime = &field.ty;
-        acc_field_defs
-            .extend(quote!(#field_name: <#field_ty_with_lifetime as FromXml<'xml>>::Accumulator,));
+        acc_field_defs.extend(
+            quote!(#field_name: <#field_ty_with_lifetime as FromXml<'__xml>>::Accumulator,),
+        );
         let field_str = format!("{}::{}", input.ident, data.field_name);
         acc_field_inits.extend(quote!(#field_name: self.#field_name.try_done(#field_str)?,));
         acc_field_defaults.extend(quote!(#field_name: Default::default(),));
@@ -472,12 +473,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
+                quote!(if <#field_ty as FromXml<'__xml>>::matches(current, #field_id) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, #field_id) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'__xml>>::matches(current, #field_id) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -504,16 +505,16 @@ fn deserialize_inline_struct(
     let visibility = &input.vis;
 
     quote!(
-        impl #xml_impl_generics FromXml<'xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
             fn matches(id: ::instant_xml::Id<'_>, _: Option<::instant_xml::Id<'_>>) -> bool {
                 #matches
             }
 
-            fn deserialize<'cx>(
+            fn deserialize<'__cx>(
                 into: &mut Self::Accumulator,
                 _: &'static str,
-                deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
+                deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 use ::instant_xml::Kind;
 
@@ -776,16 +777,16 @@ fn deserialize_tuple_struct(
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
 
     quote!(
-        impl #xml_impl_generics FromXml<'xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
             fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id { ns: #default_namespace, name: #name }
             }
 
-            fn deserialize<'cx>(
+            fn deserialize<'__cx>(
                 into: &mut Self::Accumulator,
                 field: &'static str,
-                deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
+                deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
@@ -794,7 +795,7 @@ fn deserialize_tuple_struct(
                     return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
-                let mut pending = None::<Node<'xml>>;
+                let mut pending = None::<Node<'__xml>>;
                 #declare_values
                 deserializer.ignore()?;
 
@@ -890,16 +891,16 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
 
     quote!(
-        impl #xml_impl_generics FromXml<'xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
             fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id { ns: #default_namespace, name: #name }
             }
 
-            fn deserialize<'cx>(
+            fn deserialize<'__cx>(
                 into: &mut Self::Accumulator,
                 field: &'static str,
-                deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
+                deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 if into.is_some() {
                     return Err(::instant_xml::Error::DuplicateValue(field));
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index bf1d4f0..69e7879 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -101,14 +101,14 @@ impl<'input> ContainerMeta<'input> {
 
     fn xml_generics(&self, borrowed: BTreeSet<syn::Lifetime>) -> Generics {
         let mut xml_generics = self.input.generics.clone();
-        let mut xml = syn::LifetimeParam::new(syn::Lifetime::new("'xml", Span::call_site()));
+        let mut xml = syn::LifetimeParam::new(syn::Lifetime::new("'__xml", Span::call_site()));
         xml.bounds.extend(borrowed);
         xml_generics.params.push(GenericParam::Lifetime(xml));
 
         for param in xml_generics.type_params_mut() {
             param
                 .bounds
-                .push(syn::parse_str("::instant_xml::FromXml<'xml>").unwrap());
+                .push(syn::parse_str("::instant_xml::FromXml<'__xml>").unwrap());
         }
 
         xml_generics
-- 
2.43.0


From b7add075b04bcb3f36f23e94abb29ce07eab4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 30/39] fix: reject names with an empty prefix

---
 instant-xml/src/de.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 4a02dc6..fa050c1 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -311,6 +311,18 @@ impl<'xml> Iterator for Context<'xml> {
 
         loop {
             match self.parser.next()? {
+                // The tokenizer takes `:a` for a name without a prefix
+                Ok(
+                    Token::ElementStart { span, .. }
+                    | Token::ElementEnd { span, .. }
+                    | Token::Attribute { span, .. },
+                ) if span
+                    .as_str()
+                    .trim_start_matches(['<', '/'])
+                    .starts_with(':') =>
+                {
+                    return Some(Err(Error::Other("name with an empty prefix".to_owned())));
+                }
                 Ok(Token::ElementStart { prefix, local, .. }) => {
                     if self.stack.len() >= self.limits.max_levels {
                         return Some(Err(Error::Other(
-- 
2.43.0


From 88eb6dfa22ec512ef217f10d218b23240b721e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 31/39] fix: end the element of a field whose hook leaves some
 of it

A deserialize_with function on an element could not use from_xml_str: the
element it leaves unfinished was not ended, and parsing failed with a
mismatched close element.
---
 instant-xml-macros/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 5cea3d2..df9d701 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -475,6 +475,7 @@ fn deserialize_inline_struct(
             deserialize.extend(
                 quote!(if <#field_ty as FromXml<'__xml>>::matches(current, #field_id) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
+                    deserializer.ignore()?;
                 }),
             );
         } else {
@@ -648,6 +649,7 @@ fn named_field<'a>(
                 __Elements::#enum_name => {
                     let mut nested = deserializer.nested(data);
                     #with(&mut #val_name, #field_str, &mut nested)?;
+                    nested.ignore()?;
                 },
             ));
         } else if field_meta.direct {
-- 
2.43.0


From 3dde46d33a490e2a3c353c4d62727ba7dd82d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 32/39] fix: refuse a second element for a () field

---
 instant-xml/src/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 842e4b5..0da6b2d 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -828,9 +828,13 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
+        field: &'static str,
         _: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0


From cdd5b9d234a583dda29df312192e7c598abfdbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 33/39] fix: declare the parameters of the accumulators of
 transparent structs with their bounds

Transparent structs with a type parameter, or with fields that borrow
structs, did not compile.
---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index df9d701..000bb31 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -529,7 +529,7 @@ fn deserialize_inline_struct(
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
 
-        #visibility struct #accumulator #xml_ty_generics #where_clause {
+        #visibility struct #accumulator #xml_impl_generics #where_clause {
             #acc_field_defs
         }
 
-- 
2.43.0


From 48c3cbda07fe1af753c9e9e391ea26b808359233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:52 +0000
Subject: [PATCH 34/39] fix: attributes in the XML namespace could not be
 written without a prefix declaration

---
 instant-xml/src/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index a1d60a8..881ef88 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -28,7 +28,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
     pub fn new(output: &'xml mut W) -> Self {
         Self {
             output,
-            prefixes: HashMap::new(),
+            // The prefix xml is by definition bound to its namespace, also without a declaration
+            prefixes: HashMap::from([("http://www.w3.org/XML/1998/namespace", "xml")]),
             default_ns: "",
             replaced: None,
             state: State::Element,
-- 
2.43.0


From 7ea35e2de691c3eb07eae3c06e8980a8969884e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 35/39] fix: accept attributes and types that a macro by
 example has substituted

---
 instant-xml-macros/src/lib.rs  | 33 +++++++++++++++++----------------
 instant-xml-macros/src/meta.rs | 17 +++++++++++++++--
 2 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 69e7879..516ab47 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -212,22 +212,21 @@ impl VariantMeta {
             }
         }
 
-        let discriminant = match input.discriminant {
-            Some((
-                _,
-                syn::Expr::Lit(syn::ExprLit {
-                    lit: syn::Lit::Str(ref lit),
-                    ..
-                }),
-            )) => Some(lit.to_token_stream()),
-            Some((
-                _,
-                syn::Expr::Lit(syn::ExprLit {
-                    lit: syn::Lit::Int(ref lit),
-                    ..
-                }),
-            )) => Some(lit.base10_digits().to_token_stream()),
-            Some((_, ref value)) => {
+        let mut discriminant = input.discriminant.as_ref().map(|(_, value)| value);
+        while let Some(syn::Expr::Group(group)) = discriminant {
+            discriminant = Some(&group.expr);
+        }
+
+        let discriminant = match discriminant {
+            Some(syn::Expr::Lit(syn::ExprLit {
+                lit: syn::Lit::Str(lit),
+                ..
+            })) => Some(lit.to_token_stream()),
+            Some(syn::Expr::Lit(syn::ExprLit {
+                lit: syn::Lit::Int(lit),
+                ..
+            })) => Some(lit.base10_digits().to_token_stream()),
+            Some(value) => {
                 return Err(syn::Error::new(
                     value.span(),
                     "invalid field discriminant value!",
@@ -289,6 +288,8 @@ fn discard_lifetimes(
 
             discard_lifetimes(&mut ty.elem, borrowed, borrow, false);
         }
+        // A type that was substituted in a macro by example
+        syn::Type::Group(ty) => discard_lifetimes(&mut ty.elem, borrowed, borrow, top),
         _ => {}
     }
 }
diff --git a/instant-xml-macros/src/meta.rs b/instant-xml-macros/src/meta.rs
index ac1340b..c4cff2d 100644
--- a/instant-xml-macros/src/meta.rs
+++ b/instant-xml-macros/src/meta.rs
@@ -17,7 +17,7 @@ impl NamespaceMeta {
     fn from_tokens(group: Group) -> Self {
         let mut new = Self::default();
         let mut state = NsState::Start;
-        for tree in group.stream() {
+        for tree in ungroup(group.stream()) {
             state = match (state, tree) {
                 (NsState::Start, TokenTree::Literal(lit)) => {
                     new.uri = Some(Namespace::Literal(lit));
@@ -313,7 +313,7 @@ fn attr_items(attr: &syn::Attribute) -> Vec<(MetaItem, Span)> {
 
     let mut items = Vec::new();
     let mut state = MetaState::Start;
-    for tree in list.tokens.clone() {
+    for tree in ungroup(list.tokens.clone()) {
         let span = tree.span();
         state = match (state, tree) {
             (MetaState::Start, TokenTree::Ident(id)) => {
@@ -401,6 +401,19 @@ fn attr_items(attr: &syn::Attribute) -> Vec<(MetaItem, Span)> {
     items
 }
 
+/// Unwrap invisible groups, which surround what a macro by example has substituted
+fn ungroup(tokens: TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .flat_map(|tree| match tree {
+            TokenTree::Group(group) if group.delimiter() == Delimiter::None => {
+                ungroup(group.stream())
+            }
+            tree => tree.into(),
+        })
+        .collect()
+}
+
 #[derive(Debug)]
 enum MetaState {
     Start,
-- 
2.43.0


From 10c59822bf08a0b15f4d041d59465cadd1431368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 36/39] fix: accept documentation comments on the fields of
 tuple structs

---
 instant-xml-macros/src/de.rs  | 2 +-
 instant-xml-macros/src/ser.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 000bb31..d4940fe 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -751,7 +751,7 @@ fn deserialize_tuple_struct(
     let mut return_val = TokenStream::new();
     let mut borrowed = BTreeSet::new();
     for (index, field) in fields.unnamed.iter().enumerate() {
-        if !field.attrs.is_empty() {
+        if field.attrs.iter().any(|attr| attr.path().is_ident("xml")) {
             return syn::Error::new(
                 field.span(),
                 "attributes not allowed on tuple struct fields",
diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index c3ecba6..d11d434 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -504,7 +504,7 @@ impl StructOutput {
     }
 
     fn unnamed_field(&mut self, field: &syn::Field, index: usize) -> Result<(), syn::Error> {
-        if !field.attrs.is_empty() {
+        if field.attrs.iter().any(|attr| attr.path().is_ident("xml")) {
             return Err(syn::Error::new(
                 field.span(),
                 "unnamed fields cannot have attributes",
-- 
2.43.0


From b3a7dc7ab772ae2ec985044026a72f161ac0979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 37/39] fix: the accumulator of a transparent struct lacked
 documentation under missing_docs

---
 instant-xml-macros/src/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index d4940fe..9a8a548 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -529,6 +529,7 @@ fn deserialize_inline_struct(
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
 
+        #[doc(hidden)]
         #visibility struct #accumulator #xml_impl_generics #where_clause {
             #acc_field_defs
         }
-- 
2.43.0


From f78ec9e075263348179d9f7d6147cae7ebf610b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 38/39] fix: derived code depended on the names and traits in
 scope

---
 instant-xml-macros/src/de.rs  | 176 ++++++++++++++++------------------
 instant-xml-macros/src/ser.rs |  70 +++++++++-----
 2 files changed, 129 insertions(+), 117 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 9a8a548..3024fbc 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -75,9 +75,9 @@ fn deserialize_scalar_enum(
     let type_str = ident.to_string();
 
     quote!(
-        impl #impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
+        impl #impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
-            fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
+            fn matches(id: ::instant_xml::Id<'_>, field: ::core::option::Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id {
                     ns: #default_namespace,
                     name: match field {
@@ -92,20 +92,18 @@ fn deserialize_scalar_enum(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::Error;
-
                 if into.is_some() {
-                    return Err(Error::DuplicateValue(field));
+                    return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 let cow_str = match deserializer.take_str()? {
                     Some(val) => val,
-                    None => return Err(Error::MissingValue(#type_str)),
+                    None => return Err(::instant_xml::Error::MissingValue(#type_str)),
                 };
 
                 let value = match cow_str.as_ref() {
                     #variants
-                    _ => return Err(Error::UnexpectedValue(
+                    _ => return Err(::instant_xml::Error::UnexpectedValue(
                         format!("enum variant not found for '{}' in field {}", cow_str, field),
                     )),
                 };
@@ -114,7 +112,7 @@ fn deserialize_scalar_enum(
                 Ok(())
             }
 
-            type Accumulator = Option<Self>;
+            type Accumulator = ::core::option::Option<Self>;
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Scalar;
         }
     )
@@ -162,7 +160,7 @@ fn deserialize_forward_enum(
         if !matches.is_empty() {
             matches.extend(quote!(||));
         }
-        matches.extend(quote!(<#no_lifetime_type as FromXml>::matches(id, field)));
+        matches.extend(quote!(<#no_lifetime_type as ::instant_xml::FromXml>::matches(id, field)));
 
         if !variants.is_empty() {
             variants.extend(quote!(else));
@@ -170,9 +168,9 @@ fn deserialize_forward_enum(
 
         let v_ident = &variant.ident;
         variants.extend(
-            quote!(if <#no_lifetime_type as FromXml>::matches(id, None) {
-                let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-                <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
+            quote!(if <#no_lifetime_type as ::instant_xml::FromXml>::matches(id, None) {
+                let mut value: <#no_lifetime_type as ::instant_xml::FromXml>::Accumulator = ::core::default::Default::default();
+                <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut value, #field_str, deserializer)?;
                 *into = ::instant_xml::Accumulate::try_done(value, #field_str).map(#ident::#v_ident).ok();
             }),
         );
@@ -182,10 +180,9 @@ fn deserialize_forward_enum(
     let (xml_impl_generics, _, _) = generics.split_for_impl();
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
     quote!(
-        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
-            fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
-                use ::instant_xml::FromXml;
+            fn matches(id: ::instant_xml::Id<'_>, field: ::core::option::Option<::instant_xml::Id<'_>>) -> bool {
                 #matches
             }
 
@@ -194,26 +191,23 @@ fn deserialize_forward_enum(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml};
-
                 if into.is_some() {
                     return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
                 let id = deserializer.parent();
                 #variants else {
-                    return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    return Err(::instant_xml::Error::UnexpectedTag(format!("{:?}", id)));
                 };
 
                 if let Some(_) = deserializer.next() {
-                    return Err(Error::UnexpectedState("unexpected node after wrapped enum variant"));
+                    return Err(::instant_xml::Error::UnexpectedState("unexpected node after wrapped enum variant"));
                 }
 
                 Ok(())
             }
 
-            type Accumulator = Option<Self>;
+            type Accumulator = ::core::option::Option<Self>;
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
     )
@@ -276,7 +270,7 @@ fn deserialize_struct(
     }
 
     if direct.is_empty() {
-        direct.extend(quote!(Node::Text(_) => {
+        direct.extend(quote!(::instant_xml::de::Node::Text(_) => {
             // no direct field, ignore
         }));
     }
@@ -309,9 +303,9 @@ fn deserialize_struct(
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
 
     quote!(
-        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
-            fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
+            fn matches(id: ::instant_xml::Id<'_>, field: ::core::option::Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id { ns: #default_namespace, name: #name }
             }
 
@@ -320,9 +314,6 @@ fn deserialize_struct(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
-
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -345,7 +336,7 @@ fn deserialize_struct(
                     };
 
                     match node {
-                        Node::Attribute(attr) => {
+                        ::instant_xml::de::Node::Attribute(attr) => {
                             let id = deserializer.attribute_id(&attr)?;
                             let field = #attributes_branches;
 
@@ -354,7 +345,7 @@ fn deserialize_struct(
                                 __Attributes::__Ignore => {}
                             }
                         }
-                        Node::Open(data) => {
+                        ::instant_xml::de::Node::Open(data) => {
                             let id = deserializer.element_id(&data)?;
                             let element = #elements_branches;
 
@@ -367,7 +358,7 @@ fn deserialize_struct(
                             }
                         }
                         #direct
-                        node => return Err(Error::UnexpectedNode(format!("{:?} in {}", node, #ident_str))),
+                        node => return Err(::instant_xml::Error::UnexpectedNode(format!("{:?} in {}", node, #ident_str))),
                     }
                 }
 
@@ -375,7 +366,7 @@ fn deserialize_struct(
                 Ok(())
             }
 
-            type Accumulator = Option<Self>;
+            type Accumulator = ::core::option::Option<Self>;
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
     )
@@ -456,36 +447,36 @@ fn deserialize_inline_struct(
         let field_ty = data.no_lifetime_type;
         let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'__xml>>::matches(id, #field_id)
+            <#field_ty as ::instant_xml::FromXml<'__xml>>::matches(id, #field_id)
         ));
 
         let field_name = &field.ident;
         let field_ty_with_lifetime = &field.ty;
         acc_field_defs.extend(
-            quote!(#field_name: <#field_ty_with_lifetime as FromXml<'__xml>>::Accumulator,),
+            quote!(#field_name: <#field_ty_with_lifetime as ::instant_xml::FromXml<'__xml>>::Accumulator,),
         );
         let field_str = format!("{}::{}", input.ident, data.field_name);
-        acc_field_inits.extend(quote!(#field_name: self.#field_name.try_done(#field_str)?,));
-        acc_field_defaults.extend(quote!(#field_name: Default::default(),));
+        acc_field_inits.extend(quote!(#field_name: ::instant_xml::Accumulate::try_done(self.#field_name, #field_str)?,));
+        acc_field_defaults.extend(quote!(#field_name: ::core::default::Default::default(),));
 
         if !deserialize.is_empty() {
             deserialize.extend(quote!(else));
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'__xml>>::matches(current, #field_id) {
+                quote!(if <#field_ty as ::instant_xml::FromXml<'__xml>>::matches(current, #field_id) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                     deserializer.ignore()?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'__xml>>::matches(current, #field_id) {
-                match <#field_ty as FromXml>::KIND {
-                    Kind::Element => {
-                        <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
+            deserialize.extend(quote!(if <#field_ty as ::instant_xml::FromXml<'__xml>>::matches(current, #field_id) {
+                match <#field_ty as ::instant_xml::FromXml>::KIND {
+                    ::instant_xml::Kind::Element => {
+                        <#field_ty as ::instant_xml::FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
                     }
-                    Kind::Scalar => {
-                        <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
+                    ::instant_xml::Kind::Scalar => {
+                        <#field_ty as ::instant_xml::FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
                         deserializer.ignore()?;
                     }
                 }
@@ -506,9 +497,9 @@ fn deserialize_inline_struct(
     let visibility = &input.vis;
 
     quote!(
-        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
-            fn matches(id: ::instant_xml::Id<'_>, _: Option<::instant_xml::Id<'_>>) -> bool {
+            fn matches(id: ::instant_xml::Id<'_>, _: ::core::option::Option<::instant_xml::Id<'_>>) -> bool {
                 #matches
             }
 
@@ -517,8 +508,6 @@ fn deserialize_inline_struct(
                 _: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::Kind;
-
                 let current = deserializer.parent();
                 #deserialize
 
@@ -542,7 +531,7 @@ fn deserialize_inline_struct(
             }
         }
 
-        impl #xml_impl_generics Default for #accumulator #xml_ty_generics #where_clause {
+        impl #xml_impl_generics ::core::default::Default for #accumulator #xml_ty_generics #where_clause {
             fn default() -> Self {
                 Self {
                     #acc_field_defaults
@@ -600,7 +589,7 @@ fn named_field<'a>(
             tokens.branches.extend(quote!(else));
         }
         tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
+            if <#no_lifetime_type as ::instant_xml::FromXml>::matches(id, Some(::instant_xml::Id { ns: #ns, name: #field_tag }))
         ));
 
         tokens.branches.extend(match field_meta.attribute {
@@ -611,7 +600,7 @@ fn named_field<'a>(
 
     let val_name = Ident::new(&format!("__value{index}"), Span::call_site());
     declare_values.extend(quote!(
-        let mut #val_name = <#no_lifetime_type as FromXml>::Accumulator::default();
+        let mut #val_name: <#no_lifetime_type as ::instant_xml::FromXml>::Accumulator = ::core::default::Default::default();
     ));
 
     if field_meta.direct {
@@ -655,22 +644,22 @@ fn named_field<'a>(
             ));
         } else if field_meta.direct {
             direct.extend(quote!(
-                Node::Text(text) => {
+                ::instant_xml::de::Node::Text(text) => {
                     seen_direct = true;
-                    let mut nested = deserializer.for_node(Node::Text(text));
-                    <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text(text));
+                    <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                 }
             ));
         } else {
             tokens.r#match.extend(quote!(
-                __Elements::#enum_name => match <#no_lifetime_type as FromXml>::KIND {
-                    Kind::Element => {
+                __Elements::#enum_name => match <#no_lifetime_type as ::instant_xml::FromXml>::KIND {
+                    ::instant_xml::Kind::Element => {
                         let mut nested = deserializer.nested(data);
-                        <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                        <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                     }
-                    Kind::Scalar => {
+                    ::instant_xml::Kind::Scalar => {
                         let mut nested = deserializer.nested(data);
-                        <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                        <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                         nested.ignore()?;
                     }
                 },
@@ -687,15 +676,15 @@ fn named_field<'a>(
         if let Some(with) = &deserialize_with {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::AttributeValue(attr.value));
                     #with(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
         } else {
             tokens.r#match.extend(quote!(
                 __Attributes::#enum_name => {
-                    let mut nested = deserializer.for_node(Node::AttributeValue(attr.value));
-                    let new = <#no_lifetime_type as FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::AttributeValue(attr.value));
+                    let new = <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #val_name, #field_str, &mut nested)?;
                 },
             ));
         }
@@ -703,17 +692,17 @@ fn named_field<'a>(
 
     if !field_meta.direct {
         return_val.extend(quote!(
-            #field_name: #val_name.try_done(#field_str)?,
+            #field_name: ::instant_xml::Accumulate::try_done(#val_name, #field_str)?,
         ));
     } else {
         return_val.extend(quote!(
-            #field_name: match #val_name.try_done(#field_str) {
+            #field_name: match ::instant_xml::Accumulate::try_done(#val_name, #field_str) {
                 Ok(value) => value,
-                Err(Error::MissingValue(_)) => {
-                    let mut acc = <#no_lifetime_type as FromXml>::Accumulator::default();
-                    let mut nested = deserializer.for_node(Node::Text("".into()));
-                    <#no_lifetime_type as FromXml>::deserialize(&mut acc, #field_str, &mut nested)?;
-                    acc.try_done(#field_str)?
+                Err(::instant_xml::Error::MissingValue(_)) => {
+                    let mut acc: <#no_lifetime_type as ::instant_xml::FromXml>::Accumulator = ::core::default::Default::default();
+                    let mut nested = deserializer.for_node(::instant_xml::de::Node::Text("".into()));
+                    <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut acc, #field_str, &mut nested)?;
+                    ::instant_xml::Accumulate::try_done(acc, #field_str)?
                 }
                 Err(e) => return Err(e),
             }
@@ -780,9 +769,9 @@ fn deserialize_tuple_struct(
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
 
     quote!(
-        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
-            fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
+            fn matches(id: ::instant_xml::Id<'_>, field: ::core::option::Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id { ns: #default_namespace, name: #name }
             }
 
@@ -791,14 +780,11 @@ fn deserialize_tuple_struct(
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'__cx, '__xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
-                use ::instant_xml::de::Node;
-                use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
-
                 if into.is_some() {
                     return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
-                let mut pending = None::<Node<'__xml>>;
+                let mut pending = None::<::instant_xml::de::Node<'__xml>>;
                 #declare_values
                 deserializer.ignore()?;
 
@@ -806,7 +792,7 @@ fn deserialize_tuple_struct(
                 Ok(())
             }
 
-            type Accumulator = Option<Self>;
+            type Accumulator = ::core::option::Option<Self>;
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
     )
@@ -831,56 +817,58 @@ fn unnamed_field<'a>(
     for field in later {
         let mut ty = field.ty.clone();
         discard_lifetimes(&mut ty, borrowed, false, true);
-        later_matches.extend(quote!(|| <#ty as FromXml>::matches(id, None)));
-        later_scalar.extend(quote!(|| <#ty as FromXml>::KIND == Kind::Scalar));
+        later_matches.extend(quote!(|| <#ty as ::instant_xml::FromXml>::matches(id, None)));
+        later_scalar.extend(
+            quote!(|| <#ty as ::instant_xml::FromXml>::KIND == ::instant_xml::Kind::Scalar),
+        );
     }
 
     declare_values.extend(quote!(
-        let mut #name = <#no_lifetime_type as FromXml>::Accumulator::default();
-        match <#no_lifetime_type as FromXml>::KIND {
-            Kind::Element => {
+        let mut #name: <#no_lifetime_type as ::instant_xml::FromXml>::Accumulator = ::core::default::Default::default();
+        match <#no_lifetime_type as ::instant_xml::FromXml>::KIND {
+            ::instant_xml::Kind::Element => {
                 let mut seen = false;
                 while let Some(node) = pending.take().map(Ok).or_else(|| deserializer.next()) {
                     let data = match node? {
-                        Node::Open(data) => data,
-                        Node::Attribute(_) => continue,
-                        node @ Node::Text(_) if seen && (#later_scalar) => {
+                        ::instant_xml::de::Node::Open(data) => data,
+                        ::instant_xml::de::Node::Attribute(_) => continue,
+                        node @ ::instant_xml::de::Node::Text(_) if seen && (#later_scalar) => {
                             pending = Some(node);
                             break;
                         }
-                        Node::Text(_) => continue,
-                        node => return Err(Error::UnexpectedNode(format!("{:?}", node))),
+                        ::instant_xml::de::Node::Text(_) => continue,
+                        node => return Err(::instant_xml::Error::UnexpectedNode(format!("{:?}", node))),
                     };
 
                     let id = deserializer.element_id(&data)?;
                     let later = #later_matches;
-                    if <#no_lifetime_type as FromXml>::matches(id, None) && !(seen && later) {
+                    if <#no_lifetime_type as ::instant_xml::FromXml>::matches(id, None) && !(seen && later) {
                         seen = true;
                         let mut nested = deserializer.nested(data);
-                        <#no_lifetime_type as FromXml>::deserialize(&mut #name, #field_str, &mut nested)?;
+                        <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #name, #field_str, &mut nested)?;
                         nested.ignore()?;
                     } else if later {
-                        pending = Some(Node::Open(data));
+                        pending = Some(::instant_xml::de::Node::Open(data));
                         break;
                     } else {
                         deserializer.nested(data).ignore()?;
                     }
                 }
             }
-            Kind::Scalar => match pending.take() {
+            ::instant_xml::Kind::Scalar => match pending.take() {
                 Some(node) => {
                     let mut nested = deserializer.for_node(node);
-                    <#no_lifetime_type as FromXml>::deserialize(&mut #name, #field_str, &mut nested)?;
+                    <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #name, #field_str, &mut nested)?;
                 }
                 None => {
-                    <#no_lifetime_type as FromXml>::deserialize(&mut #name, #field_str, deserializer)?;
+                    <#no_lifetime_type as ::instant_xml::FromXml>::deserialize(&mut #name, #field_str, deserializer)?;
                 }
             }
         };
     ));
 
     return_val.extend(quote!(
-        #name.try_done(#field_str)?,
+        ::instant_xml::Accumulate::try_done(#name, #field_str)?,
     ));
 }
 
@@ -894,9 +882,9 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
 
     quote!(
-        impl #xml_impl_generics FromXml<'__xml> for #ident #ty_generics #where_clause {
+        impl #xml_impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
             #[inline]
-            fn matches(id: ::instant_xml::Id<'_>, field: Option<::instant_xml::Id<'_>>) -> bool {
+            fn matches(id: ::instant_xml::Id<'_>, field: ::core::option::Option<::instant_xml::Id<'_>>) -> bool {
                 id == ::instant_xml::Id { ns: #default_namespace, name: #name }
             }
 
@@ -914,7 +902,7 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 Ok(())
             }
 
-            type Accumulator = Option<Self>;
+            type Accumulator = ::core::option::Option<Self>;
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
     )
diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index d11d434..06758dc 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -60,12 +60,12 @@ fn serialize_scalar_enum(
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
     quote!(
-        impl #impl_generics ToXml for #ident #ty_generics #where_clause {
+        impl #impl_generics ::instant_xml::ToXml for #ident #ty_generics #where_clause {
             fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
-                field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<__W>,
-            ) -> ::std::result::Result<(), instant_xml::Error> {
+                field: ::core::option::Option<::instant_xml::Id<'_>>,
+                serializer: &mut ::instant_xml::Serializer<__W>,
+            ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 let element = match field {
                     Some(id) => {
                         let element = serializer.write_start(id.name, #default_namespace, None::<::instant_xml::ser::Context<0>>)?;
@@ -123,9 +123,10 @@ fn serialize_forward_enum(
         }
 
         let v_ident = &variant.ident;
-        variants.extend(quote!(#ident::#v_ident(inner) => inner.serialize(None, serializer)?,));
+        variants.extend(quote!(#ident::#v_ident(inner) => inner.__serialize(serializer)?,));
     }
 
+    let unnamed_trait = unnamed_trait();
     let default_namespace = meta.default_namespace();
     let cx_len = meta.ns.prefixes.len();
     let mut context = quote!(
@@ -148,12 +149,13 @@ fn serialize_forward_enum(
 
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     quote!(
-        impl #impl_generics ToXml for #ident #ty_generics #where_clause {
+        impl #impl_generics ::instant_xml::ToXml for #ident #ty_generics #where_clause {
             fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
-                field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<__W>,
-            ) -> ::std::result::Result<(), instant_xml::Error> {
+                field: ::core::option::Option<::instant_xml::Id<'_>>,
+                serializer: &mut ::instant_xml::Serializer<__W>,
+            ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                #unnamed_trait
                 match self {
                     #variants
                 }
@@ -211,12 +213,12 @@ fn serialize_struct(
     let ident = &input.ident;
 
     quote!(
-        impl #impl_generics ToXml for #ident #ty_generics #where_clause {
+        impl #impl_generics ::instant_xml::ToXml for #ident #ty_generics #where_clause {
             fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
-                field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<__W>,
-            ) -> ::std::result::Result<(), instant_xml::Error> {
+                field: ::core::option::Option<::instant_xml::Id<'_>>,
+                serializer: &mut ::instant_xml::Serializer<__W>,
+            ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 // Start tag
                 #context
                 let element = serializer.write_start(#tag, #default_namespace, Some(new))?;
@@ -282,12 +284,12 @@ fn serialize_inline_struct(
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
     let ident = &input.ident;
     quote!(
-        impl #impl_generics ToXml for #ident #ty_generics #where_clause {
+        impl #impl_generics ::instant_xml::ToXml for #ident #ty_generics #where_clause {
             fn serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
                 &self,
-                field: Option<::instant_xml::Id<'_>>,
-                serializer: &mut instant_xml::Serializer<__W>,
-            ) -> ::std::result::Result<(), instant_xml::Error> {
+                field: ::core::option::Option<::instant_xml::Id<'_>>,
+                serializer: &mut ::instant_xml::Serializer<__W>,
+            ) -> ::std::result::Result<(), ::instant_xml::Error> {
                 #out
                 Ok(())
             }
@@ -344,7 +346,7 @@ impl StructOutput {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
                 (false, Some(field)) => quote!(
-                    match self.#field.present() {
+                    match ::instant_xml::ToXml::present(&self.#field) {
                         true => serializer.end_start()?,
                         false => serializer.end_empty()?,
                     }
@@ -370,7 +372,7 @@ impl StructOutput {
         if !inline && !attrs_only {
             self.body.extend(match direct {
                 Some(field) => quote!(
-                    match self.#field.present() {
+                    match ::instant_xml::ToXml::present(&self.#field) {
                         true => serializer.write_close(element)?,
                         false => (),
                     }
@@ -429,7 +431,7 @@ impl StructOutput {
 
             self.attributes.extend(quote!(
                 #error
-                if self.#field_name.present() {
+                if ::instant_xml::ToXml::present(&self.#field_name) {
                     serializer.write_attr(#tag, #ns, &self.#field_name)?;
                 }
             ));
@@ -464,13 +466,13 @@ impl StructOutput {
             return Ok(());
         } else if field_meta.direct {
             self.body.extend(quote!(
-                <#no_lifetime_type as ToXml>::serialize(
+                <#no_lifetime_type as ::instant_xml::ToXml>::serialize(
                     &self.#field_name, None, serializer
                 )?;
             ));
         } else {
             self.body.extend(quote!(
-                <#no_lifetime_type as ToXml>::serialize(
+                <#no_lifetime_type as ::instant_xml::ToXml>::serialize(
                     &self.#field_name,
                     Some(::instant_xml::Id { ns: #ns, name: #tag }),
                     serializer,
@@ -490,6 +492,7 @@ impl StructOutput {
             self.body.extend(quote!(serializer.end_start()?;));
         }
 
+        self.body.extend(unnamed_trait());
         for (index, field) in fields.unnamed.iter().enumerate() {
             if let Err(err) = self.unnamed_field(field, index) {
                 return Err(err.to_compile_error());
@@ -515,13 +518,34 @@ impl StructOutput {
         discard_lifetimes(&mut no_lifetime_type, &mut self.borrowed, false, true);
         let index = syn::Index::from(index);
         self.body.extend(quote!(
-            self.#index.serialize(None, serializer)?;
+            self.#index.__serialize(serializer)?;
         ));
 
         Ok(())
     }
 }
 
+/// A trait for values that are dereferenced as necessary, whose method is not that of another trait
+fn unnamed_trait() -> TokenStream {
+    quote!(
+        trait __Unnamed {
+            fn __serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
+                &self,
+                serializer: &mut ::instant_xml::Serializer<'_, __W>,
+            ) -> ::std::result::Result<(), ::instant_xml::Error>;
+        }
+
+        impl<__T: ::instant_xml::ToXml + ?::core::marker::Sized> __Unnamed for __T {
+            fn __serialize<__W: ::core::fmt::Write + ?::core::marker::Sized>(
+                &self,
+                serializer: &mut ::instant_xml::Serializer<'_, __W>,
+            ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                ::instant_xml::ToXml::serialize(self, None, serializer)
+            }
+        }
+    )
+}
+
 impl ToTokens for StructOutput {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         self.attributes.to_tokens(tokens);
-- 
2.43.0


From 6b160480900674d21cb648868551c8d9709e029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 39/39] fix: an element without text did not stand for an enum
 variant with an empty name

---
 instant-xml-macros/src/de.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 3024fbc..693d65a 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -72,7 +72,6 @@ fn deserialize_scalar_enum(
     let generics = meta.xml_generics(BTreeSet::new());
     let (impl_generics, _, _) = generics.split_for_impl();
     let (_, ty_generics, where_clause) = input.generics.split_for_impl();
-    let type_str = ident.to_string();
 
     quote!(
         impl #impl_generics ::instant_xml::FromXml<'__xml> for #ident #ty_generics #where_clause {
@@ -96,11 +95,8 @@ fn deserialize_scalar_enum(
                     return Err(::instant_xml::Error::DuplicateValue(field));
                 }
 
-                let cow_str = match deserializer.take_str()? {
-                    Some(val) => val,
-                    None => return Err(::instant_xml::Error::MissingValue(#type_str)),
-                };
-
+                // An element without text stands for the variant with an empty name, if any
+                let cow_str = deserializer.take_str()?.unwrap_or_default();
                 let value = match cow_str.as_ref() {
                     #variants
                     _ => return Err(::instant_xml::Error::UnexpectedValue(
-- 
2.43.0


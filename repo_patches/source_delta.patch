From 9fb7872b70c0abb6d069b0e74594b4434cab6d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:04 +0000
Subject: [PATCH 01/21] fix: return an error instead of looping forever at the
 end of the document

A struct whose start tag was followed by the end of the document (for example
because the document root is the element of one of its fields) kept peeking at
EndDocument without ever consuming it.
---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index fca7486..972bd4f 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -460,6 +460,10 @@ pub fn parse(
               if #flatten {
                 break;
               }
+
+              return ::std::result::Result::Err(
+                ::std::format!("End of document, missing some content ?"),
+              );
             }
             ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
               #set_text
-- 
2.43.0


From ada663d05fb4128269bb02d1971c3c22fe43c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:21 +0000
Subject: [PATCH 02/21] fix: do not take a struct's own start tag for one of
 its fields

The first start tag a struct sees is its own. It was matched against the fields
unless it carried the name of the type, so a struct in an element named like one
of the struct's own fields could not be read back.
---
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 972bd4f..d9c23b4 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -421,7 +421,7 @@ pub fn parse(
           match event {
             ::yaserde::__xml::reader::XmlEvent::StartElement{ref name, ref attributes, ..} => {
               let namespace = name.namespace.clone().unwrap_or_default();
-              if depth == 0 && name.local_name == #root && namespace.as_str() == #root_namespace {
+              if depth == 0 && (!#flatten || name.local_name == #root && namespace.as_str() == #root_namespace) {
                 // Consume root element. We must do this first. In the case it shares a name with a child element, we don't
                 // want to prematurely match the child element below.
                 let event = reader.next_event()?;
-- 
2.43.0


From 327f20b0d68cad0dccf4e0823d65feafa38e6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:36 +0000
Subject: [PATCH 03/21] fix: read an empty element as the empty string

String fields written as <a></a> were reported as missing, and empty optional
strings and list items were dropped.
---
 yaserde_derive/src/de/expand_struct.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index d9c23b4..c49a6a5 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -511,6 +511,10 @@ fn build_call_visitor(
       #namespaces_matching
 
       let result = reader.read_inner_value::<#field_type, _>(|reader| {
+        if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
+          return visitor.#visitor("");
+        }
+
         if let ::std::result::Result::Ok(::yaserde::__xml::reader::XmlEvent::Characters(s)) = reader.peek() {
           let val = visitor.#visitor(&s);
           let _event = reader.next_event()?;
-- 
2.43.0


From 8bb8d7a946383bf3b0aad217e4633432999fa83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:50 +0000
Subject: [PATCH 04/21] fix: consume the event a unit enum variant was read
 from

A unit variant left its text (or tagged start tag) in the reader, so the parent
took it for the end tag: the stray end tag that followed broke the buffer of
flattened fields and the siblings' bookkeeping.
---
 yaserde_derive/src/de/expand_enum.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 3134a07..77b4c23 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -28,11 +28,16 @@ pub fn parse(
 
   let element_name = if let Some(tag) = &root_attributes.tag {
     quote! {
-      attributes
-        .iter()
-        .find(|attr| attr.name.local_name.as_str() == #tag)
-        .ok_or(format!("Expected enum tagged with {}, found {:?}", #tag, event))?
-        .value.as_str()
+      if reader.depth() > start_depth {
+        // Only the enum's own element carries the tag
+        ""
+      } else {
+        attributes
+          .iter()
+          .find(|attr| attr.name.local_name.as_str() == #tag)
+          .ok_or(format!("Expected enum tagged with {}, found {:?}", #tag, event))?
+          .value.as_str()
+      }
     }
   } else {
     quote! {
@@ -123,7 +128,7 @@ fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
     Fields::Unit => Some(quote! {
       #xml_element_name => {
         enum_value = ::std::option::Option::Some(#variant_name);
-        break;
+        let _event = reader.next_event()?;
       }
     }),
     Fields::Unnamed(ref fields) => {
-- 
2.43.0


From 44dd10432fd5f2b76e20bad8682b67752373cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:25 +0000
Subject: [PATCH 05/21] fix: do not take an enum's own element for one of its
 variants

The element around an enum selected the variant of the same name, whatever
variant was written inside it.
---
 yaserde_derive/src/de/expand_enum.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 77b4c23..a1ff93e 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -41,7 +41,15 @@ pub fn parse(
     }
   } else {
     quote! {
-      name.local_name.as_str()
+      if !#flatten
+        && reader.depth() == start_depth
+        && (start_depth > 0 || name.local_name == #root)
+      {
+        // The enum's own element never selects a variant
+        ""
+      } else {
+        name.local_name.as_str()
+      }
     }
   };
 
-- 
2.43.0


From c37632456e3c61df7bcd1cb6f265d28cc7cb23c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 06/21] fix: do not panic on a malformed scalar in an enum
 variant

---
 yaserde_derive/src/de/expand_enum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index a1ff93e..1f3c2ca 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -200,7 +200,7 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
         make_visitor(
           &visitor,
           &field_type,
-          &quote! { ::std::result::Result::Ok(#field_type::from_str(v).unwrap()) },
+          &quote! { #field_type::from_str(v).map_err(|e| e.to_string()) },
         )
       };
 
-- 
2.43.0


From 1529bef320650186121ea283652b74dd7cca869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:33 +0000
Subject: [PATCH 07/21] fix: report a write error of a scalar item or enum
 payload

---
 yaserde/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yaserde/src/lib.rs b/yaserde/src/lib.rs
index 6c86ac9..06b0f61 100644
--- a/yaserde/src/lib.rs
+++ b/yaserde/src/lib.rs
@@ -177,8 +177,7 @@ macro_rules! serialize_type {
       fn serialize<W: Write>(&self, writer: &mut ser::Serializer<W>) -> Result<(), String> {
         let content = format!("{}", self);
         let event = XmlEvent::characters(&content);
-        let _ret = writer.write(event);
-        Ok(())
+        writer.write(event).map_err(|e| e.to_string())
       }
 
       fn serialize_attributes(
-- 
2.43.0


From 686efe9a12d7ff4b6f0e5452fd15e56981394df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:59 +0000
Subject: [PATCH 08/21] fix: do not serialize attributes marked
 skip_serializing

---
 yaserde_derive/src/common/field.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index 06f650c..a51588c 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -181,10 +181,12 @@ impl YaSerdeField {
       .map(|builder| quote!(let yaserde_inner = #builder;))
       .unwrap_or_default();
 
+    let skip_serializing = self.is_skip_serializing();
+
     let skip_if = self
       .get_skip_serializing_if_function()
-      .map(|skip_if_function| quote!(!self.#skip_if_function(&self.#label)))
-      .unwrap_or(quote!(true));
+      .map(|skip_if_function| quote!(!#skip_serializing && !self.#skip_if_function(&self.#label)))
+      .unwrap_or(quote!(!#skip_serializing));
 
     self
       .get_default_function()
-- 
2.43.0


From 8e9c2a682334ac86744620b0d101ff1426f84a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:01 +0000
Subject: [PATCH 09/21] fix: consume the text of a primitive and report a
 reader error in it

The text was left for the parent, which took it for the end tag, and a reader
error right after the start tag was read as the empty text.
---
 yaserde/src/primitives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde/src/primitives.rs b/yaserde/src/primitives.rs
index 0d4107f..4e9da26 100644
--- a/yaserde/src/primitives.rs
+++ b/yaserde/src/primitives.rs
@@ -43,8 +43,10 @@ pub fn deserialize_primitives<S, R: Read>(
     return Err("Start element not found".to_string());
   }
 
-  if let Ok(xml::reader::XmlEvent::Characters(ref text)) = reader.peek() {
-    deserialize_function(text)
+  if let xml::reader::XmlEvent::Characters(ref text) = reader.peek()? {
+    let value = deserialize_function(text)?;
+    reader.next_event()?;
+    Ok(value)
   } else {
     deserialize_function("")
   }
-- 
2.43.0


From 3258afc5f205c8ef5735a7a2c6ecb25e88d6c6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:04 +0000
Subject: [PATCH 10/21] fix: honour skip_serializing, skip_serializing_if and
 default on text fields

---
 yaserde_derive/src/ser/expand_struct.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index 2a4507b..d249ade 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -145,21 +145,25 @@ pub fn serialize(
     .filter(|field| !field.is_attribute())
     .filter_map(|field| {
       let label = field.label();
+      let conditions = condition_generator(&label, &field);
       if field.is_text_content() {
         return match field.get_type() {
           Field::FieldOption { .. } => Some(quote!(
-            let s = self.#label.as_deref().unwrap_or_default();
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let s = self.#label.as_deref().unwrap_or_default();
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(s);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
           _ => Some(quote!(
-            let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
-            writer.write(data_event).map_err(|e| e.to_string())?;
+            #conditions {
+              let data_event = ::yaserde::__xml::writer::XmlEvent::characters(&self.#label);
+              writer.write(data_event).map_err(|e| e.to_string())?;
+            }
           )),
         };
       }
       let label_name = field.renamed_label(root_attributes);
-      let conditions = condition_generator(&label, &field);
 
       if field.is_cdata() {
         return quote! {
-- 
2.43.0


From ecdb046b6993a0444234c2bb60b7ae5639abe344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 11/21] fix: write the attributes of an enum variant's payload

The payload is serialized without its own start tag, and its attributes and
namespaces were dropped with it instead of going to the variant's element.
---
 yaserde_derive/src/ser/expand_enum.rs | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_enum.rs b/yaserde_derive/src/ser/expand_enum.rs
index 560ed79..e2060e7 100644
--- a/yaserde_derive/src/ser/expand_enum.rs
+++ b/yaserde_derive/src/ser/expand_enum.rs
@@ -261,11 +261,27 @@ fn inner_enum_inspector(
                 ::yaserde::YaSerialize::serialize(item, writer)?;
               };
 
-              let write_sub_type = |data_type| {
-                write_element(match data_type {
-                  Field::FieldString => &write_string_chars,
-                  _ => &serialize,
-                })
+              let write_payload = quote! {
+                let (attributes, namespace) = ::yaserde::YaSerialize::serialize_attributes(
+                  item,
+                  ::std::vec![],
+                  ::yaserde::__xml::namespace::Namespace::empty(),
+                )?;
+                writer.write(::yaserde::__xml::writer::XmlEvent::StartElement {
+                  name: ::yaserde::__xml::name::Name::from(#label_name),
+                  attributes: attributes.iter().map(|a| a.borrow()).collect(),
+                  namespace: ::std::borrow::Cow::Owned(namespace),
+                }).map_err(|e| e.to_string())?;
+
+                #serialize
+
+                let struct_end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
+                writer.write(struct_end_event).map_err(|e| e.to_string())?;
+              };
+
+              let write_sub_type = |data_type| match data_type {
+                Field::FieldString => write_element(&write_string_chars),
+                _ => write_payload.clone(),
               };
 
               let match_field = |write: &TokenStream| {
@@ -302,7 +318,7 @@ fn inner_enum_inspector(
                   if variant_attrs.flatten || field.is_flatten() {
                      match_field(&quote!{ ::yaserde::YaSerialize::serialize(item, writer)?})
                    } else {
-                     write_element(&match_field(&serialize))
+                     match_field(&write_payload)
                    }
                 }
                 Field::FieldString => match_field(&write_element(&write_string_chars)),
-- 
2.43.0


From 4f9d5c80a679eb233a5653470ff85158e34e07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 12/21] fix: write list attributes instead of dropping them

---
 yaserde_derive/src/ser/expand_struct.rs | 26 ++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index d249ade..ee62f52 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -115,9 +115,29 @@ pub fn serialize(
               struct_start_event.attr(#label_name, &yaserde_inner)
             }),
           ),
-          Field::FieldVec { .. } => {
-            // TODO
-            quote!()
+          Field::FieldVec { data_type } => {
+            let items = match *data_type {
+              Field::FieldStruct { .. } => quote! {
+                self.#label
+                  .iter()
+                  .map(::yaserde::ser::to_string_content)
+                  .collect::<::std::result::Result<::std::vec::Vec<_>, _>>()?
+              },
+              _ => quote! {
+                self.#label.iter().map(|item| item.to_string()).collect::<::std::vec::Vec<_>>()
+              },
+            };
+
+            field.ser_wrap_default_attribute(
+              Some(quote!(#items.join(" "))),
+              quote!({
+                if self.#label.is_empty() {
+                  struct_start_event
+                } else {
+                  struct_start_event.attr(#label_name, &yaserde_inner)
+                }
+              }),
+            )
           }
         }
       } else {
-- 
2.43.0


From e8fdecf0fedd514f82b6da7f861fcc4fc70e20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:38 +0000
Subject: [PATCH 13/21] fix: do not read a child element into a text field

---
 yaserde_derive/src/de/expand_struct.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index c49a6a5..17a60cc 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -144,7 +144,7 @@ pub fn parse(
     .fields
     .iter()
     .map(|field| YaSerdeField::new(field.clone()))
-    .filter(|field| !field.is_attribute() && !field.is_flatten())
+    .filter(|field| !field.is_attribute() && !field.is_flatten() && !field.is_text_content())
     .filter_map(|field| {
       let value_label = field.get_value_label();
       let label_name = field.renamed_label_without_namespace();
-- 
2.43.0


From 3a06be144a21d8ee337143d4f6d16b0388dbf7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:01 +0000
Subject: [PATCH 14/21] fix: ignore the content of an enum's unknown child
 element

---
 yaserde_derive/src/de/expand_enum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 1f3c2ca..362e02d 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -82,7 +82,13 @@ pub fn parse(
               match #element_name {
                 #match_to_enum
                 _named_element => {
+                  let is_own_element = reader.depth() == start_depth;
                   let _root = reader.next_event();
+
+                  if !is_own_element {
+                    // The content of an unknown element never selects a variant
+                    reader.skip_element(|_event| {})?;
+                  }
                 }
               }
 
-- 
2.43.0


From 0d59b029a5132255d3b3d5863217d083b489fced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:28 +0000
Subject: [PATCH 15/21] fix: skip the rest of an unreadable scalar element

---
 yaserde_derive/src/de/expand_enum.rs   | 6 ++++++
 yaserde_derive/src/de/expand_struct.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 362e02d..9e4e184 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -259,6 +259,7 @@ fn build_unnamed_visitor_calls(
 
         Some(quote! {
           let visitor = #visitor_label{};
+          let item_depth = reader.depth();
 
           let result = reader.read_inner_value::<#field_type, _>(|reader| {
             if let ::yaserde::__xml::reader::XmlEvent::EndElement { .. } = *reader.peek()? {
@@ -279,6 +280,11 @@ fn build_unnamed_visitor_calls(
           if let ::std::result::Result::Ok(value) = result {
             #action
           }
+
+          while reader.depth() > item_depth {
+            // The rest of an unreadable item selects no variant
+            reader.skip_element(|_event| {})?;
+          }
         })
       };
 
diff --git a/yaserde_derive/src/de/expand_struct.rs b/yaserde_derive/src/de/expand_struct.rs
index 17a60cc..5e61619 100644
--- a/yaserde_derive/src/de/expand_struct.rs
+++ b/yaserde_derive/src/de/expand_struct.rs
@@ -507,6 +507,7 @@ fn build_call_visitor(
   Some(quote! {
     (#namespace, #label_name) => {
       let visitor = #visitor_label{};
+      let field_depth = reader.depth();
 
       #namespaces_matching
 
@@ -527,6 +528,11 @@ fn build_call_visitor(
       if let ::std::result::Result::Ok(value) = result {
         #value_label#action
       }
+
+      while reader.depth() > field_depth {
+        // The rest of an unreadable field belongs to no other field
+        reader.skip_element(|_event| {})?;
+      }
     }
   })
 }
-- 
2.43.0


From ed0a27b7a0e03356639d2d2fee2d5ecae6ba6969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:32 +0000
Subject: [PATCH 16/21] fix: write the attributes of a flattened Option, and
 none of a skipped flattened field

---
 yaserde_derive/src/ser/expand_struct.rs | 30 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/yaserde_derive/src/ser/expand_struct.rs b/yaserde_derive/src/ser/expand_struct.rs
index ee62f52..a23f519 100644
--- a/yaserde_derive/src/ser/expand_struct.rs
+++ b/yaserde_derive/src/ser/expand_struct.rs
@@ -141,16 +141,30 @@ pub fn serialize(
           }
         }
       } else {
+        let conditions = condition_generator(&label, &field);
+        let extend = |value: TokenStream| {
+          quote!(
+            let (attributes, namespace) = #value.serialize_attributes(
+              ::std::vec![],
+              ::yaserde::__xml::namespace::Namespace::empty(),
+            )?;
+            child_attributes_namespace.extend(&namespace);
+            child_attributes.extend(attributes);
+          )
+        };
+
         match field.get_type() {
           Field::FieldStruct { .. } => {
-            quote!(
-              let (attributes, namespace) = self.#label.serialize_attributes(
-                ::std::vec![],
-                ::yaserde::__xml::namespace::Namespace::empty(),
-              )?;
-              child_attributes_namespace.extend(&namespace);
-              child_attributes.extend(attributes);
-            )
+            let extend = extend(quote!(self.#label));
+            quote!(#conditions { #extend })
+          }
+          Field::FieldOption { data_type } if matches!(*data_type, Field::FieldStruct { .. }) => {
+            let extend = extend(quote!(value));
+            quote!(#conditions {
+              if let ::std::option::Option::Some(ref value) = self.#label {
+                #extend
+              }
+            })
           }
           _ => quote!(),
         }
-- 
2.43.0


From f826713fb9793bc4df331a6a9c9e544872ce306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 17/21] fix: an enum payload that leads back to the enum no
 longer recurses endlessly on the root element

---
 yaserde_derive/src/de/expand_enum.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index 9e4e184..b64b2e2 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -20,7 +20,7 @@ pub fn parse(
   let match_to_enum: TokenStream = data_enum
     .variants
     .iter()
-    .filter_map(|variant| parse_variant(variant, name))
+    .filter_map(|variant| parse_variant(variant, name, root_attributes.flatten))
     .collect();
 
   let flatten = root_attributes.flatten;
@@ -130,7 +130,7 @@ pub fn parse(
   }
 }
 
-fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
+fn parse_variant(variant: &syn::Variant, name: &Ident, flatten: bool) -> Option<TokenStream> {
   let xml_element_name = YaSerdeAttribute::from(&variant.attrs).xml_element_name(&variant.ident);
 
   let variant_name = {
@@ -147,7 +147,7 @@ fn parse_variant(variant: &syn::Variant, name: &Ident) -> Option<TokenStream> {
     }),
     Fields::Unnamed(ref fields) => {
       let field_visitors = build_unnamed_field_visitors(fields);
-      let call_visitors = build_unnamed_visitor_calls(fields, &variant_name);
+      let call_visitors = build_unnamed_visitor_calls(fields, name, flatten, &variant_name);
 
       if fields.unnamed.len() > 1 {
         unimplemented!("enum variant with multiple fields")
@@ -241,6 +241,8 @@ fn build_unnamed_field_visitors(fields: &syn::FieldsUnnamed) -> TokenStream {
 
 fn build_unnamed_visitor_calls(
   fields: &syn::FieldsUnnamed,
+  name: &Ident,
+  flatten: bool,
   variant_name: &TokenStream,
 ) -> TokenStream {
   fields
@@ -288,8 +290,20 @@ fn build_unnamed_visitor_calls(
         })
       };
 
-      let call_struct_visitor = |struct_name, action| {
+      let call_struct_visitor = |struct_name: syn::Path, action| {
+        // The enum's own element isn't its payload: a payload that leads back to the enum
+        // would start over on that element without an end
+        let check_own_element = (!flatten || struct_name.is_ident(name)).then_some(quote! {
+          if reader.depth() == start_depth {
+            return ::std::result::Result::Err(::std::format!(
+              "Unexpected element {} for {}", named_element, stringify!(#name),
+            ));
+          }
+        });
+
         Some(quote! {
+          #check_own_element
+
           match <#struct_name as ::yaserde::YaDeserialize>::deserialize(reader) {
             Ok(value) => {
               #action;
-- 
2.43.0


From c8cd4b8a8895c137082fdf75ee9d71ec56ff91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 18/21] fix: write raw identifiers without their r# prefix

---
 yaserde_derive/src/common/attribute.rs | 6 +++++-
 yaserde_derive/src/common/field.rs     | 2 +-
 yaserde_derive/src/ser/label.rs        | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/yaserde_derive/src/common/attribute.rs b/yaserde_derive/src/common/attribute.rs
index 3532af1..68a1140 100644
--- a/yaserde_derive/src/common/attribute.rs
+++ b/yaserde_derive/src/common/attribute.rs
@@ -4,6 +4,7 @@ use serde::Deserialize;
 use serde_tokenstream::from_tokenstream;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
+use syn::ext::IdentExt;
 use syn::{Attribute, Meta};
 
 #[derive(Clone, Debug, Default, PartialEq, Deserialize)]
@@ -88,7 +89,10 @@ impl From<&Vec<Attribute>> for YaSerdeAttribute {
 
 impl YaSerdeAttribute {
   pub fn xml_element_name(&self, ident: &Ident) -> String {
-    self.rename.clone().unwrap_or_else(|| ident.to_string())
+    self
+      .rename
+      .clone()
+      .unwrap_or_else(|| ident.unraw().to_string())
   }
 
   pub fn prefix_namespace(&self) -> String {
diff --git a/yaserde_derive/src/common/field.rs b/yaserde_derive/src/common/field.rs
index a51588c..a1f6f9c 100644
--- a/yaserde_derive/src/common/field.rs
+++ b/yaserde_derive/src/common/field.rs
@@ -61,7 +61,7 @@ impl YaSerdeField {
       .attributes
       .rename
       .clone()
-      .unwrap_or_else(|| self.label().as_ref().unwrap().to_string())
+      .unwrap_or_else(|| self.label().as_ref().unwrap().unraw().to_string())
   }
 
   pub fn renamed_label(&self, root_attributes: &YaSerdeAttribute) -> String {
diff --git a/yaserde_derive/src/ser/label.rs b/yaserde_derive/src/ser/label.rs
index 89998a5..bc3a0bb 100644
--- a/yaserde_derive/src/ser/label.rs
+++ b/yaserde_derive/src/ser/label.rs
@@ -1,5 +1,6 @@
 use crate::common::YaSerdeAttribute;
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub fn build_label_name(
   label: &Ident,
@@ -18,7 +19,7 @@ pub fn build_label_name(
   let label = field_attrs
     .rename
     .clone()
-    .unwrap_or_else(|| label.to_string());
+    .unwrap_or_else(|| label.unraw().to_string());
 
   format!("{}{}", prefix, label)
 }
-- 
2.43.0


From 749c0c677662f048171d42cf019673ccfe06fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:41 +0000
Subject: [PATCH 19/21] fix: HexBinaryYaSerde reads the hexadecimal digits it
 writes

---
 yaserde_derive/src/primitives.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaserde_derive/src/primitives.rs b/yaserde_derive/src/primitives.rs
index 386bf28..00e2f8f 100644
--- a/yaserde_derive/src/primitives.rs
+++ b/yaserde_derive/src/primitives.rs
@@ -71,8 +71,10 @@ pub fn hexbinary_serde(input: TokenStream) -> TokenStream {
 
       fn from_str(s: &::std::primitive::str) -> ::std::result::Result<Self, Self::Err> {
         Self::from_bits(
-          s.parse()
-              .map_err(|_| String::from("Failed to parse Bitflag integer"))?,
+          ::std::primitive::u128::from_str_radix(s, 16)
+              .ok()
+              .and_then(|bits| ::std::convert::TryFrom::try_from(bits).ok())
+              .ok_or_else(|| String::from("Failed to parse Bitflag integer"))?,
       )
       .ok_or(String::from("Unknown bits were set in Bitflag"))
       }
-- 
2.43.0


From 97664a11bb65705f974f438e9cd3ce36e49893d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:46 +0000
Subject: [PATCH 20/21] fix: an enum's text selects only unit variants, and
 none when the enum has a tag

---
 yaserde_derive/src/de/expand_enum.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index b64b2e2..cc0a174 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -23,6 +23,14 @@ pub fn parse(
     .filter_map(|variant| parse_variant(variant, name, root_attributes.flatten))
     .collect();
 
+  // Text has no payload, and the variant of a tagged enum is given by the tag alone
+  let match_text_to_enum: TokenStream = data_enum
+    .variants
+    .iter()
+    .filter(|variant| root_attributes.tag.is_none() && matches!(variant.fields, Fields::Unit))
+    .filter_map(|variant| parse_variant(variant, name, root_attributes.flatten))
+    .collect();
+
   let flatten = root_attributes.flatten;
   let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
 
@@ -94,7 +102,7 @@ pub fn parse(
 
               if let ::yaserde::__xml::reader::XmlEvent::Characters(content) = reader.peek()?.to_owned() {
                 match content.as_str() {
-                  #match_to_enum
+                  #match_text_to_enum
                   _ => {}
                 }
               }
-- 
2.43.0


From 30b0b867695a569b8f5e4a036a21cc3af7918234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:46 +0000
Subject: [PATCH 21/21] fix: the content of a unit variant's element selects no
 other variant

---
 yaserde_derive/src/de/expand_enum.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaserde_derive/src/de/expand_enum.rs b/yaserde_derive/src/de/expand_enum.rs
index cc0a174..befe179 100644
--- a/yaserde_derive/src/de/expand_enum.rs
+++ b/yaserde_derive/src/de/expand_enum.rs
@@ -151,6 +151,11 @@ fn parse_variant(variant: &syn::Variant, name: &Ident, flatten: bool) -> Option<
       #xml_element_name => {
         enum_value = ::std::option::Option::Some(#variant_name);
         let _event = reader.next_event()?;
+
+        if reader.depth() > start_depth + 1 {
+          // The content of the variant's element selects no other variant
+          reader.skip_element(|_event| {})?;
+        }
       }
     }),
     Fields::Unnamed(ref fields) => {
-- 
2.43.0


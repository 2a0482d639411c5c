DS='yaserde_derive/src/de/expand_struct.rs'; DE='yaserde_derive/src/de/expand_enum.rs'
SS='yaserde_derive/src/ser/expand_struct.rs'; SE='yaserde_derive/src/ser/expand_enum.rs'; SI='yaserde_derive/src/ser/implement_serializer.rs'
EL='yaserde_derive/src/ser/element.rs'; FI='yaserde_derive/src/common/field.rs'; AT='yaserde_derive/src/common/attribute.rs'
RD='yaserde/src/de/mod.rs'; RS='yaserde/src/ser/mod.rs'; RP='yaserde/src/primitives.rs'
H='#![allow(dead_code)]\nuse yaserde::{YaDeserialize, YaSerialize, PrimitiveYaSerde};\nuse yaserde::de::from_str;\nuse yaserde::ser::{to_string, Config};\n'
BUGS={}
def bug(id, property, edits, needs, breaks, main):
    BUGS[id]=dict(property=property,edits=edits,needs=needs,breaks=breaks,main='#![allow(unused_imports)]\n'+H+main)
bug('b01-first-unknown','C03',[(DS,'if depth > 0 { // Don\'t skip root element','if depth > 1 { // Don\'t skip root element')],
 'the first child of a struct is an unknown element that contains an element named like a field',
 'the content of an unknown first child is taken for the parent\'s',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { x: i32, y: Option<String> }
fn main() { let a: A = from_str("<A><u><x>5</x><y>no</y></u><x>1</x></A>").unwrap(); assert_eq!(a, A { x: 1, y: None }); }
''')
bug('b02-missing-bool','C05',[(DS,'''          } else {
            let error = format!(
              "{} is a required field of {}",''','''          } else if matches!(field.get_type(), Field::FieldBool) {
            quote! { #label: #value_label.unwrap_or_default(), }
          } else {
            let error = format!(
              "{} is a required field of {}",''')],
 'a required bool field without default that the document leaves out','a missing bool becomes false instead of an error',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { x: i32, b: bool }
fn main() { assert!(from_str::<A>("<A><x>1</x></A>").is_err()); assert!(from_str::<A>("<A><x>1</x><b>1</b></A>").unwrap().b); }
''')
bug('b04-attr-words','C04',[(DS,'for value in attr.value.split_whitespace() {',"for value in attr.value.split(' ').filter(|w| !w.is_empty()) {")],
 'a list attribute whose words are separated by a tab or line break (character references)','words separated by other white space are not separated',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(attribute = true)] v: Vec<i32> }
fn main() { let a: A = from_str("<A v='1 2&#9;3  4'/>").unwrap(); assert_eq!(a.v, vec![1, 2, 3, 4]); }
''')
bug('b05-any-namespace','C07',[(AT,'if configured_prefix.as_deref().eq(&Some(prefix)) {','if configured_prefix.is_some() && self.namespaces.contains_key(prefix) {')],
 'a root element in another namespace that the type declares','a root in any declared namespace is accepted',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)]
#[yaserde(prefix = "a", namespaces = { "a" = "http://a", "b" = "http://b" })] struct A { #[yaserde(prefix = "a")] x: i32 }
fn main() { assert!(from_str::<A>("<q:A xmlns:q='http://b'><a:x xmlns:a='http://a'>1</a:x></q:A>").is_err());
 assert_eq!(from_str::<A>("<q:A xmlns:q='http://a'><q:x>1</q:x></q:A>").unwrap().x, 1); }
''')
bug('b06-variant-alias','C08',[(DE,'''  match variant.fields {
    Fields::Unit => Some(quote! {
      #xml_element_name => {''','''  let own_name = variant.ident.to_string();

  match variant.fields {
    Fields::Unit => Some(quote! {
      #xml_element_name | #own_name => {''')],
 'a document that uses the Rust name of a renamed unit variant','a name that belongs to no variant selects one',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] enum E { #[default] A, #[yaserde(rename = "bee")] B }
fn main() { assert_eq!(from_str::<E>("<E>B</E>").unwrap(), E::A); assert_eq!(from_str::<E>("<E>bee</E>").unwrap(), E::B); }
''')
bug('b08-tag-text','C10',[(DE,'''            ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
              let _root = reader.next_event();
            }''','''            ::yaserde::__xml::reader::XmlEvent::Characters(ref text_content) => {
              if !text_content.starts_with('#') {
                let _root = reader.next_event();
              }
            }''')],
 'an enum element whose text, following a child element, starts with #','deserialization never returns',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] enum E { #[default] A, B(i32) }
fn main() { let (s, r) = std::sync::mpsc::channel(); std::thread::spawn(move || { let _ = from_str::<E>("<E><q/>#x</E>"); s.send(()).unwrap(); });
 assert!(r.recv_timeout(std::time::Duration::from_secs(5)).is_ok()); }
''')
bug('b09-end-write','C12',[(EL,'''    let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
    writer.write(end_event).map_err(|e| e.to_string())?;
  }
}

pub fn serialize_element''','''    let end_event = ::yaserde::__xml::writer::XmlEvent::end_element();
    let _ = writer.write(end_event);
  }
}

pub fn serialize_element''')],
 'a writer that fails once, exactly while the end tag of a scalar element is written','the failed write is not reported',
 '''use std::io::Write;
struct W { n: usize, at: usize } 
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.n += 1; if self.n == self.at { return Err(std::io::Error::new(std::io::ErrorKind::Other, "x")); } Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
#[derive(YaSerialize)] struct A { x: i32, y: String }
fn main() { for at in 1..200 { let w = W { n: 0, at }; match yaserde::ser::serialize_with_writer(&A { x: 1, y: "q".into() }, w, &Config::default()) { Ok(w) => assert!(w.n < at, "write {} failed unnoticed", at), Err(_) => {} } } }
''')
bug('b10-f32-via-f64','C13',[(DS,'''              #field_type::from_str(#map_if_bool).map_err(|e| e.to_string())
            }''','''              #parse
            }'''),(DS,'''        Some(quote! {
          #[allow(non_snake_case, non_camel_case_types)]
          struct #visitor_label;
          impl<'de> ::yaserde::Visitor<'de> for #visitor_label {
            type Value = #field_type;
''','''        let parse = if field_type.to_string() == "f32" {
          quote!(f64::from_str(#map_if_bool).map(|v| v as f32).map_err(|e| e.to_string()))
        } else {
          quote!(#field_type::from_str(#map_if_bool).map_err(|e| e.to_string()))
        };

        Some(quote! {
          #[allow(non_snake_case, non_camel_case_types)]
          struct #visitor_label;
          impl<'de> ::yaserde::Visitor<'de> for #visitor_label {
            type Value = #field_type;
''')],
 'an f32 field whose decimal text lies just below the midpoint of two f32 values','the text is rounded twice and gives the neighbouring float',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { x: f32 }
fn main() { let t = "1.00000017881393432617187499"; assert_eq!(from_str::<A>(&format!("<A><x>{}</x></A>", t)).unwrap().x, t.parse::<f32>().unwrap()); }
''')
bug('b11-text-crlf','C14',[(DS,'Field::FieldString => set_text(&quote! { Some(text_content.to_owned()) }),','Field::FieldString => set_text(&quote! { Some(text_content.replace("\\r\\n", "\\n")) }),')],
 'a text field whose text contains CR LF (as character references)','the carriage return is lost',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(text = true)] t: String }
fn main() { assert_eq!(from_str::<A>("<A>a&#13;&#10;b</A>").unwrap().t, "a\\r\\nb"); }
''')
bug('b14-indent','C15',[(RS,'.perform_indent(config.perform_indent)','.perform_indent(config.perform_indent || config.indent_string.is_some())')],
 'a Config with an indent string but without perform_indent','the output is indented although the Config does not ask for it',
 '''#[derive(YaSerialize)] struct In { x: i32 } #[derive(YaSerialize)] struct A { x: In }
fn main() { let s = yaserde::ser::to_string_with_config(&A { x: In { x: 1 } }, &Config { perform_indent: false, write_document_declaration: false, indent_string: Some("  ".into()) }).unwrap(); assert!(!s.contains('\\n'), "{}", s); }
''')
bug('b15-hoisted-skip','C02',[(SS,'''                #conditions {
                  for item in &self.#label {
                    writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                    writer.set_skip_start_end(false);
                    ::yaserde''','''                #conditions {
                  writer.set_skip_start_end(false);
                  for item in &self.#label {
                    writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                    ::yaserde''')],
 'a Vec of at least two structs that themselves have a flattened field','the tags of the second and later items are missing',
 '''#[derive(YaSerialize)] struct F { x: i32 } #[derive(YaSerialize)] struct It { #[yaserde(flatten = true)] f: F } #[derive(YaSerialize)] struct A { it: Vec<It> }
fn main() { let m = |x| It { f: F { x } }; let s = to_string(&A { it: vec![m(1), m(2)] }).unwrap(); assert!(s.contains("<it><x>1</x></it><it><x>2</x></it>"), "{}", s); }
''')
bug('b16-end-namespace','C11',[(RD,'if name == *start_name {','if name.local_name == start_name.local_name {')],
 'expect_end_element called with the name of an element in another namespace','an end tag in another namespace is accepted',
 '''fn main() { let mut d = yaserde::de::Deserializer::new_from_reader("<a xmlns='http://q'></a>".as_bytes()); d.next_event().unwrap();
 assert!(d.expect_end_element(&xml::name::OwnedName::local("a")).is_err()); }
''')
bug('b17-empty-attr','C01',[(SS,'''                if let ::std::option::Option::Some(ref value) = self.#label {
                  struct_start_event.attr(#label_name, value)
                } else {''','''                if let Some(value) = self.#label.as_deref().filter(|value| !value.is_empty()) {
                  struct_start_event.attr(#label_name, value)
                } else {''')],
 'an Option<String> attribute holding the empty string','Some("") is written like None and read back as None',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(attribute = true)] k: Option<String> }
fn main() { let a = A { k: Some("".into()) }; assert_eq!(from_str::<A>(&to_string(&a).unwrap()).unwrap(), a); }
''')

bug('b12-prim-plus','C16',[('yaserde_derive/src/primitives.rs','|s| #struct_name::from_str(s).map_err(|e| e.to_string()),',"|s| #struct_name::from_str(s.trim_start_matches('+')).map_err(|e| e.to_string()),")],
 'a primitive newtype over a string whose text starts with a plus sign','FromStr does not see the text of the element but a shortened one',
 '''#[derive(PrimitiveYaSerde, Debug, PartialEq, Default)] struct N(String);
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { n: N }
fn main() { assert_eq!(from_str::<A>("<A><n>+41</n></A>").unwrap().n.0, "+41"); assert_eq!(from_str::<A>("<A><n>41</n></A>").unwrap().n.0, "41"); }
''')
bug('b19-skip-recursion','C10',[(RD,'''    let depth = self.depth;

    while self.depth >= depth {
      cb(&self.next_event()?);
    }

    Ok(())
  }
''','''    self.skip_rest(&mut cb)
  }

  fn skip_rest(&mut self, cb: &mut dyn FnMut(&XmlEvent)) -> Result<(), String> {
    loop {
      let event = self.next_event()?;
      cb(&event);
      match event {
        XmlEvent::StartElement { .. } => self.skip_rest(cb)?,
        XmlEvent::EndElement { .. } => return Ok(()),
        _ => {}
      }
    }
  }
''')],
 'an unknown element with some ten thousand elements nested in each other','skipping it overflows the stack',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { x: i32 }
fn main() { let n = 30000; let d = format!("<A><u>{}{}</u><x>1</x></A>", "<q>".repeat(n), "</q>".repeat(n)); assert_eq!(from_str::<A>(&d).unwrap(), A { x: 1 }); }
''')
bug('b20-blank-text','C11',[(RD,'''            other => return Ok(other),''','''            XmlEvent::Characters(ref text) if text.trim().is_empty() => { /* skip */ }
            other => return Ok(other),''')],
 'character data that consists of Unicode white space only (a no-break space)','the cursor drops an event',
 '''use yaserde::__xml::reader::XmlEvent;
fn main() { let mut d = yaserde::de::Deserializer::new_from_reader("<a>&#160;</a>".as_bytes()); d.next_event().unwrap();
 match d.next_event().unwrap() { XmlEvent::Characters(s) => assert_eq!(s, "\\u{a0}"), e => panic!("{:?}", e) } }
''')
bug('b21-item-error','C12',[(SS,'''                  for item in &self.#label {
                    writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                    writer.set_skip_start_end(false);
                    ::yaserde::YaSerialize::serialize(item, writer)?;
                 }
                }''','''                  let mut result = ::std::result::Result::Ok(());
                  for item in &self.#label {
                    writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                    writer.set_skip_start_end(false);
                    result = ::yaserde::YaSerialize::serialize(item, writer);
                 }
                 result?;
                }''')],
 'a Vec of structs of which one that is not the last fails to serialize','the error of the item is lost',
 '''#[derive(Debug, PartialEq, Default)] struct N(i32);
impl YaSerialize for N {
  fn serialize<W: std::io::Write>(&self, w: &mut yaserde::ser::Serializer<W>) -> Result<(), String> {
    if self.0 < 0 { return Err("negative".into()); }
    yaserde::primitives::serialize_primitives(self, "N", w, |s| s.0.to_string()) }
  fn serialize_attributes(&self, a: Vec<yaserde::__xml::attribute::OwnedAttribute>, n: yaserde::__xml::namespace::Namespace) -> Result<(Vec<yaserde::__xml::attribute::OwnedAttribute>, yaserde::__xml::namespace::Namespace), String> { Ok((a, n)) } }
#[derive(YaSerialize)] struct A { v: Vec<N> }
fn main() { assert!(to_string(&A { v: vec![N(1), N(2)] }).is_ok()); assert!(to_string(&A { v: vec![N(1), N(-1)] }).is_err()); assert!(to_string(&A { v: vec![N(-1), N(2)] }).is_err()); }
''')
bug('b22-blank-option-text','C14',[(DS,'if text_content.is_empty() { None }','if text_content.trim().is_empty() { None }')],
 'an Option text field whose text is only a no-break space','the text is read as None and lost',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(text = true)] t: Option<String> }
fn main() { assert_eq!(from_str::<A>("<A>&#160;</A>").unwrap(), A { t: Some("\\u{a0}".into()) }); assert_eq!(from_str::<A>("<A>x</A>").unwrap(), A { t: Some("x".into()) }); assert_eq!(from_str::<A>("<A></A>").unwrap(), A { t: None }); }
''')
bug('b23-skip-clears-name','C15',[(RS,'    self.skip_start_end = state;\n','    self.skip_start_end = state;\n    if state {\n      self.start_event_name = None;\n    }\n')],
 'a serializer on which the name is set before the outer tags are suppressed','the setter of one setting resets the other',
 '''fn main() { let mut s = yaserde::ser::Serializer::new_from_writer(Vec::new(), &Config::default()); s.set_start_event_name(Some("n".into())); s.set_skip_start_end(true); s.set_skip_start_end(false); assert_eq!(s.get_start_event_name(), Some("n".to_string())); }
''')
bug('b24-variant-trim','C08',[(DE,'match content.as_str() {','match content.trim() {')],
 'an enum whose text is a variant name surrounded by no-break spaces','a text that is no variant\'s name selects a variant',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] enum E { #[default] A, B }
fn main() { assert_eq!(from_str::<E>("<E>&#160;B</E>").unwrap(), E::A); assert_eq!(from_str::<E>("<E>B</E>").unwrap(), E::B); }
''')
bug('b25-option-after-flatten','C02',[(SS,'''                if let ::std::option::Option::Some(ref item) = &self.#label {
                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                  writer.set_skip_start_end(false);
''','''                if let ::std::option::Option::Some(ref item) = &self.#label {
                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
''')],
 'an Option struct field declared after a flattened field','the struct of the Option is written without its element',
 '''#[derive(YaSerialize)] #[yaserde(flatten = true)] struct F { x: i32 }
#[derive(YaSerialize)] struct In { y: i32 }
#[derive(YaSerialize)] struct A { #[yaserde(flatten = true)] f: F, i: Option<In> }
fn main() { let s = to_string(&A { f: F { x: 1 }, i: Some(In { y: 2 }) }).unwrap(); assert!(s.ends_with("<A><x>1</x><i><y>2</y></i></A>"), "{}", s); }
''')
bug('b26-option-bool','C13',[(DS,'let map_if_bool = if field_type.to_string() == "bool" {','let map_if_bool = if matches!(field.get_type(), Field::FieldBool) {')],
 'an Option or Vec of bool whose text is 1 or 0','1 and 0 are read only by plain bool fields',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { b: bool, o: Option<bool>, v: Vec<bool> }
fn main() { assert_eq!(from_str::<A>("<A><b>1</b><o>0</o><v>1</v><v>true</v></A>").unwrap(), A { b: true, o: Some(false), v: vec![true, true] }); }
''')
bug('b27-default-ns-attr','C07',[(FI,'''    let prefix = if root_attributes.default_namespace == self.attributes.prefix {''','''    let prefix = if root_attributes.default_namespace == self.attributes.prefix
      || (self.attributes.rename.is_some() && root_attributes.default_namespace.is_some())
    {''')],
 'a renamed field with a prefix in a struct with a default namespace','the configured prefix is not written',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] #[yaserde(default_namespace = "d", prefix = "d", namespaces = { "d" = "http://d", "n" = "http://n" })] struct A { #[yaserde(prefix = "n", rename = "q")] x: i32, #[yaserde(prefix = "d")] y: i32 }
fn main() { let s = to_string(&A { x: 1, y: 2 }).unwrap(); assert!(s.contains("<n:q>1</n:q><y>2</y>"), "{}", s); }
''')
bug('b28-default-attr','C05',[(DS,'''          if let Some(default_function) = field.get_default_function() {
            quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }''','''          if let Some(default_function) = field.get_default_function() {
            if matches!(field.get_type(), Field::FieldString) && !field.is_attribute() {
              quote! { #label: #value_label.filter(|s| !s.is_empty()).unwrap_or_else(|| #default_function()), }
            } else {
              quote! { #label: #value_label.unwrap_or_else(|| #default_function()), }
            }''')],
 'a String element field with default whose element is present but empty','the provided empty string is replaced by the default',
 '''fn d() -> String { "dflt".into() }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(default = "d")] s: String }
fn main() { assert_eq!(from_str::<A>("<A><s></s></A>").unwrap().s, ""); assert_eq!(from_str::<A>("<A/>").unwrap().s, "dflt"); }
''')
bug('b29-vec-name-lost','C01',[(SS,'''                  for item in &self.#label {
                    writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                    writer.set_skip_start_end(false);
''','''                  writer.set_start_event_name(::std::option::Option::Some(#label_name.to_string()));
                  writer.set_skip_start_end(false);
                  for item in &self.#label {
''')],
 'a Vec of two structs that contain a struct themselves','the second item is written under another name and lost on reading',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct In { z: i32 }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct It { i: In }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { v: Vec<It> }
fn main() { let a = A { v: vec![It { i: In { z: 1 } }, It { i: In { z: 2 } }] }; assert_eq!(from_str::<A>(&to_string(&a).unwrap()).unwrap(), a); }
''')
bug('b30-ns-any-prefix','C03',[(DS,'(#namespace, #label_name) => {\n      let visitor','(_, #label_name) if #namespace.is_empty() || namespace == #namespace => {\n      let visitor')],
 'an unqualified scalar field and an element of the same local name in a foreign namespace that the struct declares','the foreign element, which no field names, is not ignored',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] #[yaserde(namespaces = { "n" = "http://n" })] struct A { #[yaserde(prefix = "n")] x: Option<i32>, #[yaserde(rename = "q")] y: Option<i32> }
fn main() { assert_eq!(from_str::<A>("<A xmlns:n='http://n'><n:x>1</n:x><q>2</q></A>").unwrap(), A { x: Some(1), y: Some(2) }); assert_eq!(from_str::<A>("<A xmlns:n='http://n'><q>2</q><n:q>3</n:q></A>").unwrap(), A { x: None, y: Some(2) }); }
''')

bug('b18-xml-attribute','C04',[(DS,'''            if attr.name.local_name == #label_name {
              #label = Some(attr.value.to_owned());''','''            if attr.name.local_name == #label_name && attr.name.prefix.as_deref() != Some("xml") {
              #label = Some(attr.value.to_owned());''')],
 'a String attribute field with the predefined prefix xml (xml:lang)','the attribute is not read',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(attribute = true, prefix = "xml", rename = "lang")] l: String }
fn main() { assert_eq!(from_str::<A>("<A xml:lang='en'/>").unwrap(), A { l: "en".into() }); }
''')

bug('b03-cdata-unconditional','C06',[(SS,'''            #conditions {
              let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
              writer.write(start_event).map_err(|e| e.to_string())?;
              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata''','''            {
              let start_event = ::yaserde::__xml::writer::XmlEvent::start_element(#label_name);
              writer.write(start_event).map_err(|e| e.to_string())?;
              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata''')],
 'a cdata field with skip_serializing or skip_serializing_if','the field is written although its modifiers say it should be left out',
 '''#[derive(YaSerialize)] struct A { #[yaserde(cdata = true, skip_serializing_if = "secret")] t: String, x: i32 }
impl A { fn secret(&self, v: &String) -> bool { v == "secret" } }
fn main() { assert!(!to_string(&A { t: "secret".into(), x: 1 }).unwrap().contains("secret")); assert!(to_string(&A { t: "q".into(), x: 1 }).unwrap().contains("<t>")); }
''')
bug('b07-flat-blank','C09',[(DS,'''                      reader.skip_element(|event| {
                        #write_unused
                      })?;''','''                      reader.skip_element(|event| {
                        if let ::yaserde::__xml::reader::XmlEvent::Characters(text) = event {
                          if text.trim().is_empty() {
                            return;
                          }
                        }
                        #write_unused
                      })?;''')],
 'a flattened struct with a string field whose text is a no-break space','the flattened field does not see the text of its child element',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] #[yaserde(flatten = true)] struct In { s: String }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct Out { #[yaserde(flatten = true)] i: In, y: u8 }
fn main() { assert_eq!(from_str::<Out>("<Out><s>&#160;</s><y>1</y></Out>").unwrap().i.s, "\\u{a0}"); }
''')
bug('b13-enum-end','C17',[(DE,'if name.local_name == named_element && reader.depth() == start_depth + 1 {','if name.local_name == named_element {')],
 'an enum field whose element has the name of a unit variant and contains an element of that name, and one more','the enum ends at the end tag of its child, and the parent takes what follows inside the enum\'s element for its own',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] enum E { #[default] Z, A }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct P { #[yaserde(rename = "A")] e: E, y: Option<u8> }
fn main() { assert_eq!(from_str::<P>("<P><A><A/><y>1</y></A></P>").unwrap(), P { e: E::A, y: None }); }
''')
PM='yaserde_derive/src/primitives.rs'
bug('b31-hex-pad','C16',[(PM,'write!(f, "{:02X}", self.0)','write!(f, "{:X}", self.0)')],
 'a HexBinaryYaSerde value below 16','the value is written with one digit, which is no hexBinary',
 '''use yaserde_derive::HexBinaryYaSerde;
#[derive(HexBinaryYaSerde, PrimitiveYaSerdeImpl, Debug, PartialEq, Clone, Copy, Default)] struct Hb(u16);
impl Hb { fn from_bits(b: u16) -> Option<Self> { Some(Hb(b)) } }
fn main() { use std::str::FromStr; assert_eq!(Hb(0xAB).to_string(), "AB"); assert_eq!(Hb(0xA).to_string(), "0A"); assert_eq!(Hb::from_str("0A").unwrap(), Hb(10)); }
'''.replace(', PrimitiveYaSerdeImpl',''))
bug('b32-named-vec-error','C12',[(SE,'''                        ::yaserde::YaSerialize::serialize(item, writer)?;
''','''                        ::yaserde::YaSerialize::serialize(item, writer).ok();
''')],
 'an enum variant with a named Vec field whose items fail to be written','the error of an item is dropped and the item left out',
 '''#[derive(YaSerialize, Debug)] struct In { v: Bad }
#[derive(Debug)] struct Bad;
impl YaSerialize for Bad {
 fn serialize<W: std::io::Write>(&self, _w: &mut yaserde::ser::Serializer<W>) -> Result<(), String> { Err("bad".into()) }
 fn serialize_attributes(&self, a: Vec<xml::attribute::OwnedAttribute>, n: xml::namespace::Namespace) -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), String> { Ok((a, n)) }
}
#[derive(YaSerialize, Debug)] enum E { N { items: Vec<In> } }
fn main() { assert!(to_string(&E::N { items: vec![] }).is_ok()); assert!(to_string(&E::N { items: vec![In { v: Bad }] }).is_err()); }
''')
bug('b33-ns-blank','C07',[(AT,'match namespace.as_str() {','match namespace.trim() {')],
 'a root element whose namespace differs from the configured one by a blank at the end','an element of another namespace is accepted',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)]
#[yaserde(prefix = "a", namespaces = { "a" = "http://a/x" })] struct A { y: Option<i32> }
fn main() { assert!(from_str::<A>("<q:A xmlns:q='http://a/x'/>").is_ok()); assert!(from_str::<A>("<q:A xmlns:q='http://a/x '/>").is_err()); }
''')
bug('b34-comment-splits','C14',[(RD,'.ignore_comments(true)','.ignore_comments(false)')],
 'a comment in the middle of the text of a text field','what stands before the comment is lost',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(text = true)] t: String }
fn main() { assert_eq!(from_str::<A>("<A>one<!-- and --> two</A>").unwrap().t, "one two"); }
''')
bug('b35-depth-saturates','C11',[(RD,'  depth: usize,\n','  depth: u8,\n'),(RD,'self.depth += 1;','self.depth = self.depth.saturating_add(1);'),
 (RD,'self.depth -= 1;','self.depth = self.depth.saturating_sub(1);'),(RD,'''  pub fn depth(&self) -> usize {
    self.depth
''','''  pub fn depth(&self) -> usize {
    self.depth.into()
''')],
 'elements nested more than 255 deep','depth stops counting, and skipping stops in the middle of an element',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { x: Option<i32> }
fn main() { for n in [3, 100, 400] { let d = format!("<A><u>{}{}<x>1</x></u><x>7</x></A>", "<b>".repeat(n), "</b>".repeat(n)); assert_eq!(from_str::<A>(&d), Ok(A { x: Some(7) }));
 let mut r = yaserde::de::Deserializer::new_from_reader(d.as_bytes()); let mut want = 0usize;
 loop { match r.next_event().unwrap() { xml::reader::XmlEvent::StartElement { .. } => want += 1, xml::reader::XmlEvent::EndElement { .. } => want -= 1, xml::reader::XmlEvent::EndDocument => break, _ => {} } assert_eq!(r.depth(), want); } } }
''')
bug('b36-flat-ns-attr','C09',[(SI,'source_namespace.extend(&namespace.into_owned());','if !attributes.is_empty() { source_namespace.extend(&namespace.into_owned()); }')],
 'a flattened struct that declares a namespace and has no attribute','the namespace of the flattened struct is not declared on the parent',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] #[yaserde(flatten = true, prefix = "n", namespaces = { "n" = "http://n" })] struct In { #[yaserde(prefix = "n")] a: i32 }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct Out { #[yaserde(flatten = true)] m: In }
fn main() { let s = to_string(&Out { m: In { a: 3 } }).unwrap(); assert!(s.contains("xmlns:n=\\"http://n\\""), "{}", s); }
''')
bug('b37-three-modifiers','C06',[(EL,'quote!(if !#skip_serializing && !self.#skip_if_function(&self.#label) && #prev_conditions)','quote!(if !self.#skip_if_function(&self.#label) && #prev_conditions)')],
 'a field with skip_serializing, skip_serializing_if and default','the field is written although skip_serializing is set',
 '''fn d() -> i32 { 5 }
#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(skip_serializing = true, skip_serializing_if = "neg", default = "d")] x: i32, y: i32 }
impl A { fn neg(&self, v: &i32) -> bool { *v < 0 } }
fn main() { assert!(!to_string(&A { x: 1, y: 1 }).unwrap().contains("<x>")); }
''')
bug('b38-empty-cdata','C14',[(SS,'''              let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
              writer.write(data).map_err(|e| e.to_string())?;
''','''              if !self.#label.is_empty() {
                let data = ::yaserde::__xml::writer::events::XmlEvent::cdata(&self.#label);
                writer.write(data).map_err(|e| e.to_string())?;
              }
''')],
 'a cdata field that holds the empty string','no CDATA section is written',
 '''#[derive(YaDeserialize, YaSerialize, Debug, PartialEq, Default)] struct A { #[yaserde(cdata = true)] c: String }
fn main() { assert!(to_string(&A { c: "x".into() }).unwrap().contains("<![CDATA[x]]>")); assert!(to_string(&A { c: "".into() }).unwrap().contains("<![CDATA[]]>")); }
''')

"""Rust text of the corpus: the types themselves, the harness the verifier reads, and the replay program."""
import os
import re
from corpus import CORPUS, BY, SCALARS


def san(s):
    return re.sub(r'\W+', '_', s).strip('_').lower()


DFLT = {'i32': '7', 'u8': '9', 'bool': 'true', 'String': 'String::from("dflt")', 'Leaf': 'Leaf { x: 70, k: String::from("dk") }',
        'Option<i32>': 'Some(7)', 'Vec<u8>': 'vec![9]', 'Option<Leaf>': 'None', 'Option<String>': 'Some(String::from("dflt"))', 'Kind': 'Kind::Blue', 'Num': 'Num(4)', 'f64': '1.5'}
PRED = {'i32': '*v < 0', 'String': 'v.starts_with("no")', 'Option<i32>': 'v.map_or(false, |x| x < 0)', 'Vec<u8>': 'v.first() == Some(&1)',
        'Leaf': 'v.x < 0', 'FlIn': 'v.x < 0', 'Option<Leaf>': 'v.as_ref().map_or(false, |l| l.x < 0)', 'Vec<Leaf>': 'v.len() == 1',
        'Option<String>': 'v.as_deref() == Some("no")', 'Option<bool>': '*v == Some(false)', 'Vec<String>': 'v.len() == 2', 'Kind': '*v == Kind::Red',
        'Option<Kind>': '*v == Some(Kind::Blue)', 'Vec<Kind>': 'v.len() == 1', 'Num': 'v.0 == 5'}


def extend(spec):
    """adds 'seed:number' randomly drawn types to the corpus"""
    import corpus
    import randtypes
    seed, n = spec.split(':')
    for t in randtypes.make(seed, int(n), corpus.F, corpus.V, corpus.T, SCALARS, {t.name: t for t in CORPUS}, DFLT, PRED):
        CORPUS.append(t)
        BY[t.name] = t


extend(os.environ.get('VCG_RANDOM', '1:0'))


def attrs(d):
    parts = []
    for k, v in d:
        if v is None or v is False:
            continue
        if v is True:
            parts.append('%s = true' % k)
        elif isinstance(v, dict):
            if v:
                parts.append('%s = { %s }' % (k, ', '.join('"%s" = "%s"' % (x, y.replace('"', '\\"')) for x, y in sorted(v.items()))))
        else:
            parts.append('%s = "%s"' % (k, v))
    a = '#[yaserde(%s)] ' % ', '.join(parts) if parts else ''
    # other attributes stand before or behind
    return ['', '#[doc = "d"] ', '#[allow(unused)] '][len(a) % 3] + a + ['', '#[doc = "e"] '][len(a) // 3 % 2]


def field(f, named=True):
    a = attrs([('attribute', f.role == 'attr'), ('text', f.role == 'text'), ('cdata', f.role == 'cdata'), ('flatten', f.role == 'flatten'),
               ('rename', f.rename), ('prefix', f.prefix), ('default', 'dflt_' + san(f.default) if f.default else None),
               ('skip_serializing', f.skip), ('skip_serializing_if', 'pred_' + san(f.skip_if) if f.skip_if else None)])
    return a + (('pub %s: ' % f.name) if named else '') + f.rust


def types():
    out = ['// generated from corpus.py', '#![allow(dead_code, unused_imports, non_camel_case_types, clippy::all)]',
           'use yaserde::{YaDeserialize, YaSerialize, PrimitiveYaSerde, DefaultYaSerde, HexBinaryYaSerde};', '']
    for k in sorted(DFLT):
        out.append('pub fn dflt_%s() -> %s { %s }' % (san(k), k, DFLT[k]))
    for t in CORPUS:
        der = [d for d, on in (('YaSerialize', t.ser), ('YaDeserialize', t.de)) if on]
        if t.prim:
            out.append('#[derive(%s, Debug, Clone, PartialEq, Default)]\npub struct %s(pub %s);' % (t.derive or ('HexBinaryYaSerde' if t.hex else 'PrimitiveYaSerde'), t.name, t.prim))
            if t.hex:
                out.append('impl %s { pub fn from_bits(b: %s) -> Option<Self> { Some(%s(b)) } }' % (t.name, t.prim, t.name))
            if t.derive:
                out.append('impl std::fmt::Display for %s { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }' % t.name)
                out.append('impl std::str::FromStr for %s { type Err = <%s as std::str::FromStr>::Err; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(%s) } }' % (t.name, t.prim, t.name))
            continue
        ta = attrs([('rename', t.rename), ('prefix', t.prefix), ('default_namespace', t.default_ns), ('namespaces', t.namespaces),
                    ('flatten', t.flatten), ('tag', t.tag)])
        head = t.name
        if t.generic:
            head = '%s_<%s: YaSerialize%s + Default>' % (t.name, t.generic[0], ' + YaDeserialize' if t.de else '')
            out.append('pub type %s = %s_<%s>;' % (t.name, t.name, t.generic[1]))
        if t.kind == 'struct':
            fs = [field(f) for f in t.fields]
            if t.macro:
                fs = [re.sub(r'\b%s(>*)$' % f.base, r'$m%d\1' % i, x) for i, (f, x) in enumerate(zip(t.fields, fs))]
            s = '#[derive(%s, Debug, Clone, PartialEq, Default)]\n%s\npub struct %s {\n%s}' % (
                ', '.join(der), ta, head, ''.join('  %s,\n' % x for x in fs))
            if t.macro:
                s = 'macro_rules! mk_%s { (%s) => { %s } }\nmk_%s!(%s);' % (
                    t.name, ', '.join('$m%d:ty' % i for i in range(len(fs))), s, t.name, ', '.join(f.base for f in t.fields))
            out.append(s)
            preds = sorted({f.skip_if for f in t.fields if f.skip_if})
            if preds:
                out.append('impl %s {\n%s}' % (t.name, ''.join('  pub fn pred_%s(&self, v: &%s) -> bool { %s }\n' % (san(p), p, PRED[p]) for p in preds)))
        else:
            dv = [v for v in t.variants if v.payload is None and not v.named]
            vs = []
            for v in t.variants:
                va = attrs([('rename', v.rename), ('prefix', v.prefix), ('flatten', v.flatten)])
                vs.append('  %s%s%s%s,\n' % ('#[default] ' if dv and v is dv[0] else '', va, v.name, '(%s)' % field(v.payload, False) if v.payload else ' { %s }' % ', '.join(field(f).replace('pub ', '', 1) for f in v.named) if v.named else ''))
            out.append('#[derive(%s, Debug, Clone, PartialEq%s)]\n%s\npub enum %s {\n%s}' % (', '.join(der), ', Default' if dv else '', ta, head, ''.join(vs)))
            if not dv:
                v = t.variants[0]
                out.append('impl Default for %s { fn default() -> Self { %s::%s(Default::default()) } }' % (t.name, t.name, v.name))
    return '\n'.join(out) + '\n'


CARGO = '''[package]
name = "%s"
version = "0.1.0"
edition = "2021"
[dependencies]
yaserde = { path = "REPO/yaserde", features = ["derive"] }
yaserde_derive = { path = "REPO/yaserde_derive" }
xml-rs = "0.8"
log = "0.4"
[workspace]
[profile.dev]
debug = 0
'''

HARNESS = '''#![allow(dead_code, unused)]
pub mod types;
use types::*;
use yaserde::{YaDeserialize, YaSerialize, Visitor};
use yaserde::de::Deserializer;
use yaserde::ser::{Serializer, Config};
use xml::reader::XmlEvent;
pub struct OW(pub u32);
impl std::io::Write for OW {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { Ok(b.len()) }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub struct OR(pub u32);
impl std::io::Read for OR { fn read(&mut self, _b: &mut [u8]) -> std::io::Result<usize> { Ok(0) } }
/// stands for an arbitrary type: its methods are replaced by their contracts
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Opq(pub u32);
impl YaSerialize for Opq {
  fn serialize<W: std::io::Write>(&self, w: &mut Serializer<W>) -> Result<(), String> { Ok(()) }
  fn serialize_attributes(&self, a: Vec<xml::attribute::OwnedAttribute>, n: xml::namespace::Namespace)
    -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), String> { Ok((a, n)) }
}
impl YaDeserialize for Opq {
  fn deserialize<R: std::io::Read>(r: &mut Deserializer<R>) -> Result<Self, String> { Ok(Opq(0)) }
}
pub fn opq_inner(r: &mut Deserializer<OR>) -> Result<Opq, String> { Ok(Opq(0)) }
pub fn opq_text(s: &str) -> Result<Opq, String> { Ok(Opq(0)) }
pub fn opq_show(v: &Opq) -> String { String::new() }

// -- reader cursor
pub fn root_cur_peek(r: &mut Deserializer<OR>) -> Result<XmlEvent, String> { r.peek().map(|e| e.clone()) }
pub fn root_cur_inner_next(r: &mut Deserializer<OR>) -> Result<XmlEvent, String> { r.inner_next() }
pub fn root_cur_next_event(r: &mut Deserializer<OR>) -> Result<XmlEvent, String> { r.next_event() }
pub fn root_cur_skip(r: &mut Deserializer<OR>, log: &mut Vec<XmlEvent>) -> Result<(), String> { r.skip_element(|e| log.push(e.clone())) }
pub fn root_cur_depth(r: &mut Deserializer<OR>) -> usize { r.depth() }
pub fn root_cur_read_inner(r: &mut Deserializer<OR>) -> Result<Opq, String> { r.read_inner_value::<Opq, _>(|r| opq_inner(r)) }
pub fn root_cur_expect_end(r: &mut Deserializer<OR>, n: &xml::name::OwnedName) -> Result<(), String> { r.expect_end_element(n) }
pub fn root_cur_new(src: OR) -> Deserializer<OR> { Deserializer::new_from_reader(src) }
pub fn root_cur_from_reader(src: OR) -> Result<Opq, String> { yaserde::de::from_reader(src) }
pub fn root_cur_from_str(s: &str) -> Result<Opq, String> { yaserde::de::from_str(s) }

// -- serializer entry points
pub fn root_ent_to_string(v: &Opq) -> Result<String, String> { yaserde::ser::to_string(v) }
pub fn root_ent_to_string_cfg(v: &Opq, c: &Config) -> Result<String, String> { yaserde::ser::to_string_with_config(v, c) }
pub fn root_ent_writer(v: &Opq, w: OW, c: &Config) -> Result<OW, String> { yaserde::ser::serialize_with_writer(v, w, c) }
pub fn root_ent_content(v: &Opq) -> Result<String, String> { yaserde::ser::to_string_content(v) }
pub fn root_ent_writer_content(v: &Opq, w: OW) -> Result<OW, String> { yaserde::ser::serialize_with_writer_content(v, w) }
pub fn root_ent_cfg_default() -> Config { Config::default() }
pub fn root_ent_skip(s: &mut Serializer<OW>, b: bool) -> bool { s.set_skip_start_end(b); s.skip_start_end() }
pub fn root_ent_name(s: &mut Serializer<OW>, n: Option<String>) -> Option<String> { s.set_start_event_name(n); s.get_start_event_name() }

// -- primitives
pub fn root_pri_ser(v: &Opq, n: &str, w: &mut Serializer<OW>) -> Result<(), String> { yaserde::primitives::serialize_primitives(v, n, w, |v| opq_show(v)) }
pub fn root_pri_de(r: &mut Deserializer<OR>) -> Result<Opq, String> { yaserde::primitives::deserialize_primitives(r, |s| opq_text(s)) }
'''


def harness():
    out = [HARNESS]
    for k in SCALARS + ['char', 'usize', 'isize']:
        out.append('pub fn root_val_%s(v: &%s, w: &mut Serializer<OW>) -> Result<(), String> { YaSerialize::serialize(v, w) }' % (k, k))
        out.append('pub fn root_vat_%s(v: &%s, a: Vec<xml::attribute::OwnedAttribute>, n: xml::namespace::Namespace) -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), String> { YaSerialize::serialize_attributes(v, a, n) }' % (k, k))
    for t in CORPUS:
        if t.ser:
            out.append('pub fn root_ser_%s(v: &%s, w: &mut Serializer<OW>) -> Result<(), String> { <%s as YaSerialize>::serialize(v, w) }' % (t.name, t.name, t.name))
            out.append('pub fn root_sat_%s(v: &%s, a: Vec<xml::attribute::OwnedAttribute>, n: xml::namespace::Namespace) -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), String> { <%s as YaSerialize>::serialize_attributes(v, a, n) }' % (t.name, t.name, t.name))
        if t.de:
            out.append('pub fn root_de_%s(r: &mut Deserializer<OR>) -> Result<%s, String> { <%s as YaDeserialize>::deserialize(r) }' % (t.name, t.name, t.name))
    return '\n'.join(out) + '\n'


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, 'w') as f:
        f.write(text)


def write_harness(d, repo='/repo'):
    write(d + '/Cargo.toml', CARGO.replace('REPO', repo) % 'harness')
    write(d + '/src/types.rs', types())
    write(d + '/src/lib.rs', harness())


# -- the replay program: runs the real code on concrete inputs --------------------------------------------------
REPLAY = r"""#![allow(dead_code, unused)]
mod types;
use types::*;
use std::io::{BufRead, Read, Write};
use yaserde::{YaDeserialize, YaSerialize};
use yaserde::de::Deserializer;
use yaserde::ser::{Serializer, Config};
use xml::reader::XmlEvent;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn unhexs(s: &str) -> String { String::from_utf8(unhex(s)).unwrap() }

pub struct Toks<'a>(std::str::SplitWhitespace<'a>);
impl<'a> Toks<'a> { fn next(&mut self) -> &'a str { self.0.next().unwrap() } }

trait Val: Sized { fn parse(t: &mut Toks) -> Self; fn dump(&self, o: &mut String); }
macro_rules! scalar { ($($t:ty),*) => { $(impl Val for $t {
  fn parse(t: &mut Toks) -> Self { unhexs(&t.next()[1..]).parse().unwrap() }
  fn dump(&self, o: &mut String) { o.push_str(" s"); o.push_str(&hex(format!("{}", self).as_bytes())); }
})* } }
scalar!(bool, i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, String);
impl<T: Val> Val for Option<T> {
  fn parse(t: &mut Toks) -> Self { if t.next() == "N" { None } else { Some(T::parse(t)) } }
  fn dump(&self, o: &mut String) { match self { None => o.push_str(" N"), Some(v) => { o.push_str(" S"); v.dump(o) } } }
}
impl<T: Val> Val for Vec<T> {
  fn parse(t: &mut Toks) -> Self { let n: usize = t.next()[1..].parse().unwrap(); (0..n).map(|_| T::parse(t)).collect() }
  fn dump(&self, o: &mut String) { o.push_str(&format!(" L{}", self.len())); for v in self { v.dump(o) } }
}

struct Bytes { data: Vec<u8>, pos: usize, chunk: usize, fail: usize }
impl Read for Bytes {
  fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if self.pos >= self.fail { return Err(std::io::Error::new(std::io::ErrorKind::Other, "fault")); }
    let n = b.len().min(self.chunk).min(self.data.len() - self.pos).min(self.fail - self.pos);
    b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}
struct Sink { out: std::rc::Rc<std::cell::RefCell<Vec<u8>>>, left: usize, once: bool }
impl Write for Sink {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.left == 0 && !b.is_empty() {
      if self.once { self.left = usize::MAX; }
      return Err(std::io::Error::new(std::io::ErrorKind::Other, "fault"));
    }
    let n = b.len().min(self.left);
    self.left -= n;
    self.out.borrow_mut().extend_from_slice(&b[..n]);
    Ok(n)
  }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn event(e: &XmlEvent) -> String {
  match e {
    XmlEvent::StartElement { name, attributes, .. } => {
      let mut a: Vec<String> = attributes.iter().map(|a| format!("{}={}", a.name.local_name, hex(a.value.as_bytes()))).collect();
      a.sort();
      format!("S:{}:{}:{}", name.local_name, name.namespace.clone().unwrap_or_default(), a.join(","))
    }
    XmlEvent::EndElement { name } => format!("E:{}:{}", name.local_name, name.namespace.clone().unwrap_or_default()),
    XmlEvent::Characters(s) => format!("C:{}", hex(s.as_bytes())),
    XmlEvent::EndDocument => "D".to_string(),
    other => format!("O:{}", hex(format!("{:?}", other).as_bytes())),
  }
}

fn show<T: Val>(r: &Result<T, String>) -> String {
  match r { Ok(v) => { let mut s = "ok".to_string(); v.dump(&mut s); s } Err(e) => format!("err {}", hex(e.as_bytes())) }
}

fn de<T: YaDeserialize + Val>(doc: Vec<u8>) -> String {
  match String::from_utf8(doc.clone()) {
    Ok(s) => show(&yaserde::de::from_str::<T>(&s)),
    Err(_) => show(&yaserde::de::from_reader::<_, T>(&doc[..])),
  }
}
fn defail<T: YaDeserialize + Val>(chunk: usize, fail: usize, doc: Vec<u8>) -> String {
  show(&yaserde::de::from_reader::<_, T>(Bytes { data: doc, pos: 0, chunk, fail }))
}
/// reads the wrapper's start tag, one value of T, and then whatever is left
fn nest<T: YaDeserialize + Val>(doc: Vec<u8>, fail: usize) -> String {
  let mut d = Deserializer::new_from_reader(Bytes { data: doc, pos: 0, chunk: 7, fail });
  if let Err(e) = d.next_event() { return format!("err {}", hex(e.as_bytes())); }
  let d0 = d.depth();
  let r = T::deserialize(&mut d);
  let mut s = show(&r);
  if r.is_ok() {
    s.push_str(&format!(" | {}", d.depth() as i64 - d0 as i64));
    for _ in 0..200 {
      match d.next_event() {
        Ok(XmlEvent::EndDocument) => break,
        Ok(e) => { s.push(' '); s.push_str(&event(&e)); }
        Err(_) => { s.push_str(" X"); break; }
      }
    }
  }
  s
}
fn outs(r: Result<String, String>) -> String { match r { Ok(s) => format!("ok {}", hex(s.as_bytes())), Err(e) => format!("err {}", hex(e.as_bytes())) } }
fn sink(n: usize) -> (Sink, std::rc::Rc<std::cell::RefCell<Vec<u8>>>) {
  let o = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
  (Sink { out: o.clone(), left: n, once: false }, o)
}
fn ser<T: YaSerialize + Val>(how: &str, a: &str, t: &mut Toks) -> String {
  match how {
    "ser" => outs(yaserde::ser::to_string(&T::parse(t))),
    "cfg" => {
      let mut p = a.splitn(3, ':');
      let c = Config { perform_indent: p.next() == Some("1"), write_document_declaration: p.next() == Some("1"),
        indent_string: match p.next() { Some("-") | None => None, Some(x) => Some(unhexs(x)) } };
      let v = T::parse(t);
      let r = outs(yaserde::ser::to_string_with_config(&v, &c));
      let (w, o) = sink(usize::MAX);
      let r2 = yaserde::ser::serialize_with_writer(&v, w, &c).map(|w| String::from_utf8(w.out.borrow().clone()).unwrap());
      format!("{} | {}", r, outs(r2))
    }
    "content" => {
      let v = T::parse(t);
      let (w, o) = sink(usize::MAX);
      let r2 = yaserde::ser::serialize_with_writer_content(&v, w).map(|w| String::from_utf8(w.out.borrow().clone()).unwrap());
      format!("{} | {}", outs(yaserde::ser::to_string_content(&v)), outs(r2))
    }
    "fail" => {
      // every position at which the writer can fail: "n" = number of bytes of the complete output
      let v = T::parse(t);
      let c = Config { perform_indent: false, write_document_declaration: false, indent_string: None };
      let (w, o) = sink(usize::MAX);
      let r = yaserde::ser::serialize_with_writer(&v, w, &c);
      let n = o.borrow().len();
      let mut s = format!("{} {}", if r.is_ok() { "ok" } else { "err" }, n);
      let step = (n / 400).max(1);
      for i in (0..n).step_by(step) {
        for once in [false, true] {
          let (mut w, _) = sink(i);
          w.once = once;
          if yaserde::ser::serialize_with_writer(&v, w, &c).is_ok() { s.push_str(&format!(" {}", i)); }
        }
      }
      s.push_str(" |");
      let (w, o) = sink(usize::MAX);
      let _ = yaserde::ser::serialize_with_writer_content(&v, w);
      let n = o.borrow().len();
      for i in 0..n {
        for once in [false, true] {
          let (mut w, _) = sink(i);
          w.once = once;
          if yaserde::ser::serialize_with_writer_content(&v, w).is_ok() { s.push_str(&format!(" {}", i)); }
        }
      }
      s
    }
    "named" => {
      // as an enclosing type serializes a field: a name given, and what is left behind
      let v = T::parse(t);
      let (w, o) = sink(usize::MAX);
      let c = Config { perform_indent: false, write_document_declaration: false, indent_string: None };
      let mut s = Serializer::new_from_writer(w, &c);
      s.set_start_event_name(if a == "-" { None } else { Some(a.to_string()) });
      s.set_skip_start_end(false);
      let r = YaSerialize::serialize(&v, &mut s);
      outs(r.map(|_| String::from_utf8(o.borrow().clone()).unwrap()))
    }
    _ => "bad".into(),
  }
}
fn rt<T: YaSerialize + YaDeserialize + Val + PartialEq>(t: &mut Toks) -> String {
  let v = T::parse(t);
  match yaserde::ser::to_string(&v) {
    Err(e) => format!("sererr {}", hex(e.as_bytes())),
    Ok(s) => { let r = yaserde::de::from_str::<T>(&s); format!("{} {} {}", if r.as_ref().map_or(false, |w| *w == v) { "same" } else { "differs" }, hex(s.as_bytes()), show(&r)) }
  }
}

/// reader cursor: a script of p(eek) n(ext) s(kip) d(epth) r(ead_inner: next Characters) e(xpect_end)
fn cursor(script: &str, doc: Vec<u8>) -> String {
  let mut d = Deserializer::new_from_reader(Bytes { data: doc, pos: 0, chunk: 5, fail: usize::MAX });
  let mut s = String::new();
  for c in script.chars() {
    let x = match c {
      'p' => match d.peek() { Ok(e) => event(e), Err(_) => "X".into() },
      'n' => match d.next_event() { Ok(e) => event(&e), Err(_) => "X".into() },
      'i' => match d.inner_next() { Ok(e) => event(&e), Err(_) => "X".into() },
      's' => { let mut l = vec![]; let r = d.skip_element(|e| l.push(event(e))); format!("{}[{}]", if r.is_ok() { "k" } else { "X" }, l.join(";")) }
      'd' => format!("{}", d.depth()),
      'r' => match d.read_inner_value::<String, _>(|r| match r.next_event()? { XmlEvent::Characters(s) => Ok(s), _ => Err("no text".into()) }) { Ok(v) => format!("v{}", hex(v.as_bytes())), Err(_) => "X".into() },
      'R' => match d.read_inner_value::<String, _>(|r| Err("refused".into())) { Ok(v) => "v".into(), Err(_) => "X".into() },
      'e' => { let n = xml::name::OwnedName::local("a"); match d.expect_end_element(&n) { Ok(()) => "k".into(), Err(_) => "X".into() } }
      _ => "?".into(),
    };
    s.push(' '); s.push_str(&x);
  }
  s
}

/// scalars serialized as values of their own
fn value(ty: &str, name: &str, txt: &str, fail: usize) -> String {
  macro_rules! one { ($t:ty) => {{
    let v: $t = match txt.parse() { Ok(v) => v, Err(_) => return "unreadable".into() };
    let c = Config { perform_indent: false, write_document_declaration: false, indent_string: None };
    let (w, o) = sink(fail);
    let mut s = Serializer::new_from_writer(w, &c);
    if name != "-" { s.set_start_event_name(Some(name.to_string())); }
    let r = YaSerialize::serialize(&v, &mut s);
    let (a, n) = YaSerialize::serialize_attributes(&v, vec![], xml::namespace::Namespace::empty()).unwrap();
    format!("{} {}", outs(r.map(|_| String::from_utf8(o.borrow().clone()).unwrap())), a.len())
  }} }
  match ty { "bool" => one!(bool), "char" => one!(char), "i8" => one!(i8), "u8" => one!(u8), "i16" => one!(i16), "u16" => one!(u16), "i32" => one!(i32), "u32" => one!(u32),
    "i64" => one!(i64), "u64" => one!(u64), "f32" => one!(f32), "f64" => one!(f64), "usize" => one!(usize), "isize" => one!(isize), _ => "bad".into() }
}

/// a document with an element nested very deeply, read with little stack
fn deep<T: YaDeserialize + Val + 'static>(t: &mut Toks) -> String {
  let (a, n, b) = (unhexs(&t.next()[1..]), unhexs(&t.next()[1..]), unhexs(&t.next()[1..]));
  let k: usize = t.next().parse().unwrap();
  let doc = format!("{}{}{}{}", a, format!("<{}>", n).repeat(k), format!("</{}>", n).repeat(k), b);
  match std::thread::Builder::new().stack_size(128 << 10).spawn(move || match yaserde::de::from_str::<T>(&doc) { Ok(_) => "ok".to_string(), Err(_) => "err".to_string() }).unwrap().join() {
    Ok(s) => s,
    Err(_) => "panic".into(),
  }
}
fn setters(t: &mut Toks) -> String {
  let (w, _) = sink(usize::MAX);
  let c = Config { perform_indent: false, write_document_declaration: false, indent_string: None };
  let mut s = Serializer::new_from_writer(w, &c);
  let mut o: Vec<String> = vec![];
  while let Some(x) = t.0.next() {
    match &x[..1] {
      "n" => s.set_start_event_name(Some(unhexs(&x[1..]))),
      "c" => s.set_start_event_name(None),
      "s" => s.set_skip_start_end(true),
      _ => s.set_skip_start_end(false),
    }
    o.push(format!("{}:{}", s.skip_start_end(), match s.get_start_event_name() { None => "-".to_string(), Some(n) => format!("s{}", hex(n.as_bytes())) }));
  }
  o.join(" ")
}

fn run(line: &str) -> String {
  let mut t = Toks(line.split_whitespace());
  let cmd = t.next();
  match cmd {
    "cur" => { let s = t.next(); return cursor(s, unhex(&t.next()[1..])); }
    "val" => { let ty = t.next(); let n = t.next(); let x = unhexs(&t.next()[1..]); let f: usize = t.next().parse().unwrap(); return value(ty, n, &x, f); }
    "set" => return setters(&mut t),
    "dcfg" => { let c = Config::default(); return format!("{} {} {:?}", c.perform_indent, c.write_document_declaration, c.indent_string); }
    _ => {}
  }
  let ty = t.next();
  dispatch(cmd, ty, &mut t)
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let stdin = std::io::stdin();
  let out = std::io::stdout();
  for line in stdin.lock().lines() {
    let line = line.unwrap();
    let h = std::thread::Builder::new().stack_size(64 << 20);
    let r = std::panic::catch_unwind(|| run(&line)).unwrap_or_else(|e| {
      let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
      format!("panic {}", hex(m.as_bytes()))
    });
    let mut o = out.lock();
    o.write_all(r.as_bytes()).unwrap();
    o.write_all(b"\n").unwrap();
    o.flush().unwrap();
  }
}
"""


def replay_main():
    out = [REPLAY]
    de, ser = [], []
    for t in CORPUS:
        n = t.name
        if t.kind == 'prim':
            out.append('impl Val for %s { fn parse(t: &mut Toks) -> Self { %s(Val::parse(t)) } fn dump(&self, o: &mut String) { self.0.dump(o) } }' % (n, n))
        elif t.kind == 'struct':
            out.append('impl Val for %s { fn parse(t: &mut Toks) -> Self { %s { %s } } fn dump(&self, o: &mut String) { %s } }' % (
                n, n, ', '.join('%s: Val::parse(t)' % f.name for f in t.fields), ' '.join('self.%s.dump(o);' % f.name for f in t.fields)))
        else:
            out.append('impl Val for %s { fn parse(t: &mut Toks) -> Self { match t.next() { %s _ => unreachable!() } } fn dump(&self, o: &mut String) { match self { %s } } }' % (
                n, ' '.join('"V%d" => %s::%s%s,' % (i, n, v.name, '(Val::parse(t))' if v.payload else ' { %s }' % ', '.join('%s: Val::parse(t)' % f.name for f in v.named) if v.named else '') for i, v in enumerate(t.variants)),
                ' '.join('%s::%s%s => { o.push_str(" V%d"); %s }' % (n, v.name, '(x)' if v.payload else ' { %s }' % ', '.join(f.name for f in v.named) if v.named else '', i, 'x.dump(o);' if v.payload else ' '.join('%s.dump(o);' % f.name for f in v.named or [])) for i, v in enumerate(t.variants))))
        if t.de:
            de.append(n)
        if t.ser:
            ser.append(n)
    out.append('fn dispatch(cmd: &str, ty: &str, t: &mut Toks) -> String {\n  match cmd {')
    arm = lambda names, call: ' '.join('"%s" => %s,' % (n, call % n) for n in names) + ' _ => "bad".into()'
    out.append('    "de" => { let d = unhex(&t.next()[1..]); match ty { %s } }' % arm(de, 'de::<%s>(d)'))
    out.append('    "defail" => { let c = t.next().parse().unwrap(); let f = t.next().parse().unwrap(); let d = unhex(&t.next()[1..]); match ty { %s } }' % arm(de, 'defail::<%s>(c, f, d)'))
    out.append('    "nest" => { let f = t.next().parse().unwrap(); let d = unhex(&t.next()[1..]); match ty { %s } }' % arm(de, 'nest::<%s>(d, f)'))
    out.append('    "deep" => match ty { %s },' % arm(de, 'deep::<%s>(t)'))
    out.append('    "rt" => match ty { %s },' % arm([n for n in ser if n in de], 'rt::<%s>(t)'))
    out.append('    how => { let a = t.next(); match ty { %s } }\n  }\n}' % arm(ser, 'ser::<%s>(how, a, t)'))
    return '\n'.join(out) + '\n'


def write_replay(d, repo='/repo'):
    write(d + '/Cargo.toml', CARGO.replace('REPO', repo) % 'replay')
    write(d + '/src/types.rs', types())
    write(d + '/src/main.rs', replay_main())


if __name__ == '__main__':
    import sys
    write_harness(sys.argv[1])

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
DS='yaserde_derive/src/de/expand_struct.rs'; DE='yaserde_derive/src/de/expand_enum.rs'; DM='yaserde_derive/src/de/mod.rs'
SS='yaserde_derive/src/ser/expand_struct.rs'; SE='yaserde_derive/src/ser/expand_enum.rs'; SI='yaserde_derive/src/ser/implement_serializer.rs'
EL='yaserde_derive/src/ser/element.rs'; FI='yaserde_derive/src/common/field.rs'; AT='yaserde_derive/src/common/attribute.rs'
NS='yaserde_derive/src/ser/namespace.rs'; LA='yaserde_derive/src/ser/label.rs'; PR='yaserde_derive/src/primitives.rs'
RD='yaserde/src/de/mod.rs'; RS='yaserde/src/ser/mod.rs'; RP='yaserde/src/primitives.rs'; RL='yaserde/src/lib.rs'
p('C01','Derived types survive a serialize/deserialize round trip',
 'For a type that derives both YaSerialize and YaDeserialize from the documented field kinds (plain, Option and Vec fields of scalars, strings and nested derived structs; attributes; text content; unit and newtype enums) and any value of it (no NaN, strings without surrounding white space, attribute values without tabs or line breaks, no empty plain text field, no "]]>" in a cdata field), deserializing what to_string produced yields Ok of an equal value. This covers empty strings, an absent and a present Option, empty and non-empty Vec element fields with their order and multiplicity, and nested structs whose element name is also the name of one of their own fields.',
 ['inputs','programs'],'every value of every type built from the supported field kinds',
 'The tests round-trip about thirty fixed values; the combination of field kind, role, modifier and value is unbounded, and they never use an empty string or a name collision.',
 [DS,DE,SS,SE,SI,EL,RD,RS],[('generated serialize','%s: serialize'%SS),('generated deserialize','%s: parse'%DS)],
 observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C02','A struct serializes to exactly one element with its fields in order',
 'Serializing a derived struct that is not flattened writes exactly one start tag, then for every non-attribute field in declaration order that field\'s elements (none for an absent Option, one per item for a Vec in item order, named by the field\'s rename or own name and never by the nested type\'s name), then the matching end tag, and nothing else. At the top level the tag is the type\'s rename or own name.',
 ['inputs','programs'],'every value of every struct built from the supported field kinds, at top level and nested',
 'Tests compare a few literal documents; order, nesting and multiplicity must hold for all values and field lists, including what an earlier field\'s serialization left behind in the serializer.',
 [SS,SI,EL,FI,LA,RS],[('start/end emission','%s: implement_serializer'%SI),('per-field emission','%s: struct_inspector'%SS),('scalar element','%s: enclose_xml_event'%EL)],
 state=[('skip_start_end','child must not write its own tags','yaserde/src/ser/mod.rs Serializer'),('start_event_name','element name chosen by the parent','yaserde/src/ser/mod.rs Serializer')],
 observe=['yaserde::ser::to_string'])
p('C03','Child elements reach exactly the field they name, in any order',
 'Deserializing a derived struct gives each element field exactly the content of the direct child elements whose namespace and local name are that field\'s, wherever they stand among their siblings: a single or Option field takes the last readable one, a Vec collects all of them in document order. Child elements that match no field are ignored together with everything inside them, and change no field.',
 ['inputs','programs'],'every document whose scalar fields contain only text, every struct built from the supported field kinds',
 'Tests feed a handful of documents, nearly all in declaration order and without unknown subtrees that contain look-alike elements; the claim is over all child sequences.',
 [DS,RD,FI],[('dispatch on (namespace, local name)','%s: call_visitors'%DS),('skipping','%s: skip_element'%RD),('scalar reading','%s: read_inner_value'%RD)],
 state=[('__<field>_value','accumulator of one field','generated deserialize')],observe=['yaserde::de::from_str'])
p('C04','Attribute fields are exchanged with the attributes of the own tag only',
 'An attribute field is written as an attribute of its struct\'s own start tag under the field\'s rename or own name (with prefix), an absent Option writes none, and every non-attribute field writes none. On reading, an attribute field takes its value from the attribute of that local name on the struct\'s own start tag, never from a child element or a child\'s attributes; a Vec attribute takes one item per white-space separated word, in order.',
 ['inputs','programs'],'every attribute list and every struct with attribute fields of any supported scalar, enum, Option or Vec type',
 'A few literal attributes are tested for some types; all type/Option combinations and any set of surrounding attributes and children must behave.',
 [DS,SS,SI,FI],[('attribute loading','%s: attributes_loading'%DS),('attribute emission','%s: append_attributes'%SS)],
 observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C05','Missing fields become None, empty, the default, or an error',
 'When a document provides no value for a field, an Option field is None, a Vec field is empty, a field with a default function gets that function\'s value, and any other field makes deserialization return Err rather than an invented value. A field for which a value is provided gets that value and neither the default nor an error.',
 ['inputs','programs'],'every subset of present fields for every struct of supported fields',
 'Tests leave out single fields of a few structs; the subsets and field kinds are not enumerated.',
 [DS,'yaserde_derive/src/de/build_default_value.rs',FI],[('struct builder','%s: struct_builder'%DS),('initial accumulators','yaserde_derive/src/de/build_default_value.rs')],
 observe=['yaserde::de::from_str'])
p('C06','A field is left out of the output exactly when its modifiers say so',
 'A field (element or attribute) is omitted from the serialized output if and only if skip_serializing is true, or its skip_serializing_if function returns true for the value, or it has a default function and the value equals that default (or it is an absent Option or empty Vec). Omitting a field changes nothing else in the output.',
 ['inputs','programs'],'every value and every combination of the three modifiers on element and attribute fields',
 'Tests use each modifier alone on one or two types with one skipped and one kept value; the combinations and the other direction are unchecked.',
 [EL,SS,FI],[('element conditions','%s: condition_generator'%EL),('attribute conditions','%s: ser_wrap_default_attribute'%FI)],
 observe=['yaserde::ser::to_string'])
p('C07','Namespaces are declared, prefixed and checked as configured',
 'A start tag declares exactly the namespaces configured on its type (the default namespace without prefix) and writes the configured prefix on element, attribute and root names unless it is the default namespace\'s. When reading at the document root, an element in a namespace other than the one configured for the type is rejected with Err; a child element is matched to a field only if its namespace is the one configured for that field, so equal local names in different namespaces never mix.',
 ['inputs','programs'],'every namespace/prefix configuration and every namespace occurring in a document',
 'Tests use one to three literal namespaces each; wrong-namespace children and most prefix/default combinations are not sampled.',
 [AT,NS,LA,FI,DM,DS,DE],[('namespace declaration','%s: generate_namespaces_definition'%NS),('prefixing','%s: prefix_namespace, %s: renamed_label, %s: build_label_name'%(AT,FI,LA)),('checking','%s: get_namespace_matching'%AT)],
 observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C08','Enum variants map one-to-one to their XML names',
 'Serializing an enum value writes the name (rename or identifier) of its own variant: as text for a unit variant, as an element around the payload for a newtype variant (one element per item for a Vec payload), as the value of the tag attribute when the enum has a tag; a variant with named fields (write-only) as its fields\' elements in order. Deserializing selects the variant whose name is that text, element name or tag value and hands it the payload found there; a name that belongs to no variant selects none of them. Text selects unit variants only, and only where there is no tag; what a unit variant\'s own element contains selects nothing.',
 ['inputs','programs'],'every enum of unit and newtype variants, with or without renames, tag and payload kinds; every value; every candidate name in a document',
 'Tests sample a few enums and values; wrong-variant mix-ups between similarly named variants or payload kinds are not covered.',
 [DE,SE],[('variant matching','%s: parse_variant'%DE),('variant emission','%s: inner_enum_inspector'%SE)],observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C09','Flattened fields merge into, and are rebuilt from, the parent element',
 'A flattened struct field writes its own fields as children of the parent element at that position, and its attributes and namespaces on the parent\'s start tag, without a tag of its own. When reading, a flattened field sees exactly the parent\'s start tag and those child elements, complete and in order, that no other field of the parent claimed; a flattened Option that cannot be built from them is None, and a flattened plain field then yields Err.',
 ['inputs','programs'],'every parent with flattened struct or enum fields and every sequence of claimed and unclaimed children',
 'Three fixed documents are tested; interleaving of claimed and unclaimed children is not.',
 [DS,SS,SE,SI],[('unused event buffer','%s: build_code_for_unused_xml_events'%DS),('attribute merging','%s: serialize_attributes'%SI)],
 observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C10','Deserialization of any input returns: no panic and no endless loop',
 'For every byte sequence and every derived type built from supported field kinds, from_str and from_reader return Ok or Err. They never panic and never loop or recurse without consuming input, whatever the nesting, truncation, unexpected or repeated elements, or malformed scalar text; stack use may grow with the nesting depth of a recursive type, but not with that of skipped content.',
 ['inputs','programs'],'all inputs, including malformed, truncated and schema-violating documents',
 'Tests feed two malformed documents; robustness is a for-all-inputs claim.',
 [DS,DE,RD,RP],[('event loop','%s: parse'%DS),('depth accounting','%s: next_event, skip_element'%RD)],
 state=[('depth','number of elements currently open','yaserde/src/de/mod.rs Deserializer')],observe=['yaserde::de::from_str'])
p('C11','The deserializer cursor delivers every event once and counts depth exactly',
 'peek never consumes: any number of peeks followed by next_event yields the one event that next_event alone would yield, document prologue, comments and processing instructions excepted, in document order without loss or repetition. depth is always the number of started and not yet ended elements among the events delivered; skip_element delivers to its callback and consumes exactly the rest of the innermost open element including its end tag; read_inner_value succeeds only if the next event is a start tag, the callback succeeds, and the following event is the end tag with the same name.',
 ['inputs','histories'],'every interleaving of peek, next_event, skip_element, read_inner_value on every event stream',
 'No unit test calls the cursor directly; it is exercised only through generated code on well-formed documents.',
 [RD],[('peek/next_event','%s: Deserializer::peek, inner_next, next_event'%RD),('skip_element','%s: skip_element'%RD),('read_inner_value','%s: read_inner_value, expect_end_element'%RD)],
 state=[('peeked','event fetched and not yet delivered','yaserde/src/de/mod.rs Deserializer'),('depth','open elements','yaserde/src/de/mod.rs Deserializer')],
 observe=['Deserializer::peek','Deserializer::next_event','Deserializer::skip_element','Deserializer::read_inner_value','Deserializer::depth'])
p('C12','Reader and writer failures surface as Err',
 'If the XML reader reports an error before the value\'s end tag was reached, deserialization returns Err; if any write of the underlying writer fails while a value is serialized, to_string, to_string_with_config or serialize_with_writer returns Err. An error of a nested element\'s or item\'s own serialization or deserialization is returned by the enclosing one (a flattened Option excepted), never turned into Ok with missing data.',
 ['inputs','fault_sequences','programs'],'every position at which reader, writer or a nested value can fail',
 'No test makes the writer fail and only two feed a reader error.',
 [RS,RL,RP,DS,DE,SS,SE,SI,RD],[('? and map_err chains','generated code'),('serialize_type!','%s'%RL)],observe=['yaserde::ser::serialize_with_writer','yaserde::de::from_reader'])
p('C13','Scalars use their standard text form over the full range',
 'Every integer, float, bool and string field or item is written as its Display form and read back with FromStr of exactly the field\'s type, over that type\'s full range; struct bool fields additionally read "1" as true and "0" as false. Text that the field\'s type cannot parse never produces a value: an attribute then yields Err, an element field counts as not provided.',
 ['inputs','programs'],'every scalar type, role (element, attribute, item, enum payload) and text',
 'Tests use one value per type; range limits, sign, type confusion between widths and malformed text are not sampled.',
 [DS,DE,FI,SS,SE,EL],[('type mapping','%s: Field::from'%FI),('visitors','%s: simple_type_visitor'%DS),('formatting','%s'%EL)],observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C14','Text and CDATA content is carried over unchanged',
 'A text field is written as character data directly inside its struct\'s element, after the same fields\' order as declared, and read from that element\'s own character data, not from that of its children; CDATA sections are text and comments do not break text up; an Option text field with no text reads as None. A cdata field is written as one element containing exactly the value as a CDATA section.',
 ['inputs','programs'],'every string and every mix of text, attributes and child elements',
 'Two or three literal documents are tested.',
 [DS,SS],[('set_text','%s: set_text'%DS),('text/cdata emission','%s: struct_inspector'%SS)],observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C15','All serializer entry points write the same content under the given settings',
 'to_string, to_string_with_config and serialize_with_writer write the same events for a value and differ only by the indentation, indent string and document declaration their Config asks for, which reach the emitter unchanged. to_string_content and serialize_with_writer_content write the same content without the outermost start and end tag and without a declaration. The skip and name settings of a fresh serializer are off and unset, and each setter changes only its own setting.',
 ['inputs','configurations'],'every value and every Config',
 'Tests use the default Config only.',
 [RS],[('entry points','%s: to_string, to_string_with_config, serialize_with_writer, to_string_content'%RS),('emitter configuration','%s: new_from_writer, new_for_inner'%RS)],
 state=[('skip_start_end','','yaserde/src/ser/mod.rs'),('start_event_name','','yaserde/src/ser/mod.rs')],observe=['yaserde::ser::to_string_with_config','yaserde::ser::to_string_content'])
p('C16','Primitive newtype derives write Display and read FromStr',
 'A type deriving PrimitiveYaSerde, DefaultYaSerde or HexBinaryYaSerde is written as one element holding its Display text, named by the enclosing field or else by its own type name, or as the bare text when the outer tags are suppressed, and it is read back by FromStr from the text of its element (the empty string if there is none). A FromStr failure is returned as Err. What PrimitiveYaSerde generates for Display and FromStr is that of the wrapped type; what HexBinaryYaSerde generates is the hexadecimal form of the bits, at least two upper-case digits when written.',
 ['inputs','programs'],'every inner type and value, nested and at top level',
 'One literal value is tested.',
 [PR,RP],[('serialize_primitives','%s'%RP),('deserialize_primitives','%s'%RP),('primitive_serde','%s'%PR)],observe=['yaserde::ser::to_string','yaserde::de::from_str'])
p('C17','Deserializing a nested value stops at its own end tag',
 'Deserializing a derived value consumes exactly its own element: it never reads past the end tag that closes the element it started on, so the siblings that follow are still seen by the parent and cannot influence the nested value, nor can the nested content be taken for content of the parent. This holds at any nesting depth and for nested elements with the same name as an ancestor.',
 ['inputs','programs'],'every position of a nested value and every following content',
 'Tests cover two documents with repeated names.',
 [DS,DE,RD],[('end condition (name and depth)','%s: EndElement arm'%DS),('end condition','%s: EndElement arm'%DE)],
 state=[('start_depth','depth at entry','generated deserialize')],observe=['yaserde::de::from_str'])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
